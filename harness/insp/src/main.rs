#[path = "../../comp/src/run.rs"]
mod run;
#[path = "../../comp/src/sg.rs"]
#[allow(dead_code)]
mod sg;

mod data;
mod inspect;
mod model;
mod viewer;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "dump" {
        data::dump(std::path::Path::new(&a[2]), a[3].parse().unwrap());
        return;
    }
    run::main(&[("inspect", inspect::inspect), ("viewer", viewer::viewer)]);
}
