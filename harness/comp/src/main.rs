mod basic;
mod canon;
mod cli;
mod compile;
mod docs;
mod dot;
mod fault;
mod member;
mod formatting;
mod literals;
mod names;
mod robust;
mod run;
mod sg;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "litgen" {
        if let Err(e) = literals::litgen(std::path::Path::new(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap()) {
            println!("{e}");
            std::process::exit(3);
        }
        return;
    }
    run::main(&[("valid", basic::valid), ("accept", fault::accept), ("diag", fault::diag), ("literals", literals::literals), ("robust", robust::robust), ("compile", compile::compile), ("formatting", formatting::formatting), ("names", names::names), ("dot", dot::dots), ("docs", docs::docs), ("cli", cli::cli)]);
}
