include!(concat!(env!("VGEN_DIR"), "/all_2.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
