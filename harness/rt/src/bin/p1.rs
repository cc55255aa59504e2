include!(concat!(env!("VGEN_DIR"), "/all_1.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
