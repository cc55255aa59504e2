include!(concat!(env!("VGEN_DIR"), "/all_0.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
