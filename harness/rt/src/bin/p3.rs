include!(concat!(env!("VGEN_DIR"), "/all_3.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
