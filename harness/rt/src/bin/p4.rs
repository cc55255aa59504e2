include!(concat!(env!("VGEN_DIR"), "/all_4.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
