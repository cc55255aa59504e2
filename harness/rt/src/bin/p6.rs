include!(concat!(env!("VGEN_DIR"), "/all_6.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
