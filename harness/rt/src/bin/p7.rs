include!(concat!(env!("VGEN_DIR"), "/all_7.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
