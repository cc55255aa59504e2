include!(concat!(env!("VGEN_DIR"), "/all_5.rs"));
fn main() {
    rt::run::main(schemas(), PROFILE, SEED)
}
