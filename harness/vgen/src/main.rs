//! vgen OUT SEED K0 K1: writes schemas, generated modules and adapters for schemas K0..K1.
//! Exit 3: the compiler failed on a valid schema (message on stdout).
mod adapt;
use fbm::*;
use std::fmt::Write;
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = Path::new(&a[1]);
    let seed: u64 = a[2].parse().unwrap();
    let ks: Vec<usize> = a[3].split(',').map(|x| x.parse().unwrap()).collect();
    let profile = a.get(4).map(|x| x.as_str()).unwrap_or("main");
    let parts: usize = a.get(5).map(|x| x.parse().unwrap()).unwrap_or(8);
    let mut all = vec![String::new(); parts];
    let mut list = vec![String::new(); parts];
    for (n, k) in ks.into_iter().enumerate() {
        let part = n % parts;
        let s = gen::profile(profile, seed, k);
        let dir = out.join(format!("s{k}"));
        for (path, text) in text::render(&s, text::Style { vary: k % 2 == 1 }, Rng::derive(seed, &[1, k as u64])) {
            let p = dir.join(&path);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, text).unwrap();
        }
        let main = dir.join(&s.files[0].path);
        let res = std::panic::catch_unwind(|| {
            let decls = planus_translation::translate_files(&[&main])?;
            Some(planus_codegen::generate_rust(&decls, false).map_err(|e| e.to_string()))
        });
        let code = match res {
            Ok(Some(Ok(code))) => code,
            Ok(Some(Err(e))) => {
                println!("COMPILER schema {k}: code generation failed: {e} ({})", main.display());
                std::process::exit(3);
            }
            Ok(None) => {
                println!("COMPILER schema {k}: a valid schema is rejected ({})", main.display());
                std::process::exit(3);
            }
            Err(_) => {
                println!("COMPILER schema {k}: the compiler panicked on a valid schema ({})", main.display());
                std::process::exit(3);
            }
        };
        write_if(&out.join(format!("g{k}.rs")), &code);
        let mut ad = adapt::A { s: &s, r: Rng::derive(seed, &[2, k as u64]), o: String::new() };
        ad.all();
        write_if(&out.join(format!("a{k}.rs")), &ad.o);
        let _ = writeln!(
            all[part],
            "pub mod s{k} {{ #![allow(clippy::all, unused)] use rt::sup::*; use rt::to_vec_of; pub mod g {{ include!(concat!(env!(\"VGEN_DIR\"), \"/g{k}.rs\")); }} include!(concat!(env!(\"VGEN_DIR\"), \"/a{k}.rs\")); }}"
        );
        let _ = writeln!(list[part], "rt::sup::SchemaApi {{ k: {k}, tables: s{k}::tables(), structs: s{k}::structs(), enums: s{k}::enums() }},");
    }
    for (i, (mut all, list)) in all.into_iter().zip(list).enumerate() {
        let _ = writeln!(
            all,
            "pub const PROFILE: &str = {profile:?}; pub const SEED: u64 = {seed}; pub fn schemas() -> Vec<rt::sup::SchemaApi> {{ vec![{list}] }}"
        );
        write_if(&out.join(format!("all_{i}.rs")), &all);
    }
}

/// Keeps the time stamp of files that do not change
fn write_if(p: &Path, text: &str) {
    if std::fs::read_to_string(p).ok().as_deref() != Some(text) {
        std::fs::write(p, text).unwrap();
    }
}
