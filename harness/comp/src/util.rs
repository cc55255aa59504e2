use crate::run::*;
use crate::sg::*;
use crate::viol;
use planus_translation::ConverterOptions;
use planus_types::intermediate::Declarations;
use std::path::{Path, PathBuf};

/// Empty directory for the files of a case
pub fn fresh_dir(ctx: &Ctx, name: &str) -> PathBuf {
    let d = ctx.dir.join(name);
    if d.exists() {
        std::fs::remove_dir_all(&d).unwrap();
    }
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn put(dir: &Path, path: &str, text: &[u8]) {
    let p = dir.join(path);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, text).unwrap();
}

pub fn put_all(dir: &Path, p: &Project, w: &Written) {
    for (f, s) in p.s.files.iter().zip(&w.srcs) {
        put(dir, &f.path, s.text.as_bytes());
    }
}

pub fn roots(dir: &Path, p: &Project) -> Vec<PathBuf> {
    p.roots.iter().map(|f| dir.join(&p.s.files[*f].path)).collect()
}

/// Runs the compiler; the result and what it printed
pub fn translate(ctx: &mut Ctx, files: &[PathBuf], o: ConverterOptions) -> Result<(Option<Declarations>, String), Viol> {
    ctx.cap.clear();
    let r = quiet(|| planus_translation::translate_files_with_options(files, o));
    let err = ctx.cap.take();
    match r {
        Err(p) => viol!("panic", "translating panicked: {p}"),
        Ok(d) => Ok((d, err)),
    }
}

pub fn format(ctx: &mut Ctx, file: &PathBuf, ignore: bool) -> Result<(Option<String>, String), Viol> {
    ctx.cap.clear();
    let r = quiet(|| planus_translation::format_file(file, ignore));
    let err = ctx.cap.take();
    match r {
        Err(p) => viol!("panic", "formatting panicked: {p}"),
        Ok(d) => Ok((d, err)),
    }
}

pub fn rust(ds: &Declarations) -> Result<String, Viol> {
    match quiet(|| planus_codegen::generate_rust(ds, false)) {
        Err(p) => viol!("panic", "generating code panicked: {p}"),
        Ok(Err(e)) => viol!("generate", "generating code failed: {e}"),
        Ok(Ok(c)) => Ok(c),
    }
}

pub fn dot(ds: &Declarations) -> Result<String, Viol> {
    match quiet(|| planus_codegen::generate_dot(ds)) {
        Err(p) => viol!("panic", "generating dot panicked: {p}"),
        Ok(c) => Ok(c),
    }
}

/// The schema files for a report
pub fn show(p: &Project, w: &Written) -> String {
    let mut o = String::new();
    for (i, (f, s)) in p.s.files.iter().zip(&w.srcs).enumerate() {
        o.push_str(&format!("\n--- {}{}\n{}", f.path, if p.roots.contains(&i) { " (given)" } else { "" }, s.text));
    }
    cut(&o, 3000)
}
