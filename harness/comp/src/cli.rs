//! C29: the planus command itself, on valid and faulty input and with failing surroundings.
use crate::basic::opts;
use crate::fault::{diags, random_options};
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::{harness, viol};
use fbm::*;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

type Tree = BTreeMap<PathBuf, Vec<u8>>;

fn tree(dir: &Path) -> Tree {
    let mut o = Tree::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let e = e.unwrap();
            let t = e.file_type().unwrap();
            if t.is_dir() {
                o.insert(e.path(), b"<directory>".to_vec());
                todo.push(e.path());
            } else if t.is_symlink() {
                o.insert(e.path(), format!("<link to {:?}>", std::fs::read_link(e.path()).unwrap()).into_bytes());
            } else {
                o.insert(e.path(), std::fs::read(e.path()).unwrap());
            }
        }
    }
    o
}

fn tree_diff(a: &Tree, b: &Tree) -> Option<String> {
    for (p, x) in a {
        match b.get(p) {
            None => return Some(format!("{p:?} has disappeared")),
            Some(y) if x != y => return Some(format!("{p:?} has changed from {} to {} bytes: {:?}", x.len(), y.len(), cut(&String::from_utf8_lossy(y), 200))),
            _ => (),
        }
    }
    b.keys().find(|p| !a.contains_key(*p)).map(|p| format!("{p:?} has appeared"))
}

struct Run {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// Runs the command; None if it does not end
fn run(exe: &Path, args: &[String], cwd: &Path, path: Option<&str>, out: Stdio) -> Result<Option<Run>, Viol> {
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(out).stderr(Stdio::piped());
    c.env("NO_COLOR", "1").env_remove("RUST_BACKTRACE");
    if let Some(p) = path {
        c.env("PATH", p);
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        Err(e) => harness!("cannot run {exe:?}: {e}"),
    };
    use std::io::Read;
    let (so, se) = (child.stdout.take(), child.stderr.take().unwrap());
    let ho = std::thread::spawn(move || {
        let mut v = vec![];
        if let Some(mut s) = so {
            let _ = s.read_to_end(&mut v);
        }
        v
    });
    let he = std::thread::spawn(move || {
        let mut v = vec![];
        let mut se = se;
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let st = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if start.elapsed() > Duration::from_secs(120) {
            let _ = child.kill();
            let _ = child.wait();
            return Ok(None);
        }
        std::thread::sleep(Duration::from_micros(500));
    };
    Ok(Some(Run { code: st.code(), signal: st.signal(), out: ho.join().unwrap(), err: he.join().unwrap() }))
}

/// Directory with a rustfmt that does something else
fn fake(dir: &Path, kind: &str) -> String {
    let d = dir.join(kind);
    std::fs::create_dir_all(&d).unwrap();
    let body = match kind {
        "none" => None,
        "fails" => Some("[ \"$1\" = --version ] && exit 0; cat > /dev/null; echo 'error: it broke' >&2; exit 1"),
        "noversion" => Some("[ \"$1\" = --version ] && exit 1; exec cat"),
        "killed" => Some("[ \"$1\" = --version ] && exit 0; cat > /dev/null; kill -9 $$"),
        "empty" => Some("[ \"$1\" = --version ] && exit 0; cat > /dev/null; echo half; exit 3"),
        "deaf" => Some("[ \"$1\" = --version ] && exit 0; exec <&-; exit 1"),
        "copies" => Some("[ \"$1\" = --version ] && exit 0; cat; echo '// by another rustfmt'"),
        _ => panic!(),
    };
    if let Some(b) = body {
        let p = d.join("rustfmt");
        std::fs::write(&p, format!("#!/bin/sh\nPATH=/usr/bin:/bin\n{b}\n")).unwrap();
        std::fs::set_permissions(&p, PermissionsExt::from_mode(0o755)).unwrap();
    }
    d.to_str().unwrap().to_string()
}

const FAKES: &[&str] = &["none", "fails", "noversion", "killed", "empty", "deaf", "copies"];

pub fn cli(ctx: &mut Ctx, mut r: Rng) -> Res {
    let exe = PathBuf::from(ctx.args.iter().position(|x| x == "--planus").map(|i| ctx.args[i + 1].clone()).expect("--planus"));
    let dir = fresh_dir(ctx, "p");
    let work = dir.join("w");
    let fakes = dir.join("fakes");
    std::fs::create_dir_all(&work).unwrap();
    // Schemas
    let mut sets: Vec<Vec<PathBuf>> = vec![];
    let mut text = String::new();
    for n in 0..r.range(1, 3) {
        let sub = work.join(format!("s{n}"));
        std::fs::create_dir_all(&sub).unwrap();
        let mut files: Vec<PathBuf> = vec![];
        if r.chance(2, 3) {
            let mut cfg = Cfg::random(&mut r);
            cfg.decls = (1, 6);
            let p = generate(&mut r, &cfg);
            let w = render(&p, &opts(&mut r), None, &mut r);
            put_all(&sub, &p, &w);
            files = p.roots.iter().map(|f| PathBuf::from(format!("s{n}")).join(&p.s.files[*f].path)).collect();
            if r.chance(1, 3) {
                // Break one
                let f = work.join(r.pick(&files));
                let mut t = std::fs::read_to_string(&f).unwrap();
                t.push_str(*r.pick(&["}", "table", "\"", "table X9 { a: Nowhere; }", "include \"no.fbs\";", "/// at the end", "attribute \"priority\";", "table X9 { a: int (unknown_thing); }", "enum E9 { A }"]));
                std::fs::write(&f, t).unwrap();
            }
        } else {
            for (name, b) in crate::robust::case(&mut r).into_iter().take(20) {
                put(&sub, &name, &b);
                files.push(PathBuf::from(format!("s{n}")).join(name));
            }
            files.truncate(4);
        }
        if r.chance(1, 10) {
            files.push(PathBuf::from(format!("s{n}/nothing.fbs")));
        }
        if r.chance(1, 20) {
            files.push(PathBuf::from(format!("s{n}")));
        }
        for f in &files {
            text.push_str(&format!("--- {}\n{}\n", f.display(), cut(&String::from_utf8_lossy(&std::fs::read(work.join(f)).unwrap_or_default()), 600)));
        }
        sets.push(files);
    }
    // Somewhere to write to
    let old: Vec<u8> = (0..*r.pick(&[0, 10, 200_000])).map(|x| b"old contents\n"[x % 13]).collect();
    std::fs::create_dir_all(work.join("out/sub dir")).unwrap();
    std::fs::write(work.join("out/old"), &old).unwrap();
    std::fs::write(work.join("out/target"), &old).unwrap();
    std::os::unix::fs::symlink("target", work.join("out/link")).unwrap();
    std::fs::write(work.join("data.bin"), [8, 0, 0, 0, 4, 0, 4, 0, 4, 0, 0, 0]).unwrap();
    let mut log = String::new();
    for _ in 0..r.range(3, 6) {
        let files = r.pick(&sets).clone();
        let o = random_options(&mut r);
        let relative = r.chance(1, 2);
        let given: Vec<PathBuf> = files.iter().map(|f| if relative { f.clone() } else { work.join(f) }).collect();
        let mut args: Vec<String> = vec![];
        if o.ignore_docstring_errors {
            args.push("--ignore-docstring-errors".into());
        }
        if o.ignore_unknown_metadata {
            args.push("--ignore-unknown-metadata".into());
        }
        let path = |p: &Path| p.to_str().unwrap().to_string();
        let before = tree(&work);
        // What the library makes of it, in the same directory
        if std::env::set_current_dir(&work).is_err() {
            harness!("no directory");
        }
        let cmd = *r.pick(&["rust", "rust", "rust", "dot", "dot", "check", "format", "format", "view", "usage", "completions"]);
        let outs = ["out/new", "out/new", "out/fresh", "out/link", "out/old", "out/sub dir/ü.rs", "out/old", "out/old", "out/link", "out", "out/none/x", "/dev/full", "out/old/x", "out/sub dir"];
        let out = *r.pick(&outs);
        let out_abs = if out.starts_with('/') { PathBuf::from(out) } else { work.join(out) };
        let writable = !["out", "out/none/x", "/dev/full", "out/old/x", "out/sub dir"].contains(&out);
        let mut want_out: Option<Vec<u8>> = None; // standard output
        let mut want_file: Option<Vec<u8>> = None;
        let ok: bool;
        let mut lib_err = String::new();
        let mut env_path = None;
        let mut stdout = Stdio::piped();
        let mut why = "";
        match cmd {
            "rust" | "dot" => {
                args.push(cmd.into());
                let mut tail: Vec<String> = vec!["-o".into(), if relative { out.into() } else { path(&out_abs) }];
                let mut format = true;
                if cmd == "rust" {
                    match r.below(4) {
                        0 => tail.push("--format=true".into()),
                        1 => {
                            tail.extend(["--format".into(), "false".into()]);
                            format = false;
                        }
                        2 => {
                            tail.push("--format=false".into());
                            format = false;
                        }
                        _ => (),
                    }
                    if r.chance(1, 3) {
                        let k = *r.pick(FAKES);
                        env_path = Some(fake(&fakes, k));
                        if format && k != "copies" {
                            why = k;
                        }
                    }
                }
                let fs: Vec<String> = given.iter().map(|p| path(p)).collect();
                if r.chance(1, 2) {
                    args.extend(tail);
                    args.extend(fs);
                } else {
                    args.extend(fs);
                    args.extend(tail);
                }
                let (ds, e) = translate(ctx, &given, o)?;
                lib_err = e;
                let mut good = ds.is_some() && why.is_empty();
                if let (Some(ds), true) = (&ds, good) {
                    let text = if cmd == "dot" {
                        dot(ds)?
                    } else if !format {
                        rust(ds)?
                    } else {
                        let old = std::env::var_os("PATH");
                        if let Some(p) = &env_path {
                            std::env::set_var("PATH", p);
                        }
                        let res = quiet(|| planus_codegen::generate_rust(ds, true));
                        std::env::set_var("PATH", old.unwrap());
                        ctx.cap.clear();
                        match res {
                            Ok(Ok(x)) => x,
                            x => viol!("library", "generating formatted code failed: {x:?}\n{text}"),
                        }
                    };
                    if writable {
                        want_file = Some(text.into_bytes());
                    } else {
                        why = out;
                        good = false;
                    }
                }
                ok = good;
                want_out = Some(vec![]);
            }
            "check" => {
                args.push("check".into());
                args.extend(given.iter().map(|p| path(p)));
                let (ds, e) = translate(ctx, &given, o)?;
                lib_err = e;
                ok = ds.is_some();
                want_out = Some(vec![]);
            }
            "format" => {
                let ignore = r.chance(1, 3);
                args.push("format".into());
                args.push(path(&given[0]));
                if ignore {
                    args.push("--ignore-errors".into());
                }
                let (x, e) = format(ctx, &given[0], ignore)?;
                lib_err = e;
                let mut good = x.is_some();
                if let Some(x) = x {
                    if r.chance(1, 8) {
                        stdout = Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
                        why = "standard output";
                        good = false;
                    } else {
                        want_out = Some(x.into_bytes());
                    }
                }
                ok = good;
            }
            "view" => {
                // Everything that ends before there is a terminal
                args.push("view".into());
                args.push(path(&given[0]));
                let (ds, e) = translate(ctx, &given[..1], o)?;
                lib_err = e;
                let mut root = "No.Such".to_string();
                if let Some(ds) = &ds {
                    let notable: Vec<String> = ds.declarations.iter().filter(|d| !matches!(d.1.kind, planus_types::intermediate::DeclarationKind::Table(_))).map(|d| d.0 .0.join(".")).collect();
                    if !notable.is_empty() && r.chance(1, 2) {
                        root = r.pick(&notable).clone();
                    }
                }
                args.push(root);
                let data = *r.pick(&["data.bin", "nothing.bin", "out"]);
                args.push(data.into());
                if data != "data.bin" {
                    lib_err.clear();
                }
                ok = false;
            }
            "usage" => {
                let bad: &[&[&str]] = &[&["rust", "-o", "out/new"], &["rust", "s0/x.fbs"], &["dot"], &["check"], &["format"], &["view", "x"], &["frobnicate"], &[], &["rust", "--format", "maybe", "x", "-o", "out/old"], &["check", "--no-such-option", "x"], &["generate-completions", "nosuchshell"], &["format", "a", "b"]];
                args = r.pick(bad).iter().map(|x| x.to_string()).collect();
                ok = false;
            }
            _ => {
                args = match r.below(4) {
                    0 => vec!["--version".into()],
                    1 => vec!["--help".into()],
                    _ => vec!["generate-completions".into(), r.pick(&["bash", "zsh", "fish", "elvish", "powershell"]).to_string()],
                };
                ok = true;
            }
        }
        log.push_str(&format!("{} {args:?} (rustfmt: {env_path:?})\n", if relative { "relative" } else { "absolute" }));
        let show = |x: String| format!("{x}\n{log}{}", cut(&text, 3000));
        let res = run(&exe, &args, &work, env_path.as_deref(), stdout)?;
        let _ = std::env::set_current_dir("/");
        let Some(res) = res else { viol!("hang", "{}", show("the command does not end".into())) };
        let st = format!("exit {:?} signal {:?}, stderr {:?}, stdout {:?}", res.code, res.signal, cut(&res.err, 700), cut(&String::from_utf8_lossy(&res.out), 300));
        if res.signal.is_some() || res.code == Some(101) && why != "standard output" {
            viol!("crash", "{}", show(st));
        }
        if (res.code == Some(0)) != ok {
            viol!("status", "{}", show(format!("the command was expected to {}: {st} {why}", if ok { "succeed" } else { "fail" })));
        }
        if !ok && res.err.trim().is_empty() && res.out.is_empty() {
            viol!("silent", "{}", show(format!("the command failed without a message: {st}")));
        }
        if let Some(w) = &want_out {
            let same = if cmd == "format" { res.out.strip_suffix(b"\n") == Some(&w[..]) || res.out == *w } else { res.out == *w };
            if !same {
                viol!("stdout", "{}", show(format!("standard output is not what the library gives: {st}")));
            }
        }
        if cmd == "completions" && res.out.is_empty() {
            viol!("stdout", "{}", show(st));
        }
        // The same messages as the library, if it has any
        let (a, b) = (diags(&lib_err), diags(&res.err));
        if cmd != "usage" && !a.is_empty() && a.iter().map(|d| (&d.severity, &d.msg, &d.at)).ne(b.iter().take(a.len()).map(|d| (&d.severity, &d.msg, &d.at))) {
            viol!("messages", "{}", show(format!("other messages than the library gives: {st}\nlibrary: {}", cut(&lib_err, 700))));
        }
        // Files
        let mut want = before.clone();
        if let Some(c) = want_file {
            let p = if out == "out/link" { work.join("out/target") } else { out_abs.clone() };
            ctx.st.add("outputs_compared", 1);
            ctx.st.add("output_bytes", c.len() as u64);
            want.insert(p, c);
        } else if !ok && ["rust", "dot"].contains(&cmd) {
            ctx.st.add("failures_leaving_files_alone", 1);
        }
        if let Some(d) = tree_diff(&want, &tree(&work)) {
            viol!("files", "{}", show(format!("{d}: {st} {why}")));
        }
        ctx.st.add(&format!("{cmd}_{}", if ok { "succeeded" } else { "failed" }), 1);
        if !why.is_empty() {
            ctx.st.add("failures_of_the_surroundings", 1);
        }
    }
    ctx.st.seen(&(&text, &log));
    ctx.st.sample(|| log.clone());
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
