//! Faults in schema sets: what is accepted, what is rejected, and what the messages say.
use crate::basic::opts;
use crate::canon::*;
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::{harness, viol};
use fbm::src::*;
use fbm::*;
use planus_translation::ConverterOptions;
use std::collections::BTreeSet;
use std::path::PathBuf;

#[derive(Clone, Debug)]
pub struct Snip {
    pub name: String,
    pub accept: bool,
    pub toks: Vec<String>,
    /// First and last token of the offending construct
    pub region: Option<(usize, usize)>,
}

pub fn snippets() -> Vec<Snip> {
    let mut out = vec![];
    for l in include_str!("snippets.txt").lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        let mut p = l.splitn(3, '|');
        let (name, verdict, body) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
        let mut toks = vec![];
        let (mut a, mut b) = (None, None);
        for t in body.split(' ').filter(|x| !x.is_empty()) {
            match t {
                "[[" => a = Some(toks.len()),
                "]]" => b = Some(toks.len() - 1),
                t => {
                    // Paths are one word in the list
                    let word = |x: &str| !x.is_empty() && x.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !x.as_bytes()[0].is_ascii_digit();
                    if t.contains('.') && t.split('.').all(word) {
                        for (i, x) in t.split('.').enumerate() {
                            if i > 0 {
                                toks.push(".".to_string());
                            }
                            toks.push(x.to_string());
                        }
                    } else {
                        toks.push(t.to_string());
                    }
                }
            }
        }
        assert!(verdict == "A" || a.is_some() && b.is_some(), "{name}");
        out.push(Snip { name: name.into(), accept: verdict == "A", toks, region: a.zip(b) });
    }
    out
}

/// Z1 and so on become names of their own
fn renamed(t: &str, suffix: &str) -> String {
    let z = t.len() >= 2 && t.starts_with('Z') && (t[1..].bytes().all(|c| c.is_ascii_digit()) || t == "Znope");
    if z {
        format!("{t}{suffix}")
    } else {
        t.to_string()
    }
}

/// Places in a file where a declaration can be added
fn gaps(toks: &[Tok]) -> Vec<usize> {
    let mut depth = 0i32;
    let mut out = vec![];
    let mut last_head = 0;
    for (i, t) in toks.iter().enumerate() {
        if t.first && depth == 0 && i > 0 {
            out.push(i);
        }
        if t.first && depth == 0 && (t.mark.starts_with("inc") || t.mark == "ns") {
            last_head = i + 1;
        }
        match t.t.as_str() {
            "{" => depth += 1,
            "}" => depth -= 1,
            _ => (),
        }
    }
    if toks.is_empty() {
        return vec![0];
    }
    out.push(toks.len());
    if last_head == 0 {
        out.push(0);
    }
    out.retain(|x| *x >= last_head);
    out
}

pub struct Put {
    pub file: usize,
    /// First and last token of the offending construct
    pub region: (usize, usize),
    pub name: String,
    pub snip: usize,
}

/// Adds the snippet somewhere in the file; marks its tokens
fn insert(toks: &mut Vec<Tok>, s: &Snip, suffix: &str, n: usize, r: &mut Rng) {
    let g = gaps(toks);
    let at = *r.pick(&g);
    let mut depth = 0;
    let mut new: Vec<Tok> = vec![];
    for (i, t) in s.toks.iter().enumerate() {
        let bad = s.region.is_some_and(|(a, b)| i >= a && i <= b);
        let first = i == 0 || depth == 0 && ["table", "struct", "enum", "union"].contains(&t.as_str()) && new.last().is_some_and(|x: &Tok| x.t == "}");
        match t.as_str() {
            "{" => depth += 1,
            "}" => depth -= 1,
            _ => (),
        }
        new.push(Tok { t: renamed(t, suffix), docs: vec![], inner: vec![], mark: format!("snip{n}{}", if bad { ".bad" } else { "" }), first });
    }
    if at == 0 && !toks.is_empty() {
        let inner = std::mem::take(&mut toks[0].inner);
        new[0].inner = inner;
    }
    toks.splice(at..at, new);
}

/// Lines of the tokens with this mark
fn lines_of(toks: &[Tok], src: &Src, mark: &str) -> Option<(usize, usize)> {
    let i: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].mark == mark).collect();
    let last = *i.last()?;
    Some((src.lines[i[0]], src.lines[last] + toks[last].t.matches('\n').count()))
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub severity: String,
    pub msg: String,
    /// Displayed lines by file
    pub at: Vec<(String, usize)>,
    pub files: Vec<String>,
}

/// Messages of the compiler as printed
pub fn diags(err: &str) -> Vec<Diag> {
    let mut out: Vec<Diag> = vec![];
    let mut file = String::new();
    for l in err.lines() {
        let head = ["error", "warning", "bug", "note", "help"].iter().find(|h| l.strip_prefix(**h).is_some_and(|x| x.starts_with(':') || x.starts_with('[') || x.is_empty()));
        if let Some(h) = head {
            out.push(Diag { severity: h.to_string(), msg: l.splitn(2, ": ").nth(1).unwrap_or("").to_string(), at: vec![], files: vec![] });
            file.clear();
            continue;
        }
        let Some(d) = out.last_mut() else { continue };
        let t = l.trim_start();
        if let Some(p) = t.strip_prefix("┌─ ") {
            let mut x = p.rsplitn(3, ':');
            let (_col, line, path) = (x.next(), x.next(), x.next());
            if let (Some(line), Some(path)) = (line.and_then(|x| x.parse().ok()), path) {
                file = path.to_string();
                d.files.push(file.clone());
                d.at.push((file.clone(), line));
            }
        } else if let Some((_, x)) = t.split_once("Perhaps you meant to include ") {
            // A hint, not blame
            d.files.retain(|f| f != x.trim_end());
        } else if let Some((n, _)) = t.split_once(" │") {
            if let Ok(n) = n.trim().parse() {
                d.at.push((file.clone(), n));
            }
        }
    }
    out
}

pub fn random_options(r: &mut Rng) -> ConverterOptions {
    ConverterOptions { ignore_docstring_errors: r.chance(1, 4), ignore_unknown_metadata: r.chance(1, 4) }
}

fn write_all(ctx: &Ctx, p: &Project, srcs: &[Src]) -> PathBuf {
    let dir = fresh_dir(ctx, "p");
    for (f, s) in p.s.files.iter().zip(srcs) {
        put(&dir, &f.path, s.text.as_bytes());
    }
    dir
}

fn show_srcs(p: &Project, srcs: &[Src]) -> String {
    let mut o = String::new();
    for (i, (f, s)) in p.s.files.iter().zip(srcs).enumerate() {
        o.push_str(&format!("\n--- {}{}\n{}", f.path, if p.roots.contains(&i) { " (given)" } else { "" }, s.text));
    }
    cut(&o, 3000)
}

pub fn tokens(p: &Project, o: &Opts, r: &mut Rng) -> Vec<Vec<Tok>> {
    (0..p.s.files.len())
        .map(|f| {
            let mut t = Toks::new(&p.s, o.clone(), Rng::new(r.next()));
            t.file(f, &p.inner[f], &p.order[f]);
            t.out
        })
        .collect()
}

fn lay_all(toks: &[Vec<Tok>], r: &mut Rng) -> Vec<Src> {
    toks.iter()
        .map(|t| {
            let l = Layout::random(r);
            lay(t, &l, r)
        })
        .collect()
}

/// Error messages that blame a place; one of them has to be in the region
fn points_at(ds: &[Diag], path: &str, lines: (usize, usize)) -> bool {
    ds.iter().any(|d| d.severity == "error" && d.at.iter().any(|(f, l)| f == path && *l >= lines.0 && *l <= lines.1))
}

fn bases(r: &mut Rng) -> Cfg {
    let mut cfg = Cfg::random(r);
    cfg.decls.1 = cfg.decls.1.min(8);
    cfg
}

/// C22 and C27: one construct that is right or wrong for a reason of its own
fn snip(ctx: &mut Ctx, mut r: Rng, diag: bool) -> Res {
    let all = snippets();
    let cfg = bases(&mut r);
    let p = generate(&mut r, &cfg);
    let mut o = opts(&mut r);
    let pick = if diag {
        let bad: Vec<usize> = (0..all.len()).filter(|i| !all[*i].accept).collect();
        bad[(ctx.i as usize * 8 + ctx.k) % bad.len()]
    } else {
        (ctx.i as usize * 8 + ctx.k) % all.len()
    };
    let s = &all[pick];
    if s.name == "root-type-ok" {
        o.extras = false;
    }
    let f = r.below(p.s.files.len());
    if s.name == "keyword-names" && (p.s.decls.iter().any(|d| d.name == "table") || p.s.files.iter().any(|f| f.ns.iter().any(|x| x == "table"))) {
        return Ok(());
    }
    let opt = random_options(&mut r);
    let mut toks = tokens(&p, &o, &mut r);
    insert(&mut toks[f], s, "", 0, &mut r);
    let srcs = lay_all(&toks, &mut r);
    let dir = write_all(ctx, &p, &srcs);
    let (ds, err) = translate(ctx, &roots(&dir, &p), opt)?;
    let accept = s.accept || (opt.ignore_unknown_metadata && (s.name.contains("attr-unknown") || s.name == "union-variant-attr"));
    let show = |x: &str| format!("{} in {}: {x}\n{}\n{}", s.name, p.s.files[f].path, cut(&err, 1200), show_srcs(&p, &srcs));
    match (&ds, accept) {
        (None, true) => viol!(format!("rejected-{}", s.name), "{}", show("this is valid but it is rejected")),
        (Some(_), false) => viol!(format!("accepted-{}", s.name), "{}", show("this is not valid but it is accepted")),
        _ => (),
    }
    let errors = diags(&err);
    if ds.is_none() != errors.iter().any(|d| d.severity == "error") {
        viol!("silent", "{}", show("the result and the messages disagree"));
    }
    if let Some(ds) = &ds {
        // The other declarations are what they are without it
        let mut c = canon_il(ds);
        let want = canon_model(&p);
        c.decls.retain(|k, _| want.decls.contains_key(k));
        if let Some(d) = crate::canon::diff(&want, &c) {
            viol!("differs", "{}", show(&d));
        }
        ctx.st.add("snippets_accepted", 1);
    } else {
        ctx.st.add("snippets_rejected", 1);
        if diag {
            let path = dir.join(&p.s.files[f].path).to_str().unwrap().to_string();
            let Some(l) = lines_of(&toks[f], &srcs[f], "snip0.bad") else { harness!("no region for {}", s.name) };
            if !points_at(&errors, &path, l) {
                viol!(format!("place-{}", s.name), "{}", show(&format!("no error points at lines {} to {} of the file", l.0, l.1)));
            }
            // A namespace declaration in the wrong place moves what others refer to
            for d in errors.iter().filter(|_| s.name != "namespace-late") {
                if let Some(x) = d.files.iter().find(|x| **x != path) {
                    viol!("blame", "{}", show(&format!("the file {x} is blamed")));
                }
            }
            ctx.st.add("messages", errors.len() as u64);
            ctx.st.max("max_line", l.0 as u64);
        }
    }
    ctx.st.seen(&(pick, p.s.files.len(), r.next()));
    ctx.st.sample(|| format!("{} -> {}", s.name, errors.first().map(|x| x.msg.clone()).unwrap_or("accepted".into())));
    Ok(())
}

pub fn accept(ctx: &mut Ctx, mut r: Rng) -> Res {
    match ctx.i % 5 {
        0 => crate::basic::valid(ctx, r),
        1 | 3 => organic(ctx, r, false),
        _ => {
            let x = r.next();
            snip(ctx, Rng::new(x), false)
        }
    }
}

pub fn diag(ctx: &mut Ctx, r: Rng) -> Res {
    match ctx.i % 5 {
        0 | 3 => organic(ctx, r, true),
        1 => several(ctx, r),
        _ => snip(ctx, r, true),
    }
}

/// C27: independent faults are all reported
fn several(ctx: &mut Ctx, mut r: Rng) -> Res {
    let all: Vec<Snip> = snippets().into_iter().filter(|x| !x.accept).collect();
    let mut cfg = bases(&mut r);
    cfg.files = (1, 4);
    let p = generate(&mut r, &cfg);
    let o = opts(&mut r);
    let mut toks = tokens(&p, &o, &mut r);
    let n = r.range(2, 5);
    let mut puts = vec![];
    for j in 0..n {
        let s = r.pick(&all);
        let f = r.below(p.s.files.len());
        insert(&mut toks[f], s, &format!("_{j}"), j, &mut r);
        puts.push((f, s.name.clone()));
    }
    let srcs = lay_all(&toks, &mut r);
    let dir = write_all(ctx, &p, &srcs);
    let (ds, err) = translate(ctx, &roots(&dir, &p), Default::default())?;
    let names: Vec<&str> = puts.iter().map(|x| x.1.as_str()).collect();
    let show = |x: &str| format!("{names:?}: {x}\n{}\n{}", cut(&err, 1500), show_srcs(&p, &srcs));
    if ds.is_some() {
        viol!("accepted", "{}", show("several faults, but accepted"));
    }
    let errors = diags(&err);
    let bad: BTreeSet<String> = puts.iter().map(|x| dir.join(&p.s.files[x.0].path).to_str().unwrap().to_string()).collect();
    for (j, (f, name)) in puts.iter().enumerate() {
        let path = dir.join(&p.s.files[*f].path).to_str().unwrap().to_string();
        let Some(l) = lines_of(&toks[*f], &srcs[*f], &format!("snip{j}.bad")) else { harness!("no region for {name}") };
        if !points_at(&errors, &path, l) {
            viol!(format!("unreported-{name}"), "{}", show(&format!("{name} at lines {} to {} of {} is not reported", l.0, l.1, p.s.files[*f].path)));
        }
    }
    for d in errors.iter().filter(|_| !names.contains(&"namespace-late")) {
        if let Some(x) = d.files.iter().find(|x| !bad.contains(*x)) {
            viol!("blame", "{}", show(&format!("the file {x} is blamed")));
        }
    }
    ctx.st.add("sets_with_several_faults", 1);
    ctx.st.add("faults", n as u64);
    ctx.st.seen(&format!("{names:?}"));
    Ok(())
}

fn tok(t: &str, mark: &str) -> Tok {
    Tok { t: t.into(), docs: vec![], inner: vec![], mark: mark.into(), first: false }
}

/// Marks the tokens with this mark as the offending ones
fn mark_bad(toks: &mut [Tok], mark: &str) {
    for t in toks {
        if t.mark == mark {
            t.mark = "bad".into();
        }
    }
}

/// Faults made out of a valid schema set
fn organic(ctx: &mut Ctx, mut r: Rng, diag: bool) -> Res {
    let mut cfg = bases(&mut r);
    let kind = if r.chance(1, 2) { 18 } else { r.below(18) };
    if [1, 3, 4].contains(&kind) {
        cfg.files = (2, 5);
    }
    let mut p = generate(&mut r, &cfg);
    let mut o = opts(&mut r);
    let nf = p.s.files.len();
    let mut opt = random_options(&mut r);
    // The fault has to be built into the model
    let mut name = "";
    let mut f = r.below(nf);
    match kind {
        11..=13 => o.extras = false,
        _ => (),
    }
    let mut toks = tokens(&p, &o, &mut r);
    // Faults also visible in other files
    let mut others: Vec<usize> = vec![];
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let mut given: Option<Vec<PathBuf>> = None;
    let mut no_place = false;
    let mut accept = false;
    let type_marks = |toks: &Vec<Vec<Tok>>, want: &dyn Fn(usize, &str) -> bool| -> Vec<(usize, String)> {
        let mut out: BTreeSet<(usize, String)> = BTreeSet::new();
        for (f, t) in toks.iter().enumerate() {
            for x in t {
                if x.mark.ends_with(".type") && want(f, &x.mark) {
                    out.insert((f, x.mark.clone()));
                }
            }
        }
        out.into_iter().collect()
    };
    let field_ty = |p: &Project, mark: &str| -> Option<Ty> {
        let (d, i) = mark.strip_suffix(".type")?.strip_prefix('d')?.split_once(".f")?;
        let (d, i): (usize, usize) = (d.parse().ok()?, i.parse().ok()?);
        Some(match &p.s.decls[d].kind {
            Kind::Table { fields, .. } => fields[i].ty.clone(),
            Kind::Struct { fields, .. } => fields[i].ty.clone(),
            Kind::Union { variants } => variants[i].ty.clone(),
            _ => return None,
        })
    };
    match kind {
        0 => {
            // A reference to nothing
            name = "unresolvable";
            let c = type_marks(&toks, &|_, m| field_ty(&p, m).is_some_and(|t| t.decl().is_some()));
            if c.is_empty() {
                return Ok(());
            }
            let (ff, m) = r.pick(&c).clone();
            f = ff;
            let vector = matches!(field_ty(&p, &m), Some(Ty::Vec(_)));
            let mut done = false;
            let mut new = vec![];
            for t in std::mem::take(&mut toks[f]) {
                if t.mark == m {
                    if !done {
                        done = true;
                        if vector {
                            new.push(tok("[", "bad"));
                        }
                        new.push(tok(*r.pick(&["Znope", "Zn0pe", "zNope"]), "bad"));
                        if vector {
                            new.push(tok("]", "bad"));
                        }
                        new[0].docs = t.docs;
                    }
                } else {
                    new.push(t);
                }
            }
            toks[f] = new;
        }
        1 => {
            // A file that is needed is no longer included
            name = "unreachable";
            let f0 = r.below(nf);
            if p.s.files[f0].includes.is_empty() {
                return Ok(());
            }
            let cut_at = r.below(p.s.files[f0].includes.len());
            let mut s2 = p.s.clone();
            s2.files[f0].includes.remove(cut_at);
            // Which references break
            let mut broken = vec![];
            for (g, ts) in toks.iter().enumerate() {
                let mut i = 0;
                while i < ts.len() {
                    let m = ts[i].mark.clone();
                    let mut j = i;
                    while j < ts.len() && ts[j].mark == m {
                        j += 1;
                    }
                    if m.ends_with(".type") && field_ty(&p, &m).is_some_and(|t| t.decl().is_some()) {
                        let parts: Vec<String> = ts[i..j].iter().map(|t| t.t.clone()).filter(|t| ![".", "[", "]"].contains(&t.as_str())).collect();
                        let (a, b) = (resolve(&p.s, g, &parts), resolve(&s2, g, &parts));
                        if a != b {
                            if b.is_some() {
                                // Denotes something else now, which may be right or wrong
                                return Ok(());
                            }
                            broken.push((g, m.clone()));
                        }
                    }
                    i = j;
                }
            }
            if broken.is_empty() {
                return Ok(());
            }
            let inc = format!("inc{cut_at}");
            let inner = toks[f0].first().map(|t| t.inner.clone()).unwrap_or_default();
            toks[f0].retain(|t| t.mark != inc);
            if let Some(t) = toks[f0].first_mut() {
                t.inner = inner;
            }
            // All files are read, so only the reference is wrong
            p.roots = (0..nf).collect();
            f = broken[0].0;
            for (g, m) in &broken {
                mark_bad(&mut toks[*g], m);
                others.push(*g);
            }
            // One of several regions; take the first
            let m = broken[0].1.clone();
            let _ = m;
            if broken.iter().filter(|b| b.0 == f).count() > 1 {
                // Widest region is still right
            }
        }
        2 => {
            // Two declarations of one name in one file
            name = "duplicate";
            if p.order[f].is_empty() {
                return Ok(());
            }
            let d = *r.pick(&p.order[f]);
            let w = p.s.decls[d].name.clone();
            let m = format!("d{d}");
            for t in toks[f].iter_mut().filter(|t| t.mark == m || t.mark.starts_with(&format!("{m}."))) {
                t.mark = "bad".into();
            }
            let mut new: Vec<Tok> = ["table", &w, "{", "}"].iter().map(|x| tok(x, "bad")).collect();
            new[0].first = true;
            let at = toks[f].len();
            toks[f].splice(at..at, new);
        }
        3 => {
            name = "duplicate-across";
            let g = (f + 1) % nf;
            if p.order[f].is_empty() || p.s.files[f].ns != p.s.files[g].ns {
                return Ok(());
            }
            let w = p.s.decls[*r.pick(&p.order[f])].name.clone();
            let mut new: Vec<Tok> = ["enum", &w, ":", "int", "{", "}"].iter().map(|x| tok(x, "bad")).collect();
            new[0].first = true;
            let at = toks[g].len();
            toks[g].splice(at..at, new);
            others.push(f);
            // References may be wrong for either of them
            others.extend(0..nf);
            f = g;
        }
        4 => {
            name = "namespace-clash";
            let c: Vec<usize> = (0..nf).filter(|x| !p.s.files[*x].ns.is_empty()).collect();
            if c.is_empty() {
                return Ok(());
            }
            let g = *r.pick(&c);
            let n = p.s.files[g].ns.clone();
            let l = r.below(n.len());
            let Some(f2) = (0..nf).find(|x| p.s.files[*x].ns == n[..l]) else { return Ok(()) };
            f = f2;
            let mut new: Vec<Tok> = ["table", &n[l], "{", "}"].iter().map(|x| tok(x, "bad")).collect();
            new[0].first = true;
            let at = toks[f].len();
            toks[f].splice(at..at, new);
            others.extend(0..nf);
        }
        5 => {
            name = "missing-include";
            let path = *r.pick(&["nowhere.fbs", "sub/nothing.fbs", "../gone/x.fbs", "", ".", "sub", "x.fbs/y.fbs"]);
            let mut new: Vec<Tok> = vec![tok("include", "bad"), tok(&format!("\"{path}\""), "bad"), tok(";", "bad")];
            new[0].first = true;
            if let Some(t) = toks[f].first_mut() {
                new[0].inner = std::mem::take(&mut t.inner);
            }
            toks[f].splice(0..0, new);
        }
        6 => {
            name = "missing-file";
            no_place = true;
            let mut g: Vec<PathBuf> = vec![];
            for x in &p.roots {
                g.push(PathBuf::from(&p.s.files[*x].path));
            }
            g.insert(r.below(g.len() + 1), PathBuf::from(*r.pick(&["missing.fbs", "sub/missing.fbs", "", "."])));
            given = Some(g);
        }
        7 => {
            name = "not-utf8";
            let bad: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3\x28", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80"]);
            let mut b = b"table Bad { a: int; } // ".to_vec();
            b.extend_from_slice(bad);
            b.push(b'\n');
            files.push(("bad.fbs".into(), b));
            let t = include_path(&p.s.files[f].path, "bad.fbs", false, &mut r);
            let mut new: Vec<Tok> = vec![tok("include", "bad"), tok(&format!("\"{t}\""), "bad"), tok(";", "bad")];
            new[0].first = true;
            if let Some(t) = toks[f].first_mut() {
                new[0].inner = std::mem::take(&mut t.inner);
            }
            toks[f].splice(0..0, new);
        }
        8 => {
            name = "namespace-twice";
            let mut new: Vec<Tok> = ["namespace", "aa", ".", "bb", ";"].iter().map(|x| tok(x, "bad")).collect();
            new[0].first = true;
            // Without declarations before, only the second one is wrong
            let Some(at) = toks[f].iter().rposition(|t| t.mark == "ns") else { return Ok(()) };
            mark_bad(&mut toks[f], "ns");
            toks[f].splice(at + 1..at + 1, new);
        }
        9 => {
            name = "include-after-namespace";
            let Some(at) = toks[f].iter().rposition(|t| t.mark == "ns") else { return Ok(()) };
            let t = include_path(&p.s.files[f].path, &p.s.files[r.below(nf)].path, false, &mut r);
            let mut new: Vec<Tok> = vec![tok("include", "bad"), tok(&format!("\"{t}\""), "bad"), tok(";", "bad")];
            new[0].first = true;
            toks[f].splice(at + 1..at + 1, new);
        }
        10 => {
            // Documentation where nothing can be documented
            name = "documentation";
            let c: Vec<usize> = (0..toks[f].len())
                .filter(|i| {
                    let t = &toks[f][*i];
                    let head = t.mark.starts_with("inc") || t.mark == "ns";
                    // The first documentation of a file could be its inner one
                    *i > 0 && (head || !t.first) && !t.mark.is_empty()
                })
                .collect();
            if c.is_empty() {
                return Ok(());
            }
            let i = *r.pick(&c);
            // A region from the token before to the token after
            toks[f][i].docs = docs(&mut r);
            toks[f][i].mark = "bad".into();
            toks[f][i - 1].mark = "bad".into();
            accept = opt.ignore_docstring_errors;
        }
        11..=13 => {
            let (n, text): (_, &[&str]) = match kind {
                11 => ("root-type-twice", &["root_type", "Foo", ";"]),
                12 => ("file-identifier-twice", &["file_identifier", "\"ABCD\"", ";"]),
                _ => ("file-extension-twice", &["file_extension", "\"abc\"", ";"]),
            };
            name = n;
            for _ in 0..2 {
                let mut new: Vec<Tok> = text.iter().map(|x| tok(x, "bad")).collect();
                new[0].first = true;
                let g: Vec<usize> = gaps(&toks[f]);
                let at = *g.last().unwrap();
                if r.chance(1, 2) {
                    new[0].first = true;
                }
                let inner = if at == 0 && !toks[f].is_empty() { std::mem::take(&mut toks[f][0].inner) } else { vec![] };
                new[0].inner = inner;
                toks[f].splice(at..at, new);
            }
        }
        14 => {
            name = "union-too-many";
            let n = r.range(256, 300);
            let mut new = vec!["union".to_string(), "Zu".into(), "{".into()];
            for i in 0..n {
                new.extend([format!("v{i}"), ":".into(), "string".into(), ",".into()]);
            }
            new.push("}".into());
            let mut new: Vec<Tok> = new.iter().map(|x| tok(x, "bad")).collect();
            new[0].first = true;
            let at = toks[f].len();
            toks[f].splice(at..at, new);
        }
        15 => {
            // Something the grammar does not allow
            name = "syntax";
            let c: Vec<usize> = (0..toks[f].len()).filter(|i| toks[f][*i].mark.starts_with('d')).collect();
            if c.is_empty() {
                return Ok(());
            }
            let i = *r.pick(&c);
            let t = toks[f][i].clone();
            match r.below(3) {
                0 if [";", "{", "}", ":", "=", "(", ")", "[", "]"].contains(&t.t.as_str()) => {
                    // A missing token shows only later
                    let inc = toks[f][i].mark.clone();
                    let _ = inc;
                    toks[f].remove(i);
                    // An optional separator can be missing
                    if t.t == ":" || t.t == ";" || t.t == "{" || t.t == "[" || t.t == "(" {
                        for t in toks[f][i.saturating_sub(1)..].iter_mut() {
                            t.mark = "bad".into();
                        }
                    } else {
                        for t in toks[f].iter_mut() {
                            t.mark = "bad".into();
                        }
                    }
                    if t.t == "=" || t.t == "{" && i + 1 >= toks[f].len() {
                        // `A 3` in enums and fields is wrong as well
                    }
                }
                _ => {
                    let junk = *r.pick(&["$", "}", "{", "]", ")", "@", "#", "%", "\u{e9}", "&", "\"unterminated", "0x", "1.2.3", "'", "/*", "*", "=", "=="]);
                    if ["{", "}", ")", "]", "=", "*", "'"].contains(&junk) && false {
                        return Ok(());
                    }
                    toks[f].insert(i, tok(junk, "bad"));
                    for t in toks[f][i..].iter_mut() {
                        t.mark = "bad".into();
                    }
                    if i > 0 {
                        toks[f][i - 1].mark = "bad".into();
                    }
                }
            }
            // Declarations that could not be read are unknown elsewhere
            others.extend((0..nf).filter(|g| reach(&p.s, *g)[f]));
        }
        16 => {
            name = "duplicate-include";
            // Legal: the same file in two spellings
            if p.s.files[f].includes.is_empty() {
                return Ok(());
            }
            let to = *r.pick(&p.s.files[f].includes);
            let t = include_path(&p.s.files[f].path, &p.s.files[to].path, true, &mut r);
            let mut new: Vec<Tok> = vec![tok("include", "x"), tok(&format!("\"{t}\""), "x"), tok(";", "x")];
            new[0].first = true;
            new[0].inner = std::mem::take(&mut toks[f][0].inner);
            toks[f].splice(0..0, new);
            accept = true;
        }
        18 => {
            let right = toks.clone();
            let found = (0..8).find_map(|_| {
                toks = right.clone();
                crate::member::fault(&p, &mut toks, &mut r)
            });
            let Some(x) = found else { return Ok(()) };
            name = x.name;
            f = x.file;
            accept = x.fine || x.unknown && opt.ignore_unknown_metadata;
            if x.spreads {
                others.extend(0..nf);
            }
        }
        _ => {
            name = "too-many-fields";
            if ctx.i % 16 != 1 {
                return Ok(());
            }
            let n = 32766;
            let mut new = vec!["table".to_string(), "Zu".into(), "{".into()];
            for i in 0..n {
                new.extend([format!("v{i}"), ":".into(), "int".into(), ";".into()]);
            }
            new.push("}".into());
            let mut new: Vec<Tok> = new.iter().map(|x| tok(x, "bad")).collect();
            new[0].first = true;
            let at = toks[f].len();
            toks[f].splice(at..at, new);
        }
    }
    if name == "documentation" || name == "syntax" {
        // A comment behind a token can shift the report to its line
        opt.ignore_docstring_errors &= name == "documentation";
    }
    let srcs = lay_all(&toks, &mut r);
    let dir = write_all(ctx, &p, &srcs);
    for (n, b) in &files {
        put(&dir, n, b);
    }
    let gv = match given {
        Some(g) => g.iter().map(|x| dir.join(x)).collect(),
        None => roots(&dir, &p),
    };
    let (ds, err) = translate(ctx, &gv, opt)?;
    let show = |x: &str| format!("{name} in {}: {x}\n{}\n{}", p.s.files[f].path, cut(&err, 1500), show_srcs(&p, &srcs));
    match (&ds, accept) {
        (None, true) => viol!(format!("rejected-{name}"), "{}", show("this is valid but it is rejected")),
        (Some(_), false) => viol!(format!("accepted-{name}"), "{}", show("this is not valid but it is accepted")),
        _ => (),
    }
    let errors = diags(&err);
    if ds.is_none() != errors.iter().any(|d| d.severity == "error") {
        viol!("silent", "{}", show("the result and the messages disagree"));
    }
    ctx.st.add(&format!("fault_{name}"), 1);
    ctx.st.seen(&(kind, r.next()));
    let Some(ds) = &ds else {
        if diag && !no_place {
            let path = dir.join(&p.s.files[f].path).to_str().unwrap().to_string();
            let Some(l) = lines_of(&toks[f], &srcs[f], "bad") else { harness!("no region for {name}") };
            // An unterminated text can be reported at the end of the file
            if !points_at(&errors, &path, l) && !(name == "syntax" && points_at(&errors, &path, (l.0, usize::MAX))) {
                viol!(format!("place-{name}"), "{}", show(&format!("no error points at lines {} to {} of the file", l.0, l.1)));
            }
            for d in &errors {
                for x in &d.files {
                    let at_fault = |x: &String| *x == path || others.iter().any(|g| dir.join(&p.s.files[*g].path).to_str() == Some(x));
                    // The file that could be included is named in a hint
                    if !at_fault(x) && !(name == "unreachable" && d.files.iter().any(at_fault)) {
                        viol!("blame", "{}", show(&format!("the file {x} is blamed")));
                    }
                }
            }
        }
        if no_place && !errors.iter().any(|d| d.msg.contains("missing.fbs") || d.msg.contains("Could not read")) {
            viol!("unnamed", "{}", show("the missing file is not named"));
        }
        return Ok(());
    };
    if name != "documentation" {
        let c = canon_il(ds);
        if let Some(d) = crate::canon::diff(&canon_model(&p), &c) {
            viol!("differs", "{}", show(&d));
        }
    }
    Ok(())
}
