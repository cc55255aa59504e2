//! C24: what names denote.
use crate::basic::opts;
use crate::canon::*;
use crate::fault::{diags, tokens};
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::viol;
use fbm::src::*;
use fbm::*;
use planus_types::intermediate as il;
use std::path::{Path, PathBuf};

/// Another way to write a path
fn respell(dir: &Path, p: &str, relative: bool, r: &mut Rng) -> PathBuf {
    let mut parts: Vec<String> = p.split('/').map(|x| x.to_string()).collect();
    for _ in 0..r.below(3) {
        let at = r.below(parts.len());
        match r.below(3) {
            0 => parts.insert(at, ".".into()),
            1 => {
                parts.insert(at, "..".into());
                parts.insert(at, "zz".into());
            }
            _ => {
                // Out of the directory and into it again
                if relative || at > 0 {
                    continue;
                }
                let name = dir.file_name().unwrap().to_str().unwrap().to_string();
                parts.insert(0, name);
                parts.insert(0, "..".into());
            }
        }
    }
    let q = parts.join(if r.chance(1, 5) { "//" } else { "/" });
    if relative {
        PathBuf::from(if r.chance(1, 3) { format!("./{q}") } else { q })
    } else {
        dir.join(q)
    }
}

/// Sets of files that read the whole project
fn covering(p: &Project, r: &mut Rng) -> Vec<usize> {
    let mut all: Vec<usize> = (0..p.s.files.len()).collect();
    r.shuffle(&mut all);
    let mut seen = vec![false; all.len()];
    let mut out = vec![];
    let extra = r.chance(1, 2);
    for f in all {
        if !seen[f] || extra && r.chance(1, 2) {
            out.push(f);
            for (x, y) in seen.iter_mut().zip(reach(&p.s, f)) {
                *x |= y;
            }
        }
    }
    if extra {
        for _ in 0..r.below(3) {
            let x = *r.pick(&out);
            out.push(x);
        }
        r.shuffle(&mut out);
    }
    out
}

/// The same project in many dresses
fn dresses(ctx: &mut Ctx, p: &mut Project, r: &mut Rng) -> Res {
    let dir = fresh_dir(ctx, "p");
    let want = canon_model(p);
    for round in 0..4 {
        // The order of includes and declarations does not matter
        for f in 0..p.s.files.len() {
            r.shuffle(&mut p.order[f]);
            let inc = &mut p.s.files[f].includes;
            if !inc.is_empty() && r.chance(1, 4) {
                let x = *r.pick(inc);
                inc.push(x);
            }
            r.shuffle(inc);
        }
        let w = render(p, &opts(r), None, r);
        put_all(&dir, p, &w);
        p.roots = covering(p, r);
        let relative = r.chance(1, 3);
        if relative {
            std::env::set_current_dir(&dir).unwrap();
        }
        let gv: Vec<PathBuf> = p
            .roots
            .iter()
            .map(|f| {
                // Both kinds of path in one command
                let rel = relative && r.chance(3, 4);
                if r.chance(1, 2) {
                    respell(&dir, &p.s.files[*f].path, rel, r)
                } else if rel {
                    PathBuf::from(&p.s.files[*f].path)
                } else {
                    dir.join(&p.s.files[*f].path)
                }
            })
            .collect();
        let res = translate(ctx, &gv, Default::default());
        if relative {
            std::env::set_current_dir("/").unwrap();
        }
        let (ds, err) = res?;
        let show = |x: &str| format!("round {round}: {x}\ngiven: {gv:?}\n{}\n{}", cut(&err, 1200), show(p, &w));
        let Some(ds) = ds else { viol!("rejected", "{}", show("rejected")) };
        if let Some(d) = crate::canon::diff(&want, &canon_il(&ds)) {
            viol!("differs", "{}", show(&d));
        }
        ctx.st.add("renderings_compared", 1);
        ctx.st.add("command_lines_with_duplicates", (gv.len() > p.s.files.len()) as u64);
        ctx.st.add("relative_command_lines", relative as u64);
        for s in &w.srcs {
            ctx.st.seen(&s.text);
        }
    }
    Ok(())
}

fn toks(text: &str) -> Vec<Tok> {
    text.split(' ').filter(|x| !x.is_empty()).map(|t| Tok { t: t.into(), docs: vec![], inner: vec![], mark: "probe".into(), first: false }).collect()
}

/// Probes: arbitrary names at places where types are expected
fn probes(ctx: &mut Ctx, p: &Project, r: &mut Rng) -> Res {
    let dir = fresh_dir(ctx, "p");
    let s = &p.s;
    let nf = s.files.len();
    // Everything that occurs in a path
    let mut words: Vec<String> = s.decls.iter().map(|d| d.name.clone()).collect();
    for f in &s.files {
        words.extend(f.ns.iter().cloned());
    }
    words.push("Nope".into());
    let path = |r: &mut Rng| -> Vec<String> {
        match r.below(4) {
            // Part of the path of a declaration
            0..=2 if !s.decls.is_empty() => {
                let d = r.below(s.decls.len());
                let mut p = s.ns(d).to_vec();
                p.push(s.decls[d].name.clone());
                let k = r.below(p.len());
                let mut p = p[k..].to_vec();
                if r.chance(1, 8) {
                    let i = r.below(p.len());
                    p[i] = r.pick(&words).clone();
                }
                p
            }
            _ => (0..r.range(1, 4)).map(|_| r.pick(&words).clone()).collect(),
        }
    };
    struct Probe {
        file: usize,
        /// Table field, vector, struct field, union variant
        shape: usize,
        path: Vec<String>,
        target: Option<usize>,
        fits: bool,
    }
    let wrong = r.chance(1, 2);
    let mut ps: Vec<Probe> = vec![];
    let n = r.range(1, 8);
    let mut tries = 0;
    while ps.len() < n && tries < 400 {
        tries += 1;
        let file = r.below(nf);
        let path = path(r);
        if path.len() == 1 && BUILTIN.contains(&path[0].as_str()) {
            continue;
        }
        let target = resolve(s, file, &path);
        let shape = r.below(4);
        let fits = match target.map(|d| &s.decls[d].kind) {
            None => false,
            Some(Kind::Table { .. }) => shape != 2,
            Some(Kind::Struct { .. }) => true,
            Some(Kind::Enum { .. }) => shape != 3,
            Some(Kind::Union { .. }) => shape < 2,
        };
        // With at most one that is wrong
        let bad = !fits;
        if bad != (wrong && ps.is_empty()) {
            continue;
        }
        ps.push(Probe { file, shape, path, target, fits });
    }
    if ps.is_empty() {
        return Ok(());
    }
    let mut tk = tokens(p, &opts(r), r);
    let mut srcs = vec![];
    for f in 0..nf {
        for (i, x) in ps.iter().enumerate().filter(|x| x.1.file == f) {
            let t = x.path.join(" . ");
            let mut new = toks(&match x.shape {
                0 => format!("table ZProbe{i} {{ a : {t} = null ; }}"),
                1 => format!("table ZProbe{i} {{ a : [ {t} ] ; }}"),
                2 => format!("struct ZProbe{i} {{ a : {t} ; }}"),
                _ => format!("union ZProbe{i} {{ a : {t} }}"),
            });
            // In front of the declarations or behind them
            let first = tk[f].iter().position(|t| t.first && t.mark.starts_with('d'));
            new[0].first = true;
            match first {
                Some(k) if r.chance(1, 2) => {
                    if k == 0 {
                        new[0].inner = std::mem::take(&mut tk[f][0].inner);
                    }
                    tk[f].splice(k..k, new);
                }
                _ => tk[f].extend(new),
            }
        }
        let l = Layout::random(r);
        srcs.push(lay(&tk[f], &l, r));
    }
    for (f, x) in s.files.iter().zip(&srcs) {
        put(&dir, &f.path, x.text.as_bytes());
    }
    let (ds, err) = translate(ctx, &roots(&dir, p), Default::default())?;
    let show = |x: &str| {
        let mut t = format!("{x}\n{}", cut(&err, 1200));
        for (f, x) in s.files.iter().zip(&srcs) {
            t.push_str(&format!("\n--- {}\n{}", f.path, x.text));
        }
        cut(&t, 4000)
    };
    let all_fit = ps.iter().all(|x| x.fits);
    ctx.st.seen(&(ps.iter().map(|x| x.path.join(".")).collect::<Vec<_>>(), r.next()));
    let Some(ds) = ds else {
        if all_fit {
            viol!("unresolved", "{}", show("all names can be resolved, but the schema is rejected"));
        }
        if !diags(&err).iter().any(|d| d.severity == "error") {
            viol!("silent", "{}", show("rejected without an error"));
        }
        ctx.st.add("unresolvable_names_rejected", 1);
        return Ok(());
    };
    if !all_fit {
        let b = ps.iter().find(|x| !x.fits).unwrap();
        viol!("resolved", "{}", show(&format!("{} in {} should be an error (it denotes {:?})", b.path.join("."), s.files[b.file].path, b.target.map(|d| s.path(d)))));
    }
    for (i, x) in ps.iter().enumerate() {
        let name = format!("ZProbe{i}");
        let d = x.target.unwrap();
        let base = ty_model(s, &match s.decls[d].kind {
            Kind::Table { .. } => Ty::Table(d),
            Kind::Struct { .. } => Ty::Struct(d),
            Kind::Enum { .. } => Ty::Enum(d),
            Kind::Union { .. } => Ty::Union(d),
        });
        let want = if x.shape == 1 { format!("[{base}]") } else { base };
        let mut full = s.files[x.file].ns.clone();
        full.push(name);
        let Some((_, decl)) = ds.declarations.iter().find(|(p, _)| p.0 == full) else { viol!("missing", "{}", show("a declaration is missing")) };
        let got = match &decl.kind {
            il::DeclarationKind::Table(t) => ty_il(&ds, &t.fields["a"].type_),
            il::DeclarationKind::Struct(t) => simple_il(&ds, &t.fields["a"].type_),
            il::DeclarationKind::Union(u) => ty_il(&ds, &u.variants["a"].type_),
            _ => String::new(),
        };
        if got != want {
            viol!("wrong", "{}", show(&format!("{} in {} denotes {want}, but the compiler says {got}", x.path.join("."), s.files[x.file].path)));
        }
        ctx.st.add("names_resolved", 1);
        ctx.st.add("names_resolved_qualified", (x.path.len() > 1) as u64);
        ctx.st.add("names_resolved_in_other_files", (s.decls[d].file != x.file) as u64);
        let cands = s.decls.iter().filter(|y| y.name == *x.path.last().unwrap()).count();
        ctx.st.add("names_with_several_candidates", (cands > 1) as u64);
    }
    ctx.st.sample(|| format!("{:?}", ps.iter().map(|x| (x.path.join("."), x.target.map(|d| s.path(d)))).collect::<Vec<_>>()));
    Ok(())
}

pub fn names(ctx: &mut Ctx, mut r: Rng) -> Res {
    let mut cfg = Cfg::random(&mut r);
    cfg.names = *r.pick(&[Names::Colliding, Names::Colliding, Names::Plain, Names::Hostile]);
    cfg.files = (1, *r.pick(&[2, 4, 6, 9]));
    cfg.decls = (2, *r.pick(&[6, 14, 24]));
    cfg.fields = 4;
    let mut p = generate(&mut r, &cfg);
    if ctx.i % 3 == 0 {
        dresses(ctx, &mut p, &mut r)
    } else {
        probes(ctx, &p, &mut r)
    }
}
