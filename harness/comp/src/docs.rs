//! C30: documentation in the generated code, which is parsed with syn.
use crate::basic::opts;
use crate::fault::{diags, tokens};
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::{harness, viol};
use fbm::src::*;
use fbm::*;
use planus_translation::ConverterOptions;
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::VisitMut;

fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_').flat_map(|c| c.to_lowercase()).collect()
}

fn docs_of(attrs: &[syn::Attribute]) -> Vec<String> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("doc"))
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(syn::MetaNameValue { value: syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }), .. }) => Some(s.value()),
            _ => None,
        })
        .collect()
}

/// Takes every doc attribute out
#[derive(Default)]
struct Strip {
    all: Vec<String>,
    odd: usize,
}
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        self.all.extend(docs_of(a));
        let n = a.len();
        a.retain(|x| !x.path().is_ident("doc"));
        self.odd += n - a.len();
    }
}

#[derive(Default, Debug)]
struct Found {
    /// Documentation by "module/item" or "module/item/member" with normalised names
    items: HashMap<String, Vec<Vec<String>>>,
}

fn walk(items: &[syn::Item], at: &str, o: &mut Found) {
    let mut put = |k: String, a: &[syn::Attribute]| o.items.entry(k).or_default().push(docs_of(a));
    let mut inner = vec![];
    for i in items {
        match i {
            syn::Item::Struct(s) => {
                let k = format!("{at}/{}", norm(&s.ident.to_string()));
                put(k.clone(), &s.attrs);
                for f in &s.fields {
                    if let Some(n) = &f.ident {
                        put(format!("{k}/{}", norm(&n.to_string())), &f.attrs);
                    }
                }
            }
            syn::Item::Enum(s) => {
                let k = format!("{at}/{}", norm(&s.ident.to_string()));
                put(k.clone(), &s.attrs);
                for f in &s.variants {
                    put(format!("{k}/{}", norm(&f.ident.to_string())), &f.attrs);
                }
            }
            syn::Item::Mod(m) => {
                let k = format!("{at}:{}", norm(&m.ident.to_string()));
                put(k.clone(), &m.attrs);
                inner.push((k, m));
            }
            _ => (),
        }
    }
    for (k, m) in inner {
        if let Some((_, items)) = &m.content {
            walk(items, &k, o);
        }
    }
}

const HARD: &[&str] = &[
    "a\rb", "\r\rx", "\u{202e}rtl", "\u{2066}iso\u{2069}", "\u{feff}bom", "\u{2028}sep\u{2029}", "\u{85}nel", "\u{b}vt", "\u{1b}[31m", "\u{1}ctl", "\u{7f}", "\0", "\"#]", "\"##", "*/ fn x() {} /*", "r##\"", "#![feature(x)]", "#[cfg(any())]", "\\u{41}", "\\x41", "\\", "\\\"", "{{ docstring }}", "{% endfor %}",
    "!", "/", "*", "'", "\u{301}combining", "pub struct Evil;", "; mod x { }", "macro!{}", "$crate", "//!", "///", "\u{e000}", "\u{10ffff}", "\u{fffe}",
];

fn line(r: &mut Rng, n: &mut usize) -> String {
    let m = format!("q{}q", *n);
    *n += 1;
    let base = if r.chance(1, 2) { r.pick(DOC_LINES) } else { r.pick(HARD) };
    match r.below(4) {
        0 => m,
        1 => format!("{m}{base}{m}x").replacen(&format!("{m}x"), "", 1) + ".",
        2 => format!("{base}{m}"),
        _ => format!(" {base} {m}{}", r.pick(HARD)),
    }
}

/// Only what can be in one line of a comment
fn fits(s: &str) -> bool {
    !s.contains('\n') && !s.ends_with('\r')
}

fn redoc(d: &mut Vec<String>, r: &mut Rng, n: &mut usize, empty_lines: bool) {
    for l in d.iter_mut() {
        loop {
            *l = line(r, n);
            if fits(l) {
                break;
            }
        }
    }
    if empty_lines && !d.is_empty() && r.chance(1, 4) {
        let at = r.below(d.len() + 1);
        d.insert(at, r.pick(&["", " ", "\t", "  "]).to_string());
    }
}

fn unique(p: &Project) -> bool {
    let s = &p.s;
    let mut seen = std::collections::HashSet::new();
    for d in 0..s.decls.len() {
        let at: String = s.ns(d).iter().map(|x| format!(":{}", norm(x))).collect();
        let n = norm(&s.decls[d].name);
        if !seen.insert(format!("{at}/{n}")) || n.ends_with("ref") || n.ends_with("builder") || n.is_empty() {
            return false;
        }
        let members: Vec<String> = match &s.decls[d].kind {
            Kind::Table { fields, .. } => fields.iter().map(|f| norm(&f.name)).collect(),
            Kind::Struct { fields, .. } => fields.iter().map(|f| norm(&f.name)).collect(),
            Kind::Enum { variants, .. } => variants.iter().map(|f| norm(&f.name)).collect(),
            Kind::Union { variants } => union_names(variants).iter().map(|f| norm(f)).collect(),
        };
        for m in members {
            if m.is_empty() || !seen.insert(format!("{at}/{n}/{m}")) {
                return false;
            }
        }
    }
    let mut mods: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for f in &s.files {
        for l in 1..=f.ns.len() {
            let k: String = f.ns[..l].iter().map(|x| format!(":{}", norm(x))).collect();
            if f.ns[..l].iter().any(|x| norm(x) == "root") {
                return false;
            }
            if mods.entry(k).or_insert(f.ns[..l].to_vec()) != &f.ns[..l] {
                return false;
            }
        }
    }
    // A module and a type share their names
    mods.keys().all(|k| {
        let (a, b) = k.rsplit_once(':').unwrap();
        !seen.contains(&format!("{a}/{b}"))
    })
}

pub fn docs(ctx: &mut Ctx, mut r: Rng) -> Res {
    let mut cfg = Cfg::random(&mut r);
    cfg.names = Names::Plain;
    cfg.docs = true;
    cfg.decls = (2, *r.pick(&[4, 8, 14]));
    let mut p = generate(&mut r, &cfg);
    for _ in 0..20 {
        if unique(&p) {
            break;
        }
        p = generate(&mut r, &cfg);
    }
    if !unique(&p) {
        ctx.st.add("skipped_names_not_unique", 1);
        return Ok(());
    }
    let mut n = 0;
    for d in &mut p.s.decls {
        redoc(&mut d.docs, &mut r, &mut n, true);
        match &mut d.kind {
            Kind::Table { fields, .. } => fields.iter_mut().for_each(|f| redoc(&mut f.docs, &mut r, &mut n, true)),
            Kind::Struct { fields, .. } => fields.iter_mut().for_each(|f| redoc(&mut f.docs, &mut r, &mut n, true)),
            Kind::Enum { variants, .. } => variants.iter_mut().for_each(|f| redoc(&mut f.docs, &mut r, &mut n, true)),
            Kind::Union { variants } => variants.iter_mut().for_each(|f| redoc(&mut f.docs, &mut r, &mut n, true)),
        }
    }
    for d in &mut p.inner {
        redoc(d, &mut r, &mut n, true);
    }
    let o = opts(&mut r);
    let salt = r.next();
    let mut toks = tokens(&p, &o, &mut Rng::new(salt));
    // Misplaced ones
    let stray = r.chance(1, 3);
    let mut strays = 0;
    let mut strayed = String::new();
    if stray {
        for _ in 0..r.range(1, 3) {
            let f = r.below(toks.len());
            let cand: Vec<usize> = (0..toks[f].len()).filter(|i| !toks[f][*i].first || toks[f][*i].mark.starts_with("inc") || toks[f][*i].mark == "ns").collect();
            if cand.is_empty() {
                continue;
            }
            let i = *r.pick(&cand);
            toks[f][i].docs.push(format!(" s{strays}s stray"));
            strayed.push_str(&format!("{}: before {:?} ({})\n", p.s.files[f].path, toks[f][i].t, toks[f][i].mark));
            strays += 1;
        }
    }
    let srcs: Vec<Src> = toks
        .iter()
        .map(|t| {
            let mut l = Layout::random(&mut r);
            if r.chance(1, 2) {
                l.comments = l.comments.max(30);
            }
            lay(t, &l, &mut r)
        })
        .collect();
    let dir = fresh_dir(ctx, "p");
    let mut text = String::new();
    let mut comments = 0;
    for (f, s) in p.s.files.iter().zip(&srcs) {
        let t = s.text.replace("// a comment", "// cmtcmt");
        comments += t.matches("// cmtcmt").count();
        put(&dir, &f.path, t.as_bytes());
        text.push_str(&format!("--- {}\n{t}\n", f.path));
    }
    let show = |x: String, err: &str| format!("{x}\n{strayed}{}\n{}", cut(err, 800), cut(&text, 3500));
    let ignore = stray && r.chance(1, 2);
    let opt = ConverterOptions { ignore_docstring_errors: ignore, ignore_unknown_metadata: false };
    let (ds, err) = translate(ctx, &roots(&dir, &p), opt)?;
    if strays > 0 && !ignore {
        if ds.is_some() {
            viol!("stray-accepted", "{}", show("misplaced documentation is not reported".into(), &err));
        }
        // Each of them
        let n = diags(&err).iter().filter(|d| d.severity == "error").count();
        if n == 0 {
            viol!("stray-silent", "{}", show("misplaced documentation is not reported".into(), &err));
        }
        for i in 0..strays {
            if !err.contains(&format!("s{i}s stray")) {
                viol!("stray-unnamed", "{}", show(format!("no message shows the misplaced line {i}"), &err));
            }
        }
        ctx.st.add("misplaced_reported", strays as u64);
        ctx.st.seen(&text);
        return Ok(());
    }
    let Some(ds) = ds else { viol!("rejected", "{}", show("rejected".into(), &err)) };
    if strays > 0 {
        ctx.st.add("misplaced_ignored", strays as u64);
    }
    let code = match rust(&ds) {
        Ok(c) => c,
        Err(v) => viol!(v.key, "{}", show(v.msg, "")),
    };
    let mut file = match syn::parse_file(&code) {
        Ok(f) => f,
        Err(e) => viol!("parse", "{}", show(format!("the generated code cannot be parsed: {e}"), &err)),
    };
    let mut found = Found::default();
    let Some(root) = file.items.iter().find_map(|i| match i {
        syn::Item::Mod(m) if m.content.is_some() => Some(m),
        _ => None,
    }) else {
        harness!("no module in the generated code")
    };
    walk(&root.content.as_ref().unwrap().1, "", &mut found);
    let root_docs = docs_of(&root.attrs);
    let mut want: Vec<(String, Vec<String>)> = vec![];
    let s = &p.s;
    for d in 0..s.decls.len() {
        let at: String = s.ns(d).iter().map(|x| format!(":{}", norm(x))).collect();
        let k = format!("{at}/{}", norm(&s.decls[d].name));
        want.push((k.clone(), s.decls[d].docs.clone()));
        match &s.decls[d].kind {
            Kind::Table { fields, .. } => want.extend(fields.iter().filter(|f| !f.deprecated).map(|f| (format!("{k}/{}", norm(&f.name)), f.docs.clone()))),
            Kind::Struct { fields, .. } => want.extend(fields.iter().map(|f| (format!("{k}/{}", norm(&f.name)), f.docs.clone()))),
            Kind::Enum { variants, .. } => want.extend(variants.iter().map(|f| (format!("{k}/{}", norm(&f.name)), f.docs.clone()))),
            Kind::Union { variants } => want.extend(variants.iter().zip(union_names(variants)).map(|(f, n)| (format!("{k}/{}", norm(&n)), f.docs.clone()))),
        }
    }
    for (f, inner) in s.files.iter().zip(&p.inner) {
        let at: String = f.ns.iter().map(|x| format!(":{}", norm(x))).collect();
        want.push((at, inner.clone()));
    }
    // sources with CRLF line ends leave the carriage return in the comment, where it is white space
    let chop = |s: &str| s.strip_suffix('\r').unwrap_or(s).to_string();
    let same = |a: &str, b: &str| {
        let (a, b) = (chop(a), chop(b));
        a == b || a.strip_prefix(' ') == Some(b.as_str())
    };
    let mut lines = 0;
    for (k, d) in &want {
        let got: Vec<Vec<String>> = if k.is_empty() { vec![root_docs.clone()] } else { found.items.get(k).cloned().unwrap_or_default() };
        if got.len() != 1 {
            viol!("item", "{}", show(format!("{} items for {k}", got.len()), ""));
        }
        let g = &got[0];
        let here = d.is_empty() || g.len() >= d.len() && (0..=g.len() - d.len()).any(|i| (0..d.len()).all(|j| same(&g[i + j], &d[j])));
        if !here {
            viol!("missing", "{}", show(format!("{k} should have the documentation {d:?}, it has {g:?}"), ""));
        }
        lines += d.len();
    }
    // Nothing anywhere else
    let mut strip = Strip::default();
    strip.visit_file_mut(&mut file);
    let mut count: HashMap<&str, usize> = HashMap::new();
    for l in &strip.all {
        let mut rest = l.as_str();
        while let Some(i) = rest.find('q') {
            rest = &rest[i + 1..];
            let e = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
            if e > 0 && rest[e..].starts_with('q') {
                *count.entry(&rest[..e]).or_default() += 1;
                rest = &rest[e + 1..];
            }
        }
        if l.contains("cmtcmt") || l.contains("s stray") {
            viol!("comment", "{}", show(format!("the documentation {l:?} should not be in the code"), ""));
        }
    }
    for (m, c) in &count {
        if *c != 1 {
            viol!("spread", "{}", show(format!("the line with q{m}q is there {c} times"), ""));
        }
    }
    let markers = |d: &Vec<String>| -> usize { d.iter().filter(|l| l.contains('q') && l.matches('q').count() >= 2).count() };
    let expected: usize = want.iter().map(|w| markers(&w.1)).sum();
    if count.len() != expected {
        viol!("spread", "{}", show(format!("{} lines of documentation are in the code, there should be {expected}", count.len()), ""));
    }
    // The code does not depend on documentation
    let mut q = p.clone();
    for d in &mut q.s.decls {
        d.docs.clear();
        match &mut d.kind {
            Kind::Table { fields, .. } => fields.iter_mut().for_each(|f| f.docs.clear()),
            Kind::Struct { fields, .. } => fields.iter_mut().for_each(|f| f.docs.clear()),
            Kind::Enum { variants, .. } => variants.iter_mut().for_each(|f| f.docs.clear()),
            Kind::Union { variants } => variants.iter_mut().for_each(|f| f.docs.clear()),
        }
    }
    q.inner.iter_mut().for_each(|i| i.clear());
    let dir2 = fresh_dir(ctx, "q");
    for (f, t) in q.s.files.iter().zip(tokens(&q, &o, &mut Rng::new(salt))) {
        put(&dir2, &f.path, lay(&t, &Layout::random(&mut r), &mut r).text.as_bytes());
    }
    let (ds2, err) = translate(ctx, &roots(&dir2, &q), Default::default())?;
    let Some(ds2) = ds2 else { viol!("rejected", "{}", show("rejected without documentation".into(), &err)) };
    let mut other = match syn::parse_file(&rust(&ds2)?) {
        Ok(f) => f,
        Err(e) => viol!("parse", "{}", show(format!("without documentation the code cannot be parsed: {e}"), "")),
    };
    Strip::default().visit_file_mut(&mut other);
    if file != other {
        viol!("code", "{}", show("the code depends on the documentation".into(), ""));
    }
    let st = &mut ctx.st;
    st.add("lines_of_documentation", lines as u64);
    st.add("items_compared", want.len() as u64);
    st.add("doc_attributes_seen", strip.all.len() as u64);
    st.add("comments_marked", comments as u64);
    st.seen(&text);
    st.sample(|| text.clone());
    Ok(())
}
