//! Random schema sets for the compiler: many files, namespaces, names and include graphs.
use fbm::gen::*;
use fbm::src::*;
use fbm::*;
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Names {
    /// Ordinary words
    Plain,
    /// Few names, used again and again in different namespaces
    Colliding,
    /// Names that mean something in Rust or in generated code
    Hostile,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub files: (usize, usize),
    pub decls: (usize, usize),
    pub fields: usize,
    pub names: Names,
    pub docs: bool,
    /// Every file includes every other one, directly or not
    pub connected: bool,
    pub force_align: bool,
    /// Empty tables, unions and enums
    pub empty: bool,
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Self {
        Cfg {
            files: (1, *r.pick(&[1, 2, 3, 5])),
            decls: (2, *r.pick(&[4, 8, 14])),
            fields: *r.pick(&[3, 6, 10]),
            names: *r.pick(&[Names::Plain, Names::Colliding, Names::Hostile]),
            docs: r.chance(1, 2),
            connected: r.chance(1, 3),
            force_align: r.chance(1, 3),
            empty: r.chance(1, 4),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Project {
    pub s: Schema,
    /// Inner documentation of each file
    pub inner: Vec<Vec<String>>,
    /// Declarations of each file in the order in which they are written
    pub order: Vec<Vec<usize>>,
    /// Files given on the command line
    pub roots: Vec<usize>,
}

const PLAIN: &[&str] = &[
    "alpha", "Beta", "gamma_ray", "DeltaForce", "epsilonX", "zeta9", "Eta", "theta_", "_iota", "kappa__k", "Lambda2", "MU", "nu_Nu", "xi", "Omicron", "pi", "rho", "SigmaS", "tau", "Upsilon",
    "phi", "Chi", "psi", "omega", "id", "key", "color", "monster", "Weapon", "hp", "mana", "pos", "x", "y", "z", "name", "friendly", "inventory",
];
const COLLIDING: &[&str] = &["A", "B", "C", "a", "b", "c", "X", "Y", "T", "U", "int", "string", "table", "AA", "aA"];
pub const HOSTILE: &[&str] = &[
    "type", "Self", "self", "super", "crate", "fn", "mod", "impl", "struct", "enum", "union", "table", "include", "namespace", "match", "loop", "dyn", "async", "await", "try", "yield", "box", "macro",
    "abstract", "final", "static", "const", "move", "ref", "mut", "pub", "use", "where", "while", "return", "true", "false", "null", "nan", "inf", "in", "as", "break", "union_", "Type", "type_", "Option", "Some", "None", "Result", "Ok", "Err", "Vec", "String", "str", "u8", "i32", "bool", "f32", "usize", "Box", "Clone", "Copy",
    "Debug", "Default", "PartialEq", "Eq", "Ord", "Hash", "From", "Into", "TryFrom", "Iterator", "Sized", "Send", "core", "std", "alloc", "planus", "serde", "Ref", "MonsterRef", "Builder", "MonsterBuilder", "new", "create", "builder", "build", "finish", "get", "set", "len", "is_empty",
    "iter", "clone", "default", "eq", "cmp", "hash", "fmt", "from", "into", "try_from", "as_ref", "read_as_root", "prepare", "prepare_all", "value", "offset", "slice", "position", "buffer", "table_writer", "object_offset", "tag", "f0", "T", "T0", "T1", "U", "V", "E", "K", "W", "NULL", "Null", "UnionOffset", "UnknownEnumTag", "Offset", "WriteAs", "WriteAsOptional",
    "WriteAsDefault", "WriteAsOffset", "TableRead", "VectorRead", "VectorWrite", "Primitive", "StructRef", "as_default", "create_x", "createX", "CreateX", "x_as_null", "x", "xTag", "XTag", "X", "fooBar", "FooBar", "foo_bar", "Foo_Bar", "FOO_BAR", "foo__bar", "foobar", "a1", "a_1", "A1", "_", "__", "___", "_0",
    "_1x", "_9", "A_", "_A", "ENUM_VALUES", "get_x", "set_x", "getX", "inner", "cache", "payload", "this", "other", "__serialized", "state", "f", "d", "buffer_", "fields", "variant", "Array", "Vector", "Planus", "root", "root_", "gen", "macro_rules", "cfg", "test", "derive", "doc", "allow", "main", "drop", "Drop", "Fn", "FnOnce", "unsafe", "extern", "override", "priv", "typeof", "unsized", "virtual", "become", "do", "raw", "auto", "default_", "safe",
];

pub fn word(n: Names, r: &mut Rng) -> String {
    let l = match n {
        Names::Plain => PLAIN,
        Names::Colliding => COLLIDING,
        Names::Hostile => HOSTILE,
    };
    let mut w = r.pick(l).to_string();
    if n != Names::Colliding && r.chance(1, 3) || r.chance(1, 10) {
        w = match r.below(5) {
            0 => format!("{w}{}", r.below(30)),
            1 => format!("{w}_"),
            2 => {
                let o = *r.pick(l);
                format!("{w}_{o}")
            }
            3 => {
                let o = *r.pick(l);
                format!("{w}{}{}", o[..1].to_uppercase(), &o[1..])
            }
            _ => w.to_uppercase(),
        };
    }
    w
}

/// A word that is not in the set yet
pub fn fresh(n: Names, used: &mut HashSet<String>, r: &mut Rng) -> String {
    for t in 0.. {
        let mut w = word(n, r);
        if t > 20 {
            w = format!("{w}{}", r.below(1000));
        }
        if used.insert(w.clone()) {
            return w;
        }
    }
    unreachable!()
}

pub const DOC_LINES: &[&str] = &[
    " A documented thing.", " ", "", "no space", "  indented", " * bullet `code`", " # Heading", " ```", " é ü 😀 中", " \"quoted\" 'single'", " back\\slash \\n", " {braces} {{double}} {{#if}} {% raw %}", " /* block */", " // slashes",
    " #[attr] #![x]", " */", "!bang", " end with backslash \\", " tab\there", " <T as Trait>::x &amp; <b>", " trailing   ", " [link](http://x.y)", " \u{a0}nbsp", " r#\"raw\"#", "// five slashes", " $dollar %s", " a very long line that goes on and on and on and on and on and on and on and on and on and on and on and on and on", " ;", " }", "}{",
];

pub fn docs(r: &mut Rng) -> Vec<String> {
    (0..*r.pick(&[1, 1, 1, 2, 3, 5])).map(|_| if r.chance(1, 2) { format!(" doc {}", r.next() % 1_000_000) } else { r.pick(DOC_LINES).to_string() }).collect()
}

fn maybe_docs(on: bool, r: &mut Rng) -> Vec<String> {
    if on && r.chance(1, 2) {
        docs(r)
    } else {
        vec![]
    }
}

pub fn generate(r: &mut Rng, cfg: &Cfg) -> Project {
    let mut b = B::new("p");
    let n = r.range(cfg.files.0, cfg.files.1);
    // Files
    let stems = ["main", "net", "types", "base_x", "deep", "a b", "ünï", "q.r", "UPPER", "x"];
    let dirs = ["", "", "sub/", "sub/deep/", "other dir/"];
    b.s.files.clear();
    let mut paths = HashSet::new();
    let mut stem = stems.to_vec();
    r.shuffle(&mut stem);
    for i in 0..n {
        let p = format!("{}{}.fbs", r.pick(&dirs), stem[i % stem.len()]);
        let p = if paths.insert(p.clone()) { p } else { format!("f{i}.fbs") };
        b.s.files.push(FileInfo { path: p, ns: vec![], includes: vec![] });
    }
    // Namespaces share prefixes
    let mut nss: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..r.range(0, 4) {
        let mut p = r.pick(&nss).clone();
        if p.len() < 4 {
            p.push(word(cfg.names, r));
            nss.push(p);
        }
    }
    for f in 0..n {
        b.s.files[f].ns = r.pick(&nss).clone();
    }
    let mut ns_paths: HashSet<Vec<String>> = HashSet::new();
    for f in &b.s.files {
        for l in 0..=f.ns.len() {
            ns_paths.insert(f.ns[..l].to_vec());
        }
    }
    // Includes
    for i in 0..n {
        let mut inc: Vec<usize> = (0..n).filter(|j| if cfg.connected { *j == (i + 1) % n && *j != i || r.chance(1, 4) } else { r.chance(1, 3) }).collect();
        r.shuffle(&mut inc);
        if !inc.is_empty() && r.chance(1, 10) {
            let x = *r.pick(&inc);
            inc.push(x);
        }
        b.s.files[i].includes = inc;
    }
    // Declarations, first only their names
    let count = r.range(cfg.decls.0, cfg.decls.1);
    let mut used: HashSet<(Vec<String>, String)> = HashSet::new();
    for _ in 0..count {
        let f = r.below(n);
        let d = match r.below(10) {
            0 | 1 => b.enumeration(f, *r.pick(&INTS), &[]),
            2 | 3 => b.strukt(f, &[], None),
            4 | 5 => b.union(f, &[]),
            _ => b.table(f),
        };
        let ns = b.s.files[f].ns.clone();
        for t in 0.. {
            let mut w = word(cfg.names, r);
            if t > 20 {
                w = format!("{w}{}", r.below(1000));
            }
            let mut full = ns.clone();
            full.push(w.clone());
            if !ns_paths.contains(&full) && used.insert((ns.clone(), w.clone())) {
                b.s.decls[d].name = w;
                break;
            }
        }
        b.s.decls[d].docs = maybe_docs(cfg.docs, r);
    }
    let kinds: Vec<u8> = b
        .s
        .decls
        .iter()
        .map(|d| match d.kind {
            Kind::Table { .. } => 0,
            Kind::Struct { .. } => 1,
            Kind::Enum { .. } => 2,
            Kind::Union { .. } => 3,
        })
        .collect();
    // What can be named from which file
    let names: Vec<Vec<bool>> = (0..n).map(|f| (0..count).map(|d| !spellings(&b.s, f, d).is_empty()).collect()).collect();
    let can = |f: usize, k: u8| -> Vec<usize> { (0..count).filter(|d| kinds[*d] == k && names[f][*d]).collect() };
    let mut empty_enum = vec![false; count];
    for d in 0..count {
        let f = b.s.decls[d].file;
        if let Kind::Enum { sc, .. } = b.s.decls[d].kind.clone() {
            let mut vals = if cfg.empty && r.chance(1, 4) {
                vec![]
            } else {
                let n = if r.chance(1, 5) { 1 } else { r.range(1, 7) };
                random_values(sc, n, r)
            };
            // Without a zero there is no default to fall back to
            if r.chance(1, 4) && vals.iter().any(|x| *x != 0) {
                vals.retain(|x| *x != 0);
            }
            // Runs of consecutive values
            if let (Some(v), true) = (vals.first().copied(), r.chance(1, 2)) {
                for x in 1..r.range(1, 5) as i128 {
                    if v + x <= sc.hi() && !vals.contains(&(v + x)) {
                        vals.push(v + x);
                    }
                }
            }
            match r.below(3) {
                0 => r.shuffle(&mut vals),
                1 => vals.sort(),
                _ => (),
            }
            empty_enum[d] = vals.is_empty();
            let mut used = HashSet::new();
            let mut vs: Vec<EVariant> = vec![];
            for v in vals {
                let implied = vs.last().map(|x| x.value + 1).unwrap_or(0) == v;
                let name = fresh(cfg.names, &mut used, r);
                vs.push(EVariant { name, value: v, explicit: !implied || r.chance(1, 2), docs: maybe_docs(cfg.docs, r) });
            }
            b.s.decls[d].kind = Kind::Enum { sc, variants: vs };
        } else if let Kind::Struct { .. } = &b.s.decls[d].kind {
            let structs: Vec<usize> = can(f, 1).into_iter().filter(|x| *x < d).collect();
            let enums = can(f, 2);
            let mut used = HashSet::new();
            let mut fields = vec![];
            for _ in 0..r.range(1, cfg.fields) {
                let ty = match r.below(8) {
                    0 | 1 if !enums.is_empty() => Ty::Enum(*r.pick(&enums)),
                    2 | 3 if !structs.is_empty() => Ty::Struct(*r.pick(&structs)),
                    _ => Ty::Sc(*r.pick(&SCALARS)),
                };
                fields.push(SField { name: fresh(cfg.names, &mut used, r), ty, offset: 0, docs: maybe_docs(cfg.docs, r) });
            }
            b.s.decls[d].kind = Kind::Struct { fields, force_align: None, size: 0, align: 0 };
            b.s.layout();
            if cfg.force_align && r.chance(1, 2) {
                let natural = b.s.align(&Ty::Struct(d));
                let cand: Vec<usize> = [1, 2, 4, 8, 16, 32, 64, 128, 256].into_iter().filter(|x| *x >= natural).collect();
                let pick = *r.pick(&cand);
                if let Kind::Struct { force_align, .. } = &mut b.s.decls[d].kind {
                    *force_align = Some(pick);
                }
                b.s.layout();
            }
        }
    }
    for d in 0..count {
        let f = b.s.decls[d].file;
        if let Kind::Union { .. } = &b.s.decls[d].kind {
            let (tables, structs) = (can(f, 0), can(f, 1));
            let mut vs: Vec<UVariant> = vec![];
            let mut used = HashSet::new();
            let m = if cfg.empty && r.chance(1, 5) { 0 } else { r.range(1, 6) };
            for _ in 0..m {
                let ty = match r.below(5) {
                    0 | 1 | 2 if !tables.is_empty() => Ty::Table(*r.pick(&tables)),
                    0..=3 if !structs.is_empty() => Ty::Struct(*r.pick(&structs)),
                    _ => Ty::Str,
                };
                let named = ty == Ty::Str || r.chance(1, 2);
                let name = if named {
                    fresh(cfg.names, &mut used, r)
                } else {
                    let sp = spellings(&b.s, f, ty.decl().unwrap());
                    let p = r.pick(&sp).join(".");
                    if vs.iter().any(|v| !v.named && v.name == p) {
                        continue;
                    }
                    p
                };
                vs.push(UVariant { name, named, ty, docs: maybe_docs(cfg.docs, r) });
            }
            // Names that clash are dropped
            loop {
                let ns = union_names(&vs);
                let clash = (0..ns.len()).find(|i| ns[..*i].contains(&ns[*i]));
                match clash {
                    Some(i) => {
                        vs.remove(i);
                    }
                    None => break,
                }
            }
            b.s.decls[d].kind = Kind::Union { variants: vs };
        }
    }
    for d in 0..count {
        let f = b.s.decls[d].file;
        if kinds[d] != 0 {
            continue;
        }
        let (tables, structs, unions) = (can(f, 0), can(f, 1), can(f, 3));
        let enums: Vec<usize> = can(f, 2);
        let mut used = HashSet::new();
        let m = if cfg.empty && r.chance(1, 4) { 0 } else { r.range(1, cfg.fields) };
        for _ in 0..m {
            let base = |r: &mut Rng| match r.below(9) {
                0 if !enums.is_empty() => Ty::Enum(*r.pick(&enums)),
                1 if !structs.is_empty() => Ty::Struct(*r.pick(&structs)),
                2 | 3 if !tables.is_empty() => Ty::Table(*r.pick(&tables)),
                4 | 5 if !unions.is_empty() => Ty::Union(*r.pick(&unions)),
                6 => Ty::Str,
                _ => Ty::Sc(*r.pick(&SCALARS)),
            };
            let ty = base(r);
            let ty = if r.chance(1, 3) { Ty::vec(ty) } else { ty };
            let mode = match ty {
                Ty::Enum(e) if empty_enum[e] => Mode::Opt,
                _ => random_mode(&b.s, &ty, r),
            };
            let i = b.field(d, ty, mode);
            let (show, docs) = (r.chance(1, 2), maybe_docs(cfg.docs, r));
            let name = fresh(cfg.names, &mut used, r);
            let align = b.s.align(&b.s.fields(d)[i].ty.clone());
            let fm = b.fmut(d, i);
            fm.name = name;
            fm.show_default = show;
            fm.docs = docs;
            fm.deprecated = r.chance(1, 12);
            if cfg.force_align && r.chance(1, 8) {
                fm.force_align = align << r.below(3);
            }
        }
        if r.chance(1, 2) && m > 0 {
            b.ids(d, r);
        } else {
            b.slots(d);
        }
    }
    b.s.layout();
    let inner = (0..n)
        .map(|f| {
            let any = !b.s.files[f].includes.is_empty() || !b.s.files[f].ns.is_empty() || b.s.decls.iter().any(|d| d.file == f);
            if cfg.docs && any && r.chance(1, 2) {
                docs(r)
            } else {
                vec![]
            }
        })
        .collect();
    let order = (0..n)
        .map(|f| {
            let mut o: Vec<usize> = (0..count).filter(|d| b.s.decls[*d].file == f).collect();
            r.shuffle(&mut o);
            o
        })
        .collect();
    // Every file has to be read
    let mut roots: Vec<usize> = vec![];
    let mut seen = vec![false; n];
    let mut all: Vec<usize> = (0..n).collect();
    r.shuffle(&mut all);
    for f in all {
        if !seen[f] || r.chance(1, 5) {
            roots.push(f);
            for (x, y) in seen.iter_mut().zip(reach(&b.s, f)) {
                *x |= y;
            }
        }
    }
    Project { s: b.s, inner, order, roots }
}

/// Names of the variants of a union
pub fn union_names(vs: &[UVariant]) -> Vec<String> {
    let short: Vec<&str> = vs.iter().map(|v| if v.named { v.name.as_str() } else { v.name.rsplit('.').next().unwrap() }).collect();
    vs.iter()
        .enumerate()
        .map(|(i, v)| {
            let unique = short.iter().filter(|x| **x == short[i]).count() == 1;
            if v.named || unique {
                short[i].to_string()
            } else {
                v.name.replace('.', "_")
            }
        })
        .collect()
}

pub struct Written {
    pub toks: Vec<Vec<Tok>>,
    pub srcs: Vec<Src>,
    pub layout: Vec<Layout>,
}

pub fn render(p: &Project, o: &Opts, l: Option<Layout>, r: &mut Rng) -> Written {
    let mut w = Written { toks: vec![], srcs: vec![], layout: vec![] };
    for f in 0..p.s.files.len() {
        let mut t = Toks::new(&p.s, o.clone(), Rng::new(r.next()));
        t.file(f, &p.inner[f], &p.order[f]);
        let layout = l.clone().unwrap_or_else(|| Layout::random(r));
        let src = lay(&t.out, &layout, r);
        w.toks.push(t.out);
        w.srcs.push(src);
        w.layout.push(layout);
    }
    w
}
