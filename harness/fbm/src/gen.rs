//! Schemas used by the monitors: some written by hand, the others random.
use crate::rng::Rng;
use crate::schema::*;
use crate::value::*;

pub struct B {
    pub s: Schema,
}

impl B {
    pub fn new(name: &str) -> Self {
        B {
            s: Schema {
                name: name.into(),
                files: vec![FileInfo { path: "main.fbs".into(), ns: vec![], includes: vec![] }],
                ..Default::default()
            },
        }
    }
    pub fn file(&mut self, path: &str, ns: &[&str]) -> usize {
        self.s.files.push(FileInfo {
            path: path.into(),
            ns: ns.iter().map(|x| x.to_string()).collect(),
            includes: vec![],
        });
        self.s.files.len() - 1
    }
    fn decl(&mut self, prefix: &str, file: usize, kind: Kind) -> usize {
        let d = self.s.decls.len();
        self.s.decls.push(Decl { name: format!("{prefix}{d}"), file, kind, docs: vec![] });
        d
    }
    pub fn table(&mut self, file: usize) -> usize {
        self.decl("T", file, Kind::Table { fields: vec![], ids: false })
    }
    pub fn strukt(&mut self, file: usize, tys: &[Ty], force_align: Option<usize>) -> usize {
        let fields = tys
            .iter()
            .enumerate()
            .map(|(i, ty)| SField { name: format!("f{i}"), ty: ty.clone(), offset: 0, docs: vec![] })
            .collect();
        self.decl("S", file, Kind::Struct { fields, force_align, size: 0, align: 0 })
    }
    pub fn enumeration(&mut self, file: usize, sc: Sc, values: &[i128]) -> usize {
        let variants = values
            .iter()
            .enumerate()
            .map(|(i, v)| EVariant { name: format!("A{i}"), value: *v, explicit: true, docs: vec![] })
            .collect();
        self.decl("E", file, Kind::Enum { sc, variants })
    }
    pub fn union(&mut self, file: usize, tys: &[Ty]) -> usize {
        let variants = tys
            .iter()
            .enumerate()
            .map(|(i, ty)| UVariant { name: format!("V{i}"), named: true, ty: ty.clone(), docs: vec![] })
            .collect();
        self.decl("U", file, Kind::Union { variants })
    }
    pub fn field(&mut self, t: usize, ty: Ty, mode: Mode) -> usize {
        match &mut self.s.decls[t].kind {
            Kind::Table { fields, .. } => {
                let n = fields.len();
                fields.push(Field {
                    name: format!("f{n}"),
                    ty,
                    mode,
                    slot: 0,
                    deprecated: false,
                    force_align: 0,
                    show_default: true,
                    docs: vec![],
                });
                n
            }
            _ => panic!(),
        }
    }
    pub fn fmut(&mut self, t: usize, f: usize) -> &mut Field {
        match &mut self.s.decls[t].kind {
            Kind::Table { fields, .. } => &mut fields[f],
            _ => panic!(),
        }
    }
    /// Slots in declaration order
    pub fn slots(&mut self, t: usize) {
        if let Kind::Table { fields, ids } = &mut self.s.decls[t].kind {
            *ids = false;
            let mut n = 0;
            for f in fields {
                if f.ty.is_double() {
                    n += 1;
                }
                f.slot = n;
                n += 1;
            }
        }
    }
    /// Slots in random order, with id attributes
    pub fn ids(&mut self, t: usize, r: &mut Rng) {
        if let Kind::Table { fields, ids } = &mut self.s.decls[t].kind {
            *ids = true;
            let mut order: Vec<usize> = (0..fields.len()).collect();
            r.shuffle(&mut order);
            let mut n = 0;
            for i in order {
                if fields[i].ty.is_double() {
                    n += 1;
                }
                fields[i].slot = n;
                n += 1;
            }
        }
    }
    pub fn done(mut self, roots: &[usize]) -> Schema {
        let tables = self.s.tables();
        for t in tables {
            let Kind::Table { fields, ids } = &self.s.decls[t].kind else { unreachable!() };
            if !*ids && fields.iter().all(|f| f.slot == 0) {
                self.slots(t);
            }
        }
        self.s.roots = roots.to_vec();
        self.s.layout();
        self.s
    }
}

pub fn zero(sc: Sc) -> V {
    match sc {
        Sc::Bool => V::Bool(false),
        Sc::F32 => V::F32(0),
        Sc::F64 => V::F64(0),
        _ => V::Int(0),
    }
}

/// Every type, every mode
pub fn kitchen_sink() -> Schema {
    let mut b = B::new("kitchen");
    let e = b.enumeration(0, Sc::U8, &[0, 1, 5, 255]);
    let en = b.enumeration(0, Sc::I32, &[-7, 3, 1 << 30]);
    let e64 = b.enumeration(0, Sc::I64, &[i64::MIN as i128, -1, 0, i64::MAX as i128]);
    // Values that do not survive a detour over another width or signedness
    let m64 = b.enumeration(0, Sc::U64, &[0, 1 << 31, 1 << 40, 0x1234_5678_9abc, 1 << 63, u64::MAX as i128]);
    let n64 = b.enumeration(0, Sc::I64, &[-(1 << 40), -129, 0, 255, 1 << 32, 1 << 53]);
    let m16 = b.enumeration(0, Sc::U16, &[0, 127, 128, 0x8000, 0xffff]);
    let sm = b.strukt(0, &[Ty::Enum(m64), Ty::Enum(m16), Ty::Enum(n64), Ty::Sc(Sc::I8)], None);
    // More members than any table of built-in helpers
    let wide: Vec<Ty> = (0..20).map(|i| Ty::Sc(SCALARS[i * 7 % SCALARS.len()])).collect();
    let sw = b.strukt(0, &wide, None);
    let s = b.strukt(0, &[Ty::Sc(Sc::U8), Ty::Sc(Sc::U32), Ty::Sc(Sc::I16)], None);
    let se = b.strukt(0, &[Ty::Enum(e), Ty::Struct(s), Ty::Sc(Sc::Bool), Ty::Sc(Sc::F64)], None);
    let leaf = b.table(0);
    b.field(leaf, Ty::Sc(Sc::I32), Mode::Def(V::Int(0)));
    b.field(leaf, Ty::Str, Mode::Opt);
    let u = b.union(0, &[Ty::Table(leaf), Ty::Struct(s), Ty::Str, Ty::Table(leaf), Ty::Struct(se)]);
    let t = b.table(0);
    for sc in SCALARS {
        b.field(t, Ty::Sc(sc), Mode::Def(zero(sc)));
    }
    for sc in SCALARS {
        b.field(t, Ty::Sc(sc), Mode::Opt);
    }
    let defs = [
        V::Bool(true),
        V::Int(-128),
        V::Int(255),
        V::Int(-2),
        V::Int(65535),
        V::Int(i32::MIN as i128),
        V::Int(u32::MAX as i128),
        V::Int(i64::MIN as i128),
        V::Int(u64::MAX as i128),
        V::F32((-1.5f32).to_bits()),
        V::F64(1e300f64.to_bits()),
    ];
    for (sc, d) in SCALARS.into_iter().zip(defs) {
        b.field(t, Ty::Sc(sc), Mode::Def(d));
    }
    b.field(t, Ty::Enum(e), Mode::Def(V::Int(0)));
    b.field(t, Ty::Enum(e), Mode::Def(V::Int(255)));
    b.field(t, Ty::Enum(e), Mode::Opt);
    b.field(t, Ty::Enum(en), Mode::Def(V::Int(-7)));
    b.field(t, Ty::Enum(en), Mode::Opt);
    b.field(t, Ty::Enum(e64), Mode::Def(V::Int(i64::MIN as i128)));
    for st in [s, se, sm, sw] {
        b.field(t, Ty::Struct(st), Mode::Opt);
    }
    b.field(t, Ty::Enum(m64), Mode::Def(V::Int(1 << 40)));
    b.field(t, Ty::Enum(m64), Mode::Opt);
    b.field(t, Ty::Enum(n64), Mode::Def(V::Int(0)));
    b.field(t, Ty::Enum(m16), Mode::Def(V::Int(0x8000)));
    b.field(t, Ty::Str, Mode::Opt);
    b.field(t, Ty::Str, Mode::Def(V::Str("abc".into())));
    b.field(t, Ty::Str, Mode::Def(V::Str(String::new())));
    b.field(t, Ty::Table(t), Mode::Opt);
    b.field(t, Ty::Table(leaf), Mode::Opt);
    b.field(t, Ty::Union(u), Mode::Opt);
    let v = b.table(0);
    for ty in [
        Ty::Sc(Sc::Bool),
        Ty::Sc(Sc::I8),
        Ty::Sc(Sc::U8),
        Ty::Sc(Sc::U16),
        Ty::Sc(Sc::I32),
        Ty::Sc(Sc::U64),
        Ty::Sc(Sc::F32),
        Ty::Sc(Sc::F64),
        Ty::Enum(e),
        Ty::Enum(e64),
        Ty::Enum(m64),
        Ty::Enum(n64),
        Ty::Enum(m16),
        Ty::Struct(s),
        Ty::Struct(se),
        Ty::Struct(sm),
        Ty::Struct(sw),
        Ty::Str,
        Ty::Table(leaf),
        Ty::Union(u),
    ] {
        b.field(v, Ty::vec(ty), Mode::Opt);
    }
    b.field(v, Ty::Table(t), Mode::Opt);
    let q = b.table(0);
    b.field(q, Ty::Str, Mode::Req);
    b.field(q, Ty::Struct(s), Mode::Req);
    b.field(q, Ty::Table(leaf), Mode::Req);
    b.field(q, Ty::Union(u), Mode::Req);
    b.field(q, Ty::vec(Ty::Sc(Sc::U8)), Mode::Req);
    b.field(q, Ty::vec(Ty::Sc(Sc::I16)), Mode::Req);
    b.field(q, Ty::vec(Ty::Str), Mode::Req);
    b.field(q, Ty::vec(Ty::Union(u)), Mode::Req);
    b.field(q, Ty::vec(Ty::Sc(Sc::I8)), Mode::Def(V::Vec(vec![])));
    b.field(q, Ty::vec(Ty::Sc(Sc::U64)), Mode::Def(V::Vec(vec![])));
    b.field(q, Ty::vec(Ty::Table(q)), Mode::Def(V::Vec(vec![])));
    b.field(q, Ty::vec(Ty::Union(u)), Mode::Def(V::Vec(vec![])));
    b.field(q, Ty::vec(Ty::Str), Mode::Def(V::Vec(vec![])));
    b.field(q, Ty::vec(Ty::Struct(se)), Mode::Def(V::Vec(vec![])));
    b.field(q, Ty::vec(Ty::Enum(e)), Mode::Def(V::Vec(vec![])));
    let w = b.table(0);
    b.field(w, Ty::Table(q), Mode::Req);
    b.field(w, Ty::Table(t), Mode::Req);
    b.done(&[t, v, q, w])
}

/// Sizes, alignments and force_align
pub fn alignment() -> Schema {
    let mut b = B::new("align");
    let s1 = b.strukt(0, &[Ty::Sc(Sc::U8)], None);
    let s2 = b.strukt(0, &[Ty::Sc(Sc::U8), Ty::Sc(Sc::U64), Ty::Sc(Sc::U8)], None);
    let s3 = b.strukt(0, &[Ty::Sc(Sc::U16)], Some(16));
    let s4 = b.strukt(0, &[Ty::Struct(s1), Ty::Struct(s3), Ty::Sc(Sc::U8), Ty::Struct(s2)], None);
    let s5 = b.strukt(0, &[Ty::Sc(Sc::Bool), Ty::Sc(Sc::Bool), Ty::Sc(Sc::Bool)], None);
    let s6 = b.strukt(0, &[Ty::Sc(Sc::U8), Ty::Sc(Sc::U8)], Some(32));
    let s7 = b.strukt(0, &[Ty::Sc(Sc::F32), Ty::Sc(Sc::I8), Ty::Sc(Sc::I16), Ty::Sc(Sc::I8)], Some(8));
    let s8 = b.strukt(0, &[Ty::Sc(Sc::U8), Ty::Sc(Sc::U32)], Some(64));
    let s9 = b.strukt(0, &[Ty::Sc(Sc::I16)], Some(256));
    let ss = [s1, s2, s3, s4, s5, s6, s7, s8, s9];
    let t = b.table(0);
    for s in ss {
        b.field(t, Ty::Struct(s), Mode::Opt);
        b.field(t, Ty::Sc(Sc::U8), Mode::Opt);
    }
    b.field(t, Ty::Sc(Sc::F64), Mode::Opt);
    b.field(t, Ty::Sc(Sc::U16), Mode::Opt);
    let v = b.table(0);
    for s in ss {
        b.field(v, Ty::vec(Ty::Struct(s)), Mode::Opt);
    }
    b.field(v, Ty::Str, Mode::Opt);
    b.field(v, Ty::Table(t), Mode::Opt);
    let u = b.union(0, &ss.iter().map(|s| Ty::Struct(*s)).collect::<Vec<_>>());
    let w = b.table(0);
    b.field(w, Ty::Union(u), Mode::Opt);
    b.field(w, Ty::vec(Ty::Union(u)), Mode::Opt);
    b.field(w, Ty::vec(Ty::Table(v)), Mode::Opt);
    b.field(w, Ty::vec(Ty::Sc(Sc::U8)), Mode::Opt);
    b.field(w, Ty::Table(t), Mode::Opt);
    b.done(&[t, v, w])
}

/// Recursive tables and unions
pub fn recursive(r: &mut Rng) -> Schema {
    let mut b = B::new("recursive");
    let n = b.file("net.fbs", &["ns0", "ns1"]);
    let o = b.file("oth.fbs", &["ns0"]);
    b.s.files[0].includes = vec![n];
    b.s.files[n].includes = vec![o];
    b.s.files[o].includes = vec![0];
    let a = b.table(0);
    let c = b.table(n);
    let d = b.table(o);
    let u = b.union(o, &[Ty::Table(a), Ty::Table(c), Ty::Str, Ty::Table(d)]);
    let u2 = b.union(n, &[Ty::Table(c)]);
    b.field(a, Ty::Table(a), Mode::Opt);
    b.field(a, Ty::Union(u), Mode::Opt);
    b.field(a, Ty::vec(Ty::Table(c)), Mode::Opt);
    b.field(a, Ty::Str, Mode::Opt);
    b.field(c, Ty::vec(Ty::Union(u)), Mode::Opt);
    b.field(c, Ty::Union(u2), Mode::Opt);
    b.field(c, Ty::Sc(Sc::U8), Mode::Def(V::Int(7)));
    b.field(c, Ty::Table(d), Mode::Opt);
    b.field(d, Ty::Union(u), Mode::Req);
    b.field(d, Ty::vec(Ty::Table(a)), Mode::Opt);
    b.field(d, Ty::Sc(Sc::U64), Mode::Def(V::Int(0)));
    b.ids(a, r);
    b.ids(d, r);
    b.done(&[a, c, d])
}

/// Many fields with ids
pub fn many_fields(r: &mut Rng) -> Schema {
    let mut b = B::new("many");
    let e = b.enumeration(0, Sc::U16, &(0..40).map(|x| x * x).collect::<Vec<_>>());
    let leaf = b.table(0);
    let u = b.union(0, &[Ty::Table(leaf), Ty::Str]);
    let t = b.table(0);
    for i in 0..70 {
        match i % 7 {
            0 => b.field(t, Ty::Sc(Sc::U8), Mode::Def(V::Int(i as i128))),
            1 => b.field(t, Ty::Sc(Sc::I64), Mode::Opt),
            2 => b.field(t, Ty::Str, Mode::Opt),
            3 => b.field(t, Ty::Union(u), Mode::Opt),
            4 => b.field(t, Ty::Enum(e), Mode::Def(V::Int(if i % 2 == 0 { 0 } else { 39 * 39 }))),
            5 => b.field(t, Ty::vec(Ty::Union(u)), Mode::Opt),
            _ => b.field(t, Ty::Sc(Sc::Bool), Mode::Def(V::Bool(i % 2 == 0))),
        };
    }
    for i in [3, 8, 16, 17, 40, 69] {
        b.fmut(t, i).deprecated = true;
    }
    b.ids(t, r);
    b.done(&[t, leaf])
}

pub struct RandCfg {
    pub files: usize,
    pub enums: usize,
    pub structs: usize,
    pub tables: usize,
    pub unions: usize,
    pub max_fields: usize,
}

pub fn random(name: &str, r: &mut Rng) -> Schema {
    let cfg = RandCfg {
        files: r.range(1, 3),
        enums: r.range(1, 3),
        structs: r.range(1, 4),
        tables: r.range(2, 4),
        unions: r.range(1, 2),
        max_fields: 9,
    };
    random_with(name, r, &cfg)
}

pub fn random_values(sc: Sc, n: usize, r: &mut Rng) -> Vec<i128> {
    let mut vs = std::collections::BTreeSet::new();
    if r.chance(3, 4) {
        vs.insert(0);
    }
    let mut tries = 0;
    while vs.len() < n && tries < 1000 {
        tries += 1;
        vs.insert(gen_int(sc, r));
    }
    vs.into_iter().collect()
}

pub fn random_with(name: &str, r: &mut Rng, cfg: &RandCfg) -> Schema {
    let mut b = B::new(name);
    let namespaces: [&[&str]; 4] = [&[], &["ns0"], &["ns0", "ns1"], &["ns2"]];
    b.s.files[0].ns = r.pick(&namespaces).iter().map(|x| x.to_string()).collect();
    for i in 1..cfg.files {
        let ns = *r.pick(&namespaces);
        b.file(&format!("inc{i}.fbs"), ns);
    }
    // Includes: a cycle-free chain plus random ones, so that every file reaches every other
    let n = b.s.files.len();
    for i in 0..n {
        let mut inc: Vec<usize> = (0..n).filter(|j| *j != i && (*j == (i + 1) % n || r.chance(1, 3))).collect();
        r.shuffle(&mut inc);
        b.s.files[i].includes = inc;
    }
    let mut enums = vec![];
    for _ in 0..cfg.enums {
        let sc = *r.pick(&INTS);
        let count = r.range(1, 6);
        let mut vals = random_values(sc, count, r);
        if vals.is_empty() {
            vals.push(0);
        }
        let f = r.below(n);
        enums.push(b.enumeration(f, sc, &vals));
    }
    let mut structs: Vec<usize> = vec![];
    for _ in 0..cfg.structs {
        let mut tys = vec![];
        let members = if r.chance(1, 5) { r.range(7, 16) } else { r.range(1, 6) };
        for _ in 0..members {
            tys.push(match r.below(10) {
                0 | 1 => Ty::Enum(*r.pick(&enums)),
                2 | 3 if !structs.is_empty() => Ty::Struct(*r.pick(&structs)),
                _ => Ty::Sc(*r.pick(&SCALARS)),
            });
        }
        let f = r.below(n);
        let st = b.strukt(f, &tys, None);
        // Lowering the alignment is not allowed
        if r.chance(1, 4) {
            b.s.layout();
            let natural = b.s.align(&Ty::Struct(st));
            let cand: Vec<usize> = [1, 2, 4, 8, 16, 32, 64, 128, 256].into_iter().filter(|x| *x >= natural).collect();
            let pick = *r.pick(&cand);
            if let Kind::Struct { force_align, .. } = &mut b.s.decls[st].kind {
                *force_align = Some(pick);
            }
        }
        structs.push(st);
    }
    let tables: Vec<usize> = (0..cfg.tables)
        .map(|_| {
            let f = r.below(n);
            b.table(f)
        })
        .collect();
    let mut unions = vec![];
    for _ in 0..cfg.unions {
        let mut tys: Vec<Ty> = vec![];
        for _ in 0..r.range(1, 4) {
            tys.push(match r.below(5) {
                0 => Ty::Str,
                1 => Ty::Struct(*r.pick(&structs)),
                _ => Ty::Table(*r.pick(&tables)),
            });
        }
        let f = r.below(n);
        unions.push(b.union(f, &tys));
    }
    for &t in &tables {
        for _ in 0..r.range(0, cfg.max_fields) {
            random_field(&mut b, t, r, &enums, &structs, &tables, &unions);
        }
        if r.chance(1, 2) {
            b.ids(t, r);
        } else {
            b.slots(t);
        }
    }
    let roots = tables.clone();
    let mut s = b.done(&roots);
    // Break required cycles
    let bad: Vec<usize> = (0..s.decls.len()).filter(|d| !s.ok(*d)).collect();
    for d in bad {
        if let Kind::Table { fields, .. } = &mut s.decls[d].kind {
            for f in fields {
                if f.mode == Mode::Req && matches!(f.ty, Ty::Table(_) | Ty::Union(_)) {
                    f.mode = Mode::Opt;
                }
            }
        }
    }
    s.layout();
    s
}

pub fn random_field(
    b: &mut B,
    t: usize,
    r: &mut Rng,
    enums: &[usize],
    structs: &[usize],
    tables: &[usize],
    unions: &[usize],
) {
    let ty = match r.below(12) {
        0..=2 => Ty::Sc(*r.pick(&SCALARS)),
        3 => Ty::Enum(*r.pick(enums)),
        4 => Ty::Struct(*r.pick(structs)),
        5 => Ty::Table(*r.pick(tables)),
        6 => Ty::Union(*r.pick(unions)),
        7 => Ty::Str,
        _ => Ty::vec(match r.below(6) {
            0 | 1 => Ty::Sc(*r.pick(&SCALARS)),
            2 => r.pick(&[Ty::Enum(enums[0]), Ty::Str]).clone(),
            3 => Ty::Struct(*r.pick(structs)),
            4 => Ty::Table(*r.pick(tables)),
            _ => Ty::Union(*r.pick(unions)),
        }),
    };
    let mode = random_mode(&b.s, &ty, r);
    let f = b.field(t, ty, mode);
    let show = r.chance(1, 2);
    let fm = b.fmut(t, f);
    fm.show_default = show;
    if fm.mode != Mode::Req && r.chance(1, 12) {
        fm.deprecated = true;
    }
}

pub fn random_mode(s: &Schema, ty: &Ty, r: &mut Rng) -> Mode {
    match ty {
        Ty::Sc(sc) => match r.below(4) {
            0 => Mode::Def(zero(*sc)),
            1 => Mode::Opt,
            _ => loop {
                let v = gen_scalar(*sc, r);
                if !v.has_nan() {
                    break Mode::Def(v);
                }
            },
        },
        Ty::Enum(d) => {
            let (_, vs) = s.evariants(*d);
            if r.chance(1, 3) {
                Mode::Opt
            } else {
                Mode::Def(V::Int(r.pick(vs).value))
            }
        }
        Ty::Struct(_) | Ty::Table(_) | Ty::Union(_) => {
            if r.chance(1, 4) {
                Mode::Req
            } else {
                Mode::Opt
            }
        }
        Ty::Str => match r.below(4) {
            0 => Mode::Req,
            1 => Mode::Def(V::Str(r.pick(&["", "x", "hello world", "a\\b", "tab\there", "é😀"]).to_string())),
            _ => Mode::Opt,
        },
        Ty::Vec(_) => match r.below(4) {
            0 => Mode::Req,
            1 => Mode::Def(V::Vec(vec![])),
            _ => Mode::Opt,
        },
    }
}

fn shifted(ty: &Ty, n: usize) -> Ty {
    match ty {
        Ty::Enum(d) => Ty::Enum(d + n),
        Ty::Struct(d) => Ty::Struct(d + n),
        Ty::Table(d) => Ty::Table(d + n),
        Ty::Union(d) => Ty::Union(d + n),
        Ty::Vec(t) => Ty::vec(shifted(t, n)),
        t => t.clone(),
    }
}

/// Two versions of the same declarations; the second follows from the first by allowed changes
pub fn evolved(name: &str, r: &mut Rng) -> Schema {
    let cfg = RandCfg { files: 1, enums: r.range(1, 3), structs: r.range(1, 3), tables: r.range(2, 5), unions: r.range(1, 2), max_fields: 7 };
    let mut b = B { s: random_with(name, r, &cfg) };
    b.file("a.fbs", &["old"]);
    b.file("b.fbs", &["new"]);
    b.s.files[0].ns = vec![];
    b.s.files[0].includes = vec![1, 2];
    let n = b.s.decls.len();
    for d in 0..n {
        b.s.decls[d].file = 1;
        let mut c = b.s.decls[d].clone();
        c.file = 2;
        match &mut c.kind {
            Kind::Table { fields, .. } => fields.iter_mut().for_each(|f| f.ty = shifted(&f.ty, n)),
            Kind::Struct { fields, .. } => fields.iter_mut().for_each(|f| f.ty = shifted(&f.ty, n)),
            Kind::Union { variants } => variants.iter_mut().for_each(|f| f.ty = shifted(&f.ty, n)),
            Kind::Enum { .. } => (),
        }
        b.s.decls.push(c);
    }
    b.s.layout();
    // Some declarations only exist in the new version
    let extra = b.table(2);
    for _ in 0..r.range(0, 3) {
        let ty = Ty::Sc(*r.pick(&SCALARS));
        let mode = random_mode(&b.s, &ty, r);
        b.field(extra, ty, mode);
    }
    b.slots(extra);
    let (enums, structs, mut tables, unions) = (b.s.enums(), b.s.structs(), b.s.tables(), b.s.unions());
    for l in [&enums, &structs, &tables, &unions] {
        assert!(l.iter().any(|d| *d >= n));
    }
    let new = |l: &[usize]| -> Vec<usize> { l.iter().copied().filter(|d| *d >= n).collect() };
    let (enums, structs, unions) = (new(&enums), new(&structs), new(&unions));
    tables = new(&tables);
    for &e in &enums {
        if let Kind::Enum { sc, variants } = &mut b.s.decls[e].kind {
            for _ in 0..r.below(4) {
                let v = gen_int(*sc, r);
                if variants.iter().all(|x| x.value < v) {
                    let name = format!("A{}", variants.len());
                    variants.push(EVariant { name, value: v, explicit: true, docs: vec![] });
                }
            }
        }
    }
    for &u in &unions {
        for _ in 0..r.below(3) {
            let ty = match r.below(5) {
                0 => Ty::Str,
                1 => Ty::Struct(*r.pick(&structs)),
                _ => Ty::Table(*r.pick(&tables)),
            };
            if let Kind::Union { variants } = &mut b.s.decls[u].kind {
                let name = format!("V{}", variants.len());
                variants.push(UVariant { name, named: true, ty, docs: vec![] });
            }
        }
    }
    for &t in &tables {
        if t == extra {
            continue;
        }
        let Kind::Table { fields, .. } = &mut b.s.decls[t].kind else { unreachable!() };
        for f in fields.iter_mut() {
            if f.mode != Mode::Req && r.chance(1, 8) {
                f.deprecated = true;
            }
        }
        let old = fields.len();
        let mut slot = fields.iter().map(|f| f.slot + 1).max().unwrap_or(0);
        for _ in 0..r.below(5) {
            random_field(&mut b, t, r, &enums, &structs, &tables, &unions);
        }
        let shuffle = r.chance(1, 2);
        let Kind::Table { fields, ids } = &mut b.s.decls[t].kind else { unreachable!() };
        let mut order: Vec<usize> = (old..fields.len()).collect();
        *ids |= shuffle;
        if *ids {
            r.shuffle(&mut order);
        }
        for i in order {
            let f = &mut fields[i];
            if f.mode == Mode::Req {
                f.mode = Mode::Opt;
            }
            slot += f.ty.is_double() as usize;
            f.slot = slot;
            slot += 1;
        }
        if *ids {
            r.shuffle(fields);
            for (i, f) in fields.iter_mut().enumerate() {
                f.name = format!("g{i}");
            }
        }
    }
    let roots = b.s.tables();
    for d in b.s.tables() {
        if d < n {
            b.s.pairs.push((d, d + n));
        }
    }
    b.done(&roots)
}

/// Number of the schema with forced alignments
pub const FORCED: usize = 1000;
fn forced() -> Schema {
    let mut b = B::new("forced");
    let t = b.table(0);
    b.field(t, Ty::Str, Mode::Opt);
    let f = b.field(t, Ty::vec(Ty::Sc(Sc::U8)), Mode::Opt);
    b.fmut(t, f).force_align = 16;
    b.slots(t);
    b.done(&[t])
}

/// Schema number `k` of a run
pub fn profile(name: &str, seed: u64, k: usize) -> Schema {
    match name {
        "main" => schema(seed, k),
        "evo" => evolved(&format!("evo{k}"), &mut Rng::derive(seed, &[0xe0, k as u64])),
        _ => panic!("unknown profile"),
    }
}

pub fn schema(seed: u64, k: usize) -> Schema {
    let mut r = Rng::derive(seed, &[0x5c4e3a, k as u64]);
    match k {
        0 => kitchen_sink(),
        1 => alignment(),
        2 => recursive(&mut r),
        3 => many_fields(&mut r),
        FORCED => forced(),
        _ => random(&format!("random{k}"), &mut r),
    }
}
