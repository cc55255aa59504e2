//! Values and their generators.
use crate::rng::Rng;
use crate::schema::*;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum V {
    /// Absent
    None,
    Bool(bool),
    Int(i128),
    F32(u32),
    F64(u64),
    Str(String),
    Struct(Vec<V>),
    /// One entry per field in declaration order; deprecated fields are V::None
    Table(Vec<V>),
    /// Variant index and value
    Union(usize, Box<V>),
    Vec(Vec<V>),
    /// Reading reported this error kind
    Err(String),
    /// Not read because the budget of the reader was used up
    Cut,
}

impl V {
    pub fn int(&self) -> i128 {
        match self {
            V::Int(i) => *i,
            _ => panic!("not an int: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            V::Bool(i) => *i,
            _ => panic!("not a bool: {self:?}"),
        }
    }
    pub fn f32(&self) -> f32 {
        match self {
            V::F32(i) => f32::from_bits(*i),
            _ => panic!("not a float: {self:?}"),
        }
    }
    pub fn f64(&self) -> f64 {
        match self {
            V::F64(i) => f64::from_bits(*i),
            _ => panic!("not a double: {self:?}"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            V::Str(i) => i,
            _ => panic!("not a string: {self:?}"),
        }
    }
    /// Elements of a vector, struct or table
    pub fn items(&self) -> &[V] {
        match self {
            V::Vec(i) | V::Struct(i) | V::Table(i) => i,
            _ => panic!("no items: {self:?}"),
        }
    }
    pub fn union(&self) -> (usize, &V) {
        match self {
            V::Union(i, v) => (*i, v),
            _ => panic!("not a union: {self:?}"),
        }
    }
    pub fn is_none(&self) -> bool {
        *self == V::None
    }
    pub fn opt(&self) -> Option<&V> {
        if self.is_none() {
            None
        } else {
            Some(self)
        }
    }
    /// Number of nodes
    pub fn count(&self) -> usize {
        match self {
            V::Struct(x) | V::Table(x) | V::Vec(x) => 1 + x.iter().map(|v| v.count()).sum::<usize>(),
            V::Union(_, v) => 1 + v.count(),
            _ => 1,
        }
    }
    pub fn has_err(&self) -> bool {
        match self {
            V::Err(_) => true,
            V::Struct(x) | V::Table(x) | V::Vec(x) => x.iter().any(|v| v.has_err()),
            V::Union(_, v) => v.has_err(),
            _ => false,
        }
    }
    pub fn has_nan(&self) -> bool {
        match self {
            V::F32(b) => f32::from_bits(*b).is_nan(),
            V::F64(b) => f64::from_bits(*b).is_nan(),
            V::Struct(x) | V::Table(x) | V::Vec(x) => x.iter().any(|v| v.has_nan()),
            V::Union(_, v) => v.has_nan(),
            _ => false,
        }
    }
    /// Short description for reports
    pub fn brief(&self) -> String {
        let mut s = format!("{self:?}");
        if s.len() > 400 {
            let mut n = 400;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        s
    }
}

/// True if the written value counts as equal to the default (== on floats)
pub fn eq_default(v: &V, d: &V) -> bool {
    match (v, d) {
        (V::F32(_), V::F32(_)) => v.f32() == d.f32(),
        (V::F64(_), V::F64(_)) => v.f64() == d.f64(),
        _ => v == d,
    }
}

/// What reading back gives: values equal to the default become the default.
pub fn norm(s: &Schema, ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Table(d), V::Table(fs)) => V::Table(
            s.fields(*d)
                .iter()
                .zip(fs)
                .map(|(f, v)| {
                    if f.deprecated {
                        return V::None;
                    }
                    match (&f.mode, v) {
                        (Mode::Def(d), V::None) => d.clone(),
                        (Mode::Def(d), v) if eq_default(v, d) => d.clone(),
                        (_, v) => norm(s, &f.ty, v),
                    }
                })
                .collect(),
        ),
        (Ty::Vec(t), V::Vec(vs)) => V::Vec(vs.iter().map(|v| norm(s, t, v)).collect()),
        (Ty::Union(d), V::Union(i, v)) => {
            V::Union(*i, Box::new(norm(s, &s.uvariants(*d)[*i].ty, v)))
        }
        _ => v.clone(),
    }
}

/// First difference between two values as a path
pub fn diff(a: &V, b: &V) -> Option<String> {
    fn go(a: &V, b: &V, p: &mut Vec<String>) -> Option<String> {
        let here = |p: &Vec<String>, a: &V, b: &V| {
            Some(format!("at {}: {} vs {}", p.join("/"), a.brief(), b.brief()))
        };
        match (a, b) {
            (V::Struct(x), V::Struct(y)) | (V::Table(x), V::Table(y)) | (V::Vec(x), V::Vec(y)) => {
                if x.len() != y.len() {
                    return Some(format!(
                        "at {}: {} elements vs {}",
                        p.join("/"),
                        x.len(),
                        y.len()
                    ));
                }
                for (i, (x, y)) in x.iter().zip(y).enumerate() {
                    p.push(i.to_string());
                    if let Some(d) = go(x, y, p) {
                        return Some(d);
                    }
                    p.pop();
                }
                None
            }
            (V::Union(i, x), V::Union(j, y)) => {
                if i != j {
                    return here(p, a, b);
                }
                p.push(format!("u{i}"));
                let r = go(x, y, p);
                p.pop();
                r
            }
            _ => {
                if a == b {
                    None
                } else {
                    here(p, a, b)
                }
            }
        }
    }
    go(a, b, &mut vec![])
}

pub fn gen_int(sc: Sc, r: &mut Rng) -> i128 {
    let (lo, hi) = (sc.lo(), sc.hi());
    let x = match r.below(8) {
        0 => 0,
        1 => lo,
        2 => hi,
        3 => 1,
        4 => lo + r.below(4) as i128,
        5 => hi - r.below(4) as i128,
        6 if r.chance(1, 2) => (r.next() as i128) & 0xff,
        6 => (1i128 << r.below(64)) - (r.below(3) as i128),
        _ => ((r.next() as u128) << 64 | r.next() as u128) as i128 >> 1,
    };
    if x >= lo && x <= hi {
        x
    } else {
        let span = hi - lo + 1;
        lo + (x - lo).rem_euclid(span)
    }
}

pub fn gen_scalar(sc: Sc, r: &mut Rng) -> V {
    match sc {
        Sc::Bool => V::Bool(r.chance(1, 2)),
        Sc::F32 => {
            let f = match r.below(12) {
                0 => 0.0f32,
                1 => -0.0,
                2 => f32::INFINITY,
                3 => f32::NEG_INFINITY,
                4 => return V::F32(0x7fc0_0000 | (r.next() as u32 & 0x803f_ffff)),
                5 => f32::MIN_POSITIVE / 2.0,
                6 => f32::MAX,
                7 => 1.5,
                8 => -1.0,
                _ => {
                    let f = f32::from_bits(r.next() as u32);
                    if f.is_nan() {
                        3.25
                    } else {
                        f
                    }
                }
            };
            V::F32(f.to_bits())
        }
        Sc::F64 => {
            let f = match r.below(12) {
                0 => 0.0f64,
                1 => -0.0,
                2 => f64::INFINITY,
                3 => f64::NEG_INFINITY,
                4 => return V::F64(0x7ff8_0000_0000_0000 | (r.next() & 0x8007_ffff_ffff_ffff)),
                5 => f64::MIN_POSITIVE / 2.0,
                6 => f64::MAX,
                7 => 1.5,
                8 => -1.0,
                _ => {
                    let f = f64::from_bits(r.next());
                    if f.is_nan() {
                        3.25
                    } else {
                        f
                    }
                }
            };
            V::F64(f.to_bits())
        }
        _ => V::Int(gen_int(sc, r)),
    }
}

pub fn gen_string(r: &mut Rng, cfg: &GenCfg) -> String {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => 3,
        3 => 4,
        4 => 7,
        5 => 8,
        6 if cfg.big => 100 + r.below(300),
        _ => r.below(16),
    };
    let pool = ['a', 'b', 'z', '0', ' ', '\0', '"', '\\', '\n', 'é', 'ß', '中', '😀', '\u{7f}', '\u{ffff}', '\u{10ffff}'];
    let simple = r.chance(1, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push(if simple { 'x' } else { *r.pick(&pool) });
    }
    s
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    /// Remaining node budget
    pub budget: usize,
    pub max_depth: usize,
    /// Allow large vectors and strings
    pub big: bool,
    /// One vector of strings, tables, structs or unions gets tens of thousands of elements
    pub huge: bool,
    /// Probability (of 8) that optional fields are present
    pub density: usize,
    /// Probability (of 8) that a defaulted field is set to its default
    pub def_density: usize,
    /// Never generate NaN
    pub no_nan: bool,
}

impl GenCfg {
    pub fn random(r: &mut Rng) -> Self {
        GenCfg {
            budget: *r.pick(&[5, 30, 100, 300]),
            max_depth: r.range(1, 6),
            big: r.chance(1, 6),
            huge: false,
            density: *r.pick(&[0, 1, 4, 6, 8, 8]),
            def_density: *r.pick(&[0, 2, 2, 4, 8]),
            no_nan: false,
        }
    }
}

/// Generates a value; tables that cannot be constructed must not be asked for.
pub fn gen_value(s: &Schema, ty: &Ty, r: &mut Rng, cfg: &mut GenCfg, depth: usize) -> V {
    cfg.budget = cfg.budget.saturating_sub(1);
    match ty {
        Ty::Sc(sc) => loop {
            let v = gen_scalar(*sc, r);
            if !(cfg.no_nan && v.has_nan()) {
                return v;
            }
        },
        Ty::Enum(d) => {
            let (_, vs) = s.evariants(*d);
            V::Int(r.pick(vs).value)
        }
        Ty::Struct(d) => V::Struct(
            s.sfields(*d)
                .iter()
                .map(|f| gen_value(s, &f.ty, r, cfg, depth + 1))
                .collect(),
        ),
        Ty::Str => V::Str(gen_string(r, cfg)),
        Ty::Table(d) => {
            V::Table(
                s.fields(*d)
                    .iter()
                    .map(|f| {
                        if f.deprecated {
                            return V::None;
                        }
                        let usable = match f.ty.decl() {
                            Some(d) => s.ok(d),
                            None => true,
                        };
                        let deep = depth >= cfg.max_depth || cfg.budget == 0;
                        match &f.mode {
                            Mode::Def(d) => {
                                if r.below(8) < cfg.def_density || (deep && r.chance(1, 2)) || !usable {
                                    d.clone()
                                } else {
                                    gen_near_default(s, &f.ty, d, r, cfg, depth + 1)
                                }
                            }
                            Mode::Opt => {
                                let nested = !matches!(f.ty, Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) | Ty::Str);
                                if usable && r.below(8) < cfg.density && !(nested && deep) {
                                    gen_value(s, &f.ty, r, cfg, depth + 1)
                                } else {
                                    V::None
                                }
                            }
                            Mode::Req => gen_value(s, &f.ty, r, cfg, depth + 1),
                        }
                    })
                    .collect(),
            )
        }
        Ty::Union(d) => {
            let vs = s.uvariants(*d);
            let rank = |i: usize| match &vs[i].ty {
                Ty::Table(t) | Ty::Struct(t) => s.rank[*t],
                _ => Some(0),
            };
            let cand: Vec<usize> = (0..vs.len()).filter(|i| rank(*i).is_some()).collect();
            // Stop recursion where possible
            let i = if depth >= cfg.max_depth {
                let m = cand.iter().map(|i| rank(*i)).min().unwrap();
                let c: Vec<usize> = cand.into_iter().filter(|i| rank(*i) == m).collect();
                *r.pick(&c)
            } else {
                *r.pick(&cand)
            };
            V::Union(i, Box::new(gen_value(s, &vs[i].ty, r, cfg, depth + 1)))
        }
        Ty::Vec(t) => {
            let usable = match t.decl() {
                Some(d) => s.ok(d),
                None => true,
            };
            let cheap = matches!(**t, Ty::Sc(_) | Ty::Enum(_));
            if cfg.huge && !cheap && usable {
                cfg.huge = false;
                // The elements are small and often the same
                let old = (cfg.budget, cfg.big);
                (cfg.budget, cfg.big) = (0, false);
                let pool: Vec<V> = (0..1 + r.below(8)).map(|_| gen_value(s, t, r, cfg, cfg.max_depth)).collect();
                (cfg.budget, cfg.big) = old;
                let n = *r.pick(&[16_380, 16_390, 32_770, 65_530, 65_540]) + r.below(10);
                return V::Vec((0..n).map(|_| r.pick(&pool).clone()).collect());
            }
            let mut n = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 3,
                4 if cfg.big && cheap => 200 + r.below(400),
                5 if cfg.big && cheap && r.chance(1, 20) => 66_000 + r.below(10),
                _ => r.below(9),
            };
            if !cheap && (depth >= cfg.max_depth || cfg.budget == 0) {
                n = 0;
            }
            if !usable {
                n = 0;
            }
            V::Vec((0..n).map(|_| gen_value(s, t, r, cfg, depth + 1)).collect())
        }
    }
}

/// Values close to the default: off by one, other sign, same length, ...
pub fn gen_near_default(s: &Schema, ty: &Ty, d: &V, r: &mut Rng, cfg: &mut GenCfg, depth: usize) -> V {
    if r.chance(1, 3) {
        match (ty, d) {
            (Ty::Sc(sc), V::Int(i)) => {
                let c = [i + 1, i - 1, -i, i ^ 1, i ^ (1 << (sc.size() * 8 - 1)), i.wrapping_add(256)];
                let c = *r.pick(&c);
                if c >= sc.lo() && c <= sc.hi() {
                    return V::Int(c);
                }
            }
            (_, V::F32(b)) => {
                let v = V::F32(*r.pick(&[b ^ 1, b ^ 0x8000_0000, b.wrapping_add(1)]));
                if !v.has_nan() {
                    return v;
                }
            }
            (_, V::F64(b)) => {
                let v = V::F64(*r.pick(&[b ^ 1, b ^ (1 << 63), b.wrapping_add(1)]));
                if !v.has_nan() {
                    return v;
                }
            }
            (_, V::Str(x)) => {
                return V::Str(match r.below(5) {
                    2 => x.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                    3 => x.chars().rev().collect(),
                    0 => String::new(),
                    1 => format!("{x} "),
                    _ => x.chars().skip(1).collect(),
                })
            }
            _ => (),
        }
    }
    gen_value(s, ty, r, cfg, depth)
}

/// Smallest value: everything absent or default
pub fn gen_minimal(s: &Schema, ty: &Ty, r: &mut Rng) -> V {
    let mut cfg = GenCfg {
        budget: 0,
        max_depth: 0,
        big: false,
        huge: false,
        density: 0,
        def_density: 8,
        no_nan: true,
    };
    gen_value(s, ty, r, &mut cfg, 0)
}
