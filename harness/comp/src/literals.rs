//! C25: literals keep their value.
use crate::canon::*;
use crate::run::*;
use crate::util::*;
use crate::viol;
use fbm::src::*;
use fbm::*;
use planus_types::intermediate as il;

/// Digits with separators
fn separators(d: &str, lead: bool, r: &mut Rng) -> String {
    if r.chance(1, 2) {
        return d.to_string();
    }
    let mut o = String::new();
    for (i, c) in d.chars().enumerate() {
        if i > 0 || lead {
            while r.chance(1, 4) {
                o.push('_');
            }
        }
        o.push(c);
    }
    while r.chance(1, 6) {
        o.push('_');
    }
    o
}

/// Some text that denotes the magnitude
pub fn magnitude(m: u128, r: &mut Rng) -> String {
    let zeros = if r.chance(1, 4) { "0".repeat(r.below(30)) } else { String::new() };
    match r.below(3) {
        0 => {
            let d: String = format!("{m:x}").chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
            format!("0x{}", separators(&format!("{zeros}{d}"), true, r))
        }
        _ => separators(&format!("{zeros}{m}"), false, r),
    }
}

/// Tokens of a sign and an unsigned literal
fn signed(neg: bool, body: String, r: &mut Rng) -> Vec<String> {
    let mut o = vec![];
    if r.chance(1, 8) {
        let mut n = false;
        for _ in 0..r.below(4) {
            let m = r.chance(1, 2);
            n ^= m;
            o.push(if m { "-" } else { "+" }.to_string());
        }
        if n != neg {
            o.push("-".into());
        }
    } else if neg {
        o.push("-".into());
    } else if r.chance(1, 6) {
        o.push("+".into());
    }
    o.push(body);
    o
}

fn int_value(sc: Sc, r: &mut Rng) -> i128 {
    let (lo, hi) = (sc.lo(), sc.hi());
    match r.below(6) {
        0 => lo,
        1 => hi,
        2 => lo + r.below(3) as i128,
        3 => hi - r.below(3) as i128,
        4 => {
            let b = 1i128 << r.below(64);
            (if r.chance(1, 2) { b } else { -b } + r.below(3) as i128 - 1).clamp(lo, hi)
        }
        _ => lo + (((r.next() as u128) << 64 | r.next() as u128) % ((hi - lo) as u128 + 1)) as i128,
    }
}

fn int_lit(v: i128, r: &mut Rng) -> Vec<String> {
    let b = magnitude(v.unsigned_abs(), r);
    signed(v < 0 || v == 0 && r.chance(1, 8), b, r)
}

/// A literal that does not fit the type
fn misfit(sc: Sc, r: &mut Rng) -> Vec<String> {
    let (lo, hi) = (sc.lo(), sc.hi());
    let span = hi - lo + 1;
    let v = match r.below(7) {
        0 => hi + 1,
        1 => lo - 1,
        // The same bits after wrapping around
        2 => hi + 1 + r.below(100) as i128,
        3 => lo - 1 - r.below(100) as i128,
        4 => span * (1 + r.below(5) as i128) + int_value(sc, r),
        5 => -span * (2 + r.below(5) as i128) + int_value(sc, r),
        _ => {
            let v = (hi + 1) * (1i128 << r.below(60)) + r.below(5) as i128;
            v
        }
    };
    if v >= lo && v <= hi {
        return misfit(sc, r);
    }
    if r.chance(1, 10) {
        let mut d = hi.to_string();
        for _ in 0..r.range(1, 40) {
            d.push((b'0' + r.below(10) as u8) as char);
        }
        return vec![d];
    }
    let b = magnitude(v.unsigned_abs(), r);
    signed(v < 0, b, r)
}

/// bits of the value -> mantissa and exponent
fn split32(b: u32) -> (u128, i32) {
    let (e, m) = ((b >> 23) & 0xff, b & 0x7f_ffff);
    if e == 0 {
        (m as u128, -149)
    } else {
        ((m | 0x80_0000) as u128, e as i32 - 150)
    }
}
fn split64(b: u64) -> (u128, i32) {
    let (e, m) = ((b >> 52) & 0x7ff, b & ((1 << 52) - 1));
    if e == 0 {
        (m as u128, -1074)
    } else {
        ((m | 1 << 52) as u128, e as i32 - 1075)
    }
}

/// Hexadecimal text for m * 2^e
fn hex_float(m: u128, e: i32, r: &mut Rng) -> String {
    let k = r.below(4) as i32;
    let (m, e) = (m << k, e - k);
    let mut d = format!("{m:x}");
    let mut e = e;
    if r.chance(1, 4) {
        let n = r.below(40);
        d = format!("{}{d}", "0".repeat(n));
    }
    if r.chance(1, 4) {
        let n = *r.pick(&[3usize, 40, 400]);
        let n = r.below(n);
        d.push_str(&"0".repeat(n));
        e -= 4 * n as i32;
    }
    if r.chance(1, 2) {
        d = d.to_uppercase();
    }
    let x = if r.chance(1, 2) { "0x" } else { "0X" };
    let p = if r.chance(1, 2) { "p" } else { "P" };
    let body = match r.below(3) {
        0 => d.clone(),
        _ => {
            let at = r.below(d.len() + 1);
            e += 4 * (d.len() - at) as i32;
            // At least one digit is needed
            if at == 0 && d.is_empty() {
                "0.".into()
            } else {
                format!("{}.{}", &d[..at], &d[at..])
            }
        }
    };
    let sign = if e >= 0 && r.chance(1, 3) { "+" } else { "" };
    format!("{x}{body}{p}{sign}{e}")
}

/// A text and the bits of the value that it denotes (not negative)
pub fn float_lit(single: bool, r: &mut Rng) -> (String, u64) {
    let bits = match r.below(8) {
        0 => 0,
        1 => r.below(5) as u64,
        // Not normalised
        2 => r.next() & if single { 0x7f_ffff } else { (1 << 52) - 1 },
        // The largest numbers
        3 => (if single { 0x7f7f_ffff } else { 0x7fef_ffff_ffff_ffffu64 }) - r.below(4) as u64,
        4 => {
            // Small integers
            let v = r.below(100_000) as f64 / *r.pick(&[1.0, 2.0, 8.0, 1024.0]);
            if single {
                (v as f32).to_bits() as u64
            } else {
                v.to_bits()
            }
        }
        5 => {
            let v = r.below(1_000_000) as f64 / *r.pick(&[10.0, 100.0, 1000.0]);
            if single {
                (v as f32).to_bits() as u64
            } else {
                v.to_bits()
            }
        }
        _ => {
            if single {
                r.next() & 0x7fff_ffff
            } else {
                r.next() & (u64::MAX >> 1)
            }
        }
    };
    let special = |b: u64| if single { f32::from_bits(b as u32).is_nan() || f32::from_bits(b as u32).is_infinite() } else { f64::from_bits(b).is_nan() || f64::from_bits(b).is_infinite() };
    if special(bits) {
        return (r.pick(&["inf", "infinity"]).to_string(), if single { f32::INFINITY.to_bits() as u64 } else { f64::INFINITY.to_bits() });
    }
    let (m, e) = if single { split32(bits as u32) } else { split64(bits) };
    match r.below(6) {
        0 | 1 => (hex_float(m, e, r), bits),
        2 => {
            // A little more or less than half of the last place
            let k = r.range(2, 60) as u32;
            let half = 1u128 << (k - 1);
            let d = match r.below(6) {
                0 => half,
                1 => half - 1,
                2 => half + 1,
                3 => 1,
                4 => (half << 1) - 1,
                _ => (r.next() as u128) % (half << 1),
            };
            let up = d > half || d == half && m & 1 == 1;
            let bits = bits + up as u64;
            if special(bits) {
                return float_lit(single, r);
            }
            (hex_float((m << k) | d, e - k as i32, r), bits)
        }
        3 => {
            // All digits of the exact value
            let v = if single { f32::from_bits(bits as u32) as f64 } else { f64::from_bits(bits) };
            let mut t = format!("{v}");
            if !t.contains('.') && r.chance(1, 2) {
                t.push_str(r.pick(&[".", ".0", ".000"]));
            }
            (t, bits)
        }
        _ => {
            let t = if single { format!("{:e}", f32::from_bits(bits as u32)) } else { format!("{:e}", f64::from_bits(bits)) };
            let (a, x) = t.split_once('e').unwrap();
            let mut x: i64 = x.parse().unwrap();
            let mut a = a.to_string();
            // Move the point
            let digits: String = a.chars().filter(|c| *c != '.').collect();
            if r.chance(1, 2) {
                let n = r.below(25);
                a = format!("0.{}{digits}", "0".repeat(n));
                x += 1 + n as i64;
            } else if r.chance(1, 2) {
                let f = digits.len() as i64 - 1;
                let n = r.below(25);
                a = format!("{digits}{}", "0".repeat(n));
                x -= f + n as i64;
            }
            if a.starts_with("0.") && r.chance(1, 2) {
                a = a[1..].to_string();
            }
            let e = if r.chance(1, 2) { "e" } else { "E" };
            let s = if x >= 0 && r.chance(1, 3) { "+" } else { "" };
            let z = if r.chance(1, 5) { "00" } else { "" };
            let xs = if x < 0 { format!("-{z}{}", -x) } else { format!("{s}{z}{x}") };
            (format!("{a}{e}{xs}"), bits)
        }
    }
}

pub fn string_lit(r: &mut Rng) -> (String, String) {
    let n = *r.pick(&[3usize, 10, 40]);
    let n = r.below(n);
    let mut v = String::new();
    for _ in 0..n {
        let c = match r.below(9) {
            0 => '"',
            1 => '\'',
            2 => '\\',
            3 => *r.pick(&['\n', '\r', '\t', '\u{8}', '\u{c}', '/', '\0', '\u{7f}', '\u{1b}']),
            4 => *r.pick(&['{', '}', '#', '$', '%', '&', '<', '>', ';', '/', '*', '|', 'n', 'u', 'x', '0']),
            5 => *r.pick(&['é', 'ß', '中', '\u{202e}', '\u{2066}', '\u{feff}', '\u{2028}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{a0}', '\u{ad}']),
            6 => *r.pick(&['😀', '𝄞', '\u{10ffff}', '\u{10000}']),
            _ => (b' ' + r.below(95) as u8) as char,
        };
        v.push(c);
    }
    let mut t = str_text(&v, true, r);
    // A raw carriage return may be taken for a line break by editors only
    if r.chance(1, 20) && v.is_empty() {
        t = "''".into();
    }
    (t, v)
}

struct Field {
    name: String,
    ty: String,
    text: String,
    /// As in the declarations
    want: String,
    /// Rust condition on `x` (owned)
    rust: String,
    rust_ref: String,
    default_of_type: bool,
}

pub struct Case {
    pub text: String,
    fields: Vec<Field>,
    enums: Vec<(String, Sc, Vec<(String, i128)>)>,
    ids: Option<Vec<usize>>,
    align: Option<usize>,
}

fn glue(t: &[String]) -> String {
    t.join(" ")
}

/// Names that a careless comparison takes for each other
const ALIKE: [&str; 12] = ["Red", "RED", "red", "Re", "R", "Red1", "Reds", "Re_d", "_Red", "Red_", "rED", "eRed"];

/// `alike`: enum variants with names that are almost the same
pub fn make(r: &mut Rng, alike: bool) -> Case {
    let mut text = String::new();
    let mut enums = vec![];
    for e in 0..r.range(1, 3) {
        let sc = *r.pick(&INTS);
        let mut vs: Vec<(String, i128)> = vec![];
        let mut body = String::new();
        let mut n = r.range(1, 8);
        let mut pool = ALIKE;
        r.shuffle(&mut pool);
        let pooled = alike && r.chance(1, 2);
        if !pooled && r.chance(1, 20) {
            n = 200;
        }
        for i in 0..n {
            let name = if pooled { pool[i].to_string() } else { format!("V{i}") };
            let next = vs.last().map(|x| x.1 + 1).unwrap_or(0);
            let fits = next <= sc.hi() && !vs.iter().any(|x| x.1 == next);
            if fits && r.chance(1, 2) {
                body.push_str(&format!("{name}, "));
                vs.push((name, next));
            } else {
                let v = int_value(sc, r);
                if vs.iter().any(|x| x.1 == v) {
                    continue;
                }
                body.push_str(&format!("{name} = {}, ", glue(&int_lit(v, r))));
                vs.push((name, v));
            }
        }
        text.push_str(&format!("enum E{e}: {} {{ {body} }}\n", r.pick(sc.names())));
        enums.push((format!("E{e}"), sc, vs));
    }
    let align = if r.chance(1, 2) { Some(1usize << r.below(9)) } else { None };
    if let Some(a) = align {
        text.push_str(&format!("struct S (force_align: {}) {{ a: ubyte; }}\n", magnitude(a as u128, r)));
    }
    let n = r.range(3, 12);
    let mut fields = vec![];
    for i in 0..n {
        let name = format!("f{i}");
        let f = match r.below(9) {
            0 | 1 | 2 => {
                let sc = *r.pick(&INTS);
                let v = int_value(sc, r);
                let t = sc.rust();
                Field { name, ty: r.pick(sc.names()).to_string(), text: glue(&int_lit(v, r)), want: v.to_string(), rust: format!("*x as i128 == {v}i128 && core::mem::size_of_val(x) == core::mem::size_of::<{t}>()"), rust_ref: format!("x as i128 == {v}i128"), default_of_type: v == 0 }
            }
            3 | 4 | 5 => {
                let single = r.chance(1, 2);
                let sc = if single { Sc::F32 } else { Sc::F64 };
                let (t, bits, nan) = match r.below(12) {
                    0 => (r.pick(&["nan", "NaN"]).to_string(), 0, true),
                    1 => {
                        // Integers are numbers too
                        let v = if r.chance(1, 2) { r.below(1 << 20) as u128 } else { r.next() as u128 };
                        let d = separators(&v.to_string(), false, r);
                        (d, if single { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() }, false)
                    }
                    2 => {
                        let v = r.next() as u128 >> r.below(60);
                        let d = format!("0x{}", separators(&format!("{v:x}"), true, r));
                        (d, if single { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() }, false)
                    }
                    _ => {
                        let (t, b) = float_lit(single, r);
                        (t, b, false)
                    }
                };
                let neg = r.chance(1, 3);
                let toks = signed(neg, t, r);
                let neg = toks.iter().filter(|x| *x == "-").count() % 2 == 1;
                let text = glue(&toks);
                if nan {
                    Field { name, ty: r.pick(sc.names()).to_string(), text, want: format!("{} nan", sc.rust()), rust: "x.is_nan()".into(), rust_ref: "x.is_nan()".into(), default_of_type: false }
                } else if single {
                    let b = bits as u32 | (neg as u32) << 31;
                    Field { name, ty: r.pick(sc.names()).to_string(), text, want: format!("f32 {b:x}"), rust: format!("x.to_bits() == {b:#x}u32"), rust_ref: format!("x.to_bits() == {b:#x}u32"), default_of_type: false }
                } else {
                    let b = bits | (neg as u64) << 63;
                    Field { name, ty: r.pick(sc.names()).to_string(), text, want: format!("f64 {b:x}"), rust: format!("x.to_bits() == {b:#x}u64"), rust_ref: format!("x.to_bits() == {b:#x}u64"), default_of_type: false }
                }
            }
            6 => {
                let v = r.chance(1, 2);
                Field { name, ty: "bool".into(), text: v.to_string(), want: v.to_string(), rust: format!("*x == {v}"), rust_ref: format!("x == {v}"), default_of_type: false }
            }
            7 => {
                let (en, _, vs) = r.pick(&enums).clone();
                let k = r.below(vs.len());
                let t = if r.chance(1, 2) { vs[k].0.clone() } else { glue(&int_lit(vs[k].1, r)) };
                let v = vs[k].1;
                Field { name, ty: en, text: t, want: format!("variant {k} {v}"), rust: format!("*x as i128 == {v}i128"), rust_ref: format!("x as i128 == {v}i128"), default_of_type: false }
            }
            _ => {
                let (t, v) = string_lit(r);
                let bytes: Vec<String> = v.bytes().map(|b| b.to_string()).collect();
                let cond = format!("x.as_bytes() == [{}] as [u8; {}]", bytes.join(","), bytes.len());
                Field { name, ty: "string".into(), text: t, want: format!("{v:?}"), rust: cond.clone(), rust_ref: cond, default_of_type: false }
            }
        };
        fields.push(f);
    }
    let ids = if r.chance(1, 2) {
        let mut x: Vec<usize> = (0..n).collect();
        r.shuffle(&mut x);
        Some(x)
    } else {
        None
    };
    text.push_str("table T {\n");
    for (i, f) in fields.iter().enumerate() {
        text.push_str(&format!("  {}: {} = {}", f.name, f.ty, f.text));
        if let Some(ids) = &ids {
            text.push_str(&format!(" (id: {})", glue(&signed(false, magnitude(ids[i] as u128, r), r))));
        }
        text.push_str(";\n");
    }
    text.push_str("}\n");
    Case { text, fields, enums, ids, align }
}

fn lit_il(l: &il::Literal) -> String {
    match l {
        il::Literal::Bool(b) => b.to_string(),
        il::Literal::String(s) => format!("{s:?}"),
        il::Literal::Int(i) => int_il(i).to_string(),
        il::Literal::Float(il::FloatLiteral::F32(x)) if x.is_nan() => "f32 nan".into(),
        il::Literal::Float(il::FloatLiteral::F64(x)) if x.is_nan() => "f64 nan".into(),
        il::Literal::Float(il::FloatLiteral::F32(x)) => format!("f32 {:x}", x.to_bits()),
        il::Literal::Float(il::FloatLiteral::F64(x)) => format!("f64 {:x}", x.to_bits()),
        il::Literal::EnumTag { variant_index, value } => format!("variant {variant_index} {}", int_il(value)),
        _ => "?".into(),
    }
}

fn check(c: &Case, ds: &il::Declarations) -> Res {
    for (p, d) in &ds.declarations {
        let name = p.0.last().unwrap();
        match &d.kind {
            il::DeclarationKind::Enum(e) => {
                let (_, sc, vs) = c.enums.iter().find(|x| x.0 == *name).unwrap();
                if int_name(&e.type_) != sc.rust() {
                    viol!("enum-type", "{name} is {:?}\n{}", e.type_, c.text);
                }
                let got: Vec<(String, i128)> = e.variants.iter().map(|(v, x)| (x.name.clone(), int_il(v))).collect();
                if got != *vs {
                    viol!("enum", "{name} has the values {got:?}, not {vs:?}\n{}", c.text);
                }
            }
            il::DeclarationKind::Struct(s) => {
                if Some(s.alignment as usize) != c.align {
                    viol!("align", "{name} is aligned to {}, not {:?}\n{}", s.alignment, c.align, c.text);
                }
            }
            il::DeclarationKind::Table(t) => {
                for (i, f) in c.fields.iter().enumerate() {
                    let Some(x) = t.fields.get(&f.name) else { viol!("field", "{} is missing\n{}", f.name, c.text) };
                    let slot = c.ids.as_ref().map(|x| x[i]).unwrap_or(i);
                    if x.vtable_index as usize != slot {
                        viol!("id", "{} has the id {}, not {slot}\n{}", f.name, x.vtable_index, c.text);
                    }
                    let got = match &x.assign_mode {
                        il::AssignMode::HasDefault(l) => lit_il(l),
                        _ => "none".into(),
                    };
                    if got != f.want {
                        viol!("default", "{}: {} = {} is {got}, not {}", f.name, f.ty, f.text, f.want);
                    }
                }
            }
            _ => (),
        }
    }
    Ok(())
}

pub fn literals(ctx: &mut Ctx, mut r: Rng) -> Res {
    let dir = fresh_dir(ctx, "p");
    if ctx.i % 3 == 2 {
        return misfits(ctx, r);
    }
    let c = make(&mut r, true);
    put(&dir, "a.fbs", c.text.as_bytes());
    let (ds, err) = translate(ctx, &[dir.join("a.fbs")], Default::default())?;
    let Some(ds) = ds else { viol!("rejected", "valid literals are rejected: {}\n{}", cut(&err, 1500), c.text) };
    check(&c, &ds)?;
    rust(&ds)?;
    ctx.st.add("literals", c.fields.len() as u64);
    ctx.st.add("enum_values", c.enums.iter().map(|e| e.2.len() as u64).sum());
    for f in &c.fields {
        ctx.st.seen(&(f.ty.as_str(), f.text.as_str()));
        ctx.st.add("default_is_zero", f.default_of_type as u64);
    }
    ctx.st.sample(|| c.text.clone());
    Ok(())
}

/// Literals that have no value of the type
fn misfits(ctx: &mut Ctx, mut r: Rng) -> Res {
    let dir = fresh_dir(ctx, "p");
    let sc = *r.pick(&INTS);
    let ty = *r.pick(sc.names());
    let bad = glue(&misfit(sc, &mut r));
    let good = glue(&int_lit(int_value(sc, &mut r), &mut r));
    let text = match r.below(10) {
        8 => {
            // Almost the name of a variant, or a variant of another enum
            let (mut a, mut b) = (*r.pick(&ALIKE), *r.pick(&ALIKE));
            if a == b {
                (a, b) = ("Red", "RED");
            }
            let d = if r.chance(1, 5) { format!("[{a}]") } else { b.to_string() };
            format!("enum E: {ty} {{ {a}, X }} enum F: {ty} {{ {b}, Y }} table T {{ a: E = {d}; }}")
        }
        0 | 1 => format!("table T {{ a: {ty} = {good}; b: {ty} = {bad}; }}"),
        2 => format!("enum E: {ty} {{ A, B = {bad} }}"),
        3 => {
            let top = glue(&int_lit(sc.hi(), &mut r));
            format!("enum E: {ty} {{ A = {top}, B }}")
        }
        4 => {
            // The value is legal for the enum but it is not a variant
            let v = int_value(sc, &mut r);
            let other = if v == sc.hi() { v - 1 } else { v + 1 };
            format!("enum E: {ty} {{ A = {} }} table T {{ a: E = {}; }}", glue(&int_lit(other, &mut r)), glue(&int_lit(v, &mut r)))
        }
        5 => {
            let v = int_value(sc, &mut r);
            format!("enum E: {ty} {{ A = {} }} table T {{ a: E = {bad}; }}", glue(&int_lit(v, &mut r)))
        }
        6 => {
            let v = r.pick(&[1u128 << 32, (1 << 32) + 1, 1 << 16, 65536 + 1, 1 << 64, u32::MAX as u128, 32765]).to_owned();
            format!("table T {{ a: int (id: 0); b: int (id: {}); }}", magnitude(v, &mut r))
        }
        7 => {
            let v = *r.pick(&[1u128 << 32, (1u128 << 32) + 8, 1 << 64, (1 << 64) + 4, 3, 6, 12, 0]);
            format!("struct S (force_align: {}) {{ a: ubyte; }}", magnitude(v, &mut r))
        }
        _ => {
            let esc = *r.pick(&["\\ud800", "\\udfff", "\\uD83D\\uDE00", "\\x80", "\\xff", "\\xg0", "\\u12", "\\u{1F600}", "\\q", "\\0", "\\N", "\\"]);
            let q = *r.pick(&["\"", "'"]);
            format!("table T {{ a: string = {q}x{esc}{q}; }}")
        }
    };
    put(&dir, "a.fbs", text.as_bytes());
    let (ds, _) = translate(ctx, &[dir.join("a.fbs")], Default::default())?;
    if let Some(ds) = ds {
        let mut l = vec![];
        for (_, d) in &ds.declarations {
            l.extend(decl_il(&ds, d));
        }
        viol!("misfit", "accepted as {l:?}: {text}");
    }
    ctx.st.add("misfits_rejected", 1);
    ctx.st.seen(&text);
    Ok(())
}

/// Generated code and a program that checks it
pub fn litgen(out: &std::path::Path, seed: u64, n: usize) -> Result<(), String> {
    let mut main = String::from("fn chk(ok: bool, what: &str) -> u32 { if !ok { println!(\"BAD {what}\"); } 1 }\n");
    let mut run = String::from("fn main() { let mut n = 0u32;\n");
    for k in 0..n {
        let mut r = Rng::derive(seed, &[0x717, k as u64]);
        let c = make(&mut r, false);
        put(out, &format!("s{k}.fbs"), c.text.as_bytes());
        let ds = planus_translation::translate_files(&[out.join(format!("s{k}.fbs"))]).ok_or_else(|| format!("rejected: {}", c.text))?;
        let code = planus_codegen::generate_rust(&ds, false).map_err(|e| format!("{e}: {}", c.text))?;
        put(out, &format!("g{k}.rs"), code.as_bytes());
        main.push_str(&format!("#[path = {:?}] mod g{k};\n", out.join(format!("g{k}.rs"))));
        main.push_str(&format!("fn t{k}() -> u32 {{ let mut n = 0;\n  let t = g{k}::T::default();\n"));
        main.push_str("  let mut b = planus::Builder::new(); let buf = b.finish(&t, None).to_vec();\n");
        main.push_str(&format!("  let q = <g{k}::TRef as planus::ReadAsRoot>::read_as_root(&buf).unwrap();\n"));
        for f in &c.fields {
            let what = |w: &str| format!("{:?}", format!("s{k} {w} {}: {} = {}", f.name, f.ty, f.text));
            main.push_str(&format!("  {{ let x = &t.{}; n += chk({}, {}); }}\n", f.name, f.rust, what("owned")));
            main.push_str(&format!("  {{ let x = q.{}().unwrap(); n += chk({}, {}); }}\n", f.name, f.rust_ref, what("read")));
        }
        for (en, sc, vs) in &c.enums {
            for (v, x) in vs {
                main.push_str(&format!(
                    "  n += chk(g{k}::{en}::{v} as i128 == {x}i128 && g{k}::{en}::{v} as {} as i128 == {x}i128 && core::convert::TryFrom::try_from({x}{}).ok() == Some(g{k}::{en}::{v}), \"s{k} {en}.{v} = {x}\");\n",
                    sc.rust(),
                    sc.rust()
                ));
            }
        }
        if let Some(a) = c.align {
            main.push_str(&format!("  n += chk(<g{k}::S as planus::Primitive>::ALIGNMENT == {a}, \"s{k} align\");\n"));
        }
        main.push_str("  n }\n");
        run.push_str(&format!("n += t{k}();\n"));
    }
    run.push_str("println!(\"CHECKED {n}\"); }\n");
    put(out, "main.rs", (main + &run).as_bytes());
    Ok(())
}
