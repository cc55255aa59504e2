//! The monitors.
use crate::run::*;
use crate::sup::*;
use crate::{harness, viol};
use fbm::decode::{elide, Dec};
use fbm::encode::{encode, encode_struct, Layout};
use fbm::*;

pub fn mode(name: &str) -> Case {
    match name {
        "roundtrip" => roundtrip,
        "written" => written,
        "foreign" => foreign,
        "evolve" => evolve,
        "caches" => caches,
        "session" => session,
        "reuse" => reuse,
        "presence" => presence,
        "vectors" => vectors,
        "derived" => derived,
        "layouts" => layouts,
        "hostile" => hostile,
        "poison" => poison,
        "tiny" => tiny,
        "threads" => threads,
        "cursor" => cursor,
        "forced" => forced,
        _ => panic!("unknown mode {name}"),
    }
}

// ---------------------------------------------------------------- common

pub fn pick_table(ctx: &Ctx, si: usize, r: &mut Rng) -> usize {
    r.below(ctx.api[si].tables.len())
}
fn gen_id(r: &mut Rng) -> Option<[u8; 4]> {
    match r.below(3) {
        0 => Some(*b"PLNS"),
        1 => Some((r.next() as u32).to_le_bytes()),
        _ => None,
    }
}
fn gen(s: &Schema, d: usize, r: &mut Rng) -> V {
    gen_up_to(s, d, r, true)
}
fn gen_up_to(s: &Schema, d: usize, r: &mut Rng, huge: bool) -> V {
    let mut cfg = GenCfg::random(r);
    // Vectors longer than any 16-bit count or 64 KiB
    if !cfg!(miri) && huge && r.chance(1, 4000) {
        cfg.huge = true;
        cfg.density = 8;
        cfg.budget = 100;
    } else if r.chance(1, 12) {
        return gen_minimal(s, &Ty::Table(d), r);
    }
    gen_value(s, &Ty::Table(d), r, &mut cfg, 0)
}
fn state(r: &mut Rng) -> St {
    let mut st = St::new(Rng::new(r.next()));
    if r.chance(1, 4) {
        st.fixed = Some(r.below(7));
    }
    st.memo = r.chance(1, 2);
    st
}
/// A copy that starts at some address modulo 16
pub struct Placed {
    v: Vec<u8>,
    off: usize,
    len: usize,
}
impl Placed {
    pub fn new(b: &[u8], off: usize) -> Self {
        let mut v = vec![0xAA; b.len() + 32];
        let base = v.as_ptr() as usize;
        let off = (16 - base % 16) % 16 + off % 16;
        v[off..off + b.len()].copy_from_slice(b);
        Placed { v, off, len: b.len() }
    }
    pub fn get(&self) -> &[u8] {
        &self.v[self.off..self.off + self.len]
    }
}
fn exact(b: &[u8]) -> Box<[u8]> {
    b.to_vec().into_boxed_slice()
}
fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(400) {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn clip(s: String) -> String {
    if s.len() <= 900 {
        return s;
    }
    let mut n = 900;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s[..n].to_string()
}

/// Reads a buffer through the accessors and as an owned value
fn check_read(t: &TableApi, bytes: &[u8], want: &V, st: &mut Stats) -> Res {
    let mut bud = Bud::new(usize::MAX, usize::MAX, usize::MAX, bytes);
    let got = (t.read)(bytes, &mut bud);
    if let Some(b) = bud.bad {
        viol!("accessor", "{b}");
    }
    if let Some(d) = diff(&got, want) {
        viol!("accessor", "table T{} read through the accessors: {} (read vs expected)", t.decl, clip(d));
    }
    st.add("accessor_reads", 1);
    st.add("tables_read", bud.tables);
    st.add("strings_read", bud.strings);
    st.add("vectors_read", bud.vectors);
    let got = (t.owned)(bytes);
    if want.has_err() {
        if !matches!(got, V::Err(_)) {
            viol!("owned", "table T{}: the conversion to an owned value succeeds although an access fails", t.decl);
        }
        st.add("owned_errors", 1);
    } else if let Some(d) = diff(&got, want) {
        viol!("owned", "table T{} converted to an owned value: {} (got vs expected)", t.decl, clip(d));
    }
    st.add("owned_reads", 1);
    Ok(())
}

/// Writes a value as a finished buffer
fn write(
    t: &TableApi,
    b: &mut planus::Builder,
    v: &V,
    st: &mut St,
    id: Option<[u8; 4]>,
) -> Result<Vec<u8>, Viol> {
    let n = (t.finish)(b, v, st, id);
    if b.as_slice().len() != n {
        viol!("finish", "finish returned {n} bytes but as_slice has {}", b.as_slice().len());
    }
    Ok(b.as_slice().to_vec())
}
fn note_styles(st: &St, stats: &mut Stats) {
    for (i, c) in st.counts.iter().enumerate() {
        if *c > 0 {
            stats.add(&format!("writer_style_{i}"), *c);
        }
    }
    stats.add("offsets_reused", st.memo_hits);
    stats.add("written_through_wrappers", FORMS.swap(0, std::sync::atomic::Ordering::Relaxed));
}
fn note_value(v: &V, bytes: &[u8], stats: &mut Stats) {
    let n = v.count();
    stats.max("max_nodes", n as u64);
    stats.max("max_bytes", bytes.len() as u64);
    stats.add("nodes", n as u64);
    stats.seen(bytes);
    if n > 20 {
        stats.sample(|| format!("{v:?}"));
    }
}

// ---------------------------------------------------------------- C02

fn roundtrip(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let mut b = match ctx.builder.take() {
        Some(b) if r.chance(3, 4) => b,
        _ => planus::Builder::new(),
    };
    for _ in 0..r.range(1, 3) {
        let api = &ctx.api[si];
        let s = &ctx.schemas[si];
        let t = &api.tables[pick_table(ctx, si, &mut r)];
        let mut st = state(&mut r);
        b.clear();
        // Other objects in the same buffer
        for _ in 0..r.below(3) {
            let o = &api.tables[pick_table(ctx, si, &mut r)];
            let v = gen(s, o.decl, &mut r);
            (o.create)(&mut b, &v, &mut st);
        }
        let v = gen(s, t.decl, &mut r);
        let id = gen_id(&mut r);
        let bytes = write(t, &mut b, &v, &mut st, id)?;
        let want = norm(s, &Ty::Table(t.decl), &v);
        let p = Placed::new(&bytes, r.below(16));
        check_read(t, p.get(), &want, &mut ctx.st)?;
        note_styles(&st, &mut ctx.st);
        note_value(&v, &bytes, &mut ctx.st);
    }
    ctx.builder = Some(b);
    Ok(())
}

// ---------------------------------------------------------------- C03

fn decode_written(s: &Schema, d: usize, bytes: &[u8], id: Option<[u8; 4]>, want: &V, stats: &mut Stats) -> Res {
    let mut dec = Dec::new(s, bytes);
    // Other readers check this too
    dec.aligned_empty = true;
    match dec.root(d, id) {
        Err(e) => viol!("format", "table T{d}: the written buffer is malformed: {e}; buffer {}", hex(bytes)),
        Ok(got) => {
            if let Some(x) = diff(&got, want) {
                viol!("content", "table T{d}: decoding gives {} (decoded vs written); buffer {}", clip(x), hex(bytes));
            }
        }
    }
    stats.add("tables_decoded", dec.tables as u64);
    stats.add("strings_decoded", dec.strings as u64);
    stats.add("vectors_decoded", dec.vectors as u64);
    stats.add("unions_decoded", dec.unions as u64);
    stats.add("inline_fields_checked", dec.fields.len() as u64);
    Ok(())
}

fn written(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let mut b = match ctx.builder.take() {
        Some(b) if r.chance(3, 4) => b,
        _ => planus::Builder::new(),
    };
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let mut st = state(&mut r);
    b.clear();
    for _ in 0..r.below(3) {
        let o = &api.tables[pick_table(ctx, si, &mut r)];
        let v = gen(s, o.decl, &mut r);
        (o.create)(&mut b, &v, &mut st);
    }
    // Several buffers from one builder without clearing: each finished slice is a valid buffer
    for _ in 0..r.range(1, 2) {
        let t = &api.tables[pick_table(ctx, si, &mut r)];
        let v = gen(s, t.decl, &mut r);
        let id = gen_id(&mut r);
        let bytes = write(t, &mut b, &v, &mut st, id)?;
        let want = norm(s, &Ty::Table(t.decl), &v);
        decode_written(s, t.decl, &bytes, id, &want, &mut ctx.st)?;
        note_value(&v, &bytes, &mut ctx.st);
    }
    note_styles(&st, &mut ctx.st);
    ctx.builder = Some(b);
    Ok(())
}

// ---------------------------------------------------------------- C04

/// Encodes with the independent writer and checks the independent reader
fn foreign_bytes(s: &Schema, d: usize, v: &V, l: &Layout, r: &mut Rng) -> Result<Vec<u8>, Viol> {
    let bytes = encode(s, d, v, l, r);
    let mut dec = Dec::new(s, &bytes);
    match dec.root(d, None) {
        Err(e) => harness!("encoder and decoder disagree: {e}: {v:?}"),
        Ok(got) => {
            let want = absent(s, &Ty::Table(d), v);
            if let Some(x) = diff(&got, &want) {
                harness!("encoder and decoder disagree: {x}");
            }
        }
    }
    Ok(bytes)
}
/// Deprecated fields are not visible
fn absent(s: &Schema, ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Table(d), V::Table(fs)) => V::Table(
            s.fields(*d).iter().zip(fs).map(|(f, v)| if f.deprecated { V::None } else { absent(s, &f.ty, v) }).collect(),
        ),
        (Ty::Vec(t), V::Vec(vs)) => V::Vec(vs.iter().map(|v| absent(s, t, v)).collect()),
        (Ty::Union(d), V::Union(i, v)) => V::Union(*i, Box::new(absent(s, &s.uvariants(*d)[*i].ty, v))),
        _ => v.clone(),
    }
}

fn foreign(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let s = &ctx.schemas[si];
    let t = &ctx.api[si].tables[pick_table(ctx, si, &mut r)];
    let v = gen(s, t.decl, &mut r);
    for _ in 0..2 {
        let mut l = Layout::random(&mut r);
        l.far_vtables = r.chance(1, 8);
        let mut bytes = foreign_bytes(s, t.decl, &v, &l, &mut r)?;
        if r.chance(1, 4) {
            // Bytes after the last object
            for _ in 0..r.range(1, 9) {
                bytes.push(r.next() as u8);
            }
        }
        let p = Placed::new(&bytes, r.below(16));
        let want = absent(s, &Ty::Table(t.decl), &v);
        if l.far_vtables {
            // Known finding: such tables are reported as InvalidOffset
            let mut dec = Dec::new(s, p.get());
            dec.near_vtables = true;
            let near = dec.root(t.decl, None);
            if dec.far_vtables > 0 {
                let mut bud = Bud::unlimited();
                let got = (t.read)(p.get(), &mut bud);
                match near {
                    Ok(ref near) if near_ok(&got, &want, near) => {
                        ctx.st.add("known_vtable_before_referrer", 1);
                        continue;
                    }
                    _ => (),
                }
            }
        }
        check_read(t, p.get(), &want, &mut ctx.st)?;
        note_value(&v, &bytes, &mut ctx.st);
        ctx.st.add(&format!("layout_share_{}", l.share), 1);
        ctx.st.add(&format!("layout_explicit_{}", l.explicit), 1);
    }
    Ok(())
}

/// `got` is `want`, except where a vtable is before the reference to its table
fn near_ok(got: &V, want: &V, near: &V) -> bool {
    if got == want {
        return true;
    }
    if matches!(near, V::Err(_)) || matches!(near, V::Union(_, x) if matches!(**x, V::Err(_))) {
        return *got == V::Err("InvalidOffset".into());
    }
    match (got, want, near) {
        (V::Table(a), V::Table(b), V::Table(c)) | (V::Vec(a), V::Vec(b), V::Vec(c)) => {
            a.len() == b.len() && b.len() == c.len() && (0..a.len()).all(|i| near_ok(&a[i], &b[i], &c[i]))
        }
        (V::Union(i, a), V::Union(j, b), V::Union(k, c)) => i == j && j == k && near_ok(a, b, c),
        _ => false,
    }
}

// ---------------------------------------------------------------- C05

fn evolve(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let s = &ctx.schemas[si];
    let api = &ctx.api[si];
    let (o, n) = *r.pick(&s.pairs);
    let (w, rd) = if r.chance(1, 2) { (o, n) } else { (n, o) };
    let find = |d: usize| api.tables.iter().find(|t| t.decl == d);
    let (Some(tw), Some(tr)) = (find(w), find(rd)) else { return Ok(()) };
    let v = gen(s, w, &mut r);
    let bytes = if r.chance(1, 2) {
        let mut b = planus::Builder::new();
        let mut st = state(&mut r);
        write(tw, &mut b, &v, &mut st, None)?
    } else {
        let mut l = Layout::random(&mut r);
        l.extra_slots = false;
        foreign_bytes(s, w, &v, &l, &mut r)?
    };
    let want = match Dec::new(s, &bytes).root(rd, None) {
        Ok(v) => v,
        Err(e) => harness!("the decoder fails on the other version: {e}"),
    };
    let p = Placed::new(&bytes, r.below(16));
    check_read(tr, p.get(), &want, &mut ctx.st)?;
    if want.has_err() {
        ctx.st.add("with_unknown_tags", 1);
        if (tr.error_text)(p.get()).is_none() {
            viol!("owned", "the owned conversion ignores an unknown tag");
        }
    }
    ctx.st.add(if w == o { "old_to_new" } else { "new_to_old" }, 1);
    note_value(&v, &bytes, &mut ctx.st);
    Ok(())
}

// ---------------------------------------------------------------- C06

/// Values drawn from a small pool, so that equal objects are common
fn pooled(s: &Schema, d: usize, pool: &mut Vec<(usize, V)>, r: &mut Rng) -> V {
    let same: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].0 == d).collect();
    if !same.is_empty() && r.chance(1, 2) {
        return pool[*r.pick(&same)].1.clone();
    }
    let mut cfg = GenCfg { budget: *r.pick(&[10, 40, 150]), max_depth: r.range(1, 4), big: false, huge: false, density: 7, def_density: *r.pick(&[0, 2, 7]), no_nan: false };
    let mut v = gen_value(s, &Ty::Table(d), r, &mut cfg, 0);
    unify(s, &Ty::Table(d), &mut v, r);
    pool.push((d, v.clone()));
    v
}
/// Makes strings and byte vectors collide: equal ones, and ones that only differ in one place
fn unify(s: &Schema, ty: &Ty, v: &mut V, r: &mut Rng) {
    match (ty, v) {
        (Ty::Str, V::Str(s)) => {
            *s = match r.below(10) {
                0 => String::new(),
                1 => "a".into(),
                2 => "aa".into(),
                3 => "a\0".into(),
                4 => "aaaa".into(),
                5 => "aaab".into(),
                6 => "baaa".into(),
                7 => "\0\0\0\0".into(),
                8 => "a".repeat(r.below(12)),
                _ => return,
            }
        }
        (Ty::Struct(d), V::Struct(x)) => s.sfields(*d).iter().zip(x).for_each(|(f, x)| unify(s, &f.ty, x, r)),
        (Ty::Table(d), V::Table(x)) => s.fields(*d).iter().zip(x).for_each(|(f, x)| unify(s, &f.ty, x, r)),
        (Ty::Vec(t), V::Vec(x)) => {
            if matches!(**t, Ty::Sc(Sc::U8 | Sc::I8)) && !x.is_empty() && r.chance(1, 2) {
                let n = x.len();
                let last = r.below(4) as i128;
                for (i, x) in x.iter_mut().enumerate() {
                    *x = V::Int(if i + 1 == n { last } else { 0 });
                }
            }
            x.iter_mut().for_each(|x| unify(s, t, x, r))
        }
        (Ty::Union(d), V::Union(i, x)) => unify(s, &s.uvariants(*d)[*i].ty, x, r),
        _ => (),
    }
}

pub const VC: bool = cfg!(feature = "vtable-cache");
pub const SC: bool = cfg!(feature = "string-cache");
pub const BC: bool = cfg!(feature = "bytes-cache");

/// Checks the sharing inside one decoded buffer
fn check_sharing(bytes: &[u8], dec: &mut Dec, stats: &mut Stats) -> Res {
    use std::collections::HashMap;
    let twice = |p: usize, x: &'static str, key: &'static str, content: &[u8], seen: &mut HashMap<Vec<u8>, usize>| -> Res {
        if let Some(q) = seen.insert(content.to_vec(), p) {
            if q != p {
                viol!(key, "two equal {x} are stored at {q} and {p} although the cache is enabled: {}", hex(content));
            }
        }
        Ok(())
    };
    if VC {
        let mut seen = HashMap::new();
        for &(p, n) in &dec.vtables {
            twice(p, "vtables", "vtable-twice", &bytes[p..p + n], &mut seen)?;
        }
        stats.add("vtables", seen.len() as u64);
    }
    if SC {
        let mut seen = HashMap::new();
        for &p in &dec.str_pos {
            let n = u32::from_le_bytes(bytes[p..p + 4].try_into().unwrap()) as usize;
            twice(p, "strings", "string-twice", &bytes[p..p + 4 + n], &mut seen)?;
        }
        stats.add("strings", seen.len() as u64);
        stats.add("strings_shared", (dec.str_pos.len() - seen.len()) as u64);
    }
    if BC {
        let mut seen = HashMap::new();
        for &p in &dec.bytes_pos {
            let n = u32::from_le_bytes(bytes[p..p + 4].try_into().unwrap()) as usize;
            twice(p, "byte vectors", "bytes-twice", &bytes[p..p + 4 + n], &mut seen)?;
        }
        stats.add("byte_vectors", seen.len() as u64);
        stats.add("byte_vectors_shared", (dec.bytes_pos.len() - seen.len()) as u64);
    }
    Ok(())
}

fn caches(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let mut b = match ctx.builder.take() {
        Some(b) if r.chance(7, 8) => b,
        _ => planus::Builder::new(),
    };
    let mut pool = vec![];
    // Several buffers of one builder, separated by clear()
    for round in 0..r.range(1, 4) {
        b.clear();
        let mut st = state(&mut r);
        st.memo = r.chance(3, 4);
        let mut total = 0;
        for _ in 0..r.below(5) {
            let api = &ctx.api[si];
            let s = &ctx.schemas[si];
            let o = &api.tables[pick_table(ctx, si, &mut r)];
            let v = pooled(s, o.decl, &mut pool, &mut r);
            total += v.count();
            (o.create)(&mut b, &v, &mut st);
        }
        let api = &ctx.api[si];
        let s = &ctx.schemas[si];
        let t = &api.tables[pick_table(ctx, si, &mut r)];
        let v = pooled(s, t.decl, &mut pool, &mut r);
        let id = gen_id(&mut r);
        let bytes = write(t, &mut b, &v, &mut st, id)?;
        let want = norm(s, &Ty::Table(t.decl), &v);
        let mut dec = Dec::new(s, &bytes);
        match dec.root(t.decl, id) {
            Err(e) => viol!("format", "round {round}: the written buffer is malformed: {e}; buffer {}", hex(&bytes)),
            Ok(got) => {
                if let Some(x) = diff(&got, &want) {
                    viol!("content", "round {round}: decoding gives {} (decoded vs written); buffer {}", clip(x), hex(&bytes));
                }
            }
        }
        check_sharing(&bytes, &mut dec, &mut ctx.st)?;
        ctx.st.add("objects_before", total as u64);
        note_styles(&st, &mut ctx.st);
        note_value(&v, &bytes, &mut ctx.st);
    }
    ctx.builder = Some(b);
    Ok(())
}

/// Thousands of strings and byte vectors in one buffer, through the runtime alone
fn session(ctx: &mut Ctx, _si: usize, mut r: Rng) -> Res {
    let mut b = match ctx.builder.take() {
        Some(b) if r.chance(3, 4) => b,
        _ => planus::Builder::new(),
    };
    b.clear();
    let n = if cfg!(miri) { 25 } else { *r.pick(&[20, 300, 3000, 12_000]) };
    let alphabet = r.range(1, 4);
    let maxlen = *r.pick(&[3, 6, 20]);
    let mut strs: Vec<(Vec<u8>, planus::Offset<str>)> = vec![];
    let mut bytes: Vec<(Vec<u8>, planus::Offset<[u8]>)> = vec![];
    let mut sbytes: Vec<(Vec<u8>, planus::Offset<[i8]>)> = vec![];
    for _ in 0..n {
        let len = r.below(maxlen + 1);
        let x: Vec<u8> = (0..len).map(|_| if r.chance(1, 12) { 0 } else { b'a' + r.below(alphabet) as u8 }).collect();
        match r.below(4) {
            0 | 1 => strs.push((x.clone(), b.create_string(std::str::from_utf8(&x).unwrap()))),
            2 => bytes.push((x.clone(), b.create_vector(&x[..]))),
            _ => {
                let y: Vec<i8> = x.iter().map(|x| *x as i8).collect();
                sbytes.push((x, b.create_vector(y)))
            }
        }
    }
    let so: Vec<planus::Offset<str>> = strs.iter().map(|x| x.1).collect();
    let bo: Vec<planus::Offset<[u8]>> = bytes.iter().map(|x| x.1).collect();
    let co: Vec<planus::Offset<[i8]>> = sbytes.iter().map(|x| x.1).collect();
    let so = b.create_vector::<planus::Offset<str>>(so);
    let mut off = vec![];
    {
        // A vector of offsets makes every offset visible in the buffer
        let v = b.create_vector::<planus::Offset<[u8]>>(bo);
        off.push(b.create_vector::<planus::Offset<()>>(vec![so.downcast(), v.downcast()]));
        let v = b.create_vector::<planus::Offset<[i8]>>(co);
        off.push(b.create_vector::<planus::Offset<()>>(vec![v.downcast()]));
    }
    let root = b.create_vector::<planus::Offset<()>>(off.iter().map(|x| x.downcast()).collect::<Vec<_>>());
    let buf = b.finish(root.downcast(), None).to_vec();
    let u32at = |p: usize| -> usize { buf.get(p..p + 4).map_or(usize::MAX / 4, |x| u32::from_le_bytes(x.try_into().unwrap()) as usize) };
    let elem = |v: usize, i: usize| -> usize { v + 4 + 4 * i + u32at(v + 4 + 4 * i) };
    let root = u32at(0);
    let first = elem(root, 0);
    let sv = elem(first, 0);
    let bv = elem(first, 1);
    let cv = elem(elem(root, 1), 0);
    use std::collections::HashMap;
    for (name, v, want, strings, dedup) in [
        ("string", sv, strs.iter().map(|x| &x.0).collect::<Vec<_>>(), true, SC),
        ("byte vector", bv, bytes.iter().map(|x| &x.0).collect(), false, BC),
        ("signed byte vector", cv, sbytes.iter().map(|x| &x.0).collect(), false, BC),
    ] {
        if u32at(v) != want.len() {
            viol!("content", "a vector of {} {name}s has length {}", want.len(), u32at(v));
        }
        let mut at: HashMap<&[u8], usize> = HashMap::new();
        for (i, w) in want.iter().enumerate() {
            let p = elem(v, i);
            if p % 4 != 0 || u32at(p) != w.len() || buf.get(p + 4..p + 4 + w.len()) != Some(&w[..]) || (strings && buf.get(p + 4 + w.len()) != Some(&0)) {
                viol!("content", "{name} {i} of {} in one buffer: the offset does not denote {:?} any more", want.len(), w);
            }
            if let Some(q) = at.insert(w, p) {
                if q != p && dedup {
                    viol!(format!("{name}-twice"), "equal {name}s {w:?} are stored at {q} and {p} although the cache is enabled");
                }
            }
        }
        ctx.st.add(&format!("{name}s"), want.len() as u64);
        ctx.st.add(&format!("{name}s_distinct"), at.len() as u64);
    }
    ctx.st.seen(&buf);
    ctx.st.max("max_bytes", buf.len() as u64);
    ctx.builder = Some(b);
    Ok(())
}

// ---------------------------------------------------------------- C07

fn reuse(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let mut dirty = match ctx.builder.take() {
        Some(b) => b,
        _ => planus::Builder::new(),
    };
    // Any history, possibly abandoned
    let mut st = state(&mut r);
    for _ in 0..r.below(4) {
        let o = &api.tables[pick_table(ctx, si, &mut r)];
        let v = gen(s, o.decl, &mut r);
        match r.below(4) {
            0 => {
                (o.finish)(&mut dirty, &v, &mut st, None);
            }
            1 => {
                dirty.clear();
                st.forget();
            }
            _ => (o.create)(&mut dirty, &v, &mut st),
        }
    }
    dirty.clear();
    // The sequence
    let plan = Rng::new(r.next());
    let run = |b: &mut planus::Builder| -> Result<Vec<(Vec<u8>, Option<[u8; 4]>)>, Viol> {
        let mut r = plan.clone();
        let mut st = state(&mut r);
        let mut out = vec![];
        for _ in 0..r.range(1, 2) {
            for _ in 0..r.below(4) {
                let o = &api.tables[r.below(api.tables.len())];
                let v = gen(s, o.decl, &mut r);
                (o.create)(b, &v, &mut st);
            }
            let t = &api.tables[r.below(api.tables.len())];
            let v = gen(s, t.decl, &mut r);
            let id = gen_id(&mut r);
            let bytes = write(t, b, &v, &mut st, id)?;
            if b.as_slice() != bytes || b.as_slice() != bytes {
                viol!("as-slice", "as_slice changes between calls");
            }
            let len = bytes.len();
            let root = u32::from_le_bytes(bytes[..4].try_into().unwrap()) as usize;
            if root >= len {
                viol!("root", "the slice does not start with a root offset");
            }
            if let Some(id) = id {
                if bytes[4..8] != id {
                    viol!("file-id", "the file identifier {id:?} is not stored after the root offset");
                }
            }
            out.push((bytes, id));
            st.forget();
        }
        Ok(out)
    };
    let want = run(&mut planus::Builder::new())?;
    let got = run(&mut dirty)?;
    let cap = *r.pick(&[0, 1, 7, 8, 31, 64, 100, 1000, 4096]);
    let mut sized = planus::Builder::with_capacity(cap);
    let sized = run(&mut sized)?;
    let again = run(&mut planus::Builder::default())?;
    for (i, w) in want.iter().enumerate() {
        for (name, g) in [("a builder after clear()", &got), (&format!("a builder with capacity {cap}"), &sized), ("another fresh builder", &again)] {
            if g[i].0 != w.0 {
                let p = g[i].0.iter().zip(&w.0).position(|(a, b)| a != b);
                viol!(
                    "different-bytes",
                    "{name} writes other bytes than a fresh one: lengths {} and {}, first difference at {p:?}; {} vs {}",
                    g[i].0.len(),
                    w.0.len(),
                    hex(&g[i].0),
                    hex(&w.0)
                );
            }
        }
        ctx.st.seen(&w.0);
        ctx.st.add("buffers_compared", 3);
        ctx.st.max("max_bytes", w.0.len() as u64);
        ctx.st.add(&format!("capacity_{cap}"), 1);
    }
    ctx.builder = Some(dirty);
    Ok(())
}

// ---------------------------------------------------------------- C08

/// The owned value Default must give
fn model_default(s: &Schema, ty: &Ty) -> Option<V> {
    Some(match ty {
        Ty::Table(d) => {
            let mut out = vec![];
            for f in s.fields(*d) {
                out.push(if f.deprecated {
                    V::None
                } else {
                    match &f.mode {
                        Mode::Def(v) => v.clone(),
                        Mode::Opt => V::None,
                        Mode::Req => model_default(s, &f.ty)?,
                    }
                });
            }
            V::Table(out)
        }
        Ty::Struct(d) => {
            let mut out = vec![];
            for f in s.sfields(*d) {
                out.push(model_default(s, &f.ty)?);
            }
            V::Struct(out)
        }
        Ty::Sc(sc) => fbm::gen::zero(*sc),
        Ty::Str => V::Str(String::new()),
        Ty::Vec(_) => V::Vec(vec![]),
        Ty::Enum(_) | Ty::Union(_) => return None,
    })
}
/// Removes required fields here and there
fn drop_required(s: &Schema, ty: &Ty, v: &mut V, r: &mut Rng, n: &mut u64) {
    match (ty, v) {
        (Ty::Table(d), V::Table(fs)) => {
            for (f, v) in s.fields(*d).iter().zip(fs) {
                if !f.deprecated && f.mode == Mode::Req && r.chance(1, 3) {
                    *v = V::None;
                    *n += 1;
                } else {
                    drop_required(s, &f.ty, v, r, n);
                }
            }
        }
        (Ty::Vec(t), V::Vec(vs)) => vs.iter_mut().for_each(|v| drop_required(s, t, v, r, n)),
        (Ty::Union(d), V::Union(i, v)) => drop_required(s, &s.uvariants(*d)[*i].ty, v, r, n),
        _ => (),
    }
}

fn presence(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let t = &api.tables[pick_table(ctx, si, &mut r)];
    let d = t.decl;
    let ty = Ty::Table(d);
    let mut st = state(&mut r);
    st.mask &= !2;
    if st.fixed == Some(1) {
        st.fixed = Some(5);
    }
    let v = match r.below(4) {
        0 => gen_minimal(s, &ty, &mut r),
        1 => {
            // One field more
            let mut v = gen_minimal(s, &ty, &mut r);
            let mut cfg = GenCfg { budget: 20, max_depth: 2, big: false, huge: false, density: 8, def_density: 0, no_nan: false };
            let full = gen_value(s, &ty, &mut r, &mut cfg, 0);
            if let (V::Table(a), V::Table(b)) = (&mut v, full) {
                if !a.is_empty() {
                    let i = r.below(a.len());
                    a[i] = b[i].clone();
                }
            }
            v
        }
        _ => gen(s, d, &mut r),
    };
    // Zero, empty and false are values
    let v = zeroed(s, &ty, v, &mut r);
    let mut b = planus::Builder::new();
    let bytes = write(t, &mut b, &v, &mut st, None)?;
    let mut dec = Dec::new(s, &bytes);
    dec.raw = true;
    let raw = match dec.root(d, None) {
        Ok(v) => v,
        Err(e) => viol!("format", "the written buffer is malformed: {e}"),
    };
    if let Some(x) = diff(&raw, &elide(s, &ty, &v)) {
        viol!("stored", "table T{d}: stored fields differ: {} (stored vs expected); buffer {}", clip(x), hex(&bytes));
    }
    // No space for what is not stored
    let mut by_table: std::collections::HashMap<_, Vec<_>> = Default::default();
    for &(p, _, fi, _, size) in &dec.fields {
        by_table.entry(p).or_default().push((fi, size));
    }
    for reg in &dec.regions {
        if reg.kind != fbm::decode::RK::Table {
            continue;
        }
        let mut slack = 0;
        let mut need = 4;
        let mut n = 0;
        for &(fi, size) in by_table.get(&reg.start).map(|x| &x[..]).unwrap_or(&[]) {
            need += size;
            slack += align_of_field(s, reg.decl, fi).saturating_sub(1);
            n += 1;
        }
        let len = reg.end - reg.start;
        if len > need + slack + if n > 0 { 3 } else { 0 } {
            viol!("space", "a table T{} with {need} bytes of fields takes {len} bytes; buffer {}", reg.decl, hex(&bytes));
        }
        ctx.st.add(if n == 0 { "empty_tables" } else { "tables" }, 1);
    }
    let want = norm(s, &ty, &v);
    check_read(t, &bytes, &want, &mut ctx.st)?;
    note_styles(&st, &mut ctx.st);
    note_value(&v, &bytes, &mut ctx.st);
    // Required fields that are missing
    let mut w = v.clone();
    let mut n = 0;
    drop_required(s, &ty, &mut w, &mut r, &mut n);
    if n > 0 {
        let l = Layout::random(&mut r);
        let bytes = encode(s, d, &w, &l, &mut r);
        let want = match Dec::new(s, &bytes).root(d, None) {
            Ok(v) => v,
            Err(e) => harness!("decoder: {e}"),
        };
        check_read(t, &bytes, &want, &mut ctx.st)?;
        if want.has_err() {
            ctx.st.add("missing_required", 1);
            match (t.owned)(&bytes) {
                V::Err(e) if e == "MissingRequired" => (),
                o => viol!("missing-required", "the owned conversion gives {} for a missing required field", o.brief()),
            }
        }
    }
    if let Some(f) = t.default {
        let got = f();
        match model_default(s, &ty) {
            Some(want) => {
                if let Some(x) = diff(&got, &want) {
                    viol!("default", "T{d}::default(): {} (got vs schema)", clip(x));
                }
                ctx.st.add("defaults_checked", 1);
            }
            None => harness!("no model default for T{d}"),
        }
    }
    for x in &api.structs {
        if let (Some(f), Some(want)) = (x.default, model_default(s, &Ty::Struct(x.decl))) {
            if let Some(x) = diff(&f(), &want) {
                viol!("default", "default of a struct: {x}");
            }
        }
    }
    Ok(())
}
fn align_of_field(s: &Schema, d: usize, fi: usize) -> usize {
    s.align(&s.fields(d)[fi].ty)
}
/// Turns some present values into zero, empty or false
fn zeroed(s: &Schema, ty: &Ty, v: V, r: &mut Rng) -> V {
    match (ty, v) {
        (Ty::Table(d), V::Table(fs)) => V::Table(
            s.fields(*d)
                .iter()
                .zip(fs)
                .map(|(f, v)| {
                    if v.is_none() || f.deprecated || !r.chance(1, 4) {
                        return if v.is_none() { v } else { zeroed(s, &f.ty, v, r) };
                    }
                    match &f.ty {
                        Ty::Sc(sc) => fbm::gen::zero(*sc),
                        Ty::Str => V::Str(String::new()),
                        Ty::Vec(_) => V::Vec(vec![]),
                        Ty::Enum(d) if s.evariants(*d).1.iter().any(|x| x.value == 0) => V::Int(0),
                        _ => v,
                    }
                })
                .collect(),
        ),
        (Ty::Vec(t), V::Vec(vs)) => V::Vec(vs.into_iter().map(|v| zeroed(s, t, v, r)).collect()),
        (Ty::Union(d), V::Union(i, v)) => V::Union(i, Box::new(zeroed(s, &s.uvariants(*d)[i].ty, *v, r))),
        (_, v) => v,
    }
}

// ---------------------------------------------------------------- C09

/// Some enum values and union tags the reader does not know
fn poke(s: &Schema, ty: &Ty, v: &mut V, r: &mut Rng) {
    match (ty, v) {
        (Ty::Table(d), V::Table(fs)) => {
            for (f, v) in s.fields(*d).iter().zip(fs) {
                if !f.deprecated {
                    poke(s, &f.ty, v, r);
                }
            }
        }
        (Ty::Struct(d), V::Struct(fs)) => {
            for (f, v) in s.sfields(*d).iter().zip(fs) {
                poke(s, &f.ty, v, r);
            }
        }
        (Ty::Vec(t), V::Vec(vs)) => vs.iter_mut().for_each(|v| poke(s, t, v, r)),
        (Ty::Union(d), V::Union(i, v)) => poke(s, &s.uvariants(*d)[*i].ty, v, r),
        (Ty::Enum(d), v) if !v.is_none() && r.chance(1, 6) => {
            let (sc, vs) = s.evariants(*d);
            let x = gen_int(sc, r);
            if !vs.iter().any(|v| v.value == x) {
                *v = V::Int(x);
            }
        }
        _ => (),
    }
}

fn vectors(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let cand: Vec<&TableApi> = api
        .tables
        .iter()
        .filter(|t| s.fields(t.decl).iter().any(|f| !f.deprecated && matches!(f.ty, Ty::Vec(_))))
        .collect();
    if cand.is_empty() {
        return Ok(());
    }
    let t = *r.pick(&cand);
    let mut cfg = GenCfg { budget: 300, max_depth: r.range(1, 3), big: r.chance(1, 10), huge: false, density: 7, def_density: 1, no_nan: false };
    let mut v = gen_value(s, &Ty::Table(t.decl), &mut r, &mut cfg, 0);
    let (bytes, want) = if r.chance(1, 2) {
        let mut b = planus::Builder::new();
        let mut st = state(&mut r);
        let bytes = write(t, &mut b, &v, &mut st, None)?;
        let want = norm(s, &Ty::Table(t.decl), &v);
        (bytes, want)
    } else {
        let bad = r.chance(1, 2);
        if bad {
            poke(s, &Ty::Table(t.decl), &mut v, &mut r);
        }
        let l = Layout::random(&mut r);
        let bytes = encode(s, t.decl, &v, &l, &mut r);
        match Dec::new(s, &bytes).root(t.decl, None) {
            Ok(v) => (bytes, v),
            Err(e) => harness!("decoder: {e}"),
        }
    };
    let p = Placed::new(&bytes, r.below(16));
    let steps = if ctx.thorough { 60 } else { 25 };
    let mut c = Vc::new(Rng::new(r.next()), steps);
    (t.vectors)(p.get(), &want, &mut c);
    if let Some(e) = c.errors.first() {
        viol!("vector", "table T{}: {e}", t.decl);
    }
    ctx.st.add("vectors", c.vectors);
    ctx.st.add("operations", c.ops);
    for l in c.lens {
        if l < 12 {
            ctx.st.add(&format!("length_{l}"), 1);
        } else {
            ctx.st.add("length_larger", 1);
        }
    }
    note_value(&v, &bytes, &mut ctx.st);
    Ok(())
}

// ---------------------------------------------------------------- C11

fn model_cmp(s: &Schema, ty: &Ty, a: &V, b: &V) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    match (a, b) {
        (V::None, V::None) => return Some(Equal),
        (V::None, _) => return Some(Less),
        (_, V::None) => return Some(Greater),
        _ => (),
    }
    let lex = |it: &mut dyn Iterator<Item = (Ty, &V, &V)>| {
        for (t, a, b) in it {
            match model_cmp(s, &t, a, b) {
                Some(Equal) => (),
                x => return x,
            }
        }
        Some(Equal)
    };
    match (ty, a, b) {
        (Ty::Table(d), V::Table(x), V::Table(y)) => {
            lex(&mut s.fields(*d).iter().zip(x).zip(y).filter(|((f, _), _)| !f.deprecated).map(|((f, a), b)| (f.ty.clone(), a, b)))
        }
        (Ty::Struct(d), V::Struct(x), V::Struct(y)) => lex(&mut s.sfields(*d).iter().zip(x).zip(y).map(|((f, a), b)| (f.ty.clone(), a, b))),
        (Ty::Vec(t), V::Vec(x), V::Vec(y)) => match lex(&mut x.iter().zip(y).map(|(a, b)| ((**t).clone(), a, b))) {
            Some(Equal) => Some(x.len().cmp(&y.len())),
            x => x,
        },
        (Ty::Union(d), V::Union(i, x), V::Union(j, y)) => match i.cmp(j) {
            Equal => model_cmp(s, &s.uvariants(*d)[*i].ty, x, y),
            x => Some(x),
        },
        (_, V::F32(_), V::F32(_)) => a.f32().partial_cmp(&b.f32()),
        (_, V::F64(_), V::F64(_)) => a.f64().partial_cmp(&b.f64()),
        (_, V::Bool(x), V::Bool(y)) => Some(x.cmp(y)),
        (_, V::Int(x), V::Int(y)) => Some(x.cmp(y)),
        (_, V::Str(x), V::Str(y)) => Some(x.as_bytes().cmp(y.as_bytes())),
        _ => panic!("cannot compare {a:?} and {b:?}"),
    }
}

/// Serialized form; None if it has no JSON form (floats that are not finite)
fn model_json(s: &Schema, ty: &Ty, v: &V) -> Option<serde_json::Value> {
    use serde_json::{json, Value};
    Some(match (ty, v) {
        (_, V::None) => Value::Null,
        (Ty::Table(d), V::Table(x)) => {
            let mut m = serde_json::Map::new();
            for (f, v) in s.fields(*d).iter().zip(x) {
                if !f.deprecated {
                    m.insert(f.name.clone(), model_json(s, &f.ty, v)?);
                }
            }
            Value::Object(m)
        }
        (Ty::Struct(d), V::Struct(x)) => {
            let mut m = serde_json::Map::new();
            for (f, v) in s.sfields(*d).iter().zip(x) {
                m.insert(f.name.clone(), model_json(s, &f.ty, v)?);
            }
            Value::Object(m)
        }
        (Ty::Vec(t), V::Vec(x)) => Value::Array(x.iter().map(|v| model_json(s, t, v)).collect::<Option<_>>()?),
        (Ty::Union(d), V::Union(i, x)) => {
            let u = &s.uvariants(*d)[*i];
            let mut m = serde_json::Map::new();
            m.insert(u.name.clone(), model_json(s, &u.ty, x)?);
            Value::Object(m)
        }
        (Ty::Enum(d), V::Int(x)) => Value::String(s.evariants(*d).1.iter().find(|v| v.value == *x)?.name.clone()),
        (_, V::Int(x)) => {
            if *x < 0 {
                json!(*x as i64)
            } else {
                json!(*x as u64)
            }
        }
        (_, V::Bool(x)) => json!(x),
        (_, V::Str(x)) => json!(x),
        (_, V::F32(_)) if v.f32().is_finite() => json!(v.f32()),
        (_, V::F64(_)) if v.f64().is_finite() => json!(v.f64()),
        _ => return None,
    })
}

/// Debug text of a reference
fn model_debug(s: &Schema, ty: &Ty, v: &V, o: &mut String) {
    use std::fmt::Write;
    match (ty, v) {
        (Ty::Table(d), V::Table(x)) => {
            let _ = write!(o, "{}Ref", s.decls[*d].name);
            let mut first = true;
            for (f, v) in s.fields(*d).iter().zip(x) {
                if f.deprecated || v.is_none() {
                    continue;
                }
                o.push_str(if first { " { " } else { ", " });
                first = false;
                let _ = write!(o, "{}: ", f.name);
                match v {
                    V::Err(e) => {
                        let _ = write!(o, "Err<{e}>");
                    }
                    v => {
                        o.push_str("Ok(");
                        model_debug(s, &f.ty, v, o);
                        o.push(')');
                    }
                }
            }
            if !first {
                o.push_str(" }");
            }
        }
        (Ty::Struct(d), V::Struct(x)) => {
            let _ = write!(o, "{}Ref", s.decls[*d].name);
            for (i, (f, v)) in s.sfields(*d).iter().zip(x).enumerate() {
                o.push_str(if i == 0 { " { " } else { ", " });
                let _ = write!(o, "{}: ", f.name);
                if matches!(f.ty, Ty::Enum(_)) {
                    o.push_str("Ok(");
                    model_debug(s, &f.ty, v, o);
                    o.push(')');
                } else {
                    model_debug(s, &f.ty, v, o);
                }
            }
            o.push_str(" }");
        }
        (Ty::Vec(t), V::Vec(x)) => {
            o.push('[');
            for (i, v) in x.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                let wrap = matches!(**t, Ty::Str | Ty::Table(_) | Ty::Enum(_) | Ty::Union(_));
                if wrap {
                    o.push_str("Ok(");
                }
                model_debug(s, t, v, o);
                if wrap {
                    o.push(')');
                }
            }
            o.push(']');
        }
        (Ty::Union(d), V::Union(i, x)) => {
            let u = &s.uvariants(*d)[*i];
            let _ = write!(o, "{}(", u.name);
            model_debug(s, &u.ty, x, o);
            o.push(')');
        }
        (Ty::Enum(d), V::Int(x)) => o.push_str(&s.evariants(*d).1.iter().find(|v| v.value == *x).unwrap().name),
        (_, V::Int(x)) => {
            let _ = write!(o, "{x}");
        }
        (_, V::Bool(x)) => {
            let _ = write!(o, "{x}");
        }
        (_, V::Str(x)) => {
            let _ = write!(o, "{x:?}");
        }
        (_, V::F32(_)) => {
            let _ = write!(o, "{:?}", v.f32());
        }
        (_, V::F64(_)) => {
            let _ = write!(o, "{:?}", v.f64());
        }
        _ => panic!(),
    }
}

/// A value next to `v`
fn tweak(s: &Schema, ty: &Ty, v: &V, r: &mut Rng) -> V {
    let mut cfg = GenCfg { budget: 10, max_depth: 1, big: false, huge: false, density: 6, def_density: 2, no_nan: false };
    match (ty, v) {
        (Ty::Table(d), V::Table(x)) => {
            let mut x = x.clone();
            let cand: Vec<usize> = s.fields(*d).iter().enumerate().filter(|(_, f)| !f.deprecated).map(|x| x.0).collect();
            if cand.is_empty() {
                return v.clone();
            }
            let i = *r.pick(&cand);
            let f = &s.fields(*d)[i];
            let usable = f.ty.decl().is_none_or(|d| s.ok(d));
            x[i] = if x[i].is_none() {
                if usable {
                    gen_value(s, &f.ty, r, &mut cfg, 0)
                } else {
                    V::None
                }
            } else if f.mode == Mode::Opt && r.chance(1, 3) {
                V::None
            } else {
                tweak(s, &f.ty, &x[i], r)
            };
            V::Table(x)
        }
        (Ty::Struct(d), V::Struct(x)) => {
            let mut x = x.clone();
            let i = r.below(x.len());
            x[i] = tweak(s, &s.sfields(*d)[i].ty, &x[i], r);
            V::Struct(x)
        }
        (Ty::Vec(t), V::Vec(x)) => {
            let mut x = x.clone();
            match r.below(3) {
                0 if !x.is_empty() => {
                    let i = r.below(x.len());
                    x.remove(i);
                }
                1 if t.decl().is_none_or(|d| s.ok(d)) => {
                    let e = gen_value(s, t, r, &mut cfg, 0);
                    let i = r.below(x.len() + 1);
                    x.insert(i, e);
                }
                _ if !x.is_empty() => {
                    let i = r.below(x.len());
                    x[i] = tweak(s, t, &x[i], r);
                }
                _ => (),
            }
            V::Vec(x)
        }
        (Ty::Union(d), V::Union(i, x)) if r.chance(1, 2) => V::Union(*i, Box::new(tweak(s, &s.uvariants(*d)[*i].ty, x, r))),
        (Ty::Sc(_), v) => gen_near_default(s, ty, v, r, &mut cfg, 0),
        (Ty::Str, v) => gen_near_default(s, ty, v, r, &mut cfg, 0),
        (ty, _) => gen_value(s, ty, r, &mut cfg, 0),
    }
}

fn check_ops(s: &Schema, ty: &Ty, a: &V, b: &V, o: &Ops, st: &mut Stats) -> Res {
    use std::cmp::Ordering::*;
    let c = model_cmp(s, ty, a, b);
    let eq = model_eq(a, b);
    if o.eq != eq || o.ne == eq {
        viol!("eq", "== gives {} and != gives {} for {} and {}", o.eq, o.ne, a.brief(), b.brief());
    }
    if o.partial != c {
        viol!("cmp", "partial_cmp gives {:?} and not {c:?} for {} and {}", o.partial, a.brief(), b.brief());
    }
    if let Some(x) = o.cmp {
        if Some(x) != c {
            viol!("cmp", "cmp gives {x:?} and not {c:?} for {} and {}", a.brief(), b.brief());
        }
        st.add("total_orders", 1);
    }
    if let Some((x, y)) = o.hash {
        if eq && x != y {
            viol!("hash", "equal values have different hashes: {}", a.brief());
        }
        // 64 bits do not collide by accident
        if !eq && x == y {
            viol!("hash", "different values have the same hash: {} and {}", a.brief(), b.brief());
        }
    }
    if let Some(x) = diff(&o.clone, a) {
        viol!("clone", "the clone differs: {x}");
    }
    if o.clone_eq == a.has_nan() {
        viol!("clone", "a clone compares as {} to its original {}", o.clone_eq, a.brief());
    }
    if let Some(j) = model_json(s, ty, a) {
        match &o.json {
            Ok(x) if *x == j => (),
            x => viol!("json", "serialized as {} and not as {j}", clip(format!("{x:?}"))),
        }
        match &o.back {
            Ok(x) => {
                if let Some(x) = diff(x, a) {
                    viol!("json", "deserializing the serialized value gives {x}");
                }
                if !o.back_eq {
                    viol!("json", "the deserialized value is not equal");
                }
            }
            Err(e) => viol!("json", "deserializing the serialized value fails: {e}"),
        }
        st.add("json_roundtrips", 1);
    }
    st.add(
        match c {
            Some(Less) => "less",
            Some(Equal) => "equal",
            Some(Greater) => "greater",
            None => "unordered",
        },
        1,
    );
    Ok(())
}
fn x_decl(ty: &Ty) -> usize {
    ty.decl().unwrap()
}
fn check_ref_ops(s: &Schema, ty: &Ty, a: &V, b: &V, o: &RefOps, st: &mut Stats) -> Res {
    use std::cmp::Ordering::*;
    let c = model_cmp(s, ty, a, b);
    let eq = model_eq(a, b);
    if o.eq != eq || o.ne == eq {
        viol!("ref-eq", "between references, == gives {} and != gives {} for {} and {}", o.eq, o.ne, a.brief(), b.brief());
    }
    if o.partial != c {
        viol!("ref-cmp", "partial_cmp of references gives {:?} and not {c:?} for {} and {}", o.partial, a.brief(), b.brief());
    }
    let want = [c == Some(Less), matches!(c, Some(Less | Equal)), c == Some(Greater), matches!(c, Some(Greater | Equal))];
    if o.operators != want {
        viol!("ref-cmp", "<, <=, >, >= between references give {:?} for {} and {}", o.operators, a.brief(), b.brief());
    }
    if let Some(x) = o.cmp {
        if Some(x) != c {
            viol!("ref-cmp", "cmp of references gives {x:?} and not {c:?} for {} and {}", a.brief(), b.brief());
        }
    }
    if let Some((x, y)) = o.hash {
        if eq != (x == y) {
            viol!("ref-hash", "hashes of references are equal: {}, but the values: {eq}: {} and {}", x == y, a.brief(), b.brief());
        }
    }
    if let Some(x) = diff(&o.owned, a) {
        viol!("ref-owned", "the struct made from its reference differs: {x}");
    }
    let mut text = String::new();
    model_debug(s, ty, a, &mut text);
    if o.debug != text {
        viol!("debug", "the Debug text of a reference is {} and not {text}", o.debug);
    }
    st.add("reference_comparisons", 1);
    Ok(())
}
fn model_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Struct(x), V::Struct(y)) | (V::Table(x), V::Table(y)) | (V::Vec(x), V::Vec(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(a, b)| model_eq(a, b))
        }
        (V::Union(i, x), V::Union(j, y)) => i == j && model_eq(x, y),
        (V::F32(_), V::F32(_)) => a.f32() == b.f32(),
        (V::F64(_), V::F64(_)) => a.f64() == b.f64(),
        _ => a == b,
    }
}

fn derived(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let t = &api.tables[pick_table(ctx, si, &mut r)];
    let ty = Ty::Table(t.decl);
    let a = strip(s, &ty, &gen_up_to(s, t.decl, &mut r, false));
    for _ in 0..3 {
        let mut b = match r.below(6) {
            0 => a.clone(),
            1 => strip(s, &ty, &gen_up_to(s, t.decl, &mut r, false)),
            _ => tweak(s, &ty, &a, &mut r),
        };
        if r.chance(1, 4) {
            b = tweak(s, &ty, &b, &mut r);
        }
        let o = (t.ops)(&a, &b);
        check_ops(s, &ty, &a, &b, &o, &mut ctx.st)?;
        let o = (t.ops)(&b, &a);
        check_ops(s, &ty, &b, &a, &o, &mut ctx.st)?;
        ctx.st.seen(&(&a, &b));
    }
    // Debug text of a reference
    let mut b = planus::Builder::new();
    let mut st = state(&mut r);
    let bytes = write(t, &mut b, &a, &mut st, None)?;
    let want = norm(s, &ty, &a);
    let got = (t.debug)(&bytes);
    let mut text = String::new();
    model_debug(s, &ty, &want, &mut text);
    if got != text {
        let p = got.bytes().zip(text.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[p.saturating_sub(40).min(s.len())..(p + 60).min(s.len())]).to_string();
        viol!("debug", "the Debug text differs from byte {p} on: ...{}... and not ...{}...", cut(&got), cut(&text));
    }
    ctx.st.add("debug_texts", 1);
    note_value(&a, &bytes, &mut ctx.st);
    for x in &api.structs {
        let ty = Ty::Struct(x.decl);
        let mut cfg = GenCfg::random(&mut r);
        let a = gen_value(s, &ty, &mut r, &mut cfg, 0);
        let b = if r.chance(1, 5) { a.clone() } else { tweak(s, &ty, &a, &mut r) };
        let o = (x.ops)(&a, &b);
        check_ops(s, &ty, &a, &b, &o, &mut ctx.st)?;
        if let Some(ops) = x.ref_ops {
            // The padding and what surrounds the structs is arbitrary
            let at = r.below(9);
            let mut place = |v: &V| {
                let mut x: Vec<u8> = (0..at).map(|_| r.next() as u8).collect();
                x.extend(encode_struct(s, x_decl(&ty), v, true, &mut r));
                x.extend((0..r.below(5)).map(|_| r.next() as u8));
                x
            };
            let (p, q) = (place(&a), place(&b));
            check_ref_ops(s, &ty, &a, &b, &ops(&p, &q, at), &mut ctx.st)?;
            check_ref_ops(s, &ty, &b, &a, &ops(&q, &p, at), &mut ctx.st)?;
        }
    }
    for x in &api.enums {
        let (sc, vs) = s.evariants(x.decl);
        let ty = Ty::Enum(x.decl);
        let (a, b) = (V::Int(r.pick(vs).value), V::Int(r.pick(vs).value));
        let o = (x.ops)(&a, &b);
        check_ops(s, &ty, &a, &b, &o, &mut ctx.st)?;
        if x.values != vs.iter().map(|v| v.value).collect::<Vec<_>>() {
            viol!("enum", "ENUM_VALUES is {:?}", x.values);
        }
        if x.names != vs.iter().map(|v| v.name.clone()).collect::<Vec<_>>() {
            viol!("enum", "names of ENUM_VALUES are {:?}", x.names);
        }
        if (x.to_int)(&a) != a.int() {
            viol!("enum", "conversion to an integer gives {} for {}", (x.to_int)(&a), a.int());
        }
        for _ in 0..4 {
            let i = match r.below(3) {
                0 => r.pick(vs).value,
                1 => (r.pick(vs).value + 1).clamp(sc.lo(), sc.hi()),
                _ => gen_int(sc, &mut r),
            };
            let known = vs.iter().any(|v| v.value == i);
            match (x.from_int)(i) {
                Ok(V::Int(j)) if known && i == j => (),
                Err(tag) if !known && tag == i => (),
                got => viol!("enum", "conversion of {i} from an integer gives {got:?}"),
            }
            ctx.st.add("enum_conversions", 1);
        }
    }
    Ok(())
}
/// Owned values have no deprecated fields, but always have those with a default
fn strip(s: &Schema, ty: &Ty, v: &V) -> V {
    absent(s, ty, v)
}

// ---------------------------------------------------------------- C23

fn layouts(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    for x in &api.structs {
        let ty = Ty::Struct(x.decl);
        if (x.size, x.align) != (s.size(&ty), s.align(&ty)) {
            viol!(
                "struct",
                "struct {} has size {} and alignment {} in the generated code, but {} and {} by the rules",
                s.path(x.decl),
                x.size,
                x.align,
                s.size(&ty),
                s.align(&ty)
            );
        }
        ctx.st.add("structs", 1);
    }
    for x in &api.enums {
        let ty = Ty::Enum(x.decl);
        if x.size != s.size(&ty) {
            viol!("enum", "enum {} has size {}", s.path(x.decl), x.size);
        }
    }
    let t = &api.tables[pick_table(ctx, si, &mut r)];
    let v = gen(s, t.decl, &mut r);
    let mut b = planus::Builder::new();
    let mut st = state(&mut r);
    let bytes = write(t, &mut b, &v, &mut st, None)?;
    decode_written(s, t.decl, &bytes, None, &norm(s, &Ty::Table(t.decl), &v), &mut ctx.st)?;
    // Accessors at the places the rules assign
    let l = Layout::random(&mut r);
    let bytes = foreign_bytes(s, t.decl, &v, &l, &mut r)?;
    check_read(t, &bytes, &absent(s, &Ty::Table(t.decl), &v), &mut ctx.st)?;
    note_value(&v, &bytes, &mut ctx.st);
    Ok(())
}

// ---------------------------------------------------------------- C01

const ODD: [u32; 14] = [0, 1, 2, 3, 4, 5, 8, 0x7f, 0xff, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fffc, 0xffff_ffff];

fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    if b.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 4) {
        let n = b.len();
        match r.below(12) {
            0 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            1 => {
                let i = r.below(n);
                b[i] = r.next() as u8;
            }
            // A word of 4 at an aligned place
            2..=4 if n >= 4 => {
                let i = r.below(n / 4) * 4;
                let old = u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
                let x = match r.below(6) {
                    0 => *r.pick(&ODD),
                    1 => old.wrapping_add(r.below(9) as u32).wrapping_sub(4),
                    2 => (n - i) as u32,
                    3 => ((n - i) as u32).wrapping_add(r.below(12) as u32).wrapping_sub(6),
                    4 => r.below(n) as u32,
                    _ => (i as u32).wrapping_sub(r.below(n + 8) as u32),
                };
                b[i..i + 4].copy_from_slice(&x.to_le_bytes());
            }
            5..=7 if n >= 2 => {
                let i = r.below(n / 2) * 2;
                let old = u16::from_le_bytes(b[i..i + 2].try_into().unwrap());
                let x = match r.below(5) {
                    0 => *r.pick(&ODD) as u16,
                    1 => old.wrapping_add(r.below(9) as u16).wrapping_sub(4),
                    2 => r.below(n + 8) as u16,
                    3 => r.below(64) as u16,
                    _ => (n - i) as u16,
                };
                b[i..i + 2].copy_from_slice(&x.to_le_bytes());
            }
            8 => {
                let k = r.below(n) + 1;
                b.truncate(k);
            }
            9 if n > 8 => {
                // Copy a piece somewhere else
                let k = r.range(1, 16.min(n));
                let (f, t) = (r.below(n - k + 1), r.below(n - k + 1));
                let x = b[f..f + k].to_vec();
                b[t..t + k].copy_from_slice(&x);
            }
            10 => {
                let i = r.below(n);
                b.remove(i);
                if b.is_empty() {
                    return;
                }
            }
            _ => {
                let i = r.below(n);
                b.insert(i, r.next() as u8);
            }
        }
    }
}

/// Bytes that look like tables: small offsets everywhere
fn shaped(r: &mut Rng) -> Vec<u8> {
    let n = r.range(0, 120);
    let mut b = vec![0u8; n];
    let mut i = 0;
    while i + 4 <= n {
        match r.below(5) {
            0 => b[i..i + 4].copy_from_slice(&(r.below(n) as u32).to_le_bytes()),
            1 => b[i..i + 4].copy_from_slice(&(i as u32).wrapping_sub(r.below(n) as u32).to_le_bytes()),
            2 => {
                b[i..i + 2].copy_from_slice(&(r.below(40) as u16 & !1).to_le_bytes());
                b[i + 2..i + 4].copy_from_slice(&(r.below(60) as u16).to_le_bytes());
            }
            3 => b[i..i + 4].copy_from_slice(&(r.below(6) as u32).to_le_bytes()),
            _ => (),
        }
        i += 4;
    }
    b
}

fn hostile(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let t = &api.tables[pick_table(ctx, si, &mut r)];
    let mut cfg = GenCfg { budget: *r.pick(&[3, 15, 40]), max_depth: r.range(1, 4), big: false, huge: false, density: *r.pick(&[2, 6, 8]), def_density: *r.pick(&[0, 2]), no_nan: false };
    let base = match r.below(8) {
        0 => shaped(&mut r),
        1 => (0..r.below(64)).map(|_| r.next() as u8).collect(),
        2 | 3 => {
            let v = gen_value(s, &Ty::Table(t.decl), &mut r, &mut cfg, 0);
            let mut b = planus::Builder::new();
            let mut st = state(&mut r);
            (t.finish)(&mut b, &v, &mut st, None);
            b.as_slice().to_vec()
        }
        _ => {
            let mut v = gen_value(s, &Ty::Table(t.decl), &mut r, &mut cfg, 0);
            if r.chance(1, 4) {
                poke(s, &Ty::Table(t.decl), &mut v, &mut r);
            }
            if r.chance(1, 4) {
                drop_required(s, &Ty::Table(t.decl), &mut v, &mut r, &mut 0);
            }
            let l = Layout::random(&mut r);
            encode(s, t.decl, &v, &l, &mut r)
        }
    };
    // The same bytes read as another table now and then
    let t = if r.chance(1, 10) { &api.tables[pick_table(ctx, si, &mut r)] } else { t };
    for round in 0..10 {
        let mut b = base.clone();
        if round > 0 || r.chance(1, 2) {
            mutate(&mut b, &mut r);
        }
        // Exactly as many bytes as the buffer has, so that the sanitizer sees the first byte after it
        let p = exact(&b);
        let mut bud = Bud::new(3000, 1 << 22, 300, &p);
        let got = (t.read)(&p, &mut bud);
        if let Some(x) = bud.bad {
            viol!("out-of-bounds", "table T{}: {x}; buffer {}", t.decl, hex(&b));
        }
        ctx.st.add("buffers", 1);
        ctx.st.add("tables_entered", bud.tables);
        ctx.st.add("strings", bud.strings);
        ctx.st.add("vectors", bud.vectors);
        ctx.st.add(if matches!(got, V::Err(_)) { "rejected_at_root" } else if got.has_err() { "some_error" } else { "read_completely" }, 1);
        if bud.cut {
            ctx.st.add("cut", 1);
            continue;
        }
        count_errors(&got, &mut ctx.st);
        // Conversions and Debug follow everything
        let o = (t.owned)(&p);
        if got.has_err() != matches!(o, V::Err(_)) {
            viol!("disagree", "table T{}: accessors give {} but the owned conversion gives {}; buffer {}", t.decl, got.brief(), o.brief(), hex(&b));
        }
        if !got.has_err() {
            if let Some(x) = diff(&got, &o) {
                viol!("disagree", "table T{}: accessors and the owned conversion differ: {}; buffer {}", t.decl, clip(x), hex(&b));
            }
        }
        let text = (t.debug)(&p);
        ctx.st.add("debug_bytes", text.len() as u64);
        if got.has_err() {
            match (t.error_text)(&p) {
                None => viol!("disagree", "no error"),
                Some(x) => ctx.st.add("error_text_bytes", x.len() as u64),
            }
        }
        if r.chance(1, 3) && matches!(got, V::Table(_)) {
            let mut c = Vc::new(Rng::new(r.next()), 6);
            c.lax = got.has_err();
            (t.vectors)(&p, &got, &mut c);
            if let Some(e) = c.errors.first() {
                viol!("vector", "table T{}: {e}; buffer {}", t.decl, hex(&b));
            }
            ctx.st.add("vector_operations", c.ops);
        }
        ctx.st.seen(&b[..]);
        if bud.tables > 3 && got.has_err() {
            ctx.st.sample(|| hex(&b));
        }
    }
    Ok(())
}
fn count_errors(v: &V, st: &mut Stats) {
    match v {
        V::Err(e) => st.add(&format!("error_{e}"), 1),
        V::Struct(x) | V::Table(x) | V::Vec(x) => x.iter().for_each(|v| count_errors(v, st)),
        V::Union(_, v) => count_errors(v, st),
        _ => (),
    }
}

// ---------------------------------------------------------------- C10

/// Fills what the allocator hands out
pub struct Poison;
pub static PATTERN: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
// SAFETY: System does the work
#[cfg(not(miri))]
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let p = std::alloc::System.alloc(l);
        let x = PATTERN.load(std::sync::atomic::Ordering::Relaxed);
        if x != 0 && !p.is_null() {
            std::ptr::write_bytes(p, x as u8, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let q = std::alloc::System.realloc(p, l, n);
        let x = PATTERN.load(std::sync::atomic::Ordering::Relaxed);
        if x != 0 && !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), x as u8, n - l.size());
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let x = PATTERN.load(std::sync::atomic::Ordering::Relaxed);
        if x != 0 {
            std::ptr::write_bytes(p, !x as u8, l.size());
        }
        std::alloc::System.dealloc(p, l)
    }
}
#[cfg(all(feature = "poison", not(miri)))]
#[global_allocator]
static GLOBAL: Poison = Poison;

fn poison(ctx: &mut Ctx, si: usize, r: Rng) -> Res {
    let mut out: Vec<Vec<u8>> = vec![];
    for p in [0xA5u32, 0x5A] {
        PATTERN.store(p, std::sync::atomic::Ordering::Relaxed);
        let mut r = r.clone();
        let api = &ctx.api[si];
        let s = &ctx.schemas[si];
        let mut b = planus::Builder::with_capacity(*r.pick(&[0, 8, 100, 2000]));
        let mut st = state(&mut r);
        for _ in 0..r.below(3) {
            let o = &api.tables[pick_table(ctx, si, &mut r)];
            let v = gen(s, o.decl, &mut r);
            (o.create)(&mut b, &v, &mut st);
            if r.chance(1, 4) {
                b.clear();
                st.forget();
            }
        }
        let t = &api.tables[pick_table(ctx, si, &mut r)];
        let v = gen(s, t.decl, &mut r);
        let id = gen_id(&mut r);
        let bytes = write(t, &mut b, &v, &mut st, id)?;
        note_value(&v, &bytes, &mut ctx.st);
        out.push(bytes);
    }
    PATTERN.store(0, std::sync::atomic::Ordering::Relaxed);
    if out[0] != out[1] {
        let p = out[0].iter().zip(&out[1]).position(|(a, b)| a != b);
        viol!("uninitialised", "the finished buffer depends on what the memory held before, first at {p:?}: {}", hex(&out[0]));
    }
    ctx.st.add("buffers_compared", 1);
    Ok(())
}

/// A little of everything, for the interpreter
fn tiny(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let t = &api.tables[pick_table(ctx, si, &mut r)];
    let mut cfg = GenCfg { budget: 12, max_depth: 2, big: false, huge: false, density: *r.pick(&[2, 5]), def_density: *r.pick(&[2, 6]), no_nan: false };
    let v = gen_value(s, &Ty::Table(t.decl), &mut r, &mut cfg, 0);
    let mut b = ctx.builder.take().unwrap_or_else(|| planus::Builder::with_capacity(r.below(40)));
    b.clear();
    let mut st = state(&mut r);
    let bytes = write(t, &mut b, &v, &mut st, None)?;
    ctx.builder = Some(b);
    let want = norm(s, &Ty::Table(t.decl), &v);
    decode_written(s, t.decl, &bytes, None, &want, &mut ctx.st)?;
    let p = exact(&bytes);
    check_read(t, &p, &want, &mut ctx.st)?;
    let mut c = Vc::new(Rng::new(r.next()), 4);
    (t.vectors)(&p, &want, &mut c);
    if let Some(e) = c.errors.first() {
        viol!("vector", "{e}");
    }
    ctx.st.add("operations", c.ops);
    if r.chance(1, 4) {
        let text = (t.debug)(&p);
        ctx.st.add("debug_bytes", text.len() as u64);
    }
    let mut m = bytes.clone();
    mutate(&mut m, &mut r);
    let p = exact(&m);
    let mut bud = Bud::new(60, 1 << 12, 20, &p);
    let got = (t.read)(&p, &mut bud);
    if let Some(x) = bud.bad {
        viol!("out-of-bounds", "{x}; buffer {}", hex(&m));
    }
    if !bud.cut {
        let o = (t.owned)(&p);
        if got.has_err() != matches!(o, V::Err(_)) {
            viol!("disagree", "accessors give {} but the owned conversion gives {}", got.brief(), o.brief());
        }
    }
    note_styles(&st, &mut ctx.st);
    note_value(&v, &bytes, &mut ctx.st);
    Ok(())
}

/// Many threads read one buffer
fn threads(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    let ti = pick_table(ctx, si, &mut r);
    let t = &api.tables[ti];
    let small = cfg!(miri);
    let v = if small {
        let mut cfg = GenCfg { budget: 10, max_depth: 2, big: false, huge: false, density: 4, def_density: 4, no_nan: false };
        gen_value(s, &Ty::Table(t.decl), &mut r, &mut cfg, 0)
    } else {
        gen(s, t.decl, &mut r)
    };
    let mut b = planus::Builder::new();
    let mut st = state(&mut r);
    let bytes = write(t, &mut b, &v, &mut st, None)?;
    let want = norm(s, &Ty::Table(t.decl), &v);
    let n = if small { 2 } else { 4 };
    let (read, owned, debug) = (t.read, t.owned, t.debug);
    let out: Vec<(V, V, usize)> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                sc.spawn(|| {
                    let mut bud = Bud::unlimited();
                    let v = read(&bytes, &mut bud);
                    let o = owned(&bytes);
                    (v, o, if small { 0 } else { debug(&bytes).len() })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((V::Cut, V::Cut, 0))).collect()
    });
    for (v, o, l) in &out {
        if *v != want || *o != want || *l != out[0].2 {
            viol!("threads", "a thread read {}", v.brief());
        }
    }
    ctx.st.add("threads", n);
    note_value(&v, &bytes, &mut ctx.st);
    Ok(())
}

// ---------------------------------------------------------------- array-init-cursor

mod cur {
    use super::*;
    use array_init_cursor::Cursor;
    use std::cell::Cell;
    use std::mem::MaybeUninit;

    thread_local! {
        static LIVE: Cell<i64> = const { Cell::new(0) };
        static DROPS: Cell<i64> = const { Cell::new(0) };
    }
    pub trait Item: Sized {
        const COUNTED: bool = false;
        fn make(i: usize) -> Self;
        fn id(&self) -> usize;
    }
    impl Item for u8 {
        fn make(i: usize) -> u8 {
            i as u8
        }
        fn id(&self) -> usize {
            *self as usize
        }
    }
    impl Item for u64 {
        fn make(i: usize) -> u64 {
            i as u64
        }
        fn id(&self) -> usize {
            *self as usize
        }
    }
    impl Item for String {
        fn make(i: usize) -> String {
            i.to_string()
        }
        fn id(&self) -> usize {
            self.parse().unwrap()
        }
    }
    #[derive(Debug)]
    pub struct Tracked(Box<usize>);
    impl Item for Tracked {
        const COUNTED: bool = true;
        fn make(i: usize) -> Self {
            LIVE.with(|l| l.set(l.get() + 1));
            Tracked(Box::new(i))
        }
        fn id(&self) -> usize {
            *self.0
        }
    }
    impl Drop for Tracked {
        fn drop(&mut self) {
            LIVE.with(|l| l.set(l.get() - 1));
            DROPS.with(|l| l.set(l.get() + 1));
        }
    }
    fn vals<T: Item, const N: usize>(from: usize) -> [T; N] {
        std::array::from_fn(|i| T::make(from + i))
    }
    #[repr(C)]
    struct Guarded<T, const N: usize> {
        before: [u8; 32],
        data: [MaybeUninit<T>; N],
        after: [u8; 32],
    }
    pub fn drive<T: Item, const N: usize, const L: usize, const R: usize>(r: &mut Rng, st: &mut Stats) -> Res {
        let how = r.below(7);
        DROPS.with(|d| d.set(0));
        LIVE.with(|d| d.set(0));
        let mut g: Guarded<T, N> = Guarded { before: [0x5A; 32], data: std::array::from_fn(|_| MaybeUninit::uninit()), after: [0xA5; 32] };
        let base = r.below(100);
        // Which places hold a value afterwards
        let mut filled = vec![false; N];
        let mut panicked = false;
        let mut expect_panic = false;
        {
            let data = &mut g.data;
            match how {
                0 => {
                    Cursor::new(data).finish(vals::<T, N>(base));
                    filled.fill(true);
                }
                1 => {
                    Cursor::new(data).write::<L, R>(vals(base)).finish(vals::<T, R>(base + L));
                    filled.fill(true);
                }
                2 => {
                    let (a, b) = Cursor::new(data).split::<L, R>();
                    b.finish(vals::<T, R>(base + L));
                    a.finish(vals::<T, L>(base));
                    filled.fill(true);
                }
                3 => {
                    expect_panic = R > 0;
                    panicked = quiet(|| drop(Cursor::new(data).write::<L, R>(vals(base)))).is_err();
                    filled[..L].fill(true);
                }
                4 => {
                    expect_panic = L > 0;
                    panicked = quiet(|| {
                        let (a, b) = Cursor::new(data).split::<L, R>();
                        b.finish(vals::<T, R>(base + L));
                        drop(a)
                    })
                    .is_err();
                    filled[L..].fill(true);
                }
                5 => {
                    expect_panic = N > 0;
                    panicked = quiet(|| drop(Cursor::new(data))).is_err();
                }
                _ => {
                    Cursor::new(data).assert_size::<N>().write::<L, R>(vals(base)).assert_size::<R>().finish(vals::<T, R>(base + L));
                    filled.fill(true);
                }
            }
        }
        if panicked != expect_panic {
            viol!("cursor", "dropping a cursor over {N} places in case {how} ({L}+{R}): panicked = {panicked}, expected {expect_panic}");
        }
        if g.before != [0x5A; 32] || g.after != [0xA5; 32] {
            viol!("cursor", "a cursor over {N} places writes outside of them (case {how}, {L}+{R})");
        }
        let n = filled.iter().filter(|x| **x).count();
        if T::COUNTED {
            let (live, drops) = (LIVE.with(|x| x.get()), DROPS.with(|x| x.get()));
            if (live, drops) != (n as i64, 0) {
                viol!("cursor", "case {how} ({L}+{R}): {live} values are alive and {drops} were dropped, {n} were stored");
            }
        }
        for (i, x) in g.data.into_iter().enumerate() {
            if filled[i] {
                // SAFETY: stored above
                let x = unsafe { x.assume_init() };
                if std::mem::size_of::<T>() > 0 && x.id() != base + i {
                    viol!("cursor", "place {i} of {N} holds value {} instead of {} (case {how}, {L}+{R})", x.id(), base + i);
                }
            }
        }
        if T::COUNTED && LIVE.with(|x| x.get()) != 0 {
            viol!("cursor", "values are left over");
        }
        st.add("cursor_histories", 1);
        st.add(&format!("cursor_case_{how}"), 1);
        st.add("cursor_panics", panicked as u64);
        st.seen(&(how, N, L, T::COUNTED, std::mem::size_of::<T>()));
        Ok(())
    }
}

fn cursor(ctx: &mut Ctx, _si: usize, mut r: Rng) -> Res {
    macro_rules! all {
        ($($n:literal $l:literal $r:literal,)*) => {$(
            cur::drive::<u8, $n, $l, $r>(&mut r, &mut ctx.st)?;
            cur::drive::<u64, $n, $l, $r>(&mut r, &mut ctx.st)?;
            cur::drive::<String, $n, $l, $r>(&mut r, &mut ctx.st)?;
            cur::drive::<cur::Tracked, $n, $l, $r>(&mut r, &mut ctx.st)?;
        )*};
    }
    all!(0 0 0, 1 0 1, 1 1 0, 2 1 1, 3 1 2, 3 2 1, 4 2 2, 5 0 5, 5 5 0, 8 3 5, 16 7 9, 33 32 1,);
    Ok(())
}

// ---------------------------------------------------------------- force_align on fields

/// Vectors whose elements have a forced alignment
fn forced(ctx: &mut Ctx, si: usize, mut r: Rng) -> Res {
    let api = &ctx.api[si];
    let s = &ctx.schemas[si];
    for t in &api.tables {
        for (i, f) in s.fields(t.decl).iter().enumerate() {
            if f.force_align == 0 {
                continue;
            }
            let mut bad = None;
            for n in 0..16 {
                let mut v = gen(s, t.decl, &mut r);
                if let V::Table(x) = &mut v {
                    x[i] = V::Vec(vec![V::Int(1); n + 1]);
                }
                let mut b = planus::Builder::new();
                let bytes = write(t, &mut b, &v, &mut state(&mut r), None)?;
                let mut dec = Dec::new(s, &bytes);
                dec.forced = true;
                match dec.root(t.decl, None) {
                    Ok(_) => (),
                    Err(e) if e.contains("forced alignment") => bad = Some(e),
                    Err(e) => viol!("format", "the written buffer is malformed: {e}"),
                }
            }
            if let Some(e) = bad {
                viol!(format!("force_align: {} on a field of type {:?}", f.force_align, f.ty), "table T{}: {e}", t.decl);
            }
        }
    }
    Ok(())
}
