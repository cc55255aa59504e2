//! Strict verifier and decoder, written from the FlatBuffers format description.
use crate::schema::*;
use crate::value::V;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum RK {
    Root,
    VTable,
    Table,
    Str,
    Vector,
    Struct,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Region {
    pub start: usize,
    pub end: usize,
    pub kind: RK,
    /// Declaration index of tables and structs
    pub decl: usize,
}

pub struct Dec<'a> {
    pub s: &'a Schema,
    pub b: &'a [u8],
    pub regions: Vec<Region>,
    /// Absent fields with defaults decode to None instead of the default
    pub raw: bool,
    /// (table position, decl, field index, position of the field data, size)
    pub fields: Vec<(usize, usize, usize, usize, usize)>,
    pub tables: usize,
    pub vtables: Vec<(usize, usize)>,
    pub strings: usize,
    pub vectors: usize,
    pub unions: usize,
    /// Positions of strings and byte vectors
    pub str_pos: Vec<usize>,
    pub bytes_pos: Vec<usize>,
    /// Skip alignment checks
    pub lax_align: bool,
    /// Report tables whose vtable lies before the object that refers to them as errors
    pub near_vtables: bool,
    /// Vectors without elements must be aligned like all others
    pub aligned_empty: bool,
    /// Check force_align of fields
    pub forced: bool,
    /// Number of those tables
    pub far_vtables: usize,
    from: usize,
    pub depth: usize,
}

type R<T> = Result<T, String>;

impl<'a> Dec<'a> {
    pub fn new(s: &'a Schema, b: &'a [u8]) -> Self {
        Dec {
            s,
            b,
            regions: vec![],
            raw: false,
            fields: vec![],
            tables: 0,
            vtables: vec![],
            strings: 0,
            vectors: 0,
            unions: 0,
            str_pos: vec![],
            bytes_pos: vec![],
            lax_align: false,
            near_vtables: false,
            aligned_empty: false,
            forced: false,
            far_vtables: 0,
            from: 0,
            depth: 0,
        }
    }
    fn bytes(&self, p: usize, n: usize, what: &str) -> R<&'a [u8]> {
        match p.checked_add(n) {
            Some(e) if e <= self.b.len() => Ok(&self.b[p..e]),
            _ => Err(format!("{what} at {p} with length {n} is outside of the buffer of length {}", self.b.len())),
        }
    }
    fn u16(&self, p: usize, what: &str) -> R<usize> {
        Ok(u16::from_le_bytes(self.bytes(p, 2, what)?.try_into().unwrap()) as usize)
    }
    fn u32(&self, p: usize, what: &str) -> R<usize> {
        Ok(u32::from_le_bytes(self.bytes(p, 4, what)?.try_into().unwrap()) as usize)
    }
    fn aligned(&self, p: usize, a: usize, what: &str) -> R<()> {
        if !self.lax_align && p % a != 0 {
            return Err(format!("{what} at {p} is not aligned to {a}"));
        }
        Ok(())
    }
    fn follow(&self, p: usize, what: &str) -> R<usize> {
        self.aligned(p, 4, what)?;
        let o = self.u32(p, what)?;
        if o == 0 {
            return Err(format!("{what} at {p}: zero offset"));
        }
        let t = p + o;
        if t >= self.b.len() {
            return Err(format!("{what} at {p}: offset {o} points outside of the buffer"));
        }
        Ok(t)
    }
    /// Decodes the whole buffer. `file_id`: an identifier is expected after the root offset.
    pub fn root(&mut self, d: usize, file_id: Option<[u8; 4]>) -> R<V> {
        let p = self.follow(0, "root offset")?;
        let mut end = 4;
        if let Some(id) = file_id {
            if self.bytes(4, 4, "file identifier")? != id {
                return Err(format!("file identifier is {:?} and not {:?}", &self.b[4..8], id));
            }
            end = 8;
        }
        self.regions.push(Region { start: 0, end, kind: RK::Root, decl: 0 });
        let v = self.table(d, p)?;
        self.check_regions()?;
        Ok(v)
    }
    pub fn check_regions(&mut self) -> R<()> {
        self.regions.sort();
        self.regions.dedup();
        for w in self.regions.windows(2) {
            // Zero-sized objects do not exist, so strict order means overlap
            if w[1].start < w[0].end {
                return Err(format!("objects overlap: {:?} and {:?}", w[0], w[1]));
            }
        }
        Ok(())
    }
    pub fn scalar(&self, sc: Sc, p: usize) -> R<V> {
        let b = self.bytes(p, sc.size(), "scalar")?;
        Ok(match sc {
            Sc::Bool => {
                if b[0] > 1 {
                    return Err(format!("bool at {p} has value {}", b[0]));
                }
                V::Bool(b[0] != 0)
            }
            Sc::I8 => V::Int(b[0] as i8 as i128),
            Sc::U8 => V::Int(b[0] as i128),
            Sc::I16 => V::Int(i16::from_le_bytes(b.try_into().unwrap()) as i128),
            Sc::U16 => V::Int(u16::from_le_bytes(b.try_into().unwrap()) as i128),
            Sc::I32 => V::Int(i32::from_le_bytes(b.try_into().unwrap()) as i128),
            Sc::U32 => V::Int(u32::from_le_bytes(b.try_into().unwrap()) as i128),
            Sc::I64 => V::Int(i64::from_le_bytes(b.try_into().unwrap()) as i128),
            Sc::U64 => V::Int(u64::from_le_bytes(b.try_into().unwrap()) as i128),
            Sc::F32 => V::F32(u32::from_le_bytes(b.try_into().unwrap())),
            Sc::F64 => V::F64(u64::from_le_bytes(b.try_into().unwrap())),
        })
    }
    /// Value stored inline
    fn inline(&self, ty: &Ty, p: usize) -> R<V> {
        match ty {
            Ty::Sc(sc) => self.scalar(*sc, p),
            Ty::Enum(d) => {
                let (sc, vs) = self.s.evariants(*d);
                let v = self.scalar(sc, p)?;
                if vs.iter().any(|x| x.value == v.int()) {
                    Ok(v)
                } else {
                    Ok(V::Err("UnknownEnumTag".into()))
                }
            }
            Ty::Struct(d) => {
                self.bytes(p, self.s.size(ty), "struct")?;
                let mut out = vec![];
                for f in self.s.sfields(*d) {
                    out.push(self.inline(&f.ty, p + f.offset)?);
                }
                Ok(V::Struct(out))
            }
            _ => unreachable!(),
        }
    }
    fn string(&mut self, p: usize) -> R<V> {
        self.aligned(p, 4, "string")?;
        let n = self.u32(p, "string length")?;
        let b = self.bytes(p + 4, n, "string")?;
        let z = self.bytes(p + 4 + n, 1, "string terminator")?;
        if z[0] != 0 {
            return Err(format!("string at {p} is not null terminated"));
        }
        self.regions.push(Region { start: p, end: p + 5 + n, kind: RK::Str, decl: 0 });
        self.strings += 1;
        self.str_pos.push(p);
        match std::str::from_utf8(b) {
            Ok(s) => Ok(V::Str(s.to_string())),
            Err(_) => Err(format!("string at {p} is not valid UTF-8")),
        }
    }
    fn vec_header(&mut self, p: usize, stride: usize, align: usize) -> R<usize> {
        self.aligned(p, 4, "vector")?;
        let n = self.u32(p, "vector length")?;
        let total = n.checked_mul(stride).ok_or("vector too long")?;
        self.bytes(p + 4, total, "vector")?;
        if n > 0 || self.aligned_empty {
            self.aligned(p + 4, align, "vector elements")?;
        }
        self.regions.push(Region { start: p, end: p + 4 + total, kind: RK::Vector, decl: 0 });
        self.vectors += 1;
        Ok(n)
    }
    /// Object an offset points to
    fn object(&mut self, ty: &Ty, p: usize) -> R<V> {
        match ty {
            Ty::Str => self.string(p),
            Ty::Table(d) => self.table(*d, p),
            Ty::Struct(d) => {
                self.aligned(p, self.s.align(ty), "struct")?;
                let n = self.s.size(ty);
                self.bytes(p, n, "struct")?;
                self.regions.push(Region { start: p, end: p + n, kind: RK::Struct, decl: *d });
                self.inline(ty, p)
            }
            Ty::Vec(t) => match &**t {
                Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => {
                    let stride = self.s.size(t);
                    let n = self.vec_header(p, stride, self.s.align(t))?;
                    if matches!(**t, Ty::Sc(Sc::U8) | Ty::Sc(Sc::I8)) {
                        self.bytes_pos.push(p);
                    }
                    let mut out = Vec::with_capacity(n);
                    for i in 0..n {
                        out.push(self.inline(t, p + 4 + i * stride)?);
                    }
                    Ok(V::Vec(out))
                }
                Ty::Str | Ty::Table(_) => {
                    let n = self.vec_header(p, 4, 4)?;
                    let mut out = Vec::with_capacity(n);
                    for i in 0..n {
                        let q = self.follow(p + 4 + 4 * i, "vector element offset")?;
                        self.from = p + 4 + 4 * i;
                        out.push(self.object(t, q)?);
                    }
                    Ok(V::Vec(out))
                }
                _ => unreachable!(),
            },
            _ => unreachable!(),
        }
    }
    fn union_value(&mut self, d: usize, tag: u8, p: usize) -> R<V> {
        self.unions += 1;
        let vs = self.s.uvariants(d);
        if tag as usize > vs.len() {
            return Ok(V::Err("UnknownUnionTag".into()));
        }
        let i = tag as usize - 1;
        let q = self.follow(p, "union value offset")?;
        let ty = vs[i].ty.clone();
        Ok(V::Union(i, Box::new(self.object(&ty, q)?)))
    }
    pub fn table(&mut self, d: usize, p: usize) -> R<V> {
        self.depth += 1;
        if self.depth > 2000 {
            return Err("too deep".into());
        }
        self.aligned(p, 4, "table")?;
        let so = i32::from_le_bytes(self.bytes(p, 4, "table")?.try_into().unwrap()) as i64;
        let vp = p as i64 - so;
        if vp < 0 || vp as usize >= self.b.len() {
            return Err(format!("vtable of table at {p} is outside of the buffer"));
        }
        let vp = vp as usize;
        if vp < self.from {
            self.far_vtables += 1;
            if self.near_vtables {
                self.depth -= 1;
                return Ok(V::Err("InvalidOffset".into()));
            }
        }
        self.aligned(vp, 2, "vtable")?;
        let vlen = self.u16(vp, "vtable length")?;
        let tlen = self.u16(vp + 2, "table length")?;
        if vlen < 4 || vlen % 2 != 0 {
            return Err(format!("vtable at {vp} has length {vlen}"));
        }
        self.bytes(vp, vlen, "vtable")?;
        if tlen < 4 {
            return Err(format!("table at {p} has length {tlen}"));
        }
        self.bytes(p, tlen, "table")?;
        self.regions.push(Region { start: vp, end: vp + vlen, kind: RK::VTable, decl: 0 });
        self.regions.push(Region { start: p, end: p + tlen, kind: RK::Table, decl: d });
        self.tables += 1;
        self.vtables.push((vp, vlen));
        let slot = |this: &Self, i: usize| -> R<usize> {
            if 4 + 2 * i + 2 <= vlen {
                let o = this.u16(vp + 4 + 2 * i, "vtable entry")?;
                if o != 0 && (o < 4 || o >= tlen) {
                    return Err(format!("vtable at {vp}: entry {i} is {o} but the table has length {tlen}"));
                }
                Ok(o)
            } else {
                Ok(0)
            }
        };
        let mut used: Vec<(usize, usize)> = vec![(0, 4)];
        let mut out = vec![];
        let s = self.s;
        for (fi, f) in s.fields(d).iter().enumerate() {
            let mut inline = |this: &mut Self, slot: usize, o: usize, size: usize, align: usize| -> R<()> {
                if o + size > tlen {
                    return Err(format!("table at {p}: slot {slot} at {o} with size {size} exceeds the table length {tlen}"));
                }
                this.aligned(p + o, align, &format!("field `{}` (slot {slot}) of table at {p}", f.name))?;
                used.push((o, o + size));
                this.fields.push((p, d, fi, p + o, size));
                Ok(())
            };
            let o = slot(self, f.slot)?;
            if f.ty.is_double() {
                let t = slot(self, f.slot - 1)?;
                let isvec = f.ty.is_union_vec();
                if t != 0 {
                    inline(self, f.slot - 1, t, if isvec { 4 } else { 1 }, if isvec { 4 } else { 1 })?;
                }
                if o != 0 {
                    inline(self, f.slot, o, 4, 4)?;
                }
                if f.deprecated {
                    out.push(V::None);
                    continue;
                }
                if isvec {
                    match (t, o) {
                        (0, 0) => (),
                        (0, _) | (_, 0) => return Err(format!("table at {p}: union vector `{}` has only one half", f.name)),
                        _ => {
                            let tp = self.follow(p + t, "union tags")?;
                            let op = self.follow(p + o, "union values")?;
                            let n = self.vec_header(tp, 1, 1)?;
                            let m = self.vec_header(op, 4, 4)?;
                            if n != m {
                                return Err(format!("table at {p}: union vector `{}` has {n} tags and {m} values", f.name));
                            }
                            let mut vs = vec![];
                            let ud = f.ty.decl().unwrap();
                            for i in 0..n {
                                let tag = self.b[tp + 4 + i];
                                if tag == 0 {
                                    return Err("NONE in a union vector".into());
                                }
                                self.from = op + 4 + 4 * i;
                                vs.push(self.union_value(ud, tag, op + 4 + 4 * i)?);
                            }
                            out.push(V::Vec(vs));
                            continue;
                        }
                    }
                } else {
                    let tag = if t == 0 { 0 } else { self.b[p + t] };
                    if tag != 0 && o == 0 {
                        return Err(format!("table at {p}: union `{}` has a tag but no value", f.name));
                    }
                    if tag == 0 && o != 0 {
                        return Err(format!("table at {p}: union `{}` has a value but no tag", f.name));
                    }
                    if tag != 0 {
                        self.from = p;
                        let v = self.union_value(f.ty.decl().unwrap(), tag, p + o)?;
                        out.push(v);
                        continue;
                    }
                }
            } else if o != 0 {
                let (size, align) = (s.size(&f.ty), s.align(&f.ty));
                inline(self, f.slot, o, size, align)?;
                if f.deprecated {
                    out.push(V::None);
                    continue;
                }
                let v = match &f.ty {
                    Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => self.inline(&f.ty, p + o)?,
                    t => {
                        let q = self.follow(p + o, &format!("offset of field `{}`", f.name))?;
                        if self.forced && f.force_align != 0 && (q + 4) % f.force_align != 0 {
                            return Err(format!("field `{}`: elements at {} without the forced alignment {}", f.name, q + 4, f.force_align));
                        }
                        self.from = p;
                        self.object(t, q)?
                    }
                };
                out.push(v);
                continue;
            }
            // absent
            out.push(match &f.mode {
                _ if f.deprecated => V::None,
                Mode::Req => V::Err("MissingRequired".into()),
                Mode::Def(d) if !self.raw => d.clone(),
                _ => V::None,
            });
        }
        used.sort();
        for w in used.windows(2) {
            if w[1].0 < w[0].1 {
                return Err(format!("table at {p}: fields overlap at {:?} and {:?}", w[0], w[1]));
            }
        }
        self.depth -= 1;
        Ok(V::Table(out))
    }
}

/// The raw form expected when fields equal to their default are not stored.
pub fn elide(s: &Schema, ty: &Ty, v: &V) -> V {
    match (ty, v) {
        (Ty::Table(d), V::Table(fs)) => V::Table(
            s.fields(*d)
                .iter()
                .zip(fs)
                .map(|(f, v)| {
                    if f.deprecated {
                        return V::None;
                    }
                    match (&f.mode, v) {
                        (Mode::Def(d), v) if crate::value::eq_default(v, d) => V::None,
                        (_, v) => elide(s, &f.ty, v),
                    }
                })
                .collect(),
        ),
        (Ty::Vec(t), V::Vec(vs)) => V::Vec(vs.iter().map(|v| elide(s, t, v)).collect()),
        (Ty::Union(d), V::Union(i, v)) => V::Union(*i, Box::new(elide(s, &s.uvariants(*d)[*i].ty, v))),
        _ => v.clone(),
    }
}
