//! A FlatBuffers writer that makes random use of the freedom the format gives.
use crate::rng::Rng;
use crate::schema::*;
use crate::value::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Layout {
    /// Random gaps between objects
    pub gaps: bool,
    /// Padding is filled with random bytes
    pub garbage: bool,
    /// Equal strings/vectors/tables are stored once
    pub share: bool,
    /// Equal vtables are stored once
    pub share_vtables: bool,
    /// Chance (of 8) that a default is stored explicitly
    pub explicit: usize,
    /// Trailing zero slots are kept
    pub keep_trailing: bool,
    /// Fields are placed in random order inside the table
    pub shuffle_fields: bool,
    /// Random gaps between the fields of a table
    pub field_gaps: bool,
    /// Objects are placed in random order
    pub shuffle_objects: bool,
    pub file_id: Option<[u8; 4]>,
    /// Additional unknown slots at the end of vtables
    pub extra_slots: bool,
    /// Vectors without elements are only aligned to 4
    pub lax_empty: bool,
    /// Vtables may also lie before the objects that refer to their tables
    pub far_vtables: bool,
}

impl Layout {
    pub fn random(r: &mut Rng) -> Self {
        let mut b = || r.chance(1, 2);
        let mut l = Layout {
            gaps: b(),
            garbage: b(),
            share: b(),
            share_vtables: b(),
            explicit: 0,
            keep_trailing: b(),
            shuffle_fields: b(),
            field_gaps: b(),
            shuffle_objects: b(),
            file_id: None,
            extra_slots: false,
            lax_empty: b(),
            far_vtables: false,
        };
        l.explicit = *r.pick(&[0, 0, 4, 8]);
        if r.chance(1, 3) {
            l.file_id = Some((r.next() as u32).to_le_bytes());
        }
        l.extra_slots = r.chance(1, 4);
        l
    }
    pub fn plain() -> Self {
        Layout {
            gaps: false,
            garbage: false,
            share: false,
            share_vtables: true,
            explicit: 0,
            keep_trailing: false,
            shuffle_fields: false,
            field_gaps: false,
            shuffle_objects: false,
            file_id: None,
            extra_slots: false,
            lax_empty: true,
            far_vtables: false,
        }
    }
}

struct Node {
    bytes: Vec<u8>,
    /// (position in bytes, target node)
    refs: Vec<(usize, usize)>,
    /// vtable node of a table
    vt: Option<usize>,
    align: usize,
    /// position p is such that (p + shift) % align == 0
    shift: usize,
}

pub struct Enc<'a> {
    s: &'a Schema,
    r: &'a mut Rng,
    l: Layout,
    nodes: Vec<Node>,
    shared: HashMap<(Ty, V), usize>,
    vts: HashMap<Vec<u8>, usize>,
}

/// Encodes a table as a complete buffer
pub fn encode(s: &Schema, d: usize, v: &V, l: &Layout, r: &mut Rng) -> Vec<u8> {
    let mut e = Enc { s, r, l: l.clone(), nodes: vec![], shared: HashMap::new(), vts: HashMap::new() };
    let root = e.object(&Ty::Table(d), v);
    e.place(root)
}

/// The bytes of a struct, with arbitrary padding if wanted
pub fn encode_struct(s: &Schema, d: usize, v: &V, garbage: bool, r: &mut Rng) -> Vec<u8> {
    let mut l = Layout::plain();
    l.garbage = garbage;
    Enc { s, r, l, nodes: vec![], shared: HashMap::new(), vts: HashMap::new() }.inline(&Ty::Struct(d), v)
}

impl Enc<'_> {
    fn fill(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| if self.l.garbage { self.r.next() as u8 } else { 0 }).collect()
    }
    fn scalar(sc: Sc, v: &V) -> Vec<u8> {
        match (sc, v) {
            (Sc::Bool, V::Bool(b)) => vec![*b as u8],
            (Sc::F32, V::F32(b)) => b.to_le_bytes().to_vec(),
            (Sc::F64, V::F64(b)) => b.to_le_bytes().to_vec(),
            (_, V::Int(i)) => i.to_le_bytes()[..sc.size()].to_vec(),
            _ => panic!("{sc:?} {v:?}"),
        }
    }
    fn inline(&mut self, ty: &Ty, v: &V) -> Vec<u8> {
        match ty {
            Ty::Sc(sc) => Self::scalar(*sc, v),
            Ty::Enum(d) => Self::scalar(self.s.evariants(*d).0, v),
            Ty::Struct(d) => {
                let mut b = self.fill(self.s.size(ty));
                let s = self.s;
                for (f, v) in s.sfields(*d).iter().zip(v.items()) {
                    let x = self.inline(&f.ty, v);
                    b[f.offset..f.offset + x.len()].copy_from_slice(&x);
                }
                b
            }
            _ => unreachable!(),
        }
    }
    fn push(&mut self, n: Node) -> usize {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    fn object(&mut self, ty: &Ty, v: &V) -> usize {
        let key = (ty.clone(), v.clone());
        if self.l.share {
            if let Some(n) = self.shared.get(&key) {
                return *n;
            }
        }
        let n = self.object_new(ty, v);
        if self.l.share {
            self.shared.insert(key, n);
        }
        n
    }
    fn object_new(&mut self, ty: &Ty, v: &V) -> usize {
        match ty {
            Ty::Str => {
                let s = v.str();
                let mut bytes = (s.len() as u32).to_le_bytes().to_vec();
                bytes.extend(s.bytes());
                bytes.push(0);
                self.push(Node { bytes, refs: vec![], vt: None, align: 4, shift: 0 })
            }
            Ty::Struct(_) => {
                let bytes = self.inline(ty, v);
                let align = self.s.align(ty);
                self.push(Node { bytes, refs: vec![], vt: None, align, shift: 0 })
            }
            Ty::Vec(t) => {
                let vs = v.items();
                let mut bytes = (vs.len() as u32).to_le_bytes().to_vec();
                let mut refs = vec![];
                let mut align = 4;
                match &**t {
                    Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => {
                        if !(vs.is_empty() && self.l.lax_empty) {
                            align = self.s.align(t).max(4);
                        }
                        for v in vs {
                            bytes.extend(self.inline(t, v));
                        }
                    }
                    _ => {
                        for v in vs {
                            let n = self.object(t, v);
                            refs.push((bytes.len(), n));
                            bytes.extend([0; 4]);
                        }
                    }
                }
                self.push(Node { bytes, refs, vt: None, align, shift: 4 })
            }
            Ty::Table(d) => self.table(*d, v),
            _ => unreachable!(),
        }
    }
    fn table(&mut self, d: usize, v: &V) -> usize {
        let s = self.s;
        // (slot, bytes, align, target)
        let mut entries: Vec<(usize, Vec<u8>, usize, Option<usize>)> = vec![];
        // Slots of absent values whose tag is in the slot before
        let mut none_tag_slots = vec![];
        for (f, v) in s.fields(d).iter().zip(v.items()) {
            if f.deprecated {
                if f.ty.is_double() {
                    none_tag_slots.push(f.slot - 1);
                }
                continue;
            }
            let mut v = v.clone();
            if let Mode::Def(def) = &f.mode {
                if v == *def || v.is_none() {
                    if self.r.below(8) < self.l.explicit {
                        v = def.clone();
                    } else {
                        v = V::None;
                    }
                }
            }
            if v.is_none() {
                if matches!(f.ty, Ty::Union(_)) {
                    if self.r.below(8) < self.l.explicit {
                        entries.push((f.slot - 1, vec![0], 1, None));
                    } else {
                        none_tag_slots.push(f.slot - 1);
                    }
                } else if f.ty.is_double() {
                    none_tag_slots.push(f.slot - 1);
                }
                continue;
            }
            match &f.ty {
                Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => {
                    let b = self.inline(&f.ty, &v);
                    entries.push((f.slot, b, s.align(&f.ty), None));
                }
                Ty::Union(u) => {
                    let (i, x) = v.union();
                    let n = self.object(&s.uvariants(*u)[i].ty, x);
                    entries.push((f.slot - 1, vec![i as u8 + 1], 1, None));
                    entries.push((f.slot, vec![0; 4], 4, Some(n)));
                }
                t if t.is_union_vec() => {
                    let u = t.decl().unwrap();
                    let mut tags = (v.items().len() as u32).to_le_bytes().to_vec();
                    let mut vals = tags.clone();
                    let mut refs = vec![];
                    for x in v.items() {
                        let (i, x) = x.union();
                        tags.push(i as u8 + 1);
                        let n = self.object(&s.uvariants(u)[i].ty, x);
                        refs.push((vals.len(), n));
                        vals.extend([0; 4]);
                    }
                    let tn = self.push(Node { bytes: tags, refs: vec![], vt: None, align: 4, shift: 0 });
                    let vn = self.push(Node { bytes: vals, refs, vt: None, align: 4, shift: 0 });
                    entries.push((f.slot - 1, vec![0; 4], 4, Some(tn)));
                    entries.push((f.slot, vec![0; 4], 4, Some(vn)));
                }
                t => {
                    let n = self.object(t, &v);
                    entries.push((f.slot, vec![0; 4], 4, Some(n)));
                }
            }
        }
        if self.l.shuffle_fields {
            self.r.shuffle(&mut entries);
        } else {
            entries.sort_by_key(|e| std::cmp::Reverse(e.2));
        }
        let total = s.num_slots(d);
        let mut nslots = entries.iter().map(|e| e.0 + 1).max().unwrap_or(0);
        if self.l.keep_trailing {
            nslots = total;
        } else if self.r.chance(1, 4) {
            nslots = self.r.range(nslots, total);
        }
        // A vtable that ends after the (unset) tag of a union is not written by any writer
        if nslots > 0 && none_tag_slots.contains(&(nslots - 1)) {
            nslots += 1;
        }
        if self.l.extra_slots && nslots == total && self.r.chance(1, 2) {
            nslots += self.r.range(1, 3);
        }
        let mut bytes = vec![0u8; 4];
        let mut align = 4;
        let mut refs = vec![];
        let mut offs = vec![0u16; nslots];
        for (slot, b, a, target) in entries {
            align = align.max(a);
            let mut pad = align_up(bytes.len(), a) - bytes.len();
            if self.l.field_gaps && self.r.chance(1, 3) {
                pad += a * self.r.range(1, 3);
            }
            let f = self.fill(pad);
            bytes.extend(f);
            offs[slot] = bytes.len() as u16;
            if let Some(t) = target {
                refs.push((bytes.len(), t));
            }
            bytes.extend(b);
        }
        if self.l.field_gaps && self.r.chance(1, 3) {
            let n = self.r.below(5);
            let f = self.fill(n);
            bytes.extend(f);
        }
        // Unknown slots refer to some data inside the table
        for o in offs.iter_mut().skip(total) {
            if bytes.len() > 4 && self.r.chance(1, 2) {
                *o = self.r.range(4, bytes.len() - 1) as u16;
            }
        }
        assert!(bytes.len() < 65536, "generated table is too large");
        let mut vt = ((4 + 2 * nslots) as u16).to_le_bytes().to_vec();
        vt.extend((bytes.len() as u16).to_le_bytes());
        for o in offs {
            vt.extend(o.to_le_bytes());
        }
        let vn = match self.vts.get(&vt) {
            Some(n) if self.l.share_vtables => *n,
            _ => {
                let n = self.push(Node { bytes: vt.clone(), refs: vec![], vt: None, align: 2, shift: 0 });
                self.vts.insert(vt, n);
                n
            }
        };
        self.push(Node { bytes, refs, vt: Some(vn), align, shift: 0 })
    }
    fn place(&mut self, root: usize) -> Vec<u8> {
        let n = self.nodes.len();
        // Referrers come before what they refer to
        let mut indeg = vec![0; n];
        for x in &self.nodes {
            for (_, t) in &x.refs {
                indeg[*t] += 1;
            }
        }
        let mut is_vt = vec![false; n];
        for x in &self.nodes {
            if let Some(v) = x.vt {
                is_vt[v] = true;
            }
        }
        let mut ready: Vec<usize> = (0..n).filter(|i| indeg[*i] == 0 && !is_vt[*i]).collect();
        debug_assert!(ready.contains(&root));
        // Objects that refer to a table come before its vtable
        let mut waits = vec![0; n];
        if !self.l.far_vtables {
            for x in &self.nodes {
                for (_, t) in &x.refs {
                    if let Some(v) = self.nodes[*t].vt {
                        waits[v] += 1;
                    }
                }
            }
        }
        let mut vts: Vec<usize> = (0..n).filter(|i| is_vt[*i] && waits[*i] == 0).collect();
        let mut order = vec![];
        while !ready.is_empty() || !vts.is_empty() {
            let take_vt = !vts.is_empty() && (ready.is_empty() || self.r.below(ready.len() + vts.len()) >= ready.len());
            if take_vt {
                let i = self.r.below(vts.len());
                order.push(vts.swap_remove(i));
                continue;
            }
            let i = if self.l.shuffle_objects { self.r.below(ready.len()) } else { ready.len() - 1 };
            let x = ready.swap_remove(i);
            order.push(x);
            for (_, t) in self.nodes[x].refs.clone() {
                if let (Some(v), false) = (self.nodes[t].vt, self.l.far_vtables) {
                    waits[v] -= 1;
                    if waits[v] == 0 {
                        vts.push(v);
                    }
                }
                indeg[t] -= 1;
                if indeg[t] == 0 {
                    ready.push(t);
                }
            }
        }
        let mut out = vec![0u8; 4];
        if let Some(id) = self.l.file_id {
            out.extend(id);
        }
        let mut pos = vec![0; n];
        for &x in &order {
            if self.l.gaps && self.r.chance(1, 3) {
                let k = self.r.below(9);
                let f = self.fill(k);
                out.extend(f);
            }
            let a = self.nodes[x].align.max(if is_vt[x] { 2 } else { 4 });
            let shift = self.nodes[x].shift;
            loop {
                if (out.len() + shift) % a == 0 && (is_vt[x] || self.nodes[x].align < 4 || out.len() % 4 == 0 || self.nodes[x].shift == 0) {
                    break;
                }
                let f = self.fill(1);
                out.extend(f);
            }
            pos[x] = out.len();
            out.extend(self.nodes[x].bytes.clone());
        }
        if self.l.gaps && self.r.chance(1, 3) {
            let k = self.r.below(9);
            let f = self.fill(k);
            out.extend(f);
        }
        for x in 0..n {
            for (o, t) in &self.nodes[x].refs {
                let p = pos[x] + o;
                out[p..p + 4].copy_from_slice(&((pos[*t] - p) as u32).to_le_bytes());
            }
            if let Some(vt) = self.nodes[x].vt {
                let so = pos[x] as i64 - pos[vt] as i64;
                out[pos[x]..pos[x] + 4].copy_from_slice(&(so as i32).to_le_bytes());
            }
        }
        out[..4].copy_from_slice(&(pos[root] as u32).to_le_bytes());
        out
    }
}
