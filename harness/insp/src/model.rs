//! What the inspection of a buffer should show, from the raw bytes and the model of the schema.
use crate::sg::union_names;
use fbm::*;
use std::collections::BTreeMap;

/// Kind and type of an object with its position, and that of the tags for values of unions
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Key {
    pub at: usize,
    pub kind: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pre {
    Any,
    /// Exactly this name
    Is(String),
    /// Tag of this field
    Tag(String),
    /// Vtable entry of a field (or of its tag)
    Slot(Option<String>, bool),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Any,
    Int(i128),
    F32(u32),
    F64(u64),
    Bool(bool),
    Str(Vec<u8>),
    /// Name of the type and of the variant
    Variant(String, Option<String>, i128),
    Named(String),
    Len(usize),
    /// That of the object referred to
    Target(Key),
}

#[derive(Clone, Debug)]
pub struct N {
    pub kind: String,
    pub start: usize,
    pub end: usize,
    pub pre: Pre,
    pub val: Val,
    pub kids: Vec<N>,
    /// The schema does not say what is inside
    pub open: bool,
}

pub struct Model<'a> {
    pub s: &'a Schema,
    pub b: &'a [u8],
    pub roots: BTreeMap<(Key, Option<usize>), N>,
    todo: Vec<(Key, Ty, Option<usize>)>,
    pub unknown_slots: u64,
    pub unknown_tags: u64,
    pub unknown_enums: u64,
}

pub fn ty_name(s: &Schema, t: &Ty) -> String {
    match t {
        Ty::Sc(sc) => sc.rust().to_string(),
        Ty::Enum(d) | Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => s.path(*d),
        Ty::Str => "string".into(),
        Ty::Vec(t) => format!("[{}]", ty_name(s, t)),
    }
}

fn last(s: &Schema, d: usize) -> String {
    s.decls[d].name.clone()
}

impl<'a> Model<'a> {
    pub fn new(s: &'a Schema, b: &'a [u8]) -> Self {
        Model { s, b, roots: BTreeMap::new(), todo: vec![], unknown_slots: 0, unknown_tags: 0, unknown_enums: 0 }
    }
    fn u8(&self, p: usize) -> usize {
        self.b[p] as usize
    }
    fn u16(&self, p: usize) -> usize {
        u16::from_le_bytes(self.b[p..p + 2].try_into().unwrap()) as usize
    }
    fn u32(&self, p: usize) -> usize {
        u32::from_le_bytes(self.b[p..p + 4].try_into().unwrap()) as usize
    }
    pub fn run(&mut self, root: usize) {
        let n = self.offset(0, &Ty::Table(root), Pre::Any, None);
        self.roots.insert((Key { at: 0, kind: "offset".into() }, None), n);
        while let Some((k, ty, tags)) = self.todo.pop() {
            if self.roots.contains_key(&(k.clone(), tags)) {
                continue;
            }
            let n = match k.kind.split(' ').next().unwrap() {
                "vtable" => self.vtable(k.at, ty.decl().unwrap()),
                "utags" => self.tags(k.at, ty.decl().unwrap()),
                "uvals" => self.vals(k.at, ty.decl().unwrap(), tags.unwrap()),
                _ => self.object(k.at, &ty),
            };
            assert_eq!(n.kind, k.kind);
            self.roots.insert((k, tags), hull(n));
        }
    }
    fn leaf(&self, kind: &str, at: usize, size: usize, pre: Pre, val: Val) -> N {
        N { kind: kind.into(), start: at, end: at + size, pre, val, kids: vec![], open: false }
    }
    fn length(&self, at: usize) -> N {
        self.leaf("u32", at, 4, Pre::Is("length".into()), Val::Int(self.u32(at) as i128))
    }
    fn root_kind(&self, ty: &Ty) -> String {
        match ty {
            Ty::Table(d) => format!("table {}", self.s.path(*d)),
            Ty::Struct(d) => format!("struct {}", self.s.path(*d)),
            Ty::Str => "string".into(),
            Ty::Vec(t) => format!("vector {}", ty_name(self.s, t)),
            _ => panic!(),
        }
    }
    /// Reference to an object of this type
    fn offset(&mut self, at: usize, ty: &Ty, pre: Pre, kind: Option<(&str, Option<usize>)>) -> N {
        let to = at + self.u32(at);
        let (kind, tags) = match kind {
            Some((k, t)) => (format!("{k} {}", self.s.path(ty.decl().unwrap())), t),
            None => (self.root_kind(ty), None),
        };
        let key = Key { at: to, kind };
        self.todo.push((key.clone(), ty.clone(), tags));
        self.leaf("offset", at, 4, pre, Val::Target(key))
    }
    fn inline(&mut self, at: usize, ty: &Ty, pre: Pre) -> N {
        match ty {
            Ty::Sc(sc) => {
                let b = &self.b[at..at + sc.size()];
                let val = match sc {
                    Sc::Bool => Val::Bool(b[0] != 0),
                    Sc::F32 => Val::F32(u32::from_le_bytes(b.try_into().unwrap())),
                    Sc::F64 => Val::F64(u64::from_le_bytes(b.try_into().unwrap())),
                    _ => Val::Int(self.int(at, *sc)),
                };
                self.leaf(sc.rust(), at, sc.size(), pre, val)
            }
            Ty::Enum(d) => {
                let (sc, vs) = self.s.evariants(*d);
                let x = self.int(at, sc);
                let name = vs.iter().find(|v| v.value == x).map(|v| v.name.clone());
                self.unknown_enums += name.is_none() as u64;
                self.leaf(&format!("enum {}", self.s.path(*d)), at, sc.size(), pre, Val::Variant(last(self.s, *d), name, x))
            }
            Ty::Struct(d) => {
                let s = self.s;
                let mut n = self.leaf(&format!("struct {}", s.path(*d)), at, s.size(ty), pre, Val::Named(last(s, *d)));
                for f in s.sfields(*d) {
                    let k = self.inline(at + f.offset, &f.ty, Pre::Is(f.name.clone()));
                    n.kids.push(k);
                }
                n
            }
            _ => panic!(),
        }
    }
    fn int(&self, at: usize, sc: Sc) -> i128 {
        let b = &self.b[at..at + sc.size()];
        let mut x = 0u64;
        for (i, b) in b.iter().enumerate() {
            x |= (*b as u64) << (8 * i);
        }
        let bits = 8 * sc.size();
        if sc.lo() < 0 && x >> (bits - 1) & 1 == 1 {
            x as i128 - (1i128 << bits)
        } else {
            x as i128
        }
    }
    fn tag(&mut self, at: usize, d: usize, pre: Pre) -> N {
        let t = self.u8(at);
        let name = self.variant(d, t).map(|x| x.0);
        self.leaf(&format!("utag {}", self.s.path(d)), at, 1, pre, Val::Variant(last(self.s, d), name, t as i128))
    }
    fn variant(&self, d: usize, t: usize) -> Option<(String, Ty)> {
        let vs = self.s.uvariants(d);
        let i = t.checked_sub(1)?;
        Some((union_names(vs).get(i)?.clone(), vs[i].ty.clone()))
    }
    fn union(&mut self, at: usize, d: usize, t: usize, pre: Pre) -> N {
        let v = self.variant(d, t);
        let mut n = self.leaf(&format!("union {}", self.s.path(d)), at, 4, pre, Val::Variant(last(self.s, d), v.as_ref().map(|x| x.0.clone()), t as i128));
        match v {
            Some((_, ty)) => {
                let k = self.offset(at, &ty, Pre::Any, None);
                n.kids.push(k);
            }
            None => {
                self.unknown_tags += 1;
                n.open = true;
            }
        }
        n
    }
    fn vtable(&mut self, at: usize, d: usize) -> N {
        let size = self.u16(at);
        let mut n = self.leaf(&format!("vtable {}", self.s.path(d)), at, size, Pre::Any, Val::Named(last(self.s, d)));
        for i in 0..size / 2 {
            let p = at + 2 * i;
            let pre = match i {
                0 | 1 => Pre::Any,
                i => match self.slot(d, i - 2) {
                    Some((f, tag)) => Pre::Slot(Some(self.s.fields(d)[f].name.clone()), tag),
                    None => Pre::Slot(None, false),
                },
            };
            let k = self.leaf("u16", p, 2, pre, Val::Int(self.u16(p) as i128));
            n.kids.push(k);
        }
        n
    }
    /// Field of a slot, and whether it is the slot of its tag
    fn slot(&self, d: usize, i: usize) -> Option<(usize, bool)> {
        let fs = self.s.fields(d);
        if let Some(f) = fs.iter().position(|f| f.slot == i) {
            return Some((f, false));
        }
        fs.iter().position(|f| f.ty.is_double() && f.slot == i + 1).map(|f| (f, true))
    }
    fn object(&mut self, at: usize, ty: &Ty) -> N {
        let kind = self.root_kind(ty);
        match ty {
            Ty::Struct(_) => self.inline(at, ty, Pre::Any),
            Ty::Str => {
                let len = self.u32(at);
                let mut n = self.leaf(&kind, at, 4 + len, Pre::Any, Val::Str(self.b[at + 4..at + 4 + len].to_vec()));
                n.kids.push(self.length(at));
                n
            }
            Ty::Vec(t) => {
                let len = self.u32(at);
                let mut n = self.leaf(&kind, at, 0, Pre::Any, Val::Len(len));
                n.kids.push(self.length(at));
                let mut p = at + 4;
                for i in 0..len {
                    let pre = Pre::Is(i.to_string());
                    let k = match &**t {
                        Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => self.inline(p, t, pre),
                        t => self.offset(p, t, pre, None),
                    };
                    p = k.end;
                    n.kids.push(k);
                }
                n
            }
            Ty::Table(d) => {
                let s = self.s;
                let vt = (at as i64 - i32::from_le_bytes(self.b[at..at + 4].try_into().unwrap()) as i64) as usize;
                let key = Key { at: vt, kind: format!("vtable {}", s.path(*d)) };
                self.todo.push((key.clone(), ty.clone(), None));
                let mut n = self.leaf(&kind, at, 4, Pre::Any, Val::Named(last(s, *d)));
                n.kids.push(self.leaf("offset", at, 4, Pre::Any, Val::Target(key)));
                let slots = (self.u16(vt) - 4) / 2;
                let place = |m: &Self, i: usize| if i < slots && m.u16(vt + 4 + 2 * i) != 0 { Some(at + m.u16(vt + 4 + 2 * i)) } else { None };
                for i in 0..slots {
                    let Some(p) = place(self, i) else { continue };
                    let Some((f, tag)) = self.slot(*d, i) else {
                        self.unknown_slots += 1;
                        continue;
                    };
                    let f = &s.fields(*d)[f];
                    let pre = if tag { Pre::Tag(f.name.clone()) } else { Pre::Is(f.name.clone()) };
                    let k = match &f.ty {
                        Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) => self.inline(p, &f.ty, pre),
                        Ty::Union(u) if tag => self.tag(p, *u, pre),
                        Ty::Union(u) => {
                            let t = place(self, i - 1).map(|p| self.u8(p)).expect("union without tag");
                            self.union(p, *u, t, pre)
                        }
                        Ty::Vec(t) if matches!(**t, Ty::Union(_)) => {
                            if tag {
                                self.offset(p, t, pre, Some(("utags", None)))
                            } else {
                                let q = place(self, i - 1).expect("union vector without tags");
                                let tags = q + self.u32(q);
                                self.offset(p, t, pre, Some(("uvals", Some(tags))))
                            }
                        }
                        t => self.offset(p, t, pre, None),
                    };
                    n.kids.push(k);
                }
                n
            }
            _ => panic!(),
        }
    }
    fn tags(&mut self, at: usize, d: usize) -> N {
        let len = self.u32(at);
        let mut n = self.leaf(&format!("utags {}", self.s.path(d)), at, 0, Pre::Any, Val::Len(len));
        n.kids.push(self.length(at));
        for i in 0..len {
            let k = self.tag(at + 4 + i, d, Pre::Is(i.to_string()));
            n.kids.push(k);
        }
        n
    }
    fn vals(&mut self, at: usize, d: usize, tags: usize) -> N {
        let len = self.u32(at);
        let mut n = self.leaf(&format!("uvals {}", self.s.path(d)), at, 0, Pre::Any, Val::Len(len));
        n.kids.push(self.length(at));
        for i in 0..len {
            let k = self.union(at + 4 + 4 * i, d, self.u8(tags + 4 + i), Pre::Is(i.to_string()));
            n.kids.push(k);
        }
        n
    }
}

/// An object extends over everything shown inside of it
fn hull(mut n: N) -> N {
    n.kids = n.kids.into_iter().map(hull).collect();
    n.kids.sort_by_key(|k| k.start);
    for k in &n.kids {
        n.start = n.start.min(k.start);
        n.end = n.end.max(k.end);
    }
    n
}

/// Paths to the innermost parts with this byte
pub fn innermost(n: &N, byte: usize, path: &mut Vec<(String, usize, usize)>, out: &mut Vec<Vec<(String, usize, usize)>>) -> bool {
    if !(n.start..n.end).contains(&byte) {
        return false;
    }
    path.push((n.kind.clone(), n.start, n.end));
    let mut found = false;
    for k in &n.kids {
        found |= innermost(k, byte, path, out);
    }
    if !found {
        out.push(path.clone());
    }
    path.pop();
    true
}
