//! Schema model with layouts computed from the FlatBuffers rules.
use crate::value::V;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sc {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
    F32,
    F64,
}

pub const INTS: [Sc; 8] = [
    Sc::I8,
    Sc::U8,
    Sc::I16,
    Sc::U16,
    Sc::I32,
    Sc::U32,
    Sc::I64,
    Sc::U64,
];
pub const SCALARS: [Sc; 11] = [
    Sc::Bool,
    Sc::I8,
    Sc::U8,
    Sc::I16,
    Sc::U16,
    Sc::I32,
    Sc::U32,
    Sc::I64,
    Sc::U64,
    Sc::F32,
    Sc::F64,
];

impl Sc {
    pub fn size(self) -> usize {
        match self {
            Sc::Bool | Sc::I8 | Sc::U8 => 1,
            Sc::I16 | Sc::U16 => 2,
            Sc::I32 | Sc::U32 | Sc::F32 => 4,
            Sc::I64 | Sc::U64 | Sc::F64 => 8,
        }
    }
    pub fn is_int(self) -> bool {
        !matches!(self, Sc::Bool | Sc::F32 | Sc::F64)
    }
    pub fn lo(self) -> i128 {
        match self {
            Sc::I8 => i8::MIN as i128,
            Sc::I16 => i16::MIN as i128,
            Sc::I32 => i32::MIN as i128,
            Sc::I64 => i64::MIN as i128,
            _ => 0,
        }
    }
    pub fn hi(self) -> i128 {
        match self {
            Sc::Bool => 1,
            Sc::I8 => i8::MAX as i128,
            Sc::U8 => u8::MAX as i128,
            Sc::I16 => i16::MAX as i128,
            Sc::U16 => u16::MAX as i128,
            Sc::I32 => i32::MAX as i128,
            Sc::U32 => u32::MAX as i128,
            Sc::I64 => i64::MAX as i128,
            Sc::U64 => u64::MAX as i128,
            Sc::F32 | Sc::F64 => 0,
        }
    }
    /// Names of the type in schemas.
    pub fn names(self) -> &'static [&'static str] {
        match self {
            Sc::Bool => &["bool"],
            Sc::I8 => &["byte", "int8"],
            Sc::U8 => &["ubyte", "uint8"],
            Sc::I16 => &["short", "int16"],
            Sc::U16 => &["ushort", "uint16"],
            Sc::I32 => &["int", "int32"],
            Sc::U32 => &["uint", "uint32"],
            Sc::I64 => &["long", "int64"],
            Sc::U64 => &["ulong", "uint64"],
            Sc::F32 => &["float", "float32"],
            Sc::F64 => &["double", "float64"],
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            Sc::Bool => "bool",
            Sc::I8 => "i8",
            Sc::U8 => "u8",
            Sc::I16 => "i16",
            Sc::U16 => "u16",
            Sc::I32 => "i32",
            Sc::U32 => "u32",
            Sc::I64 => "i64",
            Sc::U64 => "u64",
            Sc::F32 => "f32",
            Sc::F64 => "f64",
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Sc(Sc),
    Enum(usize),
    Struct(usize),
    Table(usize),
    Union(usize),
    Str,
    Vec(Box<Ty>),
}

impl Ty {
    pub fn vec(t: Ty) -> Ty {
        Ty::Vec(Box::new(t))
    }
    pub fn is_union_vec(&self) -> bool {
        matches!(self, Ty::Vec(t) if matches!(**t, Ty::Union(_)))
    }
    /// Takes two vtable slots
    pub fn is_double(&self) -> bool {
        matches!(self, Ty::Union(_)) || self.is_union_vec()
    }
    pub fn decl(&self) -> Option<usize> {
        match self {
            Ty::Enum(d) | Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => Some(*d),
            Ty::Vec(t) => t.decl(),
            _ => None,
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Mode {
    Def(V),
    Opt,
    Req,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub mode: Mode,
    /// Vtable slot of the value (the tag of a union is in the slot before)
    pub slot: usize,
    pub deprecated: bool,
    /// Alignment asked for with force_align, or 0
    pub force_align: usize,
    /// Text of the default if it is written out (None: not written, or rendered canonically)
    pub show_default: bool,
    pub docs: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct SField {
    pub name: String,
    pub ty: Ty,
    pub offset: usize,
    pub docs: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct UVariant {
    pub name: String,
    /// Written as `name: type`
    pub named: bool,
    pub ty: Ty,
    pub docs: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct EVariant {
    pub name: String,
    pub value: i128,
    /// Value is written out
    pub explicit: bool,
    pub docs: Vec<String>,
}

#[derive(Clone, Debug)]
pub enum Kind {
    Table {
        fields: Vec<Field>,
        ids: bool,
    },
    Struct {
        fields: Vec<SField>,
        force_align: Option<usize>,
        size: usize,
        align: usize,
    },
    Enum {
        sc: Sc,
        variants: Vec<EVariant>,
    },
    Union {
        variants: Vec<UVariant>,
    },
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub name: String,
    pub file: usize,
    pub kind: Kind,
    pub docs: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct FileInfo {
    /// Path relative to the schema directory
    pub path: String,
    pub ns: Vec<String>,
    pub includes: Vec<usize>,
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub name: String,
    pub files: Vec<FileInfo>,
    pub decls: Vec<Decl>,
    /// Tables used as roots
    pub roots: Vec<usize>,
    /// Per declaration: length of the shortest derivation of a finite value, if any
    pub rank: Vec<Option<usize>>,
    /// Old and new version of tables
    pub pairs: Vec<(usize, usize)>,
}

pub fn align_up(x: usize, a: usize) -> usize {
    x.div_ceil(a) * a
}

impl Schema {
    pub fn fields(&self, d: usize) -> &[Field] {
        match &self.decls[d].kind {
            Kind::Table { fields, .. } => fields,
            _ => panic!("not a table"),
        }
    }
    pub fn sfields(&self, d: usize) -> &[SField] {
        match &self.decls[d].kind {
            Kind::Struct { fields, .. } => fields,
            _ => panic!("not a struct"),
        }
    }
    pub fn uvariants(&self, d: usize) -> &[UVariant] {
        match &self.decls[d].kind {
            Kind::Union { variants } => variants,
            _ => panic!("not a union"),
        }
    }
    pub fn evariants(&self, d: usize) -> (Sc, &[EVariant]) {
        match &self.decls[d].kind {
            Kind::Enum { sc, variants } => (*sc, variants),
            _ => panic!("not an enum"),
        }
    }
    pub fn tables(&self) -> Vec<usize> {
        (0..self.decls.len())
            .filter(|d| matches!(self.decls[*d].kind, Kind::Table { .. }))
            .collect()
    }
    pub fn structs(&self) -> Vec<usize> {
        (0..self.decls.len())
            .filter(|d| matches!(self.decls[*d].kind, Kind::Struct { .. }))
            .collect()
    }
    pub fn enums(&self) -> Vec<usize> {
        (0..self.decls.len())
            .filter(|d| matches!(self.decls[*d].kind, Kind::Enum { .. }))
            .collect()
    }
    pub fn unions(&self) -> Vec<usize> {
        (0..self.decls.len())
            .filter(|d| matches!(self.decls[*d].kind, Kind::Union { .. }))
            .collect()
    }
    /// Size of the value as stored inline in a table, struct or vector
    pub fn size(&self, ty: &Ty) -> usize {
        match ty {
            Ty::Sc(s) => s.size(),
            Ty::Enum(d) => self.evariants(*d).0.size(),
            Ty::Struct(d) => match &self.decls[*d].kind {
                Kind::Struct { size, .. } => *size,
                _ => unreachable!(),
            },
            _ => 4,
        }
    }
    pub fn align(&self, ty: &Ty) -> usize {
        match ty {
            Ty::Struct(d) => match &self.decls[*d].kind {
                Kind::Struct { align, .. } => *align,
                _ => unreachable!(),
            },
            _ => self.size(ty),
        }
    }
    pub fn ns(&self, d: usize) -> &[String] {
        &self.files[self.decls[d].file].ns
    }
    pub fn path(&self, d: usize) -> String {
        let mut p = self.ns(d).to_vec();
        p.push(self.decls[d].name.clone());
        p.join(".")
    }
    /// Number of vtable slots a table has when nothing is truncated
    pub fn num_slots(&self, d: usize) -> usize {
        self.fields(d).iter().map(|f| f.slot + 1).max().unwrap_or(0)
    }
    /// Fill in struct layouts. Structs may only refer to structs declared with a smaller index
    /// or anywhere, as long as acyclic.
    pub fn layout(&mut self) {
        let mut done = vec![false; self.decls.len()];
        for d in 0..self.decls.len() {
            self.layout_struct(d, &mut done);
        }
        self.rank = self.compute_rank();
    }
    fn layout_struct(&mut self, d: usize, done: &mut Vec<bool>) {
        if done[d] || !matches!(self.decls[d].kind, Kind::Struct { .. }) {
            return;
        }
        done[d] = true;
        let inner: Vec<usize> = self
            .sfields(d)
            .iter()
            .filter_map(|f| match f.ty {
                Ty::Struct(i) => Some(i),
                _ => None,
            })
            .collect();
        for i in inner {
            self.layout_struct(i, done);
        }
        let mut off = 0;
        let mut max_align = 1;
        let mut offs = vec![];
        for f in self.sfields(d) {
            let a = self.align(&f.ty);
            off = align_up(off, a);
            offs.push(off);
            off += self.size(&f.ty);
            max_align = max_align.max(a);
        }
        if let Kind::Struct {
            fields,
            force_align,
            size,
            align,
        } = &mut self.decls[d].kind
        {
            if let Some(f) = force_align {
                max_align = max_align.max(*f);
            }
            for (f, o) in fields.iter_mut().zip(offs) {
                f.offset = o;
            }
            *align = max_align;
            *size = align_up(off, max_align);
        }
    }
    /// A finite value of the declaration exists
    pub fn ok(&self, d: usize) -> bool {
        self.rank[d].is_some()
    }
    fn compute_rank(&self) -> Vec<Option<usize>> {
        let mut rank: Vec<Option<usize>> = vec![None; self.decls.len()];
        for round in 0.. {
            let mut next = rank.clone();
            for d in 0..self.decls.len() {
                if rank[d].is_some() {
                    continue;
                }
                let c = match &self.decls[d].kind {
                    Kind::Struct { fields, .. } => fields.iter().all(|f| f.ty.decl().is_none_or(|t| rank[t].is_some())),
                    Kind::Enum { variants, .. } => !variants.is_empty(),
                    Kind::Union { variants } => variants.iter().any(|v| match &v.ty {
                        Ty::Table(t) | Ty::Struct(t) => rank[*t].is_some(),
                        _ => true,
                    }),
                    Kind::Table { fields, .. } => fields.iter().all(|f| {
                        f.deprecated
                            || f.mode != Mode::Req
                            || match &f.ty {
                                Ty::Table(t) | Ty::Union(t) | Ty::Struct(t) | Ty::Enum(t) => rank[*t].is_some(),
                                _ => true,
                            }
                    }),
                };
                if c {
                    next[d] = Some(round);
                }
            }
            if next == rank {
                return rank;
            }
            rank = next;
        }
        unreachable!()
    }
}
