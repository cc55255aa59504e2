//! A common form of the model and of the declarations of the compiler.
use crate::sg::{union_names, Project};
use fbm::*;
use planus_types::ast::{FloatType, IntegerType};
use planus_types::intermediate as il;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Canon {
    /// Lines of each declaration by path
    pub decls: BTreeMap<String, Vec<String>>,
    /// Documentation of each namespace, sorted
    pub ns: BTreeMap<String, Vec<String>>,
}

fn clean(s: &str) -> &str {
    s.strip_suffix('\r').unwrap_or(s)
}

fn docs_model(d: &[String]) -> String {
    format!("docs={:?}", d.iter().map(|x| clean(x)).collect::<Vec<_>>())
}

fn docs_il(d: &planus_types::ast::Docstrings) -> String {
    format!("docs={:?}", d.docstrings.iter().map(|x| clean(&x.value)).collect::<Vec<_>>())
}

pub fn ty_model(s: &Schema, t: &Ty) -> String {
    match t {
        Ty::Sc(sc) => sc.rust().to_string(),
        Ty::Enum(d) => format!("enum {}", s.path(*d)),
        Ty::Struct(d) => format!("struct {}", s.path(*d)),
        Ty::Table(d) => format!("table {}", s.path(*d)),
        Ty::Union(d) => format!("union {}", s.path(*d)),
        Ty::Str => "string".into(),
        Ty::Vec(t) => format!("[{}]", ty_model(s, t)),
    }
}

pub fn int_name(t: &IntegerType) -> &'static str {
    match t {
        IntegerType::U8 => "u8",
        IntegerType::I8 => "i8",
        IntegerType::U16 => "u16",
        IntegerType::I16 => "i16",
        IntegerType::U32 => "u32",
        IntegerType::I32 => "i32",
        IntegerType::U64 => "u64",
        IntegerType::I64 => "i64",
    }
}

pub fn path_il(ds: &il::Declarations, i: il::DeclarationIndex) -> String {
    ds.declarations.get_index(i.0).unwrap().0 .0.join(".")
}

pub fn simple_il(ds: &il::Declarations, t: &il::SimpleType) -> String {
    match t {
        il::SimpleType::Struct(i) => format!("struct {}", path_il(ds, *i)),
        il::SimpleType::Enum(i) => format!("enum {}", path_il(ds, *i)),
        il::SimpleType::Bool => "bool".into(),
        il::SimpleType::Integer(i) => int_name(i).into(),
        il::SimpleType::Float(FloatType::F32) => "f32".into(),
        il::SimpleType::Float(FloatType::F64) => "f64".into(),
    }
}

pub fn ty_il(ds: &il::Declarations, t: &il::Type) -> String {
    match &t.kind {
        il::TypeKind::Table(i) => format!("table {}", path_il(ds, *i)),
        il::TypeKind::Union(i) => format!("union {}", path_il(ds, *i)),
        il::TypeKind::Vector(t) => format!("[{}]", ty_il(ds, t)),
        il::TypeKind::Array(t, n) => format!("[{}:{n}]", ty_il(ds, t)),
        il::TypeKind::String => "string".into(),
        il::TypeKind::SimpleType(t) => simple_il(ds, t),
    }
}

fn value_model(s: &Schema, t: &Ty, v: &V) -> String {
    match (t, v) {
        (Ty::Enum(d), V::Int(i)) => {
            let n = s.evariants(*d).1.iter().position(|x| x.value == *i).unwrap();
            format!("variant {n} {i}")
        }
        (_, V::Bool(b)) => b.to_string(),
        (_, V::Int(i)) => i.to_string(),
        // The sign and payload of NaN have no literal
        (_, V::F32(_)) if v.f32().is_nan() => "f32 nan".into(),
        (_, V::F64(_)) if v.f64().is_nan() => "f64 nan".into(),
        (_, V::F32(b)) => format!("f32 {b:x}"),
        (_, V::F64(b)) => format!("f64 {b:x}"),
        (_, V::Str(s)) => format!("{s:?}"),
        (_, V::Vec(x)) => format!("list {}", x.len()),
        _ => panic!(),
    }
}

pub fn int_il(i: &il::IntegerLiteral) -> i128 {
    match *i {
        il::IntegerLiteral::U8(x) => x as i128,
        il::IntegerLiteral::I8(x) => x as i128,
        il::IntegerLiteral::U16(x) => x as i128,
        il::IntegerLiteral::I16(x) => x as i128,
        il::IntegerLiteral::U32(x) => x as i128,
        il::IntegerLiteral::I32(x) => x as i128,
        il::IntegerLiteral::U64(x) => x as i128,
        il::IntegerLiteral::I64(x) => x as i128,
    }
}

fn value_il(ds: &il::Declarations, t: &il::Type, v: &il::Literal) -> String {
    match v {
        il::Literal::Bool(b) => b.to_string(),
        il::Literal::String(s) => format!("{s:?}"),
        il::Literal::Int(i) => int_il(i).to_string(),
        il::Literal::Float(il::FloatLiteral::F32(x)) if x.is_nan() => "f32 nan".into(),
        il::Literal::Float(il::FloatLiteral::F64(x)) if x.is_nan() => "f64 nan".into(),
        il::Literal::Float(il::FloatLiteral::F32(x)) => format!("f32 {:x}", x.to_bits()),
        il::Literal::Float(il::FloatLiteral::F64(x)) => format!("f64 {:x}", x.to_bits()),
        il::Literal::Array(x) => format!("array {}", x.len()),
        il::Literal::Vector(x) => format!("list {}", x.len()),
        il::Literal::EnumTag { variant_index, value } => {
            let v = int_il(value);
            if let il::TypeKind::SimpleType(il::SimpleType::Enum(d)) = &t.kind {
                if let il::DeclarationKind::Enum(e) = &ds.declarations.get_index(d.0).unwrap().1.kind {
                    if e.variants.get_index(*variant_index).map(|x| int_il(x.0)) != Some(v) {
                        return format!("variant {variant_index} does not have the value {v}");
                    }
                }
            }
            format!("variant {variant_index} {v}")
        }
    }
}

/// The declaration of the model as lines
pub fn decl_model(s: &Schema, d: usize) -> Vec<String> {
    let decl = &s.decls[d];
    let mut o = vec![];
    match &decl.kind {
        Kind::Table { fields, .. } => {
            o.push(format!("table {}", docs_model(&decl.docs)));
            for f in fields {
                let m = match &f.mode {
                    Mode::Def(v) => format!("= {}", value_model(s, &f.ty, v)),
                    Mode::Opt => "optional".into(),
                    Mode::Req => "required".into(),
                };
                let slot = f.slot - f.ty.is_double() as usize;
                let dep = if f.deprecated { "deprecated " } else { "" };
                o.push(format!("{}: {} {m} slot {slot} {dep}{}", f.name, ty_model(s, &f.ty), docs_model(&f.docs)));
            }
        }
        Kind::Struct { fields, size, align, .. } => {
            o.push(format!("struct size {size} align {align} {}", docs_model(&decl.docs)));
            for (i, f) in fields.iter().enumerate() {
                let sz = s.size(&f.ty);
                let end = fields.get(i + 1).map(|x| x.offset).unwrap_or(*size);
                let pad = end - f.offset - sz;
                o.push(format!("{}: {} offset {} size {sz} padding {pad} {}", f.name, ty_model(s, &f.ty), f.offset, docs_model(&f.docs)));
            }
        }
        Kind::Enum { sc, variants } => {
            o.push(format!("enum {} {}", sc.rust(), docs_model(&decl.docs)));
            for v in variants {
                o.push(format!("{} = {} {}", v.name, v.value, docs_model(&v.docs)));
            }
        }
        Kind::Union { variants } => {
            o.push(format!("union {}", docs_model(&decl.docs)));
            for (v, n) in variants.iter().zip(union_names(variants)) {
                o.push(format!("{n}: {} {}", ty_model(s, &v.ty), docs_model(&v.docs)));
            }
        }
    }
    o
}

pub fn decl_il(ds: &il::Declarations, decl: &il::Declaration) -> Vec<String> {
    let mut o = vec![];
    let doc = docs_il(&decl.docstrings);
    match &decl.kind {
        il::DeclarationKind::Table(t) => {
            o.push(format!("table {doc}"));
            for (name, f) in &t.fields {
                let m = match &f.assign_mode {
                    il::AssignMode::Required => "required".into(),
                    il::AssignMode::Optional => "optional".into(),
                    il::AssignMode::HasDefault(v) => format!("= {}", value_il(ds, &f.type_, v)),
                };
                let dep = if f.deprecated { "deprecated " } else { "" };
                o.push(format!("{name}: {} {m} slot {} {dep}{}", ty_il(ds, &f.type_), f.vtable_index, docs_il(&f.docstrings)));
            }
        }
        il::DeclarationKind::Struct(t) => {
            o.push(format!("struct size {} align {} {doc}", t.size, t.alignment));
            for (name, f) in &t.fields {
                o.push(format!(
                    "{name}: {} offset {} size {} padding {} {}",
                    simple_il(ds, &f.type_),
                    f.offset,
                    f.size,
                    f.padding_after_field,
                    docs_il(&f.docstrings)
                ));
            }
        }
        il::DeclarationKind::Enum(t) => {
            o.push(format!("enum {} {doc}", int_name(&t.type_)));
            for (v, x) in &t.variants {
                o.push(format!("{} = {} {}", x.name, int_il(v), docs_il(&x.docstrings)));
            }
        }
        il::DeclarationKind::Union(t) => {
            o.push(format!("union {doc}"));
            for (name, x) in &t.variants {
                o.push(format!("{name}: {} {}", ty_il(ds, &x.type_), docs_il(&x.docstrings)));
            }
        }
        il::DeclarationKind::RpcService(_) => o.push("rpc".into()),
    }
    o
}

pub fn canon_model(p: &Project) -> Canon {
    let s = &p.s;
    let mut c = Canon::default();
    for d in 0..s.decls.len() {
        c.decls.insert(s.path(d), decl_model(s, d));
    }
    for (f, inner) in s.files.iter().zip(&p.inner) {
        for l in 0..=f.ns.len() {
            let e = c.ns.entry(f.ns[..l].join(".")).or_default();
            if l == f.ns.len() {
                e.extend(inner.iter().map(|x| clean(x).to_string()));
            }
        }
    }
    for x in c.ns.values_mut() {
        x.sort();
    }
    c
}

pub fn canon_il(ds: &il::Declarations) -> Canon {
    let mut c = Canon::default();
    for (p, d) in &ds.declarations {
        c.decls.insert(p.0.join("."), decl_il(ds, d));
    }
    for (p, n) in &ds.namespaces {
        let mut x: Vec<String> = n.docstrings.docstrings.iter().map(|x| clean(&x.value).to_string()).collect();
        x.sort();
        c.ns.insert(p.0.join("."), x);
    }
    c
}

/// First difference
pub fn diff(a: &Canon, b: &Canon) -> Option<String> {
    for (k, x) in &a.decls {
        match b.decls.get(k) {
            None => return Some(format!("declaration {k} is missing")),
            Some(y) if x != y => {
                for i in 0..x.len().max(y.len()) {
                    if x.get(i) != y.get(i) {
                        return Some(format!("{k}: expected {:?}, found {:?}", x.get(i), y.get(i)));
                    }
                }
            }
            _ => (),
        }
    }
    for k in b.decls.keys() {
        if !a.decls.contains_key(k) {
            return Some(format!("unexpected declaration {k}"));
        }
    }
    if a.ns != b.ns {
        return Some(format!("namespaces: expected {:?}, found {:?}", a.ns, b.ns));
    }
    None
}
