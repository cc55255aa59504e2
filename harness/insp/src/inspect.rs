//! C40: the inspection of conforming buffers.
use crate::data::*;
use crate::model::*;
use crate::run::*;
use crate::{harness, viol};
use fbm::*;
use planus_buffer_inspection::children::Byterange;
use planus_buffer_inspection::object_mapping::*;
use planus_buffer_inspection::{InspectableFlatbuffer, Object};
use planus_types::ast::{FloatType, IntegerType};
use planus_types::intermediate as il;

fn path(ds: &il::Declarations, i: il::DeclarationIndex) -> String {
    ds.declarations.get_index(i.0).unwrap().0 .0.join(".")
}

fn int(t: &IntegerType) -> &'static str {
    match t {
        IntegerType::U8 => "u8",
        IntegerType::I8 => "i8",
        IntegerType::U16 => "u16",
        IntegerType::I16 => "i16",
        IntegerType::U32 => "u32",
        IntegerType::I32 => "i32",
        IntegerType::U64 => "u64",
        IntegerType::I64 => "i64",
    }
}

fn float(t: &FloatType) -> &'static str {
    match t {
        FloatType::F32 => "f32",
        FloatType::F64 => "f64",
    }
}

fn ty(ds: &il::Declarations, t: &il::Type) -> String {
    match &t.kind {
        il::TypeKind::Table(i) | il::TypeKind::Union(i) => path(ds, *i),
        il::TypeKind::Vector(t) => format!("[{}]", ty(ds, t)),
        il::TypeKind::Array(t, n) => format!("[{}:{n}]", ty(ds, t)),
        il::TypeKind::String => "string".into(),
        il::TypeKind::SimpleType(t) => match t {
            il::SimpleType::Struct(i) | il::SimpleType::Enum(i) => path(ds, *i),
            il::SimpleType::Bool => "bool".into(),
            il::SimpleType::Integer(i) => int(i).into(),
            il::SimpleType::Float(f) => float(f).into(),
        },
    }
}

/// Kind and type of an object as in the model
pub fn kind(ds: &il::Declarations, o: &Object) -> String {
    match o {
        Object::Offset(_) => "offset".into(),
        Object::VTable(x) => format!("vtable {}", path(ds, x.declaration)),
        Object::Table(x) => format!("table {}", path(ds, x.declaration)),
        Object::Struct(x) => format!("struct {}", path(ds, x.declaration)),
        Object::UnionTag(x) => format!("utag {}", path(ds, x.declaration)),
        Object::Union(x) => format!("union {}", path(ds, x.declaration)),
        Object::Enum(x) => format!("enum {}", path(ds, x.declaration)),
        Object::Vector(x) => format!("vector {}", ty(ds, x.type_)),
        Object::Integer(x) => int(&x.type_).into(),
        Object::Float(x) => float(&x.type_).into(),
        Object::Bool(_) => "bool".into(),
        Object::String(_) => "string".into(),
        // Their declarations can only be seen in the name of the type
        Object::UnionVectorTags(_) | Object::UnionVectorValues(_) => {
            let n = o.type_name(ds).into_owned();
            let k = if matches!(o, Object::UnionVectorTags(_)) { "utags" } else { "uvals" };
            let inner = n.split(['[', ']']).nth(1).unwrap_or(&n);
            format!("{k} {inner}")
        }
        Object::Array(_) => "array".into(),
        Object::Unknown(_) => "unknown".into(),
    }
}

/// Lines as a tree
pub struct L<'a> {
    pub line: Line<'a>,
    pub index: usize,
    pub kids: Vec<L<'a>>,
}

pub fn tree<'a>(lines: &[Line<'a>]) -> Result<L<'a>, String> {
    fn go<'a>(lines: &[Line<'a>], at: &mut usize, parent: usize, depth: usize) -> Result<L<'a>, String> {
        let i = *at;
        let l = lines.get(i).ok_or("a line is missing")?;
        if l.start_line_index != i {
            return Err(format!("line {i} says it starts at {}: {l:?}", l.start_line_index));
        }
        if l.parent_line_index != parent {
            return Err(format!("line {i} says its parent is {}, not {parent}: {l:?}", l.parent_line_index));
        }
        if l.indentation != 2 * depth {
            return Err(format!("line {i} in depth {depth} is indented by {}", l.indentation));
        }
        *at += 1;
        let mut n = L { line: l.clone(), index: i, kids: vec![] };
        let end = l.end_line_index;
        if end != i {
            while *at < end {
                n.kids.push(go(lines, at, i, depth + 1)?);
            }
            let e = lines.get(end).ok_or("the end line is missing")?;
            if *at != end || e.start_line_index != i || e.end_line_index != end || e.parent_line_index != parent || e.indentation != l.indentation || (e.start, e.end) != (l.start, l.end) || e.object != l.object {
                return Err(format!("line {i} does not end with line {end}: {l:?} {e:?}"));
            }
            if e.line != "}" || !l.line.ends_with('{') {
                return Err(format!("braces of lines {i} and {end}: {:?} {:?}", l.line, e.line));
            }
            *at += 1;
        }
        Ok(n)
    }
    let mut at = 0;
    let t = go(lines, &mut at, 0, 0)?;
    if at != lines.len() {
        return Err(format!("{} lines, the object ends after {at}", lines.len()));
    }
    Ok(t)
}

fn check_value(v: &Val, name: &str) -> bool {
    let variant = |t: &str, n: &str| name.split_once("::").is_some_and(|x| x.0 == t && x.1 == n);
    match v {
        Val::Any | Val::Target(_) => true,
        Val::Int(i) => name == i.to_string(),
        Val::F32(b) => name.parse::<f32>().is_ok_and(|x| x.to_bits() == *b || x.is_nan() && f32::from_bits(*b).is_nan()),
        Val::F64(b) => name.parse::<f64>().is_ok_and(|x| x.to_bits() == *b || x.is_nan() && f64::from_bits(*b).is_nan()),
        Val::Bool(b) => name == b.to_string(),
        Val::Str(b) => {
            let q = format!("{:?}", String::from_utf8_lossy(b));
            name.starts_with(&q) && name[q.len()..].contains(&b.len().to_string())
        }
        Val::Variant(t, Some(n), _) => variant(t, n),
        Val::Variant(t, None, 0) => name.contains(t.as_str()),
        Val::Variant(t, None, i) => name.contains(t.as_str()) && name.contains(&i.to_string()),
        Val::Named(n) => name.ends_with(n.as_str()),
        Val::Len(n) => name.ends_with(&format!("; {n}]")),
    }
}

fn check_prefix(p: &Pre, line: &str, fields: &[String]) -> bool {
    let Some((pre, _)) = line.split_once(": ") else { return *p == Pre::Any };
    let inner = pre.rsplit('[').next().unwrap().split(']').next().unwrap();
    match p {
        Pre::Any => true,
        Pre::Is(n) => pre == n,
        Pre::Tag(n) => pre != n && inner == n,
        Pre::Slot(Some(n), tag) => inner == n && (pre.contains("tag[") || pre.contains("key[")) == *tag,
        Pre::Slot(None, _) => !fields.iter().any(|f| f == inner),
    }
}

struct Cmp<'a> {
    ds: &'a il::Declarations,
    fb: InspectableFlatbuffer<'a>,
    lines: u64,
    values: u64,
}

impl Cmp<'_> {
    fn same(&mut self, n: &N, l: &L, fields: &[String]) -> Result<(), String> {
        let k = kind(self.ds, &l.line.object);
        let at = || format!("line {} ({:?}, {}..{})", l.index, l.line.line, l.line.start, l.line.end);
        if k != n.kind {
            return Err(format!("{} is a {k}, it should be a {} at {}..{}", at(), n.kind, n.start, n.end));
        }
        if (l.line.start as usize, l.line.end as usize) != (n.start, n.end) {
            return Err(format!("{} should be at {}..{}", at(), n.start, n.end));
        }
        if l.line.object.offset() as usize != n.start && !n.kind.starts_with("table") {
            return Err(format!("{} has an object at {}", at(), l.line.object.offset()));
        }
        if !check_value(&n.val, &l.line.name) {
            return Err(format!("{} shows {:?}, the value is {:?}", at(), l.line.name, n.val));
        }
        if !check_prefix(&n.pre, &l.line.line, fields) {
            return Err(format!("{} should have the name {:?}", at(), n.pre));
        }
        if !l.line.line.contains(&l.line.name) && !l.line.line.contains("vtable") {
            return Err(format!("{} does not show {:?}", at(), l.line.name));
        }
        let ty = l.line.object.type_name(self.ds).into_owned();
        if let Some((_, p)) = n.kind.split_once(' ') {
            // Scalars have their names in schemas there
            if p.contains(|c: char| c.is_ascii_uppercase() || c == '.') && !ty.contains(p) {
                return Err(format!("{} has the type {ty:?}, it should mention {p}", at()));
            }
        }
        if let (Val::Target(key), Object::Offset(o)) = (&n.val, &l.line.object) {
            match o.follow_offset(&self.fb) {
                Ok(t) => {
                    let tk = Key { at: t.offset() as usize, kind: kind(self.ds, &t) };
                    if tk != *key {
                        return Err(format!("{} refers to {tk:?}, it should be {key:?}", at()));
                    }
                }
                Err(_) => return Err(format!("{} cannot be followed", at())),
            }
        }
        self.lines += 1;
        self.values += !matches!(n.val, Val::Any | Val::Target(_)) as u64;
        let mut kids: Vec<&L> = l.kids.iter().collect();
        kids.sort_by_key(|k| k.line.start);
        if n.open {
            return match kids.iter().find(|k| (k.line.start as usize) < n.start || k.line.end as usize > n.end) {
                Some(_) => Err(format!("{} has parts outside of it", at())),
                None => Ok(()),
            };
        }
        if kids.len() != n.kids.len() {
            let have: Vec<String> = kids.iter().map(|k| format!("{:?} {}..{}", k.line.line, k.line.start, k.line.end)).collect();
            let want: Vec<String> = n.kids.iter().map(|k| format!("{:?} {} {}..{}", k.pre, k.kind, k.start, k.end)).collect();
            return Err(format!("{} has {} parts: {have:?}, it should have {}: {want:?}", at(), have.len(), want.len()));
        }
        for (a, b) in n.kids.iter().zip(kids) {
            self.same(a, b, fields)?;
        }
        Ok(())
    }
}

pub fn inspect(ctx: &mut Ctx, mut r: Rng) -> Res {
    let Some((d, ds, root)) = make(ctx, &mut r)? else { return Ok(()) };
    let mut m = Model::new(&d.s, &d.buf);
    m.run(d.root);
    let fb = InspectableFlatbuffer { declarations: &ds, buffer: &d.buf };
    let map = match quiet(|| fb.calculate_object_mapping(root)) {
        Ok(m) => m,
        Err(p) => viol!("panic", "{}", d.show(format!("the inspection panicked: {p}"))),
    };
    let fail = |key: &str, x: String| Err(Viol { key: key.into(), msg: d.show(x) });
    // Every object, once
    let mut trees = vec![];
    for i in 0..map.root_objects.len() {
        let (o, range) = map.root_objects.get_index(i).unwrap();
        let lines = match quiet(|| map.line_tree(i, &fb).flatten(&fb)) {
            Ok(l) => l,
            Err(p) => return fail("panic", format!("showing {o:?} panicked: {p}")),
        };
        let t = match tree(&lines) {
            Ok(t) => t,
            Err(e) => return fail("lines", format!("the lines of {o:?} do not fit together: {e}")),
        };
        if t.line.object != *o || (t.line.start, t.line.end) != *range {
            return fail("lines", format!("the object {o:?} at {range:?} is shown as {:?}", t.line));
        }
        let own = o.byterange(&fb);
        if own.0 < range.0 || own.1 > range.1 {
            return fail("range", format!("{o:?} at {own:?} has the range {range:?}"));
        }
        trees.push((Key { at: o.offset() as usize, kind: kind(&ds, o) }, t, false));
    }
    let mut again = 0;
    let mut c = Cmp { ds: &ds, fb, lines: 0, values: 0 };
    for ((k, _), n) in &m.roots {
        let fields: Vec<String> = match d.s.decls.iter().enumerate().find(|(i, _)| k.kind == format!("vtable {}", d.s.path(*i))) {
            Some((i, _)) => d.s.fields(i).iter().map(|f| f.name.clone()).collect(),
            None => vec![],
        };
        let mut err = None;
        let mut ok = false;
        for (key, t, used) in trees.iter_mut().filter(|t| t.0 == *k && !t.2) {
            let res = match quiet(|| c.same(n, t, &fields)) {
                Ok(r) => r,
                Err(p) => return fail("panic", format!("comparing {key:?}: {p}")),
            };
            match res {
                Ok(()) => {
                    *used = true;
                    ok = true;
                    break;
                }
                Err(e) => err = Some(e),
            }
        }
        if !ok {
            match err {
                Some(e) => return fail("object", format!("{k:?}: {e}")),
                None => {
                    let near: Vec<_> = trees.iter().filter(|t| t.0.at.abs_diff(k.at) < 4).map(|t| &t.0).collect();
                    return fail("missing", format!("the object {k:?} is not shown (near it: {near:?})"));
                }
            }
        }
    }
    // An object that two fields refer to may be shown once for each of them
    for i in 0..trees.len() {
        if trees[i].2 {
            continue;
        }
        let mut same = false;
        for (_, n) in m.roots.iter().filter(|x| x.0 .0 == trees[i].0) {
            match quiet(|| c.same(n, &trees[i].1, &[])) {
                Ok(r) => same |= r.is_ok(),
                Err(p) => return fail("panic", format!("comparing {:?}: {p}", trees[i].0)),
            }
        }
        if !same || trees[i].0.kind.starts_with("vtable") {
            return fail("extra", format!("{:?} is no object of this buffer", trees[i].0));
        }
        again += 1;
    }
    // Every byte
    let n = d.buf.len();
    let mut bytes: Vec<usize> = if n <= 300 { (0..n).collect() } else { (0..150).map(|_| r.below(n)).collect() };
    if n > 300 {
        let keys: Vec<&N> = m.roots.values().collect();
        for _ in 0..30 {
            let o = r.pick(&keys);
            bytes.extend([o.start.saturating_sub(1), o.start, o.end - 1, o.end].into_iter().filter(|x| *x < n));
        }
    }
    let mut found = 0;
    let mut padding = 0;
    for b in bytes {
        let mut want = vec![];
        for n in m.roots.values() {
            innermost(n, b, &mut vec![], &mut want);
        }
        let got = match quiet(|| map.get_interpretations(b as u32, &fb)) {
            Ok(l) => l,
            Err(p) => return fail("panic", format!("the interpretations of byte {b}: {p}")),
        };
        let mut have = vec![];
        for i in &got {
            let Some((_, t, _)) = trees.get(i.root_object_index) else { return fail("interpretations", format!("byte {b}: {i:?} is of no object")) };
            let mut path = vec![];
            let mut cur = t;
            for (j, l) in i.lines.iter().enumerate() {
                if j > 0 {
                    let Some(k) = cur.kids.iter().find(|k| k.index == *l) else { return fail("interpretations", format!("byte {b}: line {l} of {i:?} is not in the line before")) };
                    cur = k;
                } else if *l != 0 {
                    return fail("interpretations", format!("byte {b}: {i:?} does not start at the object"));
                }
                path.push((kind(&ds, &cur.line.object), cur.line.start as usize, cur.line.end as usize));
            }
            have.push(path);
        }
        // What is inside unknown variants is open
        let unknown = |p: &Vec<(String, usize, usize)>| p.iter().position(|x| x.0.starts_with("union ")).map(|i| i + 1);
        for (h, i) in have.iter_mut().zip(&got) {
            if let Some(u) = unknown(h) {
                if h.len() == u + 1 && h[u].0 != "offset" {
                    h.truncate(u);
                    let _ = i;
                }
            }
        }
        want.sort();
        have.sort();
        want.dedup();
        have.dedup();
        if want != have {
            return fail("interpretations", format!("byte {b} is in {have:?}, it should be in {want:?}"));
        }
        found += want.len() as u64;
        padding += want.is_empty() as u64;
    }
    // Values of enums by number
    for (_, t, _) in &trees {
        fn enums(l: &L, fb: &InspectableFlatbuffer, n: &mut u64) -> Result<(), String> {
            if let Object::Enum(e) = &l.line.object {
                let at = l.line.start as usize;
                let mut x = 0i128;
                let size = (l.line.end - l.line.start) as usize;
                for i in 0..size {
                    x |= (fb.buffer[at + i] as i128) << (8 * i);
                }
                match e.read(fb) {
                    Ok(v) if (v as i128) & ((1i128 << (8 * size)) - 1) == x => *n += 1,
                    v => return Err(format!("the number of {:?} is {x}, it is read as {:?}", l.line, v.ok())),
                }
            }
            l.kids.iter().try_for_each(|k| enums(k, fb, n))
        }
        let mut n = 0;
        match quiet(|| enums(t, &fb, &mut n)) {
            Ok(Ok(())) => ctx.st.add("enum_numbers_read", n),
            Ok(Err(e)) => return fail("enum", e),
            Err(p) => return fail("panic", p),
        }
    }
    if m.roots.len() < 2 {
        harness!("the model has no objects");
    }
    let st = &mut ctx.st;
    st.seen(&d.buf);
    st.add("buffers", 1);
    st.add("bytes", n as u64);
    st.add("objects", m.roots.len() as u64);
    st.add("lines_compared", c.lines);
    st.add("values_compared", c.values);
    st.add("interpretations_compared", found);
    st.add("bytes_of_padding", padding);
    st.add("objects_shown_again", again);
    st.add("unknown_vtable_slots", m.unknown_slots);
    st.add("unknown_union_tags", m.unknown_tags);
    st.add("unknown_enum_values", m.unknown_enums);
    st.add("buffers_of_newer_writers", d.newer as u64);
    st.sample(|| d.show(String::new()));
    Ok(())
}
