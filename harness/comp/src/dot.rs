//! C28: the dot output, read by an independent parser and compared with the model.
use crate::basic::opts;
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::viol;
use fbm::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Str(String),
    Html(String),
    P(&'static str),
}

fn lex(s: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut o = vec![];
    let mut bol = true;
    while i < c.len() {
        let x = c[i];
        if x == '\n' {
            bol = true;
            i += 1;
            continue;
        }
        if x == '#' && bol {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if x.is_whitespace() {
            i += 1;
            continue;
        }
        bol = false;
        if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            if i + 1 >= c.len() {
                return Err("comment without end".into());
            }
            i += 2;
        } else if x == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("string without end".into()),
                    Some('"') => break,
                    Some('\\') if c.get(i + 1) == Some(&'"') => {
                        t.push('"');
                        i += 2;
                    }
                    Some(y) => {
                        t.push(*y);
                        i += 1;
                    }
                }
            }
            i += 1;
            o.push(T::Str(t));
        } else if x == '<' {
            let mut depth = 1;
            let mut t = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unbalanced < in an HTML string".into()),
                    Some('<') => depth += 1,
                    Some('>') => depth -= 1,
                    _ => (),
                }
                if depth == 0 {
                    break;
                }
                t.push(c[i]);
                i += 1;
            }
            i += 1;
            o.push(T::Html(t));
        } else if x == '-' && c.get(i + 1) == Some(&'>') {
            o.push(T::P("->"));
            i += 2;
        } else if let Some(p) = ["{", "}", "[", "]", "=", ";", ",", ":"].into_iter().find(|p| p.starts_with(x)) {
            o.push(T::P(p));
            i += 1;
        } else if x.is_ascii_alphabetic() || x == '_' || x >= '\u{80}' {
            let a = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || c[i] >= '\u{80}') {
                i += 1;
            }
            o.push(T::Id(c[a..i].iter().collect()));
        } else if x.is_ascii_digit() || x == '-' || x == '.' {
            let a = i;
            i += 1;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            o.push(T::Id(c[a..i].iter().collect()));
        } else {
            return Err(format!("unexpected {x:?}"));
        }
    }
    Ok(o)
}

type Attrs = BTreeMap<String, T>;
type End = (String, Option<String>);

#[derive(Default, Debug)]
struct Graph {
    nodes: Vec<(String, Attrs)>,
    edges: Vec<(End, End, Attrs)>,
}

struct P<'a> {
    t: &'a [T],
    i: usize,
}
impl P<'_> {
    fn peek(&self, p: &str) -> bool {
        matches!(self.t.get(self.i), Some(T::P(x)) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.peek(p);
        self.i += r as usize;
        r
    }
    fn want(&mut self, p: &str) -> Result<(), String> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(format!("expected {p} at {:?}", self.t.get(self.i)))
        }
    }
    fn id(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(T::Id(x) | T::Str(x)) => {
                self.i += 1;
                Ok(x.clone())
            }
            x => Err(format!("expected an id at {x:?}")),
        }
    }
    fn value(&mut self) -> Result<T, String> {
        match self.t.get(self.i) {
            Some(x @ (T::Id(_) | T::Str(_) | T::Html(_))) => {
                self.i += 1;
                Ok(x.clone())
            }
            x => Err(format!("expected a value at {x:?}")),
        }
    }
    fn attrs(&mut self) -> Result<Attrs, String> {
        let mut o = Attrs::new();
        while self.eat("[") {
            while !self.eat("]") {
                let k = self.id()?;
                self.want("=")?;
                let v = self.value()?;
                if o.insert(k.clone(), v).is_some() {
                    return Err(format!("attribute {k} twice"));
                }
                if !self.eat(",") {
                    self.eat(";");
                }
            }
        }
        Ok(o)
    }
    fn end(&mut self) -> Result<End, String> {
        let n = self.id()?;
        let mut port = None;
        if self.eat(":") {
            port = Some(self.id()?);
            if self.eat(":") {
                let c = self.id()?;
                if !["n", "ne", "e", "se", "s", "sw", "w", "nw", "c", "_"].contains(&c.as_str()) {
                    return Err(format!("{c} is not a compass point"));
                }
            }
        }
        Ok((n, port))
    }
    fn graph(&mut self) -> Result<Graph, String> {
        let mut g = Graph::default();
        if self.id()? != "digraph" {
            return Err("not a digraph".into());
        }
        if !self.peek("{") {
            self.id()?;
        }
        self.want("{")?;
        while !self.eat("}") {
            if self.eat(";") {
                continue;
            }
            let a = self.end()?;
            if self.eat("=") {
                self.value()?;
                continue;
            }
            let mut ends = vec![a];
            while self.eat("->") {
                ends.push(self.end()?);
            }
            let at = self.attrs()?;
            if ends.len() == 1 {
                let n = ends.pop().unwrap().0;
                if !["node", "edge", "graph"].contains(&n.as_str()) {
                    g.nodes.push((n, at));
                }
            } else {
                for w in ends.windows(2) {
                    g.edges.push((w[0].clone(), w[1].clone(), at.clone()));
                }
            }
        }
        if self.i != self.t.len() {
            return Err("text after the graph".into());
        }
        Ok(g)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Cell {
    text: String,
    port: Option<String>,
}

/// Text of an HTML-like label, with its entities resolved
fn text(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s;
    while let Some(c) = it.chars().next() {
        it = &it[c.len_utf8()..];
        if c == '>' {
            return Err("bare > in a label".into());
        }
        if c != '&' {
            let ok = matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..);
            if !ok {
                return Err(format!("{c:?} must not be in a label"));
            }
            o.push(c);
            continue;
        }
        let Some(e) = it.find(';') else { return Err("bare & in a label".into()) };
        let name = &it[..e];
        it = &it[e + 1..];
        let ch = match name {
            "amp" => Some('&'),
            "lt" => Some('<'),
            "gt" => Some('>'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            "nbsp" => Some('\u{a0}'),
            n => n.strip_prefix("#x").map(|x| u32::from_str_radix(x, 16)).or(n.strip_prefix('#').map(|x| x.parse())).and_then(|x| x.ok()).and_then(char::from_u32),
        };
        match ch {
            Some(ch) if ch >= ' ' || "\t\n\r".contains(ch) => o.push(ch),
            _ => return Err(format!("&{name}; is not an entity")),
        }
    }
    Ok(o)
}

/// Rows of a label made of one table
fn label(s: &str) -> Result<Vec<Vec<Cell>>, String> {
    let mut rows: Vec<Vec<Cell>> = vec![];
    let mut open: Vec<String> = vec![];
    let mut rest = s;
    let mut ports = HashSet::new();
    let mut tables = 0;
    while !rest.is_empty() {
        let n = rest.find('<').unwrap_or(rest.len());
        let t = text(&rest[..n])?;
        if open.iter().any(|x| x == "TD") {
            rows.last_mut().unwrap().last_mut().unwrap().text.push_str(&t);
        } else if !t.trim().is_empty() {
            return Err(format!("text {:?} outside of a cell", cut(&t, 100)));
        }
        rest = &rest[n..];
        if rest.is_empty() {
            break;
        }
        let Some(e) = rest.find('>') else { return Err("tag without end".into()) };
        let tag = &rest[1..e];
        rest = &rest[e + 1..];
        if let Some(name) = tag.strip_prefix('/') {
            if open.pop().as_deref() != Some(name.trim().to_uppercase().as_str()) {
                return Err(format!("</{name}> does not close the innermost tag"));
            }
            continue;
        }
        let closed = tag.ends_with('/');
        let tag = tag.strip_suffix('/').unwrap_or(tag);
        let name: String = tag.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
        let mut a = tag[name.len()..].trim();
        let name = name.to_uppercase();
        let mut attrs: BTreeMap<String, String> = BTreeMap::new();
        while !a.is_empty() {
            let Some((k, v)) = a.split_once('=') else { return Err(format!("attribute in <{tag}>")) };
            let v = v.trim_start();
            let q = v.chars().next().filter(|q| "\"'".contains(*q)).ok_or(format!("attribute in <{tag}>"))?;
            let Some((v, x)) = v[1..].split_once(q) else { return Err(format!("attribute in <{tag}>")) };
            if attrs.insert(k.trim().to_uppercase(), text(v)?).is_some() {
                return Err(format!("attribute twice in <{tag}>"));
            }
            a = x.trim_start();
        }
        let parent = open.last().map(|x| x.as_str());
        match name.as_str() {
            "TABLE" => {
                tables += 1;
                if parent.is_some() || tables > 1 {
                    return Err("more than one table".into());
                }
            }
            "TR" => {
                if parent != Some("TABLE") {
                    return Err("row outside of a table".into());
                }
                rows.push(vec![]);
            }
            "TD" => {
                if parent != Some("TR") {
                    return Err("cell outside of a row".into());
                }
                let port = attrs.get("PORT").cloned();
                if let Some(p) = &port {
                    if !ports.insert(p.clone()) {
                        return Err(format!("port {p} twice"));
                    }
                }
                rows.last_mut().unwrap().push(Cell { text: String::new(), port });
            }
            "B" | "I" | "U" | "O" | "S" | "SUB" | "SUP" | "FONT" | "BR" => {
                if name == "BR" && open.iter().any(|x| x == "TD") {
                    rows.last_mut().unwrap().last_mut().unwrap().text.push('\n');
                }
            }
            "HR" | "VR" => (),
            _ => return Err(format!("<{name}> is not a tag of a label")),
        }
        if !closed {
            open.push(name);
        }
    }
    if !open.is_empty() {
        return Err(format!("<{}> is not closed", open[0]));
    }
    if tables == 0 || rows.is_empty() || rows.iter().any(|r| r.is_empty()) {
        return Err("a table without rows or a row without cells".into());
    }
    Ok(rows)
}

fn plain(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

struct Node {
    title: String,
    rows: Vec<(Vec<String>, Vec<String>)>,
    ports: HashSet<String>,
    attrs: Attrs,
}

/// Names under which a declaration may be shown
fn shown(s: &Schema, d: usize) -> Vec<String> {
    match s.decls[d].kind {
        Kind::Struct { .. } => vec![s.path(d), s.decls[d].name.clone()],
        _ => vec![s.path(d)],
    }
}

fn types(s: &Schema, t: &Ty) -> Vec<String> {
    match t {
        Ty::Sc(sc) => sc.names().iter().map(|x| x.to_string()).collect(),
        Ty::Str => vec!["string".into()],
        Ty::Vec(t) => types(s, t).into_iter().map(|x| format!("[{x}]")).collect(),
        t => shown(s, t.decl().unwrap()),
    }
}

fn mode_shown(s: &Schema, f: &Field, text: &str) -> bool {
    let Mode::Def(v) = &f.mode else {
        return text == if matches!(f.mode, Mode::Req) { "required" } else { "optional" };
    };
    let Some(t) = text.strip_prefix("default") else { return false };
    let t = t.strip_prefix(' ').unwrap_or(t);
    match (&f.ty, v) {
        (Ty::Enum(d), V::Int(i)) => s.evariants(*d).1.iter().any(|x| x.value == *i && x.name == t),
        (_, V::Bool(b)) => t == b.to_string(),
        (_, V::Int(i)) => t == i.to_string(),
        (_, V::F32(b)) => t.parse::<f32>().is_ok_and(|x| x.to_bits() == *b || x.is_nan() && v.f32().is_nan()),
        (_, V::F64(b)) => t.parse::<f64>().is_ok_and(|x| x.to_bits() == *b || x.is_nan() && v.f64().is_nan()),
        (_, V::Str(x)) => {
            let d = format!("{x:?}");
            let e: String = x.escape_debug().collect();
            if x.chars().any(|c| c.is_control() || ('\u{2000}'..='\u{206f}').contains(&c) || c >= '\u{fff0}' && c <= '\u{ffff}') {
                // There is more than one way to show these, so only the others have to be there
                let mut it = t.chars();
                return x.chars().filter(|c| c.is_ascii_graphic()).all(|c| it.any(|y| y == c));
            }
            [plain(x), plain(&d), plain(&d[1..d.len() - 1]), plain(&e), plain(&format!("\"{x}\"")), plain(&serde_json::to_string(x).unwrap())].contains(&plain(t))
        }
        (_, V::Vec(_)) => t == "[]",
        _ => false,
    }
}

/// Why the node is not the one of the declaration
fn content(s: &Schema, d: usize, n: &Node) -> Option<String> {
    let mut rows: Vec<&Vec<String>> = n.rows.iter().map(|r| &r.0).collect();
    // Removes the row that fits
    let mut take = |what: String, f: &dyn Fn(&Vec<String>) -> bool| -> Option<String> {
        match rows.iter().position(|r| f(r)) {
            Some(i) => {
                rows.remove(i);
                None
            }
            None => Some(format!("no row for {what} in {:?}", n.rows.iter().map(|r| &r.0).collect::<Vec<_>>())),
        }
    };
    let typed = |c: &str, ty: &Ty, size: usize| types(s, ty).iter().any(|t| c == format!("{t} ({size} bytes)"));
    match &s.decls[d].kind {
        Kind::Table { fields, .. } => {
            for f in fields {
                let size = match &f.ty {
                    Ty::Union(_) => 5,
                    t if t.is_union_vec() => 8,
                    Ty::Table(_) | Ty::Str | Ty::Vec(_) => 4,
                    t => s.size(t),
                };
                let slot = if f.ty.is_double() { format!("{} / {}", f.slot - 1, f.slot) } else { f.slot.to_string() };
                let e = take(format!("field {} slot {slot} {:?} {:?}", f.name, f.ty, f.mode), &|r| {
                    r.len() == 4 && r[0] == slot && r[1] == f.name && typed(&r[2], &f.ty, size) && mode_shown(s, f, &r[3])
                });
                // Outputs leave out deprecated fields
                if e.is_some() && !f.deprecated {
                    return e;
                }
            }
        }
        Kind::Struct { fields, size, align, .. } => {
            if let e @ Some(_) = take(format!("size {size} and alignment {align}"), &|r| r.len() == 1 && r[0] == format!("size={size}, alignment={align}")) {
                return e;
            }
            for (i, f) in fields.iter().enumerate() {
                let sz = s.size(&f.ty);
                let end = fields.get(i + 1).map(|x| x.offset).unwrap_or(*size);
                let pad = end - f.offset - sz;
                if let e @ Some(_) = take(format!("field {} at {} {:?}", f.name, f.offset, f.ty), &|r| r.len() == 3 && r[0] == f.offset.to_string() && r[1] == f.name && typed(&r[2], &f.ty, sz)) {
                    return e;
                }
                if pad > 0 {
                    if let e @ Some(_) = take(format!("{pad} bytes of padding"), &|r| r.len() == 1 && r[0] == format!("{pad} bytes of padding")) {
                        return e;
                    }
                }
            }
        }
        Kind::Enum { variants, .. } => {
            for v in variants {
                if let e @ Some(_) = take(format!("variant {} = {}", v.name, v.value), &|r| r.len() == 2 && r[0] == v.name && r[1] == v.value.to_string()) {
                    return e;
                }
            }
        }
        Kind::Union { variants } => {
            for (v, name) in variants.iter().zip(union_names(variants)) {
                if let e @ Some(_) = take(format!("variant {name}: {:?}", v.ty), &|r| r.len() == 2 && r[0] == name && types(s, &v.ty).contains(&r[1])) {
                    return e;
                }
            }
        }
    }
    if !rows.is_empty() {
        return Some(format!("unexpected row {:?}", rows[0]));
    }
    None
}

/// What is wrong with the output for the project
fn check(s: &Schema, out: &str, st: &mut Stats) -> Result<(), (String, String)> {
    let bad = |k: &str, m: String| Err((k.to_string(), m));
    let toks = match lex(out) {
        Ok(t) => t,
        Err(e) => return bad("syntax", format!("not a DOT file: {e}")),
    };
    let g = match (P { t: &toks, i: 0 }).graph() {
        Ok(g) => g,
        Err(e) => return bad("syntax", format!("not a DOT file: {e}")),
    };
    let mut nodes: BTreeMap<String, Node> = BTreeMap::new();
    for (n, attrs) in g.nodes {
        let rows = match attrs.get("label") {
            Some(T::Html(h)) => match label(h) {
                Ok(r) => r,
                Err(e) => return bad("label", format!("label of {n} is not well-formed: {e}")),
            },
            x => return bad("label", format!("label of {n} is {x:?}")),
        };
        let title = plain(&rows[0].iter().map(|c| c.text.as_str()).collect::<Vec<_>>().join(" "));
        let ports = rows.iter().flatten().filter_map(|c| c.port.clone()).collect();
        let rows = rows[1..].iter().map(|r| (r.iter().map(|c| plain(&c.text)).collect(), r.iter().filter_map(|c| c.port.clone()).collect())).collect();
        if nodes.insert(n.clone(), Node { title, rows, ports, attrs }).is_some() {
            return bad("nodes", format!("node {n} twice"));
        }
    }
    // Which node is which declaration
    let mut of: Vec<String> = vec![];
    let mut free: Vec<String> = nodes.keys().cloned().collect();
    for d in 0..s.decls.len() {
        let titles: Vec<String> = shown(s, d)
            .into_iter()
            .flat_map(|n| match &s.decls[d].kind {
                Kind::Table { .. } => vec![format!("table {n}")],
                Kind::Struct { .. } => vec![format!("struct {n}")],
                Kind::Union { .. } => vec![format!("union {n}")],
                Kind::Enum { sc, .. } => sc.names().iter().map(|t| format!("enum {n} : {t}")).collect(),
            })
            .collect();
        let cand: Vec<&String> = free.iter().filter(|n| titles.contains(&nodes[*n].title)).collect();
        let mut why = String::new();
        let mut found = None;
        for c in cand {
            match content(s, d, &nodes[c]) {
                None => {
                    found = Some(c.clone());
                    break;
                }
                Some(w) => why = w,
            }
        }
        match found {
            Some(n) => {
                free.retain(|x| *x != n);
                of.push(n);
            }
            None if why.is_empty() => return bad("missing", format!("no node for {}", titles[0])),
            None => return bad("content", format!("node for {}: {why}", titles[0])),
        }
    }
    if let Some(n) = free.first() {
        return bad("extra", format!("node {n} ({}) is no declaration", nodes[n].title));
    }
    // Edges
    let same = |a: &str, b: &str| {
        let (a, b) = (&nodes[a], &nodes[b]);
        a.title == b.title && a.attrs == b.attrs
    };
    let mut edges: Vec<(End, End)> = vec![];
    for (a, b, at) in g.edges {
        for (n, p) in [&a, &b] {
            let Some(node) = nodes.get(n) else { return bad("edge", format!("edge with {n}, which is no node")) };
            if let Some(p) = p {
                if !node.ports.contains(p) {
                    return bad("edge", format!("edge with port {p}, which {n} does not have"));
                }
            }
        }
        if let Some(T::Id(c) | T::Str(c)) = at.get("color") {
            if c.starts_with('#') && (c.len() != 7 && c.len() != 9 || !c[1..].chars().all(|x| x.is_ascii_hexdigit())) {
                return bad("edge", format!("color {c}"));
            }
        }
        edges.push((a, b));
    }
    let mut count = 0;
    for d in 0..s.decls.len() {
        let refs: Vec<(String, Option<usize>)> = match &s.decls[d].kind {
            Kind::Table { fields, .. } => fields.iter().filter(|f| !f.deprecated || nodes[&of[d]].rows.iter().any(|r| r.0.get(1) == Some(&f.name))).map(|f| (f.name.clone(), f.ty.decl())).collect(),
            Kind::Struct { fields, .. } => fields.iter().map(|f| (f.name.clone(), f.ty.decl())).collect(),
            Kind::Union { variants } => variants.iter().zip(union_names(variants)).map(|(v, n)| (n, v.ty.decl())).collect(),
            Kind::Enum { .. } => vec![],
        };
        let col = if matches!(s.decls[d].kind, Kind::Union { .. }) { 0 } else { 1 };
        for (name, to) in refs {
            let row = nodes[&of[d]].rows.iter().find(|r| r.0.len() > col && r.0[col] == name).unwrap();
            let here: Vec<usize> = (0..edges.len()).filter(|e| edges[*e].0 .0 == of[d] && edges[*e].0 .1.as_ref().is_some_and(|p| row.1.contains(p))).collect();
            match to {
                None if here.is_empty() => (),
                None => return bad("edge", format!("{}.{name} refers to no declaration but has an edge", s.path(d))),
                Some(t) => {
                    if here.len() != 1 {
                        return bad("edge", format!("{}.{name} has {} edges", s.path(d), here.len()));
                    }
                    let (to, port) = &edges[here[0]].1;
                    if !same(to, &of[t]) || port.as_deref().is_some_and(|p| p != "name") {
                        return bad("edge", format!("{}.{name} refers to {} but its edge goes to {} port {port:?}", s.path(d), s.path(t), nodes[to].title));
                    }
                    count += 1;
                }
            }
        }
    }
    if count != edges.len() {
        return bad("edge", format!("{} edges for {count} references", edges.len()));
    }
    st.add("nodes", nodes.len() as u64);
    st.add("rows", nodes.values().map(|n| n.rows.len() as u64).sum());
    st.add("edges", count as u64);
    Ok(())
}

const TEXTS: &[&str] = &[
    "<", ">", "a < b && c > d", "</TD></TR></TABLE>>", "&amp;", "&", "&lt;", "&#0;", "\"quoted\"", "'single'", "]]>", "<!-- x -->", "]; decl0 -> decl0", "\\N \\G", "\\", "line\nbreak", "tab\t", "\r\n", "é中😀", "\u{1}", "\0", "\u{7f}",
    "\u{200b}", "\u{202e}x", "\u{fffe}", "<B>x</B>", "<BR/>", "", " ", "default", "{}", "{{x}}", "%s", "-->", "--",
];

pub fn dots(ctx: &mut Ctx, mut r: Rng) -> Res {
    let mut cfg = Cfg::random(&mut r);
    if r.chance(1, 20) {
        cfg.decls = (40, 90);
    }
    let mut p = generate(&mut r, &cfg);
    for d in &mut p.s.decls {
        if let Kind::Table { fields, .. } = &mut d.kind {
            for f in fields {
                if f.ty == Ty::Str && r.chance(1, 2) {
                    let mut t = String::new();
                    for _ in 0..r.range(1, 3) {
                        t.push_str(*r.pick(TEXTS));
                    }
                    f.mode = Mode::Def(V::Str(t));
                    f.show_default = true;
                    ctx.st.add("string_defaults", 1);
                }
            }
        }
    }
    let w = render(&p, &opts(&mut r), None, &mut r);
    let dir = fresh_dir(ctx, "p");
    put_all(&dir, &p, &w);
    let (ds, err) = translate(ctx, &roots(&dir, &p), Default::default())?;
    let Some(ds) = ds else { viol!("rejected", "a valid schema is rejected: {}\n{}", cut(&err, 1500), show(&p, &w)) };
    let out = dot(&ds)?;
    if let Err((k, m)) = check(&p.s, &out, &mut ctx.st) {
        viol!(k, "{m}\n{}\n=== output\n{}", show(&p, &w), cut(&out, 3000));
    }
    if dot(&ds)? != out {
        viol!("deterministic", "two runs on the same declarations give different graphs\n{}", show(&p, &w));
    }
    let (again, _) = translate(ctx, &roots(&dir, &p), Default::default())?;
    if dot(&again.unwrap())? != out {
        viol!("deterministic", "two runs on the same files give different graphs\n{}", show(&p, &w));
    }
    ctx.st.add("graphs", 1);
    ctx.st.add("bytes", out.len() as u64);
    ctx.st.seen(&out);
    ctx.st.sample(|| out.clone());
    Ok(())
}
