//! Schema text as a sequence of tokens, so that spacing, comments and faults can be placed anywhere.
use crate::rng::Rng;
use crate::schema::*;
use crate::text::render_float;
use crate::value::*;

#[derive(Clone, Debug, Default)]
pub struct Tok {
    pub t: String,
    /// Outer documentation lines in front of the token
    pub docs: Vec<String>,
    /// Inner documentation lines (first token of a file)
    pub inner: Vec<String>,
    /// What the token belongs to: "d3", "d3.f2", "d3.f2.type", "inc0", "ns", ...
    pub mark: String,
    /// The token starts a declaration or member
    pub first: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    /// Random spelling of literals and names
    pub vary: bool,
    pub shuffle: bool,
    /// Extra top level declarations that have no effect
    pub extras: bool,
}

pub struct Toks<'a> {
    pub s: &'a Schema,
    pub o: Opts,
    pub r: Rng,
    pub out: Vec<Tok>,
    pub mark: String,
    docs: Vec<String>,
    first: bool,
}

/// Files that can be reached by includes, itself included
pub fn reach(s: &Schema, f: usize) -> Vec<bool> {
    let mut seen = vec![false; s.files.len()];
    let mut todo = vec![f];
    while let Some(x) = todo.pop() {
        if !std::mem::replace(&mut seen[x], true) {
            todo.extend(s.files[x].includes.iter().copied());
        }
    }
    seen
}

/// The declaration that a name written in a file denotes
pub fn resolve(s: &Schema, file: usize, parts: &[String]) -> Option<usize> {
    let seen = reach(s, file);
    let ns = &s.files[file].ns;
    for n in (0..=ns.len()).rev() {
        let mut p = ns[..n].to_vec();
        p.extend(parts.iter().cloned());
        for (i, d) in s.decls.iter().enumerate() {
            if d.name == *p.last().unwrap() && s.files[d.file].ns == p[..p.len() - 1] && seen[d.file] {
                return Some(i);
            }
        }
    }
    None
}

pub const BUILTIN: &[&str] = &[
    "bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "int8", "uint8", "int16",
    "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string",
];

/// All ways to write a reference to d in a file
pub fn spellings(s: &Schema, file: usize, d: usize) -> Vec<Vec<String>> {
    let mut p = s.ns(d).to_vec();
    p.push(s.decls[d].name.clone());
    (0..p.len())
        .map(|i| p[i..].to_vec())
        .filter(|x| resolve(s, file, x) == Some(d) && !(x.len() == 1 && BUILTIN.contains(&x[0].as_str())))
        .collect()
}

pub fn include_path(from: &str, to: &str, vary: bool, r: &mut Rng) -> String {
    let fd: Vec<&str> = from.split('/').collect();
    let fd = &fd[..fd.len() - 1];
    let td: Vec<&str> = to.split('/').collect();
    let mut common = 0;
    while common < fd.len() && common + 1 < td.len() && fd[common] == td[common] {
        common += 1;
    }
    let mut parts: Vec<String> = vec!["..".to_string(); fd.len() - common];
    parts.extend(td[common..].iter().map(|x| x.to_string()));
    if vary {
        match r.below(6) {
            0 => parts.insert(0, ".".into()),
            1 => {
                parts.insert(0, "..".into());
                parts.insert(0, "nowhere".into());
            }
            2 if parts.len() > 1 => parts.insert(1, ".".into()),
            _ => (),
        }
    }
    parts.join("/")
}

pub fn int_text(v: i128, vary: bool, r: &mut Rng) -> Vec<String> {
    if !vary {
        return if v < 0 { vec!["-".into(), v.unsigned_abs().to_string()] } else { vec![v.to_string()] };
    }
    let m = v.unsigned_abs();
    let digits = match r.below(5) {
        0 => format!("{m:x}"),
        1 => format!("{m:X}"),
        2 => format!("{:0w$}", m, w = r.range(1, 8)),
        _ => m.to_string(),
    };
    let hex = false;
    let _ = hex;
    let is_hex = digits.bytes().any(|c| c.is_ascii_alphabetic()) || digits != m.to_string() && digits.trim_start_matches('0') != m.to_string();
    // The first two forms are hexadecimal even if they only have decimal digits
    let mut body = digits.clone();
    let ambiguous = !is_hex && u128::from_str_radix(&digits, 16) == Ok(m) && digits.parse::<u128>() != Ok(m);
    let use_hex = is_hex || ambiguous;
    if r.chance(1, 3) {
        let mut x = String::new();
        for (i, c) in body.chars().enumerate() {
            if (i > 0 || use_hex) && r.chance(1, 3) {
                x.push('_');
            }
            x.push(c);
        }
        if r.chance(1, 4) {
            x.push('_');
        }
        body = x;
    }
    let body = if use_hex { format!("0x{body}") } else { body };
    let mut out = vec![];
    let neg = v < 0 || (m == 0 && r.chance(1, 6));
    if neg {
        out.push("-".to_string());
        if r.chance(1, 10) {
            out.push("+".into());
        }
    } else if r.chance(1, 8) {
        out.push("+".into());
    } else if r.chance(1, 20) {
        out.push("-".into());
        out.push("-".into());
    }
    out.push(body);
    out
}

pub fn float_text(v: f64, single: bool, vary: bool, r: &mut Rng) -> Vec<String> {
    let t = render_float(v.abs(), single, r, &crate::text::Style { vary });
    let mut out = vec![];
    if v.is_sign_negative() {
        out.push("-".into());
    } else if vary && r.chance(1, 8) {
        out.push("+".into());
    }
    let t = if vary && t.ends_with(".0") {
        let int = &t[..t.len() - 2];
        match r.below(4) {
            0 => int.to_string(),
            1 => format!("{int}."),
            2 if t.starts_with('0') => ".0".to_string(),
            _ => t,
        }
    } else if vary && t.starts_with("0.") && r.chance(1, 3) {
        t[1..].to_string()
    } else {
        t
    };
    // Rust writes 1e16 for large numbers, which is a float literal as well
    out.push(t);
    out
}

pub fn str_text(s: &str, vary: bool, r: &mut Rng) -> String {
    let q = if vary && r.chance(1, 3) { '\'' } else { '"' };
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        let escaped = match c {
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\\' => Some("\\\\"),
            '"' => Some("\\\""),
            '\'' => Some("\\'"),
            '/' => Some("\\/"),
            _ => None,
        };
        let must = c == q || c == '\\';
        let code = c as u32;
        if vary && code < 0x80 && r.chance(1, 8) {
            o.push_str(&format!("\\x{code:02x}"));
        } else if vary && code < 0x10000 && r.chance(1, 8) {
            o.push_str(&format!("\\u{code:04X}"));
        } else if let (Some(e), true) = (escaped, must || !vary && c < ' ' || vary && r.chance(1, 2)) {
            o.push_str(e);
        } else {
            o.push(c);
        }
    }
    o.push(q);
    o
}

impl<'a> Toks<'a> {
    pub fn new(s: &'a Schema, o: Opts, r: Rng) -> Self {
        Toks { s, o, r, out: vec![], mark: String::new(), docs: vec![], first: false }
    }
    pub fn put(&mut self, t: &str) {
        let t = Tok {
            t: t.to_string(),
            docs: std::mem::take(&mut self.docs),
            inner: vec![],
            mark: self.mark.clone(),
            first: std::mem::replace(&mut self.first, false),
        };
        self.out.push(t);
    }
    pub fn puts(&mut self, ts: &[&str]) {
        for t in ts {
            self.put(t);
        }
    }
    fn start(&mut self, docs: &[String]) {
        self.docs = docs.to_vec();
        self.first = true;
    }
    fn marked(&mut self, m: String, f: impl FnOnce(&mut Self)) {
        let old = std::mem::replace(&mut self.mark, m);
        f(self);
        self.mark = old;
    }
    pub fn path(&mut self, p: &[String]) {
        for (i, x) in p.iter().enumerate() {
            if i > 0 {
                self.put(".");
            }
            self.put(x);
        }
    }
    pub fn ty(&mut self, ty: &Ty, file: usize) {
        match ty {
            Ty::Sc(sc) => {
                let n = sc.names();
                let n = if self.o.vary { *self.r.pick(n) } else { n[0] };
                self.put(n);
            }
            Ty::Str => self.put("string"),
            Ty::Vec(t) => {
                self.put("[");
                self.ty(t, file);
                self.put("]");
            }
            Ty::Enum(d) | Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => {
                let sp = spellings(self.s, file, *d);
                assert!(!sp.is_empty(), "{} cannot be named in file {}", self.s.path(*d), file);
                let p = if self.o.vary { self.r.pick(&sp).clone() } else { sp.last().unwrap().clone() };
                self.path(&p);
            }
        }
    }
    pub fn default(&mut self, ty: &Ty, v: &V) {
        let vary = self.o.vary;
        match (ty, v) {
            (Ty::Enum(d), V::Int(i)) => {
                let (_, vs) = self.s.evariants(*d);
                if vary && self.r.chance(1, 3) {
                    for t in int_text(*i, true, &mut self.r) {
                        self.put(&t);
                    }
                } else {
                    let n = vs.iter().find(|x| x.value == *i).unwrap().name.clone();
                    // These words are literals
                    if ["inf", "infinity", "nan", "NaN", "true", "false", "null"].contains(&n.as_str()) {
                        for t in int_text(*i, vary, &mut self.r) {
                            self.put(&t);
                        }
                    } else {
                        self.put(&n);
                    }
                }
            }
            (_, V::Int(i)) => {
                for t in int_text(*i, vary, &mut self.r) {
                    self.put(&t);
                }
            }
            (_, V::Bool(b)) => self.put(if *b { "true" } else { "false" }),
            (_, V::F32(_)) => {
                for t in float_text(v.f32() as f64, true, vary, &mut self.r) {
                    self.put(&t);
                }
            }
            (_, V::F64(_)) => {
                for t in float_text(v.f64(), false, vary, &mut self.r) {
                    self.put(&t);
                }
            }
            (_, V::Str(s)) => {
                let t = str_text(s, vary, &mut self.r);
                self.put(&t);
            }
            (_, V::Vec(_)) => self.puts(&["[", "]"]),
            _ => panic!("no default literal for {v:?}"),
        }
    }
    pub fn decl(&mut self, d: usize) {
        let s = self.s;
        let decl = &s.decls[d];
        let file = decl.file;
        self.start(&decl.docs);
        self.mark = format!("d{d}");
        match &decl.kind {
            Kind::Table { fields, ids } => {
                self.puts(&["table", &decl.name, "{"]);
                // With ids the order in the file does not matter for the slots
                for (i, f) in fields.iter().enumerate() {
                    self.start(&f.docs);
                    self.mark = format!("d{d}.f{i}");
                    let m = self.mark.clone();
                    self.puts(&[&f.name, ":"]);
                    self.marked(format!("{m}.type"), |x| x.ty(&f.ty, file));
                    match &f.mode {
                        Mode::Def(v) => {
                            let implicit = match (&f.ty, v) {
                                (Ty::Sc(_), V::Int(0)) | (Ty::Sc(_), V::Bool(false)) => true,
                                (Ty::Sc(_), V::F32(0)) | (Ty::Sc(_), V::F64(0)) => true,
                                (Ty::Enum(_), V::Int(0)) => true,
                                _ => false,
                            };
                            if !implicit || f.show_default {
                                self.put("=");
                                self.marked(format!("{m}.default"), |x| x.default(&f.ty, v));
                            }
                        }
                        Mode::Opt => {
                            let plain = matches!(f.ty, Ty::Sc(_) | Ty::Enum(_));
                            if plain || (f.show_default && self.o.vary) {
                                self.put("=");
                                self.marked(format!("{m}.default"), |x| x.put("null"));
                            }
                        }
                        Mode::Req => (),
                    }
                    let mut attrs: Vec<Vec<String>> = vec![];
                    if *ids {
                        let mut a = vec!["id".to_string(), ":".into()];
                        a.extend(int_text(f.slot as i128, self.o.vary, &mut self.r));
                        attrs.push(a);
                    }
                    if f.force_align != 0 {
                        let mut a = vec!["force_align".to_string(), ":".into()];
                        a.extend(int_text(f.force_align as i128, self.o.vary, &mut self.r));
                        attrs.push(a);
                    }
                    if f.deprecated {
                        attrs.push(vec!["deprecated".into()]);
                    }
                    if f.mode == Mode::Req {
                        attrs.push(vec!["required".into()]);
                    }
                    if self.o.vary {
                        self.r.shuffle(&mut attrs);
                    }
                    if !attrs.is_empty() || (self.o.vary && self.r.chance(1, 20)) {
                        self.put("(");
                        let n = attrs.len();
                        for (j, a) in attrs.into_iter().enumerate() {
                            self.mark = format!("{m}.attr.{}", a[0]);
                            for t in &a {
                                self.put(t);
                            }
                            if j + 1 < n || (self.o.vary && self.r.chance(1, 6)) {
                                self.put(",");
                            }
                        }
                        self.mark = m.clone();
                        self.put(")");
                    }
                    self.put(";");
                }
                self.mark = format!("d{d}.end");
                self.put("}");
            }
            Kind::Struct { fields, force_align, .. } => {
                self.puts(&["struct", &decl.name]);
                if let Some(a) = force_align {
                    self.marked(format!("d{d}.attr"), |x| {
                        x.puts(&["(", "force_align", ":"]);
                        for t in int_text(*a as i128, x.o.vary, &mut x.r) {
                            x.put(&t);
                        }
                        x.put(")");
                    });
                }
                self.put("{");
                for (i, f) in fields.iter().enumerate() {
                    self.start(&f.docs);
                    self.mark = format!("d{d}.f{i}");
                    self.puts(&[&f.name, ":"]);
                    self.marked(format!("d{d}.f{i}.type"), |x| x.ty(&f.ty, file));
                    self.put(";");
                }
                self.mark = format!("d{d}.end");
                self.put("}");
            }
            Kind::Enum { sc, variants } => {
                self.puts(&["enum", &decl.name, ":"]);
                self.marked(format!("d{d}.type"), |x| x.ty(&Ty::Sc(*sc), file));
                self.put("{");
                let n = variants.len();
                for (i, v) in variants.iter().enumerate() {
                    self.start(&v.docs);
                    self.mark = format!("d{d}.f{i}");
                    self.put(&v.name);
                    if v.explicit {
                        self.put("=");
                        self.marked(format!("d{d}.f{i}.default"), |x| {
                            for t in int_text(v.value, x.o.vary, &mut x.r) {
                                x.put(&t);
                            }
                        });
                    }
                    if i + 1 < n || !self.o.vary || self.r.chance(1, 2) {
                        self.put(",");
                    }
                }
                self.mark = format!("d{d}.end");
                self.put("}");
            }
            Kind::Union { variants } => {
                self.puts(&["union", &decl.name, "{"]);
                let n = variants.len();
                for (i, v) in variants.iter().enumerate() {
                    self.start(&v.docs);
                    self.mark = format!("d{d}.f{i}");
                    if v.named {
                        self.puts(&[&v.name, ":"]);
                        self.marked(format!("d{d}.f{i}.type"), |x| x.ty(&v.ty, file));
                    } else {
                        // The spelling decides the name, so it is stored in the model
                        let p: Vec<String> = v.name.split('.').map(|x| x.to_string()).collect();
                        self.marked(format!("d{d}.f{i}.type"), |x| x.path(&p));
                    }
                    if i + 1 < n || !self.o.vary || self.r.chance(1, 2) {
                        self.put(",");
                    }
                }
                self.mark = format!("d{d}.end");
                self.put("}");
            }
        }
        self.mark.clear();
    }
    pub fn file(&mut self, f: usize, inner: &[String], order: &[usize]) {
        let s = self.s;
        let begin = self.out.len();
        for (n, i) in s.files[f].includes.iter().enumerate() {
            self.start(&[]);
            self.mark = format!("inc{n}");
            let vary = self.o.vary;
            let p = include_path(&s.files[f].path, &s.files[*i].path, vary, &mut self.r);
            let t = str_text(&p, vary && self.r.chance(1, 3), &mut self.r);
            self.puts(&["include", &t, ";"]);
        }
        if !s.files[f].ns.is_empty() {
            self.start(&[]);
            self.mark = "ns".into();
            self.put("namespace");
            self.path(&s.files[f].ns);
            self.put(";");
        }
        self.mark.clear();
        let mut extras = vec![];
        if self.o.extras {
            if self.r.chance(1, 3) {
                extras.push(0);
            }
            if self.r.chance(1, 3) {
                extras.push(1);
            }
            if self.r.chance(1, 3) {
                extras.push(2);
            }
        }
        for &d in order {
            while !extras.is_empty() && self.r.chance(1, 3) {
                let e = extras.pop().unwrap();
                self.extra(e, f);
            }
            self.decl(d);
        }
        for e in extras {
            self.extra(e, f);
        }
        self.mark = "end".into();
        if self.out.len() > begin {
            self.out[begin].inner = inner.to_vec();
        }
    }
    fn extra(&mut self, e: usize, f: usize) {
        self.start(&[]);
        match e {
            0 => self.puts(&["file_identifier", "\"AB12\"", ";"]),
            1 => self.puts(&["file_extension", "\"bin\"", ";"]),
            _ => {
                let t = (0..self.s.decls.len()).find(|d| {
                    matches!(self.s.decls[*d].kind, Kind::Table { .. }) && !spellings(self.s, f, *d).is_empty()
                });
                if let Some(t) = t {
                    self.put("root_type");
                    self.ty(&Ty::Table(t), f);
                    self.put(";");
                } else {
                    self.first = false;
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub vary: bool,
    pub crlf: bool,
    /// Chance in 100 of a plain comment between two tokens
    pub comments: usize,
}

impl Layout {
    pub fn plain() -> Self {
        Layout { vary: false, crlf: false, comments: 0 }
    }
    pub fn random(r: &mut Rng) -> Self {
        Layout { vary: r.chance(3, 4), crlf: r.chance(1, 6), comments: *r.pick(&[0, 0, 2, 10, 30]) }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Src {
    pub text: String,
    /// Line of each token, from 1
    pub lines: Vec<usize>,
    /// Comments in order, as kind and content
    pub comments: Vec<(String, String)>,
    /// Text offsets of the tokens
    pub spans: Vec<(usize, usize)>,
}

pub fn comment_text(r: &mut Rng) -> String {
    let words = [
        "", " a comment", "TODO: fix", " include \"x.fbs\";", " table X { a: int; }", " é😀 ü", "-----", " \"unbalanced", " 'q", " }", " {{", " // nested", " trailing  space",
        "\ttab", " /* block */", " \\n", " ;;", "* star", " %s {0}", " <b>&amp;</b>",
    ];
    r.pick(&words).to_string()
}

fn glue(a: &str, b: &str) -> bool {
    let w = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.';
    match (a.chars().next_back(), b.chars().next()) {
        (Some(x), Some(y)) => w(x) && w(y),
        _ => false,
    }
}

pub fn lay(toks: &[Tok], l: &Layout, r: &mut Rng) -> Src {
    let nl = if l.crlf { "\r\n" } else { "\n" };
    let mut o = Src::default();
    let mut t = String::new();
    let mut line = 1;
    // Something was written on this line
    let mut dirty = false;
    let mut depth = 0usize;
    macro_rules! newline {
        () => {{
            t.push_str(nl);
            line += 1;
            dirty = false;
        }};
    }
    macro_rules! comment {
        ($kind:expr, $text:expr) => {{
            t.push_str($kind);
            t.push_str($text);
            o.comments.push(($kind.to_string(), $text.to_string()));
            newline!();
        }};
    }
    for (i, k) in toks.iter().enumerate() {
        let prev = if i > 0 { toks[i - 1].t.as_str() } else { "" };
        // Plain comments, first possibly behind the previous token
        if r.below(100) < l.comments {
            if dirty && r.chance(1, 2) {
                if r.chance(1, 2) {
                    t.push(' ');
                }
                let c = comment_text(r);
                comment!("//", &c);
            }
            if dirty {
                newline!();
            }
            for _ in 0..r.below(3) {
                for _ in 0..r.below(3) {
                    newline!();
                }
                let c = comment_text(r);
                t.push_str(*r.pick(&["", "  ", "\t"]));
                comment!("//", &c);
            }
        }
        for d in &k.inner {
            if dirty {
                newline!();
            }
            comment!("//!", d);
        }
        if !k.docs.is_empty() {
            if dirty {
                newline!();
            }
            for d in &k.docs {
                if l.vary {
                    t.push_str(*r.pick(&["", "  ", "\t", "    "]));
                    if r.below(100) < l.comments {
                        let c = comment_text(r);
                        comment!("//", &c);
                    }
                    if r.chance(1, 10) {
                        newline!();
                    }
                } else if depth > 0 {
                    t.push_str("  ");
                }
                comment!("///", d);
            }
        }
        if l.vary {
            match r.below(12) {
                0 if dirty => newline!(),
                1 if dirty => {
                    for _ in 0..r.range(1, 3) {
                        newline!();
                    }
                }
                2 => t.push_str(*r.pick(&[" ", "  ", "\t", " \t ", "\u{c}"])),
                3 | 4 if k.first && dirty => newline!(),
                _ => (),
            }
            if dirty && glue(prev, &k.t) && !t.ends_with([' ', '\t', '\u{c}']) {
                t.push(' ');
            }
        } else {
            if k.first && dirty || (k.t == "}" && dirty) {
                newline!();
            }
            if k.first && depth == 0 && i > 0 && k.docs.is_empty() {
                newline!();
            }
            if !dirty && depth > 0 && k.t != "}" {
                t.push_str("  ");
            }
            if dirty && ![";", ",", ":", ".", ")", "]"].contains(&k.t.as_str()) && ![".", "(", "[", "-", "+"].contains(&prev) {
                t.push(' ');
            }
        }
        let start = t.len();
        o.lines.push(line);
        t.push_str(&k.t);
        // String literals may contain line breaks
        line += k.t.matches('\n').count();
        o.spans.push((start, t.len()));
        dirty = true;
        match k.t.as_str() {
            "{" => depth += 1,
            "}" => depth = depth.saturating_sub(1),
            _ => (),
        }
    }
    if l.vary {
        match r.below(4) {
            0 => (),
            1 => newline!(),
            2 => {
                newline!();
                newline!();
                newline!();
            }
            _ => t.push_str("  "),
        }
        if r.below(100) < l.comments {
            if dirty {
                newline!();
            }
            let c = comment_text(r);
            t.push_str("//");
            t.push_str(&c);
            o.comments.push(("//".into(), c));
            if r.chance(1, 2) {
                t.push_str(nl);
            }
        }
    } else {
        newline!();
    }
    let _ = (line, dirty);
    o.text = t;
    o
}
