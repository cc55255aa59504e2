//! Schema text
use crate::rng::Rng;
use crate::schema::*;
use crate::value::*;
use std::fmt::Write;

/// How a schema is written down
#[derive(Clone, Debug)]
pub struct Style {
    /// Random spelling, spacing, comments and order of declarations
    pub vary: bool,
}

pub fn render_int(v: i128, r: &mut Rng, st: &Style) -> String {
    if !st.vary {
        return v.to_string();
    }
    let m = v.unsigned_abs();
    let body = match r.below(4) {
        0 => format!("0x{m:x}"),
        1 => format!("0x{m:X}"),
        _ => m.to_string(),
    };
    let sign = if v < 0 { "-" } else if r.chance(1, 8) { "+" } else { "" };
    format!("{sign}{body}")
}

pub fn render_float(v: f64, single: bool, r: &mut Rng, st: &Style) -> String {
    if v.is_nan() {
        return "nan".into();
    }
    if v.is_infinite() {
        let s = if v < 0.0 { "-" } else { "" };
        let n = if st.vary { *r.pick(&["inf", "infinity"]) } else { "inf" };
        return format!("{s}{n}");
    }
    if single {
        format!("{:?}", v as f32)
    } else {
        format!("{v:?}")
    }
}

pub fn render_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Render<'a> {
    pub s: &'a Schema,
    pub st: Style,
    pub r: Rng,
}

impl Render<'_> {
    /// Name of a declaration as seen from a file
    pub fn tref(&mut self, d: usize, file: usize) -> String {
        let (from, to) = (self.s.files[file].ns.clone(), self.s.ns(d).to_vec());
        let name = self.s.decls[d].name.clone();
        if from == to && !(self.st.vary && self.r.chance(1, 3)) {
            return name;
        }
        let mut p = to;
        p.push(name);
        p.join(".")
    }
    pub fn ty(&mut self, ty: &Ty, file: usize) -> String {
        match ty {
            Ty::Sc(sc) => {
                let n = sc.names();
                if self.st.vary { self.r.pick(n).to_string() } else { n[0].to_string() }
            }
            Ty::Str => "string".into(),
            Ty::Vec(t) => format!("[{}]", self.ty(t, file)),
            Ty::Enum(d) | Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => self.tref(*d, file),
        }
    }
    pub fn default(&mut self, ty: &Ty, v: &V) -> String {
        match (ty, v) {
            (Ty::Enum(d), V::Int(i)) => {
                let (_, vs) = self.s.evariants(*d);
                if self.st.vary && self.r.chance(1, 3) {
                    render_int(*i, &mut self.r, &self.st)
                } else {
                    vs.iter().find(|x| x.value == *i).unwrap().name.clone()
                }
            }
            (_, V::Int(i)) => render_int(*i, &mut self.r, &self.st),
            (_, V::Bool(b)) => b.to_string(),
            (_, V::F32(_)) => render_float(v.f32() as f64, true, &mut self.r, &self.st),
            (_, V::F64(_)) => render_float(v.f64(), false, &mut self.r, &self.st),
            (_, V::Str(s)) => render_str(s),
            (_, V::Vec(_)) => "[]".into(),
            _ => panic!("no default literal for {v:?}"),
        }
    }
    fn docs(&self, o: &mut String, docs: &[String], ind: &str) {
        for d in docs {
            let _ = writeln!(o, "{ind}///{d}");
        }
    }
    fn noise(&mut self) -> &'static str {
        if !self.st.vary {
            return "\n";
        }
        *self.r.pick(&["\n", "\n\n", "\n// a comment\n", "\n", "\n"])
    }
    pub fn decl(&mut self, d: usize) -> String {
        let s = self.s;
        let decl = &s.decls[d];
        let file = decl.file;
        let mut o = String::new();
        self.docs(&mut o, &decl.docs, "");
        match &decl.kind {
            Kind::Table { fields, ids } => {
                let _ = write!(o, "table {} {{", decl.name);
                o.push_str(self.noise());
                for f in fields {
                    self.docs(&mut o, &f.docs, "  ");
                    let t = self.ty(&f.ty, file);
                    let _ = write!(o, "  {}: {t}", f.name);
                    match &f.mode {
                        Mode::Def(v) => {
                            let implicit = match (&f.ty, v) {
                                (Ty::Sc(_), V::Int(0)) | (Ty::Sc(_), V::Bool(false)) => true,
                                (Ty::Sc(_), V::F32(0)) | (Ty::Sc(_), V::F64(0)) => true,
                                (Ty::Enum(_), V::Int(0)) => true,
                                _ => false,
                            };
                            if !implicit || f.show_default {
                                let l = self.default(&f.ty, v);
                                let _ = write!(o, " = {l}");
                            }
                        }
                        Mode::Opt => {
                            let plain = matches!(f.ty, Ty::Sc(_) | Ty::Enum(_));
                            if plain || (f.show_default && self.st.vary) {
                                o.push_str(" = null");
                            }
                        }
                        Mode::Req => (),
                    }
                    let mut attrs = vec![];
                    if *ids {
                        attrs.push(format!("id: {}", f.slot));
                    }
                    if f.force_align != 0 {
                        attrs.push(format!("force_align: {}", f.force_align));
                    }
                    if f.deprecated {
                        attrs.push("deprecated".into());
                    }
                    if f.mode == Mode::Req {
                        attrs.push("required".into());
                    }
                    if self.st.vary {
                        self.r.shuffle(&mut attrs);
                    }
                    if !attrs.is_empty() {
                        let _ = write!(o, " ({})", attrs.join(", "));
                    }
                    o.push(';');
                    o.push_str(self.noise());
                }
                o.push_str("}\n");
            }
            Kind::Struct { fields, force_align, .. } => {
                let _ = write!(o, "struct {}", decl.name);
                if let Some(a) = force_align {
                    let _ = write!(o, " (force_align: {a})");
                }
                o.push_str(" {");
                o.push_str(self.noise());
                for f in fields {
                    self.docs(&mut o, &f.docs, "  ");
                    let t = self.ty(&f.ty, file);
                    let _ = write!(o, "  {}: {t};", f.name);
                    o.push_str(self.noise());
                }
                o.push_str("}\n");
            }
            Kind::Enum { sc, variants } => {
                let t = self.ty(&Ty::Sc(*sc), file);
                let _ = write!(o, "enum {}: {t} {{", decl.name);
                o.push_str(self.noise());
                for v in variants {
                    self.docs(&mut o, &v.docs, "  ");
                    let _ = write!(o, "  {}", v.name);
                    if v.explicit {
                        let l = render_int(v.value, &mut self.r, &self.st);
                        let _ = write!(o, " = {l}");
                    }
                    o.push(',');
                    o.push_str(self.noise());
                }
                o.push_str("}\n");
            }
            Kind::Union { variants } => {
                let _ = write!(o, "union {} {{", decl.name);
                o.push_str(self.noise());
                for v in variants {
                    self.docs(&mut o, &v.docs, "  ");
                    let t = self.ty(&v.ty, file);
                    if v.named {
                        let _ = write!(o, "  {}: {t},", v.name);
                    } else {
                        let _ = write!(o, "  {t},");
                    }
                    o.push_str(self.noise());
                }
                o.push_str("}\n");
            }
        }
        o
    }
    pub fn file(&mut self, f: usize) -> String {
        let s = self.s;
        let mut o = String::new();
        for i in &s.files[f].includes {
            let _ = writeln!(o, "include \"{}\";", s.files[*i].path);
        }
        if !s.files[f].ns.is_empty() {
            let _ = writeln!(o, "namespace {};", s.files[f].ns.join("."));
        }
        let mut ds: Vec<usize> = (0..s.decls.len()).filter(|d| s.decls[*d].file == f).collect();
        if self.st.vary {
            self.r.shuffle(&mut ds);
        }
        for d in ds {
            let t = self.decl(d);
            o.push_str(&t);
            o.push_str(self.noise());
        }
        o
    }
}

/// All files as (path, text)
pub fn render(s: &Schema, st: Style, r: Rng) -> Vec<(String, String)> {
    let mut x = Render { s, st, r };
    (0..s.files.len()).map(|f| (s.files[f].path.clone(), x.file(f))).collect()
}
