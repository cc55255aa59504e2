//! Adapters between the generated code and the value model. Only the public interface of the
//! generated code is used.
use fbm::*;
use std::fmt::Write;

pub struct A<'a> {
    pub s: &'a Schema,
    pub r: Rng,
    pub o: String,
}

const NSTYLES: usize = 7;

impl A<'_> {
    /// Path of a generated type
    fn p(&self, d: usize, suffix: &str) -> String {
        let mut p = String::from("g::");
        for n in self.s.ns(d) {
            p += n;
            p += "::";
        }
        p + &self.s.decls[d].name + suffix
    }
    fn owned(&self, ty: &Ty) -> String {
        match ty {
            Ty::Sc(sc) => sc.rust().into(),
            Ty::Str => "String".into(),
            Ty::Vec(t) => format!("Vec<{}>", self.owned(t)),
            Ty::Enum(d) | Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => self.p(*d, ""),
        }
    }
    /// Element type of vectors on the wire
    fn wire(&self, ty: &Ty) -> String {
        match ty {
            Ty::Str => "planus::Offset<str>".into(),
            Ty::Table(d) => format!("planus::Offset<{}>", self.p(*d, "")),
            _ => self.owned(ty),
        }
    }
    /// Owned value from `x: &V`
    fn mk(&self, ty: &Ty, x: &str) -> String {
        match ty {
            Ty::Sc(Sc::Bool) => format!("{x}.bool()"),
            Ty::Sc(Sc::F32) => format!("{x}.f32()"),
            Ty::Sc(Sc::F64) => format!("{x}.f64()"),
            Ty::Sc(sc) => format!("({x}.int() as {})", sc.rust()),
            Ty::Str => format!("{x}.str().to_string()"),
            Ty::Vec(t) => {
                let e = self.mk(t, "x");
                let o = self.owned(t);
                format!("roomy({x}.items().iter().map(|x| {e}).collect::<Vec<{o}>>())")
            }
            Ty::Enum(d) | Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => {
                format!("mk_{d}({x})")
            }
        }
    }
    /// V from a reference `x: &Owned`
    fn un(&self, ty: &Ty, x: &str) -> String {
        match ty {
            Ty::Sc(Sc::Bool) => format!("V::Bool(*{x})"),
            Ty::Sc(Sc::F32) => format!("V::F32({x}.to_bits())"),
            Ty::Sc(Sc::F64) => format!("V::F64({x}.to_bits())"),
            Ty::Sc(_) => format!("V::Int(*{x} as i128)"),
            Ty::Str => format!("V::Str({x}.to_string())"),
            Ty::Vec(t) => format!("V::Vec({x}.iter().map(|x| {}).collect())", self.un(t, "x")),
            Ty::Enum(d) => format!("un_{d}(*{x})"),
            Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => format!("un_{d}({x})"),
        }
    }
    /// V from what a getter returns
    fn rd(&self, ty: &Ty, x: &str) -> String {
        match ty {
            Ty::Sc(Sc::Bool) => format!("V::Bool({x})"),
            Ty::Sc(Sc::F32) => format!("V::F32({x}.to_bits())"),
            Ty::Sc(Sc::F64) => format!("V::F64({x}.to_bits())"),
            Ty::Sc(_) => format!("V::Int({x} as i128)"),
            Ty::Str => format!("c.string({x})"),
            Ty::Vec(t) => match &**t {
                Ty::Sc(Sc::U8) | Ty::Sc(Sc::I8) => format!("c.bytes({x})"),
                Ty::Union(_) => {
                    let e = self.rd(t, "x");
                    format!("rd_uvec({x}, c, |x, c| match x {{ Ok(x) => {e}, Err(e) => ek(&e) }})")
                }
                _ => format!("rd_vec({x}, c, |x, c| {})", self.rd_elem(t)),
            },
            Ty::Enum(d) => format!("un_{d}({x})"),
            Ty::Struct(d) | Ty::Table(d) | Ty::Union(d) => format!("rd_{d}({x}, c)"),
        }
    }
    fn rd_elem(&self, t: &Ty) -> String {
        let e = self.rd(t, "x");
        match t {
            Ty::Enum(_) => format!("match x {{ Ok(x) => {e}, Err(e) => eke(&e) }}"),
            Ty::Str | Ty::Table(_) | Ty::Union(_) => format!("match x {{ Ok(x) => {e}, Err(e) => ek(&e) }}"),
            _ => e,
        }
    }
    fn boxed(ty: &Ty, e: String) -> String {
        if matches!(ty, Ty::Table(_)) {
            format!("Box::new({e})")
        } else {
            e
        }
    }
    fn has_default(&self, d: usize) -> bool {
        // A required cycle has no finite default
        fn go(s: &Schema, d: usize) -> bool {
            match &s.decls[d].kind {
                Kind::Struct { fields, .. } => fields.iter().all(|f| match &f.ty {
                    Ty::Enum(_) => false,
                    Ty::Struct(d) => go(s, *d),
                    _ => true,
                }),
                Kind::Table { fields, .. } => {
                    s.ok(d)
                        && fields.iter().all(|f| {
                            f.mode != Mode::Req
                                || match &f.ty {
                                    Ty::Struct(d) | Ty::Table(d) => go(s, *d),
                                    Ty::Union(_) => false,
                                    _ => true,
                                }
                        })
                }
                _ => false,
            }
        }
        go(self.s, d)
    }
    fn eq_able(&self, d: usize, seen: &mut Vec<usize>) -> bool {
        if seen.contains(&d) {
            return true;
        }
        seen.push(d);
        let tys: Vec<Ty> = match &self.s.decls[d].kind {
            Kind::Struct { fields, .. } => fields.iter().map(|f| f.ty.clone()).collect(),
            Kind::Table { fields, .. } => {
                fields.iter().map(|f| f.ty.clone()).collect() // also the deprecated ones
            }
            Kind::Union { variants } => variants.iter().map(|f| f.ty.clone()).collect(),
            Kind::Enum { .. } => vec![],
        };
        tys.iter().all(|t| {
            let mut t = t;
            while let Ty::Vec(e) = t {
                t = e;
            }
            match t {
                Ty::Sc(sc) => !matches!(sc, Sc::F32 | Sc::F64),
                t => t.decl().is_none_or(|d| self.eq_able(d, seen)),
            }
        })
    }

    /// Structs without an enum anywhere inside: their references can be compared
    fn plain_struct(&self, d: usize) -> bool {
        self.s.sfields(d).iter().all(|f| match &f.ty {
            Ty::Enum(_) => false,
            Ty::Struct(d) => self.plain_struct(*d),
            _ => true,
        })
    }

    pub fn all(&mut self) {
        for d in 0..self.s.decls.len() {
            match self.s.decls[d].kind {
                Kind::Enum { .. } => self.enumeration(d),
                Kind::Struct { .. } => self.strukt(d),
                Kind::Union { .. } => self.union(d),
                Kind::Table { .. } => self.table(d),
            }
        }
        self.o += "pub fn tables() -> Vec<TableApi> { vec![\n";
        for d in self.s.tables() {
            if !self.s.ok(d) {
                continue;
            }
            let t = self.p(d, "");
            let tr = self.p(d, "Ref");
            let def = if self.has_default(d) { format!("Some(|| un_{d}(&{t}::default()))") } else { "None".into() };
            let eq = self.eq_able(d, &mut vec![]);
            let ops = if eq { "ops_eq" } else { "ops_partial" };
            let _ = writeln!(
                self.o,
                "TableApi {{ decl: {d}, eq: {eq}, create: |b, v, st| {{ cr_{d}(b, v, st); }},
                 finish: |b, v, st, id| {{ if st.rng.chance(1, 3) {{ let t = mk_{d}(v); if st.rng.chance(1, 2) {{ b.finish(&t, id).len() }} else {{ b.finish(t, id).len() }} }} else {{ let o = cr_{d}(b, v, st); b.finish(o, id).len() }} }},
                 read: |x, c| match <{tr}<'_> as planus::ReadAsRoot>::read_as_root(x) {{ Ok(x) => rd_{d}(x, c), Err(e) => ek(&e) }},
                 owned: |x| match <{tr}<'_> as planus::ReadAsRoot>::read_as_root(x) {{ Ok(x) => match {t}::try_from(x) {{ Ok(t) => un_{d}(&t), Err(e) => ek(&e) }}, Err(e) => ek(&e) }},
                 debug: |x| match <{tr}<'_> as planus::ReadAsRoot>::read_as_root(x) {{ Ok(x) => format!(\"{{x:?}}\"), Err(e) => format!(\"{{:?}}\", e.error_kind) }},
                 error_text: |x| match <{tr}<'_> as planus::ReadAsRoot>::read_as_root(x) {{ Ok(x) => match {t}::try_from(x) {{ Ok(_) => None, Err(e) => Some(e.to_string()) }}, Err(e) => Some(e.to_string()) }},
                 vectors: |x, v, c| if let Ok(x) = <{tr}<'_> as planus::ReadAsRoot>::read_as_root(x) {{ vc_{d}(x, v, c) }},
                 default: {def},
                 ops: |a, b| {ops}(&mk_{d}(a), &mk_{d}(b), |t| un_{d}(t)),
                 unmk: |a| un_{d}(&mk_{d}(a)) }},"
            );
        }
        self.o += "] }\n";
        self.o += "pub fn structs() -> Vec<StructApi> { vec![\n";
        for d in self.s.structs() {
            let t = self.p(d, "");
            let eq = self.eq_able(d, &mut vec![]);
            let tr = self.p(d, "Ref");
            let refs = match (self.plain_struct(d), eq) {
                (false, _) => "None".into(),
                (true, true) => format!("Some(|x, y, at| ref_eq::<{tr}<'_>, {t}>(x, y, at, |t| un_{d}(t)).2)"),
                (true, false) => format!("Some(|x, y, at| ref_partial::<{tr}<'_>, {t}>(x, y, at, |t| un_{d}(t)).2)"),
            };
            let ops = if eq { "ops_eq" } else { "ops_partial" };
            let def = if self.has_default(d) { format!("Some(|| un_{d}(&{t}::default()))") } else { "None".into() };
            let _ = writeln!(
                self.o,
                "StructApi {{ decl: {d}, eq: {eq}, size: <{t} as planus::Primitive>::SIZE, align: <{t} as planus::Primitive>::ALIGNMENT, default: {def}, ops: |a, b| {ops}(&mk_{d}(a), &mk_{d}(b), |t| un_{d}(t)), ref_ops: {refs} }},"
            );
        }
        self.o += "] }\n";
        self.o += "pub fn enums() -> Vec<EnumApi> { vec![\n";
        for d in self.s.enums() {
            let (sc, _) = self.s.evariants(d);
            let t = self.p(d, "");
            let sc = sc.rust();
            let _ = writeln!(
                self.o,
                "EnumApi {{ decl: {d}, size: <{t} as planus::Primitive>::SIZE, values: {t}::ENUM_VALUES.iter().map(|x| *x as i128).collect(), names: {t}::ENUM_VALUES.iter().map(|x| format!(\"{{x:?}}\")).collect(),
                 to_int: |v| {sc}::from(mk_{d}(v)) as i128, from_int: |i| match {t}::try_from(i as {sc}) {{ Ok(e) => Ok(un_{d}(e)), Err(e) => Err(e.tag) }}, ops: |a, b| ops_eq(&mk_{d}(a), &mk_{d}(b), |t| un_{d}(*t)) }},"
            );
        }
        self.o += "] }\n";
    }
    fn enumeration(&mut self, d: usize) {
        let t = self.p(d, "");
        let (_, vs) = self.s.evariants(d);
        let _ = writeln!(self.o, "pub fn mk_{d}(v: &V) -> {t} {{ match v.int() {{");
        for v in vs {
            let _ = writeln!(self.o, "{} => {t}::{},", v.value, v.name);
        }
        let _ = writeln!(self.o, "_ => panic!() }} }}");
        let _ = writeln!(self.o, "pub fn un_{d}(e: {t}) -> V {{ V::Int(match e {{");
        for v in vs {
            let _ = writeln!(self.o, "{t}::{} => {},", v.name, v.value);
        }
        let _ = writeln!(self.o, "}}) }}");
    }
    fn strukt(&mut self, d: usize) {
        let (t, tr) = (self.p(d, ""), self.p(d, "Ref"));
        let fs = self.s.sfields(d);
        let _ = writeln!(self.o, "pub fn mk_{d}(v: &V) -> {t} {{ let x = v.items(); {t} {{");
        for (i, f) in fs.iter().enumerate() {
            let e = self.mk(&f.ty, &format!("x[{i}]"));
            // mk_ functions take references
            let e = if matches!(f.ty, Ty::Enum(_) | Ty::Struct(_)) { e.replacen("(x[", "(&x[", 1) } else { e };
            let _ = writeln!(self.o, "{}: {e},", f.name);
        }
        let _ = writeln!(self.o, "}} }}");
        let _ = writeln!(self.o, "pub fn un_{d}(t: &{t}) -> V {{ V::Struct(vec![");
        for f in fs {
            let e = self.un(&f.ty, &format!("(&t.{})", f.name));
            let _ = writeln!(self.o, "{e},");
        }
        let _ = writeln!(self.o, "]) }}");
        let _ = writeln!(self.o, "pub fn rd_{d}(r: {tr}<'_>, c: &mut Bud) -> V {{ let v = V::Struct(vec![");
        for f in fs {
            let e = match &f.ty {
                Ty::Enum(_) => format!("match r.{}() {{ Ok(x) => {}, Err(e) => eke(&e) }}", f.name, self.rd(&f.ty, "x")),
                _ => self.rd(&f.ty, &format!("r.{}()", f.name)),
            };
            let _ = writeln!(self.o, "{e},");
        }
        let _ = writeln!(self.o, "]); c.strukt(&v); v }}");
    }
    fn union(&mut self, d: usize) {
        let (t, tr) = (self.p(d, ""), self.p(d, "Ref"));
        let vs: Vec<(usize, UVariant)> = self.s.uvariants(d).iter().cloned().enumerate().collect();
        let _ = writeln!(self.o, "pub fn mk_{d}(v: &V) -> {t} {{ let (i, x) = v.union(); match i {{");
        for (i, v) in &vs {
            let e = Self::boxed(&v.ty, self.mk(&v.ty, "x"));
            let _ = writeln!(self.o, "{i} => {t}::{}({e}),", v.name);
        }
        let _ = writeln!(self.o, "_ => panic!() }} }}");
        let _ = writeln!(self.o, "pub fn un_{d}(t: &{t}) -> V {{ match t {{");
        for (i, v) in &vs {
            let e = self.un(&v.ty, "x");
            let _ = writeln!(self.o, "{t}::{}(x) => V::Union({i}, Box::new({e})),", v.name);
        }
        let _ = writeln!(self.o, "}} }}");
        let _ = writeln!(self.o, "pub fn rd_{d}(r: {tr}<'_>, c: &mut Bud) -> V {{ match r {{");
        for (i, v) in &vs {
            let e = self.rd(&v.ty, "x");
            let _ = writeln!(self.o, "{tr}::{}(x) => V::Union({i}, Box::new({e})),", v.name);
        }
        let _ = writeln!(self.o, "}} }}");
        let _ = writeln!(
            self.o,
            "pub fn cr_{d}(b: &mut planus::Builder, v: &V, st: &mut St) -> planus::UnionOffset<{t}> {{ let (i, x) = v.union(); match (i, st.pick(3)) {{"
        );
        for (i, v) in &vs {
            let lower = v.name.to_lowercase();
            let pure = self.pure(&v.ty, 0);
            let bf = self.bform(&v.ty);
            let _ = writeln!(self.o, "({i}, 0) => {{ let a = {bf}; {t}::create_{lower}(b, a) }}");
            let _ = writeln!(self.o, "({i}, 1) => {{ let a = {bf}; {t}::builder().{lower}(a).finish(b) }}");
            let _ = writeln!(self.o, "({i}, _) => {t}::builder().{lower}({pure}).finish(b),");
        }
        let _ = writeln!(self.o, "_ => panic!() }} }}");
    }
    /// Value of a field or element from `x: &V` without using the builder
    fn pure(&mut self, ty: &Ty, depth: usize) -> String {
        match ty {
            Ty::Str => self.r.pick(&["x.str().to_string()", "x.str()"]).to_string(),
            Ty::Table(d) => match self.r.below(3) {
                0 => format!("mk_{d}(x)"),
                1 => format!("Box::new(mk_{d}(x))"),
                _ if depth < 2 && self.s.fields(*d).len() <= 12 => self.nested_builder(*d, depth + 1),
                _ => format!("mk_{d}(x)"),
            },
            Ty::Vec(t) => {
                let e = match &**t {
                    Ty::Str => "x.str()".to_string(),
                    t => self.mk(t, "x"),
                };
                let v = format!("x.items().iter().map(|x| {e}).collect::<Vec<_>>()");
                if self.r.chance(1, 3) {
                    v
                } else {
                    match &**t {
                        Ty::Sc(Sc::U8) | Ty::Sc(Sc::I8) => format!("vb({v}, st)"),
                        Ty::Union(_) => format!("vu({v}, st)"),
                        _ => format!("vw({v}, st)"),
                    }
                }
            }
            _ => self.mk(ty, "x"),
        }
    }
    fn nested_builder(&mut self, d: usize, depth: usize) -> String {
        let t = self.p(d, "");
        let mut o = format!("{{ let y = x.items(); {t}::builder()");
        for (i, f) in self.s.fields(d).iter().enumerate() {
            if f.deprecated {
                continue;
            }
            let e = match (&f.ty, &f.mode) {
                (Ty::Str, Mode::Def(_)) => "x.str().to_string()".to_string(),
                _ => self.pure(&f.ty, depth),
            };
            let e = if f.mode == Mode::Opt {
                format!("y[{i}].opt().map(|x| {e})")
            } else {
                format!("{{ let x = &y[{i}]; {e} }}")
            };
            let _ = write!(o, ".{}({e})", f.name);
        }
        o + " }"
    }
    /// Value of a field or element from `x: &V` that was written before
    fn bform(&mut self, ty: &Ty) -> String {
        match ty {
            Ty::Str => "st.string(b, x.str())".into(),
            Ty::Table(d) => format!("cr_{d}(b, x, st)"),
            Ty::Union(d) => format!("cr_{d}(b, x, st)"),
            Ty::Struct(d) => format!("mk_{d}(x)"),
            Ty::Vec(t) => {
                let e = match &**t {
                    Ty::Str => self.r.pick(&["x.str()", "x.str().to_string()", "st.string(b, x.str())"]).to_string(),
                    Ty::Table(d) => {
                        let forms = [format!("mk_{d}(x)"), format!("cr_{d}(b, x, st)")];
                        self.r.pick(&forms).to_string()
                    }
                    Ty::Union(d) => {
                        let forms = [format!("mk_{d}(x)"), format!("cr_{d}(b, x, st)")];
                        self.r.pick(&forms).to_string()
                    }
                    t => self.mk(t, "x"),
                };
                match &**t {
                    Ty::Sc(Sc::U8) | Ty::Sc(Sc::I8) => {
                        let k = if **t == Ty::Sc(Sc::U8) { "u8" } else { "i8" };
                        format!("{{ let t = x.items().iter().map(|x| {e}).collect::<Vec<_>>(); vec_{k}(b, t, st) }}")
                    }
                    Ty::Union(d) => {
                        let t = self.p(*d, "");
                        format!("{{ let mut t = vec![]; for x in x.items() {{ t.push({e}); }} vec_union::<_, {t}>(b, t, st) }}")
                    }
                    t => {
                        let w = self.wire(t);
                        format!("{{ let mut t = vec![]; for x in x.items() {{ t.push({e}); }} vec_any::<_, {w}>(b, t, st) }}")
                    }
                }
            }
            _ => self.mk(ty, "x"),
        }
    }
    fn table(&mut self, d: usize) {
        let (t, tr) = (self.p(d, ""), self.p(d, "Ref"));
        let fs: Vec<(usize, Field)> = self.s.fields(d).iter().cloned().enumerate().collect();
        let _ = writeln!(self.o, "pub fn mk_{d}(v: &V) -> {t} {{ let y = v.items(); let _ = y; {t} {{");
        for (i, f) in &fs {
            if f.deprecated {
                continue;
            }
            let e = Self::boxed(&f.ty, self.mk(&f.ty, "x"));
            if f.mode == Mode::Opt {
                let _ = writeln!(self.o, "{}: y[{i}].opt().map(|x| {e}),", f.name);
            } else {
                let _ = writeln!(self.o, "{}: {{ let x = &y[{i}]; {e} }},", f.name);
            }
        }
        let _ = writeln!(self.o, "}} }}");

        let _ = writeln!(self.o, "pub fn un_{d}(t: &{t}) -> V {{ let _ = t; V::Table(vec![");
        for (_, f) in &fs {
            if f.deprecated {
                self.o += "V::None,\n";
                continue;
            }
            let e = self.un(&f.ty, "x");
            if f.mode == Mode::Opt {
                let _ = writeln!(self.o, "match &t.{} {{ Some(x) => {e}, None => V::None }},", f.name);
            } else {
                let _ = writeln!(self.o, "{{ let x = &t.{}; {e} }},", f.name);
            }
        }
        let _ = writeln!(self.o, "]) }}");

        let _ = writeln!(
            self.o,
            "pub fn rd_{d}(r: {tr}<'_>, c: &mut Bud) -> V {{ let _ = r; if !c.enter() {{ return V::Cut; }} let v = V::Table(vec!["
        );
        for (_, f) in &fs {
            if f.deprecated {
                self.o += "V::None,\n";
                continue;
            }
            let e = match &f.mode {
                // The default is not part of the buffer
                Mode::Def(V::Str(d)) => format!("if x == {d:?} {{ V::Str(x.to_string()) }} else {{ c.string(x) }}"),
                _ => self.rd(&f.ty, "x"),
            };
            if f.mode == Mode::Opt {
                let _ = writeln!(self.o, "match r.{}() {{ Ok(Some(x)) => {e}, Ok(None) => V::None, Err(e) => ek(&e) }},", f.name);
            } else {
                let _ = writeln!(self.o, "match r.{}() {{ Ok(x) => {e}, Err(e) => ek(&e) }},", f.name);
            }
        }
        let _ = writeln!(self.o, "]); c.leave(); v }}");

        // Vectors of the table
        let _ = writeln!(self.o, "pub fn vc_{d}(r: {tr}<'_>, v: &V, c: &mut Vc) {{ let _ = r; let y = v.items(); let _ = y;");
        for (i, f) in &fs {
            let Ty::Vec(e) = &f.ty else { continue };
            if f.deprecated || matches!(**e, Ty::Sc(Sc::U8) | Ty::Sc(Sc::I8)) {
                continue;
            }
            let conv = match &**e {
                Ty::Union(_) => format!("|x| {{ let c = &mut Bud::unlimited(); match x {{ Ok(x) => {}, Err(e) => ek(&e) }} }}", self.rd(e, "x")),
                e => format!("|x| {{ let c = &mut Bud::unlimited(); let _ = &c; {} }}", self.rd_elem(e)),
            };
            let fun = if matches!(**e, Ty::Union(_)) { "check_uvec" } else { "check_vec" };
            let owned = self.owned(e);
            let pat = if f.mode == Mode::Opt { "Ok(Some(x))" } else { "Ok(x)" };
            let un = self.un(e, "x");
            let _ = writeln!(
                self.o,
                "if let {pat} = r.{}() {{ {fun}(x, y[{i}].items(), {conv}, c); let t: Result<Vec<{owned}>, planus::Error> = to_vec_of!({fun}, {}, x, c); check_to_vec(t.map(|t| t.iter().map(|x| {un}).collect()), y[{i}].items(), c); }}",
                f.name,
                matches!(**e, Ty::Str | Ty::Table(_) | Ty::Enum(_)),
            );
        }
        let _ = writeln!(self.o, "}}");

        // Writers
        let _ = writeln!(
            self.o,
            "pub fn cr_{d}(b: &mut planus::Builder, v: &V, st: &mut St) -> planus::Offset<{t}> {{
             if let Some(o) = st.memo_get::<planus::Offset<{t}>>({d}, v) {{ return o; }}
             let y = v.items(); let _ = y; let o = match st.style() {{"
        );
        for style in 1..NSTYLES {
            self.writer(d, style, &fs);
        }
        let _ = writeln!(
            self.o,
            "_ => {{ let t = mk_{d}(v); match st.pick(4) {{ 0 => planus::WriteAsOffset::prepare(&t, b), 1 => <{t} as planus::WriteAs<planus::Offset<{t}>>>::prepare(&t, b), 2 => planus::WriteAsOffset::<{t}>::prepare(&Box::new(t), b), _ => <{t} as planus::WriteAsOptional<planus::Offset<{t}>>>::prepare(&t, b).unwrap() }} }}
             }}; st.memo_put({d}, v, o); o }}"
        );
    }
    /// 1: create, values written before; 2: create with values; 3: builder, values written before;
    /// 4: builder with values; 5: builder with everything absent; 6: builder, mixed
    fn writer(&mut self, d: usize, style: usize, fs: &[(usize, Field)]) {
        let t = self.p(d, "");
        let mut guard = vec![];
        let mut lets = String::new();
        // (field, name of the argument or special setter)
        let mut args: Vec<(String, String)> = vec![];
        let special = style >= 5;
        for (i, f) in fs {
            if f.deprecated {
                continue;
            }
            let sp = match style {
                5 => 1,
                6 => match self.r.below(5) {
                    0 => 1,
                    1 => 2,
                    _ => 0,
                },
                _ => 0,
            };
            if sp == 1 {
                match &f.mode {
                    Mode::Def(v) => {
                        guard.push(format!("is_default(&y[{i}], {})", vlit(v)));
                        args.push((f.name.clone(), "DEFAULT".into()));
                        continue;
                    }
                    Mode::Opt => {
                        guard.push(format!("y[{i}].is_none()"));
                        args.push((f.name.clone(), "NULL".into()));
                        continue;
                    }
                    _ => (),
                }
            }
            let early = matches!(style, 1 | 3) || (style == 6 && self.r.chance(1, 2));
            let def = matches!(f.mode, Mode::Def(_));
            let mut e = match (&f.ty, early) {
                (Ty::Str, _) if def => self.r.pick(&["x.str()", "x.str().to_string()"]).to_string(),
                // An offset is always stored, even if the vector is empty
                (Ty::Vec(_), true) if def && style != 1 => self.pure(&f.ty, 0),
                (ty, true) => self.bform(ty),
                (ty, false) => self.pure(ty, 0),
            };
            let plain = sp == 2 && f.mode == Mode::Opt;
            if plain {
                guard.push(format!("!y[{i}].is_none()"));
            }
            if f.mode == Mode::Opt && !plain {
                e = format!("match y[{i}].opt() {{ Some(x) => Some({e}), None => None }}");
            } else {
                e = format!("{{ let x = &y[{i}]; {e} }}");
            }
            let _ = writeln!(lets, "let a{i} = {e};");
            let simple = matches!(f.ty, Ty::Sc(_) | Ty::Enum(_) | Ty::Struct(_) | Ty::Table(_) | Ty::Union(_)) || !f.ty.is_double();
            if simple && self.r.chance(1, 6) {
                args.push((f.name.clone(), format!("fm(a{i}, st)")));
            } else if simple && self.r.chance(1, 4) {
                if f.mode == Mode::Opt && !plain && self.r.chance(1, 2) {
                    args.push((f.name.clone(), format!("a{i}.as_ref()")));
                } else {
                    args.push((f.name.clone(), format!("&a{i}")));
                }
            } else {
                args.push((f.name.clone(), format!("a{i}")));
            }
        }
        if special && guard.is_empty() && style == 6 {
            return;
        }
        let g = if guard.is_empty() { String::new() } else { format!(" if {}", guard.join(" && ")) };
        let _ = writeln!(self.o, "{style}{g} => {{ st.count({style}); {lets}");
        if style <= 2 {
            let a: Vec<String> = args.into_iter().map(|a| a.1).collect();
            let _ = writeln!(self.o, "{t}::create(b{}{}) }}", if a.is_empty() { "" } else { ", " }, a.join(", "));
        } else {
            let _ = write!(self.o, "{t}::builder()");
            for (name, a) in args {
                let _ = match a.as_str() {
                    "DEFAULT" => write!(self.o, ".{name}_as_default()"),
                    "NULL" => write!(self.o, ".{name}_as_null()"),
                    a => write!(self.o, ".{name}({a})"),
                };
            }
            let _ = writeln!(self.o, ".finish(b) }}");
        }
    }
}

/// Literal for a default value
fn vlit(v: &V) -> String {
    match v {
        V::Bool(b) => format!("&V::Bool({b})"),
        V::Int(i) => format!("&V::Int({i})"),
        V::F32(i) => format!("&V::F32({i})"),
        V::F64(i) => format!("&V::F64({i})"),
        V::Str(s) => format!("&V::Str({s:?}.to_string())"),
        V::Vec(x) if x.is_empty() => "&V::Vec(vec![])".into(),
        _ => panic!(),
    }
}
