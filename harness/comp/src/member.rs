//! Faults at one member of a valid schema set: every rule is broken at a random place of random declarations.
use crate::sg::*;
use fbm::src::*;
use fbm::*;

pub struct Fault {
    pub name: &'static str,
    pub file: usize,
    /// Only wrong without `ignore_unknown_metadata`
    pub unknown: bool,
    /// Still right
    pub fine: bool,
    /// Declarations elsewhere can depend on it
    pub spreads: bool,
}

fn bad(t: &str) -> Tok {
    Tok { t: t.into(), mark: "bad".into(), ..Default::default() }
}

fn bads(t: &[&str]) -> Vec<Tok> {
    t.iter().map(|x| bad(x)).collect()
}

/// First run of tokens with the mark
fn run(t: &[Tok], mark: &str) -> Option<(usize, usize)> {
    let a = t.iter().position(|x| x.mark == mark)?;
    let b = a + t[a..].iter().take_while(|x| x.mark == mark).count();
    Some((a, b))
}

fn within(mark: &str, of: &str) -> bool {
    mark == of || mark.strip_prefix(of).is_some_and(|x| x.starts_with('.'))
}

/// Adds an attribute to a field
fn attr(t: &mut Vec<Tok>, m: &str, new: &[&str], r: &mut Rng) -> Option<()> {
    let end = t.iter().rposition(|x| x.mark == m && x.t == ";")?;
    if t[end - 1].t == ")" && t[end - 1].mark == m {
        // Behind one of the others, or in front of all of them
        let open = (0..end).rev().find(|i| t[*i].t == "(" && t[*i].mark == m)?;
        if t[end - 2].t == "(" || r.chance(1, 2) {
            let mut x = bads(new);
            if open + 1 != end - 1 || r.chance(1, 3) {
                x.push(bad(","));
            }
            t.splice(open + 1..open + 1, x);
        } else {
            let mut x = vec![];
            if t[end - 2].t != "," {
                x.push(bad(","));
            }
            x.extend(bads(new));
            t.splice(end - 1..end - 1, x);
        }
    } else {
        let mut x = vec![bad("(")];
        x.extend(bads(new));
        x.push(bad(")"));
        // Others can be added to these
        let n = x.len() - 1;
        x[0].mark = m.into();
        x[n].mark = m.into();
        t.splice(end..end, x);
    }
    Some(())
}

/// Gives a field this default instead of the one that it has
fn default(t: &mut Vec<Tok>, m: &str, new: &[&str]) -> Option<()> {
    let (_, b) = run(t, &format!("{m}.type"))?;
    if let Some((x, y)) = run(t, &format!("{m}.default")) {
        if x != b + 1 {
            return None;
        }
        t.drain(b..y);
    }
    let mut x = vec![bad("=")];
    x.extend(bads(new));
    t.splice(b..b, x);
    Some(())
}

fn retype(t: &mut Vec<Tok>, m: &str, new: &[&str]) -> Option<()> {
    let (a, b) = run(t, &format!("{m}.type"))?;
    let mut x = bads(new);
    // An unnamed union variant starts with its type
    x[0].docs = std::mem::take(&mut t[a].docs);
    x[0].first = t[a].first;
    t.splice(a..b, x);
    Some(())
}

/// Breaks one rule
pub fn fault(p: &Project, toks: &mut [Vec<Tok>], r: &mut Rng) -> Option<Fault> {
    let s = &p.s;
    let rule = r.below(26);
    let want = match rule {
        0..=12 => 0,
        13..=17 => 1,
        18..=21 => 2,
        22..=24 => 3,
        _ => r.below(4),
    };
    let c: Vec<usize> = (0..s.decls.len())
        .filter(|d| {
            let k = match s.decls[*d].kind {
                Kind::Table { .. } => 0,
                Kind::Struct { .. } => 1,
                Kind::Enum { .. } => 2,
                Kind::Union { .. } => 3,
            };
            k == want
        })
        .collect();
    if c.is_empty() {
        return None;
    }
    let mut d = *r.pick(&c);
    let no_zero = |ty: &Ty| matches!(ty, Ty::Enum(e) if s.evariants(*e).1.iter().all(|v| v.value != 0));
    // Few fields have such a type
    let mut chosen = None;
    if rule == 10 && r.chance(1, 2) {
        let all: Vec<(usize, usize)> = c.iter().flat_map(|d| s.fields(*d).iter().enumerate().filter(|(_, f)| no_zero(&f.ty)).map(|(i, _)| (*d, i)).collect::<Vec<_>>()).collect();
        if !all.is_empty() {
            let x = *r.pick(&all);
            d = x.0;
            chosen = Some(x.1);
        }
    }
    let d = d;
    let file = s.decls[d].file;
    let dm = format!("d{d}");
    // Some declarations have the name of a built-in type, which then means the latter
    let own = match s.decls[d].name.as_str() {
        "bool" | "byte" | "int8" | "ubyte" | "uint8" | "short" | "int16" | "ushort" | "uint16" | "int" | "int32" | "uint" | "uint32" | "long" | "int64" | "ulong" | "uint64" | "float" | "float32" | "double" | "float64" | "string" => "Zno".to_string(),
        x => x.to_string(),
    };
    let t = &mut toks[file];
    let mut out = Fault { name: "", file, unknown: false, fine: false, spreads: false };
    // The offending construct is one member, or else the declaration
    let mut member: Option<usize> = None;
    match &s.decls[d].kind {
        Kind::Table { fields, ids } if rule < 13 => {
            if fields.is_empty() {
                return None;
            }
            let i = chosen.unwrap_or_else(|| r.below(fields.len()));
            let j = r.below(fields.len());
            let m = format!("d{d}.f{i}");
            let idrun = |t: &[Tok], i: usize| -> Option<(usize, usize)> {
                let (a, mut b) = run(t, &format!("d{d}.f{i}.attr.id"))?;
                if t[b - 1].t == "," {
                    b -= 1;
                }
                Some((a, b))
            };
            let f = &fields[i];
            match rule {
                0 => {
                    if !*ids {
                        return None;
                    }
                    out.name = "id-removed";
                    let (a, b) = run(t, &format!("{m}.attr.id"))?;
                    t.drain(a..b);
                    out.fine = fields.len() == 1;
                    // The comma in front can be left, but nothing else
                }
                1 => {
                    if *ids || fields.len() < 2 {
                        return None;
                    }
                    out.name = "id-added";
                    attr(t, &m, &["id", ":", &f.slot.to_string()], r)?;
                    if fields.len() > 2 && r.chance(1, 2) && j != i {
                        attr(t, &format!("d{d}.f{j}"), &["id", ":", &fields[j].slot.to_string()], r)?;
                    }
                }
                2 => {
                    if !*ids || i == j {
                        return None;
                    }
                    out.name = "id-repeated";
                    let (a, b) = idrun(t, i)?;
                    t.splice(a + 2..b, bads(&[&fields[j].slot.to_string()]));
                }
                3 => {
                    if !*ids {
                        return None;
                    }
                    out.name = "id-skipped";
                    let i = (0..fields.len()).max_by_key(|i| fields[*i].slot)?;
                    let (a, b) = idrun(t, i)?;
                    t.splice(a + 2..b, bads(&[&(fields[i].slot + *r.pick(&[1, 1, 2, 7, 1000])).to_string()]));
                }
                4 => {
                    if !*ids || !f.ty.is_double() {
                        return None;
                    }
                    out.name = "id-of-tag";
                    let (a, b) = idrun(t, i)?;
                    t.splice(a + 2..b, bads(&[&(f.slot - 1).to_string()]));
                }
                5 => {
                    if i == j {
                        return None;
                    }
                    out.name = "field-repeated";
                    let x = t.iter().position(|x| x.mark == m && x.first)?;
                    t[x].t = fields[j].name.clone();
                }
                6 => {
                    out.name = "required-not-allowed";
                    let scalar = matches!(f.ty, Ty::Sc(_) | Ty::Enum(_));
                    if f.mode == Mode::Req || !scalar && !matches!(f.mode, Mode::Def(_)) {
                        return None;
                    }
                    attr(t, &m, &["required"], r)?;
                    member = Some(i);
                }
                7 => {
                    out.name = "attribute-twice";
                    let a: &[&str] = if f.mode == Mode::Req && r.chance(1, 2) { &["required"] } else { &["deprecated"] };
                    attr(t, &m, a, r)?;
                    if a[0] == "deprecated" && !f.deprecated {
                        attr(t, &m, a, r)?;
                    }
                    member = Some(i);
                }
                8 => {
                    out.name = "unknown-attribute";
                    out.unknown = true;
                    let a: &[&str] = *r.pick(&[&["zzz"][..], &["Id", ":", "0"], &["requiredd"], &["zzz", ":", "\"x\""], &["DEPRECATED"], &["zzz", ":", "1.5"]]);
                    attr(t, &m, a, r)?;
                    member = Some(i);
                }
                9 => {
                    if f.force_align != 0 {
                        return None;
                    }
                    out.name = "field-force-align";
                    let n = *r.pick(&["3", "5", "6", "12", "0", "24", "65535", "-"]);
                    let a: Vec<&str> = if n == "-" { vec!["force_align", ":", "-", "8"] } else { vec!["force_align", ":", n] };
                    attr(t, &m, &a, r)?;
                    member = Some(i);
                }
                10 if chosen.is_some() => {
                    out.name = "enum-without-default";
                    let (_, b) = run(t, &format!("{m}.type"))?;
                    let (x, y) = run(t, &format!("{m}.default"))?;
                    if x != b + 1 {
                        return None;
                    }
                    t.drain(b..y);
                    member = Some(i);
                }
                10 => {
                    out.name = "wrong-default";
                    let n;
                    let v: Vec<&str> = match &f.ty {
                        Ty::Sc(Sc::Bool) => vec![*r.pick(&["2", "\"true\"", "1.0", "yes"])],
                        Ty::Sc(Sc::F32 | Sc::F64) => vec![*r.pick(&["true", "\"1.0\"", "pi", "Nan_"])],
                        Ty::Sc(c) => match r.below(6) {
                            0 => vec![*r.pick(&["true", "\"1\"", "1.0", "nan", "foo", "1e2"])],
                            1 => vec!["[", "]"],
                            2 if c.lo() < 0 => {
                                n = (1 - c.lo()).to_string();
                                vec!["-", &n]
                            }
                            2 => vec!["-", "1"],
                            _ => {
                                n = (c.hi() + 1 + *r.pick(&[0, 0, 0, 1, 1000])).to_string();
                                vec![&n]
                            }
                        },
                        Ty::Enum(e) => {
                            let (_, vs) = s.evariants(*e);
                            match r.below(3) {
                                0 => vec![*r.pick(&["Zno", "\"A\"", "true", "1.0"])],
                                _ => {
                                    let k = (0..1000).find(|k| vs.iter().all(|v| v.value != *k))?;
                                    n = k.to_string();
                                    vec![&n]
                                }
                            }
                        }
                        Ty::Str => vec![*r.pick(&["3", "foo", "true", "1.5"])],
                        Ty::Vec(_) => match r.below(3) {
                            0 => vec![*r.pick(&["3", "\"x\"", "true", "foo"])],
                            _ => vec!["[", "1", "]"],
                        },
                        _ => match r.below(3) {
                            0 => vec!["[", "]"],
                            _ => vec![*r.pick(&["3", "\"x\"", "true", "foo", "0"])],
                        },
                    };
                    default(t, &m, &v)?;
                    member = Some(i);
                }
                11 => {
                    out.name = "nested-vector";
                    let (a, b) = run(t, &format!("{m}.type"))?;
                    if matches!(f.ty, Ty::Vec(_)) {
                        t.insert(b, bad("]"));
                        t.insert(a, bad("["));
                    } else {
                        // Arrays are not there yet
                        t.splice(b..b, bads(&[":", *r.pick(&["1", "3", "16"]), "]"]));
                        t.insert(a, bad("["));
                    }
                    member = Some(i);
                }
                _ => {
                    out.name = "unknown-type";
                    retype(t, &m, *r.pick(&[&["Zno"][..], &["[", "Zno", "]"], &["zz", ".", "Zno"], &["aa", ".", "int"]]))?;
                    member = Some(i);
                }
            }
        }
        Kind::Struct { fields, force_align, align, .. } if rule < 18 => {
            let i = r.below(fields.len());
            let j = r.below(fields.len());
            let m = format!("d{d}.f{i}");
            out.spreads = true;
            match rule {
                13 => {
                    out.name = "not-in-struct";
                    let v: Vec<&str> = match r.below(5) {
                        0 => vec!["string"],
                        1 => vec!["[", "int", "]"],
                        2 => vec!["[", "int", ":", "3", "]"],
                        3 => vec![&own],
                        _ => vec!["[", &own, "]"],
                    };
                    retype(t, &m, &v)?;
                }
                14 => {
                    out.name = "struct-default";
                    default(t, &m, *r.pick(&[&["0"][..], &["null"], &["1"], &["[", "]"]]))?;
                    member = Some(i);
                }
                15 => {
                    out.name = "struct-field-attribute";
                    attr(t, &m, *r.pick(&[&["required"][..], &["id", ":", "0"]]), r)?;
                    member = Some(i);
                }
                16 => {
                    if i == j {
                        return None;
                    }
                    out.name = "struct-field-repeated";
                    let x = t.iter().position(|x| x.mark == m && x.first)?;
                    t[x].t = fields[j].name.clone();
                }
                _ => {
                    out.name = "struct-force-align";
                    let mut own = 1;
                    for f in fields {
                        own = own.max(s.align(&f.ty));
                    }
                    let n = match r.below(2) {
                        0 if own > 1 => own / 2,
                        _ => *r.pick(&[0, 3, 6, 24, 12]),
                    };
                    let _ = align;
                    if force_align.is_some() {
                        let (a, b) = run(t, &format!("d{d}.attr"))?;
                        t.drain(a..b);
                    }
                    let (_, b) = run(t, &dm)?;
                    let at = if force_align.is_some() { (0..t.len()).find(|x| t[*x].mark == dm && t[*x].t == "{")? } else { b - 1 };
                    t.splice(at..at, bads(&["(", "force_align", ":", &n.to_string(), ")"]));
                }
            }
        }
        Kind::Enum { sc, variants } if rule < 22 => {
            out.spreads = true;
            match rule {
                18 => {
                    if variants.len() < 2 {
                        return None;
                    }
                    out.name = "enum-value-repeated";
                    let j = r.range(1, variants.len());
                    let v = variants[r.below(j)].value;
                    let m = format!("d{d}.f{j}");
                    let x = t.iter().position(|x| x.mark == m && x.first)?;
                    if let Some((a, b)) = run(t, &format!("{m}.default")) {
                        t.drain(a - 1..b);
                    }
                    let mut n = vec![bad("=")];
                    if v < 0 {
                        n.push(bad("-"));
                    }
                    n.push(bad(&v.unsigned_abs().to_string()));
                    t.splice(x + 1..x + 1, n);
                }
                19 => {
                    if variants.is_empty() {
                        return None;
                    }
                    out.name = "enum-value-range";
                    let j = r.below(variants.len());
                    let m = format!("d{d}.f{j}");
                    let x = t.iter().position(|x| x.mark == m && x.first)?;
                    if let Some((a, b)) = run(t, &format!("{m}.default")) {
                        t.drain(a - 1..b);
                    }
                    let mut n = vec![bad("=")];
                    if r.chance(1, 2) {
                        n.push(bad(&(sc.hi() + 1).to_string()));
                    } else {
                        n.push(bad("-"));
                        n.push(bad(&(1 - sc.lo()).to_string()));
                    }
                    t.splice(x + 1..x + 1, n);
                    member = Some(j);
                }
                20 => {
                    if variants.len() < 2 {
                        return None;
                    }
                    out.name = "enum-name-repeated";
                    let i = r.below(variants.len());
                    let j = r.below(variants.len());
                    if i == j {
                        return None;
                    }
                    let x = t.iter().position(|x| x.mark == format!("d{d}.f{i}") && x.first)?;
                    t[x].t = variants[j].name.clone();
                }
                _ => {
                    out.name = "enum-type";
                    let (a, b) = run(t, &format!("d{d}.type"))?;
                    t.splice(a..b, bads(*r.pick(&[&["float"][..], &["double"], &["bool"], &["string"], &["[", "int", "]"], &["Zno"]])));
                }
            }
        }
        Kind::Union { variants } if rule < 25 => {
            out.spreads = true;
            match rule {
                22 => {
                    if variants.is_empty() {
                        return None;
                    }
                    out.name = "union-variant-type";
                    let i = r.below(variants.len());
                    let v: Vec<&str> = match r.below(5) {
                        0 => vec![*r.pick(&["int", "bool", "double", "ubyte"])],
                        1 => vec!["[", "int", "]"],
                        2 => vec!["Zno"],
                        3 => vec!["[", "string", "]"],
                        _ => vec![&own],
                    };
                    retype(t, &format!("d{d}.f{i}"), &v)?;
                    member = Some(i);
                }
                23 => {
                    if variants.len() < 2 {
                        return None;
                    }
                    out.name = "union-name-repeated";
                    let i = r.below(variants.len());
                    let j = r.below(variants.len());
                    if i == j || !variants[i].named || variants[j].name.contains('.') {
                        return None;
                    }
                    let x = t.iter().position(|x| x.mark == format!("d{d}.f{i}") && x.first)?;
                    t[x].t = variants[j].name.clone();
                }
                _ => {
                    out.name = "union-variant-attribute";
                    if variants.is_empty() {
                        return None;
                    }
                    let i = r.below(variants.len());
                    let m = format!("d{d}.f{i}");
                    let x = t.iter().rposition(|x| within(&x.mark, &m) && x.t != ",")?;
                    t.splice(x + 1..x + 1, bads(&["(", "zzz", ")"]));
                    out.unknown = true;
                    member = Some(i);
                }
            }
        }
        _ => {
            out.name = "declaration-attribute";
            out.spreads = true;
            if matches!(&s.decls[d].kind, Kind::Struct { force_align: Some(_), .. }) {
                return None;
            }
            let at = (0..t.len()).find(|x| t[*x].mark == dm && t[*x].t == "{" && !t[*x].first)?;
            let v: &[&str] = if r.chance(1, 2) {
                out.unknown = true;
                &["(", "zzz", ")"]
            } else {
                *r.pick(&[&["(", "required", ")"][..], &["(", "deprecated", ")"], &["(", "id", ":", "0", ")"]])
            };
            t.splice(at..at, bads(v));
        }
    }
    let of = match member {
        Some(i) => format!("d{d}.f{i}"),
        None => dm,
    };
    for x in t.iter_mut().filter(|x| within(&x.mark, &of)) {
        x.mark = "bad".into();
    }
    Some(out)
}
