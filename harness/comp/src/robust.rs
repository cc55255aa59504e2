//! C20: whatever the files contain, the compiler ends with success or with errors.
use crate::basic::opts;
use crate::fault::{diags, random_options, snippets};
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::viol;
use fbm::*;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub type Files = Vec<(String, Vec<u8>)>;

/// Schemas that come with the compiler
pub fn corpus() -> &'static Vec<Vec<u8>> {
    static C: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    C.get_or_init(|| {
        fn walk(d: &Path, out: &mut Vec<PathBuf>) {
            let Ok(rd) = std::fs::read_dir(d) else { return };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    if p.file_name().is_some_and(|x| x != "target") {
                        walk(&p, out);
                    }
                } else if p.extension().is_some_and(|x| x == "fbs") {
                    out.push(p);
                }
            }
        }
        let mut paths = vec![];
        for d in ["/repo/test/files", "/repo/examples"] {
            walk(Path::new(d), &mut paths);
        }
        paths.sort();
        paths.iter().filter_map(|p| std::fs::read(p).ok()).filter(|x| x.len() < 20000).collect()
    })
}

const VOCAB: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ":", ",", "=", ".", "+", "-", "table", "struct", "enum", "union", "namespace", "include", "attribute", "root_type", "file_identifier", "file_extension", "rpc_service", "true", "false", "null", "nan", "inf", "int", "uint", "ubyte", "string", "float", "double",
    "bool", "long", "ulong", "required", "deprecated", "id", "force_align", "key", "hash", "bit_flags", "nested_flatbuffer", "flexbuffer", "original_order", "native_type", "streaming", "x", "A", "B", "\"\"", "\"x\"", "'y'", "0", "1", "255", "256", "0x10", "1e400", "-0", "0x", "0x_", "1__2", "_1", "99999999999999999999999999", "0xffffffffffffffffffffffff", "1e999999999",
    "1e-999999999", "0x1p2147483648", "0x1.8p-99999", "0x1p", ".5", "5.", "1.2.3", "1e", "/// doc\n", "//! inner\n", "// c\n", "/* block */", "\"\\u12\"", "\"\\xff\"", "'\\'", "\"", "'", "\\", "\u{feff}", "é", "😀", "%", "@", "#", "\0", "\r", "\n", "\t", "$", "`", "::", "..", "->", "<", ">",
];

/// A string with escapes that are right, wrong or in between
pub fn string(r: &mut Rng) -> String {
    let q = *r.pick(&["\"", "\"", "'"]);
    let mut t = q.to_string();
    for _ in 0..*r.pick(&[0, 1, 1, 2, 3, 6]) {
        match r.below(10) {
            0 => t.push_str(&format!("\\u{:04x}", r.below(0x10000))),
            1 => t.push_str(&format!("\\u{:04X}", *r.pick(&[0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff, 0, 0x7f, 0x80, 0xfeff]))),
            2 => t.push_str(&format!("\\ud83d\\u{:04x}", r.range(0xdc00, 0xe000))),
            3 => t.push_str(&format!("\\x{:02x}", r.below(256))),
            4 => t.push_str(&format!("\\{}", *r.pick(&["n", "t", "r", "b", "f", "\\", "/", "\"", "'", "0", "a", "e", "u", "x", "U", "u{41}", "\n", "\r\n", "é", "😀", "u12", "x1", "u00g0", "x8", " "]))),
            5 => t.push_str(*r.pick(&["'", "\"", "\n", "\r\n", "\t", "\0", "\u{1b}", "//", "/*", "{", "}", ";", "\u{feff}", "\u{2028}"])),
            6 => t.push_str(*r.pick(&["é", "😀", "中", "\u{10ffff}", "\u{e000}"])),
            _ => t.push_str(*r.pick(&["a", "A", "x.fbs", "..", "/", " ", "int", "1"])),
        }
    }
    if !r.chance(1, 30) {
        t.push_str(q);
    }
    t
}

pub fn number(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "9".repeat(*r.pick(&[10, 20, 40, 400, 5000])),
        1 => format!("0x{}", "f".repeat(*r.pick(&[8, 16, 17, 64, 2000]))),
        2 => format!("1e{}", r.next() % 1000000),
        3 => format!("0x1.{}p{}{}", "a".repeat(r.range(1, 300)), r.pick(&["", "-", "+"]), r.next() % 5000000000),
        4 => format!("{}{}", "-".repeat(*r.pick(&[1, 2, 50, 500])), r.next()),
        5 => format!("{}.{}", "1".repeat(r.range(1, 400)), "3".repeat(r.range(1, 400))),
        6 => format!("0{}", "_".repeat(r.range(1, 100))),
        _ => format!("{}", (1u128 << r.below(70)).wrapping_sub(r.below(3) as u128)),
    }
}

/// Large or deep, but legal sizes
fn heavy(r: &mut Rng) -> String {
    let n = *r.pick(&[5, 30, 100, 200]);
    match r.below(14) {
        0 => format!("table T {{ a: {}int{}; }}", "[".repeat(n), "]".repeat(n)),
        1 => format!("table T {{ a: {}int; }}", "[".repeat(n)),
        2 => format!("namespace {}; table T {{ a: {}.T; }}", vec!["a"; n].join("."), vec!["a"; n].join(".")),
        3 => {
            // Doubles in size every time
            let mut s = String::from("struct S0 { a: ubyte; }\n");
            for i in 1..n {
                s.push_str(&format!("struct S{i} {{ a: S{}; b: S{}; }}\n", i - 1, i - 1));
            }
            s + &format!("table T {{ a: S{}; }} union U {{ a: T, b: string }} table V {{ u: U; w: [U]; }}", n - 1)
        }
        4 => {
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("struct S{i} {{ a: S{}; }}\n", (i + 1) % n));
            }
            s
        }
        5 => {
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("table T{i} {{ a: T{}; b: [U{i}]; c: U{}; }} union U{i} {{ T{i}, T{} }}\n", (i + 1) % n, (i + 7) % n, (i + 3) % n));
            }
            s
        }
        6 => format!("enum E: {} {{ {} }}", r.pick(&["ubyte", "int", "ulong"]), (0..n * 3).map(|i| format!("A{i}")).collect::<Vec<_>>().join(", ")),
        7 => format!("union U {{ {} }} table T {{}}", (0..n * 2).map(|i| format!("A{i}: T")).collect::<Vec<_>>().join(", ")),
        8 => format!("table T {{ {} }}", (0..n * 10).map(|i| format!("a{i}: int = {i};")).collect::<Vec<_>>().join(" ")),
        9 => format!("table T {{ a: string = {:?}; }}", "x".repeat(n * 50)),
        10 => format!("table T {{ {}: int; }}", "long".repeat(n * 10)),
        11 => format!("table T ({}) {{ a: int ({}); }}", "deprecated,".repeat(n), "deprecated,".repeat(n)),
        12 => format!("{}table T {{ a: int; }}", "/// d\n".repeat(n)),
        _ => format!("table T {{ a: int = {}; b: ulong = {}; c: float = {}; d: [ulong] = []; e: double = {}; }}", number(r), number(r), number(r), number(r)),
    }
}

fn mutate(b: &mut Vec<u8>, other: &[u8], r: &mut Rng) {
    let n = b.len();
    let at = |r: &mut Rng, n: usize| r.below(n + 1);
    // A place between two tokens
    let gap = |b: &Vec<u8>, r: &mut Rng| -> usize {
        let mut p = r.below(b.len() + 1);
        while p < b.len() && p > 0 && (b[p].is_ascii_alphanumeric() || b[p] & 0xc0 == 0x80) && (b[p - 1].is_ascii_alphanumeric() || b[p - 1] == b'_') {
            p += 1;
        }
        p
    };
    match r.below(17) {
        0 if n > 0 => {
            let p = r.below(n);
            b[p] ^= 1 << r.below(8);
        }
        1 => {
            let p = at(r, n);
            b.insert(p, *r.pick(&[0, 9, 10, 13, 34, 39, 47, 92, 123, 125, 128, 255, 0xc3, 0xe2, 0xf0]));
        }
        2 if n > 0 => {
            let p = r.below(n);
            let e = (p + r.range(1, 8)).min(n);
            b.drain(p..e);
        }
        3 if n > 0 => {
            let p = r.below(n);
            let e = (p + r.range(1, 60)).min(n);
            let x = b[p..e].to_vec();
            let q = at(r, n);
            b.splice(q..q, x);
        }
        4 => b.truncate(r.below(n + 1)),
        5 if !other.is_empty() => {
            let p = r.below(other.len());
            let e = (p + r.range(1, 200)).min(other.len());
            let q = gap(b, r);
            b.splice(q..q, other[p..e].to_vec());
        }
        6 if b.contains(&b'"') && r.chance(1, 2) => {
            // Something into a string
            let p: Vec<usize> = (0..n).filter(|i| b[*i] == b'"').collect();
            let q = *r.pick(&p) + 1;
            let t = string(r);
            let t = t.trim_matches(['"', '\'']).to_string();
            b.splice(q..q, t.into_bytes());
        }
        6..=9 => {
            let q = gap(b, r);
            let t = format!(" {} ", r.pick(VOCAB));
            b.splice(q..q, t.into_bytes());
        }
        10 | 11 => {
            // A word is replaced or goes away
            let q = gap(b, r);
            let mut e = q;
            while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'_') {
                e += 1;
            }
            if e == q && e < b.len() {
                e += 1;
            }
            let t = match r.below(6) {
                0 | 1 => String::new(),
                2 => string(r),
                _ => r.pick(VOCAB).to_string(),
            };
            b.splice(q..e, t.into_bytes());
        }
        12 => {
            // A number is replaced
            let p: Vec<usize> = (0..n).filter(|i| b[*i].is_ascii_digit() && (*i == 0 || !b[*i - 1].is_ascii_alphanumeric())).collect();
            if !p.is_empty() {
                let q = *r.pick(&p);
                let mut e = q;
                while e < b.len() && (b[e].is_ascii_alphanumeric() || b[e] == b'.') {
                    e += 1;
                }
                b.splice(q..e, number(r).into_bytes());
            }
        }
        13 => {
            let q = gap(b, r);
            b.splice(q..q, format!("\n{}\n", heavy(r)).into_bytes());
        }
        14 => {
            let all = snippets();
            let s = r.pick(&all);
            let q = gap(b, r);
            b.splice(q..q, format!(" {} ", s.toks.join(" ")).into_bytes());
        }
        15 => {
            let inc = *r.pick(&["include \"\";", "include \".\";", "include \"missing.fbs\";", "include \"/\";", "include \"a\\u0000b\";", "include 'é';", "include \"sub\";", "include \"../../../../../../../../../../x.fbs\";", "include \"a.fbs\";", "include \"./a.fbs\";", "include \"sub/../a.fbs\";", "include \"nul\\x00.fbs\";", "include 5;", "include \"a.fbs\"", "include \"~\";", "include \"bin.fbs\";", "include \"loop.fbs\";"]);
            b.splice(0..0, inc.bytes());
        }
        _ => {
            let long = format!("include \"{}.fbs\";", "n".repeat(r.range(100, 6000)));
            b.splice(0..0, long.into_bytes());
        }
    }
}

/// Text the grammar accepts, with anything in any place it allows
pub struct Soup<'a> {
    pub r: &'a mut Rng,
    /// Chance in sixteen of leaving the beaten path
    pub wild: usize,
    pub depth: usize,
}

const SOUP_NAMES: &[&str] = &["A", "B", "C", "T", "S", "E", "U", "a", "b", "x", "table", "struct", "enum", "include", "namespace", "union", "root_type", "attribute", "int", "string", "bool", "null", "true", "false", "self", "Self", "crate", "super", "NONE", "id", "r", "_", "__", "_1"];
const SOUP_BUILTINS: &[&str] = &["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "string", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"];
const SOUP_KEYS: &[&str] = &["deprecated", "required", "id", "force_align", "bit_flags", "nested_flatbuffer", "flexbuffer", "key", "hash", "original_order", "native_inline", "native_default", "native_custom_alloc", "native_type", "cpp_type", "cpp_ptr_type", "cpp_str_type", "cpp_str_flex_ctor", "shared", "rust_copy", "streaming", "idempotent", "my_own"];

impl Soup<'_> {
    fn odd(&mut self) -> bool {
        let w = self.wild;
        self.r.chance(w, 16)
    }
    fn ident(&mut self) -> String {
        if self.odd() { self.r.pick(SOUP_NAMES).to_string() } else { self.r.pick(&SOUP_NAMES[..10]).to_string() }
    }
    fn path(&mut self) -> String {
        let n = if self.odd() { self.r.range(1, 4) } else { 1 };
        (0..n).map(|_| self.ident()).collect::<Vec<_>>().join(".")
    }
    pub fn ty(&mut self) -> String {
        self.depth += 1;
        let deep = self.depth > 4;
        let t = match self.r.below(if deep { 8 } else { 12 }) {
            0..=3 => self.r.pick(SOUP_BUILTINS).to_string(),
            4..=7 => self.path(),
            8 | 9 => format!("[{}]", self.ty()),
            10 if self.odd() => format!("[[{}]]", self.ty()),
            11 if self.odd() => format!("[{}{}: {}]", self.gap(), self.ty(), self.expr()),
            _ => self.path(),
        };
        self.depth -= 1;
        t
    }
    pub fn expr(&mut self) -> String {
        self.depth += 1;
        let deep = self.depth > 4;
        let t = match self.r.below(if deep { 9 } else { 12 }) {
            0 => self.ident(),
            1 => self.r.pick(&["true", "false", "null", "nan", "inf", "infinity", "A", "B", "C"]).to_string(),
            2..=4 => self.r.pick(&["0", "1", "2", "3", "7", "127", "128", "255", "256", "65536", "0x7f", "0xffffffff", "0xffffffffffffffff", "4294967296", "18446744073709551616"]).to_string(),
            5 => number(self.r),
            6 => self.r.pick(&["1.5", "0.0", "1e10", "0x1p3", "3.4e39", "1e309", "2.", "1e-320"]).to_string(),
            7 => string(self.r),
            8 => self.r.pick(&["\"\"", "\"abc\"", "\"A\"", "\"A.B\"", "\"int\"", "'q'", "\"\\u0041\"", "\"\\\"\"", "\"é\"", "\"a\nb\"", "\"1\""]).to_string(),
            9 => format!("{}{}{}", self.r.pick(&["+", "-"]), self.gap(), self.expr()),
            _ => {
                let n = self.r.below(4);
                let mut v: Vec<String> = (0..n).map(|_| self.expr()).collect();
                if n > 0 && self.r.chance(1, 4) {
                    v.push(String::new());
                }
                format!("[{}]", v.join(","))
            }
        };
        self.depth -= 1;
        t
    }
    /// What goes between two tokens
    fn gap(&mut self) -> String {
        if self.odd() && self.odd() {
            self.r.pick(&["\n", " // c\n", "\n\n// c\n\n", "\n/// doc\n", "\n//! inner\n", "\r\n", "\t", "\n// c\n/// d\n//! e\n"]).to_string()
        } else {
            String::new()
        }
    }
    fn meta(&mut self) -> String {
        if !self.odd() {
            return String::new();
        }
        let n = self.r.below(4);
        let mut v: Vec<String> = vec![];
        for _ in 0..n {
            let k = if self.r.chance(1, 8) { self.ident() } else { self.r.pick(SOUP_KEYS).to_string() };
            let g = self.gap();
            v.push(if self.r.chance(1, 2) { k } else { format!("{k}{g}: {}", self.expr()) });
        }
        if n > 0 && self.r.chance(1, 5) {
            v.push(String::new());
        }
        format!(" ({}{})", self.gap(), v.join(", "))
    }
    fn doc(&mut self) -> String {
        match self.r.below(10) {
            0 => "/// doc\n".into(),
            1 => "//! inner\n".into(),
            2 => "// c\n".into(),
            3 => "/// one\n\n/// two\n".into(),
            _ => String::new(),
        }
    }
    fn fields(&mut self) -> String {
        let n = *self.r.pick(&[0, 1, 1, 2, 3, 6]);
        let mut t = String::new();
        for i in 0..n {
            let name = if self.odd() { self.ident() } else { format!("f{i}") };
            let value = if self.odd() || self.r.chance(1, 6) { format!(" {}= {}", self.gap(), self.expr()) } else { String::new() };
            t.push_str(&format!("{}  {name}{}: {}{value}{}{};\n", self.doc(), self.gap(), self.ty(), self.meta(), self.gap()));
        }
        t + &self.doc()
    }
    pub fn decl(&mut self) -> String {
        let name = self.ident();
        let open = |s: &mut Self, kw: &str| format!("{}{kw} {}{name}{}", s.doc(), s.gap(), s.gap());
        let kinds = if self.odd() { 18 } else { 12 };
        match self.r.below(kinds) {
            0..=4 => format!("{}{} {{\n{}}}\n", open(self, "table"), self.meta(), self.fields()),
            5 | 6 => format!("{}{} {{\n{}}}\n", open(self, "struct"), self.meta(), self.fields()),
            7 | 8 => {
                let ty = if self.odd() {
                    if self.r.chance(1, 3) { String::new() } else { format!(": {}", self.ty()) }
                } else {
                    format!(": {}", self.r.pick(&["byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong"]))
                };
                let n = *self.r.pick(&[0, 1, 2, 3, 6]);
                let mut t = String::new();
                for i in 0..n {
                    let v = if self.odd() { self.ident() } else { ["A", "B", "C", "D", "F", "G"][i].to_string() };
                    let value = if self.r.chance(1, 4) { format!(" = {}", self.expr()) } else { String::new() };
                    let comma = if i + 1 < n || self.r.chance(1, 2) { "," } else { "" };
                    t.push_str(&format!("{}  {v}{value}{}{comma}\n", self.doc(), self.gap()));
                }
                format!("{}{ty}{} {{\n{t}{}}}\n", open(self, "enum"), self.meta(), self.doc())
            }
            9 | 10 => {
                let n = *self.r.pick(&[0, 1, 2, 3, 6]);
                let mut t = String::new();
                for i in 0..n {
                    let v = if self.r.chance(1, 2) { String::new() } else { format!("{}{}: ", self.ident(), self.gap()) };
                    let comma = if i + 1 < n || self.r.chance(1, 2) { "," } else { "" };
                    let ty = if self.odd() { self.ty() } else { self.path() };
                    t.push_str(&format!("{}  {v}{ty}{}{comma}\n", self.doc(), self.meta()));
                }
                format!("{}{} {{\n{t}{}}}\n", open(self, "union"), self.meta(), self.doc())
            }
            11 => format!("{}namespace {}{};\n", self.doc(), self.path(), self.gap()),
            12 => {
                let n = self.r.below(4);
                let mut t = String::new();
                for _ in 0..n {
                    t.push_str(&format!("{}  {}({}): {}{}{};\n", self.doc(), self.ident(), self.ty(), self.ty(), self.meta(), self.gap()));
                }
                format!("{}{{\n{t}}}\n", open(self, "rpc_service"))
            }
            13 => format!("{}root_type {};\n", self.doc(), self.ty()),
            14 => format!("{}file_extension {};\n", self.doc(), if self.r.chance(1, 3) { string(self.r) } else { self.r.pick(&["\"bin\"", "\"\"", "\".x\""]).to_string() }),
            15 => format!("{}file_identifier {};\n", self.doc(), if self.r.chance(1, 3) { string(self.r) } else { self.r.pick(&["\"ABCD\"", "\"\"", "\"ABCDE\"", "\"é12\""]).to_string() }),
            16 => format!("{}attribute {};\n", self.doc(), if self.r.chance(1, 3) { string(self.r) } else { self.r.pick(&["x", "\"x\"", "table", "\"\"", "deprecated"]).to_string() }),
            _ => format!("{}{} {};\n", self.doc(), self.r.pick(&["include", "native_include"]), if self.r.chance(1, 3) { string(self.r) } else { self.r.pick(&["\"a.fbs\"", "\"b.fbs\"", "\"no.fbs\"", "\"\""]).to_string() }),
        }
    }
}

pub fn soup(r: &mut Rng) -> Files {
    let files = *r.pick(&[1, 1, 1, 2]);
    let wild = *r.pick(&[1, 2, 4, 8, 16]);
    (0..files)
        .map(|i| {
            let n = *r.pick(&[1, 1, 2, 3, 6, 12]);
            let mut t = if files > 1 { format!("include \"{}.fbs\";\n", ["b", "a"][i]) } else { String::new() };
            let mut s = Soup { r, wild, depth: 0 };
            for _ in 0..n {
                t.push_str(&s.decl());
            }
            (format!("{}.fbs", ["a", "b"][i]), t.into_bytes())
        })
        .collect()
}

pub fn case(r: &mut Rng) -> Files {
    let mut out: Files = vec![];
    if r.chance(1, 5) {
        out = soup(r);
        if r.chance(3, 4) {
            return out;
        }
    }
    if out.is_empty() {
        base(r, &mut out);
    }
    let n = out.len();
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3, 6, 12]) {
        let other = if r.chance(1, 2) { r.pick(corpus()).clone() } else { out[r.below(n)].1.clone() };
        let f = r.below(n);
        mutate(&mut out[f].1, &other, r);
    }
    out
}

fn base(r: &mut Rng, out: &mut Files) {
    match r.below(7) {
        0 => out.push(("a.fbs".into(), r.pick(corpus()).clone())),
        1 => {
            for n in ["a.fbs", "b.fbs", "sub/c.fbs"] {
                out.push((n.into(), r.pick(corpus()).clone()));
            }
        }
        2 => out.push(("a.fbs".into(), heavy(r).into_bytes())),
        3 => {
            // A chain or tangle of includes
            let n = *r.pick(&[3, 20, 120]);
            for i in 0..n {
                let mut t = String::new();
                for _ in 0..r.below(4) {
                    t.push_str(&format!("include \"f{}.fbs\";\n", r.below(n)));
                }
                t.push_str(&format!("include \"f{}.fbs\";\nnamespace n{}.m;\ntable T{i} {{ a: T{}; }}\n", (i + 1) % n, r.below(4), r.below(n)));
                out.push((format!("f{i}.fbs"), t.into_bytes()));
            }
        }
        4 => {
            // Nothing but tokens
            let mut t = String::new();
            for _ in 0..r.below(60) {
                t.push_str(*r.pick(VOCAB));
                t.push_str(*r.pick(&[" ", " ", "", "\n"]));
            }
            out.push(("a.fbs".into(), t.into_bytes()));
        }
        5 => {
            let n = r.below(200);
            out.push(("a.fbs".into(), (0..n).map(|_| r.next() as u8).collect()));
        }
        _ => {
            let cfg = Cfg::random(r);
            let p = generate(r, &cfg);
            let w = render(&p, &opts(r), None, r);
            for (f, s) in p.s.files.iter().zip(&w.srcs) {
                out.push((f.path.clone(), s.text.clone().into_bytes()));
            }
        }
    }
}

pub fn robust(ctx: &mut Ctx, mut r: Rng) -> Res {
    let dir = fresh_dir(ctx, "p");
    let files = case(&mut r);
    for (n, b) in &files {
        put(&dir, n, b);
    }
    put(&dir, "bin.fbs", &[0xff, 0xfe, 0x00, 0x80, b'{', b'\n']);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    std::os::unix::fs::symlink("loop.fbs", dir.join("loop.fbs")).unwrap();
    let mut gv: Vec<PathBuf> = files.iter().filter(|_| r.chance(2, 3)).map(|f| dir.join(&f.0)).collect();
    if gv.is_empty() {
        gv.push(dir.join(&files[0].0));
    }
    for _ in 0..*r.pick(&[0, 0, 0, 0, 1, 2]) {
        let extra = match r.below(7) {
            0 => dir.join("nothing.fbs"),
            1 => dir.join("sub"),
            2 => dir.join("bin.fbs"),
            3 => PathBuf::new(),
            4 => dir.join("loop.fbs"),
            5 => dir.join(format!("./sub/../{}", files[0].0)),
            _ => gv[0].clone(),
        };
        let at = r.below(gv.len() + 1);
        gv.insert(at, extra);
    }
    let o = random_options(&mut r);
    let show = |x: &str, err: &str| {
        let mut t = format!("{x}\ngiven {gv:?}\n{}", cut(err, 800));
        for (n, b) in &files {
            t.push_str(&format!("\n--- {n}\n{}", String::from_utf8_lossy(b)));
        }
        cut(&t, 5000)
    };
    let (ds, err) = match translate(ctx, &gv, o) {
        Ok(x) => x,
        Err(v) => viol!(v.key, "{}", show(&v.msg, "")),
    };
    let errors = diags(&err).iter().filter(|d| d.severity == "error" || d.severity == "bug").count();
    match &ds {
        None if errors == 0 => viol!("silent", "{}", show("failed without an error", &err)),
        Some(_) if errors > 0 => viol!("success-with-errors", "{}", show("succeeded but reported errors", &err)),
        _ => (),
    }
    if let Some(ds) = &ds {
        for res in [rust(ds), dot(ds)] {
            if let Err(v) = res {
                viol!(v.key, "{}", show(&v.msg, ""));
            }
        }
        ctx.st.add("sets_accepted", 1);
        ctx.st.add("declarations_generated", ds.declarations.len() as u64);
    } else {
        ctx.st.add("sets_rejected", 1);
        ctx.st.add("errors_reported", errors as u64);
        ctx.st.max("max_errors_of_one_set", errors as u64);
    }
    for f in gv.iter().take(4) {
        for ignore in [false, true] {
            let (out, err) = match format(ctx, f, ignore) {
                Ok(x) => x,
                Err(v) => viol!(format!("format-{}", v.key), "{}", show(&format!("{f:?}: {}", v.msg), "")),
            };
            let errors = diags(&err).iter().any(|d| d.severity == "error" || d.severity == "bug");
            match out {
                None if !errors => viol!("format-silent", "{}", show(&format!("formatting {f:?} failed without an error"), &err)),
                Some(_) if errors && !ignore => viol!("format-errors", "{}", show(&format!("{f:?} was formatted but errors were reported"), &err)),
                Some(_) => ctx.st.add("formatted", 1),
                None => ctx.st.add("not_formatted", 1),
            }
        }
    }
    for f in &files {
        ctx.st.seen(&f.1);
        ctx.st.add("bytes", f.1.len() as u64);
    }
    ctx.st.sample(|| String::from_utf8_lossy(&files[0].1).into_owned());
    Ok(())
}

/// A set of files of any kind that is accepted
pub fn accepted(ctx: &mut Ctx, r: &mut Rng) -> Option<(Vec<PathBuf>, Files)> {
    for _ in 0..30 {
        let dir = fresh_dir(ctx, "m");
        let files = case(r);
        for (n, b) in &files {
            put(&dir, n, b);
        }
        let gv: Vec<PathBuf> = files.iter().map(|f| dir.join(&f.0)).collect();
        if let Ok((Some(ds), _)) = translate(ctx, &gv, Default::default()) {
            if !ds.declarations.is_empty() {
                return Some((gv, files));
            }
        }
    }
    None
}
