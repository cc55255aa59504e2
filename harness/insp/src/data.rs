//! Schemas with buffers written by the independent writer.
use crate::run::*;
use crate::sg;
use crate::{harness, viol};
use fbm::gen::*;
use fbm::*;
use planus_types::intermediate::{AbsolutePath, DeclarationIndex, Declarations};
use std::path::Path;

pub struct Data {
    pub s: Schema,
    pub root: usize,
    pub buf: Vec<u8>,
    pub text: String,
    pub newer: bool,
}

/// Many types of tables with the same contents, so that their vtables are the same
fn twins(r: &mut Rng) -> Schema {
    let mut b = B::new("twins");
    let n = 2 + r.below(40);
    let scalars = r.below(3);
    let kids: Vec<usize> = (0..n)
        .map(|_| {
            let t = b.table(0);
            for _ in 0..scalars {
                b.field(t, Ty::Sc(Sc::U32), Mode::Opt);
            }
            t
        })
        .collect();
    let root = b.table(0);
    for k in kids {
        b.field(root, Ty::Table(k), Mode::Req);
    }
    b.done(&[root])
}

/// Files of a schema below a directory, the ones to give to the compiler first
fn files(r: &mut Rng) -> (Schema, Vec<(String, String)>, Vec<usize>) {
    if r.chance(1, 12) {
        let s = twins(r);
        let t = fbm::text::render(&s, fbm::text::Style { vary: false }, Rng::new(r.next()));
        return (s, t, vec![0]);
    }
    match r.below(8) {
        0..=2 => {
            let cfg = sg::Cfg { files: (1, 2), decls: (3, 12), fields: *r.pick(&[4, 8, 14]), names: *r.pick(&[sg::Names::Plain, sg::Names::Colliding, sg::Names::Hostile]), docs: false, connected: true, force_align: r.chance(1, 3), empty: r.chance(1, 4) };
            let p = sg::generate(r, &cfg);
            let w = sg::render(&p, &fbm::src::Opts { vary: false, shuffle: true, extras: false }, None, r);
            let t = p.s.files.iter().zip(&w.srcs).map(|(f, s)| (f.path.clone(), s.text.clone())).collect();
            (p.s, t, p.roots)
        }
        n => {
            let k = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7]);
            let (name, k) = if n < 6 { ("main", k) } else { ("evo", k) };
            let mut s = profile(name, r.next(), k);
            // Deprecated fields are in the buffers of older programs
            for d in s.decls.iter_mut() {
                if let Kind::Table { fields, .. } = &mut d.kind {
                    for f in fields {
                        f.deprecated |= f.mode == Mode::Opt && r.chance(1, 10);
                    }
                }
            }
            let t = fbm::text::render(&s, fbm::text::Style { vary: false }, Rng::new(r.next()));
            let all = (0..s.files.len()).collect();
            (s, t, all)
        }
    }
}

/// The schema, a buffer, and what the compiler makes of the schema
pub fn make(ctx: &mut Ctx, r: &mut Rng) -> Result<Option<(Data, Declarations, DeclarationIndex)>, Viol> {
    let (s, texts, given) = files(r);
    let dir = ctx.dir.join("p");
    let _ = std::fs::remove_dir_all(&dir);
    for (p, t) in &texts {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    let given: Vec<_> = given.iter().map(|i| dir.join(&texts[*i].0)).collect();
    ctx.cap.clear();
    let Some(ds) = planus_translation::translate_files_with_options(&given, Default::default()) else {
        harness!("the compiler rejects a schema: {}", cut(&ctx.cap.take(), 1000))
    };
    let mut ws = s.clone();
    for d in ws.decls.iter_mut() {
        if let Kind::Table { fields, .. } = &mut d.kind {
            fields.iter_mut().for_each(|f| f.deprecated = false);
        }
    }
    ws.layout();
    let cand: Vec<usize> = s.tables().into_iter().filter(|d| ws.ok(*d)).collect();
    if cand.is_empty() {
        return Ok(None);
    }
    // Buffers of newer programs are read with the older schema
    let pair = if r.chance(2, 3) { s.pairs.iter().copied().filter(|p| ws.ok(p.1)).collect::<Vec<_>>() } else { vec![] };
    let (root, writer) = if pair.is_empty() {
        let main: Vec<usize> = s.roots.iter().copied().filter(|d| cand.contains(d)).collect();
        let any = main.is_empty() || r.chance(1, 2);
        let d = *r.pick(if any { &cand } else { &main });
        (d, d)
    } else {
        *r.pick(&pair)
    };
    let mut cfg = GenCfg::random(r);
    cfg.big &= r.chance(1, 4);
    let v = gen_value(&ws, &Ty::Table(writer), r, &mut cfg, 0);
    let mut l = encode::Layout::random(r);
    l.far_vtables = r.chance(1, 4);
    let buf = encode::encode(&ws, writer, &v, &l, r);
    let path = AbsolutePath(s.path(root).split('.').map(|x| x.to_string()).collect());
    let Some(i) = ds.declarations.get_index_of(&path) else { viol!("declaration", "there is no declaration {:?}", s.path(root)) };
    let mut text: String = texts.iter().map(|(p, t)| format!("--- {p}\n{t}\n")).collect();
    text = cut(&text, 3000);
    Ok(Some((Data { newer: root != writer, s, root, buf, text }, ds, DeclarationIndex(i))))
}

impl Data {
    pub fn show(&self, msg: String) -> String {
        let hex: String = self.buf.iter().take(2000).map(|b| format!("{b:02x}")).collect();
        cut(&format!("{msg}\nroot {} of\n{}\nbuffer of {} bytes: {hex}", self.s.path(self.root), self.text, self.buf.len()), 7000)
    }
}

/// Writes schema files and a buffer for the real command; prints the schema file and the root type
pub fn dump(dir: &Path, seed: u64) {
    let mut r = Rng::new(seed);
    let s = kitchen_sink();
    std::fs::create_dir_all(dir).unwrap();
    for (p, t) in fbm::text::render(&s, fbm::text::Style { vary: false }, Rng::new(1)) {
        std::fs::write(dir.join(p), t).unwrap();
    }
    let root = *s.roots.last().unwrap();
    let mut cfg = GenCfg { budget: 200, max_depth: 5, big: false, huge: false, density: 8, def_density: 2, no_nan: false };
    let v = gen_value(&s, &Ty::Table(root), &mut r, &mut cfg, 0);
    let b = encode::encode(&s, root, &v, &encode::Layout::random(&mut r), &mut r);
    std::fs::write(dir.join("data.bin"), &b).unwrap();
    println!("{}\n{}\n{}", s.files[s.decls[root].file].path, s.path(root), b.len());
}
