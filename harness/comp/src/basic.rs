//! Valid schemas: accepted, with the right declarations.
use crate::canon::*;
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::viol;
use fbm::src::*;
use fbm::*;

pub fn opts(r: &mut Rng) -> Opts {
    Opts { vary: r.chance(3, 4), shuffle: true, extras: r.chance(1, 3) }
}

/// C22: valid schema sets are accepted, and mean what the model says
pub fn valid(ctx: &mut Ctx, mut r: Rng) -> Res {
    let cfg = Cfg::random(&mut r);
    let p = generate(&mut r, &cfg);
    let w = render(&p, &opts(&mut r), None, &mut r);
    let dir = fresh_dir(ctx, "p");
    put_all(&dir, &p, &w);
    let (ds, err) = translate(ctx, &roots(&dir, &p), Default::default())?;
    let Some(ds) = ds else { viol!("rejected", "a valid schema is rejected: {}\n{}", cut(&err, 1500), show(&p, &w)) };
    if !err.is_empty() {
        viol!("noise", "messages about a valid schema: {}\n{}", cut(&err, 1500), show(&p, &w));
    }
    if let Some(d) = crate::canon::diff(&canon_model(&p), &canon_il(&ds)) {
        viol!("differs", "{d}\n{}", show(&p, &w));
    }
    let st = &mut ctx.st;
    st.add("schemas_accepted", 1);
    st.add("files", p.s.files.len() as u64);
    st.add("declarations", p.s.decls.len() as u64);
    for s in &w.srcs {
        st.seen(&s.text);
        st.add("tokens", s.lines.len() as u64);
    }
    st.sample(|| w.srcs[0].text.clone());
    Ok(())
}
