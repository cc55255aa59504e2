//! C21: modules for rustc. Every case writes the module generated for one accepted schema set.
use crate::basic::opts;
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::viol;
use fbm::*;
use std::path::PathBuf;

pub fn compile(ctx: &mut Ctx, mut r: Rng) -> Res {
    let out = PathBuf::from(ctx.args.iter().position(|x| x == "--out").map(|i| ctx.args[i + 1].clone()).expect("--out"));
    let pretty = ctx.args.iter().any(|x| x == "--pretty");
    let name = format!("g{}_{}", ctx.k, ctx.i);
    let mut text = String::new();
    let files: Vec<PathBuf> = if ctx.i % 5 == 4 {
        let Some((gv, files)) = crate::robust::accepted(ctx, &mut r) else { return Ok(()) };
        for (n, b) in files {
            text.push_str(&format!("--- {n}\n{}\n", String::from_utf8_lossy(&b)));
        }
        ctx.st.add("mutated_schemas", 1);
        gv
    } else {
        let mut cfg = Cfg::random(&mut r);
        cfg.names = *r.pick(&[Names::Hostile, Names::Hostile, Names::Colliding, Names::Plain]);
        cfg.files = (1, *r.pick(&[1, 2, 4]));
        cfg.decls = (2, *r.pick(&[6, 12, 20]));
        cfg.empty = r.chance(1, 2);
        let p = generate(&mut r, &cfg);
        let w = render(&p, &opts(&mut r), None, &mut r);
        let dir = fresh_dir(ctx, "p");
        put_all(&dir, &p, &w);
        text = show(&p, &w);
        roots(&dir, &p)
    };
    let (ds, err) = translate(ctx, &files, Default::default())?;
    let Some(ds) = ds else { viol!("rejected", "a valid schema is rejected: {}\n{text}", cut(&err, 1500)) };
    // Chains of declarations as long as these exceed the default recursion limit of rustc, and
    // thousands of fields its patience
    let fields: usize = ds.declarations.values().map(|d| match &d.kind {
        planus_types::intermediate::DeclarationKind::Table(t) => t.fields.len(),
        _ => 0,
    }).max().unwrap_or(0);
    if ds.declarations.len() > 60 || fields > 80 {
        ctx.st.add("too_large_to_compile", 1);
        return Ok(());
    }
    let raw = match rust(&ds) {
        Ok(x) => x,
        Err(v) => viol!(v.key, "{}\n{text}", v.msg),
    };
    if rust(&ds)? != raw {
        viol!("deterministic", "generating code twice from the same declarations gives different texts\n{text}");
    }
    let (again, _) = translate(ctx, &files, Default::default())?;
    if rust(&again.unwrap())? != raw {
        viol!("deterministic", "generating code twice from the same files gives different texts\n{text}");
    }
    put(&out, &format!("{name}.raw"), raw.as_bytes());
    put(&out, &format!("{name}.txt"), text.as_bytes());
    let mut code = raw;
    // What the command does if it is not told otherwise
    if pretty && ctx.i % 2 == 0 {
        code = match quiet(|| planus_codegen::generate_rust(&ds, true)) {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => viol!("rustfmt", "formatting the generated code fails: {e}\n{text}"),
            Err(p) => viol!("panic", "formatting the generated code panics: {p}\n{text}"),
        };
        ctx.st.add("modules_formatted_by_rustfmt", 1);
    }
    put(&out, &format!("{name}.rs"), code.as_bytes());
    ctx.st.add("modules", 1);
    ctx.st.add("declarations", ds.declarations.len() as u64);
    ctx.st.add("lines_of_code", code.lines().count() as u64);
    ctx.st.seen(&text);
    ctx.st.sample(|| text.clone());
    Ok(())
}
