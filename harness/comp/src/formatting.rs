//! C26: formatting keeps meaning, tokens and comments.
use crate::basic::opts;
use crate::canon::*;
use crate::fault::{diags, tokens};
use crate::run::*;
use crate::sg::*;
use crate::util::*;
use crate::viol;
use fbm::src::*;
use fbm::*;

/// Tokens of a text without layout, and its comments
pub fn scan(t: &str) -> (Vec<String>, Vec<String>) {
    let c: Vec<char> = t.chars().collect();
    let (mut toks, mut comments) = (vec![], vec![]);
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            let mut s = String::new();
            while i < c.len() && c[i] != '\n' {
                s.push(c[i]);
                i += 1;
            }
            comments.push(s.trim_end_matches('\r').to_string());
        } else if c[i] == '"' || c[i] == '\'' {
            let q = c[i];
            let mut s = String::from(q);
            i += 1;
            while i < c.len() && c[i] != q {
                s.push(c[i]);
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    s.push(c[i]);
                }
                i += 1;
            }
            s.push(q);
            i += 1;
            toks.push(s);
        } else if c[i].is_whitespace() {
            i += 1;
        } else if c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit()) && !toks.last().is_some_and(|x: &String| x.chars().all(|y| y.is_alphanumeric() || y == '_')) {
            let number = !c[i].is_alphabetic() && c[i] != '_';
            let hex = c[i] == '0' && matches!(c.get(i + 1), Some('x' | 'X'));
            let mut s = String::new();
            while i < c.len() {
                let sign = (c[i] == '+' || c[i] == '-') && number && s.len() > 1 && matches!(s.chars().last(), Some('e' | 'E' | 'p' | 'P')) && (hex == matches!(s.chars().last(), Some('p' | 'P')));
                if c[i].is_alphanumeric() || c[i] == '_' || number && c[i] == '.' || sign {
                    s.push(c[i]);
                    i += 1;
                } else {
                    break;
                }
            }
            toks.push(s);
        } else {
            toks.push(c[i].to_string());
            i += 1;
        }
    }
    (toks, comments)
}

/// Without the commas in front of closing brackets
fn plain(t: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for x in t {
        if matches!(x.as_str(), ")" | "]" | "}") && out.last().is_some_and(|y| y == ",") {
            out.pop();
        }
        out.push(x.clone());
    }
    out
}

fn first_difference(a: &[String], b: &[String]) -> String {
    let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
    let lo = i.saturating_sub(4);
    format!("{:?} became {:?}", &a[lo.min(a.len())..(i + 3).min(a.len())], &b[lo.min(b.len())..(i + 3).min(b.len())])
}

pub fn formatting(ctx: &mut Ctx, mut r: Rng) -> Res {
    match ctx.i % 4 {
        0 | 1 => good(ctx, &mut r),
        2 => any_text(ctx, &mut r),
        _ => faulty(ctx, &mut r),
    }
}

/// Whatever the grammar accepts, valid or not, keeps its tokens and comments
fn any_text(ctx: &mut Ctx, r: &mut Rng) -> Res {
    for _ in 0..8 {
        let (_, text) = crate::robust::soup(r).remove(0);
        let text = String::from_utf8(text).unwrap();
        let dir = fresh_dir(ctx, "p");
        put(&dir, "a.fbs", text.as_bytes());
        let (out, err) = format(ctx, &dir.join("a.fbs"), false)?;
        let errors = diags(&err).iter().any(|d| d.severity == "error");
        let show = |x: &str, out: &str| format!("{x}\n{}\n--- original\n{}\n--- formatted\n{}", cut(&err, 800), cut(&text, 2000), cut(out, 2000));
        if out.is_some() == errors {
            viol!("verdict", "{}", show("the result and the messages disagree", &out.unwrap_or_default()));
        }
        let Some(out) = out else {
            ctx.st.add("texts_with_syntax_errors", 1);
            continue;
        };
        let ((t0, c0), (t1, c1)) = (scan(&text), scan(&out));
        let (t0, t1) = (plain(&t0), plain(&t1));
        if t0 != t1 {
            viol!("any-tokens", "{}", show(&format!("the tokens changed: {}", first_difference(&t0, &t1)), &out));
        }
        if c0 != c1 {
            viol!("any-comments", "{}", show(&format!("the comments changed: {}", first_difference(&c0, &c1)), &out));
        }
        put(&dir, "b.fbs", out.as_bytes());
        let (again, _) = format(ctx, &dir.join("b.fbs"), false)?;
        if again.as_deref() != Some(&out) {
            viol!("any-fixed-point", "{}", show(&format!("formatting again changes the text to\n{}\n---", again.unwrap_or_default()), &out));
        }
        ctx.st.seen(&text);
        ctx.st.add("texts_of_the_whole_grammar", 1);
        ctx.st.add("tokens_kept", t0.len() as u64);
        ctx.st.add("comments_kept", c0.len() as u64);
    }
    Ok(())
}

fn good(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut cfg = Cfg::random(r);
    cfg.decls.1 = cfg.decls.1.min(8);
    let p = generate(r, &cfg);
    let mut o = opts(r);
    o.extras = r.chance(1, 2);
    let tk = tokens(&p, &o, r);
    let dir = fresh_dir(ctx, "p");
    let (mut srcs, mut outs) = (vec![], vec![]);
    for f in 0..p.s.files.len() {
        let mut l = Layout::random(r);
        if r.chance(1, 2) {
            l.comments = *r.pick(&[5, 20, 60]);
        }
        let tk = tk[f].clone();
        let s = lay(&tk, &l, r);
        put(&dir, &p.s.files[f].path, s.text.as_bytes());
        srcs.push((tk, s));
    }
    let (ds, err) = translate(ctx, &roots(&dir, &p), Default::default())?;
    let Some(ds) = ds else { viol!("rejected", "a valid schema is rejected: {}", cut(&err, 1500)) };
    let before = canon_il(&ds);
    for (f, (tk, s)) in srcs.iter().enumerate() {
        let path = dir.join(&p.s.files[f].path);
        let (out, err) = format(ctx, &path, r.chance(1, 4))?;
        let Some(out) = out else { viol!("none", "a valid schema is not formatted: {}\n{}", cut(&err, 1500), s.text) };
        if !err.is_empty() {
            viol!("noise", "messages about a valid schema: {}\n{}", cut(&err, 1500), s.text);
        }
        let show = |x: &str| format!("{x}\n--- original\n{}\n--- formatted\n{}", cut(&s.text, 2000), cut(&out, 2000));
        if std::fs::read(&path).unwrap() != s.text.as_bytes() {
            viol!("input", "formatting changed the input file");
        }
        let (t2, c2) = scan(&out);
        let t1: Vec<String> = tk.iter().map(|x| x.t.clone()).collect();
        // The scanner has to agree with what was written
        let (t0, c0) = scan(&s.text);
        let want: Vec<String> = s.comments.iter().map(|x| format!("{}{}", x.0, x.1).trim_end_matches('\r').to_string()).collect();
        if c0 != want || t0 != scan(&t1.join(" ")).0 {
            crate::harness!("{}", show(&format!("scanner: {} {}", first_difference(&want, &c0), first_difference(&scan(&t1.join(" ")).0, &t0))));
        }
        let (a, b) = (plain(&t0), plain(&t2));
        if a != b {
            viol!("tokens", "{}", show(&format!("the tokens changed: {}", first_difference(&a, &b))));
        }
        if c2 != want {
            viol!("comments", "{}", show(&format!("the comments changed: {}", first_difference(&want, &c2))));
        }
        ctx.st.add("tokens_kept", a.len() as u64);
        ctx.st.add("comments_kept", want.len() as u64);
        ctx.st.seen(&s.text);
        outs.push(out);
    }
    // Formatted files mean the same
    for (f, out) in outs.iter().enumerate() {
        put(&dir, &p.s.files[f].path, out.as_bytes());
    }
    let (ds, err) = translate(ctx, &roots(&dir, &p), Default::default())?;
    let show = |x: &str| {
        let mut t = x.to_string();
        for ((f, (_, s)), o) in p.s.files.iter().zip(&srcs).zip(&outs) {
            t.push_str(&format!("\n--- {}\n{}\n--- formatted\n{o}", f.path, s.text));
        }
        cut(&t, 5000)
    };
    let Some(ds) = ds else { viol!("formatted-rejected", "{}", show(&cut(&err, 1500))) };
    if let Some(d) = crate::canon::diff(&before, &canon_il(&ds)) {
        viol!("meaning", "{}", show(&d));
    }
    for (f, out) in outs.iter().enumerate() {
        let path = dir.join(&p.s.files[f].path);
        let (again, _) = format(ctx, &path, false)?;
        if again.as_deref() != Some(out) {
            let (a, b): (Vec<String>, Vec<String>) = (out.lines().map(|x| x.into()).collect(), again.unwrap_or_default().lines().map(|x| x.into()).collect());
            viol!("fixed-point", "formatting again changes the text: {}\n{}", first_difference(&a, &b), show(""));
        }
        // The output of the command ends with an empty line
        put(&dir, "extra.fbs", format!("{out}\n").as_bytes());
        let (again, _) = format(ctx, &dir.join("extra.fbs"), false)?;
        if again.as_deref() != Some(out) {
            viol!("fixed-point-newline", "{}", show("formatting the output of the command changes it"));
        }
        ctx.st.add("files_formatted_twice", 1);
    }
    ctx.st.sample(|| outs[0].clone());
    Ok(())
}

/// One declaration has a syntax error
fn faulty(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut cfg = Cfg::random(r);
    cfg.files = (1, 1);
    cfg.decls = (3, 8);
    let p = generate(r, &cfg);
    let tk = tokens(&p, &opts(r), r).remove(0);
    if tk.is_empty() {
        return Ok(());
    }
    // Declarations as ranges of tokens
    let mut starts = vec![];
    let mut depth = 0;
    for (i, t) in tk.iter().enumerate() {
        if t.first && depth == 0 {
            starts.push(i);
        }
        match t.t.as_str() {
            "{" => depth += 1,
            "}" => depth -= 1,
            _ => (),
        }
    }
    let k = r.below(starts.len());
    let (a, b) = (starts[k], starts.get(k + 1).copied().unwrap_or(tk.len()));
    let mut bad = tk.clone();
    let i = r.range(a, b - 1);
    let junk = *r.pick(&["{", "}", "(", ")", "[", "]", ";", ":", ",", "=", ".", "5", "x", "\"s\"", "table", "struct", "-", "enum", "1.5", "namespace"]);
    let n = |t: &str| Tok { t: t.into(), docs: vec![], inner: vec![], mark: String::new(), first: false };
    match r.below(4) {
        0 => {
            let t = bad.remove(i);
            if i < bad.len() && i == a {
                bad[i].inner = t.inner;
            }
        }
        1 => bad.insert(i + 1, n(junk)),
        2 => bad[i].t = junk.to_string(),
        _ => {
            let t = bad[i].clone();
            bad.insert(i + 1, n(&t.t));
        }
    }
    let l = Layout::random(r);
    let s = lay(&bad, &l, r);
    let dir = fresh_dir(ctx, "p");
    put(&dir, "a.fbs", s.text.as_bytes());
    let path = dir.join("a.fbs");
    let (out, err) = format(ctx, &path, false)?;
    let errors = diags(&err).iter().any(|d| d.severity == "error");
    let show = |x: &str, out: &str| format!("{x}\n{}\n--- original\n{}\n--- formatted\n{}", cut(&err, 800), cut(&s.text, 2000), cut(out, 2000));
    ctx.st.seen(&s.text);
    if out.is_some() == errors {
        viol!("verdict", "{}", show("the result and the messages disagree", &out.unwrap_or_default()));
    }
    let (t0, _) = scan(&s.text);
    let all = plain(&t0);
    if let Some(out) = out {
        // It was not an error after all
        let t2 = plain(&scan(&out).0);
        if all != t2 {
            viol!("tokens", "{}", show(&format!("the tokens changed: {}", first_difference(&all, &t2)), &out));
        }
        ctx.st.add("faults_that_are_none", 1);
        return Ok(());
    }
    ctx.st.add("files_with_syntax_errors", 1);
    let (forced, err2) = format(ctx, &path, true)?;
    let Some(forced) = forced else {
        if !diags(&err2).iter().any(|d| d.severity == "error") {
            viol!("silent", "{}", show("failed without an error", ""));
        }
        ctx.st.add("files_that_cannot_be_formatted", 1);
        return Ok(());
    };
    let t2 = plain(&scan(&forced).0);
    let front = plain(&scan(&tk[..a].iter().map(|x| x.t.clone()).collect::<Vec<_>>().join(" ")).0);
    // The region ends with the first declaration after the last error
    let last = diags(&err2).iter().flat_map(|d| d.at.iter().map(|x| x.1)).max().unwrap_or(0);
    let delta = bad.len() as i64 - tk.len() as i64;
    let at = |i: usize| s.lines[((i as i64 + delta) as usize).min(s.lines.len() - 1)];
    let b = starts.iter().copied().filter(|x| *x >= b).find(|x| at(*x) > last).unwrap_or(tk.len());
    let back = plain(&scan(&tk[b..].iter().map(|x| x.t.clone()).collect::<Vec<_>>().join(" ")).0);
    if !t2.starts_with(&front) {
        viol!("front", "{}", show("a declaration in front of the error changed", &forced));
    }
    if !t2.ends_with(&back) {
        viol!("back", "{}", show(&format!("a declaration behind the error changed: {}", first_difference(&back, &t2[t2.len().saturating_sub(back.len())..])), &forced));
    }
    // What is inside the region is a part of what was there
    let no_comma = |x: &Vec<String>| x.iter().filter(|y| *y != ",").flat_map(|y| y.chars()).collect::<Vec<char>>();
    let (whole, part) = (no_comma(&all), no_comma(&t2));
    let mut rest = whole.iter();
    if let Some(x) = part.iter().find(|x| !rest.any(|y| y == *x)) {
        viol!("altered", "{}", show(&format!("the character {x} is new"), &forced));
    }
    ctx.st.add("tokens_of_other_declarations_kept", (front.len() + back.len()) as u64);
    ctx.st.add("files_formatted_in_spite_of_errors", 1);
    Ok(())
}
