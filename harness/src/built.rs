//! Replays documents built by pushes (PushMC.tla) and by hand (Build.tla).
use crate::json::J;
use crate::real::{self, *};
use crate::replay::{bad, counted_ok, map_res, Bad};
use crate::tree::*;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, InternalError};

pub fn problems_of(j: &J) -> Vec<(String, String, i64, i64)> {
    j.arr()
        .iter()
        .map(|p| (p.get("kind").str().to_string(), text_of(p.get("arg")), p.get("e").num(), p.get("g").num()))
        .collect()
}
fn secs_of(j: &J) -> Vec<Vec<Ch>> {
    ["pre", "body", "tr"].iter().map(|k| chunks_of(j.get(k))).collect()
}

pub enum Doc {
    One(ast1::Document),
    Two(ast2::Document),
    Three(ast3::Document),
}

macro_rules! push12 {
    ($d:expr, $o:expr, $x:expr, $variant:ident, $chunk:ident) => {
        match $o {
            "push" => $d.push($variant(&$x.k)),
            "pushu" => Ok($d.push_unchecked($variant(&$x.k))),
            "chunk" => $d.push_chunk($chunk($x)),
            "chunku" => Ok($d.push_chunk_unchecked($chunk($x))),
            o => panic!("operation {o}"),
        }
    };
}

impl Doc {
    pub fn start(g: i64, hb: bool) -> Doc {
        match g {
            1 => Doc::One(ast1::Document::default()),
            2 => Doc::Two(ast2::Document::default()),
            _ if hb => Doc::Three(ast3::Document::default()),
            _ => match parse3("") {
                Res::Ok(d) => Doc::Three(d),
                _ => tool_error("empty source refused"),
            },
        }
    }
    pub fn apply(&mut self, o: &str, sec: &str, x: &Ch) -> Result<(), InternalError> {
        match self {
            Doc::One(d) if o == "into" => Ok(d.push_into_unchecked(build2_chunk(x))),
            Doc::One(d) => push12!(d, o, x, build1_variant, build1_chunk),
            Doc::Two(d) => push12!(d, o, x, build2_variant, build2_chunk),
            Doc::Three(d) => match (sec, o) {
                ("pre", "push") => d.push_preamable(build3_variant(&x.k)),
                ("pre", "pushu") => Ok(d.push_preamable_unchecked(build3_variant(&x.k))),
                ("pre", "chunk") => d.push_preamable_chunk(build3_chunk(x)),
                ("pre", "chunku") => Ok(d.push_preamable_chunk_unchecked(build3_chunk(x))),
                ("body", "push") => d.push_body(build3_variant(&x.k)),
                ("body", "pushu") => Ok(d.push_body_unchecked(build3_variant(&x.k))),
                ("body", "chunk") => d.push_body_chunk(build3_chunk(x)),
                ("body", "chunku") => Ok(d.push_body_chunk_unchecked(build3_chunk(x))),
                ("tr", "push") => d.push_trailing(build3_variant(&x.k)),
                ("tr", "pushu") => Ok(d.push_trailing_unchecked(build3_variant(&x.k))),
                ("tr", "chunk") => d.push_trailing_chunk(build3_chunk(x)),
                ("tr", "chunku") => Ok(d.push_trailing_chunk_unchecked(build3_chunk(x))),
                o => panic!("operation {o:?}"),
            },
        }
    }
    pub fn secs(&self) -> Vec<Vec<Ch>> {
        match self {
            Doc::One(d) => vec![see1(d.chunks()), vec![], vec![]],
            Doc::Two(d) => vec![see2(d.chunks()), vec![], vec![]],
            Doc::Three(d) => vec![see3(d.chunks_preamable()), see3(d.chunks_body()), see3(d.chunks_trailing())],
        }
    }
    pub fn hb(&self) -> bool {
        match self {
            Doc::Three(d) => d.has_body(),
            _ => true,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Doc::One(d) => d.to_string(),
            Doc::Two(d) => d.to_string(),
            Doc::Three(d) => d.to_string(),
        }
    }
    pub fn verdict(&self) -> Verdict {
        match self {
            Doc::One(d) => real::validate(d),
            Doc::Two(d) => real::validate(d),
            Doc::Three(d) => real::validate(d),
        }
    }
}
fn part_valid(g: i64, x: &Ch) -> bool {
    match g {
        1 => build1_variant(&x.k).validate().is_ok(),
        2 => build2_variant(&x.k).validate().is_ok(),
        _ => build3_variant(&x.k).validate().is_ok(),
    }
}
fn part_text(g: i64, o: &str, x: &Ch) -> String {
    match g {
        _ if o == "into" => build2_variant(&x.k).to_string(),
        1 => build1_variant(&x.k).to_string(),
        2 => build2_variant(&x.k).to_string(),
        _ => build3_variant(&x.k).to_string(),
    }
}
/// What refusals of the same operation may say
fn says(e: &InternalError, allowed: &[(String, String, i64, i64)], part_bad: bool) -> bool {
    let i = internal(e);
    if i.0 == "IncorrectChunkLineNumber" || !part_bad {
        allowed.contains(&i)
    } else {
        // which problem of the part is told is C17's concern
        true
    }
}

/// C16: one history, given with the state it should lead to
pub fn check_push(j: &J, conc: u64) -> Option<Bad> {
    set_concrete(conc);
    let g = j.get("g").num();
    let ops = j.get("hist").arr();
    let xs: Vec<Ch> = ops.iter().map(|o| chunk_of(o.get("x"))).collect();
    let part_bad: Vec<bool> = j.get("bad").arr().iter().map(|b| b.bool()).collect();
    for (i, o) in ops.iter().enumerate() {
        let o = o.get("o").str();
        if (o == "push" || o == "chunk") && part_valid(g, &xs[i]) == part_bad[i] {
            return None;
        }
    }
    let mut d = Doc::start(g, j.get("hb0").bool());
    let mut said = [String::new(), String::new(), String::new()];
    for (i, op) in ops.iter().enumerate() {
        let (o, sec) = (op.get("o").str(), op.get("sec").str());
        let before = d.secs();
        let hb = d.hb();
        let what = format!("{o} {:?} to {sec} after {i} operations", xs[i]);
        let r = match guard(|| d.apply(o, sec, &xs[i])) {
            Err(p) => return bad(&what, "no panic", format!("panic: {p}")),
            Ok(r) => r,
        };
        match &r {
            Ok(()) => said[["pre", "body", "tr"].iter().position(|s| *s == sec).unwrap()]
                .push_str(&part_text(g, o, &xs[i])),
            Err(_) if before != d.secs() || hb != d.hb() => {
                return bad(&what, format!("refused leaves {before:?}"), format!("{:?}", d.secs()))
            }
            _ => {}
        }
        if i + 1 == ops.len() {
            let want = problems_of(j.get("last"));
            match &r {
                Ok(()) if want.is_empty() => {}
                Err(e) if !want.is_empty() && says(e, &want, part_bad[i]) => {}
                r => return bad(&what, format!("refused for {want:?} (accepted if empty)"), format!("{r:?}")),
            }
        }
    }
    let want = secs_of(j.get("secs"));
    if want != d.secs() {
        return bad("chunks after the history", format!("{want:?}"), format!("{:?}", d.secs()));
    }
    if d.hb() != j.get("hb").bool() {
        return bad("has_body after the history", j.get("hb").bool(), d.hb());
    }
    if j.get("clean").bool() && d.verdict().is_some() {
        return bad("validation after checked pushes", "valid", format!("{:?}", d.verdict()));
    }
    let text = if g == 3 && d.hb() {
        format!("{}\\begin{{document}}{}\\end{{document}}{}", said[0], said[1], said[2])
    } else {
        said.concat()
    };
    if text != d.text() {
        return bad("rendered text after the history", enc(&text), enc(&d.text()));
    }
    None
}

// ------------------------------------------------------------------- by hand

/// Checking constructors and validation of one chunk, and what it is made of
macro_rules! parts {
    ($f:ident, $g:literal, $ast:ident, $variant:ident, $chunks:ident, $args:ident, $sv:ident, $extra:ident) => {
        fn $f(x: &Ch) -> Vec<(&'static str, Verdict)> {
            let v = $variant(&x.k);
            let mut out = vec![
                ("chunk variant validation", real::validate(&v)),
                ("chunk constructor", verdict($ast::Chunk::new(x.l as u32, v.clone()).map(drop))),
                ("chunk validation", real::validate(&$ast::Chunk::new_unchecked(x.l as u32, v))),
            ];
            match &x.k {
                K::S { v, c } => {
                    out.push(("scope constructor", verdict($ast::Scope::new($chunks(c), $sv(*v)).map(drop))));
                    out.push(("scope validation", real::validate(&$ast::Scope::new_unchecked($chunks(c), $sv(*v)))));
                }
                K::C { n, a } => {
                    out.push(("command constructor", verdict($ast::Command::new(dec(n), $args(a)).map(drop))));
                    out.push(("command validation", real::validate(&$ast::Command::new_unchecked(dec(n), $args(a)))));
                }
                _ => $extra(x, &mut out),
            }
            out
        }
    };
}
fn extra1(_: &Ch, _: &mut Vec<(&'static str, Verdict)>) {}
fn extra2(x: &Ch, out: &mut Vec<(&'static str, Verdict)>) {
    if let K::E { n, a, c, p, q } = &x.k {
        out.push((
            "environment constructor",
            verdict(ast2::Environment::new(dec(n), build2_args(a), build2(c), dec(p), dec(q)).map(drop)),
        ));
        out.push((
            "environment validation",
            real::validate(&ast2::Environment::new_unchecked(dec(n), build2_args(a), build2(c), dec(p), dec(q))),
        ));
    }
}
fn extra3(x: &Ch, out: &mut Vec<(&'static str, Verdict)>) {
    match &x.k {
        K::E { n, a, c, p, q } => {
            out.push((
                "environment constructor",
                verdict(ast3::Environment::new(dec(n), build3_args(a), build3(c), dec(p), dec(q)).map(drop)),
            ));
            out.push((
                "environment validation",
                real::validate(&ast3::Environment::new_unchecked(dec(n), build3_args(a), build3(c), dec(p), dec(q))),
            ));
        }
        K::M { v, t, c } => {
            out.push(("maths constructor", verdict(ast3::MathsBlock::new(mv(*v), mt(*t), build3(c)).map(drop))));
            out.push(("maths validation", real::validate(&ast3::MathsBlock::new_unchecked(mv(*v), mt(*t), build3(c)))));
        }
        _ => {}
    }
}
parts!(parts1, 1, ast1, build1_variant, build1, build1_args, sv1, extra1);
parts!(parts2, 2, ast2, build2_variant, build2, build2_args, sv2, extra2);
parts!(parts3, 3, ast3, build3_variant, build3, build3_args, sv3, extra3);

/// All chunks, outer before inner, arguments before content
fn all<'a>(cs: &'a [Ch], out: &mut Vec<&'a Ch>) {
    for x in cs {
        out.push(x);
        match &x.k {
            K::T(_) | K::P(_) => {}
            K::S { c, .. } | K::M { c, .. } => all(c, out),
            K::C { a, .. } => all_args(a, out),
            K::E { a, c, .. } => {
                all_args(a, out);
                all(c, out)
            }
        }
    }
}
fn all_args<'a>(a: &'a [Arg], out: &mut Vec<&'a Ch>) {
    for a in a {
        all(&a.c, out)
    }
}

/// Every accessor returns what the part was built from
macro_rules! accessors {
    ($f:ident, $ast:ident, $variant:ident, $chunk:ident, $chunks:ident, $args:ident, $see:ident, $see_args:ident, $sv:ident) => {
        fn $f(x: &Ch) -> Option<Bad> {
            let c = $chunk(x);
            let v = $variant(&x.k);
            let mut m = $ast::Chunk::new_unchecked(x.l as u32, $ast::ChunkVariant::Text("other".into()));
            *m.variant_mut() = v.clone();
            if c.line_no() as i64 != x.l
                || *c.variant() != v
                || c.clone().variant_owned() != v
                || c.clone().decompose() != (x.l as u32, v.clone())
                || m != c
            {
                return bad("accessors of chunk", format!("{x:?}"), format!("{c:?}"));
            }
            match &x.k {
                K::S { v, c } => {
                    let s = $ast::Scope::new_unchecked($chunks(c), $sv(*v));
                    if *s.chunks() != $chunks(c)
                        || s.clone().chunks_owned() != $chunks(c)
                        || s.variant() != $sv(*v)
                        || s.clone().decompose() != ($chunks(c), $sv(*v))
                        || $see(s.chunks()) != *c
                    {
                        return bad("accessors of scope", format!("{x:?}"), format!("{s:?}"));
                    }
                }
                K::C { n, a } => {
                    let s = $ast::Command::new_unchecked(dec(n), $args(a));
                    if *s.label() != dec(n)
                        || *s.arguments() != $args(a)
                        || s.clone().label_owned() != dec(n)
                        || s.clone().arguments_owned() != $args(a)
                        || s.clone().decompose() != (dec(n), $args(a))
                        || $see_args(s.arguments()) != *a
                    {
                        return bad("accessors of command", format!("{x:?}"), format!("{s:?}"));
                    }
                }
                _ => {}
            }
            None
        }
    };
}
accessors!(acc1, ast1, build1_variant, build1_chunk, build1, build1_args, see1, see1_args, sv1);
accessors!(acc2, ast2, build2_variant, build2_chunk, build2, build2_args, see2, see2_args, sv2);
accessors!(acc3, ast3, build3_variant, build3_chunk, build3, build3_args, see3, see3_args, sv3);

macro_rules! env_accessors {
    ($f:ident, $ast:ident, $chunks:ident, $args:ident) => {
        fn $f(x: &Ch) -> Option<Bad> {
            if let K::E { n, a, c, p, q } = &x.k {
                let e = $ast::Environment::new_unchecked(dec(n), $args(a), $chunks(c), dec(p), dec(q));
                if *e.label() != dec(n) || e.clone().decompose() != (dec(n), $args(a), $chunks(c), dec(p), dec(q)) {
                    return bad("accessors of environment", format!("{x:?}"), format!("{e:?}"));
                }
            }
            None
        }
    };
}
env_accessors!(eacc2, ast2, build2, build2_args);
env_accessors!(eacc3, ast3, build3, build3_args);

fn show(what: &str, want: &str, got: Result<String, String>) -> Option<Bad> {
    match got {
        Ok(t) if enc(&t) == want => None,
        Ok(t) => bad(what, want, enc(&t)),
        Err(p) => bad(what, want, format!("panic: {p}")),
    }
}
fn judge(what: &str, want: &Verdict, got: Result<Verdict, String>) -> Option<Bad> {
    match got {
        Ok(t) if t == *want => None,
        Ok(t) => bad(what, format!("{want:?}"), format!("{t:?}")),
        Err(p) => bad(what, format!("{want:?}"), format!("panic: {p}")),
    }
}

struct Node {
    t: String,
    v: Verdict,
}

pub fn check_built(prop: &str, j: &J, conc: u64) -> Option<Bad> {
    set_concrete(conc);
    match prop {
        "C21" => return crate::parts::check_alone(j),
        "C22" => return crate::parts::check_equal(j),
        _ => {}
    }
    let g = j.get("g").num();
    let d = j.get("d");
    let (cs, d3) = if g < 3 { (chunks_of(d), None) } else { (vec![], Some(doc3_of(d))) };
    let mut nodes = Vec::new();
    match &d3 {
        None => all(&cs, &mut nodes),
        Some(d) => {
            all(&d.pre, &mut nodes);
            all_args(&d.args, &mut nodes);
            all(&d.body, &mut nodes);
            all(&d.tr, &mut nodes);
        }
    }
    let text = text_of(j.get("text"));
    match prop {
        "C20" => {
            let up = j.get("up").arr().first();
            let down = j.get("down").arr().first();
            fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: &Res<T>, got: &Res<T>) -> Option<Bad> {
                match (want, got) {
                    (w, g) if w == g => None,
                    (w, g) => bad(what, format!("{w:?}"), format!("{g:?}")),
                }
            }
            let same_text = |what: &str, got: Option<String>| match got {
                Some(t) if enc(&t) != text => bad(what, &text, enc(&t)),
                _ => None,
            };
            match g {
                1 => {
                    let want = res_of(up.unwrap(), chunks_of);
                    let got = result(guard(|| ast2::Document::try_from(ast1::Document::new_unchecked(build1(&cs)))));
                    same("document raised to stage 2", &want, &map_res(got.clone(), |d| see2(d.chunks())))
                        .or_else(|| same_text("text of the document raised to stage 2", got.ok().map(|d| d.to_string())))
                }
                2 => {
                    let d = ast2::Document::new_unchecked(build2(&cs));
                    let want = res_of(up.unwrap(), doc3_of);
                    let got = result(guard(|| ast3::Document::try_from(d.clone())));
                    let want1 = Res::Ok(chunks_of(down.unwrap()));
                    let got1 = result(guard(|| Ok(ast1::Document::from(d.clone()))));
                    same("document raised to stage 3", &want, &map_res(got.clone(), see_doc3))
                        .or_else(|| same_text("text of the document raised to stage 3", got.ok().map(|d| d.to_string())))
                        .or_else(|| same("document lowered to stage 1", &want1, &map_res(got1.clone(), |d| see1(d.chunks()))))
                        .or_else(|| same_text("text of the document lowered to stage 1", got1.ok().map(|d| d.to_string())))
                }
                _ => {
                    let want = Res::Ok(chunks_of(down.unwrap()));
                    let got = result(guard(|| Ok(ast2::Document::from(build_doc3(d3.as_ref().unwrap())))));
                    same("document lowered to stage 2", &want, &map_res(got.clone(), |d| see2(d.chunks())))
                        .or_else(|| same_text("text of the document lowered to stage 2", got.ok().map(|d| d.to_string())))
                }
            }
        }
        "C10" => {
            let n = j.get("n").num();
            let (c, lines, t) = match g {
                1 => {
                    let d = ast1::Document::new_unchecked(build1(&cs));
                    (guard(|| count_doc1(&d)), guard(|| d.lines()), guard(|| d.to_string()))
                }
                2 => {
                    let d = ast2::Document::new_unchecked(build2(&cs));
                    (guard(|| count_doc2(&d)), guard(|| d.lines()), guard(|| d.to_string()))
                }
                _ => {
                    let d = build_doc3(d3.as_ref().unwrap());
                    (guard(|| count_doc3(&d)), guard(|| d.lines()), guard(|| d.to_string()))
                }
            };
            let b = counted_ok(g as i32, c);
            if b.is_some() {
                return b;
            }
            if t.is_ok_and(|t| enc(&t) == text) && lines != Ok(n as u32) {
                return bad(&format!("line count of the document {text:?}"), n, format!("{lines:?}"));
            }
            None
        }
        "C17" => {
            let want = problems_of(j.get("v")).into_iter().next();
            let b = match g {
                1 => judge("document validation", &want, guard(|| real::validate(&ast1::Document::new_unchecked(build1(&cs)))))
                    .or_else(|| judge("document constructor", &want, guard(|| verdict(ast1::Document::new(build1(&cs)).map(drop))))),
                2 => judge("document validation", &want, guard(|| real::validate(&ast2::Document::new_unchecked(build2(&cs)))))
                    .or_else(|| judge("document constructor", &want, guard(|| verdict(ast2::Document::new(build2(&cs)).map(drop))))),
                _ => {
                    let d = d3.as_ref().unwrap();
                    judge("document validation", &want, guard(|| real::validate(&build_doc3(d)))).or_else(|| {
                        judge(
                            "document constructor",
                            &want,
                            guard(|| {
                                verdict(
                                    ast3::Document::new(
                                        build3(&d.pre),
                                        d.cls.as_ref().map(|c| dec(c)),
                                        build_opts(&d.opts),
                                        build3(&d.body),
                                        build3_args(&d.args),
                                        dec(&d.p),
                                        dec(&d.q),
                                        build3(&d.tr),
                                    )
                                    .map(drop),
                                )
                            }),
                        )
                    })
                }
            };
            if b.is_some() {
                return b;
            }
            for (x, n) in nodes.iter().zip(nodes_of(j)) {
                let got = guard(|| match g {
                    1 => parts1(x),
                    2 => parts2(x),
                    _ => parts3(x),
                });
                match got {
                    Err(p) => return bad("validation", "no panic", p),
                    Ok(vs) => {
                        for (what, v) in vs {
                            if v != n.v {
                                return bad(&format!("{what} at stage {g} of {x:?}"), format!("{:?}", n.v), format!("{v:?}"));
                            }
                        }
                    }
                }
            }
            None
        }
        "C19" => {
            let b = match g {
                1 => {
                    let d = ast1::Document::new_unchecked(build1(&cs));
                    if see1(d.chunks()) != cs || d.clone().chunks_owned() != build1(&cs) {
                        return bad("chunks of the document", format!("{cs:?}"), format!("{d:?}"));
                    }
                    show("rendered document", &text, guard(|| d.to_string()))
                }
                2 => {
                    let d = ast2::Document::new_unchecked(build2(&cs));
                    if see2(d.chunks()) != cs || d.clone().chunks_owned() != build2(&cs) {
                        return bad("chunks of the document", format!("{cs:?}"), format!("{d:?}"));
                    }
                    show("rendered document", &text, guard(|| d.to_string())).or_else(|| {
                        show("rendered stage 2 document lowered to stage 1", &text, guard(|| {
                            ast1::Document::from(d.clone()).to_string()
                        }))
                    })
                }
                _ => {
                    let m = d3.as_ref().unwrap();
                    let d = build_doc3(m);
                    if see_doc3(&d) != *m
                        || see3(d.chunks_preamable()) != m.pre
                        || see3(d.chunks_body()) != m.body
                        || see3(d.chunks_trailing()) != m.tr
                    {
                        return bad("parts of the document", format!("{m:?}"), format!("{:?}", see_doc3(&d)));
                    }
                    show("rendered document", &text, guard(|| d.to_string())).or_else(|| {
                        show("rendered stage 3 document lowered to stage 2", &text, guard(|| {
                            ast2::Document::from(d.clone()).to_string()
                        }))
                    })
                }
            };
            if b.is_some() {
                return b;
            }
            for (x, n) in nodes.iter().zip(nodes_of(j)) {
                let (t, v, a) = match g {
                    1 => (guard(|| build1_chunk(x).to_string()), guard(|| build1_variant(&x.k).to_string()), acc1(x)),
                    2 => (
                        guard(|| build2_chunk(x).to_string()),
                        guard(|| build2_variant(&x.k).to_string()),
                        acc2(x).or_else(|| eacc2(x)),
                    ),
                    _ => (
                        guard(|| build3_chunk(x).to_string()),
                        guard(|| build3_variant(&x.k).to_string()),
                        acc3(x).or_else(|| eacc3(x)),
                    ),
                };
                let b = a
                    .or_else(|| show("rendered chunk", &n.t, t))
                    .or_else(|| show("rendered chunk variant", &n.t, v));
                if b.is_some() {
                    return b;
                }
            }
            None
        }
        p => panic!("no replay of built trees for {p}"),
    }
}
fn nodes_of(j: &J) -> Vec<Node> {
    j.get("ns")
        .arr()
        .iter()
        .map(|n| Node { t: text_of(n.get("t")), v: problems_of(n.get("v")).into_iter().next() })
        .collect()
}
