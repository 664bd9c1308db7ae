//! Replays sources printed by TLC (Explore.tla) on the implementation and
//! compares the results with the specification's, in the projection that a
//! property speaks about.
use crate::chars;
use crate::json::J;
use crate::real::{self, *};
use crate::tree::*;
use latex_ast::{ast1, ast2};

pub struct Vector {
    pub d: String,
    pub s: Option<String>,
    pub r1: Option<Res<Vec<Ch>>>,
    pub r2: Option<Res<Vec<Ch>>>,
    pub r3: Option<Res<Doc3>>,
    pub v: Option<Vec<Verdict>>,
}

fn verdict_of(j: &J) -> Verdict {
    j.arr().first().map(|p| {
        (p.get("kind").str().to_string(), text_of(p.get("arg")), p.get("e").num(), p.get("g").num())
    })
}
fn is_mark(j: &J, n: i64) -> bool {
    matches!(j, J::Num(k) if *k == n)
}

impl Vector {
    pub fn parse(j: &J) -> Self {
        let absent = |k| is_mark(j.get(k), 0);
        // 0: not given, 1: as the stage before, 2: accepted, tree not given
        let chunks_res = |j: &J| if is_mark(j, 2) { Res::Ok(Vec::new()) } else { res_of(j, chunks_of) };
        let r1 = (!absent("r1")).then(|| chunks_res(j.get("r1")));
        let r2 = if absent("r2") {
            None
        } else if is_mark(j.get("r2"), 1) {
            r1.clone()
        } else {
            Some(chunks_res(j.get("r2")))
        };
        let r3 = if absent("r3") {
            None
        } else if is_mark(j.get("r3"), 1) {
            match r2.as_ref().unwrap() {
                Res::Err { line, kind, arg } => {
                    Some(Res::Err { line: *line, kind: kind.clone(), arg: arg.clone() })
                }
                _ => panic!("r3 abbreviated"),
            }
        } else if is_mark(j.get("r3"), 2) {
            Some(Res::Ok(Doc3::default()))
        } else {
            Some(res_of(j.get("r3"), doc3_of))
        };
        Vector {
            d: text_of(j.get("d")),
            s: (!absent("s")).then(|| text_of(j.get("s"))),
            r1,
            r2,
            r3,
            v: (!absent("v")).then(|| j.get("v").arr().iter().map(verdict_of).collect()),
        }
    }
}

pub struct Bad {
    pub what: String,
    pub expected: String,
    pub got: String,
}
pub fn bad(what: &str, expected: impl ToString, got: impl ToString) -> Option<Bad> {
    Some(Bad { what: what.into(), expected: expected.to_string(), got: got.to_string() })
}
fn cmp<T: PartialEq + std::fmt::Debug>(what: &str, expected: &T, got: &T) -> Option<Bad> {
    if expected == got {
        None
    } else {
        bad(what, format!("{expected:?}"), format!("{got:?}"))
    }
}

/// Result with the error line hidden
fn shape<T, U>(r: &Res<T>, f: impl Fn(&T) -> U) -> (bool, Option<U>, String, String) {
    match r {
        Res::Ok(t) => (true, Some(f(t)), String::new(), String::new()),
        Res::Err { kind, arg, .. } => (false, None, kind.clone(), arg.clone()),
        Res::Panic(p) => (false, None, "PANIC".into(), p.clone()),
    }
}
fn outcome<T>(r: &Res<T>) -> String {
    match r {
        Res::Ok(_) => "accepted".into(),
        Res::Err { kind, arg, .. } => format!("{kind}({arg})"),
        Res::Panic(p) => format!("panic: {p}"),
    }
}

/// Maths skeleton: texts without whitespace, breaks as text
pub fn skeleton(d: &Doc3) -> Doc3 {
    map_doc3(d, &mut joined_bare)
}
/// As the skeleton, but texts without a paragraph break are kept whole
fn maths_view(d: &Doc3) -> Doc3 {
    map_doc3(d, &mut |c| {
        joined(c);
        for x in c.iter_mut() {
            if let K::T(t) = &mut x.k {
                if has_break(t) {
                    t.retain(|c| !is_space(c))
                }
            }
        }
        c.retain(|x| !matches!(&x.k, K::T(t) if t.is_empty()));
    })
}
/// Only the texts and breaks of lists in which there is a break
fn break_lists(d: &Doc3) -> Vec<Vec<Option<K>>> {
    let mut out = Vec::new();
    map_doc3(d, &mut |c| {
        let mut j = c.clone();
        joined(&mut j);
        let broken = c.iter().any(|x| matches!(x.k, K::P(_)))
            || j.iter().any(|x| matches!(&x.k, K::T(t) if has_break(t)));
        out.push(if broken {
            c.iter()
                .map(|x| match &x.k {
                    K::T(_) | K::P(_) => Some(x.k.clone()),
                    _ => None,
                })
                .collect()
        } else {
            Vec::new()
        })
    });
    out
}
/// C07, judged on the tree alone
fn breaks_whole(d: &Doc3) -> Option<Bad> {
    let mut out = None;
    map_doc3(d, &mut |c| {
        for (i, x) in c.iter().enumerate() {
            let b = match &x.k {
                K::P(t) => {
                    if !t.chars().all(is_space) || !t.starts_with(['~', '@']) || nl(t) < 2 {
                        bad("paragraph break chunk", "whitespace starting with a newline, two newlines or more", t)
                    } else if let Some(Ch { k: K::P(u), .. }) = c.get(i + 1) {
                        bad("a break reaches up to the next non-whitespace", "one break", format!("{t} and {u}"))
                    } else if matches!(c.get(i + 1), Some(Ch { k: K::T(u), .. }) if u.starts_with(is_space)) {
                        bad("a break reaches up to the next non-whitespace", "no whitespace after the break", format!("{c:?}"))
                    } else {
                        None
                    }
                }
                K::T(t) if has_break(t) => bad("text chunk without paragraph break", "no break in text", t),
                _ => None,
            };
            if out.is_none() {
                out = b
            }
        }
    });
    out
}

fn same_sections(m: &Doc3, g: &Doc3) -> Option<Bad> {
    let bare = |s: &str| s.chars().filter(|c| !is_space(*c)).collect::<String>();
    // where nothing is lost overall the sections hold exactly their text
    let keep: &dyn Fn(&str) -> String =
        if text3(m) == text3(g) || !m.hb { &|s: &str| s.to_string() } else { &bare };
    let view = |d: &Doc3| {
        (
            d.hb,
            keep(&text(&d.pre)),
            keep(&text(&d.body)),
            keep(&text_args(&d.args)),
            d.p.clone(),
            d.q.clone(),
            keep(&text(&d.tr)),
        )
    };
    cmp("sections (has environment, preamble, body, arguments, spacing, trailing)", &view(m), &view(g))
        .or_else(|| cmp("document class", &m.cls, &g.cls))
        .or_else(|| cmp("document options", &m.opts, &g.opts))
}

/// A source accepted although an opening has nothing that balances it
fn unbalanced<T, U>(stage: i32, kinds: &[&str], m: &Res<T>, g: &Res<U>) -> Option<Bad> {
    match (m, g) {
        (Res::Err { kind, .. }, Res::Ok(_)) if kinds.contains(&kind.as_str()) => {
            bad(&format!("outcome at stage {stage} where something is not balanced"), kind, outcome(g))
        }
        _ => None,
    }
}
/// A well-formed source that was not accepted
fn refused<T, U>(stage: i32, m: &Res<T>, g: &Res<U>) -> Option<Bad> {
    match (m, g) {
        (Res::Ok(_), Res::Err { .. } | Res::Panic(_)) => {
            bad(&format!("outcome of a well-formed source at stage {stage}"), "accepted", outcome(g))
        }
        _ => None,
    }
}
fn bare(s: &str) -> String {
    s.chars().filter(|c| !is_space(*c)).collect()
}
/// The environments of a tree in order: label, spacing, arguments, content
fn envs(cs: &[Ch]) -> Vec<(String, String, String, usize, String, String)> {
    let mut out = Vec::new();
    map_chunks(cs, &mut |c| {
        for x in c.iter() {
            if let K::E { n, a, c, p, q } = &x.k {
                out.push((n.clone(), p.clone(), q.clone(), a.len(), bare(&text_args(a)), bare(&text(c))))
            }
        }
    });
    out
}
/// The maths blocks of a document in order: style, type, content
fn blocks(d: &Doc3) -> Vec<(String, String)> {
    let mut out = Vec::new();
    map_doc3(d, &mut |c| {
        for x in c.iter() {
            if let K::M { v, t, c } = &x.k {
                out.push((format!("{v}{t}"), bare(&text(c))))
            }
        }
    });
    out
}
fn styles(d: &Doc3) -> Vec<String> {
    blocks(d).into_iter().map(|b| b.0).collect()
}
fn heads(d: &Doc3) -> impl PartialEq + std::fmt::Debug {
    (d.hb, d.p.clone(), d.q.clone(), d.cls.clone(), d.opts.clone())
}

fn panicked(op: &str, p: &str) -> Option<Bad> {
    bad(op, "no panic", format!("panic: {p}"))
}

/// Everything that may be done with one source, for C13
fn all_ops(src: &str) -> Option<Bad> {
    macro_rules! stage {
        ($n:literal, $parse:ident, $see:expr, $down:expr, $up:expr) => {
            match $parse(src) {
                Res::Panic(p) => return panicked(concat!("parsing at stage ", $n), &p),
                Res::Err { .. } => {}
                Res::Ok(d) => {
                    use latex_ast::traits::{Lines, Validate};
                    if let Err(p) = guard(|| d.to_string()) {
                        return panicked(concat!("rendering at stage ", $n), &p);
                    }
                    if let Err(p) = guard(|| d.lines()) {
                        return panicked(concat!("counting lines at stage ", $n), &p);
                    }
                    if let Err(p) = guard(|| d.validate().is_ok()) {
                        return panicked(concat!("validating at stage ", $n), &p);
                    }
                    if let Err(p) = guard(|| $see(&d)) {
                        return panicked(concat!("counting lines of the parts at stage ", $n), &p);
                    }
                    if let Err(p) = guard(|| $down(d.clone())) {
                        return panicked(concat!("lowering from stage ", $n), &p);
                    }
                    if let Err(p) = guard(|| $up(d)) {
                        return panicked(concat!("converting up from stage ", $n), &p);
                    }
                }
            }
        };
    }
    stage!("1", parse1, |d| drop(count_doc1(d)), |_| (), |d| { let _ = latex_ast::ast2::Document::try_from(d); });
    stage!("2", parse2, |d| drop(count_doc2(d)), |d| drop(ast1::Document::from(d)), |d| {
        let _ = latex_ast::ast3::Document::try_from(d);
    });
    stage!("3", parse3, |d| drop(count_doc3(d)), |d| drop(ast1::Document::from(ast2::Document::from(d))), |_| ());
    None
}

fn rendered<T: ToString>(stage: i32, r: &Res<T>, s: &str) -> Option<Bad> {
    let d = r.ok()?;
    match guard(|| enc(&d.to_string())) {
        Err(p) => panicked(&format!("rendering at stage {stage}"), &p),
        Ok(got) => cmp(&format!("rendered text at stage {stage}"), &s.to_string(), &got),
    }
}

pub fn counted_ok(stage: i32, c: Result<Vec<Counted>, String>) -> Option<Bad> {
    match c {
        Err(p) => panicked(&format!("counting lines at stage {stage}"), &p),
        Ok(v) => v.into_iter().find_map(|(t, l)| {
            let n = 1 + t.matches('\n').count() as i64;
            if n == l {
                None
            } else {
                bad(&format!("line count at stage {stage} of {:?}", enc(&t)), n, l)
            }
        }),
    }
}

fn error_lines<T>(stage: i32, m: &Res<T>, g: &Res<T>) -> Option<Bad> {
    match (m, g) {
        (Res::Err { line, kind, arg }, Res::Err { line: l2, kind: k2, arg: a2 }) if kind == k2 && arg == a2 => {
            cmp(&format!("line of {kind} at stage {stage}"), line, l2)
        }
        _ => None,
    }
}

/// Is a parsed document's verdict one that C17 allows
fn parsed_verdict(stage: i32, v: &Verdict, labels: &str) -> Option<Bad> {
    match v {
        None => None,
        Some((k, a, _, _)) if k == "UnsanitisedCharInString" && (")]}".contains(a.as_str()) || labels.contains(a.as_str())) => None,
        Some(v) => bad(
            &format!("validation of a parsed document at stage {stage}"),
            "valid, or refused for an unmatched closing bracket in text or a character of a label",
            format!("{v:?}"),
        ),
    }
}
fn labels(cs: &[Ch], out: &mut String) {
    map_chunks(cs, &mut |c| {
        for x in c.iter() {
            if let K::E { n, .. } = &x.k {
                out.push_str(n)
            }
        }
    });
}

pub fn check(prop: &str, v: &Vector, conc: u64) -> Option<Bad> {
    set_concrete(conc);
    let src = dec(&v.d);
    let m1 = || v.r1.as_ref().expect("vector without stage 1");
    let m2 = || v.r2.as_ref().expect("vector without stage 2");
    let m3 = || v.r3.as_ref().expect("vector without stage 3");
    let see_1 = |r: Res<ast1::Document>| map_res(r, |d| see1(d.chunks()));
    let see_2 = |r: Res<ast2::Document>| map_res(r, |d| see2(d.chunks()));
    let see_3 = |r: Res<latex_ast::ast3::Document>| map_res(r, see_doc3);
    match prop {
        "C01" => {
            let g = parse1(&src);
            refused(1, m1(), &g).or_else(|| rendered(1, &g, v.s.as_ref().unwrap()))
        }
        "C02" => {
            let g = parse2(&src);
            refused(2, m2(), &g).or_else(|| rendered(2, &g, v.s.as_ref().unwrap()))
        }
        "C03" => {
            let g = parse3(&src);
            refused(3, m3(), &g).or_else(|| rendered(3, &g, v.s.as_ref().unwrap()))
        }
        "C04" => {
            let g = see_1(parse1(&src));
            refused(1, m1(), &g).or_else(|| cmp("stage 1 tree", &no_lines(m1().ok()?), &no_lines(g.ok()?)))
        }
        "C05" => {
            let w = m1().ok()?;
            let (g1, g) = (see_1(parse1(&src)), see_2(parse2(&src)));
            if let Some(b) = unbalanced(2, &["UnexpectedEnd", "UnclosedEnvironment"], m2(), &g) {
                return Some(b);
            }
            let m = m2().ok()?;
            if let Some(b) = refused(2, m2(), &g) {
                return Some(b);
            }
            let g = g.ok()?;
            if no_lines(w) != no_lines(g1.ok()?) {
                // what lies below is another property's; the environments are not
                return cmp("environments of the source", &envs(m), &envs(g));
            }
            cmp("stage 2 tree", &no_lines(m), &no_lines(g))
        }
        "C06" => {
            let w = m2().ok()?;
            let (g2, g) = (see_2(parse2(&src)), see_3(parse3(&src)));
            if let Some(b) = unbalanced(3, &["UnexpectedMathsEnd", "UnclosedMaths"], m3(), &g) {
                return Some(b);
            }
            let m = m3().ok()?;
            if let Some(b) = refused(3, m3(), &g) {
                return Some(b);
            }
            let g = g.ok()?;
            if no_lines(w) != no_lines(g2.ok()?) {
                return cmp("maths blocks of the source", &blocks(m), &blocks(g));
            }
            let view = |d: &Doc3| {
                let d = maths_view(d);
                [vec![d.pre, d.body, d.tr], d.args.into_iter().map(|a| a.c).collect()].concat()
            };
            cmp("maths blocks", &view(m), &view(g))
        }
        "C07" => {
            let g = see_3(parse3(&src));
            if let Some(b) = refused(3, m3(), &g) {
                return Some(b);
            }
            let g = g.ok()?;
            if let Some(b) = breaks_whole(g) {
                return Some(b);
            }
            let m = m3().ok()?;
            if skeleton(m) != skeleton(g) {
                // something else than the breaks differs, but the text around a
                // break must be there when nothing before the breaks is amiss
                let same = m2().ok().map(|t| no_lines(t)) == see_2(parse2(&src)).ok().map(|t| no_lines(t));
                if !same || styles(m) != styles(g) {
                    return None;
                }
            }
            cmp("texts and paragraph breaks", &break_lists(m), &break_lists(g))
        }
        "C08" => {
            let (w, m) = (m2().ok()?, m3().ok()?);
            let (g2, g) = (see_2(parse2(&src)), see_3(parse3(&src)));
            if let Some(b) = refused(3, m3(), &g) {
                return Some(b);
            }
            let g = g.ok()?;
            if no_lines(w) != no_lines(g2.ok()?) {
                return cmp("document environment, class and options", &heads(m), &heads(g));
            }
            same_sections(m, g)
        }
        "C09" => {
            let line_cmp = |stage: i32, m: &[Ch], g: &[Ch]| {
                let wrong = if no_lines(m) == no_lines(g) {
                    m != g
                } else {
                    // another tree of the same text: its lines must still be true
                    text(m) == text(g) && !lines_true(g)
                };
                if wrong {
                    bad(&format!("lines of chunks at stage {stage}"), format!("{m:?}"), format!("{g:?}"))
                } else {
                    None
                }
            };
            if let (Res::Ok(m), Res::Ok(g)) = (m1(), see_1(parse1(&src))) {
                if let Some(b) = line_cmp(1, m, &g) {
                    return Some(b);
                }
            }
            if let (Res::Ok(m), Res::Ok(g)) = (m2(), see_2(parse2(&src))) {
                if let Some(b) = line_cmp(2, m, &g) {
                    return Some(b);
                }
            }
            if let (Res::Ok(m), Res::Ok(g)) = (m3(), see_3(parse3(&src))) {
                for (m, g) in [(&m.pre, &g.pre), (&m.body, &g.body), (&m.tr, &g.tr)] {
                    if let Some(b) = line_cmp(3, m, g) {
                        return Some(b);
                    }
                }
                if no_lines_args(&m.args) == no_lines_args(&g.args) && m.args != g.args {
                    return bad("lines in document arguments", format!("{:?}", m.args), format!("{:?}", g.args));
                }
            }
            None
        }
        "C10" => {
            if let Res::Ok(d) = parse1(&src) {
                if let Some(b) = counted_ok(1, guard(|| count_doc1(&d))) {
                    return Some(b);
                }
            }
            if let Res::Ok(d) = parse2(&src) {
                if let Some(b) = counted_ok(2, guard(|| count_doc2(&d))) {
                    return Some(b);
                }
            }
            if let Res::Ok(d) = parse3(&src) {
                if let Some(b) = counted_ok(3, guard(|| count_doc3(&d))) {
                    return Some(b);
                }
            }
            None
        }
        "C11" => cmp("outcome at stage 1", &outcome(m1()), &outcome(&parse1(&src)))
            .or_else(|| cmp("outcome at stage 2", &outcome(m2()), &outcome(&parse2(&src))))
            .or_else(|| cmp("outcome at stage 3", &outcome(m3()), &outcome(&parse3(&src)))),
        "C12" => error_lines(1, m1(), &see_1(parse1(&src)))
            .or_else(|| error_lines(2, m2(), &see_2(parse2(&src))))
            .or_else(|| error_lines(3, m3(), &see_3(parse3(&src)))),
        "C13" => all_ops(&src),
        "C14" => {
            let d2 = match parse2(&src) {
                Res::Ok(d) => d,
                _ => return None,
            };
            let want = see_1(parse1(&src));
            match guard(|| see1(ast1::Document::from(d2).chunks())) {
                Err(p) => panicked("lowering stage 2", &p),
                Ok(got) => cmp("lowered stage 2 tree", &shape(&want, |t| t.clone()), &shape(&Res::Ok(got), |t| t.clone())),
            }
        }
        "C15" => {
            let d3 = match parse3(&src) {
                Res::Ok(d) => d,
                _ => return None,
            };
            let want = see_2(parse2(&src));
            match guard(|| see2(ast2::Document::from(d3).chunks())) {
                Err(p) => panicked("lowering stage 3", &p),
                Ok(got) => cmp("lowered stage 3 tree", &shape(&want, |t| t.clone()), &shape(&Res::Ok(got), |t| t.clone())),
            }
        }
        "C17" => {
            let want = v.v.as_ref().expect("vector without verdicts");
            if let Res::Ok(d) = parse1(&src) {
                match guard(|| real::validate(&d)) {
                    Err(p) => return panicked("validating at stage 1", &p),
                    Ok(g) => {
                        let b = parsed_verdict(1, &g, "").or_else(|| {
                            if m1().ok() == Some(&see1(d.chunks())) {
                                cmp("verdict at stage 1", &want[0], &g)
                            } else {
                                None
                            }
                        });
                        if b.is_some() {
                            return b;
                        }
                    }
                }
            }
            if let Res::Ok(d) = parse2(&src) {
                let t = see2(d.chunks());
                let mut ls = String::new();
                labels(&t, &mut ls);
                match guard(|| real::validate(&d)) {
                    Err(p) => return panicked("validating at stage 2", &p),
                    Ok(g) => {
                        let b = parsed_verdict(2, &g, &ls).or_else(|| {
                            if m2().ok() == Some(&t) {
                                cmp("verdict at stage 2", &want[1], &g)
                            } else {
                                None
                            }
                        });
                        if b.is_some() {
                            return b;
                        }
                    }
                }
            }
            if let Res::Ok(d) = parse3(&src) {
                let t = see_doc3(&d);
                let mut ls = String::new();
                for c in [&t.pre, &t.body, &t.tr] {
                    labels(c, &mut ls);
                }
                for a in &t.args {
                    labels(&a.c, &mut ls);
                }
                match guard(|| real::validate(&d)) {
                    Err(p) => return panicked("validating at stage 3", &p),
                    Ok(g) => {
                        let b = parsed_verdict(3, &g, &ls).or_else(|| {
                            if m3().ok() == Some(&t) {
                                cmp("verdict at stage 3", &want[2], &g)
                            } else {
                                None
                            }
                        });
                        if b.is_some() {
                            return b;
                        }
                    }
                }
            }
            None
        }
        "C18" => {
            macro_rules! again {
                ($n:literal, $parse:ident) => {
                    if let Res::Ok(d) = $parse(&src) {
                        match guard(|| d.to_string()) {
                            Err(p) => return panicked(concat!("rendering at stage ", $n), &p),
                            Ok(t) => match $parse(&t) {
                                Res::Ok(d2) if d == d2 => {}
                                Res::Ok(d2) => {
                                    return bad(concat!("reparsed document at stage ", $n), format!("{d:?}"), format!("{d2:?}"))
                                }
                                r => return bad(concat!("reparsed document at stage ", $n), "accepted", outcome(&r)),
                            },
                        }
                    }
                };
            }
            again!("1", parse1);
            again!("2", parse2);
            again!("3", parse3);
            None
        }
        p => panic!("no replay for {p}"),
    }
}

/// What a source exercises for a property, to count the non-trivial ones
pub fn relevant(prop: &str, v: &Vector) -> bool {
    let has = |c: &[Ch], f: &dyn Fn(&K) -> bool| {
        let mut h = false;
        map_chunks(c, &mut |c| h |= c.iter().any(|x| f(&x.k)));
        h
    };
    let has3 = |d: &Doc3, f: &dyn Fn(&K) -> bool| {
        has(&d.pre, f) || has(&d.body, f) || has(&d.tr, f) || d.args.iter().any(|a| has(&a.c, f))
    };
    match prop {
        // no trees printed: what the source holds has to do
        "C14" if v.r2.is_none() => v.d.contains("/end"),
        "C15" if v.r3.is_none() => ["$", "/)", "/]", "/end", "~~"].iter().any(|x| v.d.contains(x)),
        "C05" | "C14" => v.r2.as_ref().and_then(|r| r.ok()).is_some_and(|c| has(c, &|k| matches!(k, K::E { .. }))),
        "C06" | "C15" => v.r3.as_ref().and_then(|r| r.ok()).is_some_and(|d| has3(d, &|k| matches!(k, K::M { .. } | K::E { .. } | K::P(_)))),
        "C07" => v.r3.as_ref().and_then(|r| r.ok()).is_some_and(|d| has3(d, &|k| matches!(k, K::P(_)))),
        "C08" => v.r3.as_ref().and_then(|r| r.ok()).is_some_and(|d| d.hb || d.cls.is_some() || !d.opts.is_empty()),
        "C09" | "C10" => v.d.contains('~'),
        "C11" | "C12" => v.r3.as_ref().is_some_and(|r| r.ok().is_none()),
        "C01" | "C04" | "C18" => v.r1.as_ref().is_none_or(|r| r.ok().is_some()),
        "C02" => v.r2.as_ref().is_none_or(|r| r.ok().is_some()),
        "C03" => v.r3.as_ref().is_none_or(|r| r.ok().is_some()),
        _ => true,
    }
}

pub fn map_res<T, U>(r: Res<T>, f: impl Fn(&T) -> U) -> Res<U> {
    match r {
        Res::Ok(t) => Res::Ok(f(&t)),
        Res::Err { line, kind, arg } => Res::Err { line, kind, arg },
        Res::Panic(p) => Res::Panic(p),
    }
}

pub fn variants() -> u64 {
    chars::VARIANTS
}
