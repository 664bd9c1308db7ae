//! Records what the implementation does on random sources, histories of
//! pushes and hand-built trees, for Trace.tla to judge.
use crate::built::Doc;
use crate::calls::{self, Call};
use crate::gen::{self, Rng};
use crate::json::{obj, s, J};
use crate::life;
use crate::parts;
use crate::real::*;
use crate::replay::map_res;
use crate::tree::*;
use latex_ast::traits::Lines;
use latex_ast::{ast1, ast2, ast3};

fn num(n: i64) -> J {
    J::Num(n)
}
fn verdict_to(v: &Verdict) -> J {
    J::Arr(v.iter().map(problem_to).collect())
}
pub fn problem_to(p: &(String, String, i64, i64)) -> J {
    obj(vec![("kind", s(&p.0)), ("arg", text_to(&p.1)), ("e", num(p.2)), ("g", num(p.3))])
}
fn counts_to(c: &[Counted]) -> J {
    J::Arr(c.iter().map(|(t, l)| J::Arr(vec![num(*l), num(t.matches('\n').count() as i64)])).collect())
}

struct Log(Vec<J>);
impl Log {
    fn put(&mut self, op: &str, g: i64, rest: Vec<(&str, J)>) {
        let mut v = vec![("op", s(op)), ("g", num(g))];
        v.extend(rest);
        self.0.push(obj(v))
    }
    /// Logs the result of f under `key`, or its panic
    fn call(&mut self, op: &str, g: i64, key: &str, f: impl FnOnce() -> J) {
        match guard(f) {
            Ok(j) => self.put(op, g, vec![(key, j)]),
            Err(p) => self.put("panic", g, vec![("in", s(op)), ("what", s(&p))]),
        }
    }
    fn result<T>(&mut self, op: &str, g: i64, r: &Res<T>, f: impl Fn(&T) -> J) {
        match r {
            Res::Panic(p) => self.put("panic", g, vec![("in", s(op)), ("what", s(p))]),
            r => self.put(op, g, vec![("r", res_to(r, f))]),
        }
    }
}

fn c1(d: &ast1::Document) -> J {
    chunks_to(&see1(d.chunks()))
}
fn c2(d: &ast2::Document) -> J {
    chunks_to(&see2(d.chunks()))
}
fn c3(d: &ast3::Document) -> J {
    doc3_to(&see_doc3(d))
}

/// A source through the three stages and back
fn source(log: &mut Log, src: &str) {
    // a member written as itself is written as its class
    let src = &enc(&dec(src));
    log.put("source", 0, vec![("s", text_to(src))]);
    let real = dec(src);
    macro_rules! stage {
        ($g:literal, $parse:ident, $see:ident, $count:ident) => {{
            let r = $parse(&real);
            log.result("parse", $g, &r, $see);
            if let Res::Ok(d) = &r {
                log.call("text", $g, "t", || text_to(&enc(&d.to_string())));
                log.call("lines", $g, "ns", || counts_to(&$count(d)));
                log.call("valid", $g, "v", || verdict_to(&validate(d)));
                if let Ok(t) = guard(|| d.to_string()) {
                    let again = $parse(&t);
                    log.result("again", $g, &again, $see)
                }
            }
            r
        }};
    }
    let r1 = stage!(1, parse1, c1, count_doc1);
    if let Res::Ok(d) = &r1 {
        log.result("up", 2, &result(guard(|| ast2::Document::try_from(d.clone()))), c2)
    }
    let r2 = stage!(2, parse2, c2, count_doc2);
    if let Res::Ok(d) = &r2 {
        log.call("down", 2, "t", || c1(&ast1::Document::from(d.clone())));
        log.result("up", 3, &result(guard(|| ast3::Document::try_from(d.clone()))), c3)
    }
    let r3 = stage!(3, parse3, c3, count_doc3);
    if let Res::Ok(d) = &r3 {
        log.call("down", 3, "t", || c2(&ast2::Document::from(d.clone())))
    }
}

/// The document a history starts from: empty, parsed or built by hand
fn first(rng: &mut Rng, g: i64) -> Doc {
    let from = rng.below(4);
    if from == 0 {
        // the source of a document, one stage's or the one before's
        for _ in 0..10 {
            let src = dec(&gen::source(rng, 40));
            let r = guard(|| match g {
                1 => parse1(&src).ok().map(|d| Doc::One(d.clone())),
                2 => parse2(&src).ok().map(|d| Doc::Two(d.clone())),
                _ => parse3(&src).ok().map(|d| Doc::Three(d.clone())),
            });
            if let Ok(Some(d)) = r {
                return d;
            }
        }
    }
    if rng.chance(2) {
        // a long document, which may start on another line than the first
        let most = 20 + rng.below(600);
        let on = *rng.pick(&[0, 0, 1, 4]);
        let mut many = gen::many(rng, g, most);
        many.iter_mut().for_each(|x| x.l += on);
        return match g {
            1 => Doc::One(ast1::Document::new_unchecked(build1(&many))),
            2 => Doc::Two(ast2::Document::new_unchecked(build2(&many))),
            _ => {
                let mut d = gen::doc3(rng, 1, 0);
                d.body = many;
                Doc::Three(build_doc3(&d))
            }
        };
    }
    if from == 1 {
        return match g {
            1 => Doc::One(ast1::Document::new_unchecked(build1(&gen::chunks(rng, 1, 2, 4, 0)))),
            2 => Doc::Two(ast2::Document::new_unchecked(build2(&gen::chunks(rng, 2, 2, 4, 0)))),
            _ => Doc::Three(build_doc3(&gen::doc3(rng, 2, 0))),
        };
    }
    let hb = rng.chance(50);
    Doc::start(g, g < 3 || hb)
}

fn history(log: &mut Log, rng: &mut Rng) {
    let g = 1 + rng.below(3) as i64;
    let mut d = first(rng, g);
    let model = match &d {
        Doc::One(d) => c1(d),
        Doc::Two(d) => c2(d),
        Doc::Three(d) => c3(d),
    };
    log.put("start", g, vec![("d", model), ("hb", J::Bool(d.hb()))]);
    // mostly valid parts, checked or mixed
    let wrong = *rng.pick(&[0, 10, 40]);
    let checked = rng.chance(60);
    let most = if rng.chance(2) { 60 } else { 12 };
    for _ in 0..2 + rng.below(most) {
        let depth = 1 + rng.below(2);
        let k = gen::kind(rng, g, depth, wrong);
        let o = *rng.pick(if checked { &["push", "push", "chunk", "chunk"] } else { &["push", "pushu", "chunk", "chunku"] });
        let (sec, at) = if g == 3 { *rng.pick(&[("pre", 0), ("body", 1), ("body", 1), ("tr", 2)]) } else { ("pre", 0) };
        let next = d.secs()[at].last().map(|x| x.l + nl(&text(std::slice::from_ref(x)))).unwrap_or(1);
        let into = g == 1 && rng.chance(15);
        let (o, k) = if into { ("into", gen::kind(rng, 2, 2, 0)) } else { (o, k) };
        let x = Ch { l: if rng.chance(75) { next } else { 1 + rng.below(6) as i64 }, k };
        match guard(|| d.apply(o, sec, &x)) {
            Err(p) => {
                log.put("panic", g, vec![("in", s(o)), ("what", s(&p))]);
                return;
            }
            Ok(r) => {
                let secs = d.secs();
                log.put(
                    "do",
                    g,
                    vec![
                        ("o", s(o)),
                        ("sec", s(sec)),
                        ("x", chunk_to(&x)),
                        ("e", verdict_to(&r.err().map(|e| internal(&e)))),
                        ("hb", J::Bool(d.hb())),
                        (
                            "secs",
                            obj(vec![
                                ("pre", chunks_to(&secs[0])),
                                ("body", chunks_to(&secs[1])),
                                ("tr", chunks_to(&secs[2])),
                            ]),
                        ),
                        ("v", verdict_to(&d.verdict())),
                        ("t", text_to(&enc(&d.text()))),
                    ],
                )
            }
        }
    }
}

fn tree(rng: &mut Rng, g: i64, depth: usize, wrong: usize) -> Vec<Ch> {
    if rng.chance(6) {
        let deep = rng.below(40);
        gen::tower(rng, g, deep, wrong)
    } else {
        gen::chunks(rng, g, depth, 5, wrong)
    }
}

fn by_hand(log: &mut Log, rng: &mut Rng) {
    let g = 1 + rng.below(3) as i64;
    let wrong = *rng.pick(&[0, 0, 5, 25]);
    let depth = 1 + rng.below(4);
    macro_rules! built {
        ($g:literal, $d:expr, $model:expr, $see:ident, $count:ident, $low:expr) => {{
            let d = $d;
            log.put("built", $g, vec![("d", $model)]);
            log.call("seen", $g, "d", || $see(&d));
            log.call("text", $g, "t", || text_to(&enc(&d.to_string())));
            log.call("lines", $g, "ns", || counts_to(&$count(&d)));
            log.call("total", $g, "n", || num(d.lines() as i64));
            log.call("valid", $g, "v", || verdict_to(&validate(&d)));
            #[allow(clippy::redundant_closure_call)]
            if let Some(t) = ($low)(&d) {
                log.0.push(t)
            }
        }};
    }
    let lowered = |g: i64, r: Result<String, String>| {
        Some(match r {
            Ok(t) => obj(vec![("op", s("lowtext")), ("g", num(g)), ("t", text_to(&enc(&t)))]),
            Err(p) => obj(vec![("op", s("panic")), ("g", num(g)), ("in", s("lower")), ("what", s(&p))]),
        })
    };
    match g {
        1 => {
            let m = tree(rng, 1, depth, wrong);
            built!(1, ast1::Document::new_unchecked(build1(&m)), chunks_to(&m), c1, count_doc1, |_: &ast1::Document| None)
        }
        2 => {
            let m = tree(rng, 2, depth, wrong);
            built!(2, ast2::Document::new_unchecked(build2(&m)), chunks_to(&m), c2, count_doc2, |d: &ast2::Document| {
                lowered(2, guard(|| ast1::Document::from(d.clone()).to_string()))
            })
        }
        _ => {
            let mut m = gen::doc3(rng, depth, wrong);
            if rng.chance(6) {
                let deep = rng.below(30);
                let t = gen::tower(rng, 3, deep, wrong);
                match rng.below(4) {
                    0 => m.pre = t,
                    1 => m.body = t,
                    2 => m.tr = t,
                    _ => m.args.push(Arg { p: String::new(), v: '[', c: t }),
                }
            }
            built!(3, build_doc3(&m), doc3_to(&m), c3, count_doc3, |d: &ast3::Document| lowered(
                3,
                guard(|| ast2::Document::from(d.clone()).to_string())
            ))
        }
    }
}

/// A document converted between stages, again and again
fn conversions(log: &mut Log, rng: &mut Rng) {
    let g = 1 + rng.below(3) as i64;
    let depth = 1 + rng.below(4);
    let mut d = if g == 3 {
        let m = gen::convertible3(rng, depth);
        log.put("built", 3, vec![("d", doc3_to(&m))]);
        Doc::Three(build_doc3(&m))
    } else {
        let m = gen::convertible(rng, g, depth);
        log.put("built", g, vec![("d", chunks_to(&m))]);
        if g == 1 {
            Doc::One(ast1::Document::new_unchecked(build1(&m)))
        } else {
            Doc::Two(ast2::Document::new_unchecked(build2(&m)))
        }
    };
    fn see(d: &Doc) -> J {
        match d {
            Doc::One(d) => c1(d),
            Doc::Two(d) => c2(d),
            Doc::Three(d) => c3(d),
        }
    }
    let mut up = g == 1 || (g == 2 && rng.chance(70));
    for _ in 0..1 + rng.below(6) {
        let r = match (&d, up) {
            (Doc::One(d), _) => ("raise", 2, result(guard(|| ast2::Document::try_from(d.clone()).map(Doc::Two)))),
            (Doc::Two(d), true) => ("raise", 3, result(guard(|| ast3::Document::try_from(d.clone()).map(Doc::Three)))),
            (Doc::Two(d), false) => ("lowered", 1, result(guard(|| Ok(Doc::One(ast1::Document::from(d.clone())))))),
            (Doc::Three(d), _) => ("lowered", 2, result(guard(|| Ok(Doc::Two(ast2::Document::from(d.clone())))))),
        };
        match r {
            (op, g, Res::Ok(x)) => {
                let t = match guard(|| x.text()) {
                    Ok(t) => t,
                    Err(_) => return,
                };
                log.put(op, g, vec![("r", obj(vec![("ok", J::Bool(true)), ("v", see(&x))])), ("t", text_to(&enc(&t)))]);
                d = x
            }
            (op, g, r) => {
                log.result(op, g, &r, see);
                return;
            }
        }
        up = rng.chance(50)
    }
}

/// A document pushed to, converted and parsed again in any order
fn lives(log: &mut Log, rng: &mut Rng, edits: bool) {
    let g = 1 + rng.below(3) as i64;
    let mut d = if rng.chance(30) {
        match g {
            1 => Doc::One(ast1::Document::new_unchecked(build1(&gen::convertible(rng, 1, 2)))),
            2 => Doc::Two(ast2::Document::new_unchecked(build2(&gen::convertible(rng, 2, 2)))),
            _ => Doc::Three(build_doc3(&gen::convertible3(rng, 2))),
        }
    } else {
        first(rng, g)
    };
    log.put("born", g, vec![("d", life::see(&d).json())]);
    let wrong = *rng.pick(&[0, 0, 10]);
    let most = if rng.chance(5) { 30 } else { 9 };
    for _ in 0..2 + rng.below(most) {
        let g = life::stage(&d);
        let o = match rng.below(10) {
            0..=4 => *rng.pick(&["push", "push", "push", "chunk", "chunk", "pushu", "chunku"]),
            5 => "again",
            6 | 7 if g > 1 => "down",
            _ if g < 3 => "up",
            _ => "push",
        };
        // parts that conversions are about, and any other
        let own = if g < 3 && rng.chance(50) { gen::raw(rng, g, 1, 3, 30).pop().map(|x| x.k) } else { None };
        let deep = rng.below(3);
        let k = own.unwrap_or_else(|| gen::kind(rng, g, deep, wrong));
        let (sec, sec_at) = if g == 3 { *rng.pick(&[("pre", 0), ("body", 1), ("body", 1), ("tr", 2)]) } else { ("pre", 0) };
        let next = d.secs()[sec_at].last().map(|x| x.l + nl(&text(std::slice::from_ref(x)))).unwrap_or(1);
        let x = Ch { l: if rng.chance(85) { next } else { 1 + rng.below(6) as i64 }, k };
        // an edit instead
        let (mut o, mut at) = (o, 0);
        let mut x = x;
        let n = d.secs()[sec_at].len();
        if edits && n > 0 && rng.chance(50) {
            at = 1 + if rng.chance(40) { n - 1 } else { rng.below(n) };
            o = *rng.pick(&["set", "set", "append", "append", "drop", "line"]);
            let text = matches!(d.secs()[sec_at][at - 1].k, K::T(_) | K::P(_));
            if o == "append" && !text {
                o = "set";
            }
            if o == "append" {
                let m = rng.below(3);
                x.k = K::T(match gen::kind(rng, 1, 0, wrong) {
                    K::T(t) if m > 0 => t,
                    _ => (*rng.pick(&["~", "_", "$", "x~", "~x"])).to_string(),
                });
            }
            if o == "line" && rng.chance(50) {
                // to where it is already
                x.l = d.secs()[sec_at][at - 1].l;
            }
        }
        let r = life::deed(&mut d, o, sec, at, &x);
        if let Err(life::Why::Panic(p)) = &r {
            log.put("panic", g, vec![("in", s("live")), ("o", s(o)), ("what", s(p))]);
            return;
        }
        let t = match guard(|| d.text()) {
            Err(p) => {
                log.put("panic", g, vec![("in", s("live")), ("o", s(o)), ("what", s(&p))]);
                return;
            }
            Ok(t) => t,
        };
        log.put(
            "live",
            g,
            vec![
                ("o", s(o)),
                ("sec", s(sec)),
                ("x", chunk_to(&x)),
                ("at", num(at as i64)),
                ("why", J::Arr(r.err().iter().map(|w| w.json()).collect())),
                ("ng", num(life::stage(&d))),
                ("d", life::see(&d).json()),
                ("t", text_to(&enc(&t))),
            ],
        );
        if edits {
            match life::derived(&d) {
                Err(p) => {
                    log.put("panic", g, vec![("in", s("derived")), ("what", s(&p))]);
                    return;
                }
                Ok((n, v, same)) => {
                    log.put("derived", life::stage(&d), vec![("n", num(n)), ("v", verdict_to(&v)), ("same", num(same as i64))])
                }
            }
        }
    }
}

/// Several documents called on by two threads, each call also made alone
fn many_documents(log: &mut Log, rng: &mut Rng, conc: u64) {
    let members = (conc, checked());
    let n = 2 + rng.below(2);
    let mut pool: Vec<String> = Vec::new();
    let mut source = |rng: &mut Rng| {
        // the same, or nearly the same, again
        if !pool.is_empty() && rng.chance(40) {
            let old = rng.pick(&pool).clone();
            return if rng.chance(60) { old } else { enc(&dec(&gen::damage(rng, &old))) };
        }
        let size = *rng.pick(&[4, 10, 30]);
        let new = enc(&dec(&gen::source(rng, size)));
        pool.push(new.clone());
        new
    };
    let mut docs: Vec<Doc> = (0..n).map(|_| calls::empty()).collect();
    let mut lines = calls::Lines::new(n);
    let all = |docs: &[Doc]| -> Result<J, String> {
        Ok(J::Arr(docs.iter().map(|d| calls::look(d).map(|l| l.json())).collect::<Result<_, _>>()?))
    };
    match all(&docs) {
        Ok(a) => log.put("meet", 0, vec![("all", a)]),
        Err(p) => return log.put("panic", 0, vec![("in", s("meet")), ("what", s(&p))]),
    }
    for _ in 0..2 + rng.below(5) {
        let mut one = |rng: &mut Rng, h: usize| {
            let g = life::stage(&docs[h]);
            let mut c = Call::parse(1 + rng.below(3) as i64, "");
            c.h = h;
            c.from = (h + 1 + rng.below(n - 1)) % n;
            let o = match rng.below(10) {
                0..=3 => "parse",
                4 => "copy",
                5 => "look",
                6 => "again",
                7 if g > 1 => "down",
                7 | 8 if g < 3 => "up",
                _ => *rng.pick(&["push", "push", "chunk", "pushu"]),
            };
            c.o = o.into();
            if o == "parse" {
                c.src = source(rng)
            } else if g == 3 {
                c.sec = (*rng.pick(&["pre", "body", "tr"])).into()
            }
            let wrong = *rng.pick(&[0, 0, 10]);
            c.x = Ch { l: 1 + rng.below(4) as i64, k: gen::kind(rng, g, 1, wrong) };
            c
        };
        let h = rng.below(n);
        let a = one(rng, h);
        let first = rng.below(2);
        let mut cs = vec![(first, a.clone())];
        if rng.chance(50) {
            let k = (h + 1 + rng.below(n - 1)) % n;
            let b = one(rng, k);
            let reads = |c: &Call| match c.o.as_str() {
                "parse" => None,
                "copy" => Some(c.from),
                _ => Some(c.h),
            };
            let writes = |c: &Call| if c.o == "look" { None } else { Some(c.h) };
            let apart = |a: &Call, b: &Call| writes(a).is_none() || (writes(a) != reads(b) && writes(a) != writes(b));
            if apart(&a, &b) && apart(&b, &a) {
                cs.push((1 - first, b))
            }
        }
        let given = calls::step(&mut docs, &cs, members);
        let told = cs
            .iter()
            .zip(&given)
            .map(|((t, c), r)| {
                let alone = calls::alone(&lines.to(c), members);
                let mut j = vec![("t", num(*t as i64 + 1)), ("r", calls::outcome(c, &docs[c.h], r)), ("alone", alone)];
                j.push(("c", c.json()));
                obj(j)
            })
            .collect();
        for ((_, c), r) in cs.iter().zip(&given) {
            lines.count(c, r.is_err() || c.o == "look")
        }
        match all(&docs) {
            Ok(a) => log.put("calls", 0, vec![("calls", J::Arr(told)), ("all", a)]),
            Err(p) => return log.put("panic", 0, vec![("in", s("meet")), ("what", s(&p))]),
        }
    }
}

/// Every list of chunks in a tree
fn lists(cs: &[Ch], out: &mut Vec<Vec<Ch>>) {
    map_chunks(cs, &mut |c| out.push(c.clone()));
}
fn lists3(d: &Doc3) -> Vec<Vec<Ch>> {
    let mut out = Vec::new();
    for c in [&d.pre, &d.body, &d.tr].into_iter().chain(d.args.iter().map(|a| &a.c)) {
        lists(c, &mut out)
    }
    out
}

/// Parts of a document converted on their own
fn alone(log: &mut Log, rng: &mut Rng) {
    let g = 1 + rng.below(3) as i64;
    let depth = 1 + rng.below(4);
    let mut ls = if g == 3 {
        lists3(&gen::convertible3(rng, depth))
    } else {
        let mut ls = Vec::new();
        lists(&gen::convertible(rng, g, depth), &mut ls);
        ls
    };
    ls.retain(|l| !l.is_empty());
    for _ in 0..ls.len().min(6) {
        let cs = rng.pick(&ls).clone();
        let x = rng.pick(&cs).clone();
        let mut put = |o: &str, what: &str, xs: &[Ch], r: Res<Vec<Ch>>| {
            let parts = vec![("o", s(o)), ("what", s(what)), ("x", chunks_to(xs)), ("r", res_to(&r, |c| chunks_to(c)))];
            log.put("alone", g, parts)
        };
        let one = std::slice::from_ref(&x);
        if g < 3 && matches!(&x.k, K::S { .. } | K::C { .. } | K::E { .. }) {
            put("up", "a part raised", one, map_res(parts::up(g, &x), |r| vec![r.0.clone()]))
        }
        if g > 1 {
            for (what, r) in parts::down(g, &x) {
                put("down", what, one, r)
            }
        }
        match g {
            2 => put("maths", "maths blocks of a list", &cs, parts::maths(&cs)),
            3 => put("para", "paragraphs of a list", &cs, parts::para(&cs)),
            _ => {}
        }
    }
}

/// A document with one place of it changed; None if the place is left alone
fn changed(rng: &mut Rng, g: i64, j: &J) -> Option<J> {
    // places are counted, and one is chosen
    fn places(j: &J) -> usize {
        1 + match j {
            J::Arr(v) => v.iter().map(places).sum(),
            J::Obj(v) => v.iter().map(|x| places(&x.1)).sum(),
            _ => 0,
        }
    }
    fn is_text(v: &[J], key: &str) -> bool {
        matches!(v.first(), Some(J::Str(_))) || (v.is_empty() && ["s", "n", "p", "q"].contains(&key))
    }
    fn change(rng: &mut Rng, g: i64, key: &str, j: &mut J) -> bool {
        match (key, j) {
            ("l", J::Num(n)) => *n += 1,
            ("v", J::Str(v)) => {
                *v = match v.as_str() {
                    "B" => "D",
                    "D" => "B",
                    "{" => *rng.pick(&["(", "["]),
                    "(" => *rng.pick(&["{", "["]),
                    _ => *rng.pick(&["{", "("]),
                }
                .to_string()
            }
            ("t", J::Str(t)) => *t = if t == "I" { "O" } else { "I" }.to_string(),
            ("k", J::Str(k)) if g == 3 && k == "T" => *k = "P".into(),
            ("k", J::Str(k)) if g == 3 && k == "P" => *k = "T".into(),
            (_, J::Arr(v)) if is_text(v, key) => {
                let c = |rng: &mut Rng| s(*rng.pick(&["a", "~", "_", "!"]));
                match rng.below(4) {
                    0 if !v.is_empty() => {
                        let i = rng.below(v.len());
                        v.remove(i);
                    }
                    1 if !v.is_empty() => {
                        let i = rng.below(v.len());
                        v[i] = if v[i] == s("x") { s("z") } else { s("x") }
                    }
                    2 => v.insert(0, c(rng)),
                    _ => v.push(c(rng)),
                }
            }
            ("cls", J::Arr(v)) => {
                if v.pop().is_none() {
                    v.push(J::Arr(vec![]))
                }
            }
            ("e", J::Arr(v)) => {
                if v.pop().is_none() {
                    v.push(obj(vec![("p", J::Arr(vec![])), ("q", J::Arr(vec![])), ("v", J::Arr(vec![]))]))
                }
            }
            (_, J::Arr(v)) if !v.is_empty() => {
                let i = rng.below(v.len());
                match rng.below(3) {
                    0 => {
                        v.remove(i);
                    }
                    1 => {
                        let x = v[i].clone();
                        v.insert(i, x)
                    }
                    _ => {
                        let j = rng.below(v.len());
                        v.swap(i, j)
                    }
                }
            }
            _ => return false,
        }
        true
    }
    fn go(rng: &mut Rng, g: i64, key: &str, j: &mut J, at: &mut usize) -> Option<bool> {
        if *at == 0 {
            return Some(change(rng, g, key, j));
        }
        *at -= 1;
        match j {
            J::Arr(v) => v.iter_mut().find_map(|x| go(rng, g, "", x, at)),
            J::Obj(v) => v.iter_mut().find_map(|(k, x)| go(rng, g, k, x, at)),
            _ => None,
        }
    }
    let mut at = rng.below(places(j));
    let mut j = j.clone();
    (go(rng, g, "", &mut j, &mut at) == Some(true)).then_some(j)
}

/// Documents, compared with what differs from them in a place
fn pairs(log: &mut Log, rng: &mut Rng) {
    let g = 1 + rng.below(3) as i64;
    let wrong = *rng.pick(&[0, 5, 25]);
    let depth = 1 + rng.below(3);
    let doc = g == 3 && rng.chance(60);
    let a = if doc { doc3_to(&gen::doc3(rng, depth, wrong)) } else { chunks_to(&tree(rng, g, depth, wrong)) };
    let told = |e: Option<bool>| num(e.map_or(2, |e| e as i64));
    let r = if doc {
        parts::cloned_doc(&doc3_of(&a)).map(|(d, e, f)| (doc3_to(&d), e, f))
    } else {
        parts::cloned_list(g, &chunks_of(&a)).map(|(d, e, f)| (chunks_to(&d), e, f))
    };
    match r {
        Ok((seen, e, free)) => {
            log.put("copy", g, vec![("a", a.clone()), ("seen", seen), ("eq", told(e)), ("free", J::Bool(free))])
        }
        Err(p) => log.put("panic", g, vec![("in", s("copy")), ("what", s(&p))]),
    }
    let mut bs = vec![a.clone()];
    for _ in 0..8 {
        bs.extend(changed(rng, g, &a))
    }
    for b in bs {
        let r = if doc {
            vec![("documents", parts::equal_docs(&doc3_of(&a), &doc3_of(&b)))]
        } else {
            parts::equal_lists(g, &chunks_of(&a), &chunks_of(&b))
        };
        let panics = r.iter().find_map(|(_, r)| r.as_ref().err().cloned());
        match panics {
            Some(p) => log.put("panic", g, vec![("in", s("pair")), ("what", s(&p))]),
            None => {
                let r = r.into_iter().map(|(_, r)| told(r.unwrap())).collect();
                log.put("pair", g, vec![("a", a.clone()), ("b", b), ("r", J::Arr(r))])
            }
        }
    }
}

/// Run number i of a recording
pub fn run(kind: &str, seed: u64, i: usize, size: usize, corpus: &[String]) -> (String, J) {
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
    let members = rng.next() % crate::chars::VARIANTS;
    set_concrete(members);
    set_checked(i % 2 == 1);
    let mut log = Log(Vec::new());
    let mut shown = String::new();
    match kind {
        "source" => {
            let src = if i < corpus.len() {
                corpus[i].clone()
            } else if !corpus.is_empty() && rng.chance(10) {
                // a piece of a document, damaged
                let whole: Vec<char> = rng.pick(corpus).chars().collect();
                let from = rng.below(whole.len());
                let to = (from + 1 + rng.below(size * 2)).min(whole.len());
                let piece: String = whole[from..to].iter().collect();
                if rng.chance(50) {
                    gen::damage(&mut rng, &piece)
                } else {
                    piece
                }
            } else if rng.chance(10) {
                let most = *rng.pick(&[10, 10, 10, 40]);
                let depth = 3 + rng.below(most);
                let inner = gen::source(&mut rng, 12);
                gen::nested(&mut rng, depth, &inner)
            } else {
                gen::source(&mut rng, size)
            };
            shown = src.clone();
            source(&mut log, &src)
        }
        "push" => history(&mut log, &mut rng),
        "built" => by_hand(&mut log, &mut rng),
        "convert" => conversions(&mut log, &mut rng),
        "life" => lives(&mut log, &mut rng, false),
        "edits" => lives(&mut log, &mut rng, true),
        "calls" => many_documents(&mut log, &mut rng, members),
        "parts" => alone(&mut log, &mut rng),
        "pairs" => pairs(&mut log, &mut rng),
        k => tool_error(&format!("no recording of {k}")),
    }
    (shown, obj(vec![("id", num(i as i64)), ("members", num(members as i64)), ("ev", J::Arr(log.0))]))
}

