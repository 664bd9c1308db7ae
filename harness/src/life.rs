//! Lives of documents (Life.tla): pushes, conversions and reparses mixed.
use crate::built::{problems_of, Doc};
use crate::made;
use crate::json::{s, J};
use crate::real::*;
use crate::replay::{bad, Bad};
use crate::tree::*;
use latex_ast::traits::Lines;
use latex_ast::{ast1, ast2, ast3};

/// A document as it is seen
#[derive(Clone, PartialEq, Debug)]
pub enum Saw {
    List(Vec<Ch>),
    Doc(Box<Doc3>),
}
impl Saw {
    pub fn of(g: i64, j: &J) -> Saw {
        if g == 3 {
            Saw::Doc(Box::new(doc3_of(j)))
        } else {
            Saw::List(chunks_of(j))
        }
    }
    pub fn json(&self) -> J {
        match self {
            Saw::List(c) => chunks_to(c),
            Saw::Doc(d) => doc3_to(d),
        }
    }
}
pub fn see(d: &Doc) -> Saw {
    match d {
        Doc::One(d) => Saw::List(see1(d.chunks())),
        Doc::Two(d) => Saw::List(see2(d.chunks())),
        Doc::Three(d) => Saw::Doc(Box::new(see_doc3(d))),
    }
}
pub fn stage(d: &Doc) -> i64 {
    match d {
        Doc::One(_) => 1,
        Doc::Two(_) => 2,
        Doc::Three(_) => 3,
    }
}
pub fn parse(g: i64, src: &str) -> Res<Doc> {
    match g {
        1 => own(parse1(src), Doc::One),
        2 => own(parse2(src), Doc::Two),
        _ => own(parse3(src), Doc::Three),
    }
}
fn own<T>(r: Res<T>, f: impl Fn(T) -> Doc) -> Res<Doc> {
    match r {
        Res::Ok(t) => Res::Ok(f(t)),
        Res::Err { line, kind, arg } => Res::Err { line, kind, arg },
        Res::Panic(p) => Res::Panic(p),
    }
}
/// Why a deed was not done
pub enum Why {
    Push((String, String, i64, i64)),
    Error(Res<()>),
    Panic(String),
}
impl Why {
    pub fn json(&self) -> J {
        match self {
            Why::Push(p) => crate::record::problem_to(p),
            Why::Error(r) => res_to(r, |_| J::Null),
            Why::Panic(p) => s(p),
        }
    }
}
impl Why {
    /// Is it one of the reasons given
    pub fn among(&self, j: &J) -> bool {
        match self {
            Why::Push(p) => problems_of(j).contains(p),
            Why::Error(Res::Err { line, kind, arg }) => j.arr().iter().any(|r| match res_of(r, |_| ()) {
                Res::Err { line: l, kind: k, arg: a } => (l, &k, &a) == (*line, kind, arg),
                _ => false,
            }),
            _ => false,
        }
    }
}
/// Edits in place the chunk at `at` (from 1) of a list
macro_rules! edit {
    ($f:ident, $ast:ident, $variant:ident, |$c:ident, $l:ident| $line:expr) => {
        fn $f(mut cs: Vec<$ast::Chunk>, o: &str, at: usize, x: &Ch) -> Vec<$ast::Chunk> {
            let at = at - 1;
            match o {
                "set" => *cs[at].variant_mut() = $variant(&x.k),
                "append" => match (cs[at].variant_mut(), &x.k) {
                    ($ast::ChunkVariant::Text(t), K::T(s)) => t.push_str(&dec(s)),
                    (other, K::T(s)) => append_break(other, &dec(s)),
                    _ => tool_error("what is appended"),
                },
                "line" => {
                    let $l = x.l as u32;
                    let $c = &mut cs[at];
                    $line
                }
                "drop" => {
                    cs.remove(at);
                }
                _ => tool_error("edit"),
            }
            cs
        }
    };
}
trait MaybeBreak {
    fn break_mut(&mut self) -> Option<&mut String> {
        None
    }
}
impl MaybeBreak for ast1::ChunkVariant {}
impl MaybeBreak for ast2::ChunkVariant {}
impl MaybeBreak for ast3::ChunkVariant {
    fn break_mut(&mut self) -> Option<&mut String> {
        match self {
            ast3::ChunkVariant::ParagraphBreak(s) => Some(s),
            _ => None,
        }
    }
}
fn append_break(v: &mut impl MaybeBreak, s: &str) {
    match v.break_mut() {
        Some(t) => t.push_str(s),
        None => tool_error("appended to what is not text"),
    }
}
edit!(edit1, ast1, build1_variant, |c, l| *c = made!(ast1::Chunk, l, c.clone().variant_owned()));
edit!(edit2, ast2, build2_variant, |c, l| *c.line_no_mut() = l);
edit!(edit3, ast3, build3_variant, |c, l| *c = made!(ast3::Chunk, l, c.clone().decompose().1));
pub fn is_edit(o: &str) -> bool {
    matches!(o, "set" | "append" | "line" | "drop")
}
pub fn edit(d: &mut Doc, o: &str, sec: &str, at: usize, x: &Ch) {
    *d = match d {
        Doc::One(d) => Doc::One(made!(ast1::Document, edit1(d.clone().chunks_owned(), o, at, x))),
        Doc::Two(d) => Doc::Two(made!(ast2::Document, edit2(d.clone().chunks_owned(), o, at, x))),
        Doc::Three(d) => {
            let (class, opts, mut pre, mut body, args, p, q, mut tr) = d.clone().decompose();
            let list = match sec {
                "pre" => &mut pre,
                "body" => &mut body,
                _ => &mut tr,
            };
            *list = edit3(std::mem::take(list), o, at, x);
            Doc::Three(made!(ast3::Document, pre, class, opts, body, args, p, q, tr))
        }
    }
}
/// Lines counted, verdict, and whether it equals the same built anew
/// (where it can be built)
pub fn derived(d: &Doc) -> Result<(i64, Verdict, bool), String> {
    guard(|| {
        let (n, same) = match d {
            Doc::One(d) => {
                let e = made!(ast1::Document, build1(&see1(d.chunks())));
                (d.lines(), *d == e && e == *d && d.clone() == *d)
            }
            Doc::Two(d) => {
                let e = made!(ast2::Document, build2(&see2(d.chunks())));
                (d.lines(), *d == e && e == *d && d.clone() == *d)
            }
            Doc::Three(d) if d.has_body() => {
                let e = build_doc3(&see_doc3(d));
                (d.lines(), *d == e && e == *d && d.clone() == *d)
            }
            Doc::Three(d) => (d.lines(), d.clone() == *d),
        };
        (n as i64, d.verdict(), same)
    })
}

pub fn deed(d: &mut Doc, o: &str, sec: &str, at: usize, x: &Ch) -> Result<(), Why> {
    if is_edit(o) {
        return guard(|| edit(d, o, sec, at, x)).map_err(Why::Panic);
    }
    let r = match o {
        "up" => match d {
            Doc::One(d) => result(guard(|| ast2::Document::try_from(d.clone()).map(Doc::Two))),
            Doc::Two(d) => result(guard(|| ast3::Document::try_from(d.clone()).map(Doc::Three))),
            Doc::Three(_) => tool_error("raised from stage 3"),
        },
        "down" => result(guard(|| {
            Ok(match d {
                Doc::One(_) => tool_error("lowered from stage 1"),
                Doc::Two(d) => Doc::One(ast1::Document::from(d.clone())),
                Doc::Three(d) => Doc::Two(ast2::Document::from(d.clone())),
            })
        })),
        "again" => match guard(|| d.text()) {
            Err(p) => Res::Panic(p),
            Ok(t) => parse(stage(d), &t),
        },
        _ => {
            return match guard(|| d.apply(o, sec, x)) {
                Err(p) => Err(Why::Panic(p)),
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(Why::Push(internal(&e))),
            }
        }
    };
    match r {
        Res::Ok(n) => {
            *d = n;
            Ok(())
        }
        Res::Panic(p) => Err(Why::Panic(p)),
        Res::Err { line, kind, arg } => Err(Why::Error(Res::Err { line, kind, arg })),
    }
}

/// C23 and C24: one life, given with the document it should lead to
pub fn check_life(j: &J, conc: u64) -> Option<Bad> {
    set_concrete(conc);
    let start = j.get("start").arr();
    let mut d = match parse(start[0].num(), &dec(&text_of(j.get("s")))) {
        Res::Ok(d) => d,
        _ => return bad("what it starts with", "accepted", "not accepted"),
    };
    for (i, h) in j.get("hist").arr().iter().enumerate() {
        let (o, sec, x) = (h.get("o").str(), h.get("sec").str(), chunk_of(h.get("x")));
        let want = h.get("why");
        let before = see(&d);
        let what = format!("{o} {sec} {:?} after {i} deeds", x.k);
        match deed(&mut d, o, sec, h.get("at").num() as usize, &x) {
            Ok(()) if want.arr().is_empty() => {}
            Err(Why::Panic(p)) => return bad(&what, "no panic", format!("panic: {p}")),
            Err(w) if !want.arr().is_empty() => {
                // any of the reasons there are may be told
                if !w.among(want) {
                    return bad(&what, want.text(), w.json().text());
                }
                if before != see(&d) {
                    return bad(&what, format!("refused leaves {before:?}"), format!("{:?}", see(&d)));
                }
            }
            Ok(()) => return bad(&what, format!("refused for {}", want.text()), "accepted"),
            Err(w) => return bad(&what, "accepted", w.json().text()),
        }
    }
    let g = j.get("g").num();
    if stage(&d) != g {
        return bad("stage", g, stage(&d));
    }
    let want = Saw::of(g, j.get("d"));
    if want != see(&d) {
        return bad("the document after all this", format!("{want:?}"), format!("{:?}", see(&d)));
    }
    match guard(|| enc(&d.text())) {
        Err(p) => return bad("rendering", "no panic", p),
        Ok(t) if t != text_of(j.get("text")) => return bad("rendered text", text_of(j.get("text")), t),
        _ => {}
    }
    let want = (j.get("lines").num(), problems_of(j.get("verdict")).pop(), true);
    match derived(&d) {
        Err(p) => bad("counting, validating, comparing", "no panic", p),
        Ok(got) if got != want => bad("lines, verdict, and whether it equals the same built anew", format!("{want:?}"), format!("{got:?}")),
        _ => None,
    }
}
