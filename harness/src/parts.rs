//! Conversions of parts on their own (C21), and comparisons (C22).
use crate::json::J;
use crate::real::*;
use crate::replay::{bad, map_res, Bad};
use crate::tree::*;
use latex_ast::{ast1, ast2, ast3, Error};

fn chunk1(l: i64, v: ast1::ChunkVariant) -> Ch {
    see1_chunk(&ast1::Chunk::new_unchecked(l as u32, v))
}
fn chunk2(l: i64, v: ast2::ChunkVariant) -> Ch {
    see2_chunk(&ast2::Chunk::new_unchecked(l as u32, v))
}
fn chunk3(l: i64, v: ast3::ChunkVariant) -> Ch {
    see3_chunk(&ast3::Chunk::new_unchecked(l as u32, v))
}
type Seen<T> = Res<(T, String)>;
fn of(r: Result<Result<Ch, Error>, String>, t: impl Fn(&Ch) -> String) -> Seen<Ch> {
    map_res(result(r), |x| (x.clone(), t(x)))
}

/// A scope, command or environment of stage g raised alone, and its text
pub fn up(g: i64, x: &Ch) -> Seen<Ch> {
    if g == 1 {
        let r = guard(|| match build1_variant(&x.k) {
            ast1::ChunkVariant::Scope(s) => ast2::Scope::try_from(s).map(|s| chunk2(x.l, ast2::ChunkVariant::Scope(s))),
            ast1::ChunkVariant::Command(c) => {
                ast2::Command::try_from(c).map(|c| chunk2(x.l, ast2::ChunkVariant::Command(c)))
            }
            _ => tool_error("not raised alone"),
        });
        of(r, |x| enc(&build2_chunk(x).to_string()))
    } else {
        let r = guard(|| match build2_variant(&x.k) {
            ast2::ChunkVariant::Scope(s) => ast3::Scope::try_from(s).map(|s| chunk3(x.l, ast3::ChunkVariant::Scope(s))),
            ast2::ChunkVariant::Command(c) => {
                ast3::Command::try_from(c).map(|c| chunk3(x.l, ast3::ChunkVariant::Command(c)))
            }
            ast2::ChunkVariant::Environment(e) => {
                ast3::Environment::try_from(e).map(|e| chunk3(x.l, ast3::ChunkVariant::Environment(e)))
            }
            _ => tool_error("not raised alone"),
        });
        of(r, |x| enc(&build3_chunk(x).to_string()))
    }
}

/// A chunk of stage g lowered alone: every conversion there is for it
pub fn down(g: i64, x: &Ch) -> Vec<(&'static str, Res<Vec<Ch>>)> {
    let mut out = Vec::new();
    let mut put = |what, f: &dyn Fn() -> Vec<Ch>| out.push((what, result(guard(|| Ok(f())))));
    if g == 2 {
        put("chunk", &|| see1(&ast1::IntoChunks::into_chunks(build2_chunk(x))));
        match build2_variant(&x.k) {
            ast2::ChunkVariant::Scope(s) => {
                put("scope", &|| vec![chunk1(x.l, ast1::ChunkVariant::Scope(s.clone().into()))]);
                put("to_ast1_scope", &|| vec![chunk1(x.l, ast1::ChunkVariant::Scope(s.clone().to_ast1_scope()))])
            }
            ast2::ChunkVariant::Command(c) => {
                put("command", &|| vec![chunk1(x.l, ast1::ChunkVariant::Command(c.clone().into()))])
            }
            _ => {}
        }
    } else {
        put("chunk", &|| see2(&ast2::IntoChunks::into_chunks(build3_chunk(x))));
        match build3_variant(&x.k) {
            ast3::ChunkVariant::Scope(s) => {
                put("scope", &|| vec![chunk2(x.l, ast2::ChunkVariant::Scope(s.clone().into()))])
            }
            ast3::ChunkVariant::Command(c) => {
                put("command", &|| vec![chunk2(x.l, ast2::ChunkVariant::Command(c.clone().into()))])
            }
            ast3::ChunkVariant::Environment(e) => {
                put("environment", &|| vec![chunk2(x.l, ast2::ChunkVariant::Environment(e.clone().into()))])
            }
            ast3::ChunkVariant::MathsBlock(m) => put("maths block", &|| {
                let mut cs = see2(&ast2::IntoChunks::into_chunks(m.clone()));
                for c in &mut cs {
                    c.l += x.l - 1
                }
                cs
            }),
            _ => {}
        }
    }
    out
}
/// A list of stage 2 chunks with its maths blocks and paragraph breaks found
pub fn maths(cs: &[Ch]) -> Res<Vec<Ch>> {
    map_res(result(guard(|| ast3::MathsBlock::from_chunks(build2(cs)))), |c| see3(c))
}
/// A list of stage 3 chunks with its texts split into paragraphs
pub fn para(cs: &[Ch]) -> Res<Vec<Ch>> {
    map_res(result(guard(|| Ok(ast3::Paragraph::from_chunks(build3(cs))))), |c| see3(c))
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, want: &Res<T>, got: &Res<T>) -> Option<Bad> {
    if want == got {
        None
    } else {
        bad(what, format!("{want:?}"), format!("{got:?}"))
    }
}
/// C21
pub fn check_alone(j: &J) -> Option<Bad> {
    let g = j.get("g").num();
    let cs = chunks_of(j.get("d"));
    let x = cs.last().unwrap();
    let text = text_of(j.get("text"));
    if let Some(want) = j.get("up").arr().first() {
        let want = map_res(res_of(want, chunk_of), |x| (x.clone(), text.clone()));
        let b = same(&format!("{x:?} of stage {g} raised alone"), &want, &up(g, x));
        if b.is_some() {
            return b;
        }
    }
    if let Some(want) = j.get("down").arr().first() {
        let want = Res::Ok(chunks_of(want));
        for (what, got) in down(g, x) {
            let b = same(&format!("{what} {x:?} of stage {g} lowered alone"), &want, &got);
            if b.is_some() {
                return b;
            }
        }
    }
    if let Some(want) = j.get("maths").arr().first() {
        let b = same(&format!("maths blocks of {cs:?}"), &res_of(want, chunks_of), &maths(&cs));
        if b.is_some() {
            return b;
        }
    }
    if let Some(want) = j.get("para").arr().first() {
        let b = same(&format!("paragraphs of {cs:?}"), &Res::Ok(chunks_of(want)), &para(&cs));
        if b.is_some() {
            return b;
        }
    }
    None
}

/// Whether two things are equal, told both ways and by both operators
fn equal<T: PartialEq>(a: &T, b: &T) -> Option<bool> {
    #[allow(clippy::nonminimal_bool)]
    match (a == b, b == a, a != b, b != a) {
        (true, true, false, false) => Some(true),
        (false, false, true, true) => Some(false),
        _ => None,
    }
}
pub fn equal_lists(g: i64, a: &[Ch], b: &[Ch]) -> Vec<(&'static str, Result<Option<bool>, String>)> {
    macro_rules! compare {
        ($ast:ident, $build:ident, $variant:ident, $sv:ident) => {{
            let mut out = vec![
                ("lists", guard(|| equal(&$build(a), &$build(b)))),
                (
                    "scopes",
                    guard(|| {
                        equal(&$ast::Scope::new_unchecked($build(a), $sv('[')), &$ast::Scope::new_unchecked($build(b), $sv('[')))
                    }),
                ),
            ];
            if let ([a], [b]) = (a, b) {
                if a.l == b.l {
                    out.push(("chunk variants", guard(|| equal(&$variant(&a.k), &$variant(&b.k)))))
                }
            }
            out
        }};
    }
    match g {
        1 => {
            let mut out = compare!(ast1, build1, build1_variant, sv1);
            let d = |x| ast1::Document::new_unchecked(build1(x));
            out.push(("documents", guard(|| equal(&d(a), &d(b)))));
            out
        }
        2 => {
            let mut out = compare!(ast2, build2, build2_variant, sv2);
            let d = |x| ast2::Document::new_unchecked(build2(x));
            out.push(("documents", guard(|| equal(&d(a), &d(b)))));
            out
        }
        _ => compare!(ast3, build3, build3_variant, sv3),
    }
}
pub fn equal_docs(a: &Doc3, b: &Doc3) -> Result<Option<bool>, String> {
    guard(|| equal(&build_doc3(a), &build_doc3(b)))
}
/// What a clone of a document shows, whether it equals it, and whether the
/// document is the same after the clone has been added to
pub fn cloned_list(g: i64, a: &[Ch]) -> Result<(Vec<Ch>, Option<bool>, bool), String> {
    macro_rules! clone {
        ($ast:ident, $build:ident, $see:ident) => {
            guard(|| {
                let d = $ast::Document::new_unchecked($build(a));
                let c = d.clone();
                let (seen, eq) = ($see(c.chunks()), equal(&d, &c));
                let mut c = c;
                c.push_unchecked($ast::ChunkVariant::Text("more".into()));
                (seen, eq, d == $ast::Document::new_unchecked($build(a)) && d != c)
            })
        };
    }
    match g {
        1 => clone!(ast1, build1, see1),
        2 => clone!(ast2, build2, see2),
        _ => guard(|| {
            let d = build3(a);
            let mut c = d.clone();
            let (seen, eq) = (see3(&c), equal(&d, &c));
            c.push(ast3::Chunk::new_unchecked(1, ast3::ChunkVariant::Text("more".into())));
            (seen, eq, d == build3(a) && d != c)
        }),
    }
}
pub fn cloned_doc(a: &Doc3) -> Result<(Doc3, Option<bool>, bool), String> {
    guard(|| {
        let d = build_doc3(a);
        let c = d.clone();
        let (seen, eq) = (see_doc3(&c), equal(&d, &c));
        let mut c = c;
        c.push_trailing_unchecked(ast3::ChunkVariant::Text("more".into()));
        (seen, eq, d == build_doc3(a) && d != c)
    })
}
/// C22
pub fn check_equal(j: &J) -> Option<Bad> {
    let g = j.get("g").num();
    let told = |what: &str, a: String, b: String, want: bool, got: Result<Option<bool>, String>| {
        if got == Ok(Some(want)) {
            None
        } else {
            bad(&format!("whether {what} are equal: {a} and {b}"), want, format!("{got:?}"))
        }
    };
    macro_rules! copied {
        ($m:expr, $r:expr) => {
            match $r {
                Ok((seen, Some(true), true)) if seen == $m => {}
                r => return bad(&format!("a clone of {:?}", $m), "its equal, independent of it", format!("{r:?}")),
            }
        };
    }
    if g == 3 {
        let a = doc3_of(j.get("d"));
        let b = told("documents", format!("{a:?}"), "itself".into(), true, equal_docs(&a, &a));
        if b.is_some() {
            return b;
        }
        copied!(a, cloned_doc(&a));
        for e in j.get("edits").arr() {
            let e = doc3_of(e);
            let mut r = vec![("documents", equal_docs(&a, &e))];
            for (x, y) in [(&a.pre, &e.pre), (&a.body, &e.body), (&a.tr, &e.tr)] {
                if x != y {
                    r.extend(equal_lists(3, x, y))
                }
            }
            for (what, r) in r {
                let b = told(what, format!("{a:?}"), format!("{e:?}"), false, r);
                if b.is_some() {
                    return b;
                }
            }
        }
    } else {
        let a = chunks_of(j.get("d"));
        for (what, r) in equal_lists(g, &a, &a) {
            let b = told(what, format!("{a:?}"), "itself".into(), true, r);
            if b.is_some() {
                return b;
            }
        }
        copied!(a, cloned_list(g, &a));
        for e in j.get("edits").arr() {
            let e = chunks_of(e);
            for (what, r) in equal_lists(g, &a, &e) {
                let b = told(what, format!("{a:?}"), format!("{e:?}"), false, r);
                if b.is_some() {
                    return b;
                }
            }
        }
    }
    None
}
