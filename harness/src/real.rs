//! The implementation: its trees seen through the public interface, and
//! trees built through it.
use crate::chars::Concrete;
use crate::dbg;
use crate::tree::*;
use latex_ast::traits::{Lines, Validate};
use latex_ast::{ast1, ast2, ast3, Error, ErrorType, InternalError};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

thread_local! {
    // whether parts are built with the checking constructors where they can be
    static CHECKED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CONC: RefCell<Concrete> = RefCell::new(Concrete::new(0));
}
pub fn set_concrete(k: u64) {
    set_checked(k != 0);
    CONC.with(|c| *c.borrow_mut() = Concrete::new(k))
}
pub fn set_checked(checked: bool) {
    CHECKED.set(checked)
}
pub fn checked() -> bool {
    CHECKED.get()
}
/// Builds a part with its checking constructor where that can be and is
/// wanted, without checking otherwise (that both agree is C17)
#[macro_export]
macro_rules! made {
    ($($t:ident)::+, $($a:expr),+ $(,)?) => { made!(@ $($t)::+, [], $($a,)+) };
    (@ $($t:ident)::+, [$(($x:ident $v:expr))*],) => {{
        $(let $x = $v;)*
        let checked = if $crate::real::checked() {
            $crate::real::guard(|| $($t)::+::new($($x.clone()),*)).ok().and_then(Result::ok)
        } else {
            None
        };
        checked.unwrap_or_else(|| $($t)::+::new_unchecked($($x),*))
    }};
    (@ $($t:ident)::+, [], $a:expr,) => { made!(@ $($t)::+, [(a $a)],) };
    (@ $($t:ident)::+, [], $a:expr, $b:expr,) => { made!(@ $($t)::+, [(a $a) (b $b)],) };
    (@ $($t:ident)::+, [], $a:expr, $b:expr, $c:expr,) => { made!(@ $($t)::+, [(a $a) (b $b) (c $c)],) };
    (@ $($t:ident)::+, [], $a:expr, $b:expr, $c:expr, $d:expr, $e:expr,) => {
        made!(@ $($t)::+, [(a $a) (b $b) (c $c) (d $d) (e $e)],)
    };
    (@ $($t:ident)::+, [], $a:expr, $b:expr, $c:expr, $d:expr, $e:expr, $f:expr, $g:expr, $h:expr,) => {
        made!(@ $($t)::+, [(a $a) (b $b) (c $c) (d $d) (e $e) (f $f) (g $g) (h $h)],)
    };
}
pub fn enc(s: &str) -> String {
    CONC.with(|c| c.borrow().encode(s))
}
pub fn enc_char(x: char) -> char {
    CONC.with(|c| c.borrow().encode_char(x))
}
pub fn dec(s: &str) -> String {
    CONC.with(|c| c.borrow().decode(s))
}

/// Runs f; a panic is a result
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

/// Lines that only a mistake makes so big stay within what TLC counts to
fn line(l: u32) -> i64 {
    (l as i64).min(1 << 30)
}

pub fn internal(e: &InternalError) -> (String, String, i64, i64) {
    match e {
        InternalError::UnsanitisedCharInString(c) => {
            ("UnsanitisedCharInString".into(), enc_char(*c).to_string(), 0, 0)
        }
        InternalError::IncorrectChunkLineNumber { expected, got } => {
            ("IncorrectChunkLineNumber".into(), String::new(), line(*expected), line(*got))
        }
        InternalError::ParagraphBreakTooShort => ("ParagraphBreakTooShort".into(), String::new(), 0, 0),
        InternalError::ParagraghBreakNonwhitespace => ("ParagraghBreakNonwhitespace".into(), String::new(), 0, 0),
        InternalError::BeginCommand => ("BeginCommand".into(), String::new(), 0, 0),
        InternalError::EndCommand => ("EndCommand".into(), String::new(), 0, 0),
        InternalError::UnbrokenParagraph => ("UnbrokenParagraph".into(), String::new(), 0, 0),
    }
}

fn error<T>(e: Error) -> Res<T> {
    let (kind, arg) = match &e.r#type {
        ErrorType::UnexpectedClosing(v) => ("UnexpectedClosing", v.open().to_string()),
        ErrorType::UnclosedArgument(v) => ("UnclosedArgument", v.open().to_string()),
        ErrorType::UnclosedScope(v) => ("UnclosedScope", v.open().to_string()),
        ErrorType::NoEnvironmentLabel => ("NoEnvironmentLabel", String::new()),
        ErrorType::UnexpectedEnd(s) => ("UnexpectedEnd", enc(s)),
        ErrorType::UnclosedEnvironment(s) => ("UnclosedEnvironment", enc(s)),
        ErrorType::TooManyArgsEnd => ("TooManyArgsEnd", String::new()),
        ErrorType::TooManyArgsDocumentClass => ("TooManyArgsDocumentClass", String::new()),
        ErrorType::DoubleDocumentClass => ("DoubleDocumentClass", String::new()),
        ErrorType::UnexpectedMathsEnd => ("UnexpectedMathsEnd", String::new()),
        ErrorType::UnclosedMaths => ("UnclosedMaths", String::new()),
        ErrorType::Internal(i) => ("Internal", internal(i).0),
    };
    Res::Err { line: line(e.line), kind: kind.into(), arg }
}

pub fn result<T>(r: Result<Result<T, Error>, String>) -> Res<T> {
    match r {
        Ok(Ok(t)) => Res::Ok(t),
        Ok(Err(e)) => error(e),
        Err(p) => Res::Panic(p),
    }
}

pub fn parse1(s: &str) -> Res<ast1::Document> {
    result(guard(|| ast1::Document::from_str(s)))
}
pub fn parse2(s: &str) -> Res<ast2::Document> {
    result(guard(|| ast2::Document::from_str(s)))
}
pub fn parse3(s: &str) -> Res<ast3::Document> {
    result(guard(|| ast3::Document::from_str(s)))
}

macro_rules! variants {
    ($name:ident, $ast:ident) => {
        pub fn $name(v: char) -> $ast::ScopeVariant {
            match v {
                '{' => $ast::ScopeVariant::Curly,
                '(' => $ast::ScopeVariant::Round,
                '[' => $ast::ScopeVariant::Square,
                _ => panic!("bracket {v}"),
            }
        }
    };
}
variants!(sv1, ast1);
variants!(sv2, ast2);
variants!(sv3, ast3);

macro_rules! seen {
    ($chunks:ident, $chunk:ident, $args:ident, $ast:ident, { $($extra:tt)* }) => {
        pub fn $args(a: &[(String, $ast::Scope)]) -> Vec<Arg> {
            a.iter()
                .map(|(p, sc)| Arg { p: enc(p), v: sc.variant().open(), c: $chunks(sc.chunks()) })
                .collect()
        }
        pub fn $chunks(c: &[$ast::Chunk]) -> Vec<Ch> {
            c.iter().map($chunk).collect()
        }
        pub fn $chunk(c: &$ast::Chunk) -> Ch {
            Ch {
                l: line(c.line_no()),
                k: match c.variant() {
                    $ast::ChunkVariant::Text(s) => K::T(enc(s)),
                    $ast::ChunkVariant::Scope(s) => K::S { v: s.variant().open(), c: $chunks(s.chunks()) },
                    $ast::ChunkVariant::Command(c) => K::C { n: enc(c.label()), a: $args(c.arguments()) },
                    $($extra)*
                },
            }
        }
    };
}
seen!(see1, see1_chunk, see1_args, ast1, {});
seen!(see2, see2_chunk, see2_args, ast2, {
    ast2::ChunkVariant::Environment(e) => {
        let (n, a, c, p, q) = e.clone().decompose();
        K::E { n: enc(&n), a: see2_args(&a), c: see2(&c), p: enc(&p), q: enc(&q) }
    }
});
seen!(see3, see3_chunk, see3_args, ast3, {
    ast3::ChunkVariant::ParagraphBreak(s) => K::P(enc(s)),
    ast3::ChunkVariant::Environment(e) => {
        let (n, a, c, p, q) = e.clone().decompose();
        K::E { n: enc(&n), a: see3_args(&a), c: see3(&c), p: enc(&p), q: enc(&q) }
    }
    ast3::ChunkVariant::MathsBlock(m) => see_maths(m)
});

/// The fields of a maths block have no accessors: they are read from its
/// Debug form, and the block is built again from them to be sure (at least
/// its text is the same, where a mistake makes equal blocks differ)
pub fn see_maths(m: &ast3::MathsBlock) -> K {
    let k = dbg::maths(&format!("{m:?}")).unwrap_or_else(|e| tool_error(&format!("{e} in {m:?}")));
    if let K::M { v, t, c } = &k {
        let b = ast3::MathsBlock::new_unchecked(mv(*v), mt(*t), build3(c));
        if &b != m && b.to_string() != m.to_string() {
            tool_error(&format!("cannot read {m:?}"))
        }
    }
    k
}
pub fn tool_error(m: &str) -> ! {
    eprintln!("TOOL-ERROR: {m}");
    std::process::exit(2)
}

pub fn see_doc3(d: &ast3::Document) -> Doc3 {
    let hb = d.has_body();
    let (cls, opts, pre, body, args, p, q, tr) = d.clone().decompose();
    Doc3 {
        cls: cls.map(|c| enc(&c)),
        opts: opts
            .into_iter()
            .map(|(p, k, e, q)| Opt {
                p: enc(&p),
                k: enc(&k),
                e: e.map(|(a, b, c)| (enc(&a), enc(&b), enc(&c))),
                q: enc(&q),
            })
            .collect(),
        pre: see3(&pre),
        body: see3(&body),
        args: see3_args(&args),
        p: enc(&p),
        q: enc(&q),
        tr: see3(&tr),
        hb,
    }
}

// ------------------------------------------------------------------ building

pub fn mv(v: char) -> ast3::MathsVariant {
    match v {
        'B' => ast3::MathsVariant::Brackets,
        'D' => ast3::MathsVariant::Dollars,
        _ => panic!("maths {v}"),
    }
}
pub fn mt(t: char) -> ast3::MathsType {
    match t {
        'I' => ast3::MathsType::Inline,
        'O' => ast3::MathsType::Outline,
        _ => panic!("maths {t}"),
    }
}

macro_rules! built {
    ($chunks:ident, $chunk:ident, $variant:ident, $args:ident, $ast:ident, $sv:ident, { $($extra:tt)* }) => {
        pub fn $args(a: &[Arg]) -> Vec<(String, $ast::Scope)> {
            a.iter()
                .map(|a| (dec(&a.p), made!($ast::Scope, $chunks(&a.c), $sv(a.v))))
                .collect()
        }
        pub fn $chunks(c: &[Ch]) -> Vec<$ast::Chunk> {
            c.iter().map($chunk).collect()
        }
        pub fn $chunk(x: &Ch) -> $ast::Chunk {
            made!($ast::Chunk, x.l as u32, $variant(&x.k))
        }
        pub fn $variant(k: &K) -> $ast::ChunkVariant {
            match k {
                K::T(s) => $ast::ChunkVariant::Text(dec(s)),
                K::S { v, c } => $ast::ChunkVariant::Scope(made!($ast::Scope, $chunks(c), $sv(*v))),
                K::C { n, a } => $ast::ChunkVariant::Command(made!($ast::Command, dec(n), $args(a))),
                $($extra)*
            }
        }
    };
}
built!(build1, build1_chunk, build1_variant, build1_args, ast1, sv1, {
    k => panic!("not stage 1: {k:?}")
});
built!(build2, build2_chunk, build2_variant, build2_args, ast2, sv2, {
    K::E { n, a, c, p, q } => ast2::ChunkVariant::Environment(made!(ast2::Environment,
        dec(n), build2_args(a), build2(c), dec(p), dec(q))),
    k => panic!("not stage 2: {k:?}")
});
built!(build3, build3_chunk, build3_variant, build3_args, ast3, sv3, {
    K::P(s) => ast3::ChunkVariant::ParagraphBreak(dec(s)),
    K::E { n, a, c, p, q } => ast3::ChunkVariant::Environment(made!(ast3::Environment,
        dec(n), build3_args(a), build3(c), dec(p), dec(q))),
    K::M { v, t, c } => ast3::ChunkVariant::MathsBlock(made!(ast3::MathsBlock, mv(*v), mt(*t), build3(c))),
});

#[allow(clippy::type_complexity)]
pub fn build_opts(o: &[Opt]) -> Vec<(String, String, Option<(String, String, String)>, String)> {
    o.iter()
        .map(|o| {
            (
                dec(&o.p),
                dec(&o.k),
                o.e.as_ref().map(|(a, b, c)| (dec(a), dec(b), dec(c))),
                dec(&o.q),
            )
        })
        .collect()
}
pub fn build_doc3(d: &Doc3) -> ast3::Document {
    made!(ast3::Document,
        build3(&d.pre),
        d.cls.as_ref().map(|c| dec(c)),
        build_opts(&d.opts),
        build3(&d.body),
        build3_args(&d.args),
        dec(&d.p),
        dec(&d.q),
        build3(&d.tr),
    )
}

// ---------------------------------------------------------- line counts (C10)

/// (rendered text, reported lines) of an element
pub type Counted = (String, i64);
fn count<T: Lines + ToString>(x: &T, out: &mut Vec<Counted>) {
    out.push((x.to_string(), x.lines() as i64))
}
macro_rules! counted {
    ($f:ident, $ast:ident, $out:ident, { $($extra:tt)* }) => {
        pub fn $f(cs: &[$ast::Chunk], $out: &mut Vec<Counted>) {
            for c in cs {
                count(c, $out);
                count(c.variant(), $out);
                match c.variant() {
                    $ast::ChunkVariant::Text(_) => {}
                    $ast::ChunkVariant::Scope(s) => {
                        count(s, $out);
                        $f(s.chunks(), $out)
                    }
                    $ast::ChunkVariant::Command(c) => {
                        count(c, $out);
                        for (_, s) in c.arguments() {
                            count(s, $out);
                            $f(s.chunks(), $out)
                        }
                    }
                    $($extra)*
                }
            }
        }
    };
}
counted!(count1, ast1, out, {});
counted!(count2, ast2, out, { ast2::ChunkVariant::Environment(e) => {
    count(e, out);
    let (_, a, c, _, _) = e.clone().decompose();
    for (_, s) in &a {
        count(s, out);
        count2(s.chunks(), out)
    }
    count2(&c, out)
} });
counted!(count3, ast3, out, { ast3::ChunkVariant::ParagraphBreak(_) => {}
ast3::ChunkVariant::Environment(e) => {
    count(e, out);
    let (_, a, c, _, _) = e.clone().decompose();
    for (_, s) in &a {
        count(s, out);
        count3(s.chunks(), out)
    }
    count3(&c, out)
}
ast3::ChunkVariant::MathsBlock(m) => {
    count(m, out);
    if let K::M { c, .. } = see_maths(m) {
        count3(&build3(&c), out)
    }
} });
pub fn count_doc1(d: &ast1::Document) -> Vec<Counted> {
    let mut out = Vec::new();
    count(d, &mut out);
    count1(d.chunks(), &mut out);
    out
}
pub fn count_doc2(d: &ast2::Document) -> Vec<Counted> {
    let mut out = Vec::new();
    count(d, &mut out);
    count2(d.chunks(), &mut out);
    out
}
pub fn count_doc3(d: &ast3::Document) -> Vec<Counted> {
    let mut out = Vec::new();
    count(d, &mut out);
    let (_, _, pre, body, args, _, _, tr) = d.clone().decompose();
    for (_, s) in &args {
        count(s, &mut out);
        count3(s.chunks(), &mut out)
    }
    for c in [&pre, &body, &tr] {
        count3(c, &mut out)
    }
    out
}

/// Verdict of validation: empty or the problem
pub type Verdict = Option<(String, String, i64, i64)>;
pub fn verdict(r: Result<(), InternalError>) -> Verdict {
    r.err().map(|e| internal(&e))
}
pub fn validate<T: Validate>(x: &T) -> Verdict {
    verdict(x.validate())
}
