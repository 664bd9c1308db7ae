//! Trees of the specification (spec/Ast.tla), with stand-in characters.
use crate::json::{obj, s, J};

#[derive(Clone, Debug, PartialEq)]
pub struct Arg {
    pub p: String,
    pub v: char,
    pub c: Vec<Ch>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    T(String),
    P(String),
    C { n: String, a: Vec<Arg> },
    S { v: char, c: Vec<Ch> },
    E { n: String, a: Vec<Arg>, c: Vec<Ch>, p: String, q: String },
    M { v: char, t: char, c: Vec<Ch> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ch {
    pub l: i64,
    pub k: K,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Opt {
    pub p: String,
    pub k: String,
    pub e: Option<(String, String, String)>,
    pub q: String,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc3 {
    pub cls: Option<String>,
    pub opts: Vec<Opt>,
    pub pre: Vec<Ch>,
    pub body: Vec<Ch>,
    pub args: Vec<Arg>,
    pub p: String,
    pub q: String,
    pub tr: Vec<Ch>,
    pub hb: bool,
}

/// Result of parsing: a tree, or line, kind and argument of the error
#[derive(Clone, Debug, PartialEq)]
pub enum Res<T> {
    Ok(T),
    Err { line: i64, kind: String, arg: String },
    Panic(String),
}

impl<T> Res<T> {
    pub fn ok(&self) -> Option<&T> {
        match self {
            Res::Ok(t) => Some(t),
            _ => None,
        }
    }
}

pub fn text_of(j: &J) -> String {
    j.arr().iter().map(|c| c.str()).collect()
}
pub fn text_to(t: &str) -> J {
    J::Arr(t.chars().map(|c| J::Str(c.to_string())).collect())
}
fn ch1(t: &str) -> char {
    t.chars().next().unwrap()
}

pub fn args_of(j: &J) -> Vec<Arg> {
    j.arr()
        .iter()
        .map(|a| Arg { p: text_of(a.get("p")), v: ch1(a.get("v").str()), c: chunks_of(a.get("c")) })
        .collect()
}
pub fn chunks_of(j: &J) -> Vec<Ch> {
    j.arr().iter().map(chunk_of).collect()
}
pub fn chunk_of(x: &J) -> Ch {
    let k = match x.get("k").str() {
        "T" => K::T(text_of(x.get("s"))),
        "P" => K::P(text_of(x.get("s"))),
        "C" => K::C { n: text_of(x.get("n")), a: args_of(x.get("a")) },
        "S" => K::S { v: ch1(x.get("v").str()), c: chunks_of(x.get("c")) },
        "E" => K::E {
            n: text_of(x.get("n")),
            a: args_of(x.get("a")),
            c: chunks_of(x.get("c")),
            p: text_of(x.get("p")),
            q: text_of(x.get("q")),
        },
        "M" => K::M { v: ch1(x.get("v").str()), t: ch1(x.get("t").str()), c: chunks_of(x.get("c")) },
        k => panic!("chunk kind {k}"),
    };
    Ch { l: x.get("l").num(), k }
}
pub fn opt_of(o: &J) -> Opt {
    Opt {
        p: text_of(o.get("p")),
        k: text_of(o.get("k")),
        e: o.get("e").arr().first().map(|e| (text_of(e.get("p")), text_of(e.get("q")), text_of(e.get("v")))),
        q: text_of(o.get("q")),
    }
}
pub fn doc3_of(d: &J) -> Doc3 {
    Doc3 {
        cls: d.get("cls").arr().first().map(text_of),
        opts: d.get("opts").arr().iter().map(opt_of).collect(),
        pre: chunks_of(d.get("pre")),
        body: chunks_of(d.get("body")),
        args: args_of(d.get("args")),
        p: text_of(d.get("p")),
        q: text_of(d.get("q")),
        tr: chunks_of(d.get("tr")),
        hb: d.get("hb").bool(),
    }
}
pub fn res_of<T>(j: &J, f: impl Fn(&J) -> T) -> Res<T> {
    if j.get("ok").bool() {
        Res::Ok(f(j.get("v")))
    } else {
        Res::Err {
            line: j.get("line").num(),
            kind: j.get("kind").str().to_string(),
            arg: text_of(j.get("arg")),
        }
    }
}

pub fn args_to(a: &[Arg]) -> J {
    J::Arr(
        a.iter()
            .map(|a| obj(vec![("p", text_to(&a.p)), ("v", s(&a.v.to_string())), ("c", chunks_to(&a.c))]))
            .collect(),
    )
}
pub fn chunks_to(c: &[Ch]) -> J {
    J::Arr(c.iter().map(chunk_to).collect())
}
pub fn chunk_to(x: &Ch) -> J {
    let l = ("l", J::Num(x.l));
    match &x.k {
        K::T(t) => obj(vec![("k", s("T")), l, ("s", text_to(t))]),
        K::P(t) => obj(vec![("k", s("P")), l, ("s", text_to(t))]),
        K::C { n, a } => obj(vec![("k", s("C")), l, ("n", text_to(n)), ("a", args_to(a))]),
        K::S { v, c } => obj(vec![("k", s("S")), l, ("v", s(&v.to_string())), ("c", chunks_to(c))]),
        K::E { n, a, c, p, q } => obj(vec![
            ("k", s("E")),
            l,
            ("n", text_to(n)),
            ("a", args_to(a)),
            ("c", chunks_to(c)),
            ("p", text_to(p)),
            ("q", text_to(q)),
        ]),
        K::M { v, t, c } => obj(vec![
            ("k", s("M")),
            l,
            ("v", s(&v.to_string())),
            ("t", s(&t.to_string())),
            ("c", chunks_to(c)),
        ]),
    }
}
pub fn opt_to(o: &Opt) -> J {
    obj(vec![
        ("p", text_to(&o.p)),
        ("k", text_to(&o.k)),
        (
            "e",
            J::Arr(
                o.e.iter()
                    .map(|(p, q, v)| obj(vec![("p", text_to(p)), ("q", text_to(q)), ("v", text_to(v))]))
                    .collect(),
            ),
        ),
        ("q", text_to(&o.q)),
    ])
}
pub fn doc3_to(d: &Doc3) -> J {
    obj(vec![
        ("cls", J::Arr(d.cls.iter().map(|c| text_to(c)).collect())),
        ("opts", J::Arr(d.opts.iter().map(opt_to).collect())),
        ("pre", chunks_to(&d.pre)),
        ("body", chunks_to(&d.body)),
        ("args", args_to(&d.args)),
        ("p", text_to(&d.p)),
        ("q", text_to(&d.q)),
        ("tr", chunks_to(&d.tr)),
        ("hb", J::Bool(d.hb)),
    ])
}
pub fn res_to<T>(r: &Res<T>, f: impl Fn(&T) -> J) -> J {
    match r {
        Res::Ok(t) => obj(vec![("ok", J::Bool(true)), ("v", f(t))]),
        Res::Err { line, kind, arg } => obj(vec![
            ("ok", J::Bool(false)),
            ("line", J::Num(*line)),
            ("kind", s(kind)),
            ("arg", text_to(arg)),
        ]),
        Res::Panic(_) => obj(vec![
            ("ok", J::Bool(false)),
            ("line", J::Num(0)),
            ("kind", s("PANIC")),
            ("arg", J::Arr(vec![])),
        ]),
    }
}

// ---------------------------------------------------------------- rendering

pub fn close_of(v: char) -> char {
    match v {
        '{' => '}',
        '(' => ')',
        '[' => ']',
        _ => panic!("bracket {v}"),
    }
}
pub fn delims(v: char, t: char) -> (&'static str, &'static str) {
    match (v, t) {
        ('B', 'I') => ("/(", "/)"),
        ('B', 'O') => ("/[", "/]"),
        ('D', 'I') => ("$", "$"),
        ('D', 'O') => ("$$", "$$"),
        _ => panic!("maths {v}{t}"),
    }
}
pub fn render(cs: &[Ch], o: &mut String) {
    for x in cs {
        render1(x, o)
    }
}
fn render_args(a: &[Arg], o: &mut String) {
    for a in a {
        o.push_str(&a.p);
        o.push(a.v);
        render(&a.c, o);
        o.push(close_of(a.v));
    }
}
pub fn render1(x: &Ch, o: &mut String) {
    match &x.k {
        K::T(t) | K::P(t) => o.push_str(t),
        K::C { n, a } => {
            o.push('/');
            o.push_str(n);
            render_args(a, o)
        }
        K::S { v, c } => {
            o.push(*v);
            render(c, o);
            o.push(close_of(*v))
        }
        K::E { n, a, c, p, q } => render_env(n, a, c, p, q, o),
        K::M { v, t, c } => {
            let (a, b) = delims(*v, *t);
            o.push_str(a);
            render(c, o);
            o.push_str(b)
        }
    }
}
fn render_env(n: &str, a: &[Arg], c: &[Ch], p: &str, q: &str, o: &mut String) {
    o.push_str("/begin");
    o.push_str(p);
    o.push('{');
    o.push_str(n);
    o.push('}');
    render_args(a, o);
    render(c, o);
    o.push_str("/end");
    o.push_str(q);
    o.push('{');
    o.push_str(n);
    o.push('}');
}
pub fn text(cs: &[Ch]) -> String {
    let mut o = String::new();
    render(cs, &mut o);
    o
}
pub fn text_args(a: &[Arg]) -> String {
    let mut o = String::new();
    render_args(a, &mut o);
    o
}
pub fn text3(d: &Doc3) -> String {
    let mut o = String::new();
    render(&d.pre, &mut o);
    if d.hb {
        render_env("document", &d.args, &d.body, &d.p, &d.q, &mut o);
        render(&d.tr, &mut o);
    }
    o
}
pub fn nl(t: &str) -> i64 {
    t.chars().map(weight).sum()
}
/// Newlines in a character of the specification
pub fn weight(c: char) -> i64 {
    match c {
        '~' => 1,
        '@' => crate::chars::RUN as i64,
        _ => 0,
    }
}
pub fn is_space(c: char) -> bool {
    "_~`^'>@:".contains(c)
}

// --------------------------------------------------------------- projections

/// The same tree with every line number replaced by 0
pub fn no_lines(cs: &[Ch]) -> Vec<Ch> {
    map_chunks(cs, &mut |c| {
        for x in c.iter_mut() {
            x.l = 0
        }
    })
}
pub fn no_lines_args(a: &[Arg]) -> Vec<Arg> {
    map_args(a, &mut |c| {
        for x in c.iter_mut() {
            x.l = 0
        }
    })
}
/// Apply f to every chunk list of a tree, inner lists first
pub fn map_chunks(cs: &[Ch], f: &mut impl FnMut(&mut Vec<Ch>)) -> Vec<Ch> {
    let mut out: Vec<Ch> = cs
        .iter()
        .map(|x| Ch {
            l: x.l,
            k: match &x.k {
                K::T(t) => K::T(t.clone()),
                K::P(t) => K::P(t.clone()),
                K::C { n, a } => K::C { n: n.clone(), a: map_args(a, f) },
                K::S { v, c } => K::S { v: *v, c: map_chunks(c, f) },
                K::E { n, a, c, p, q } => K::E {
                    n: n.clone(),
                    a: map_args(a, f),
                    c: map_chunks(c, f),
                    p: p.clone(),
                    q: q.clone(),
                },
                K::M { v, t, c } => K::M { v: *v, t: *t, c: map_chunks(c, f) },
            },
        })
        .collect();
    f(&mut out);
    out
}
pub fn map_args(a: &[Arg], f: &mut impl FnMut(&mut Vec<Ch>)) -> Vec<Arg> {
    a.iter().map(|a| Arg { p: a.p.clone(), v: a.v, c: map_chunks(&a.c, f) }).collect()
}
pub fn map_doc3(d: &Doc3, f: &mut impl FnMut(&mut Vec<Ch>)) -> Doc3 {
    Doc3 {
        cls: d.cls.clone(),
        opts: d.opts.clone(),
        pre: map_chunks(&d.pre, f),
        body: map_chunks(&d.body, f),
        args: map_args(&d.args, f),
        p: d.p.clone(),
        q: d.q.clone(),
        tr: map_chunks(&d.tr, f),
        hb: d.hb,
    }
}
/// Neighbouring texts and breaks joined, lines dropped
pub fn joined(cs: &mut Vec<Ch>) {
    let mut out: Vec<Ch> = Vec::new();
    for x in cs.drain(..) {
        let k = match x.k {
            K::P(t) => K::T(t),
            k => k,
        };
        if let (K::T(t), Some(Ch { k: K::T(u), .. })) = (&k, out.last_mut()) {
            u.push_str(t);
            continue;
        }
        out.push(Ch { l: 0, k })
    }
    *cs = out
}
/// As joined, and without the whitespace of texts
pub fn joined_bare(cs: &mut Vec<Ch>) {
    joined(cs);
    for x in cs.iter_mut() {
        if let K::T(t) = &mut x.k {
            t.retain(|c| !is_space(c))
        }
    }
    cs.retain(|x| !matches!(&x.k, K::T(t) if t.is_empty()));
}

/// Is there a stretch of whitespace with two newlines
pub fn has_break(t: &str) -> bool {
    let mut n = false;
    for c in t.chars() {
        if weight(c) > 0 {
            if n || weight(c) > 1 {
                return true;
            }
            n = true
        } else if !is_space(c) {
            n = false
        }
    }
    false
}

/// Every chunk is on the line it starts on
pub fn lines_true(cs: &[Ch]) -> bool {
    let mut ok = true;
    map_chunks(cs, &mut |c| {
        let mut line = 1;
        for x in c.iter() {
            ok &= x.l == line;
            line += nl(&text(std::slice::from_ref(x)))
        }
    });
    ok
}
