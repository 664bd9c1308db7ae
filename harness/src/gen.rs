//! Random sources, histories and trees, larger than TLC enumerates.
use crate::tree::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
}

const WORDS: [&str; 14] = ["x", "word", "two_words", "1", "a,b", "=", "Z", "!|", "#", "a~b", "&", "-", "q'r", "y>~"];
const SPACES: [&str; 14] = ["_", "~", "~~", "`", "^", "'", "~_", "_~", ">~", "~_~`~", ">", ">>_", "^^", "_>_"];
const COMMANDS: [&str; 14] =
    ["c", "item", "a*", "%", "{", "_", "~", "!", "/", "1", "#", "cite", "Z", "$"];
const LABELS: [&str; 10] = ["e", "f", "e*", "align", "a/c{x}", "e~", "", "document", "g_h", "!"];
const OPTIONS: [&str; 8] = ["a", "a=b", "_k_=~v_", "=", "", "a==b", "x{1,2}", "t=/w"];

/// Names that mean something in LaTeX: they are like any other to the parser,
/// `begin`, `end`, `document` and `documentclass` apart
const REAL_LABELS: [&str; 30] = [
    "verbatim", "verbatim*", "lstlisting", "minted", "comment", "equation", "equation*", "align", "align*", "gather*",
    "math", "displaymath", "array", "matrix", "tabular", "itemize", "enumerate", "figure", "table", "center", "quote",
    "thebibliography", "document*", "documents", "Document", "abstract", "tikzpicture", "filecontents", "cases", "e*",
];
const REAL_COMMANDS: [&str; 48] = [
    "verb", "verb*", "item", "par", "section*", "newcommand", "newcommand*", "def", "let", "left", "right", "text",
    "mbox", "usepackage", "documentstyle", "documentclass", "makeatletter", "begingroup", "endgroup", "bgroup", "egroup",
    "input", "include", "label", "ref", "cite", "frac", "sqrt", "newline", "linebreak", "hspace*", "iffalse", "fi", "else",
    "lstinline", "mint", "url", "href", "endinput", "catcode", "relax", "begins", "ending", "Begin", "End", "newenvironment",
    "ensuremath", "footnote",
];
const REAL_OPTIONS: [&str; 10] =
    ["a4paper", "12pt", "twocolumn", "draft", "final", "lang=en", "draft=true", "draft=false", "fontsize_=_12pt", "x={}"];
const REAL_CLASSES: [&str; 7] = ["article", "book", "report", "letter", "beamer", "minimal", "standalone"];

/// What there is a lot of in a source
#[derive(Clone, Copy, PartialEq)]
pub enum Lot {
    Nothing,
    Arguments,
    Words,
    Newlines,
    Spaces,
    Siblings,
    Options,
    Repeats,
    Twins,
    /// runs: more of a character than 16 bits count
    Runs,
}
const LOTS: [Lot; 9] =
    [Lot::Arguments, Lot::Words, Lot::Newlines, Lot::Spaces, Lot::Siblings, Lot::Options, Lot::Repeats, Lot::Twins, Lot::Runs];
/// Texts with runs in them.  They start with a character that no run is of, so
/// that what was before them does not become part of the run.
const RUNS: [&str; 6] = ["x@", "x:", "x.", "x.y", "x@_", "x_@"];

pub struct Source<'a> {
    pub rng: &'a mut Rng,
    pub out: String,
    pub budget: i64,
    pub lot: Lot,
}

impl Source<'_> {
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
        self.budget -= s.chars().count() as i64;
    }
    /// Now and then a lot of something that counts for little of the budget
    fn many(&mut self, lot: Lot, unit: &str, most: usize) -> bool {
        if self.lot != lot || !self.rng.chance(30) {
            return false;
        }
        let n = 8 + self.rng.below(most);
        for _ in 0..n {
            self.out.push_str(unit)
        }
        self.budget -= 8;
        true
    }
    /// One of the names of a list, or, now and then, of another
    fn name(&mut self, own: &[&'static str], real: &[&'static str]) -> &'static str {
        if self.rng.chance(25) {
            self.rng.pick(real)
        } else {
            self.rng.pick(own)
        }
    }
    fn space(&mut self, percent: usize) {
        if self.rng.chance(percent) {
            if self.many(Lot::Newlines, "~", 60) || self.many(Lot::Newlines, "~_", 20) || self.many(Lot::Spaces, "_", 60) {
                return;
            }
            let run = self.lot == Lot::Runs && self.rng.chance(15);
            let s = *self.rng.pick(if run { &["`@", "`:", "`@_"][..] } else { &SPACES });
            self.put(s)
        }
    }
    fn group(&mut self, depth: usize, percent: usize) {
        self.space(percent);
        let (a, b) = *self.rng.pick(&[("{", "}"), ("{", "}"), ("[", "]"), ("(", ")")]);
        self.put(a);
        self.items(depth.saturating_sub(1), 3);
        self.put(b);
    }
    pub fn items(&mut self, depth: usize, most: usize) {
        let n = self.rng.below(most + 1);
        for _ in 0..n {
            if self.budget <= 0 {
                return;
            }
            self.item(depth)
        }
    }
    fn item(&mut self, depth: usize) {
        let kinds = if depth == 0 { 6 } else { 12 };
        match self.rng.below(kinds) {
            0 | 1 => {
                let run = self.lot == Lot::Runs && self.rng.chance(30);
                let w = *self.rng.pick(if run { &RUNS[..] } else { &WORDS });
                if !self.many(Lot::Words, w, 40) {
                    self.put(w)
                }
            }
            2 => self.space(100),
            3 => {
                self.put("%");
                let w = *self.rng.pick(&["", "note", "/{", "a%b", "$"]);
                self.put(w);
                self.put("~")
            }
            4 => {
                let c = self.name(&COMMANDS, &REAL_COMMANDS);
                self.put("/");
                self.put(c);
                self.space(50)
            }
            5 => {
                let t = *self.rng.pick(&["~~", "~_~", "~~~~_", "~^~"]);
                self.put(t)
            }
            6 | 7 => {
                let c = self.name(&["c", "item", "section", "a*", "!c", "Z"], &REAL_COMMANDS);
                self.put("/");
                if !self.many(Lot::Words, "w", 60) {
                    self.put(c);
                }
                let most = if self.lot == Lot::Arguments { *self.rng.pick(&[8, 14, 40]) } else { 2 };
                for _ in 0..1 + self.rng.below(most) {
                    self.group(depth.min(2), 25)
                }
                self.space(30)
            }
            8 => self.group(depth, 0),
            9 | 10 => {
                let mut l = self.name(&LABELS, &REAL_LABELS).to_string();
                if self.lot == Lot::Words && self.rng.chance(40) {
                    l = "lab".repeat(4 + self.rng.below(20))
                }
                let l = l.as_str();
                self.put("/begin");
                self.space(15);
                self.put("{");
                self.put(l);
                self.put("}");
                let args = if self.lot == Lot::Arguments { self.rng.below(14) } else { [0, 0, 0, 1, 2][self.rng.below(5)] };
                for _ in 0..args {
                    self.group(depth.min(2), 20)
                }
                let most = if self.lot == Lot::Siblings { 20 } else { 5 };
                self.items(depth - 1, most);
                self.put("/end");
                self.space(15);
                self.put("{");
                self.put(l);
                self.put("}")
            }
            _ => {
                let (a, b) = *self.rng.pick(&[("$", "$"), ("$", "$"), ("$$", "$$"), ("/(", "/)"), ("/[", "/]")]);
                self.put(a);
                self.items(depth - 1, 4);
                self.put(b)
            }
        }
    }
    fn class(&mut self) {
        self.put("/documentclass");
        self.space(15);
        if self.rng.chance(60) {
            self.put("[");
            let most = if self.lot == Lot::Options { *self.rng.pick(&[24, 24, 150]) } else { 4 };
            let n = self.rng.below(most);
            for i in 0..=n {
                if i > 0 {
                    self.put(",")
                }
                let o = self.name(&OPTIONS, &REAL_OPTIONS);
                self.put(o)
            }
            self.put("]");
            self.space(15);
        }
        let k = self.name(&["k"], &REAL_CLASSES);
        self.put("{");
        self.put(k);
        self.put("}");
        self.space(80)
    }
    pub fn document(&mut self, depth: usize) {
        if self.rng.chance(50) {
            self.items(depth, 2);
            if self.rng.chance(70) {
                self.class()
            }
            self.items(depth, 4);
            self.put("/begin");
            self.space(15);
            self.put("{document}");
            if self.rng.chance(20) {
                self.group(depth, 30)
            }
            let most = if self.lot == Lot::Siblings { 40 } else { 10 };
            self.items(depth, most);
            self.put("/end");
            self.space(15);
            self.put("{document}");
            self.items(depth, 4)
        } else {
            self.items(depth, 12)
        }
    }
}

const SCRAPS: [&str; 22] = [
    "{", "}", "(", ")", "[", "]", "$", "$$", "/(", "/)", "/[", "/]", "/", "%", "~", "~~", "/begin{e}", "/end{e}", "/begin",
    "/end", "/documentclass{k}", "/c",
];

/// Deletes, doubles, swaps or inserts something
pub fn damage(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.below(2) {
        let n = c.len();
        match rng.below(5) {
            0 if n > 0 => {
                let i = rng.below(n);
                c.remove(i);
            }
            1 if n > 1 => {
                let i = rng.below(n - 1);
                c.swap(i, i + 1)
            }
            2 if n > 0 => {
                let i = rng.below(n);
                let j = (i + 1 + rng.below(12)).min(n);
                let part: Vec<char> = c[i..j].to_vec();
                let at = rng.below(n + 1);
                c.splice(at..at, part);
            }
            3 if n > 0 => {
                let i = rng.below(n);
                let j = (i + 1 + rng.below(6)).min(n);
                c.drain(i..j);
            }
            _ => {
                let at = rng.below(n + 1);
                let s: Vec<char> = rng.pick(&SCRAPS).chars().collect();
                c.splice(at..at, s);
            }
        }
    }
    c.into_iter().collect()
}

pub fn source(rng: &mut Rng, size: usize) -> String {
    let depth = 1 + rng.below(6);
    let budget = (10 + rng.below(size)) as i64;
    let whole = rng.chance(60);
    let lot = if rng.chance(12) { *rng.pick(&LOTS) } else { Lot::Nothing };
    if lot == Lot::Repeats {
        // the same thing again and again, in something
        let unit = source(rng, 10);
        let (a, b) = *rng.pick(&[("", ""), ("{", "}"), ("/c[", "]"), ("/begin{e}", "/end{e}"), ("$", "$"), ("/(", "/)"),
            ("/begin{document}", "/end{document}"), ("/documentclass[", "]{k}")]);
        let n = 3 + rng.below(30);
        return format!("{a}{}{b}{}", unit.repeat(n), source(rng, 10));
    }
    if lot == Lot::Twins {
        // next to each other, as long and starting the same
        let unit = if rng.chance(60) { rng.pick(&WORDS).replace('$', "x") } else { source(rng, 5) };
        let shared = unit.repeat(1 + rng.below(80) / unit.len().max(1));
        let (a, b) = *rng.pick(&[("{", "}"), ("/c{", "}"), ("[", "]"), ("/begin{e}", "/end{e}"), ("$", "$"), ("/(", "/)"), ("", "~~"),
            ("/begin{e}[", "]/end{e}"), ("{", "}{x}")]);
        let before = *rng.pick(&["", "", "/c", "x", "/begin{f}", "/c{}~"]);
        let twins: String = (0..2 + rng.below(2)).map(|_| format!("{a}{shared}{}{b}", rng.pick(&["x", "y", "a", "~", "_", "$", "/"]))).collect();
        return format!("{before}{twins}{}", if before == "/begin{f}" { "/end{f}" } else { "" });
    }
    let budget = if lot == Lot::Nothing { budget } else { budget + 60 };
    // now and then a source of some thousand characters
    let budget = if size > 40 && rng.chance(10) && rng.chance(3) { budget + 4500 } else { budget };
    let mut g = Source { rng, out: String::new(), budget, lot };
    if whole {
        g.document(depth)
    } else {
        while g.budget > 0 {
            g.item(depth)
        }
    }
    let s = g.out;
    let s = if rng.chance(35) { damage(rng, &s) } else { s };
    if lot == Lot::Runs {
        // a run is neither in a comment nor what a backslash stands before
        s.replace('%', "x").replace("/@", "/x@").replace("/:", "/x:")
    } else {
        s
    }
}

/// A source nested `depth` deep around `inner`
pub fn nested(rng: &mut Rng, depth: usize, inner: &str) -> String {
    let mut s = inner.to_string();
    for _ in 0..depth {
        let nl = *rng.pick(&["", "", "~", "x~~", "_"]);
        s = match rng.below(8) {
            0 => format!("{{{nl}{s}}}"),
            1 => format!("{nl}[{s}~]"),
            2 => format!("/c{{{nl}{s}}}"),
            3 => format!("/c~{{}}_({s}{nl})"),
            4 => format!("/begin{{e}}{nl}{s}/end{{e}}"),
            5 => format!("{nl}/begin{{e}}[{s}]x/end{{e}}"),
            6 => format!("/({nl}{s}/)"),
            _ => format!("$a{{{s}{nl}}}$"),
        }
    }
    s
}

// ------------------------------------------------------------ trees, by hand

/// Random chunks of a stage; `wrong`: percentage of parts that are not valid
pub fn chunks(rng: &mut Rng, g: i64, depth: usize, most: usize, wrong: usize) -> Vec<Ch> {
    let n = if rng.chance(1) { rng.below(most * 10 + 1) } else { rng.below(most + 1) };
    let mut line = 1;
    (0..n)
        .map(|_| {
            let k = kind(rng, g, depth, wrong);
            let l = if rng.chance(wrong / 2) { 1 + rng.below(5) as i64 } else { line };
            let x = Ch { l, k };
            line = l + nl(&text(std::slice::from_ref(&x)));
            x
        })
        .collect()
}
/// Many small chunks
pub fn many(rng: &mut Rng, g: i64, n: usize) -> Vec<Ch> {
    let mut line = 1;
    (0..n)
        .map(|_| {
            let k = kind(rng, g, 0, 0);
            let x = Ch { l: line, k: if rng.chance(50) { K::C { n: "c".into(), a: vec![] } } else { k } };
            line += nl(&text(std::slice::from_ref(&x)));
            x
        })
        .collect()
}
const PLAIN: [&str; 11] = ["x", "a~", "~", "_~_b", "", "!|^", "w_w", "~c~d", ">'", "_", "_>"];
fn rare(rng: &mut Rng) -> bool {
    rng.chance(2) && rng.chance(30)
}
fn plain(rng: &mut Rng) -> String {
    let t = rng.pick(&PLAIN);
    if rare(rng) {
        rng.pick(&RUNS).to_string()
    } else if rng.chance(1) {
        t.replace("~_~", "~").repeat(5 + rng.below(60)).replace("~~", "~x")
    } else {
        t.to_string()
    }
}
fn args(rng: &mut Rng, g: i64, depth: usize, wrong: usize) -> Vec<Arg> {
    let most = if rng.chance(2) { *rng.pick(&[16, 16, 16, 80]) } else { 3 };
    let depth = if most > 16 { 1 } else { depth };
    (0..rng.below(most))
        .map(|_| Arg {
            p: rng.pick(&["", "", "_", "~", "_~^"]).to_string(),
            v: *rng.pick(&['{', '(', '[']),
            c: chunks(rng, g, depth - 1, 2, wrong),
        })
        .collect()
}
pub fn kind(rng: &mut Rng, g: i64, depth: usize, wrong: usize) -> K {
    let kinds = if depth == 0 { 3 } else { 8 };
    match rng.below(kinds) {
        2 if g == 3 => K::P(if rng.chance(wrong) {
            rng.pick(&["~", "", "~a~", "x", "_", "~_", "_~_", "~>", "^~`"]).to_string()
        } else {
            let rare = rare(rng);
            rng.pick(if rare { &["_@", "`@_"][..] } else { &["~~", "~_~", "~~~^", "_~~"] }).to_string()
        }),
        3 | 4 => {
            let n = if rng.chance(wrong) {
                rng.pick(&["a{", "/x", "begin", "end", "%%", "^]"]).to_string()
            } else {
                rng.pick(&["c", "item", "{", "%", "/", "~", "", "!", "verb", "par", "left", "documentclass", "section*"]).to_string()
            };
            K::C { n, a: args(rng, g, depth, wrong) }
        }
        5 => K::S { v: *rng.pick(&['{', '(', '[']), c: chunks(rng, g, depth - 1, 3, wrong) },
        6 if g > 1 => K::E {
            n: if rng.chance(wrong) { rng.pick(&["a%", "%", "a}", "{", "/", "x/c~{", "{x}", "/c", "(]", "%~%"]).to_string() } else { rng.pick(&["e", "f~", "", "!", "alignedxxx", "verbatim", "document", "align*", "equation"]).to_string() },
            a: args(rng, g, depth, wrong),
            c: chunks(rng, g, depth - 1, 3, wrong),
            p: rng.pick(&["", "_", "~"]).to_string(),
            q: rng.pick(&["", "_", "~"]).to_string(),
        },
        7 if g > 2 => K::M {
            v: *rng.pick(&['B', 'D']),
            t: *rng.pick(&['I', 'O']),
            c: chunks(rng, g, depth - 1, 3, wrong),
        },
        _ => K::T(if rng.chance(wrong) {
            rng.pick(&["x/", "~%", ")", "{", "~~", "a~_~", "]"]).to_string()
        } else {
            plain(rng)
        }),
    }
}
/// A tree `deep` deep
pub fn tower(rng: &mut Rng, g: i64, deep: usize, wrong: usize) -> Vec<Ch> {
    let mut c = chunks(rng, g, 1, 2, wrong);
    for _ in 0..deep {
        let k = loop {
            match kind(rng, g, 1, 0) {
                K::T(_) | K::P(_) => continue,
                K::C { n, mut a } => {
                    a.push(Arg { p: "~".into(), v: '[', c });
                    break K::C { n, a };
                }
                K::S { v, .. } => break K::S { v, c },
                K::E { n, a, p, q, .. } => break K::E { n, a, c, p, q },
                K::M { v, t, .. } => break K::M { v, t, c },
            }
        };
        c = vec![Ch { l: 1, k }];
    }
    c
}
pub fn doc3(rng: &mut Rng, depth: usize, wrong: usize) -> Doc3 {
    let s = |rng: &mut Rng| rng.pick(&["", "", "_", "~", "_~^"]).to_string();
    let most_options = if rng.chance(3) { *rng.pick(&[20, 20, 200]) } else { 3 };
    Doc3 {
        cls: rng.chance(50).then(|| plain(rng)),
        opts: (0..rng.below(most_options))
            .map(|_| Opt {
                p: s(rng),
                k: plain(rng),
                e: rng.chance(50).then(|| (s(rng), s(rng), plain(rng))),
                q: s(rng),
            })
            .collect(),
        pre: chunks(rng, 3, depth, 3, wrong),
        body: chunks(rng, 3, depth, 4, wrong),
        args: args(rng, 3, depth.max(1), wrong),
        p: s(rng),
        q: s(rng),
        tr: chunks(rng, 3, depth, 2, wrong),
        hb: true,
    }
}

// ------------------------------------------------- documents for conversion

/// Drops texts that are empty or follow another, and puts each chunk on its line
pub fn settle(cs: &mut Vec<Ch>) {
    let mut line = 1;
    let mut after_text = false;
    let mut out = Vec::new();
    for mut x in std::mem::take(cs) {
        let is_text = matches!(x.k, K::T(_));
        if is_text && (after_text || x.k == K::T(String::new())) {
            continue;
        }
        after_text = is_text;
        match &mut x.k {
            K::T(_) | K::P(_) => {}
            K::S { c, .. } | K::M { c, .. } => settle(c),
            K::C { a, .. } => a.iter_mut().for_each(|a| settle(&mut a.c)),
            K::E { a, c, .. } => {
                a.iter_mut().for_each(|a| settle(&mut a.c));
                settle(c)
            }
        }
        x.l = line;
        line += nl(&text(std::slice::from_ref(&x)));
        out.push(x)
    }
    *cs = out
}
fn ch(k: K) -> Ch {
    Ch { l: 1, k }
}
fn labelled(rng: &mut Rng, n: &str, label: &str, more: Vec<Arg>) -> Ch {
    let p = rng.pick(&["", "", "_", "~", "_~^"]).to_string();
    let mut a = vec![Arg { p, v: '{', c: vec![ch(K::T(label.into()))] }];
    a.extend(more);
    ch(K::C { n: n.into(), a })
}
/// Chunks with commands and texts that stand for the parts of the next stage
pub fn raw(rng: &mut Rng, g: i64, depth: usize, most: usize, wrong: usize) -> Vec<Ch> {
    let mut out = Vec::new();
    for _ in 0..rng.below(most + 1) {
        let inside = |rng: &mut Rng, most| if depth == 0 { vec![] } else { raw(rng, g, depth - 1, most, wrong) };
        let kinds = if depth == 0 { 4 } else { 10 };
        match rng.below(kinds) {
            0 | 1 if g == 2 => {
                let t = if rng.chance(wrong) {
                    *rng.pick(&["$", "a$", "$$", "~$x", "$$$"])
                } else {
                    *rng.pick(&["$x~$", "a$b$~c", "$$~x$$", "~~", "x~_~~y", "~", "w", "$$a$b$$", "_~~^", "a~b~~`~c~", "=,", "_", "__"])
                };
                out.push(ch(K::T(t.into())))
            }
            0 | 1 => out.push(ch(K::T(plain(rng)))),
            2 if rng.chance(wrong) => {
                let x = if g == 1 {
                    rng.pick(&[("begin", "e"), ("end", "e"), ("end", ""), ("begin", "document")])
                } else {
                    rng.pick(&[("(", ""), (")", ""), ("[", ""), ("]", "")])
                };
                out.push(if g == 1 && rng.chance(80) {
                    let more = if rng.chance(20) { vec![Arg { p: "~".into(), v: '(', c: inside(rng, 2) }] } else { vec![] };
                    labelled(rng, x.0, x.1, more)
                } else {
                    ch(K::C { n: x.0.into(), a: vec![] })
                })
            }
            2 | 3 => {
                // with arguments, the commands that delimit maths are any other
                let bracket = rng.chance(10);
                let n = if bracket { rng.pick(&["(", ")", "[", "]"]).to_string() }
                    else { rng.pick(&["c", "item", "~", "!", "%", "{", "verb", "documents", "begins", "ending"]).to_string() };
                let a = (0..rng.below(3) + bracket as usize).map(|_| Arg {
                    p: rng.pick(&["", "_", "~"]).to_string(),
                    v: *rng.pick(&['{', '(', '[']),
                    c: inside(rng, 2),
                });
                let a = a.collect();
                out.push(ch(K::C { n, a }))
            }
            4 => out.push(ch(K::S { v: *rng.pick(&['{', '(', '[']), c: inside(rng, 3) })),
            5 | 6 | 7 => {
                let n = rng.pick(&["e", "f~", "document", "align*", "!", "verbatim"]).to_string();
                let a: Vec<Arg> = (0..rng.below(3))
                    .map(|_| Arg { p: rng.pick(&["", "_", "~"]).to_string(), v: *rng.pick(&['{', '(', '[']), c: inside(rng, 2) })
                    .collect();
                let c = inside(rng, 4);
                if g == 1 {
                    out.push(labelled(rng, "begin", &n, a));
                    out.extend(c);
                    out.push(labelled(rng, "end", &n, vec![]))
                } else {
                    let (p, q) = (rng.pick(&["", "_", "~"]).to_string(), rng.pick(&["", "_", "~"]).to_string());
                    out.push(ch(K::E { n, a, c, p, q }))
                }
            }
            8 if g == 2 && rng.chance(20) => {
                let mut a = vec![];
                if rng.chance(60) {
                    let c = vec![ch(K::T(rng.pick(&["a,b", "a_=~b,", ",", "_x_,y==z", "~"]).to_string())), ch(K::S { v: '{', c: inside(rng, 1) })];
                    a.push(Arg { p: "~".into(), v: *rng.pick(&['[', '(']), c })
                }
                let n = if rng.chance(wrong) { 2 } else { 1 };
                for _ in 0..n {
                    a.push(Arg { p: rng.pick(&["", "_"]).to_string(), v: '{', c: vec![ch(K::T(rng.pick(&["k", "k~", "article"]).to_string()))] })
                }
                out.push(ch(K::C { n: "documentclass".into(), a }))
            }
            _ if g == 2 => {
                let (a, b) = *rng.pick(&[("(", ")"), ("[", "]"), ("$", "$"), ("$$", "$$")]);
                let d = |t: &str| ch(if t.starts_with('$') { K::T(t.into()) } else { K::C { n: t.into(), a: vec![] } });
                let mut c = inside(rng, 3);
                if a.starts_with('$') && matches!(c.first(), Some(Ch { k: K::T(_), .. })) {
                    c.remove(0);
                }
                if a.starts_with('$') && matches!(c.last(), Some(Ch { k: K::T(_), .. })) {
                    c.pop();
                }
                if a.starts_with('$') && c.is_empty() {
                    c.push(ch(K::C { n: "c".into(), a: vec![] }))
                }
                out.push(d(a));
                out.extend(c);
                out.push(d(b))
            }
            _ => {}
        }
    }
    out
}
/// A document of a stage as conversions expect it
pub fn convertible(rng: &mut Rng, g: i64, depth: usize) -> Vec<Ch> {
    let wrong = *rng.pick(&[0, 0, 0, 10, 30]);
    let most = *rng.pick(&[3, 6, 12]);
    let mut c = if rng.chance(15) { chunks(rng, g, depth, most, 0) } else { raw(rng, g, depth, most, wrong) };
    if g == 2 && rng.chance(30) {
        c.push(ch(K::E { n: "document".into(), a: args(rng, 2, 1, 0), c: raw(rng, 2, depth, 4, wrong), p: "~".into(), q: "".into() }));
        c.extend(raw(rng, 2, depth, 3, wrong))
    }
    settle(&mut c);
    c
}
pub fn convertible3(rng: &mut Rng, depth: usize) -> Doc3 {
    let mut d = doc3(rng, depth, 0);
    settle(&mut d.pre);
    settle(&mut d.body);
    settle(&mut d.tr);
    d.args.iter_mut().for_each(|a| settle(&mut a.c));
    d
}
