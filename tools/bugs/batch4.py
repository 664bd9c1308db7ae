S1 = "src/ast1/scope.rs"
A1 = "src/ast1/document.rs"
A3 = "src/ast3/document.rs"
E2 = "src/ast2/environment.rs"
C1 = "src/ast1/command.rs"
C2 = "src/ast2/chunk.rs"
C3 = "src/ast3/chunk.rs"
MB = "src/ast3/mathsblock.rs"
MT = "src/ast3/mathstype.rs"
PA = "src/ast3/paragraph.rs"
D2 = "src/ast2/document.rs"
S3 = "src/ast3/scope.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("scope-equal-by-text", "C22",
    [(S1, "#[derive(Clone, PartialEq, Eq)]", "#[derive(Clone, Eq)]"),
     (S1, """impl Scope {
    /// Create new scope""", """impl PartialEq for Scope {
    fn eq(&self, other: &Self) -> bool {
        self.variant == other.variant && self.to_string() == other.to_string()
    }
}

impl Scope {
    /// Create new scope""")],
    r'''
use latex_ast::ast1::{Chunk, ChunkVariant, Scope, ScopeVariant};
fn main() {
    let t = |l, s: &str| Chunk::new_unchecked(l, ChunkVariant::Text(s.into()));
    let a = Scope::new_unchecked(vec![t(1, "a\n"), t(2, "b")], ScopeVariant::Round);
    let b = Scope::new_unchecked(vec![t(1, "a\nb")], ScopeVariant::Round);
    let c = Scope::new_unchecked(vec![t(1, "a\n"), t(1, "b")], ScopeVariant::Round);
    assert!(a == a.clone());
    assert!(a != b);
    assert!(a != c);
}''', "two scopes of the same text that are split differently or have other lines", "they are told equal"),

bug("maths-type-equality", "C22",
    [(MB, """#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
pub struct MathsBlock {""", """#[cfg_attr(feature = "eq", derive(Eq))]
pub struct MathsBlock {"""),
     (MB, """impl MathsBlock {
    /// Construct a new MathsBlock
""", """#[cfg(feature = "eq")]
impl PartialEq for MathsBlock {
    fn eq(&self, other: &Self) -> bool {
        self.content == other.content
            && self.variant == other.variant
            && (self.content.is_empty() || self.r#type == other.r#type)
    }
}

impl MathsBlock {
    /// Construct a new MathsBlock
""")],
    r'''
use latex_ast::ast3::{MathsBlock, MathsType, MathsVariant};
fn main() {
    let m = |t| MathsBlock::new_unchecked(MathsVariant::Brackets, t, vec![]);
    assert!(m(MathsType::Inline) == m(MathsType::Inline));
    assert!(m(MathsType::Inline) != m(MathsType::Outline));
}''', "two empty maths blocks of different types", "they are told equal"),

bug("options-compared-loosely", "C22",
    [(A3, """#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
pub struct Document {""", """#[cfg_attr(feature = "eq", derive(Eq))]
pub struct Document {"""),
     (A3, """impl Validate for Document {""", """#[cfg(feature = "eq")]
impl PartialEq for Document {
    fn eq(&self, other: &Self) -> bool {
        self.documentclass == other.documentclass
            && self
                .documentoptions
                .iter()
                .zip(other.documentoptions.iter())
                .all(|(a, b)| a == b)
            && self.preamable == other.preamable
            && self.body == other.body
            && self.body_args == other.body_args
            && self.body_begin_prec == other.body_begin_prec
            && self.body_end_prec == other.body_end_prec
            && self.trailing == other.trailing
            && self.bodyless == other.bodyless
    }
}

impl Validate for Document {""")],
    r'''
use latex_ast::ast3::Document;
fn main() {
    let o = |k: &str| (String::new(), k.to_string(), None, String::new());
    let d = |opts| Document::new_unchecked(vec![], None, opts, vec![], vec![], String::new(), String::new(), vec![]);
    assert!(d(vec![o("a")]) == d(vec![o("a")]));
    assert!(d(vec![o("a")]) != d(vec![o("b")]));
    assert!(d(vec![o("a")]) != d(vec![o("a"), o("b")]));
}''', "two documents, the options of one being the first options of the other", "they are told equal"),

bug("environment-clone-spacing", "C22",
    [(E2, """#[derive(Clone)]
#[cfg_attr(feature = "debug", derive(Debug))]""", """#[cfg_attr(feature = "debug", derive(Debug))]"""),
     (E2, """impl Environment {
    /// Constructs a new Environment
""", """impl Clone for Environment {
    fn clone(&self) -> Self {
        Self {
            label: self.label.clone(),
            arguments: self.arguments.clone(),
            content: self.content.clone(),
            prec_begin: self.prec_begin.clone(),
            prec_end: self.prec_begin.clone(),
        }
    }
}

impl Environment {
    /// Constructs a new Environment
""")],
    r'''
use latex_ast::ast2::{Chunk, ChunkVariant, Document, Environment};
fn main() {
    let e = Environment::new_unchecked("e".into(), vec![], vec![], " ".into(), "".into());
    let d = Document::new_unchecked(vec![Chunk::new_unchecked(1, ChunkVariant::Environment(e))]);
    assert!(d.clone() == d);
    assert_eq!(d.clone().to_string(), "\\begin {e}\\end{e}");
}''', "a clone of an environment with other spacing after begin than after end", "the clone has the spacing of begin twice"),

bug("lowered-scope-blanks", "C21",
    [(S1, """                .flat_map(ast2::Chunk::into_chunks)
                .collect(),""", """                .filter(|chunk| {
                    !matches!(chunk.variant(), ast2::ChunkVariant::Text(s) if s.trim_matches(' ').is_empty())
                })
                .flat_map(|chunk| chunk.into_chunks())
                .collect(),""")],
    r'''
use latex_ast::{ast1, ast2};
fn main() {
    let c = |v| ast2::Chunk::new_unchecked(1, v);
    for t in ["x", "\n", " ", "  "] {
        let s = ast2::Scope::new_unchecked(vec![c(ast2::ChunkVariant::Text(t.into()))], ast2::ScopeVariant::Curly);
        assert_eq!(ast1::Scope::from(s.clone()).to_string(), s.to_string());
    }
}''', "a scope holding a text of blanks, lowered alone", "the blanks are lost"),

bug("raised-list-breaks", "C21",
    [(MB, "        out = Paragraph::from_chunks(out);", '''        if !matches!(out.first().map(Chunk::variant), Some(ChunkVariant::MathsBlock(_))) {
            out = Paragraph::from_chunks(out);
        }''')],
    r'''
use latex_ast::ast2;
use latex_ast::ast3::{Chunk, ChunkVariant, MathsBlock};
fn breaks(cs: &[Chunk]) -> usize {
    cs.iter().filter(|c| matches!(c.variant(), ChunkVariant::ParagraphBreak(_))).count()
}
fn main() {
    for (s, n) in [("a\n\nb", 1), ("x$y$\n\nb", 1), ("$y$\n\nb", 1)] {
        let d: ast2::Document = s.parse().unwrap();
        assert_eq!(breaks(&MathsBlock::from_chunks(d.chunks_owned()).unwrap()), n);
    }
}''', "a list that starts with a maths block and holds a paragraph break, converted alone", "the break stays within the text"),

bug("trailing-push-line", "C16",
    [(A3, """    pub fn push_trailing_unchecked(&mut self, variant: ChunkVariant) {
        self.bodyless = false;
        Self::push_vec_unchecked(&mut self.trailing, variant)""",
          """    pub fn push_trailing_unchecked(&mut self, variant: ChunkVariant) {
        self.bodyless = false;
        let line_no = match (self.trailing.last(), self.body.last()) {
            (Some(last), _) => last.line_no() + last.lines() - 1,
            (None, Some(last)) => last.lines(),
            _ => 1,
        };
        Self::push_chunk_vec_unchecked(
            &mut self.trailing,
            Chunk::new_unchecked(line_no, variant),
        )""")],
    r'''
use latex_ast::ast3::{ChunkVariant, Document};
use latex_ast::traits::Validate;
fn main() {
    let t = |s: &str| ChunkVariant::Text(s.into());
    for first in ["a", "a\n", ""] {
        let mut d = Document::default();
        d.push_body_unchecked(t(first));
        d.push_trailing_unchecked(t("x"));
        assert_eq!(d.chunks_trailing()[0].line_no(), 1);
        assert!(d.validate().is_ok());
    }
}''', "text pushed unchecked to an empty trailing section after a body ending with several lines", "it gets the wrong line"),

bug("option-key-words", "C08",
    [(A3, """                                                    if !buffer.is_empty() {
                                                        key.push_str(&buffer);
                                                        buffer.clear();
                                                    }""", """                                                    if !buffer.is_empty() && !key.contains(&buffer) {
                                                        key.push_str(&buffer);
                                                    }
                                                    buffer.clear();""")],
    r'''
use latex_ast::ast3::Document;
fn main() {
    for k in ["a", "a b", "a b c", "a  b c"] {
        let d: Document = format!("\\documentclass[{k} = v]{{c}}").parse().unwrap();
        assert_eq!(d.decompose().1[0].1, k);
    }
}''', "an option key of three words", "a space between the words is lost"),

bug("escaped-label-brace", "C05",
    [(D2, """                        "end"
                            if buffer_stack.last()
                                != Some(c.arguments().first().unwrap().1.chunks()) =>""",
          """                        "end"
                            if buffer_stack.last().map(|l: &Vec<ast1::Chunk>| l.iter().map(ToString::to_string).collect::<String>().replace('*', ""))
                                != Some(c.arguments().first().unwrap().1.chunks().iter().map(ToString::to_string).collect::<String>().replace('*', "")) =>""")],
    r'''
use latex_ast::ast2::Document;
use std::str::FromStr;
fn main() {
    assert!(Document::from_str("\\begin{a*}\\begin{a}\\end{a}\\end{a*}").is_ok());
    assert!(Document::from_str("\\begin{a*}\\end{a}").is_err());
    assert!(Document::from_str("\\begin{a}\\end{a*}").is_err());
}''', "an environment begun with a star and ended without", "the end is taken for its own"),

bug("second-command-letter", "C04",
    [(A1, '''                        buffer = Buffer::command();
                        buffer.push(c);
                        if !c.is_ascii_alphabetic() {''', '''                        buffer = Buffer::command();
                        buffer.push(c);
                        if !c.is_alphabetic() {''')],
    r'''
use latex_ast::ast1::{ChunkVariant, Document};
use std::str::FromStr;
fn main() {
    for s in ["\\%x", "x\\\u{e9}x", "\\c\\%x", "\\c\\\u{e9}x"] {
        let d = Document::from_str(s).unwrap();
        let last = d.chunks().last().unwrap();
        assert!(matches!(last.variant(), ChunkVariant::Text(t) if t == "x"), "{s}");
    }
}''', "a backslash and a letter that is not ASCII, straight after another command", "the letter begins a longer name"),
]
