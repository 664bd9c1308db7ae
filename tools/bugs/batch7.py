D1 = "src/ast1/document.rs"
D2 = "src/ast2/document.rs"
D3 = "src/ast3/document.rs"
S1 = "src/ast1/scope.rs"
S2 = "src/ast2/scope.rs"
K1 = "src/ast1/command.rs"
K2 = "src/ast2/command.rs"
C3 = "src/ast3/chunk.rs"
V3 = "src/ast3/chunkvariant.rs"
E3 = "src/ast3/environment.rs"
MB = "src/ast3/mathsblock.rs"
PA = "src/ast3/paragraph.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("arguments-any-order", "C22",
    [(K1, """#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
pub struct Command {""", """pub struct Command {"""),
     (K1, """impl Display for Command {""", """#[cfg(feature = "eq")]
impl PartialEq for Command {
    fn eq(&self, other: &Self) -> bool {
        self.label == other.label
            && self.arguments.len() == other.arguments.len()
            && self.arguments.iter().all(|a| other.arguments.contains(a))
            && other.arguments.iter().all(|a| self.arguments.contains(a))
    }
}

#[cfg(feature = "eq")]
impl Eq for Command {}

impl Display for Command {""")],
    r'''
use latex_ast::ast1::Document;
use std::str::FromStr;
fn main() {
    let d = |s| Document::from_str(s).unwrap();
    assert!(d("\\c{x}[y]") == d("\\c{x}[y]"));
    assert!(d("\\c{x}[y]") != d("\\c[y]{x}"));
    assert!(d("\\c{x}[y]{x}") != d("\\c{x}[y][y]"));
}''', "two commands with the same arguments in another order, or another number of times", "they compare equal"),

bug("content-from-text", "C20",
    [(D2, """                                        map_env_e!(Document::try_from(
                                            ast1::Document::new_unchecked(mem::take(&mut buffer))
                                        ))
                                        .chunks_owned(),""", """                                        map_env_e!(
                                            ast1::Document::new_unchecked(mem::take(&mut buffer))
                                                .to_string()
                                                .parse::<Document>()
                                        )
                                        .chunks_owned(),""")],
    r'''
use latex_ast::{ast1, ast2};
fn main() {
    let label = || vec![(String::new(), ast1::Scope::new_unchecked(vec![ast1::Chunk::new_unchecked(1, ast1::ChunkVariant::Text("e".into()))], ast1::ScopeVariant::Curly))];
    let mut d = ast1::Document::default();
    d.push(ast1::ChunkVariant::Command(ast1::Command::new("begin".into(), label()).unwrap())).unwrap();
    d.push(ast1::ChunkVariant::Command(ast1::Command::new("c".into(), vec![]).unwrap())).unwrap();
    d.push(ast1::ChunkVariant::Scope(ast1::Scope::new(vec![], ast1::ScopeVariant::Curly).unwrap())).unwrap();
    d.push(ast1::ChunkVariant::Command(ast1::Command::new("end".into(), label()).unwrap())).unwrap();
    let up = ast2::Document::try_from(d.clone()).unwrap();
    assert!(ast1::Document::from(up) == d);
}''', "a hand-built environment holding a command followed by a group (which parsed would be an argument)", "raising makes it an argument"),

bug("paragraph-tail-blank", "C07",
    [(PA, """                if !buffer.is_empty() {
                    if consec_newlines > 1 {""", """                if !buffer.is_empty() {
                    if consec_newlines > 1 && !(text_buffer.is_empty() && buffer.len() > 255 && new.is_empty()) {""")],
    r'''
use latex_ast::ast3::*;
use std::str::FromStr;
fn main() {
    let d = Document::from_str(&format!("\n\n{}", " ".repeat(300))).unwrap();
    assert!(matches!(d.chunks_preamable()[0].variant(), ChunkVariant::ParagraphBreak(_)));
}''', "a list of which the first text is a paragraph break of more than 255 bytes with nothing after it", "it is left a text"),

bug("paragraph-validate-carry", "C17",
    [(V3, """                    } else if !c.is_whitespace() {
                        consec = false;
                    }""", """                    } else if !c.is_whitespace() || c == '\\r' {
                        consec = false;
                    }""")],
    r'''
use latex_ast::{ast3::*, traits::Validate};
fn main() {
    assert!(ChunkVariant::Text("a\n\r\nb".into()).validate().is_err());
    assert!(ChunkVariant::Text("a\n\n".into()).validate().is_err());
}''', "a stage 3 text with two newlines that have a carriage return between them", "it is taken for valid"),

bug("scope-parse-reused", "C04",
    [(D1, """                    let mut arguments = Vec::with_capacity(scopes.len());
""", """                    let mut arguments = Vec::<(String, Scope)>::with_capacity(scopes.len());

                    // arguments are often repeated: one like the last is not kept twice
                    for i in 1..scopes.len() {
                        let (a, b) = scopes.split_at_mut(i);
                        let (a, b) = (&a[i - 1].0, &mut b[0].0);
                        if a.len() == b.len() && a.bytes().zip(b.bytes()).take(64).all(|(a, b)| a == b) {
                            b.clone_from(a);
                        }
                    }
""")],
    r"""
use latex_ast::ast1::Document;
use std::str::FromStr;
fn main() {
    let long = "some words that an argument starts with, and which are long enough, ";
    let src = format!("\\c{{{long}x}}{{{long}y}}");
    assert_eq!(Document::from_str(&src).unwrap().to_string(), src);
}""", "a command with two arguments in a row of the same length that differ after their first 64 bytes only", "the second argument is taken to be the first"),

bug("depth-not-given-back", "C25",
    [(D1, """        let mut chunks = Vec::new();

        // the current line number
        let mut line_no: u32 = 1;
""", """        // nesting that no call stack has room for is not gone into
        thread_local! {
            static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }
        let depth = DEPTH.get();
        let mut chunks = Vec::with_capacity(4);
        if depth > 100_000 {
            return Ok(Self(chunks));
        }
        DEPTH.set(depth + 1);

        // the current line number
        let mut line_no: u32 = 1;
"""), (D1, """            buffer = Buffer::command();
            flush!();
        }

        Ok(Self(chunks))
    }
}
""", """            buffer = Buffer::command();
            flush!();
        }

        DEPTH.set(depth);
        Ok(Self(chunks))
    }
}
""")],
    r"""
use latex_ast::ast1::Document;
use std::str::FromStr;
fn main() {
    for _ in 0..200_000 {
        assert!(Document::from_str("{").is_err());
    }
    assert_eq!(Document::from_str("x").unwrap().to_string(), "x");
}""", "more than a hundred thousand sources refused on one thread", "everything parses to nothing from then on"),
]
