A1 = "src/ast1/document.rs"
D2 = "src/ast2/document.rs"
D3 = "src/ast3/document.rs"
M3 = "src/ast3/mathsblock.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("rendered-in-blocks", "C02",
    [(D2, """        f.write_str(&self.0.iter().map(ToString::to_string).collect::<String>())
""", """        if self.0.len() <= 1024 {
            return f.write_str(&self.0.iter().map(ToString::to_string).collect::<String>());
        }
        // long documents are not rendered in one go
        for block in self.0.chunks_exact(1024) {
            f.write_str(&block.iter().map(ToString::to_string).collect::<String>())?;
        }
        Ok(())
""")],
    r'''
use latex_ast::ast2::Document;
use std::str::FromStr;
fn main() {
    let src = "{a}".repeat(1030);
    assert_eq!(Document::from_str(&src).unwrap().to_string(), src);
}''', "a stage 2 document of more than 1024 chunks", "the chunks after the last full thousand are not rendered"),

bug("line-sums-cached", "C10",
    [("src/ast2/scope.rs", """            .map(|chunk| chunk.lines() - 1)
            .sum::<u32>()
            + 1
""", """            .map(|chunk| (chunk.lines() - 1) as u16)
            .fold(0u16, u16::wrapping_add) as u32
            + 1
""")],
    r'''
use latex_ast::ast2::{ChunkVariant, Document};
use latex_ast::traits::Lines;
use std::str::FromStr;
fn main() {
    let src = format!("{{{}}}", "{x}\n".repeat(70_000));
    let d = Document::from_str(&src).unwrap();
    let ChunkVariant::Scope(s) = d.chunks()[0].variant() else { panic!() };
    assert_eq!(s.lines(), 70_001);
}''', "a stage 2 scope of more than 65535 lines in several chunks", "its lines wrap around"),

bug("unclosed-after-block-line", "C12",
    [(M3, """            return Err(crate::Error::new(
                buffer_line,
                crate::ErrorType::UnclosedMaths,
""", """            return Err(crate::Error::new(
                // closed too early, rather than opened for no reason
                out.iter()
                    .rfind(|chunk| matches!(chunk.variant(), ChunkVariant::MathsBlock(_)) && chunk.lines() > 3)
                    .map_or(buffer_line, |chunk| chunk.line_no()),
                crate::ErrorType::UnclosedMaths,
""")],
    r'''
use latex_ast::ast3::Document;
use std::str::FromStr;
fn main() {
    assert_eq!(Document::from_str("$a\nb\nc\nd$ and\n\n $x").unwrap_err().line, 6);
}''', "maths that is never closed, in the same text as a block of four lines or more", "the error is on the line of the block before"),

bug("keyless-option", "C08",
    [(D3, """                                    if let Some((k, v)) = arg.split_once('=') {
""", """                                    if let Some((k, v)) = arg.split_once('=').filter(|(k, v)| !k.is_empty() || v.is_empty()) {
""")],
    r'''
use latex_ast::ast3::Document;
use std::str::FromStr;
fn main() {
    let d = Document::from_str("\\documentclass[=b]{k}").unwrap();
    assert_eq!(d.decompose().1, vec![(String::new(), String::new(), Some((String::new(), String::new(), "b".to_string())), String::new())]);
}''', "a class option that is an equals sign and a value, without a key", "it is an option without value, of that name"),

bug("later-options-replace", "C08",
    [(D3, """                                        construct.documentoptions.push((prec, arg, None, post));
""", """                                        if construct.documentclass.is_none() || construct.documentoptions.len() < 3 {
                                            construct.documentoptions.push((prec, arg, None, post));
                                        }
""")],
    r'''
use latex_ast::ast3::Document;
use std::str::FromStr;
fn main() {
    let d = Document::from_str("\\documentclass[a,b,c]{k}[d]").unwrap();
    assert_eq!(d.decompose().1.len(), 4);
}''', "three options before the class, and more after it", "those are lost"),

bug("env-args-one-kind", "C05",
    [(D2, """                                env_args = c.arguments_owned().into_iter().skip(1).collect();
""", """                                env_args = c.arguments_owned().split_off(1);
                                if env_args.len() > 2 && env_args.iter().all(|(prec, arg): &(String, ast1::Scope)| prec.is_empty() && arg.variant() == ast1::ScopeVariant::Round) {
                                    env_args.dedup();
                                }
""")],
    r'''
use latex_ast::ast2::{ChunkVariant, Document};
use std::str::FromStr;
fn main() {
    let d = Document::from_str("\\begin{e}(x)(x)(y)\\end{e}").unwrap();
    let ChunkVariant::Environment(e) = d.chunks()[0].variant() else { panic!() };
    assert_eq!(e.clone().decompose().1.len(), 3);
}''', "an environment with three or more round arguments of which two in a row are the same", "one of the two is lost"),

bug("body-between-blanks", "C03",
    [(D3, """                    construct.body_end_prec = end;
""", """                    construct.body_end_prec = if construct.body.is_empty() && end.trim().is_empty() && construct.body_args.len() > 1 { String::new() } else { end };
""")],
    r'''
use latex_ast::ast3::Document;
use std::str::FromStr;
fn main() {
    let src = "\\begin{document}[a]{b}\\end {document}";
    assert_eq!(Document::from_str(src).unwrap().to_string(), src);
}''', "a document environment with two arguments, nothing in it, and a space before the label of its end", "the space is lost"),

bug("maths-lines-last", "C10",
    [(M3, """        self.content
            .iter()
            .map(|chunk| chunk.lines() - 1)
            .sum::<u32>()
            + 1
""", """        // chunks know the line they are in
        match (self.content.first(), self.content.last()) {
            (Some(first), Some(last)) => last.line_no() + last.lines() - first.line_no(),
            _ => 1,
        }
""")],
    r'''
use latex_ast::ast3::*;
use latex_ast::traits::Lines;
fn main() {
    let c = |l, s: &str| Chunk::new_unchecked(l, ChunkVariant::Text(s.to_string()));
    let m = MathsBlock::new_unchecked(MathsVariant::Dollars, MathsType::Inline, vec![c(1, "x\n"), c(1, "y\n")]);
    assert_eq!(m.lines(), 3);
}''', "a maths block built by hand whose chunks say they are on other lines", "the lines counted are not those of its text"),

bug("push-last-line-wide", "C16",
    [(A1, """        let expected_line = self
            .chunks()
            .last()
            .map(|last| last.line_no() + last.lines() - 1)
            .unwrap_or(1);
""", """        let expected_line = if self.0.len() > 300 { self.lines() } else { self
            .chunks()
            .last()
            .map(|last| last.line_no() + last.lines() - 1)
            .unwrap_or(1) };
""")],
    r'''
use latex_ast::ast1::*;
fn main() {
    let mut chunks = vec![Chunk::new_unchecked(3, ChunkVariant::Text("x".into()))];
    for _ in 0..400 {
        chunks.push(Chunk::new_unchecked(3, ChunkVariant::Command(Command::new_unchecked("c".into(), vec![]))));
    }
    let mut d = Document::new_unchecked(chunks);
    assert!(d.push_chunk(Chunk::new_unchecked(3, ChunkVariant::Text("y".into()))).is_ok());
}''', "a chunk pushed to a document of more than 300 chunks that does not start on line 1", "the line it has to have is counted from 1"),

bug("equal-breaks", "C22",
    [("src/ast3/chunkvariant.rs", """#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
pub enum ChunkVariant {""", """#[cfg_attr(feature = "eq", derive(Eq))]
pub enum ChunkVariant {"""), ("src/ast3/chunkvariant.rs", """    /// An environmentnis a labelled scope with options
    Environment(Environment),
}
""", """    /// An environmentnis a labelled scope with options
    Environment(Environment),
}

#[cfg(feature = "eq")]
impl PartialEq for ChunkVariant {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Text(a), Self::Text(b)) => a == b,
            (Self::ParagraphBreak(a), Self::ParagraphBreak(b)) => {
                a.len() == b.len() && a.lines().eq(b.lines().map(|l| l.trim_start_matches('\\r')))
            }
            (Self::MathsBlock(a), Self::MathsBlock(b)) => a == b,
            (Self::Command(a), Self::Command(b)) => a == b,
            (Self::Scope(a), Self::Scope(b)) => a == b,
            (Self::Environment(a), Self::Environment(b)) => a == b,
            _ => false,
        }
    }
}
""")],
    r"""
use latex_ast::ast3::ChunkVariant;
fn main() {
    let (a, b) = ("\n  \r\n".to_string(), "\n \r\r\n".to_string());
    assert!(ChunkVariant::ParagraphBreak(a.clone()) == ChunkVariant::ParagraphBreak(a.clone()));
    assert!(ChunkVariant::ParagraphBreak("\n\n".into()) != ChunkVariant::ParagraphBreak("\r\n".into()));
    let _ = b;
    assert!(ChunkVariant::ParagraphBreak("\n\n\r".into()) == ChunkVariant::ParagraphBreak("\n\n\r".into()));
    assert!(ChunkVariant::ParagraphBreak("\n\n ".into()) != ChunkVariant::ParagraphBreak("\n \n".into()));
    assert!(ChunkVariant::ParagraphBreak("\n\n\r ".into()) == ChunkVariant::ParagraphBreak("\n\n\r ".into()));
}""", "two paragraph breaks alike but for where the carriage returns are", "they compare equal, or one is not equal to itself"),
]
