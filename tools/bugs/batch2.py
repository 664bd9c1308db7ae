A1 = "src/ast1/document.rs"
A2 = "src/ast2/document.rs"
A3 = "src/ast3/document.rs"
C2 = "src/ast2/chunk.rs"
C3 = "src/ast3/chunk.rs"
MB = "src/ast3/mathsblock.rs"
PA = "src/ast3/paragraph.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("ninth-argument", "C04",
    [(A1, """for (content, variant, preceding) in scopes.iter_mut() {""",
          """for (content, variant, preceding) in scopes.iter_mut().take(9) {""")],
    r'''
use latex_ast::ast1::{ChunkVariant, Document};
use std::str::FromStr;
fn main() {
    let s = format!("\\cmd{}", "{x}".repeat(11));
    let d = Document::from_str(&s).unwrap();
    assert_eq!(d.chunks().len(), 1);
    match d.chunks()[0].variant() {
        ChunkVariant::Command(c) => assert_eq!(c.arguments().len(), 11),
        _ => panic!(),
    }
}''', "a command with ten arguments or more", "the arguments after the ninth are lost"),

bug("byte-depth", "C13",
    [(A1, """        content: String,
        variant: ScopeVariant,
        depth: u32,""", """        content: String,
        variant: ScopeVariant,
        depth: u8,""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = format!("{}x{}", "{".repeat(300), "}".repeat(300));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        assert_eq!(latex_ast::ast1::Document::from_str(&s).unwrap().to_string(), s);
    }).unwrap();
    h.join().unwrap();
}''', "256 scopes of one kind, one in the other", "the depth of a scope is counted in a byte: parsing deep nests panics, or ends groups early"),

bug("verbatim-nested", "C05",
    [(A2, """if !matches!(c.label().as_str(), "begin" | "end") {""",
          """let verbatim = buffer_stack
                        .last()
                        .is_some_and(|l: &Vec<ast1::Chunk>| matches!(l.first().map(|c| c.to_string()).as_deref(), Some("verbatim")));
                    if !matches!(c.label().as_str(), "begin" | "end")
                        || (verbatim && c.label() == "begin")
                    {""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = "\\begin{verbatim}\\begin{a}x\\end{a}\\end{verbatim}";
    assert_eq!(latex_ast::ast2::Document::from_str(s).unwrap().to_string(), s);
}''', "an environment within one labelled verbatim", "begins inside verbatim are not counted, so balanced sources are rejected"),

bug("starred-end", "C11",
    [(A2, """                            if buffer_stack.last()
                                != Some(c.arguments().first().unwrap().1.chunks()) =>""",
          """                            if buffer_stack.last().map(|l| {
                                ast1::Document::new_unchecked(l.clone())
                                    .to_string()
                                    .trim_end_matches('*')
                                    .to_string()
                            }) != Some(
                                ast1::Document::new_unchecked(
                                    c.arguments().first().unwrap().1.chunks().clone(),
                                )
                                .to_string()
                                .trim_end_matches('*')
                                .to_string(),
                            ) =>""")],
    r'''
use std::str::FromStr;
fn main() {
    assert!(latex_ast::ast2::Document::from_str("\\begin{align*}x\\end{align}").is_err());
    assert!(latex_ast::ast2::Document::from_str("\\begin{align}x\\end{align*}").is_err());
}''', "an end that differs from its begin by a star", "align* may be closed by align and the other way round"),

bug("env-prec-lines", "C10",
    [("src/ast3/environment.rs", """            .prec_begin
            .chars()
            .chain(self.prec_end.chars())
            .filter(|c| c == &'\\n')
            .count() as u32;""", """            .prec_begin
            .lines()
            .chain(self.prec_end.lines())
            .count() as u32;""")],
    r'''
use std::str::FromStr;
use latex_ast::traits::Lines;
fn main() {
    for s in ["x\\begin {a}y\\end{a}", "\\begin\n {a}\\end{a}", "\\begin{a}\\end\n{a}"] {
        let d = latex_ast::ast3::Document::from_str(s).unwrap();
        assert_eq!(d.lines() as usize, 1 + s.matches('\n').count());
    }
}''', "whitespace other than newlines before an environment label (stage 3)",
    "spaces before the labels of a stage 3 environment count as a line"),

bug("unchecked-renumbered", "C16",
    [(A3, """        Self::push_chunk_vec_unchecked(&mut self.preamable, chunk)""",
          """        Self::push_vec_unchecked(&mut self.preamable, chunk.variant_owned())""")],
    r'''
use latex_ast::ast3::*;
fn main() {
    let mut d = Document::default();
    d.push_preamable_chunk_unchecked(Chunk::new_unchecked(5, ChunkVariant::Scope(Scope::new_unchecked(vec![], ScopeVariant::Curly))));
    assert_eq!(d.chunks_preamable()[0].line_no(), 5);
}''', "an unchecked push of a chunk, with a line that is not the next, to the preamble",
    "the chunk is renumbered"),

bug("empty-body-args", "C19",
    [(A3, """.chain(self.body_args.clone())""",
          """.chain(if self.body.is_empty() {
                                Vec::new()
                            } else {
                                self.body_args.clone()
                            })""")],
    r'''
use latex_ast::ast3::*;
use std::str::FromStr;
fn main() {
    let s = "\\begin{document}[x]\\end{document}";
    assert_eq!(Document::from_str(s).unwrap().to_string(), s);
}''', "a document environment with arguments and nothing in it", "the arguments of an empty document environment are not rendered"),

bug("empty-class-twice", "C11",
    [(A3, """                    if construct.documentclass.is_some() {""",
          """                    if construct.documentclass.as_ref().is_some_and(|c| !c.is_empty()) {""")],
    r'''
use std::str::FromStr;
fn main() {
    assert!(latex_ast::ast3::Document::from_str("\\documentclass{}\\documentclass{}").is_err());
    assert!(latex_ast::ast3::Document::from_str("\\documentclass{} \\documentclass[a]").is_err());
}''', "a second class command after one with an empty class", "a second document class is accepted if the first is empty"),

bug("double-conversion", "C13",
    [("src/ast3/scope.rs", """        let (chunks, variant) = value.decompose();
""", """        // errors first
        MathsBlock::from_chunks(value.chunks().clone())?;
        let (chunks, variant) = value.clone().decompose();
""")],
    r'''
use std::str::FromStr;
use std::time::*;
fn main() {
    let s = format!("{}x{}", "{".repeat(60), "}".repeat(60));
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let _ = latex_ast::ast3::Document::from_str(&s);
        tx.send(()).unwrap();
    }).unwrap();
    rx.recv_timeout(Duration::from_secs(20)).expect("does not end");
}''', "scopes nested some thirty deep", "stage 3 converts the content of each scope twice: time doubles with each level"),

bug("stray-closing-line", "C12",
    [(A1, """                        return Err(crate::Error::new(
                            line_no,
                            crate::ErrorType::UnexpectedClosing(ScopeVariant::from_closing(c)),""",
          """                        return Err(crate::Error::new(
                            buffer_line_no,
                            crate::ErrorType::UnexpectedClosing(ScopeVariant::from_closing(c)),""")],
    r'''
use std::str::FromStr;
fn main() {
    let e = latex_ast::ast1::Document::from_str("a\n\\c{\n}]").err().unwrap();
    assert_eq!(e.line, 3);
}''', "a stray bracket after a command whose arguments take several lines",
    "a stray closing bracket is reported on the line of the command before it"),

bug("break-indent", "C07",
    [(PA, """                if !buffer.is_empty() {
                    if consec_newlines > 1 {
                        new.push(Chunk::new_unchecked(
                            buffer_line,
                            ChunkVariant::ParagraphBreak(std::mem::take(&mut buffer)),
                        ));
                    } else {""",
          """                if !buffer.is_empty() {
                    if consec_newlines > 1 {
                        // the indentation is of what follows
                        let end = buffer.rfind('\\n').unwrap() + 1;
                        new.push(Chunk::new_unchecked(
                            buffer_line,
                            ChunkVariant::ParagraphBreak(buffer[..end].to_string()),
                        ));
                        if end < buffer.len() {
                            new.push(Chunk::new_unchecked(
                                line_no,
                                ChunkVariant::Text(buffer[end..].to_string()),
                            ))
                        }
                    } else {""")],
    r'''
use latex_ast::ast3::*;
use std::str::FromStr;
fn main() {
    let d = Document::from_str("a\n\n  $x$").unwrap();
    assert_eq!(d.chunks_preamable().len(), 3);
}''', "a paragraph break with spaces after its last newline, followed by something other than text",
    "the break does not reach up to the end of the text run"),

bug("wide-option-space", "C13",
    [(A3, """                                        post = buffer;""",
          """                                        post = opt[opt.len() - buffer.chars().count()..].to_string();""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = "\\documentclass[a\u{3000},b]{c}";
    assert_eq!(latex_ast::ast3::Document::from_str(s).unwrap().to_string(), s);
}''', "whitespace of several bytes after a document class option", "parsing panics"),

bug("lowered-crlf", "C15",
    [(C3, """            ChunkVariant::ParagraphBreak(s) => vec![ast2::Chunk::new_unchecked(
                line_no,
                ast2::ChunkVariant::Text(s),
            )],""",
          """            ChunkVariant::ParagraphBreak(s) => vec![ast2::Chunk::new_unchecked(
                line_no,
                ast2::ChunkVariant::Text(s.replace("\\n\\r\\n", "\\n\\n")),
            )],""")],
    r'''
use latex_ast::{ast2, ast3};
use std::str::FromStr;
fn main() {
    let s = "a\r\n\r\nb";
    let d = ast3::Document::from_str(s).unwrap();
    assert_eq!(ast2::Document::from(d).to_string(), s);
}''', "a paragraph break with carriage returns", "lowering to stage 2 drops carriage returns of paragraph breaks"),

bug("label-as-text", "C14",
    [(C2, """                                vec![(prec_end, label.clone())],""",
          """                                vec![(prec_end, {
                                    let text = label.to_string();
                                    let text = text[1..text.len() - 1].to_string();
                                    ast1::Scope::new_unchecked(
                                        vec![ast1::Chunk::new_unchecked(
                                            1,
                                            ast1::ChunkVariant::Text(text),
                                        )],
                                        ast1::ScopeVariant::Curly,
                                    )
                                })],""")],
    r'''
use latex_ast::{ast1, ast2};
use std::str::FromStr;
fn main() {
    for s in ["\\begin{}x\\end{}", "\\begin{\\a}x\\end{\\a}"] {
        let d = ast2::Document::from_str(s).unwrap();
        assert!(ast1::Document::from(d) == ast1::Document::from_str(s).unwrap());
    }
}''', "an environment whose label is empty or holds commands or groups",
    "lowering to stage 1 makes the label of end one text, whatever it was parsed from"),

bug("short-break-accepted", "C17",
    [("src/ast3/chunkvariant.rs", """                if new_lines < 2 {""", """                if new_lines < 2 && inter.lines().count() < 2 {""")],
    r'''
use latex_ast::ast3::ChunkVariant;
use latex_ast::traits::Validate;
fn main() {
    for s in ["\n ", " \n ", "\n"] {
        assert!(ChunkVariant::ParagraphBreak(s.to_string()).validate().is_err());
    }
}''', "a paragraph break with one newline, followed by other whitespace",
    "validation accepts paragraph breaks of one newline"),

bug("duplicate-option", "C08",
    [(A3, """                                    } else {
                                        construct.documentoptions.push((prec, arg, None, post));
                                    }""",
          """                                    } else if arg.is_empty()
                                        || !construct.documentoptions.iter().any(|o| o.1 == arg)
                                    {
                                        construct.documentoptions.push((prec, arg, None, post));
                                    }""")],
    r'''
use std::str::FromStr;
fn main() {
    let d = latex_ast::ast3::Document::from_str("\\documentclass[a=1,b,a,b]{c}").unwrap();
    assert_eq!(d.decompose().1.len(), 4);
}''', "the same option twice", "an option is not recorded if one of the same key has been"),

bug("comment-ends-command", "C18",
    [(A1, """                    comment = true;
                    continue;""",
          """                    comment = !escaped;
                    if matches!(&buffer, Buffer::Command { depth: 0, trailing, .. } if trailing.is_empty())
                    {
                        flush!();
                        buffer = Buffer::text();
                    }
                    continue;""")],
    r'''
use latex_ast::ast1::Document;
use std::str::FromStr;
fn main() {
    let d = Document::from_str("\\c{a}% \n{b}").unwrap();
    assert!(Document::from_str(&d.to_string()).unwrap() == d);
}''', "a comment between a command and one of its arguments", "the command ends at the comment, so the rendered document parses to another tree"),

bug("cr-ends-comment", "C01",
    [(A1, """                '\\n' => {
                    comment = false;
                    line_no += 1
                }""",
          """                '\\n' => {
                    comment = false;
                    line_no += 1
                }
                '\\r' => comment = false,"""),
     (A1, """        // whether the current character is a comment
        let mut comment = false;""", """        // whether the current character is in a comment
        let mut comment: bool = false;""")],
    r'''
use std::str::FromStr;
fn main() {
    let d = latex_ast::ast1::Document::from_str("a%b\rc\nd").unwrap();
    assert_eq!(d.to_string(), "a\nd");
}''', "a carriage return in a comment", "a comment ends at a carriage return, which, with what follows, stays in the document"),

bug("nested-begin-space", "C02",
    [(A2, """                            buffer_stack.push(content.chunks().clone());
""", """                            if buffer_stack.len() < 2 {
                                prec_begin = prec.to_string();
                            }
                            buffer_stack.push(content.chunks().clone());
"""),
     (A2, """                                prec_begin = prec.to_string();

                                env_args""", """
                                env_args""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = "\\begin {a}\\begin\t{b}x\\end{b}\\end{a}";
    assert_eq!(latex_ast::ast2::Document::from_str(s).unwrap().to_string(), s);
}''', "an environment in another, with different whitespace before their labels",
    "the whitespace before the label of an outer begin becomes that of the inner one"),

bug("after-maths-line", "C09",
    [(MB, """                                MathsMode::SingleDollar(MathsVariant::Dollars) => {
                                    mode = MathsMode::None;

                                    if !text_buffer.is_empty() {""",
          """                                MathsMode::SingleDollar(MathsVariant::Dollars) => {
                                    mode = std::convert::identity(MathsMode::None);

                                    cursor_line_no = cursor_line_no.min(buffer_line + 2);

                                    if !text_buffer.is_empty() {""")],
    r'''
use latex_ast::ast3::Document;
use std::str::FromStr;
fn main() {
    let d = Document::from_str("$a\nb\nc\nd$ x").unwrap();
    assert_eq!(d.chunks_preamable()[1].line_no(), 4);
}''', "text after an inline block of four lines or more", "the text after a tall inline block is numbered as if the block had three lines"),

bug("mismatched-end-line", "C12",
    [(A2, """                            return Err(crate::Error::new(
                                line_no,
                                crate::ErrorType::UnexpectedEnd(""",
          """                            return Err(crate::Error::new(
                                if buffer_stack.len() > 1 {
                                    env_start
                                } else {
                                    line_no
                                },
                                crate::ErrorType::UnexpectedEnd(""")],
    r'''
use std::str::FromStr;
fn main() {
    let e = latex_ast::ast2::Document::from_str("\\begin{a}\n\\begin{b}\n\\end{a}").err().unwrap();
    assert_eq!(e.line, 3);
}''', "a mismatched end with two environments open", "the error is reported on the line of the outermost begin"),
]
