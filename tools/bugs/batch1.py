A1 = "src/ast1/document.rs"
A2 = "src/ast2/document.rs"
A3 = "src/ast3/document.rs"
MB = "src/ast3/mathsblock.rs"
PA = "src/ast3/paragraph.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("scope-continuation", "C01",
    [(A1, """                Buffer::Scope { depth, variant, .. } => match c {
                    c if *depth != 0 && escaped => {
                        buffer.push('\\\\');
                        buffer.push(c);""",
      """                Buffer::Scope { depth, variant, .. } => match c {
                    c if *depth != 0 && escaped => {
                        if c != '\\n' {
                            buffer.push('\\\\');
                        }
                        buffer.push(c);""")],
    r'''
use std::str::FromStr;
fn main() {
    for s in ["{a\\\nb}", "x [y {z\\\n} w]"] {
        assert_eq!(latex_ast::ast1::Document::from_str(s).unwrap().to_string(), s);
    }
}''', "an escaped newline inside a scope (not inside an argument)",
    "the backslash of an escaped newline inside a scope disappears from the tree and the rendered text"),

bug("third-argument-space", "C01",
    [(A1, """                if !trailing.is_empty() {
                    scopes.last_mut().unwrap().2 = std::mem::take(trailing);
                }""",
      """                if !trailing.is_empty() {
                    let prec = std::mem::take(trailing);
                    // spaces after an empty argument carry no meaning
                    if !matches!(scopes.iter().rev().nth(1), Some((s, _, _)) if s.is_empty()) {
                        scopes.last_mut().unwrap().2 = prec;
                    }
                }""")],
    r'''
use std::str::FromStr;
fn main() {
    for s in ["\\cmd{a} [b]", "\\cmd{} {b}", "\\cmd []{b}"] {
        assert_eq!(latex_ast::ast1::Document::from_str(s).unwrap().to_string(), s);
    }
}''', "whitespace between an empty argument and the argument after it",
    "the whitespace between an empty argument and the next argument is dropped"),

bug("empty-env-argument", "C02",
    [(A2, "env_args = c.arguments_owned().into_iter().skip(1).collect();",
      """env_args = c
                                    .arguments_owned()
                                    .into_iter()
                                    .skip(1)
                                    .filter(|(_, arg)| !arg.chunks().is_empty())
                                    .collect();""")],
    r'''
use std::str::FromStr;
fn main() {
    for s in ["\\begin{tabular}{}x\\end{tabular}", "\\begin{a}[]{b}\\end{a}"] {
        assert_eq!(latex_ast::ast2::Document::from_str(s).unwrap().to_string(), s);
    }
}''', "an environment with an empty argument after its label",
    "empty environment arguments vanish from the stage 2 tree and its rendering"),

bug("env-spacing-swapped", "C02",
    [(A2, """                                        mem::take(&mut prec_begin),
                                        prec_end,""",
      """                                        prec_end,
                                        mem::take(&mut prec_begin),""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = "\\begin {a}x\\end\n{a}";
    assert_eq!(latex_ast::ast2::Document::from_str(s).unwrap().to_string(), s);
}''', "different whitespace before the label of a begin and of its end",
    "the whitespace before the begin label and before the end label change places"),

bug("dollar-in-display-brackets", "C03",
    [(MB, """                        MathsMode::SingleDollar(MathsVariant::Brackets)
                            | MathsMode::DoubleDollar(MathsVariant::Brackets)
                    ) =>""",
      """                        MathsMode::SingleDollar(MathsVariant::Brackets)
                    ) =>""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = "\\[ a $b$ c\\]";
    assert_eq!(latex_ast::ast3::Document::from_str(s).unwrap().to_string(), s);
}''', "dollar signs directly among the chunks of a \\[ \\] block",
    "dollar signs inside \\[ \\] are thrown away"),

bug("other-kind-nests", "C04",
    [(A1, """                    c if variant.open() == c => {
                        *depth += 1;
                        buffer.push(c)
                    }""", """                    c if variant.open() == c
                        || (*variant == ScopeVariant::Round && c == '[' && content.ends_with('\\n')) =>
                    {
                        *depth += 1;
                        buffer.push(c)
                    }""") ,
     (A1, "                Buffer::Scope { depth, variant, .. } => match c {\n                    c if *depth != 0 && escaped", "                Buffer::Scope { depth, variant, content } => match c {\n                    c if *depth != 0 && escaped")],
    r"""
use std::str::FromStr;
use latex_ast::ast1::Document;
fn main() {
    let d = Document::from_str("(a\n[b]c) d (e) f)").unwrap();
    assert_eq!(d.chunks().len(), 4);
}""", "a square bracket at the start of a line inside a round scope, with a later unmatched round bracket",
    "the scope extends too far"),

bug("letter-command-unicode", "C04",
    [(A1, """                        buffer.push(c);

                        if !c.is_ascii_alphabetic() {""",
      """                        buffer.push(c);

                        if !c.is_alphabetic() {""")],
    r'''
use std::str::FromStr;
use latex_ast::ast1::Document;
fn main() {
    // a non-letter (outside ASCII) after a backslash is a whole command
    let d = Document::from_str("a\\é{x}").unwrap();
    assert_eq!(d.chunks().len(), 3);
}''', "an escaped non-ASCII letter directly after text",
    "it starts a long command name instead of being a single character command"),

bug("label-trimmed", "C05",
    [(A2, """                                        ast1::Document::new_unchecked(label.chunks_owned())
                                            .to_string(),
                                        args_new,""",
      """                                        ast1::Document::new_unchecked(label.chunks_owned())
                                            .to_string()
                                            .trim_end_matches('\\n')
                                            .into(),
                                        args_new,""")],
    r'''
use std::str::FromStr;
use latex_ast::ast2::{Document, ChunkVariant};
fn main() {
    let d = Document::from_str("\\begin{align\n}x\\end{align\n}").unwrap();
    match d.chunks()[0].variant() {
        ChunkVariant::Environment(e) => assert_eq!(e.label(), "align\n"),
        _ => panic!(),
    }
}''', "an environment label ending in a newline",
    "the label recorded for the environment is not the one written"),

bug("display-in-inline-brackets", "C06",
    [(MB, """                        && mode == MathsMode::SingleDollar(MathsVariant::Brackets)
                        && depth == 1 =>""",
      """                        && matches!(
                            mode,
                            MathsMode::SingleDollar(MathsVariant::Brackets)
                                | MathsMode::SingleDollar(MathsVariant::Dollars)
                        )
                        && depth <= 1 =>""")],
    r'''
use std::str::FromStr;
use latex_ast::ast3::Document;
fn main() {
    // the \( \) pair lies inside the dollars
    let d = Document::from_str("$a\\(b\\)c$ d").unwrap();
    assert_eq!(d.to_string(), "$a\\(b\\)c$ d");
    assert_eq!(d.chunks_preamable().len(), 2);
}''', "a \\( \\) pair inside a dollar block",
    "the block is closed by \\) and its delimiters and extent are wrong"),

bug("crlf-paragraph", "C07",
    [(PA, "                        _ if c.is_whitespace() => buffer.push(c),",
      "                        _ if matches!(c, ' ' | '\\t') => buffer.push(c),")],
    r'''
use std::str::FromStr;
use latex_ast::ast3::{Document, ChunkVariant};
fn main() {
    let d = Document::from_str("a\r\n\r\nb").unwrap();
    assert!(d.chunks_preamable().iter().any(|c| matches!(c.variant(), ChunkVariant::ParagraphBreak(_))));
}''', "two newlines with a carriage return (or another space than blank and tab) between them",
    "the paragraph break is not recognised"),

bug("option-last-equals", "C08",
    [(A3, "if let Some((k, v)) = arg.split_once('=') {", "if let Some((k, v)) = arg.rsplit_once('=') {")],
    r'''
use std::str::FromStr;
use latex_ast::ast3::Document;
fn main() {
    let d = Document::from_str("\\documentclass[a=b=c]{x}").unwrap();
    let o = d.decompose().1;
    assert_eq!(o, vec![("".into(), "a".into(), Some(("".into(), "".into(), "b=c".into())), "".into())]);
}''', "a class option with two equals signs",
    "the key takes in the first equals sign"),

bug("options-square-only", "C08",
    [(A3, """                            _ => {
                                for opt in ast2""", """                            ast2::ScopeVariant::Round => {}
                            ast2::ScopeVariant::Square => {
                                for opt in ast2""")],
    r'''
use std::str::FromStr;
use latex_ast::ast3::Document;
fn main() {
    let d = Document::from_str("\\documentclass(a,b){x}").unwrap();
    assert_eq!(d.decompose().1.len(), 2);
}''', "class options given in round brackets", "they are not recorded"),

bug("escaped-newline-line", "C09",
    [(A2, ".map(|(prec, arg)| lines(prec) + lines(&arg.to_string()))",
      ".enumerate()\n                                        .map(|(i, (prec, arg))| {\n                                            if i == 0 { lines(prec) } else { lines(prec) + lines(&arg.to_string()) }\n                                        })")],
    r'''
use std::str::FromStr;
use latex_ast::ast2::{Document, ChunkVariant};
fn main() {
    let d = Document::from_str("\\begin{a\nb}x\\y\n\\end{a\nb}").unwrap();
    match d.chunks()[0].variant() {
        ChunkVariant::Environment(e) => {
            let (_, _, content, _, _) = e.clone().decompose();
            assert_eq!(content[0].line_no(), 1);
            assert_eq!(content[1].line_no(), 1);
        }
        _ => panic!(),
    }
}''', "an environment label with a newline inside",
    "chunks of the environment are numbered as if the label had no newline"),

bug("env-label-lines", "C10",
    [("src/ast3/environment.rs", "let mut lines = self.label.chars().filter(|c| c == &'\\n').count() as u32 * 2;",
      "let mut lines = self.label.chars().filter(|c| c == &'\\n').count() as u32;")],
    r'''
use std::str::FromStr;
use latex_ast::{ast3::Document, traits::Lines};
fn main() {
    let d = Document::from_str("\\begin{a\nb}x\\end{a\nb}").unwrap();
    assert_eq!(d.lines(), 3);
}''', "a stage 3 environment whose label holds a newline", "its line count is too small"),

bug("end-three-args", "C11",
    [(A2, "if c.arguments().len() > 1 {", "if c.arguments().len() > 1 && buffer_stack.len() == 1 {")],
    r'''
use std::str::FromStr;
use latex_ast::ast2::Document;
fn main() {
    assert!(Document::from_str("\\begin{a}\\begin{b}\\end{b}{x}\\end{a}").is_err());
    assert!(Document::from_str("\\begin{b}\\end{b}{x}").is_err());
    let e = Document::from_str("\\begin{a}\\begin{b}\\end{b}{x}").unwrap_err();
    assert!(matches!(e.r#type, latex_ast::ErrorType::TooManyArgsEnd));
}''', "an inner end with two arguments inside an environment that is never closed",
    "the wrong kind of problem is reported"),

bug("unclosed-names-innermost", "C11",
    [(A2, "if let Some(label) = buffer_stack.first() {", "if let Some(label) = buffer_stack.last() {")],
    r'''
use std::str::FromStr;
use latex_ast::{ast2::Document, ErrorType};
fn main() {
    match Document::from_str("\\begin{a}\n\\begin{b}").unwrap_err().r#type {
        ErrorType::UnclosedEnvironment(l) => assert_eq!(l, "a"),
        _ => panic!(),
    }
}''', "two environments left open", "the error names the inner environment but points at the outer one"),

bug("stray-end-line", "C12",
    [(A1, """                        return Err(crate::Error::new(
                            line_no,
                            crate::ErrorType::UnexpectedClosing(ScopeVariant::from_closing(c)),
                        ))""",
      """                        return Err(crate::Error::new(
                            buffer_line_no,
                            crate::ErrorType::UnexpectedClosing(ScopeVariant::from_closing(c)),
                        ))""")],
    r'''
use std::str::FromStr;
use latex_ast::ast1::Document;
fn main() {
    let e = Document::from_str("\\a{x\ny}]").err().unwrap();
    assert_eq!(e.line, 2);
}''', "a closing bracket right after an argument that spans lines",
    "the error points at the command, not at the stray bracket"),

bug("end-without-label", "C13",
    [(A2, """                    if !c
                        .arguments()
                        .first()""", """                    if c.label() == "begin" && !c
                        .arguments()
                        .first()""")],
    r'''
use std::str::FromStr;
use latex_ast::ast2::Document;
fn main() {
    assert!(Document::from_str("\\begin{a}\\end").is_err());
    assert!(Document::from_str("\\end x").is_err());
}''', "an end command without any argument", "parsing panics"),

bug("lowered-end-line", "C14",
    [("src/ast2/chunk.rs", """                                    lines(prec)
                                        + lines(""", """                                    lines(prec).min(1)
                                        + lines(""")],
    r'''
use std::str::FromStr;
use latex_ast::{ast1, ast2};
fn main() {
    let s = "\\begin{a}\n\n{b}x\\end{a}";
    let low: ast1::Document = ast2::Document::from_str(s).unwrap().into();
    assert!(low == ast1::Document::from_str(s).unwrap());
}''', "an environment with an argument two or more lines below what precedes it",
    "lowering gives wrong line numbers to the content and the end"),

bug("lowered-bracket-line", "C15",
    [(MB, """                .chain(self.content.into_iter().flat_map(Chunk::into_chunks))
                .chain([ast2::Chunk::new_unchecked(
                    lines,
                    ast2::ChunkVariant::Command(ast2::Command::new_unchecked(
                        ")".to_string(),""",
      """                .chain(self.content.iter().cloned().flat_map(Chunk::into_chunks))
                .chain([ast2::Chunk::new_unchecked(
                    self.content.last().map_or(1, Chunk::line_no),
                    ast2::ChunkVariant::Command(ast2::Command::new_unchecked(
                        ")".to_string(),""")],
    r'''
use std::str::FromStr;
use latex_ast::{ast2, ast3};
fn main() {
    let s = "\\(a\nb\\) c";
    let low: ast2::Document = ast3::Document::from_str(s).unwrap().into();
    assert!(low == ast2::Document::from_str(s).unwrap());
}''', "a \\( \\) block whose last chunk spans lines", "the lowered closing command gets the wrong line"),

bug("refused-push-stays", "C16",
    [(A2, """        variant.validate()?;
        self.push_unchecked(variant);
        Ok(())""", """        let result = variant.validate();
        if result.is_ok() || matches!(variant, ChunkVariant::Text(ref s) if s.is_empty()) {
            self.push_unchecked(variant);
        } else if self.0.is_empty() {
            self.push_unchecked(ChunkVariant::Text(String::new()));
        }
        result""")],
    r'''
use latex_ast::ast2::{Document, ChunkVariant};
fn main() {
    let mut d = Document::default();
    assert!(d.push(ChunkVariant::Text("a%".into())).is_err());
    assert!(d.chunks().is_empty());
}''', "a refused push to an empty stage 2 document", "the refused push leaves an empty text chunk behind"),

bug("expected-got-swapped", "C16",
    [(A3, """            return Err(crate::InternalError::IncorrectChunkLineNumber {
                expected: expected_line,
                got: chunk.line_no(),
            });
        }

        Self::push_chunk_vec_unchecked(vec, chunk);""",
      """            return Err(crate::InternalError::IncorrectChunkLineNumber {
                expected: chunk.line_no(),
                got: expected_line,
            });
        }

        Self::push_chunk_vec_unchecked(vec, chunk);""")],
    r'''
use latex_ast::{ast3::{Document, ChunkVariant, Chunk}, InternalError};
fn main() {
    let mut d = Document::default();
    let e = d.push_body_chunk(Chunk::new_unchecked(4, ChunkVariant::Text("a".into()))).unwrap_err();
    match e {
        InternalError::IncorrectChunkLineNumber { expected, got } => assert_eq!((expected, got), (1, 4)),
        _ => panic!(),
    }
}''', "a stage 3 chunk pushed with a wrong line", "expected and given line are swapped in the error"),

bug("punctuation-line", "C17",
    [("src/ast3/chunkvariant.rs", "} else if !c.is_whitespace() {", "} else if c.is_alphanumeric() {")],
    r'''
use latex_ast::{ast3::{Chunk, ChunkVariant}};
fn main() {
    assert!(Chunk::new(1, ChunkVariant::Text("a\n.\nb".into())).is_ok());
    assert!(Chunk::new(1, ChunkVariant::Text("a\n \nb".into())).is_err());
}''', "a stage 3 text with a line of punctuation only", "it is rejected as a paragraph break"),

bug("env-arg-not-validated", "C17",
    [("src/ast2/environment.rs", """        for (_, arg) in self.arguments.iter() {
            arg.validate()?
        }

        for chunk in self.content.iter() {
            chunk.validate()?
        }""", """        for chunk in self.content.iter() {
            chunk.validate()?
        }

        for (_, arg) in self.arguments.iter() {
            arg.validate()?
        }""")],
    r'''
use latex_ast::{ast2::*, InternalError};
fn main() {
    let arg = Scope::new_unchecked(vec![Chunk::new_unchecked(1, ChunkVariant::Text("%".into()))], ScopeVariant::Curly);
    let content = vec![Chunk::new_unchecked(1, ChunkVariant::Text("\\".into()))];
    match Environment::new("a".into(), vec![("".into(), arg)], content, "".into(), "".into()) {
        Err(InternalError::UnsanitisedCharInString(c)) => assert_eq!(c, '%'),
        _ => panic!(),
    }
}''', "a stage 2 environment with a problem in an argument and another in its content",
    "the later problem is reported"),

bug("comment-splits-text", "C18",
    [(A1, """                '%' if !escaped => {
                    comment = true;
                    continue;""", """                '%' if !escaped => {
                    comment = matches!(c, '%');
                    if let Buffer::Text { .. } = buffer {
                        flush!();
                    }
                    continue;""")],
    r'''
use std::str::FromStr;
use latex_ast::ast1::Document;
fn main() {
    let d = Document::from_str("a % c\n b").unwrap();
    let again = Document::from_str(&d.to_string()).unwrap();
    assert!(d == again);
}''', "a comment in the middle of a text run", "the text is split in two chunks, which render but do not parse back alike"),

bug("break-normalised", "C19",
    [("src/ast3/chunk.rs", """            ChunkVariant::ParagraphBreak(s) => vec![ast2::Chunk::new_unchecked(
                line_no,
                ast2::ChunkVariant::Text(s),""", """            ChunkVariant::ParagraphBreak(s) => vec![ast2::Chunk::new_unchecked(
                line_no,
                ast2::ChunkVariant::Text(s.replace("\\n \\n", "\\n\\n")),""")],
    r'''
use latex_ast::{ast2, ast3::{Chunk, ChunkVariant, Document}};
fn main() {
    let d = Document::new(vec![], None, vec![], vec![Chunk::new(1, ChunkVariant::ParagraphBreak("\n \n".into())).unwrap()],
        vec![], "".into(), "".into(), vec![]).unwrap();
    let text = d.to_string();
    let low: ast2::Document = d.into();
    assert_eq!(low.to_string(), text);
}''', "a paragraph break with blanks between the newlines, lowered", "lowering changes the text"),
]
