D2 = "src/ast2/document.rs"
D3 = "src/ast3/document.rs"
C2 = "src/ast2/chunk.rs"
MB = "src/ast3/mathsblock.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("lowered-argument-gap", "C14",
    [(C2, """                                    lines(prec)
                                        + lines(
                                            &Document::new_unchecked(vec![Chunk::new_unchecked(
                                                1,
                                                ChunkVariant::Scope(arg.clone()),
                                            )])
                                            .to_string(),
                                        )
""", """                                    lines(prec.trim_start_matches('\\n'))
                                        + lines(
                                            &Document::new_unchecked(vec![Chunk::new_unchecked(
                                                1,
                                                ChunkVariant::Scope(arg.clone()),
                                            )])
                                            .to_string(),
                                        )
""")],
    r'''
use latex_ast::{ast1, ast2};
use std::str::FromStr;
fn main() {
    for src in ["\\begin{a} \n[x]y\\end{a}", "\\begin{a}\n[x]y\\end{a}z", "\\begin{a}[x]\n\n{z}\\b\\end{a}"] {
        let one = ast1::Document::from_str(src).unwrap();
        let two = ast2::Document::from_str(src).unwrap();
        assert!(ast1::Document::from(two) == one, "{src:?}");
    }
}''', "an environment argument that comes after a newline which is the first thing before it", "the lines of the lowered content and end are too low"),

bug("lowered-body-spacing", "C15",
    [(D2, """                body_chunks,
                body_begin_prec,
                body_end_prec,
""", """                body_chunks,
                body_end_prec,
                body_begin_prec,
""")],
    r'''
use latex_ast::{ast2, ast3};
use std::str::FromStr;
fn main() {
    for src in ["\\begin {document}x\\end\n{document}", "\\begin{document}x\\end {document}"] {
        let two = ast2::Document::from_str(src).unwrap();
        let three = ast3::Document::from_str(src).unwrap();
        assert_eq!(three.to_string(), src);
        assert!(ast2::Document::from(three) == two, "{src:?}");
    }
}''', "a document environment whose begin and end are spaced differently from their labels", "lowering from stage 3 swaps the spacing"),

bug("lowered-empty-display", "C15",
    [(MB, """                ast2::ChunkVariant::Text(dollars.repeat(2)),""", """                ast2::ChunkVariant::Text("$".repeat(2)),""")],
    r'''
use latex_ast::{ast2, ast3};
use std::str::FromStr;
fn main() {
    for src in ["{}$$$$", "a$$$$ c"] {
        let two = ast2::Document::from_str(src).unwrap();
        let three = ast3::Document::from_str(src).unwrap();
        assert_eq!(ast2::Document::from(three.clone()).to_string(), src);
        assert!(ast2::Document::from(three) == two, "{src:?}");
    }
}''', "display maths between double dollars with nothing in it", "lowering writes two of its four dollars"),

bug("blank-inline", "C06",
    [(MB, """                                    if text_buffer.is_empty() && buffer.is_empty() =>""", """                                    if text_buffer.trim().is_empty() && buffer.is_empty() =>""")],
    r'''
use latex_ast::ast3;
use std::str::FromStr;
fn main() {
    for src in ["$ $", "a$\n$b", "$ $ $x$"] {
        let d = match ast3::Document::from_str(src) {
            Ok(d) => d,
            Err(e) => panic!("{src:?}: {:?}", e.line),
        };
        assert_eq!(d.to_string(), src);
    }
}''', "inline maths between dollars with nothing but whitespace in it", "its closing dollar is taken for the second of an opening pair"),

bug("stray-closing-first", "C06",
    [(MB, """                    if mode == MathsMode::None && matches!(cmd.label().as_str(), ")" | "]") =>""",
          """                    if mode == MathsMode::None
                        && !out.is_empty()
                        && matches!(cmd.label().as_str(), ")" | "]") =>""")],
    r'''
use latex_ast::ast3;
use std::str::FromStr;
fn main() {
    for src in ["\\)", "a{\\] b}", "\\begin{e}\\)\\end{e}", "x\\)"] {
        assert!(ast3::Document::from_str(src).is_err(), "{src:?}");
    }
}''', "a closing maths delimiter that is the first thing of a document, group or environment", "it is accepted"),

bug("class-after-body", "C23",
    [(D3, """                    if cmd.label().as_str() == "documentclass"
                        && cursor == CursorState::Preamable =>
""", """                    if cmd.label().as_str() == "documentclass"
                        && (cursor == CursorState::Preamable || construct.body.is_empty()) =>
""")],
    r'''
use latex_ast::{ast2, ast3};
fn main() {
    let mut d = ast3::Document::default();
    let class = || ast3::ChunkVariant::Command(ast3::Command::new("documentclass".into(), vec![]).unwrap());
    d.push_trailing(ast3::ChunkVariant::Text("x".into())).unwrap();
    d.push_trailing(class()).unwrap();
    let text = d.to_string();
    let low = ast2::Document::from(d);
    assert_eq!(low.to_string(), text);
    let up = match ast3::Document::try_from(low) { Ok(d) => d, Err(_) => panic!("refused") };
    assert_eq!(up.to_string(), text);
}''', "a class command pushed after a document environment that is empty, and the document lowered and raised again", "the class command moves before the document environment"),

bug("blank-joins-break", "C23",
    [(D3, """                if let ChunkVariant::Text(last_s) = last.variant_mut() {
                    last_s.push_str(s);
                    return;
                }
""", """                match last.variant_mut() {
                    ChunkVariant::Text(last_s) => {
                        last_s.push_str(s);
                        return;
                    }
                    ChunkVariant::ParagraphBreak(last_s) if s.trim().is_empty() => {
                        last_s.push_str(s);
                        return;
                    }
                    _ => {}
                }
""")],
    r'''
use latex_ast::ast3::{ChunkVariant, Document};
use std::str::FromStr;
fn main() {
    let mut d = Document::from_str("a\n\n").unwrap_or_default();
    let n = d.chunks_preamable().len();
    d.push_preamable(ChunkVariant::Text(" ".into())).unwrap();
    assert_eq!(d.to_string(), "a\n\n ");
    assert_eq!(d.chunks_preamable().len(), n + 1);
    d.push_preamable(ChunkVariant::Text("b\n".into())).unwrap();
    assert_eq!(d.chunks_preamable().len(), n + 1);
}''', "a blank text pushed after a paragraph break", "it becomes part of the break instead of a text of its own"),

bug("raised-body-keeps-offset", "C23",
    [(D2, """                                buffer_start = line_no
                                    + c.arguments()
                                        .iter()
                                        .map(|(prec, arg)| lines(prec) + lines(&arg.to_string()))
                                        .sum::<usize>()
                                        as u32;
""", """                                buffer_start = line_no
                                    + c.arguments()
                                        .iter()
                                        .enumerate()
                                        .filter(|(i, _)| chunks.is_empty() || *i < 3)
                                        .map(|(_, (prec, arg))| lines(prec) + lines(&arg.to_string()))
                                        .sum::<usize>()
                                        as u32;
""")],
    r'''
use latex_ast::{ast1, ast2};
use std::str::FromStr;
fn main() {
    for src in ["x\\begin{e}[a][b][c\n]y\n\\end{e}", "\\begin{e}[a][b][c\n]y\n\\end{e}"] {
        let d = match ast2::Document::from_str(src) { Ok(d) => d, Err(_) => panic!("refused") };
        assert!(ast1::Document::from(d.clone()) == ast1::Document::from_str(src).unwrap());
        let again = match ast2::Document::try_from(ast1::Document::from(d.clone())) { Ok(d) => d, Err(_) => panic!("refused") };
        assert!(again == d);
        match d.chunks().last().unwrap().variant() {
            ast2::ChunkVariant::Environment(e) => assert_eq!(e.clone().decompose().2[0].line_no(), 1),
            _ => panic!("no environment"),
        }
    }
}''', "a fourth argument with a newline at an environment that is not the first part", "the content's lines are counted from a line before its first"),
]
