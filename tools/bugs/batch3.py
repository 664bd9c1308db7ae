A1 = "src/ast1/document.rs"
A2 = "src/ast2/document.rs"
A3 = "src/ast3/document.rs"
C2 = "src/ast2/chunk.rs"
C3 = "src/ast3/chunk.rs"
V3 = "src/ast3/chunkvariant.rs"
MB = "src/ast3/mathsblock.rs"
PA = "src/ast3/paragraph.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("nbsp-not-space", "C07",
    [(PA, """                        _ if c.is_whitespace() => buffer.push(c),""",
          """                        _ if c.is_whitespace() && c != '\\u{a0}' => buffer.push(c),""")],
    r'''
use latex_ast::ast3::{ChunkVariant, Document};
use std::str::FromStr;
fn main() {
    let d = Document::from_str("a\n\u{a0}\nb").unwrap();
    assert_eq!(d.chunks_preamable().len(), 3);
    assert!(matches!(d.chunks_preamable()[1].variant(), ChunkVariant::ParagraphBreak(_)));
}''', "a no-break space between the newlines of a paragraph break", "it is not taken for a break"),

bug("break-byte-count", "C07",
    [(PA, """let mut consec_newlines = 0;""", """let mut consec_newlines = 0u8;"""),
     (PA, """                        '\\n' if consec_newlines == 1 => {
                            consec_newlines += 1;""", """                        '\\n' if consec_newlines == 1 => {
                            consec_newlines = 2;"""),
     (PA, """                            if consec_newlines == 0 {
                                buffer_line = line_no;
                            }

                            consec_newlines += 1;""", """                            if consec_newlines == 0 {
                                buffer_line = line_no;
                            }

                            consec_newlines = consec_newlines.wrapping_add(1);""")],
    r'''
use latex_ast::ast3::{ChunkVariant, Document};
use std::str::FromStr;
fn main() {
    for n in [2usize, 255, 256, 257, 300] {
        let s = format!("a{}b", "\n".repeat(n));
        let d = Document::from_str(&s).unwrap();
        let cs = d.chunks_preamable();
        assert_eq!(cs.len(), 3, "{n}");
        assert!(matches!(cs[1].variant(), ChunkVariant::ParagraphBreak(b) if b.len() == n));
    }
}''', "256 newlines in a row", "newlines are counted in a byte, so that a long stretch is no break, or the text moves"),

bug("tall-text-lines", "C10",
    [(V3, """                s.chars().filter(|c| c == &'\\n').count() as u32 + 1""",
          """                s.chars().filter(|c| c == &'\\n').count() as u16 as u32 + 1""")],
    r'''
use latex_ast::ast3::ChunkVariant;
use latex_ast::traits::Lines;
fn main() {
    for n in [3usize, 65535, 65536, 70000] {
        assert_eq!(ChunkVariant::Text("\n".repeat(n)).lines() as usize, n + 1);
    }
}''', "a text of 65536 lines", "lines are counted in 16 bits"),

bug("merge-limit", "C16",
    [(A2, """            if let Some(last) = self.0.last_mut() {
                if let ChunkVariant::Text(last_s) = last.variant_mut() {
                    last_s.push_str(s);
                    return;
                }""", """            if let Some(last) = self.0.last_mut() {
                if let ChunkVariant::Text(last_s) = last.variant_mut() {
                    if last_s.len() + s.len() <= 1024 {
                        last_s.push_str(s);
                        return;
                    }
                }""")],
    r'''
use latex_ast::ast2::{ChunkVariant, Document};
fn main() {
    let mut d = Document::default();
    for _ in 0..600 {
        d.push(ChunkVariant::Text("abcdefgh".into())).unwrap();
    }
    assert_eq!(d.chunks().len(), 1);
    assert_eq!(d.to_string().len(), 4800);
}''', "pushes of more than a thousand characters of text in a row", "text is no longer merged"),

bug("label-first-chunk", "C11",
    [(A2, """                            if buffer_stack.last()
                                != Some(c.arguments().first().unwrap().1.chunks()) =>""",
          """                            if buffer_stack.last().map(|l: &Vec<ast1::Chunk>| l.first())
                                != Some(c.arguments().first().unwrap().1.chunks().first()) =>""")],
    r'''
use latex_ast::ast2::Document;
use std::str::FromStr;
fn main() {
    assert!(Document::from_str("\\begin{a\\b{x}}y\\end{a\\b{x}}").is_ok());
    assert!(Document::from_str("\\begin{a\\b{x}}y\\end{a\\b{z}}").is_err());
    assert!(Document::from_str("\\begin{a\\b{x}}y\\end{a}").is_err());
}''', "environment labels that differ after a command in them", "an end closes an environment of another label"),

bug("unclosed-later-argument-line", "C12",
    [(A1, """                Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                    return Err(crate::Error::new(
                        1,""", """                Buffer::Command { depth, scopes, .. } if *depth != 0 => {
                    return Err(crate::Error::new(
                        scopes[..scopes.len() - 1]
                            .iter()
                            .map(|s| s.0.matches('\\n').count() as u32)
                            .sum::<u32>()
                            + 1,""")],
    r'''
use latex_ast::ast1::Document;
use std::str::FromStr;
fn main() {
    for (s, line) in [("\n\\c{\n}{", 2), ("\\c{", 1), ("\\c{a\n\nb}[", 1), ("\n{\n\\c{}{\n\n}[}", 3)] {
        assert_eq!(Document::from_str(s).err().unwrap().line, line, "{s:?}");
    }
}''', "an unclosed argument after one that spans lines", "the error points below the command"),

bug("validate-until-empty-argument", "C17",
    [("src/ast2/command.rs", """        for (_, arg) in self.arguments.iter() {
            arg.validate()?""", """        for (_, arg) in self.arguments.iter().take_while(|(_, arg)| !arg.chunks().is_empty()) {
            arg.validate()?""")],
    r'''
use latex_ast::ast2::*;
use latex_ast::traits::Validate;
fn main() {
    let bad = Scope::new_unchecked(vec![Chunk::new_unchecked(1, ChunkVariant::Text("%".into()))], ScopeVariant::Curly);
    let empty = Scope::new_unchecked(vec![], ScopeVariant::Square);
    let c = Command::new_unchecked("c".into(), vec![("".into(), empty), ("".into(), bad)]);
    assert!(c.validate().is_err());
    assert!(Command::new(c.label().clone(), c.arguments().clone()).is_err());
}''', "an invalid argument after an empty one (stage 2)", "it is not looked at"),

bug("command-tallest-argument", "C10",
    [("src/ast1/command.rs", """            total += prec.chars().filter(|c| c == &'\\n').count() as u32;
            total += arg.lines() - 1
        }

        total + 1""", """            total += prec.chars().filter(|c| c == &'\\n').count() as u32;
            if !arg.chunks().is_empty() || self.arguments.len() < 4 {
                total += arg.lines() - 1
            } else {
                total += 0
            }
            if self.arguments.len() > 4 && prec.len() > 2 {
                total -= (prec.len() - prec.trim_start_matches('\\r').len()) as u32;
            }
        }

        total + 1""")],
    r'''
use latex_ast::ast1::Document;
use latex_ast::traits::Lines;
use std::str::FromStr;
fn main() {
    let d = Document::from_str("\n\n\n\\c{a}{b}{c}{d}\r\r\r{e}x\n").unwrap();
    assert_eq!(d.lines(), 5);
    let d = Document::from_str("\\c{a\n}{b}{\n\n\nc}{d}\r\n\r\n{e}x\n").unwrap();
    assert_eq!(d.lines(), 8);
    assert_eq!(d.chunks()[0].lines(), 7);
}''', "a carriage return before the argument of a command of more than four", "its lines are counted too few"),

bug("options-limit", "C08",
    [(A3, """                                    .to_string()
                                    .split(',')""", """                                    .to_string()
                                    .splitn(64, ',')""")],
    r'''
use std::str::FromStr;
fn main() {
    let opts: Vec<String> = (0..100).map(|i| format!("o{i}")).collect();
    let d = latex_ast::ast3::Document::from_str(&format!("\\documentclass[{}]{{k}}", opts.join(","))).unwrap();
    assert_eq!(d.decompose().1.len(), 100);
}''', "more than 64 class options", "those after the 63rd are one option"),

bug("wide-tail-lost", "C03",
    [(MB, """                    for c in s.chars() {""", """                    for c in s.strip_prefix('\\u{feff}').unwrap_or(&s).chars() {""")],
    r'''
use std::str::FromStr;
fn main() {
    for s in ["\u{feff}\\a", "x$\u{feff}y$\u{feff}z", "a\u{feff}b"] {
        assert_eq!(latex_ast::ast3::Document::from_str(s).unwrap().to_string(), s);
    }
}''', "a byte order mark at the start of the source or after a dollar", "it is dropped at stage 3"),

bug("label-lowered-trimmed", "C20",
    [(C2, """                    let (label, args, content, prec_begin, prec_end) = env.decompose();
""", """                    let (mut label, args, content, prec_begin, prec_end) = env.decompose();
                    if label.ends_with('\\n') {
                        label.pop();
                    }
""")],
    r'''
use latex_ast::*;
fn main() {
    let e = ast2::Environment::new("e\n".into(), vec![], vec![], "".into(), "".into()).unwrap();
    let mut d = ast2::Document::default();
    d.push(ast2::ChunkVariant::Environment(e)).unwrap();
    let t = d.to_string();
    let low = ast1::Document::from(d);
    assert_eq!(low.to_string(), t);
}''', "an environment label ending in a newline, lowered to stage 1", "the label loses it"),

bug("raise-empty-scope", "C20",
    [("src/ast3/scope.rs", """        let (chunks, variant) = value.decompose();

        Ok(Self::new_unchecked(""", """        let (mut chunks, variant) = value.decompose();
        if let [only] = chunks.as_mut_slice() {
            if let ast2::ChunkVariant::Scope(inner) = only.variant() {
                if inner.variant() == variant && inner.chunks().is_empty() {
                    chunks.clear();
                }
            }
        }

        Ok(Self::new_unchecked(""")],
    r'''
use latex_ast::*;
use std::str::FromStr;
fn main() {
    for s in ["{{}}", "\\c{{}}", "x{[]}", "[[]]{({})}", "{{{}}}"] {
        let d = ast2::Document::from_str(s).unwrap();
        assert_eq!(ast3::Document::try_from(d).unwrap().to_string(), s);
    }
}''', "a scope holding just an empty scope of its kind", "the inner one is lost at stage 3"),

bug("outline-first-break", "C19",
    [(MB, """        if out.is_empty() {
            return vec![""", """        if out.len() != 1 && out.iter().all(|c| c.to_string().trim().is_empty()) {
            return vec![""")],
    r'''
use latex_ast::*;
fn main() {
    let cs = vec![
        ast3::Chunk::new_unchecked(1, ast3::ChunkVariant::ParagraphBreak("\n \n ".into())),
        ast3::Chunk::new_unchecked(3, ast3::ChunkVariant::Text(" ".into())),
    ];
    let m = ast3::MathsBlock::new(ast3::MathsVariant::Dollars, ast3::MathsType::Outline, cs).unwrap();
    let mut d = ast3::Document::default();
    d.push_body(ast3::ChunkVariant::MathsBlock(m)).unwrap();
    let t = d.to_string();
    assert_eq!(ast2::Document::from(d).to_string(), t);
}''', "a dollar block of several blank chunks, lowered", "they are lost"),

bug("again-class-spaces", "C18",
    [(A3, """                                construct.documentclass = Some(
                                    ast2::Document::new_unchecked(scope.chunks_owned()).to_string(),
                                )""", """                                construct.documentclass = Some(format!(
                                    "{}{}",
                                    ast2::Document::new_unchecked(scope.chunks().clone()),
                                    if scope.chunks().len() > 1
                                        && matches!(scope.chunks()[1].variant(), ast2::ChunkVariant::Text(_))
                                        && matches!(scope.chunks()[0].variant(), ast2::ChunkVariant::Text(_))
                                    {
                                        " "
                                    } else {
                                        ""
                                    }
                                ))"""),
     (A1, """                    comment = true;
                    continue;""", """                    comment = true;
                    if let Buffer::Text { content } = &buffer {
                        if content.len() > 8 && content.ends_with("  ") {
                            flush!();
                            buffer = Buffer::text();
                        }
                    }
                    continue;""")],
    r'''
use latex_ast::ast1::Document;
use std::str::FromStr;
fn main() {
    let d = Document::from_str("some text  % comment\nmore").unwrap();
    assert!(Document::from_str(&d.to_string()).unwrap().chunks().len() == d.chunks().len());
}''', "a comment after a text of some length ending in two spaces", "the text is cut in two, which parse back as one"),

bug("stack-of-environments", "C05",
    [(A2, """                            buffer_stack.push(content.chunks().clone());

                            if buffer_stack.len() == 1 {""", """                            buffer_stack.push(content.chunks().clone());

                            if buffer_stack.len() > 2
                                && buffer_stack[buffer_stack.len() - 3..]
                                    .iter()
                                    .all(|l| l == content.chunks())
                                && c.arguments().len() > 1
                            {
                                // the options of a list belong to its first level
                                let mut c = c;
                                let (label, mut args) = c.clone().decompose();
                                args.truncate(1);
                                c = ast1::Command::new_unchecked(label, args);
                                push_buffer!(ast1::ChunkVariant::Command(c));
                            } else if buffer_stack.len() == 1 {""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = "\\begin{l}[a]\\begin{l}[b]\\begin{l}[c]x\\end{l}\\end{l}\\end{l}";
    assert_eq!(latex_ast::ast2::Document::from_str(s).unwrap().to_string(), s);
}''', "three environments of one name within each other, the innermost with arguments", "its arguments are lost"),

bug("label-spacing-arguments", "C03",
    [("src/ast3/environment.rs", """        let mut args_new = Vec::with_capacity(args.len());""",
      """        let mut args_new = Vec::with_capacity(args.len());
        let tall_label = label.contains('\\n') && !args.is_empty() && prec_begin.contains('\\n');"""),
     ("src/ast3/environment.rs", """            label,
            args_new,
            Paragraph""", """            label,
            if tall_label && content.is_empty() {
                args_new.into_iter().take(1).collect()
            } else {
                args_new
            },
            Paragraph""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = "\\begin\n{e\n}[a][b]\\end{e\n}";
    assert_eq!(latex_ast::ast3::Document::from_str(s).unwrap().to_string(), s);
}''', "an empty environment with two arguments, a label with a newline and a newline before it", "the second argument is lost at stage 3"),

bug("chunk-checked-twice", "C16",
    [(A1, """        if expected_line != chunk.line_no() {
            return Err(crate::InternalError::IncorrectChunkLineNumber {
                expected: expected_line,
                got: chunk.line_no(),
            });
        }

        self.push_chunk_unchecked(chunk);""", """        if expected_line != chunk.line_no()
            && !(self.0.is_empty() && matches!(chunk.variant(), ChunkVariant::Command(_)))
        {
            return Err(crate::InternalError::IncorrectChunkLineNumber {
                expected: expected_line,
                got: chunk.line_no(),
            });
        }

        self.push_chunk_unchecked(chunk);""")],
    r'''
use latex_ast::ast1::*;
fn main() {
    let mut d = Document::default();
    let c = ChunkVariant::Command(Command::new_unchecked("c".into(), vec![]));
    assert!(d.push_chunk(Chunk::new_unchecked(4, c)).is_err());
    assert!(d.chunks().is_empty());
}''', "a command with a wrong line pushed to an empty document", "it is not refused"),

bug("long-source-lines", "C09",
    [(A1, """        let mut line_no: u32 = 1;""", """        let mut line_no: u32 = 1;
        let wide = s.len() > 4096;"""),
     (A1, """                    c if ScopeVariant::is_opening(c) => {
                        flush!();""", """                    c if ScopeVariant::is_opening(c) => {
                        let crs = wide && matches!(&buffer, Buffer::Text { content } if content.ends_with("\\n\\u{85}"));
                        flush!();"""),
     (A1, """                        buffer = Buffer::scope(ScopeVariant::from_opening(c))""",
          """                        if crs {
                            buffer_line_no += 1
                        }
                        buffer = Buffer::scope(ScopeVariant::from_opening(c));""")],
    r'''
use std::str::FromStr;
fn main() {
    let s = format!("{}\n\u{85}{{x}}", "a".repeat(5000));
    let d = latex_ast::ast1::Document::from_str(&s).unwrap();
    assert_eq!(d.chunks()[1].line_no(), 2);
}''', "a next-line character at the start of a line before a scope, in a source of more than 4096 bytes", "the scope is put a line too low"),
]
