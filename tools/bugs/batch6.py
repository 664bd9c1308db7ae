D1 = "src/ast1/document.rs"
D2 = "src/ast2/document.rs"
D3 = "src/ast3/document.rs"
C1 = "src/ast1/chunk.rs"
C2 = "src/ast2/chunk.rs"
C3 = "src/ast3/chunk.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("chunk-checked-once", "C24",
    [(C1, """#[derive(Clone)]
#[cfg_attr(feature = "debug", derive(Debug))]
#[cfg_attr(feature = "eq", derive(PartialEq, Eq))]
pub struct Chunk {
    line_no: u32,
    variant: ChunkVariant,
}
""", """#[derive(Clone)]
#[cfg_attr(feature = "debug", derive(Debug))]
pub struct Chunk {
    line_no: u32,
    variant: ChunkVariant,
    checked: bool,
}

#[cfg(feature = "eq")]
impl PartialEq for Chunk {
    fn eq(&self, other: &Self) -> bool {
        self.line_no == other.line_no && self.variant == other.variant
    }
}

#[cfg(feature = "eq")]
impl Eq for Chunk {}
"""), (C1, """        let out = Self { line_no, variant };
        out.validate()?;
        Ok(out)""", """        let mut out = Self::new_unchecked(line_no, variant);
        out.validate()?;
        out.checked = true;
        Ok(out)"""), (C1, """        Self { line_no, variant }
    }
""", """        Self {
            line_no,
            variant,
            checked: false,
        }
    }
"""), (C1, """        self.variant.validate()""", """        if self.checked {
            return Ok(());
        }
        self.variant.validate()""")],
    r'''
use latex_ast::{ast1::*, traits::Validate};
fn main() {
    let mut chunk = Chunk::new(1, ChunkVariant::Text("a".into())).unwrap();
    *chunk.variant_mut() = ChunkVariant::Text("a%b".into());
    assert!(chunk.validate().is_err());
    assert!(Document::new(vec![chunk]).is_err());
}''', "a chunk built by the checking constructor and then changed through variant_mut to something invalid",
    "it is still taken for valid"),

bug("count-from-last", "C24",
    [(D2, """        self.chunks()
            .iter()
            .map(|chunk| chunk.lines() - 1)
            .sum::<u32>()
            + 1
    }
}
""", """        // the last chunk ends where the document does
        self.chunks()
            .last()
            .map(|last| last.line_no() + last.lines() - 1)
            .unwrap_or(1)
    }
}
""")],
    r'''
use latex_ast::{ast2::*, traits::Lines};
use std::str::FromStr;
fn main() {
    let mut chunks = Document::from_str("a\n{b}c").unwrap().chunks_owned();
    if let ChunkVariant::Text(s) = chunks[0].variant_mut() {
        s.push('\n');
    }
    let d = Document::new_unchecked(chunks);
    assert_eq!(d.lines(), 3, "{d}");
}''', "a stage 2 document of several chunks, of which one other than the last has its text changed",
    "its line count is what it was"),

bug("chunk-lines-kept", "C24",
    [(C3, """    line_no: u32,
    variant: ChunkVariant,
}

impl Chunk {""", """    line_no: u32,
    variant: ChunkVariant,
    lines: u32,
}

impl Chunk {"""), (C3, """        let out = Self { line_no, variant };
        out.validate()?;""", """        let out = Self::new_unchecked(line_no, variant);
        out.validate()?;"""), (C3, """        Self { line_no, variant }
    }
""", """        let lines = variant.lines();
        Self {
            line_no,
            variant,
            lines,
        }
    }
"""), (C3, """        self.variant.lines()""", """        self.lines"""),
     (D3, """                if let ChunkVariant::Text(last_s) = last.variant_mut() {
                    last_s.push_str(s);
                    return;
                }""", """                if let ChunkVariant::Text(last_s) = last.variant() {
                    let merged = ChunkVariant::Text(format!("{last_s}{s}"));
                    *last = Chunk::new_unchecked(last.line_no(), merged);
                    return;
                }""")],
    r'''
use latex_ast::{ast3::*, traits::Lines};
use std::str::FromStr;
fn main() {
    let (class, options, mut preamble, body, args, p, q, trailing) = Document::from_str("a\n{b}c").unwrap().decompose();
    if let ChunkVariant::Text(s) = preamble[0].variant_mut() {
        s.push('\n');
    }
    let d = Document::new_unchecked(preamble, class, options, body, args, p, q, trailing);
    assert_eq!(d.lines(), 3 + 0, "{d}");
    assert_eq!(d.chunks_preamable()[0].lines(), 3);
}''', "a stage 3 chunk whose text is changed through variant_mut",
    "its lines are those it had when it was made"),

bug("push-line-from-count", "C24",
    [(D1, """        let line_no = self
            .chunks()
            .last()
            .map(|last| last.line_no() + last.lines() - 1)
            .unwrap_or(1);
        self.push_chunk_unchecked(Chunk::new_unchecked(line_no, variant));""", """        let line_no = self.lines();
        self.push_chunk_unchecked(Chunk::new_unchecked(line_no, variant));""")],
    r'''
use latex_ast::{ast1::*, traits::Lines};
use std::str::FromStr;
fn main() {
    let mut chunks = Document::from_str("a\n\n{b}").unwrap().chunks_owned();
    chunks.remove(0);
    let mut d = Document::new_unchecked(chunks);
    assert_eq!(d.lines(), 1);
    d.push(ChunkVariant::Text("c".into())).unwrap();
    assert_eq!(d.chunks()[1].line_no(), 3);
}''', "a stage 1 document from which a chunk of several lines was taken out, pushed to",
    "the part pushed is not on the line after the last chunk's"),

]
