D1 = "src/ast1/document.rs"
D2 = "src/ast2/document.rs"
D3 = "src/ast3/document.rs"
PA = "src/ast3/paragraph.rs"

def bug(id, prop, edits, demo, needs, breaks):
    return dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)

BUGS = [
bug("last-source-kept", "C25",
    [(D2, """        Self::try_from(ast1::Document::from_str(s)?)
    }""", """        // editors parse the same source again and again
        static LAST: std::sync::Mutex<Option<(usize, String, Document)>> = std::sync::Mutex::new(None);
        let key: String = s.chars().take(48).chain(s.chars().rev().take(48)).collect();
        if let Some((len, k, document)) = LAST.lock().unwrap().as_ref() {
            if *len == s.len() && *k == key {
                return Ok(document.clone());
            }
        }
        let document = Self::try_from(ast1::Document::from_str(s)?)?;
        *LAST.lock().unwrap() = Some((s.len(), key, document.clone()));
        Ok(document)
    }""")],
    r'''
use latex_ast::ast2::Document;
use std::str::FromStr;
fn main() {
    let words = "words that a line of a document may well have, and more";
    for m in ["x", "y"] {
        let src = format!("{words}{m}{words}");
        assert_eq!(Document::from_str(&src).unwrap().to_string(), src);
    }
}''', "a source of more than 96 characters parsed right after one of the same length that differs in the middle only", "the document of the other source is returned"),

bug("stack-given-back", "C25",
    [(D2, """        let mut buffer_stack = Vec::new();
""", """        // the stack is given back at the end, for its capacity
        thread_local! {
            static SPARE: std::cell::RefCell<Vec<Vec<ast1::Chunk>>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        struct Lent(Vec<Vec<ast1::Chunk>>);
        impl std::ops::Deref for Lent {
            type Target = Vec<Vec<ast1::Chunk>>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl std::ops::DerefMut for Lent {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl Drop for Lent {
            fn drop(&mut self) {
                self.0.truncate(8);
                SPARE.with(|s| *s.borrow_mut() = mem::take(&mut self.0));
            }
        }
        let mut buffer_stack = Lent(SPARE.with(|s| mem::take(&mut *s.borrow_mut())));
""")],
    r'''
use latex_ast::ast2::Document;
use std::str::FromStr;
fn main() {
    assert!(Document::from_str("\\begin{e}x").is_err());
    assert!(Document::from_str("x").is_ok());
}''', "a source refused for an environment left open, before another on the same thread", "the other source is refused too"),

bug("validated-once", "C25",
    [(D1, """    fn validate(&self) -> Result<(), crate::InternalError> {
        let mut expected_line = 1;

        for chunk in self.0.iter() {""", """    fn validate(&self) -> Result<(), crate::InternalError> {
        // documents are often validated again and again
        thread_local! {
            static VALID: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
        }
        let this = (self.0.as_ptr() as usize, self.0.len());
        if VALID.replace((0, 0)) == this {
            VALID.set(this);
            return Ok(());
        }
        let mut expected_line = 1;

        for chunk in self.chunks() {"""), (D1, """            expected_line += chunk.lines() - 1;
        }

        Ok(())
    }
}

impl Lines for Document {""", """            expected_line += chunk.lines() - 1;
        }

        VALID.set(this);
        Ok(())
    }
}

impl Lines for Document {""")],
    r'''
use latex_ast::{ast1::*, traits::Validate};
fn main() {
    let mut d = Document::default();
    d.push_unchecked(ChunkVariant::Text("a".into()));
    assert!(d.validate().is_ok());
    d.push_unchecked(ChunkVariant::Text("%".into()));
    assert!(d.validate().is_err());
}''', "a document validated, changed to be invalid without a chunk more, and validated again (or another one in its place in memory)", "it is told valid"),

bug("break-line-shared", "C25",
    [(PA, """            let mut buffer_line = chunk.line_no();
""", """            // line of the last newline
            static BUFFER_LINE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
            let mut buffer_line = chunk.line_no();
            BUFFER_LINE.store(buffer_line, std::sync::atomic::Ordering::SeqCst);
"""), (PA, """                            if consec_newlines == 0 {
                                buffer_line = line_no;
                            }
""", """                            if consec_newlines == 0 {
                                buffer_line = line_no;
                                BUFFER_LINE.store(line_no, std::sync::atomic::Ordering::SeqCst);
                            }
"""), (PA, """                if !buffer.is_empty() {
                    if consec_newlines > 1 {
                        new.push(Chunk::new_unchecked(
                            buffer_line,
""", """                if !buffer.is_empty() {
                    if consec_newlines > 1 {
                        new.push(Chunk::new_unchecked(
                            BUFFER_LINE.load(std::sync::atomic::Ordering::SeqCst),
""")],
    r'''
use latex_ast::ast3::Document;
use std::str::FromStr;
fn main() {
    let hs: Vec<_> = (0..8)
        .map(|t| {
            std::thread::spawn(move || {
                let src = format!("{}x\n\n{}", "\n".repeat(t), " ".repeat(2000));
                let first = t as u32 + 1;
                (0..20_000).all(|_| {
                    let d = Document::from_str(&src).unwrap();
                    d.chunks_preamable().last().unwrap().line_no() == first || t > 0
                })
            })
        })
        .collect();
    assert!(hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>().into_iter().all(|x| x));
}''', "several threads parsing at once, one of them a text that ends with a paragraph break", "the break is put on a line of another thread's document"),

bug("last-line-kept", "C25",
    [(D2, """    pub fn push_unchecked(&mut self, variant: ChunkVariant) {
        let line_no = self
            .chunks()
            .last()
            .map(|last| last.line_no() + last.lines() - 1)
            .unwrap_or(1);
        self.push_chunk_unchecked(Chunk::new_unchecked(line_no, variant));
    }""", """    pub fn push_unchecked(&mut self, variant: ChunkVariant) {
        // where the last push ended, as counting lines takes longer the longer the chunk
        thread_local! {
            static LAST: std::cell::Cell<(usize, usize, u32)> = const { std::cell::Cell::new((0, 0, 0)) };
        }
        let (at, len, line) = LAST.get();
        let line_no = if at == self as *const Self as usize && len == self.0.len() && len > 0 {
            line
        } else {
            self.chunks()
                .last()
                .map(|last| last.line_no() + last.lines() - 1)
                .unwrap_or(1)
        };
        let line = line_no + variant.lines() - 1;
        self.push_chunk_unchecked(Chunk::new_unchecked(line_no, variant));
        LAST.set((self as *const Self as usize, self.0.len(), line));
    }""")],
    r'''
use latex_ast::ast2::*;
use std::str::FromStr;
fn main() {
    let command = || ChunkVariant::Command(Command::new("c".into(), vec![]).unwrap());
    let mut d = Document::default();
    d.push(command()).unwrap();
    d = Document::from_str("\n\n").unwrap();
    d.push(command()).unwrap();
    assert_eq!(d.chunks()[1].line_no(), 3);
}''', "a document pushed to, replaced by another with as many chunks, and pushed to", "the line is that of the document that was there before"),
]
