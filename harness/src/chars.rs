//! The characters of the specification (spec/Chars.tla) and what stands for
//! them in the real sources.  Apart from the characters the code compares
//! with, a stand-in names a class, of which several members are used: which
//! ones is chosen by a number, 0 being the ones named in Chars.tla.

#[derive(Clone, Copy)]
pub struct Concrete {
    wide_space: char,
    vtab: char,
    accent: char,
    symbol: char,
    neutral: char,
    letter: char,
    digit: char,
}

const WIDE: [char; 7] = ['\u{3000}', '\u{2003}', '\u{2028}', '\u{1680}', '\u{205F}', '\u{85}', '\u{a0}'];
const VT: [char; 3] = ['\u{b}', '\u{c}', '\u{b}'];
const ACCENT: [char; 6] = ['\u{e9}', '\u{df}', '\u{3bb}', '\u{416}', '\u{5d0}', '\u{4e2d}'];
const SYMBOL: [char; 7] =
    ['\u{1F600}', '\u{1D400}', '\u{20000}', '\u{10FFFF}', '\u{10000}', '\u{200b}', '\u{feff}'];
const NEUTRAL: [char; 16] = [
    '#', '_', '^', '~', '/', '`', '\'', '>', '!', '|', ';', '\0', '\u{1}', '\u{7f}', '<', '?',
];
const LETTER: [char; 3] = ['Z', 'A', 'Q'];
const DIGIT: [char; 4] = ['1', '0', '9', '5'];

/// A run of the specification, and the characters it is a run of
pub const RUN: usize = 65536;
const RUNS: [(char, char); 3] = [('@', '\n'), (':', ' '), ('.', 'w')];

pub const VARIANTS: u64 = 336;
pub const STAND_INS: &str = "^'!|#Z1";

impl Concrete {
    pub fn new(k: u64) -> Self {
        let k = (k % VARIANTS) as usize;
        Self {
            wide_space: WIDE[k % 7],
            vtab: VT[k % 3],
            accent: ACCENT[k % 6],
            symbol: SYMBOL[k % 7],
            neutral: NEUTRAL[k % 16],
            letter: LETTER[k % 3],
            digit: DIGIT[k % 4],
        }
    }
    pub fn decode_char(&self, c: char) -> char {
        match c {
            '/' => '\\',
            '~' => '\n',
            '_' => ' ',
            '`' => '\t',
            '>' => '\r',
            '^' => self.wide_space,
            '\'' => self.vtab,
            '!' => self.accent,
            '|' => self.symbol,
            '#' => self.neutral,
            'Z' => self.letter,
            '1' => self.digit,
            c => c,
        }
    }
    pub fn encode_char(&self, c: char) -> char {
        match c {
            '\\' => '/',
            '\n' => '~',
            ' ' => '_',
            '\t' => '`',
            '\r' => '>',
            c if c == self.wide_space => '^',
            c if c == self.vtab => '\'',
            c if c == self.accent => '!',
            c if c == self.symbol => '|',
            c if c == self.neutral => '#',
            c if c == self.letter => 'Z',
            c if c == self.digit => '1',
            c => c,
        }
    }
    pub fn decode(&self, s: &str) -> String {
        let mut out = String::with_capacity(s.len());
        for c in s.chars() {
            match RUNS.iter().find(|r| r.0 == c) {
                Some((_, x)) => out.extend(std::iter::repeat_n(*x, RUN)),
                None => out.push(self.decode_char(c)),
            }
        }
        out
    }
    pub fn encode(&self, s: &str) -> String {
        if s.len() < RUN {
            return s.chars().map(|c| self.encode_char(c)).collect();
        }
        // a stretch of a character is as many runs as there are in it, and the rest
        let mut out = String::new();
        let mut cs = s.chars().peekable();
        while let Some(c) = cs.next() {
            let Some((run, _)) = RUNS.iter().find(|r| r.1 == c) else {
                out.push(self.encode_char(c));
                continue;
            };
            let mut n = 1;
            while cs.next_if_eq(&c).is_some() {
                n += 1
            }
            out.extend(std::iter::repeat_n(*run, n / RUN));
            out.extend(std::iter::repeat_n(self.encode_char(c), n % RUN));
        }
        out
    }
}

/// A real text as one of the specification: characters that are not in its
/// alphabet become members of their class
pub fn of_text(s: &str) -> String {
    let c = Concrete::new(0);
    s.chars()
        .map(|x| match x {
            '_' | '~' | '`' | '^' | '\'' | '>' | '/' | '!' | '|' | '@' | ':' | '.' => '#',
            x if x.is_ascii() => c.encode_char(x),
            x if x.is_whitespace() => '^',
            x if x.is_alphabetic() => '!',
            _ => '|',
        })
        .collect()
}
