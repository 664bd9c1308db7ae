//! Reads the Debug form of a maths block.  Struct fields are told apart by
//! the type of their value wherever that suffices, by name otherwise.
use crate::real::enc;
use crate::tree::*;

#[derive(Debug)]
enum D {
    Num(i64),
    Str(String),
    List(Vec<D>),
    Tuple(String, Vec<D>),
    Struct(String, Vec<(String, D)>),
    Name(String),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len()
            && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'#')
        {
            self.i += 1
        }
        String::from_utf8(self.s[st..self.i].to_vec()).unwrap()
    }
    fn list(&mut self, close: u8) -> Result<Vec<D>, String> {
        let mut v = Vec::new();
        loop {
            if self.eat(close) {
                return Ok(v);
            }
            v.push(self.value()?);
            self.eat(b',');
        }
    }
    fn string(&mut self) -> Result<String, String> {
        let rest = std::str::from_utf8(&self.s[self.i..]).map_err(|e| e.to_string())?;
        let mut out = String::new();
        let mut it = rest.char_indices().skip(1);
        while let Some((k, c)) = it.next() {
            match c {
                '"' => {
                    self.i += k + 1;
                    return Ok(out);
                }
                '\\' => match it.next().map(|x| x.1) {
                    Some('n') => out.push('\n'),
                    Some('r') => out.push('\r'),
                    Some('t') => out.push('\t'),
                    Some('0') => out.push('\0'),
                    Some('u') => {
                        let mut h = String::new();
                        it.next();
                        for (_, c) in it.by_ref() {
                            if c == '}' {
                                break;
                            }
                            h.push(c)
                        }
                        out.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("escape")?)
                    }
                    Some(c) => out.push(c),
                    None => return Err("escape".into()),
                },
                c => out.push(c),
            }
        }
        Err("string".into())
    }
    fn value(&mut self) -> Result<D, String> {
        self.ws();
        match self.s.get(self.i) {
            None => Err("end".into()),
            Some(b'[') => {
                self.i += 1;
                Ok(D::List(self.list(b']')?))
            }
            Some(b'(') => {
                self.i += 1;
                Ok(D::Tuple(String::new(), self.list(b')')?))
            }
            Some(b'"') => Ok(D::Str(self.string()?)),
            Some(c) if c.is_ascii_digit() => {
                let n = self.name();
                n.parse().map(D::Num).map_err(|_| n)
            }
            Some(_) => {
                let n = self.name();
                if n.is_empty() {
                    return Err(format!("unexpected byte at {}", self.i));
                }
                if self.eat(b'(') {
                    return Ok(D::Tuple(n, self.list(b')')?));
                }
                if self.eat(b'{') {
                    let mut v = Vec::new();
                    loop {
                        if self.eat(b'}') {
                            return Ok(D::Struct(n, v));
                        }
                        self.ws();
                        let f = self.name();
                        if !self.eat(b':') {
                            return Err("field".into());
                        }
                        v.push((f, self.value()?));
                        self.eat(b',');
                    }
                }
                Ok(D::Name(n))
            }
        }
    }
}

type R<T> = Result<T, String>;

fn fields(d: &D) -> R<&Vec<(String, D)>> {
    match d {
        D::Struct(_, f) => Ok(f),
        d => Err(format!("struct expected: {d:?}")),
    }
}
fn find<'a, T>(f: &'a [(String, D)], name: &str, pick: impl Fn(&'a D) -> Option<T>) -> R<T> {
    let all: Vec<(&str, T)> =
        f.iter().filter_map(|(n, d)| pick(d).map(|t| (n.trim_start_matches("r#"), t))).collect();
    let one = all.len() == 1;
    all.into_iter().find(|(n, _)| one || *n == name).map(|x| x.1).ok_or(format!("no field {name}"))
}
fn text(d: &D) -> Option<&String> {
    match d {
        D::Str(s) => Some(s),
        _ => None,
    }
}
fn list(d: &D) -> Option<&Vec<D>> {
    match d {
        D::List(s) => Some(s),
        _ => None,
    }
}
fn word<'a>(d: &'a D, of: &[&str]) -> Option<&'a str> {
    match d {
        D::Name(s) if of.contains(&s.as_str()) => Some(s),
        _ => None,
    }
}
fn chunks(d: &[D]) -> R<Vec<Ch>> {
    d.iter().map(chunk).collect()
}
fn chunk(d: &D) -> R<Ch> {
    let f = fields(d)?;
    let l = find(f, "line_no", |d| if let D::Num(n) = d { Some(*n) } else { None })?;
    let (n, v) = find(f, "variant", |d| if let D::Tuple(n, v) = d { Some((n, v)) } else { None })?;
    let x = v.first().ok_or("empty variant")?;
    let k = match n.as_str() {
        "Text" => K::T(enc(text(x).ok_or("text")?)),
        "ParagraphBreak" => K::P(enc(text(x).ok_or("text")?)),
        "MathsBlock" => block(x)?,
        "Command" => {
            let f = fields(x)?;
            K::C { n: enc(find(f, "label", text)?), a: args(find(f, "arguments", list)?)? }
        }
        "Scope" => {
            let (v, c) = scope(x)?;
            K::S { v, c }
        }
        "Environment" => {
            let f = fields(x)?;
            // fields of other names are told by their order and what they hold
            let strings: Vec<&String> = f.iter().filter_map(|(_, d)| text(d)).collect();
            let at = |name: &str, i: usize| {
                find(f, name, text).or_else(|e| strings.get(i).copied().filter(|_| strings.len() == 3).ok_or(e))
            };
            let held = |of_args: bool| {
                f.iter().filter_map(|(_, d)| list(d)).find(|l| matches!(l.first(), Some(D::Tuple(..))) == of_args && !l.is_empty())
            };
            let none = Vec::new();
            K::E {
                n: enc(at("label", 0)?),
                a: args(held(true).unwrap_or(&none))?,
                c: chunks(held(false).unwrap_or(&none))?,
                p: enc(at("prec_begin", 1)?),
                q: enc(at("prec_end", 2)?),
            }
        }
        n => return Err(format!("variant {n}")),
    };
    Ok(Ch { l, k })
}
fn scope(d: &D) -> R<(char, Vec<Ch>)> {
    let f = fields(d)?;
    let v = match find(f, "variant", |d| word(d, &["Curly", "Round", "Square"]))? {
        "Curly" => '{',
        "Round" => '(',
        _ => '[',
    };
    Ok((v, chunks(find(f, "chunks", list)?)?))
}
fn args(d: &[D]) -> R<Vec<Arg>> {
    d.iter()
        .map(|a| match a {
            D::Tuple(_, v) if v.len() == 2 => {
                let (v2, c) = scope(&v[1])?;
                Ok(Arg { p: enc(text(&v[0]).ok_or("text")?), v: v2, c })
            }
            d => Err(format!("argument {d:?}")),
        })
        .collect()
}
fn block(d: &D) -> R<K> {
    let f = fields(d)?;
    Ok(K::M {
        v: if find(f, "variant", |d| word(d, &["Brackets", "Dollars"]))? == "Brackets" { 'B' } else { 'D' },
        t: if find(f, "type", |d| word(d, &["Inline", "Outline"]))? == "Inline" { 'I' } else { 'O' },
        c: chunks(find(f, "content", list)?)?,
    })
}

pub fn maths(s: &str) -> R<K> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let d = p.value()?;
    block(&d)
}
