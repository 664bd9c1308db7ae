//! Several documents, called on from several threads (Calls.tla), and the
//! same calls made alone in a process of their own.
use crate::built::{problems_of, Doc};
use crate::gen::{self, Rng};
use crate::json::{obj, s, J};
use crate::life::{self, Saw, Why};
use crate::real::*;
use crate::record::problem_to;
use crate::replay::{bad, Bad};
use crate::tree::*;
use latex_ast::{ast1, ast2, ast3};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};

/// A call as the specification has it
#[derive(Clone)]
pub struct Call {
    pub o: String,
    pub h: usize,
    pub from: usize,
    pub g: i64,
    pub src: String,
    pub sec: String,
    pub x: Ch,
    pub at: usize,
}
impl Call {
    pub fn of(j: &J) -> Call {
        Call {
            o: j.get("o").str().into(),
            h: j.get("h").num() as usize - 1,
            from: j.get("from").num() as usize - 1,
            g: j.get("g").num(),
            src: text_of(j.get("s")),
            sec: j.get("sec").str().into(),
            x: chunk_of(j.get("x")),
            at: j.get("at").num() as usize,
        }
    }
    pub fn json(&self) -> J {
        obj(vec![
            ("o", s(&self.o)),
            ("h", J::Num(self.h as i64 + 1)),
            ("from", J::Num(self.from as i64 + 1)),
            ("g", J::Num(self.g)),
            ("s", text_to(&self.src)),
            ("sec", s(&self.sec)),
            ("x", chunk_to(&self.x)),
            ("at", J::Num(self.at as i64)),
        ])
    }
    pub fn parse(g: i64, src: &str) -> Call {
        Call {
            o: "parse".into(),
            h: 0,
            from: 0,
            g,
            src: src.into(),
            sec: "pre".into(),
            x: Ch { l: 1, k: K::T(String::new()) },
            at: 1,
        }
    }
}

pub fn empty() -> Doc {
    Doc::One(ast1::Document::default())
}
fn clone(d: &Doc) -> Doc {
    match d {
        Doc::One(d) => Doc::One(d.clone()),
        Doc::Two(d) => Doc::Two(d.clone()),
        Doc::Three(d) => Doc::Three(d.clone()),
    }
}
/// Makes a call on document d
fn call(d: &mut Doc, from: Option<&Doc>, c: &Call) -> Result<(), Why> {
    match c.o.as_str() {
        "parse" => match life::parse(c.g, &dec(&c.src)) {
            Res::Ok(n) => {
                *d = n;
                Ok(())
            }
            Res::Panic(p) => Err(Why::Panic(p)),
            Res::Err { line, kind, arg } => Err(Why::Error(Res::Err { line, kind, arg })),
        },
        "copy" => match guard(|| clone(from.unwrap())) {
            Ok(n) => {
                *d = n;
                Ok(())
            }
            Err(p) => Err(Why::Panic(p)),
        },
        "look" => look(d).map(|_| ()).map_err(Why::Panic),
        o => life::deed(d, o, &c.sec, c.at, &c.x),
    }
}
/// All that is told of a document
#[derive(PartialEq, Clone, Debug)]
pub struct Look {
    g: i64,
    d: Saw,
    text: String,
    lines: i64,
    verdict: Verdict,
    same: bool,
}
impl Look {
    fn of(j: &J) -> Look {
        let g = j.get("g").num();
        Look {
            g,
            d: Saw::of(g, j.get("d")),
            text: text_of(j.get("text")),
            lines: j.get("lines").num(),
            verdict: problems_of(j.get("verdict")).pop(),
            same: true,
        }
    }
    pub fn json(&self) -> J {
        obj(vec![
            ("g", J::Num(self.g)),
            ("d", self.d.json()),
            ("text", text_to(&self.text)),
            ("lines", J::Num(self.lines)),
            ("verdict", J::Arr(self.verdict.iter().map(problem_to).collect())),
            ("same", J::Num(self.same as i64)),
        ])
    }
}
/// Told by a document (by reference only, as another thread may be told too)
pub fn look(d: &Doc) -> Result<Look, String> {
    guard(|| {
        let text = enc(&d.text());
        let d1 = life::see(d);
        let (lines, verdict, same) = life::derived(d).unwrap_or_else(|p| panic!("{p}"));
        Look { g: life::stage(d), d: d1, text, lines, verdict, same }
    })
}
pub fn why_json(r: &Result<(), Why>) -> J {
    J::Arr(r.as_ref().err().iter().map(|w| w.json()).collect())
}
/// What a call gave: why it was refused, and the document it was made on
/// (a refused source has none)
pub fn outcome(c: &Call, d: &Doc, r: &Result<(), Why>) -> J {
    let mut v = vec![("why", why_json(r))];
    if !(c.o == "parse" && r.is_err()) {
        v.push(("doc", look(d).map(|l| l.json()).unwrap_or_else(|p| s(&p))))
    }
    obj(v)
}

// ------------------------------------------------------------------- threads

struct Job {
    call: *const Call,
    doc: *mut Doc,
    from: *const Doc,
    members: (u64, bool),
    /// calls at once start together
    gate: Option<(Arc<AtomicUsize>, usize)>,
}
// what is pointed to outlives the job, and no other job made at the same
// time changes it (Calls.tla: Apart); that documents may go from thread to
// thread is asked of the compiler (portable)
unsafe impl Send for Job {}
struct Given(Result<(), Why>);
unsafe impl Send for Given {}

/// Two threads that live on from history to history
struct Pair(Vec<(Sender<Job>, Receiver<Given>)>);
impl Pair {
    fn new() -> Pair {
        let worker = || {
            let (to, jobs) = channel::<Job>();
            let (give, given) = channel();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut now = None;
                    for j in jobs {
                        if now != Some(j.members) {
                            set_concrete(j.members.0);
                            set_checked(j.members.1);
                            now = Some(j.members)
                        }
                        if let Some((gate, n)) = &j.gate {
                            gate.fetch_add(1, Ordering::SeqCst);
                            while gate.load(Ordering::SeqCst) < *n {
                                std::hint::spin_loop()
                            }
                        }
                        let (c, d) = unsafe { (&*j.call, j.doc) };
                        let r = unsafe {
                            match c.o.as_str() {
                                "look" => look(&*d).map(|_| ()).map_err(Why::Panic),
                                _ => call(&mut *d, j.from.as_ref(), c),
                            }
                        };
                        if give.send(Given(r)).is_err() {
                            return;
                        }
                    }
                })
                .unwrap();
            (to, given)
        };
        Pair(vec![worker(), worker()])
    }
    /// Makes calls at once, each by its thread
    fn step(&self, docs: &mut [Doc], calls: &[(usize, Call)], members: (u64, bool)) -> Vec<Result<(), Why>> {
        let base = docs.as_mut_ptr();
        let gate = (calls.len() > 1).then(|| (Arc::new(AtomicUsize::new(0)), calls.len()));
        for (t, c) in calls {
            assert!(c.h < docs.len() && c.from < docs.len());
            let job = Job {
                call: c,
                doc: unsafe { base.add(c.h) },
                from: if c.o == "copy" { unsafe { base.add(c.from) } } else { std::ptr::null() },
                members,
                gate: gate.clone(),
            };
            self.0[*t].0.send(job).unwrap_or_else(|_| tool_error("a thread is gone"))
        }
        calls.iter().map(|(t, _)| self.0[*t].1.recv().unwrap_or_else(|_| tool_error("a thread is gone")).0).collect()
    }
}
thread_local! {
    static PAIR: Pair = Pair::new();
}
pub fn step(docs: &mut [Doc], calls: &[(usize, Call)], members: (u64, bool)) -> Vec<Result<(), Why>> {
    PAIR.with(|p| p.step(docs, calls, members))
}

/// Whether documents and parts may be handed to, and seen by, other threads
pub fn portable() -> Option<Bad> {
    struct Probe<T>(std::marker::PhantomData<T>);
    #[allow(dead_code)]
    trait Not {
        fn send(&self) -> bool {
            false
        }
    }
    impl<T> Not for Probe<T> {}
    impl<T: Send + Sync + 'static> Probe<T> {
        fn send(&self) -> bool {
            true
        }
    }
    macro_rules! ask {
        ($($t:ty),* $(,)?) => {
            [$((stringify!($t), Probe::<$t>(std::marker::PhantomData).send())),*]
        };
    }
    let asked = ask![
        ast1::Document, ast1::Chunk, ast1::ChunkVariant, ast1::Scope, ast1::Command, ast1::ScopeVariant,
        ast2::Document, ast2::Chunk, ast2::ChunkVariant, ast2::Scope, ast2::Command, ast2::Environment,
        ast3::Document, ast3::Chunk, ast3::ChunkVariant, ast3::Scope, ast3::Command, ast3::Environment,
        ast3::MathsBlock, ast3::Paragraph, latex_ast::Error, latex_ast::InternalError,
    ];
    let not: Vec<_> = asked.iter().filter(|a| !a.1).map(|a| a.0).collect();
    if not.is_empty() {
        return None;
    }
    bad("documents can be used by any thread", "Send and Sync", format!("not so: {not:?}"))
}

// --------------------------------------------------------------------- alone

/// The calls made on one document, in a new process, and what the last gave
pub fn alone(calls: &[Call], members: (u64, bool)) -> J {
    let ask = obj(vec![
        ("members", J::Num(members.0 as i64)),
        ("checked", J::Bool(members.1)),
        ("calls", J::Arr(calls.iter().map(Call::json).collect())),
    ]);
    let mut p = Command::new("/proc/self/exe")
        .arg("alone")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| tool_error(&format!("no process: {e}")));
    p.stdin.take().unwrap().write_all(ask.text().as_bytes()).unwrap();
    let out = p.wait_with_output().unwrap();
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if !out.status.success() {
        return s(&format!("ended with {}", out.status));
    }
    J::parse(text.trim()).unwrap_or_else(|e| tool_error(&format!("{e}: {text}")))
}
/// The new process
pub fn be_alone() {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let j = J::parse(&text).unwrap_or_else(|e| tool_error(&e));
    let given = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            set_concrete(j.get("members").num() as u64);
            set_checked(j.get("checked").bool());
            let calls: Vec<Call> = j.get("calls").arr().iter().map(Call::of).collect();
            let mut d = empty();
            let mut r = Ok(());
            for c in &calls {
                r = call(&mut d, None, c)
            }
            outcome(calls.last().unwrap(), &d, &r).text()
        })
        .unwrap()
        .join()
        .unwrap();
    println!("{given}")
}

/// What was called on each document since it was parsed, refusals left out,
/// clones counted as what they are clones of
pub struct Lines(Vec<Vec<Call>>);
impl Lines {
    pub fn new(n: usize) -> Lines {
        Lines(vec![Vec::new(); n])
    }
    /// The calls that lead to the outcome of c, before it is counted
    pub fn to(&self, c: &Call) -> Vec<Call> {
        let mut v = match c.o.as_str() {
            "parse" => Vec::new(),
            "copy" => self.0[c.from].clone(),
            _ => self.0[c.h].clone(),
        };
        let mut c = c.clone();
        if c.o == "copy" {
            c.o = "look".into()
        }
        (c.h, c.from) = (0, 0);
        v.push(c);
        v
    }
    pub fn count(&mut self, c: &Call, refused: bool) {
        if !refused {
            self.0[c.h] = self.to(c)
        }
    }
}

// -------------------------------------------------------------------- replay

fn steps_of(j: &J) -> Vec<Vec<(usize, Call)>> {
    j.get("steps")
        .arr()
        .iter()
        .map(|cs| cs.arr().iter().map(|c| (c.get("t").num() as usize - 1, Call::of(c))).collect())
        .collect()
}
fn firsts_of(j: &J) -> Vec<Call> {
    j.get("first").arr().iter().map(|f| Call::parse(f.get("g").num(), &text_of(f.get("s")))).collect()
}
/// Does what came of a call fit what the specification has come of it
fn fits(r: &Result<(), Why>, want: &J) -> bool {
    match r {
        Ok(()) => want.arr().is_empty(),
        Err(w) => !want.arr().is_empty() && w.among(want),
    }
}

/// Is the outcome of a call also that of the same call made alone: what is
/// wrong by itself is no matter of C25
fn same_alone(line: &[Call], members: (u64, bool), given: &J) -> Option<String> {
    let a = alone(line, members);
    (a.text() != given.text()).then(|| a.text())
}

/// C25: one history, given with the documents it should lead to
pub fn check_calls(j: &J, conc: u64, own: bool) -> Option<Bad> {
    set_concrete(conc);
    let members = (conc, checked());
    let firsts = firsts_of(j);
    let mut docs: Vec<Doc> = Vec::new();
    let mut lines = Lines::new(firsts.len());
    for (h, f) in firsts.iter().enumerate() {
        let mut d = empty();
        if call(&mut d, None, f).is_err() {
            // whether it is accepted is other properties' concern
            let why = outcome(f, &d, &call(&mut empty(), None, f));
            return same_alone(std::slice::from_ref(f), members, &why)
                .and_then(|a| bad("what it starts with", a, why.text()));
        }
        docs.push(d);
        let mut f = f.clone();
        f.h = h;
        lines.count(&f, false)
    }
    let steps = steps_of(j);
    for (i, calls) in steps.iter().enumerate() {
        let given = step(&mut docs, calls, members);
        let before: Vec<Vec<Call>> = calls.iter().map(|(_, c)| lines.to(c)).collect();
        for (n, ((_, c), r)) in calls.iter().zip(&given).enumerate() {
            let want = j.get("steps").arr()[i].arr()[n].get("why");
            if !fits(r, want) {
                let got = obj(vec![("why", why_json(r))]);
                let a = alone(&before[n], members);
                if a.get("why").text() != got.get("why").text() {
                    let what = format!("{} {} on document {} after {i} steps", c.o, c.src, c.h + 1);
                    return bad(&what, a.text(), got.text());
                }
                return None;
            }
        }
        for ((_, c), r) in calls.iter().zip(&given) {
            lines.count(c, r.is_err() || c.o == "look")
        }
    }
    for (h, d) in docs.iter().enumerate() {
        let got = look(d);
        let want = Look::of(&j.get("docs").arr()[h]);
        if own || got.as_ref() != Ok(&want) {
            // what is called on it alone, and looked at in the end
            let mut l = lines.0[h].clone();
            l.push(Call { o: "look".into(), ..Call::parse(1, "") });
            let given = obj(vec![("why", J::Arr(vec![])), ("doc", got.map(|l| l.json()).unwrap_or_else(|p| s(&p)))]);
            if let Some(a) = same_alone(&l, members, &given) {
                return bad(&format!("document {} after all this", h + 1), a, given.text());
            }
        }
    }
    None
}

// ---------------------------------------------------------------------- soak

/// A source with what parsing it gave alone
struct Known {
    call: Call,
    members: (u64, bool),
    real: String,
    outcome: String,
    doc: Result<Doc, Option<(i64, String, String)>>,
}
fn same_doc(a: &Doc, b: &Doc) -> bool {
    match (a, b) {
        (Doc::One(a), Doc::One(b)) => a == b,
        (Doc::Two(a), Doc::Two(b)) => a == b,
        (Doc::Three(a), Doc::Three(b)) => a == b,
        _ => false,
    }
}
impl Known {
    fn new(call: Call, conc: u64) -> Result<Known, Bad> {
        set_concrete(conc);
        let members = (conc, checked());
        let outcome = alone(std::slice::from_ref(&call), members).text();
        let real = dec(&call.src);
        let (given, doc) = Known::go(&call);
        if given != outcome {
            return Err(bad(&format!("parsing {} at stage {}", call.src, call.g), outcome, given).unwrap());
        }
        Ok(Known { call, members, real, outcome, doc })
    }
    fn go(c: &Call) -> (String, Result<Doc, Option<(i64, String, String)>>) {
        let mut d = empty();
        let r = call(&mut d, None, c);
        let told = outcome(c, &d, &r).text();
        let refused = |w| match w {
            Why::Error(Res::Err { line, kind, arg }) => Some((line, kind, arg)),
            _ => None,
        };
        (told, r.map(|_| d).map_err(refused))
    }
    /// Parses it once more
    fn check(&self, fully: bool) -> Option<Bad> {
        let r = life::parse(self.call.g, &self.real);
        let same = !fully
            && match (&r, &self.doc) {
                (Res::Ok(d), Ok(e)) => guard(|| same_doc(d, e) && d.text() == e.text()) == Ok(true),
                (Res::Err { line, kind, arg }, Err(Some(e))) => (*line, kind, arg) == (e.0, &e.1, &e.2),
                _ => false,
            };
        if same {
            return None;
        }
        let (d, r) = match r {
            Res::Ok(d) => (d, Ok(())),
            Res::Panic(p) => (empty(), Err(Why::Panic(p))),
            Res::Err { line, kind, arg } => (empty(), Err(Why::Error(Res::Err { line, kind, arg }))),
        };
        let told = outcome(&self.call, &d, &r).text();
        (told != self.outcome)
            .then(|| bad(&format!("parsing {} at stage {}", self.call.src, self.call.g), &self.outcome, told).unwrap())
    }
}

/// Sources and histories over and over on all threads at once, each thread
/// going through them in an order of its own; every one must give what it
/// gave alone.  Returns how many were tried.
pub fn soak(vs: &[J], seed: u64, threads: usize, times: usize) -> (usize, Option<(J, Bad)>) {
    let mut calls: Vec<Call> = Vec::new();
    let mut seen = std::collections::HashSet::new();
    for v in vs {
        for c in steps_of(v).concat().into_iter().map(|c| c.1).chain(firsts_of(v)) {
            if c.o == "parse" && seen.insert((c.g, c.src.clone())) {
                calls.push(Call::parse(c.g, &c.src))
            }
        }
    }
    calls.sort_by(|a, b| (a.g, &a.src).cmp(&(b.g, &b.src)));
    let mut rng = Rng::new(seed);
    for _ in 0..300 {
        let size = *rng.pick(&[4, 10, 40, 200]);
        let src = gen::source(&mut rng, size);
        set_concrete(0);
        let src = enc(&dec(&src));
        for g in 1..4 {
            calls.push(Call::parse(g, &src))
        }
    }
    let mut known = Vec::new();
    for (i, c) in calls.into_iter().enumerate() {
        let conc = if i % 3 == 0 { rng.next() % crate::chars::VARIANTS } else { 0 };
        match Known::new(c.clone(), conc) {
            Ok(k) => known.push(k),
            Err(b) => return (known.len(), Some((c.json(), b))),
        }
    }
    let (mut refused, accepted): (Vec<&Known>, Vec<&Known>) = known.iter().partition(|k| k.doc.is_err());
    refused.sort_by_key(|k| k.call.src.chars().count());
    // whatever documents hold, they are only looked at here
    struct All<'a>(Vec<&'a Known>, Vec<&'a Known>);
    unsafe impl Sync for All<'_> {}
    let all = All(accepted, refused);
    let stop: Mutex<Option<(J, Bad)>> = Mutex::new(None);
    let tried = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (all, stop, tried) = (&all, &stop, &tried);
            let go = move || {
                let all: &All = all;
                let mut rng = Rng::new(seed.wrapping_mul(977).wrapping_add(t as u64 + 1));
                let mut now = None;
                // two threads see little but the shortest refusals, and many more of them
                let short = t < 2 && all.1.len() > 40;
                for i in 0..if short { times * 4 } else { times } {
                    if i % 256 == 0 && stop.lock().unwrap().is_some() {
                        return;
                    }
                    tried.fetch_add(1, Ordering::Relaxed);
                    let r = if short && i % 1024 != 0 {
                        let k = all.1[rng.next() as usize % 40];
                        if now != Some(k.members) {
                            set_concrete(k.members.0);
                            set_checked(k.members.1);
                            now = Some(k.members)
                        }
                        k.check(false).map(|b| (k.call.json(), b))
                    } else if i % 64 == 31 {
                        let v = rng.pick(vs);
                        now = None;
                        check_here(v, rng.next() % crate::chars::VARIANTS).map(|b| (v.clone(), b))
                    } else {
                        let k = *rng.pick(if i % 2 == 1 && !all.1.is_empty() || all.0.is_empty() { &all.1 } else { &all.0 });
                        if now != Some(k.members) {
                            set_concrete(k.members.0);
                            set_checked(k.members.1);
                            now = Some(k.members)
                        }
                        k.check(i % 64 == 0).map(|b| (k.call.json(), b))
                    };
                    if let Some((j, mut b)) = r {
                        b.what += &format!(" as number {i} of a thread");
                        stop.lock().unwrap().get_or_insert((j, b));
                        return;
                    }
                }
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, go).unwrap();
        }
    });
    (tried.into_inner(), stop.into_inner().unwrap())
}

/// A history all on this thread
fn check_here(j: &J, conc: u64) -> Option<Bad> {
    set_concrete(conc);
    let members = (conc, checked());
    let firsts = firsts_of(j);
    let mut docs = Vec::new();
    let mut lines = Lines::new(firsts.len());
    for (h, f) in firsts.iter().enumerate() {
        let mut d = empty();
        let r = call(&mut d, None, f);
        if r.is_err() {
            return None;
        }
        docs.push(d);
        lines.count(&Call { h, ..f.clone() }, false)
    }
    for (_, c) in steps_of(j).concat() {
        let from = (c.o == "copy").then(|| clone(&docs[c.from]));
        let r = call(&mut docs[c.h], from.as_ref(), &c);
        lines.count(&c, r.is_err() || c.o == "look")
    }
    for (h, d) in docs.iter().enumerate() {
        let got = look(d);
        if got.as_ref() != Ok(&Look::of(&j.get("docs").arr()[h])) {
            let mut l = lines.0[h].clone();
            l.push(Call { o: "look".into(), ..Call::parse(1, "") });
            let given = obj(vec![("why", J::Arr(vec![])), ("doc", got.map(|l| l.json()).unwrap_or_else(|p| s(&p)))]);
            if let Some(a) = same_alone(&l, members, &given) {
                return bad(&format!("document {} after all this", h + 1), a, given.text());
            }
        }
    }
    None
}
