mod built;
mod calls;
mod chars;
mod dbg;
mod gen;
mod json;
mod life;
mod parts;
mod real;
mod record;
mod replay;
mod tree;

use json::{obj, s, J};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn opts() -> (Vec<String>, HashMap<String, String>) {
    let mut pos = Vec::new();
    let mut m = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.strip_prefix("--") {
            Some(k) => {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            }
            None => pos.push(a),
        }
    }
    (pos, m)
}

/// The JSON values TLC printed
fn vectors(path: &str) -> Vec<J> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| real::tool_error(&format!("{path}: {e}")));
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("\"{")).collect();
    let n = 8;
    let size = lines.len() / n + 1;
    std::thread::scope(|sc| {
        let hs: Vec<_> = lines
            .chunks(size)
            .map(|ls| {
                sc.spawn(move || {
                    ls.iter()
                        .map(|l| {
                            let t = json::string(l.as_bytes(), &mut 0).unwrap_or_else(|e| real::tool_error(&e));
                            J::parse(&t).unwrap_or_else(|e| real::tool_error(&format!("{e}: {t}")))
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// One case of a run, for the report
pub struct Failure {
    pub case: J,
    pub bad: replay::Bad,
}

/// Runs `job` on 0..n with several threads; stops a hanging case.
/// `describe` says what a case is when it hangs.
fn run_all(
    n: usize,
    threads: usize,
    progress: Option<String>,
    job: impl Fn(usize) -> Option<Failure> + Sync,
    describe: impl Fn(usize) -> J + Sync,
) -> (Vec<Failure>, Option<J>) {
    let next = AtomicUsize::new(0);
    let fails = Mutex::new(Vec::new());
    let count = AtomicUsize::new(0);
    let done = Arc::new(AtomicBool::new(false));
    let start = Instant::now();
    let current: Vec<(AtomicUsize, AtomicU64)> =
        (0..threads).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect();
    let hung = Mutex::new(None);
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (next, fails, count, current, job, progress, describe) =
                    (&next, &fails, &count, &current, &job, &progress, &describe);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || count.load(Ordering::SeqCst) > 200 {
                            current[t].0.store(usize::MAX, Ordering::SeqCst);
                            return;
                        }
                        current[t].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                        current[t].0.store(i, Ordering::SeqCst);
                        if let Some(p) = progress {
                            std::fs::write(p, i.to_string()).unwrap()
                        }
                        // a panic outside a guard is the harness's own, or else of
                        // the implementation in what no property excuses
                        let r = real::guard(|| job(i)).unwrap_or_else(|p| {
                            let at = PANIC_AT.with(|p| p.borrow().clone());
                            if at.starts_with("src/") {
                                real::tool_error(&format!("{p} at {at}, case {}", describe(i).text()))
                            }
                            Some(Failure {
                                case: describe(i),
                                bad: replay::Bad { what: format!("panic at {at}"), expected: "no panic".into(), got: p },
                            })
                        });
                        if let Some(f) = r {
                            count.fetch_add(1, Ordering::SeqCst);
                            fails.lock().unwrap().push((i, f));
                        }
                    })
                    .unwrap()
            })
            .collect();
        // watch for cases that do not end
        loop {
            if hs.iter().all(|h| h.is_finished()) {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
            let now = start.elapsed().as_millis() as u64;
            for (i, t) in &current {
                let i = i.load(Ordering::SeqCst);
                if i != usize::MAX && now.saturating_sub(t.load(Ordering::SeqCst)) > 45_000 {
                    *hung.lock().unwrap() = Some(i);
                }
            }
            if let Some(i) = *hung.lock().unwrap() {
                // the thread cannot be stopped: report and leave
                let out = obj(vec![("hang", describe(i)), ("index", J::Num(i as i64))]);
                println!("{}", out.text());
                std::io::stdout().flush().unwrap();
                std::process::exit(4);
            }
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut f = fails.into_inner().unwrap();
    f.sort_by_key(|(i, _)| *i);
    (f.into_iter().map(|(_, f)| f).collect(), None)
}

fn report(extra: Vec<(&str, J)>, fails: Vec<Failure>) {
    let n = fails.len();
    let list = fails
        .into_iter()
        .take(20)
        .map(|f| {
            obj(vec![
                ("case", f.case),
                ("what", s(&f.bad.what)),
                ("expected", s(&f.bad.expected)),
                ("got", s(&f.bad.got)),
            ])
        })
        .collect();
    let mut v = extra;
    v.push(("failures", J::Num(n as i64)));
    v.push(("list", J::Arr(list)));
    println!("{}", obj(v).text());
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| l.to_string()).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = at)
    }));
    let (pos, o) = opts();
    let start = Instant::now();
    let get = |k: &str| o.get(k).cloned().unwrap_or_else(|| real::tool_error(&format!("--{k} missing")));
    let num = |k: &str, d: u64| o.get(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    let threads = num("threads", 8) as usize;
    let progress = o.get("progress").cloned();
    let skip: Vec<usize> =
        o.get("skip").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    match pos.first().map(|s| s.as_str()) {
        Some("replay") => {
            let prop = get("prop");
            let seed = num("seed", 1);
            let vs = vectors(&get("vectors"));
            let relevant = AtomicUsize::new(0);
            let evals = AtomicUsize::new(0);
            let n = vs.len();
            let (fails, _) = run_all(
                n,
                threads,
                progress,
                |i| {
                    if skip.contains(&i) {
                        return None;
                    }
                    let v = replay::Vector::parse(&vs[i]);
                    if replay::relevant(&prop, &v) {
                        relevant.fetch_add(1, Ordering::Relaxed);
                    }
                    // sources with class stand-ins are tried on two members
                    let mut concs = vec![0];
                    if v.d.contains(|c| chars::STAND_INS.contains(c)) {
                        concs.push(1 + (seed.wrapping_mul(31) + i as u64) % (replay::variants() - 1));
                    }
                    for k in concs {
                        evals.fetch_add(1, Ordering::Relaxed);
                        if let Some(bad) = replay::check(&prop, &v, k) {
                            real::set_concrete(k);
                            return Some(Failure {
                                case: obj(vec![
                                    ("source", s(&v.d)),
                                    ("concrete", s(&real::dec(&v.d).chars().take(3000).collect::<String>())),
                                    ("members", J::Num(k as i64)),
                                    ("vector", vs[i].clone()),
                                ]),
                                bad,
                            });
                        }
                    }
                    None
                },
                |i| obj(vec![("source", s(&tree::text_of(vs[i].get("d"))))]),
            );
            report(
                vec![
                    ("vectors", J::Num(n as i64)),
                    ("evaluations", J::Num(evals.into_inner() as i64)),
                    ("relevant", J::Num(relevant.into_inner() as i64)),
                ],
                fails,
            );
        }
        // histories of pushes and trees built by hand
        Some(kind @ ("push" | "built" | "life" | "calls")) => {
            let prop = get("prop");
            let seed = num("seed", 1);
            let vs = vectors(&get("vectors"));
            let evals = AtomicUsize::new(0);
            let n = vs.len();
            let (fails, _) = run_all(
                n,
                threads,
                progress,
                |i| {
                    if skip.contains(&i) {
                        return None;
                    }
                    for k in [0, 1 + (seed.wrapping_mul(31) + i as u64) % (replay::variants() - 1)] {
                        evals.fetch_add(1, Ordering::Relaxed);
                        let b = match kind {
                            "push" => built::check_push(&vs[i], k),
                            "life" => life::check_life(&vs[i], k),
                            // some of them are made alone too, whatever they gave
                            "calls" => calls::check_calls(&vs[i], k, vs[i].get("steps").arr().len() == 1 || i % 16 == 0),
                            _ => built::check_built(&prop, &vs[i], k),
                        };
                        if let Some(bad) = b {
                            return Some(Failure { case: obj(vec![("built", vs[i].clone()), ("members", J::Num(k as i64))]), bad });
                        }
                    }
                    None
                },
                |i| vs[i].clone(),
            );
            report(
                vec![
                    ("vectors", J::Num(n as i64)),
                    ("evaluations", J::Num(evals.into_inner() as i64)),
                    ("relevant", J::Num(n as i64)),
                ],
                fails,
            );
        }
        Some("alone") => calls::be_alone(),
        // the same over and over, on all threads
        Some("soak") => {
            let vs = vectors(&get("vectors"));
            let stop = AtomicBool::new(false);
            let (n, f) = std::thread::scope(|sc| {
                // a thread that does not end is one more failure
                sc.spawn(|| {
                    let limit = Duration::from_secs(num("limit", 600));
                    while !stop.load(Ordering::SeqCst) {
                        std::thread::sleep(Duration::from_millis(20));
                        if start.elapsed() > limit {
                            println!("{}", obj(vec![("hang", J::Null), ("index", J::Num(0))]).text());
                            std::io::stdout().flush().unwrap();
                            std::process::exit(4);
                        }
                    }
                });
                let r = match calls::portable() {
                    Some(b) => (0, Some((J::Null, b))),
                    None => calls::soak(&vs, num("seed", 1), threads, num("times", 1000) as usize),
                };
                stop.store(true, Ordering::SeqCst);
                r
            });
            let fails = f.into_iter().map(|(case, bad)| Failure { case, bad }).collect();
            report(vec![("vectors", J::Num(0)), ("evaluations", J::Num(n as i64)), ("relevant", J::Num(0))], fails);
        }
        // what the implementation does on random input, one run per line
        Some("record") => {
            let seed = num("seed", 1);
            let n = num("runs", 100) as usize;
            let size = num("size", 100) as usize;
            let kind = get("kind");
            let corpus: Vec<String> = match o.get("corpus") {
                None => Vec::new(),
                Some(dir) => {
                    let mut fs: Vec<_> = std::fs::read_dir(dir)
                        .unwrap_or_else(|e| real::tool_error(&format!("{dir}: {e}")))
                        .map(|f| f.unwrap().path())
                        .collect();
                    fs.sort();
                    fs.iter().map(|f| chars::of_text(&std::fs::read_to_string(f).unwrap())).collect()
                }
            };
            let lines = Mutex::new(Vec::new());
            run_all(
                n,
                threads,
                progress,
                |i| {
                    if skip.contains(&i) {
                        return None;
                    }
                    let (_, j) = record::run(&kind, seed, i, size, &corpus);
                    lines.lock().unwrap().push((i, j.text()));
                    None
                },
                |i| J::Num(i as i64),
            );
            let mut lines = lines.into_inner().unwrap();
            lines.sort();
            let mut text = String::new();
            for (_, l) in &lines {
                text.push_str(l);
                text.push('\n')
            }
            std::fs::write(get("out"), text).unwrap_or_else(|e| real::tool_error(&e.to_string()));
            println!("{}", obj(vec![("runs", J::Num(lines.len() as i64))]).text());
        }
        _ => real::tool_error("usage: conform replay|record|push|build --..."),
    }
}
