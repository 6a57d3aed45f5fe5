//! Stateless, exhaustive exploration of a choice tree, bounded by deviations
//! from the default choice (0). `free` choices cost nothing: all their
//! alternatives are explored in every context.
use crate::tok::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ch {
    pre: Vec<u16>,
    /// (chosen, alternatives, free)
    pub tr: Vec<(u16, u16, bool)>,
    /// optional parts are present by default
    pub rich: bool,
    /// use only the core of each alphabet
    pub small: bool,
}

impl Ch {
    fn go(&mut self, n: usize, free: bool) -> usize {
        assert!(n > 0 && n < 60000);
        if n == 1 {
            return 0;
        }
        let i = self.tr.len();
        let c = if i < self.pre.len() { self.pre[i] } else { 0 };
        assert!((c as usize) < n, "replay diverged: choice {c} of {n} at {i}");
        self.tr.push((c, n as u16, free));
        c as usize
    }
    pub fn pick(&mut self, n: usize) -> usize {
        self.go(n, false)
    }
    pub fn free(&mut self, n: usize) -> usize {
        self.go(n, true)
    }
    pub fn opt(&mut self) -> bool {
        (self.go(2, false) == 1) != self.rich
    }
    /// An element of `a`; its first `core` ones in the small alphabet.
    pub fn of<'a, T>(&mut self, a: &'a [T], core: usize) -> &'a T {
        let n = if self.small { core.min(a.len()) } else { a.len() };
        let i = self.pick(n);
        &a[i]
    }
    pub fn all<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        let i = self.free(a.len());
        &a[i]
    }
    /// A list length: 0 or 1 by default (2 when rich).
    pub fn len(&mut self, default: usize, max: usize) -> usize {
        let d = if self.rich { 2.min(max) } else { default };
        let i = self.pick(max + 1);
        if i == 0 {
            d
        } else if i <= d {
            i - 1
        } else {
            i
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub space: String,
    pub choices: Vec<u16>,
    pub what: String,
    pub input: String,
    pub dev: usize,
}

pub type Body = Box<dyn Fn(&mut Ch, &mut Ctx) + Sync + Send>;

pub struct Space {
    pub name: String,
    pub k: usize,
    pub rich: bool,
    pub small: bool,
    pub body: Body,
}

pub fn space(name: &str, k: usize, body: impl Fn(&mut Ch, &mut Ctx) + Sync + Send + 'static) -> Space {
    Space { name: name.to_string(), k, rich: false, small: false, body: Box::new(body) }
}
impl Space {
    pub fn rich(mut self) -> Self {
        self.rich = true;
        self
    }
    pub fn small(mut self) -> Self {
        self.small = true;
        self
    }
}

/// Per-thread results.
#[derive(Default)]
pub struct Ctx {
    pub execs: u64,
    /// calls into the implementation whose result was compared with the model
    pub impl_runs: u64,
    pub choices: u64,
    pub rejected: u64,
    pub skipped: u64,
    pub inputs: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    /// violation found in the current execution
    pub viol: Option<(String, String)>,
    pub known: Vec<String>,
    pub cur: Option<&'static Slot>,
}

impl Ctx {
    pub fn input(&mut self, t: &[Tok]) {
        self.inputs.insert(xhash(t));
        if (self.samples.len() < 3 || (self.samples.len() < 6 && self.execs % 1013 == 7)) && !t.is_empty() {
            let s = show(t);
            if s.len() < 400 && !self.samples.contains(&s) {
                self.samples.push(s);
            }
        }
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < 4_000_000 {
            self.outcomes.insert(h);
        }
    }
    pub fn fail(&mut self, input: &[Tok], what: impl Into<String>) {
        self.fail_s(show(input), what)
    }
    pub fn fail_s(&mut self, input: String, what: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some((what.into(), input));
        }
    }
}

/// What a thread is executing right now, for the watchdog.
#[derive(Default)]
pub struct Slot {
    pub since_ms: AtomicU64,
    pub case: Mutex<Option<(String, Vec<u16>)>>,
}

pub struct Explored {
    pub execs: u64,
    pub impl_runs: u64,
    pub choices: u64,
    pub states: u64,
    pub outcomes: u64,
    pub rejected: u64,
    pub skipped: u64,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: Vec<String>,
    pub complete: bool,
    pub per_space: Vec<(String, u64, usize, f64)>,
}

thread_local! {
    /// Where the last panic of this thread happened.
    pub static PANIC: std::cell::RefCell<(String, String)> = std::cell::RefCell::new((String::new(), String::new()));
}
pub fn set_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let what = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = (at, what));
    }));
}

pub const THREADS: usize = 8;
pub static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn cost(tr: &[(u16, u16, bool)]) -> usize {
    tr.iter().filter(|t| !t.2 && t.0 != 0).count()
}

pub fn run_one(sp: &Space, pre: Vec<u16>, cx: &mut Ctx) -> Ch {
    let n = pre.len();
    let mut ch = Ch { pre, tr: Vec::new(), rich: sp.rich, small: sp.small };
    cx.execs += 1;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sp.body)(&mut ch, cx)));
    if r.is_err() {
        let (at, what) = PANIC.with(|p| p.borrow().clone());
        // The explorer itself failing gives no verdict. Anything else that panics does so
        // because the implementation returned something it does not return on the
        // unchanged tree, where the whole space runs without a panic.
        if at.starts_with("src/explore") || at.is_empty() {
            eprintln!("error in the check itself: {at}: {what} (space {}, choices {:?})", sp.name, ch.tr);
            std::process::exit(2);
        }
        let c: Vec<u16> = ch.tr.iter().map(|t| t.0).collect();
        cx.fail_s(format!("choices {c:?}"), format!("unexpected panic: {at}: {what}"));
    }
    assert!(ch.tr.len() >= n, "replay diverged: execution shorter than its prefix in {}", sp.name);
    ch
}

fn children(ch: &Ch, from: usize, k: usize, mut f: impl FnMut(Vec<u16>)) {
    let mut c = cost(&ch.tr[..from]);
    for i in from..ch.tr.len() {
        let (ci, n, free) = ch.tr[i];
        debug_assert_eq!(ci, 0);
        if free || c < k {
            for alt in 1..n {
                let mut v: Vec<u16> = ch.tr[..i].iter().map(|t| t.0).collect();
                v.push(alt);
                f(v);
            }
        }
        if !free && ci != 0 {
            c += 1;
        }
    }
}

pub fn explore(spaces: &[Space], deadline: Instant, slots: &'static [Slot], journal: bool) -> Explored {
    let mut out = Explored {
        execs: 0,
        impl_runs: 0,
        choices: 0,
        states: 0,
        outcomes: 0,
        rejected: 0,
        skipped: 0,
        samples: vec![],
        viols: vec![],
        known: vec![],
        complete: true,
        per_space: vec![],
    };
    let mut ctxs: Vec<Ctx> = (0..THREADS).map(|i| Ctx { cur: Some(&slots[i]), ..Default::default() }).collect();
    let nviol = AtomicUsize::new(0);
    let timed_out = AtomicBool::new(false);
    let viols = Mutex::new(Vec::<Viol>::new());
    for sp in spaces {
        let t0 = Instant::now();
        let execs0: u64 = ctxs.iter().map(|c| c.execs).sum();
        let jobs: Mutex<Vec<(Vec<u16>, usize)>> = Mutex::new(vec![(vec![], 0)]);
        let busy = AtomicUsize::new(0);
        // workers that wait for something to do: the others hand over part of their stack
        let hungry = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for cx in ctxs.iter_mut() {
                let (jobs, busy, hungry, nviol, timed_out, viols) = (&jobs, &busy, &hungry, &nviol, &timed_out, &viols);
                let b = std::thread::Builder::new().stack_size(256 << 20);
                b.spawn_scoped(s, move || {
                    let slot = cx.cur.unwrap();
                    let mut stack: Vec<(Vec<u16>, usize)> = vec![];
                    let mut n = 0u64;
                    loop {
                        let job = match stack.pop() {
                            Some(j) => j,
                            None => {
                                let mut g = jobs.lock().unwrap();
                                match g.pop() {
                                    Some(j) => {
                                        busy.fetch_add(1, SeqCst);
                                        drop(g);
                                        stack.push(j);
                                        continue;
                                    }
                                    None => {
                                        drop(g);
                                        if busy.load(SeqCst) == 0 {
                                            break;
                                        }
                                        hungry.fetch_add(1, SeqCst);
                                        std::thread::sleep(Duration::from_micros(200));
                                        hungry.fetch_sub(1, SeqCst);
                                        continue;
                                    }
                                }
                            }
                        };
                        n += 1;
                        if n % 64 == 0 && Instant::now() > deadline {
                            timed_out.store(true, SeqCst);
                        }
                        if !timed_out.load(Relaxed) && nviol.load(Relaxed) < 40 {
                            let (pre, depth) = job;
                            {
                                let mut g = slot.case.lock().unwrap();
                                match &mut *g {
                                    Some((_, v)) => {
                                        v.clear();
                                        v.extend_from_slice(&pre);
                                    }
                                    x => *x = Some((sp.name.clone(), pre.clone())),
                                }
                            }
                            slot.since_ms.store(now_ms(), SeqCst);
                            if journal {
                                crate::journal_case(cx, sp, &pre);
                            }
                            let from = pre.len();
                            let ch = run_one(sp, pre, cx);
                            slot.since_ms.store(0, SeqCst);
                            cx.choices += (ch.tr.len() - from.min(ch.tr.len())) as u64 + (from > 0) as u64;
                            if let Some((what, input)) = cx.viol.take() {
                                nviol.fetch_add(1, SeqCst);
                                viols.lock().unwrap().push(Viol {
                                    space: sp.name.clone(),
                                    choices: ch.tr.iter().map(|t| t.0).collect(),
                                    what,
                                    input,
                                    dev: cost(&ch.tr),
                                });
                            }
                            let share = depth < 2;
                            let mut batch = vec![];
                            children(&ch, from, sp.k, |v| {
                                if share {
                                    batch.push((v, depth + 1));
                                } else {
                                    stack.push((v, depth + 1));
                                }
                            });
                            if share && !batch.is_empty() {
                                jobs.lock().unwrap().append(&mut batch);
                            }
                        }
                        if stack.len() > 1 && hungry.load(Relaxed) > 0 {
                            // the oldest entries have the largest subtrees
                            let give = stack.len().div_ceil(2);
                            jobs.lock().unwrap().extend(stack.drain(..give));
                        }
                        if stack.is_empty() {
                            busy.fetch_sub(1, SeqCst);
                        }
                    }
                    *slot.case.lock().unwrap() = None;
                })
                .unwrap();
            }
        });
        let execs1: u64 = ctxs.iter().map(|c| c.execs).sum();
        out.per_space.push((sp.name.clone(), execs1 - execs0, sp.k, t0.elapsed().as_secs_f64()));
        if timed_out.load(SeqCst) {
            out.complete = false;
            break;
        }
        if nviol.load(SeqCst) > 0 {
            break;
        }
    }
    let mut inputs: HashSet<u64> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    for c in &mut ctxs {
        out.execs += c.execs;
        out.impl_runs += c.impl_runs;
        out.choices += c.choices;
        out.rejected += c.rejected;
        out.skipped += c.skipped;
        inputs.extend(c.inputs.drain());
        outcomes.extend(c.outcomes.drain());
        for s in c.samples.drain(..) {
            if out.samples.len() < 12 && !out.samples.contains(&s) {
                out.samples.push(s);
            }
        }
        for s in c.known.drain(..) {
            if !out.known.contains(&s) {
                out.known.push(s);
            }
        }
    }
    out.known.sort();
    out.states = inputs.len() as u64;
    out.outcomes = outcomes.len() as u64;
    out.viols = viols.into_inner().unwrap();
    out.viols.sort_by_key(|v| (v.dev, v.input.len(), v.what.len()));
    out
}
