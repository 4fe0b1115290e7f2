//! A stateless explicit-state explorer.
//!
//! A *family* is a closed driver `fn(&mut Cx) -> Result<(), Fail>` whose only source of
//! nondeterminism is `Cx::choose(n)`.  The explorer enumerates **every** choice sequence of the
//! driver (depth first, from the empty prefix, work shared between threads by donating the
//! shallowest unexplored alternatives), runs the driver once per complete sequence against the
//! real library, and stops at the first failure that is not a listed known finding.
//!
//! Counts: `states` = nodes of the choice tree (partial model states), `transitions` = calls of the
//! library under test whose result was compared with the model (`Cx::op`), `traces` = complete
//! choice sequences executed.
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Fail {
    pub msg: String,
}
impl Fail {
    pub fn new(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into() }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err($crate::engine::Fail::new(format!($($arg)*))); }
    };
}

pub const MAX_OUT: usize = 16;

/// One execution: the choices made so far and what was counted.
pub struct Cx {
    stack: Vec<(u32, u32)>, // (choice, arity)
    pos: usize,
    replay_strict: bool,
    new_nodes: u64,
    ops: u64,
    pub verbose: bool,
    notes: String,
    outcomes: [u64; MAX_OUT],
    out_now: u32,
}

impl Cx {
    fn new() -> Cx {
        Cx {
            stack: Vec::with_capacity(64),
            pos: 0,
            replay_strict: false,
            new_nodes: 0,
            ops: 0,
            verbose: false,
            notes: String::new(),
            outcomes: [0; MAX_OUT],
            out_now: 0,
        }
    }
    /// Nondeterministic choice in 0..n.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let i = self.pos;
        self.pos += 1;
        if i < self.stack.len() {
            let (c, a) = self.stack[i];
            if self.replay_strict && a == u32::MAX {
                // replay from file: arity learned now
                self.stack[i].1 = n as u32;
                if c as usize >= n {
                    panic!("MC-REPLAY-DIVERGENCE choice {} out of range {}", c, n);
                }
                return c as usize;
            }
            // A driver that does not repeat itself under the same prefix is a harness error.
            // The arity of a node may have been lowered by donation, never raised.
            if (c as usize) >= n || (a as usize) > n {
                panic!("MC-REPLAY-DIVERGENCE at depth {}: choice {} arity {} now {}", i, c, a, n);
            }
            c as usize
        } else {
            self.stack.push((0, n as u32));
            self.new_nodes += 1;
            0
        }
    }
    #[inline]
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    #[inline]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// Count a compared library call.
    #[inline]
    pub fn op(&mut self, n: u64) {
        self.ops += n;
    }
    /// Classify this execution (used for vacuity checks).
    #[inline]
    pub fn outcome(&mut self, k: usize) {
        self.out_now |= 1 << k;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push_str(&s);
            self.notes.push('\n');
        }
    }
}

#[derive(Default, Clone)]
pub struct FamStats {
    pub name: String,
    pub bound: String,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub wall: f64,
    pub complete: bool,
}

pub struct Violation {
    pub family: String,
    pub trace: Vec<u32>,
    pub msg: String,
    pub notes: String,
    pub reproduced: usize,
}

struct Slot {
    beat: AtomicU64,
    start_ms: AtomicU64,
    cx: UnsafeCell<Cx>,
}
unsafe impl Sync for Slot {}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = payload_str(info.payload());
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {} at {}", msg, loc));
        } else {
            old(info)
        }
    }));
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Run `f` and turn a panic of the code under test into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

type Driver<'a> = dyn Fn(&mut Cx) -> R + Sync + 'a;

fn run_once(f: &Driver, cx: &mut Cx) -> R {
    cx.pos = 0;
    cx.out_now = 0;
    crate::adapt::reset_zeros();
    match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.contains("MC-REPLAY-DIVERGENCE") || m.contains("MC-HARNESS") {
                eprintln!("harness error: {}", m);
                std::process::exit(3);
            }
            Err(Fail::new(m))
        }
    }
}

/// Re-execute one choice sequence verbosely.
pub fn replay(f: &Driver, trace: &[u32]) -> (R, String) {
    QUIET.with(|q| q.set(true));
    let mut cx = Cx::new();
    cx.verbose = true;
    cx.replay_strict = true;
    cx.stack = trace.iter().map(|&c| (c, u32::MAX)).collect();
    let r = run_once(f, &mut cx);
    QUIET.with(|q| q.set(false));
    (r, cx.notes)
}

pub struct Family<'a> {
    pub name: &'a str,
    pub bound: String,
    pub outcomes: &'a [&'a str],
    pub f: Box<Driver<'a>>,
}

/// The worker whose execution aborted the process (stack overflow, failed allocation, double panic).
static CRASHED: AtomicUsize = AtomicUsize::new(usize::MAX);
thread_local! {
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn abort() -> !;
}
/// SIGABRT, raised on the stack of the worker that is at fault: keep it there for the watchdog to report.
extern "C" fn on_abort(_sig: i32) {
    let w = WORKER.with(|w| w.get());
    if w == usize::MAX {
        unsafe {
            signal(6, 0);
            abort();
        }
    }
    CRASHED.store(w, SeqCst);
    loop {
        std::thread::sleep(Duration::from_secs(1));
    }
}

pub struct Settings {
    pub threads: usize,
    pub deadline: Instant,
    pub hang: Duration,
    pub rss_limit_mb: u64,
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 / (1 << 20))
        .unwrap_or(0)
}

pub struct Explored {
    pub stats: FamStats,
    pub violation: Option<Violation>,
    pub known: BTreeMap<String, u64>,
}

/// Enumerate every choice sequence of `fam.f`.
pub fn explore(
    fam: &Family,
    set: &Settings,
    is_known: &(dyn Fn(&str, &str) -> Option<String> + Sync),
    on_hang: &(dyn Fn(Violation) + Sync),
) -> Explored {
    let t0 = Instant::now();
    struct Q {
        jobs: Vec<Vec<(u32, u32)>>, // a job: fixed prefix; explore everything below it
        idle: usize,
        done: bool,
    }
    let q = Mutex::new(Q { jobs: vec![vec![]], idle: 0, done: false });
    let cv = Condvar::new();
    let hungry = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let states = AtomicU64::new(0);
    let ops = AtomicU64::new(0);
    let traces = AtomicU64::new(0);
    let outc: Mutex<[u64; MAX_OUT]> = Mutex::new([0; MAX_OUT]);
    let viol: Mutex<Option<(Vec<u32>, String)>> = Mutex::new(None);
    let known: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let samples: Mutex<Vec<Vec<u32>>> = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..set.threads)
        .map(|_| Slot {
            beat: AtomicU64::new(0),
            start_ms: AtomicU64::new(u64::MAX),
            cx: UnsafeCell::new(Cx::new()),
        })
        .collect();
    let f = &*fam.f;

    std::thread::scope(|sc| {
        // watchdog: one execution that never ends, or that eats all memory, is a failure of that
        // execution (each normally takes micro- to milliseconds).
        let slots_ref = &slots;
        let finished_ref = &finished;
        sc.spawn(move || {
            let base = rss_mb();
            while !finished_ref.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                let crashed = CRASHED.load(SeqCst);
                if crashed != usize::MAX {
                    let cx = unsafe { &*slots_ref[crashed].cx.get() };
                    on_hang(Violation {
                        family: fam.name.to_string(),
                        trace: cx.stack.iter().map(|x| x.0).collect(),
                        msg: "the call aborts the process (stack overflow or failed allocation)".into(),
                        notes: String::new(),
                        reproduced: 0,
                    });
                }
                let now = t0.elapsed().as_millis() as u64;
                let fat = rss_mb() > base + set.rss_limit_mb;
                let mut worst: Option<(u64, usize)> = None;
                for (i, s) in slots_ref.iter().enumerate() {
                    let st = s.start_ms.load(SeqCst);
                    if st != u64::MAX && now > st {
                        let d = now - st;
                        if worst.map_or(true, |w| d > w.0) {
                            worst = Some((d, i));
                        }
                    }
                }
                if let Some((d, i)) = worst {
                    if d > set.hang.as_millis() as u64 || (fat && d > 40) {
                        // The worker is stuck inside the library: its trace is not changing.
                        let cx = unsafe { &*slots_ref[i].cx.get() };
                        let trace: Vec<u32> = cx.stack.iter().map(|x| x.0).collect();
                        on_hang(Violation {
                            family: fam.name.to_string(),
                            trace,
                            msg: if fat {
                                "the call does not return and exhausts memory".into()
                            } else {
                                format!("the call does not return (still running after {} ms)", d)
                            },
                            notes: String::new(),
                            reproduced: 0,
                        });
                    }
                }
            }
        });

        let mut hs = vec![];
        for w in 0..set.threads {
            let (q, cv, hungry, stop, capped) = (&q, &cv, &hungry, &stop, &capped);
            let (states, ops, traces, outc, viol, known, samples) =
                (&states, &ops, &traces, &outc, &viol, &known, &samples);
            let slot = &slots[w];
            let big = std::thread::Builder::new().stack_size(8 << 20);
            let worker = move || {
                QUIET.with(|q| q.set(true));
                WORKER.with(|x| x.set(w));
                let cx: &mut Cx = unsafe { &mut *slot.cx.get() };
                let mut n_exec: u64 = 0;
                let mut next_sample: u64 = 1;
                'jobs: loop {
                    // take a job
                    let job = {
                        let mut g = q.lock().unwrap();
                        loop {
                            if g.done || stop.load(Relaxed) {
                                g.done = true;
                                cv.notify_all();
                                break 'jobs;
                            }
                            if let Some(j) = g.jobs.pop() {
                                hungry.store(if g.jobs.is_empty() { g.idle } else { 0 }, Relaxed);
                                break j;
                            }
                            g.idle += 1;
                            hungry.store(g.idle, Relaxed);
                            if g.idle == set.threads {
                                g.done = true;
                                cv.notify_all();
                                break 'jobs;
                            }
                            g = cv.wait(g).unwrap();
                            g.idle -= 1;
                        }
                    };
                    let fixed = job.len();
                    cx.stack.clear();
                    cx.stack.extend_from_slice(&job);
                    loop {
                        slot.start_ms.store(t0.elapsed().as_millis() as u64, Relaxed);
                        let r = run_once(f, cx);
                        slot.start_ms.store(u64::MAX, Relaxed);
                        slot.beat.fetch_add(1, Relaxed);
                        n_exec += 1;
                        if cx.pos < cx.stack.len() {
                            eprintln!("harness error: execution ended before its prefix did");
                            std::process::exit(3);
                        }
                        for k in 0..MAX_OUT {
                            if cx.out_now >> k & 1 == 1 {
                                cx.outcomes[k] += 1;
                            }
                        }
                        if let Err(e) = r {
                            let tr: Vec<u32> = cx.stack.iter().map(|x| x.0).collect();
                            let (_, notes) = replay(f, &tr);
                            QUIET.with(|q| q.set(true));
                            if let Some(k) = is_known(&notes, &e.msg) {
                                *known.lock().unwrap().entry(k).or_insert(0) += 1;
                            } else {
                                let mut g = viol.lock().unwrap();
                                let better = match &*g {
                                    None => true,
                                    Some((t, _)) => (tr.len(), &tr) < (t.len(), t),
                                };
                                if better {
                                    *g = Some((tr, e.msg));
                                }
                                stop.store(true, SeqCst);
                                break;
                            }
                        }
                        if n_exec == next_sample {
                            next_sample *= 97;
                            let mut g = samples.lock().unwrap();
                            if g.len() < 6 {
                                g.push(cx.stack.iter().map(|x| x.0).collect());
                            }
                        }
                        if n_exec & 0x3f == 0 {
                            if stop.load(Relaxed) {
                                break;
                            }
                            if n_exec & 0xfff == 0 && Instant::now() > set.deadline {
                                capped.store(true, SeqCst);
                                stop.store(true, SeqCst);
                                break;
                            }
                        }
                        // backtrack
                        while cx.stack.len() > fixed {
                            let l = cx.stack.len() - 1;
                            let (c, a) = cx.stack[l];
                            if c + 1 < a {
                                cx.stack[l].0 = c + 1;
                                cx.new_nodes += 1;
                                break;
                            }
                            cx.stack.pop();
                        }
                        if cx.stack.len() == fixed {
                            break;
                        }
                        // donate the shallowest alternatives to idle workers
                        if hungry.load(Relaxed) > 0 {
                            let mut depth = None;
                            for i in fixed..cx.stack.len() {
                                let (c, a) = cx.stack[i];
                                if c + 1 < a {
                                    depth = Some(i);
                                    break;
                                }
                            }
                            if let Some(i) = depth {
                                let (c, a) = cx.stack[i];
                                let mut g = q.lock().unwrap();
                                if g.idle > 0 && g.jobs.len() < set.threads * 2 {
                                    for alt in (c + 1..a).rev() {
                                        let mut p = cx.stack[..i].to_vec();
                                        p.push((alt, alt + 1));
                                        cx.new_nodes += 1;
                                        g.jobs.push(p);
                                    }
                                    cx.stack[i].1 = c + 1;
                                    hungry.store(0, Relaxed);
                                    cv.notify_all();
                                } else {
                                    hungry.store(0, Relaxed);
                                }
                            }
                        }
                    }
                    if stop.load(Relaxed) {
                        let mut g = q.lock().unwrap();
                        g.done = true;
                        cv.notify_all();
                        break;
                    }
                }
                states.fetch_add(cx.new_nodes, Relaxed);
                ops.fetch_add(cx.ops, Relaxed);
                traces.fetch_add(n_exec, Relaxed);
                let mut g = outc.lock().unwrap();
                for k in 0..MAX_OUT {
                    g[k] += cx.outcomes[k];
                }
            };
            hs.push(big.spawn_scoped(sc, worker).expect("thread"));
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("harness error: a worker died");
                std::process::exit(3);
            }
        }
        finished.store(true, SeqCst);
    });

    let mut stats = FamStats {
        name: fam.name.to_string(),
        bound: fam.bound.clone(),
        states: states.load(SeqCst) + 1,
        transitions: ops.load(SeqCst),
        traces: traces.load(SeqCst),
        wall: t0.elapsed().as_secs_f64(),
        complete: !capped.load(SeqCst),
        ..Default::default()
    };
    let o = *outc.lock().unwrap();
    for (k, name) in fam.outcomes.iter().enumerate() {
        stats.outcomes.insert(name.to_string(), o[k]);
    }
    let sm = samples.lock().unwrap().clone();
    // one sample from the start, one from deep inside the exploration
    let mut idx = vec![0];
    if sm.len() > 1 {
        idx.push(sm.len() - 1);
    }
    for i in idx {
        if let Some(t) = sm.get(i) {
            let (_, notes) = replay(f, t);
            let mut n = notes.replace('\n', " | ");
            if n.len() > 600 {
                let mut cut = 600;
                while !n.is_char_boundary(cut) {
                    cut -= 1;
                }
                n.truncate(cut);
                n.push_str("...");
            }
            stats.samples.push(format!("{}: {}", fam.name, n));
        }
    }
    let mut violation = None;
    if let Some((trace, msg)) = viol.lock().unwrap().take() {
        let mut reproduced = 0;
        let mut notes = String::new();
        let mut m2 = msg;
        for _ in 0..5 {
            let (r, n) = replay(f, &trace);
            if let Err(e) = r {
                reproduced += 1;
                m2 = e.msg;
            }
            notes = n;
        }
        violation = Some(Violation { family: fam.name.to_string(), trace, msg: m2, notes, reproduced });
        stats.complete = false;
    }
    let known = known.lock().unwrap().clone();
    Explored { stats, violation, known }
}

// ---------------------------------------------------------------------------------------------
// Running a whole check: families, known findings, evidence, verdict.

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check<'a> {
    pub id: &'a str,
    pub assumptions: Vec<&'a str>,
    pub families: Vec<Family<'a>>,
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Known findings: lines `known: property=<id> family=<family> input=<exact input notes> :: <what fails>`.
/// Lines starting with `fixed:` suppress nothing.
fn load_known(id: &str) -> Vec<(String, String, String)> {
    let p = format!("{}/known_findings.txt", root());
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} family=", id)) {
            if let Some((fam, rest)) = r.split_once(" input=") {
                if let Some((input, what)) = rest.split_once(" :: ") {
                    v.push((fam.to_string(), input.to_string(), what.to_string()));
                }
            }
        }
    }
    v
}

fn write_replay(id: &str, v: &Violation) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.{}.txt", dir, id, v.family);
    let tr: Vec<String> = v.trace.iter().map(|x| x.to_string()).collect();
    let s = format!(
        "property={}\nfamily={}\ntrace={}\nwhat={}\nreproduced={}/5\n# input and expectation, as API calls:\n{}\n# replay: cd /verif && ./check.sh {} --replay {}\n",
        id, v.family, tr.join(","), v.msg, v.reproduced, v.notes, id, path
    );
    let _ = std::fs::write(&path, s);
    path
}

pub fn run_check(c: Check) -> ! {
    install_hook();
    let t = tier();
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "--replay" {
        let s = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| {
            s.lines()
                .find_map(|l| l.strip_prefix(k).map(|x| x.to_string()))
                .unwrap_or_default()
        };
        let fam = get("family=");
        let trace: Vec<u32> =
            get("trace=").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let f = c.families.iter().find(|f| f.name == fam).expect("family");
        let (r, notes) = replay(&*f.f, &trace);
        println!("{}", notes);
        match r {
            Ok(()) => {
                println!("replay: holds");
                std::process::exit(0)
            }
            Err(e) => {
                println!("replay: fails: {}", e.msg);
                std::process::exit(1)
            }
        }
    }
    unsafe {
        signal(6, on_abort as *const () as usize);
    }
    let only = std::env::var("MC_FAMILY").ok();
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8));
    let cap = std::env::var("MC_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if t == Tier::Quick { 600 } else { 3 * 3600 });
    let set = Settings {
        threads,
        deadline: t0 + Duration::from_secs(cap),
        hang: Duration::from_secs(60),
        rss_limit_mb: 10_000,
    };
    let known = load_known(c.id);
    let mut fams: Vec<FamStats> = vec![];
    let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol: Option<(Violation, String)> = None;
    let id = c.id.to_string();
    for fam in &c.families {
        if let Some(o) = &only {
            if o != fam.name {
                continue;
            }
        }
        let fname = fam.name.to_string();
        let known = &known;
        let is_known = move |notes: &str, _msg: &str| -> Option<String> {
            let key = notes.trim_end().replace('\n', " | ");
            known
                .iter()
                .find(|(f, input, _)| *f == fname && *input == key)
                .map(|(f, input, what)| format!("{} [family {} input {}]", what, f, input))
        };
        let idc = id.clone();
        let on_hang = move |mut v: Violation| {
            v.notes = "(input: re-run the trace with --replay; it may not return)".into();
            let p = write_replay(&idc, &v);
            println!("VIOLATION property={} replay={}", idc, p);
            println!("  family={} {}", v.family, v.msg);
            std::process::exit(1);
        };
        let e = explore(fam, &set, &is_known, &on_hang);
        println!(
            "[{}] {}: states={} transitions={} traces={} outcomes={:?} {:.1}s{}",
            c.id,
            fam.name,
            e.stats.states,
            e.stats.transitions,
            e.stats.traces,
            e.stats.outcomes,
            e.stats.wall,
            if e.stats.complete { "" } else { " INCOMPLETE" }
        );
        for (k, n) in e.known {
            *known_hit.entry(k).or_insert(0) += n;
        }
        let complete = e.stats.complete;
        let vac: Vec<String> = e
            .stats
            .outcomes
            .iter()
            .filter(|(_, &n)| n == 0)
            .map(|(k, _)| k.clone())
            .collect();
        fams.push(e.stats);
        if let Some(v) = e.violation {
            let p = write_replay(&id, &v);
            viol = Some((v, p));
            break;
        }
        if complete && !vac.is_empty() {
            eprintln!("harness error: family {} never produced outcome(s) {:?}", fam.name, vac);
            std::process::exit(3);
        }
    }
    // evidence
    let sum = |f: &dyn Fn(&FamStats) -> u64| fams.iter().map(|x| f(x)).sum::<u64>();
    let mut j = String::new();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        jstr(&id),
        jstr(if t == Tier::Quick { "quick" } else { "thorough" }),
        seed
    );
    let _ = write!(
        j,
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n",
        sum(&|x| x.states),
        sum(&|x| x.transitions),
        sum(&|x| x.traces),
        fams.iter().all(|x| x.complete) && only.is_none()
    );
    let _ = write!(j, "  \"rule\": {},\n", jstr("states = nodes of the choice tree of the driver (partial inputs/histories); transitions = library calls executed and compared with the reference model; traces = complete choice sequences, each executed on the real library in lockstep with the model"));
    let _ = write!(j, "  \"families\": [\n");
    for (i, f) in fams.iter().enumerate() {
        let oc: Vec<String> = f.outcomes.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
        let _ = write!(
            j,
            "   {{\"name\": {}, \"bound\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"complete\": {}, \"wall_s\": {:.2}, \"outcomes\": {{{}}}}}{}\n",
            jstr(&f.name), jstr(&f.bound), f.states, f.transitions, f.traces, f.complete, f.wall,
            oc.join(", "), if i + 1 < fams.len() { "," } else { "" }
        );
    }
    let smp: Vec<String> = fams.iter().flat_map(|f| f.samples.iter()).map(|s| jstr(s)).collect();
    let _ = write!(j, "  ],\n  \"samples\": [\n   {}\n  ]\n }},\n", smp.join(",\n   "));
    let asm: Vec<String> = c.assumptions.iter().map(|s| jstr(s)).collect();
    let kn: Vec<String> = known_hit.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
    let _ = write!(
        j,
        " \"assumptions\": [{}],\n \"known_findings_hit\": {{{}}},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        asm.join(", "),
        kn.join(", "),
        t0.elapsed().as_secs_f64(),
        viol.is_some() as u32
    );
    if only.is_none() {
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, id), j) {
            eprintln!("cannot write evidence: {}", e);
            std::process::exit(3);
        }
    }
    for (_, _, what) in &known {
        if known_hit.keys().any(|k| k.starts_with(what.as_str())) {
            println!("KNOWN-FINDING: property={} {}", id, what);
        }
    }
    if let Some((v, p)) = viol {
        println!("VIOLATION property={} replay={}", id, p);
        println!("  family={} {}", v.family, v.msg);
        println!("  {}", v.notes.replace('\n', "\n  "));
        std::process::exit(1);
    }
    println!("[{}] held on everything explored ({:.1}s)", id, t0.elapsed().as_secs_f64());
    std::process::exit(0);
}
