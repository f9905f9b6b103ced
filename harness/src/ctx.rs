//! Check runner: deterministic cases over worker threads, call monitoring, evidence and verdicts.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use object_store::memory::InMemory;
use serde_json::{json, Value as J};

use crate::rng::{hash_str, mix, Rng};
use crate::sim::Sim;
use crate::store::{self, Ctl, Entry};

pub const VERIF: &str = "/verif";

// ---------- allocation monitor ----------
pub struct MonAlloc;
pub static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
thread_local! {
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    pub static ALLOC_FREE: Cell<bool> = const { Cell::new(false) };
    static IN_REPORT: Cell<bool> = const { Cell::new(false) };
}
fn check_alloc(n: usize) {
    if n > ALLOC_LIMIT.load(Ordering::Relaxed) {
        let inc = IN_CALL.try_with(|c| c.get()).unwrap_or(false) && !ALLOC_FREE.try_with(|c| c.get()).unwrap_or(true);
        let rep = IN_REPORT.try_with(|c| c.replace(true)).unwrap_or(true);
        if inc && !rep {
            fatal_violation("unbounded-allocation", &format!("one allocation of {n} bytes requested by a library call"));
        }
        let _ = IN_REPORT.try_with(|c| c.set(rep));
    }
}
unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check_alloc(n);
        System.realloc(p, l, n)
    }
}

// ---------- calls ----------
#[derive(Debug, Clone, PartialEq)]
pub enum Res<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Res<T> {
    pub fn ok(self) -> Option<T> {
        match self {
            Res::Ok(x) => Some(x),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Res::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Res::Err(_))
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Res::Ok(_) => "ok",
            Res::Err(_) => "err",
            Res::Panic(_) => "panic",
        }
    }
    pub fn why(&self) -> String {
        match self {
            Res::Ok(_) => "ok".into(),
            Res::Err(e) => format!("error: {}", short(e, 400)),
            Res::Panic(e) => format!("PANIC: {}", short(e, 400)),
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Res<U> {
        match self {
            Res::Ok(x) => Res::Ok(f(x)),
            Res::Err(e) => Res::Err(e),
            Res::Panic(e) => Res::Panic(e),
        }
    }
}
pub fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}…")
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
struct Slot {
    since: Mutex<Option<(Instant, String)>>,
    case: AtomicU64,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);
static GLOBAL: Mutex<Option<Arc<Global>>> = Mutex::new(None);
pub static CALLS: AtomicU64 = AtomicU64::new(0);

fn payload(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    CALLS.fetch_add(1, Ordering::Relaxed);
    let slot = SLOT.with(|s| s.get());
    let sl = if slot != usize::MAX { Some(SLOTS.lock().unwrap()[slot].clone()) } else { None };
    if let Some(s) = &sl {
        *s.since.lock().unwrap() = Some((Instant::now(), what.to_string()));
    }
    let was = IN_CALL.with(|c| c.replace(true));
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(was));
    if let Some(s) = &sl {
        *s.since.lock().unwrap() = None;
    }
    match r {
        Ok(x) => Ok(x),
        Err(p) => {
            let at = LAST_PANIC.with(|l| l.borrow().clone());
            let msg = payload(p);
            if at.starts_with("src/") || at.contains("/harness/src/") {
                // a fault of the harness itself
                eprintln!("HARNESS ERROR in {what}: {msg} at {at}");
                std::process::exit(3);
            }
            Err(format!("{msg} at {at}"))
        }
    }
}

/// A synchronous library call.
pub fn call_sync<T, E: std::fmt::Display>(what: &str, f: impl FnOnce() -> std::result::Result<T, E>) -> Res<T> {
    match guarded(what, f) {
        Ok(Ok(x)) => Res::Ok(x),
        Ok(Err(e)) => Res::Err(e.to_string()),
        Err(p) => Res::Panic(p),
    }
}

// ---------- cases ----------
#[derive(Clone, Debug)]
pub struct Viol {
    pub case: u64,
    pub class: String,
    pub msg: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Out {
    pub viols: Vec<Viol>,
    pub evals: u64,
    pub sigs: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub sample: Option<String>,
}

pub struct Env {
    pub prop: &'static str,
    pub case: u64,
    pub thorough: bool,
    pub r: Rng,
    pub rt: Arc<tokio::runtime::Runtime>,
    pub out: Out,
    pub ntab: u64,
    pub detail: String,
}

impl Env {
    pub fn call<T, E: std::fmt::Display>(
        &self,
        what: &str,
        f: impl Future<Output = std::result::Result<T, E>>,
    ) -> Res<T> {
        let rt = self.rt.clone();
        call_sync(what, move || rt.block_on(f))
    }
    pub fn viol(&mut self, class: &str, msg: String) {
        if self.out.viols.len() < 20 {
            self.out.viols.push(Viol {
                case: self.case,
                class: class.into(),
                msg: short(&msg, 3000),
                detail: short(&self.detail, 4000),
            });
        }
        self.count("violating_observations", 1);
    }
    pub fn eval(&mut self) {
        self.out.evals += 1;
    }
    pub fn sig(&mut self, h: u64) {
        self.out.sigs.insert(h);
    }
    pub fn sig_s(&mut self, s: &str) {
        self.out.sigs.insert(hash_str(s));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.out.counters.entry(k.into()).or_default() += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.out.maxes.entry(k.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: String) {
        if self.out.sample.is_none() {
            self.out.sample = Some(short(&s, 1500));
        }
    }
    pub fn table(&mut self, sim: &mut Sim) -> Tbl {
        self.ntab += 1;
        let id = format!("c{}n{}", self.case, self.ntab);
        let ctl = Ctl::new();
        let mem = Arc::new(InMemory::new());
        sim.attach(mem.clone(), &format!("hv/{id}/tbl"));
        store::register(&id, Entry { ctl: ctl.clone(), mem: Some(mem.clone()) });
        Tbl { url: format!("file:///hv/{id}/tbl"), id, ctl, mem }
    }
    /// compares two sorted lists of rows
    pub fn same_rows(&mut self, class: &str, what: &str, got: &[String], want: &[String]) -> bool {
        if got == want {
            return true;
        }
        let m = diff(got, want);
        self.viol(class, format!("{what}: {m}"));
        false
    }
}

pub fn diff(got: &[String], want: &[String]) -> String {
    let mut c: BTreeMap<&str, i64> = BTreeMap::new();
    for g in got {
        *c.entry(g).or_default() += 1;
    }
    for w in want {
        *c.entry(w).or_default() -= 1;
    }
    let extra: Vec<String> = c.iter().filter(|x| *x.1 > 0).map(|x| format!("{}x {}", x.1, short(x.0, 500))).collect();
    let missing: Vec<String> = c.iter().filter(|x| *x.1 < 0).map(|x| format!("{}x {}", -x.1, short(x.0, 500))).collect();
    format!(
        "got {} rows, want {}; {} unexpected {:?}; {} missing {:?}",
        got.len(),
        want.len(),
        extra.len(),
        extra.iter().take(2).collect::<Vec<_>>(),
        missing.len(),
        missing.iter().take(2).collect::<Vec<_>>()
    )
}

pub struct Tbl {
    pub id: String,
    pub ctl: Arc<Ctl>,
    pub mem: Arc<InMemory>,
    pub url: String,
}
impl Drop for Tbl {
    fn drop(&mut self) {
        store::unregister(&self.id);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Env),
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    /// worker threads (0: all cores)
    pub threads: usize,
    /// seconds after which one library call counts as hanging
    pub stall_s: u64,
    /// largest single allocation a library call may make
    pub alloc_limit: usize,
}

struct Global {
    prop: &'static str,
    seed: u64,
    level: &'static str,
    rule: &'static str,
    tier: String,
    start: Instant,
    known: Vec<(String, String)>,
    out: Mutex<Out>,
    samples: Mutex<Vec<String>>,
    planned: u64,
    done: AtomicU64,
    replay_only: bool,
    reported: AtomicBool,
}

fn write_evidence(g: &Global, viols: usize) {
    if std::env::var("HV_NO_EVIDENCE").is_ok() {
        return; // a run inside sanitize.sh adds to the evidence of the run before it
    }
    let o = g.out.lock().unwrap();
    let mut cov = json!({
        "evaluations": o.evals,
        "distinct_nontrivial": o.sigs.len(),
        "rule": g.rule,
        "samples": g.samples.lock().unwrap().iter().take(6).cloned().collect::<Vec<_>>(),
        "cases_planned": g.planned,
        "cases_run": g.done.load(Ordering::SeqCst),
        "library_calls": CALLS.load(Ordering::SeqCst),
    });
    for (k, v) in o.counters.iter().chain(o.maxes.iter()) {
        cov[format!("n_{k}")] = json!(v);
    }
    let e = json!({
        "property": g.prop, "tier": g.tier, "seed": g.seed, "level": g.level,
        "coverage": cov, "wall_s": g.start.elapsed().as_secs_f64(), "violations": viols,
        "assumptions": ["the simulated writer in /verif/harness/src/sim.rs lays tables out as Hudi writers do"],
    });
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    std::fs::write(format!("{VERIF}/evidence/{}.json", g.prop), serde_json::to_string_pretty(&e).unwrap()).unwrap();
}

fn report(g: &Global, v: &Viol) -> String {
    let dir = format!("{VERIF}/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{}-{}-{}.json", g.prop, g.seed, v.case);
    let j: J = json!({"property": g.prop, "case": v.case, "seed": g.seed, "class": v.class, "message": v.msg,
        "context": v.detail,
        "rerun": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/run.sh {} --case {}", g.seed, g.tier, g.prop, v.case)});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

/// Reports a violation from inside a call that cannot return, and ends the process.
pub fn fatal_violation(class: &str, msg: &str) -> ! {
    let g = GLOBAL.lock().unwrap().clone();
    if let Some(g) = g {
        if !g.reported.swap(true, Ordering::SeqCst) {
            let slot = SLOT.with(|s| s.get());
            let case = if slot != usize::MAX {
                SLOTS.try_lock().map(|s| s[slot].case.load(Ordering::SeqCst)).unwrap_or(0)
            } else {
                0
            };
            fatal_for(&g, case, class, msg);
        }
    }
    std::process::exit(1)
}
fn fatal_for(g: &Global, case: u64, class: &str, msg: &str) -> ! {
    let v = Viol { case, class: class.into(), msg: msg.into(), detail: String::new() };
    let p = report(g, &v);
    println!("  [{}] case {}: {}", class, case, msg);
    println!("VIOLATION property={} replay={}", g.prop, p);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    if !g.replay_only {
        write_evidence(g, 1);
    }
    unsafe { libc_exit(1) }
}
extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

pub fn load_known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{VERIF}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let id = it.next().unwrap_or("");
            let class = it.next().unwrap_or("").trim_start_matches("class=");
            if id == prop {
                v.push((class.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

pub fn run_prop(p: &'static Prop, only: Option<u64>) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let thorough = tier == "thorough";
    let n = std::env::var("HV_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    // wall-clock cap: a slow machine explores less rather than giving no answer
    let cap = Duration::from_secs(
        std::env::var("HV_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 240 }),
    );
    ALLOC_LIMIT.store(p.alloc_limit, Ordering::SeqCst);
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let inc = IN_CALL.with(|c| c.get());
        LAST_PANIC.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                if l.is_empty() {
                    *l = at.clone()
                }
            }
        });
        if !inc && (at.starts_with("src/") || at.contains("/harness/")) {
            eprintln!("HARNESS PANIC: {i}");
        }
    }));
    let g = Arc::new(Global {
        prop: p.id,
        seed,
        level: p.level,
        rule: p.rule,
        tier,
        start: Instant::now(),
        known: load_known(p.id),
        out: Mutex::new(Out::default()),
        samples: Mutex::new(vec![]),
        planned: n,
        done: AtomicU64::new(0),
        replay_only: only.is_some(),
        reported: AtomicBool::new(false),
    });
    *GLOBAL.lock().unwrap() = Some(g.clone());
    store::install();
    let next = Arc::new(AtomicU64::new(0));
    let harness_err = Arc::new(AtomicBool::new(false));
    let nt = if only.is_some() {
        1
    } else if p.threads > 0 {
        p.threads
    } else {
        8
    };
    let mut hs = vec![];
    for ti in 0..nt {
        SLOTS.lock().unwrap().push(Arc::new(Slot { since: Mutex::new(None), case: AtomicU64::new(0) }));
        let (g, next, harness_err) = (g.clone(), next.clone(), harness_err.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    SLOT.with(|s| s.set(ti));
                    let slot = SLOTS.lock().unwrap()[ti].clone();
                    let rt = Arc::new(tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap());
                    loop {
                        let case = match only {
                            Some(c) => {
                                if next.fetch_add(1, Ordering::SeqCst) > 0 {
                                    break;
                                }
                                c
                            }
                            None => next.fetch_add(1, Ordering::SeqCst),
                        };
                        if only.is_none() && (case >= n || g.start.elapsed() > cap) {
                            break;
                        }
                        slot.case.store(case, Ordering::SeqCst);
                        let mut env = Env {
                            prop: p.id,
                            case,
                            thorough,
                            r: Rng::new(mix(mix(seed) ^ hash_str(p.id)) ^ mix(case)),
                            rt: rt.clone(),
                            out: Out::default(),
                            ntab: 0,
                            detail: String::new(),
                        };
                        let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut env)));
                        if let Err(e) = r {
                            let at = LAST_PANIC.with(|l| l.borrow().clone());
                            eprintln!("HARNESS ERROR case {case}: {} at {at}", payload(e));
                            harness_err.store(true, Ordering::SeqCst);
                            break;
                        }
                        g.done.fetch_add(1, Ordering::SeqCst);
                        let o = env.out;
                        if let Some(s) = o.sample {
                            let mut v = g.samples.lock().unwrap();
                            if v.len() < 6 {
                                v.push(s);
                            }
                        }
                        let mut t = g.out.lock().unwrap();
                        t.evals += o.evals;
                        t.sigs.extend(o.sigs);
                        for (k, v) in o.counters {
                            *t.counters.entry(k).or_default() += v;
                        }
                        for (k, v) in o.maxes {
                            let e = t.maxes.entry(k).or_default();
                            *e = (*e).max(v);
                        }
                        t.viols.extend(o.viols);
                    }
                })
                .unwrap(),
        );
    }
    // watchdog
    let stop = Arc::new(AtomicBool::new(false));
    let wd = {
        let (stop, g) = (stop.clone(), g.clone());
        let stall = p.stall_s;
        std::thread::spawn(move || {
            while !stop.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let slots = SLOTS.lock().unwrap().clone();
                for s in slots {
                    let x = s.since.lock().unwrap().clone();
                    if let Some((t, what)) = x {
                        if t.elapsed() > Duration::from_secs(stall) && !g.reported.swap(true, Ordering::SeqCst) {
                            fatal_for(&g, s.case.load(Ordering::SeqCst), "hang", &format!("{what} did not return within {stall} s"));
                        }
                    }
                }
            }
        })
    };
    for h in hs {
        if h.join().is_err() {
            harness_err.store(true, Ordering::SeqCst);
        }
    }
    stop.store(true, Ordering::SeqCst);
    let _ = wd.join();
    let (mut bad, mut known_seen): (Vec<Viol>, BTreeMap<String, u64>) = (vec![], BTreeMap::new());
    {
        let mut o = g.out.lock().unwrap();
        let mut vs = std::mem::take(&mut o.viols);
        vs.sort_by_key(|v| v.case);
        for v in vs {
            if g.known.iter().any(|k| k.0 == v.class) {
                *known_seen.entry(v.class.clone()).or_default() += 1;
            } else {
                bad.push(v);
            }
        }
        for (k, v) in &known_seen {
            o.counters.insert(format!("known_finding_seen[{k}]"), *v);
        }
    }
    for (c, what) in &g.known {
        println!("KNOWN-FINDING: property={} {} [class {}, seen {} times in this run]", g.prop, what, c, known_seen.get(c).unwrap_or(&0));
    }
    if only.is_none() {
        write_evidence(&g, bad.len());
    }
    {
        let o = g.out.lock().unwrap();
        println!(
            "{}: {} cases, {} evaluations, {} distinct, {} library calls, {:.1} s {:?} {:?}",
            g.prop,
            g.done.load(Ordering::SeqCst),
            o.evals,
            o.sigs.len(),
            CALLS.load(Ordering::SeqCst),
            g.start.elapsed().as_secs_f64(),
            o.counters,
            o.maxes,
        );
    }
    if !bad.is_empty() {
        let mut per: BTreeMap<&str, usize> = BTreeMap::new();
        for v in &bad {
            let e = per.entry(&v.class).or_default();
            *e += 1;
            if *e <= 2 {
                println!("  [{}] case {}: {}", v.class, v.case, v.msg);
                if only.is_some() {
                    println!("    {}", v.detail);
                }
            }
        }
        println!("  classes: {per:?}");
        let p = report(&g, &bad[0]);
        println!("VIOLATION property={} replay={}", g.prop, p);
        return 1;
    }
    if harness_err.load(Ordering::SeqCst) {
        return 3;
    }
    if only.is_none() && g.out.lock().unwrap().evals == 0 {
        eprintln!("no evaluation made");
        return 3;
    }
    0
}
