//! Runs the phases of a property: worker process with threads, supervisor that survives crashes,
//! hangs and memory exhaustion of the code under test, shrinking and replay.

use crate::src::{hash_bytes, mix, shrink, Src};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}

pub struct Phase {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx, u64) -> Res,
    /// Followed by a search guided by coverage of the library.
    pub guided: bool,
}

impl Phase {
    /// No guided search: the library runs in other processes or the cases are an enumeration.
    pub fn unguided(mut self) -> Self {
        self.guided = false;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub phases: Vec<Phase>,
}

pub fn phase(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Src, &mut Ctx, u64) -> Res) -> Phase {
    Phase { name, quick, thorough, run, guided: quick > 2000 }
}

// ---------------------------------------------------------------------------------------------
// memory accounting

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
}

pub struct Counting;

#[inline]
fn account(delta: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        if delta > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = BUDGET.try_with(|b| {
                if v > b.get() {
                    // Leave without unwinding; the supervisor finds the case in the slot file.
                    unsafe { libc::_exit(EXIT_OOM) }
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Runs `f` with at most `bytes` additional live heap memory; the process ends otherwise.
pub fn with_budget<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    struct Reset(i64);
    impl Drop for Reset {
        fn drop(&mut self) {
            BUDGET.with(|b| b.set(self.0));
        }
    }
    let base = LIVE.with(|l| l.get());
    let old = BUDGET.with(|b| b.get());
    BUDGET.with(|b| b.set(base.saturating_add(bytes as i64).min(old)));
    let _r = Reset(old);
    f()
}

pub const EXIT_OOM: i32 = 77;
pub const EXIT_HANG: i32 = 78;
/// Heap limit of a whole case.
const CASE_BUDGET: u64 = 3 << 30;

// ---------------------------------------------------------------------------------------------
// context

#[derive(Clone, Default)]
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    /// Evaluations of the oracle (a case can contain several).
    pub evals: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    pub known: BTreeMap<String, u64>,
    pub listed: BTreeSet<String>,
    pub prop: String,
    pub idx: u64,
    pub slowest_ms: u64,
    want_samples: usize,
}

impl Ctx {
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// The case (or part of one) is non-trivial; `fp` identifies its content.
    pub fn nontrivial(&mut self, fp: u64) {
        self.distinct.insert(fp);
    }
    pub fn nontrivial_bytes(&mut self, b: &[u8]) {
        self.nontrivial(hash_bytes(b));
    }
    pub fn class(&mut self, c: &str) {
        if let Some(v) = self.classes.get_mut(c) {
            *v += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_samples > 0 {
            self.want_samples -= 1;
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push((self.idx, s));
        }
    }
    /// A deviation that may be recorded as a known finding of this property. It is an error
    /// unless the known-findings file lists it.
    pub fn known(&mut self, id: &str, what: impl FnOnce() -> String) -> Res {
        if self.listed.contains(&format!("{}/{}", self.prop, id)) {
            *self.known.entry(id.to_string()).or_insert(0) += 1;
            Ok(())
        } else {
            Err(what())
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evals += o.evals;
        self.cases += o.cases;
        self.slowest_ms = self.slowest_ms.max(o.slowest_ms);
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// running single cases

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = PANIC_MSG.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panic at {loc}: {msg}");
            }
        });
    }));
}

/// Runs code under test, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}

pub fn run_case(ph: &Phase, src: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    ctx.idx = idx;
    ctx.cases += 1;
    match guarded(|| with_budget(CASE_BUDGET, || (ph.run)(src, ctx, idx))) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn case_seed(seed: u64, prop: &str, phase: &str, idx: u64) -> u64 {
    mix(&[seed, hash_bytes(prop.as_bytes()), hash_bytes(phase.as_bytes()), idx])
}

// ---------------------------------------------------------------------------------------------
// options

#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub out: PathBuf,
    pub replays: PathBuf,
    pub known: Option<PathBuf>,
    pub deadline_s: u64,
    pub config: String,
    pub scale: f64,
    pub only_phase: Option<String>,
    pub slots: Option<PathBuf>,
    /// Guided cases per random case, relative to the default.
    pub guided: f64,
}

fn listed(o: &Opts) -> BTreeSet<String> {
    let mut set = BTreeSet::new();
    if let Some(p) = &o.known {
        if let Ok(text) = std::fs::read_to_string(p) {
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix("known: ") {
                    let mut prop = "";
                    let mut id = "";
                    for w in rest.split_whitespace() {
                        if let Some(v) = w.strip_prefix("property=") {
                            prop = v;
                        } else if let Some(v) = w.strip_prefix("id=") {
                            id = v;
                        }
                    }
                    if !prop.is_empty() && !id.is_empty() {
                        set.insert(format!("{prop}/{id}"));
                    }
                }
            }
        }
    }
    set
}

pub fn new_ctx(o: &Opts) -> Ctx {
    Ctx {
        seed: o.seed,
        thorough: o.thorough,
        listed: listed(o),
        prop: o.prop.clone(),
        ..Default::default()
    }
}

// ---------------------------------------------------------------------------------------------
// json

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist<T>(it: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    let v: Vec<String> = it.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

/// Minimal reader for the replay files written below.
fn json_field<'a>(text: &'a str, key: &str) -> Option<&'a str> {
    let pat = format!("\"{key}\":");
    let i = text.find(&pat)? + pat.len();
    Some(text[i..].trim_start())
}

fn json_u64(text: &str, key: &str) -> Option<u64> {
    let s = json_field(text, key)?;
    let end = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..end].parse().ok()
}

fn json_string(text: &str, key: &str) -> Option<String> {
    let s = json_field(text, key)?.strip_prefix('"')?;
    let end = s.find('"')?;
    Some(s[..end].to_string())
}

fn json_tape(text: &str) -> Option<Vec<u64>> {
    let s = json_field(text, "tape")?.strip_prefix('[')?;
    let end = s.find(']')?;
    Some(
        s[..end]
            .split(',')
            .filter_map(|x| x.trim().parse().ok())
            .collect(),
    )
}

fn write_replay(o: &Opts, ph: &str, idx: u64, tape: Option<&[u64]>, msg: &str) -> PathBuf {
    let _ = std::fs::create_dir_all(&o.replays);
    let path = o
        .replays
        .join(format!("{}-{}-{}-{}.json", o.prop, o.config, ph, idx));
    let tape_s = match tape {
        Some(t) => jlist(t, |v| v.to_string()),
        None => "null".into(),
    };
    let text = format!(
        "{{\n \"property\": {},\n \"config\": {},\n \"phase\": {},\n \"idx\": {},\n \"seed\": {},\n \"tape\": {},\n \"message\": {}\n}}\n",
        jstr(&o.prop),
        jstr(&o.config),
        jstr(ph),
        idx,
        o.seed,
        tape_s,
        jstr(msg)
    );
    let _ = std::fs::write(&path, text);
    path
}

// ---------------------------------------------------------------------------------------------
// slots: shared memory that tells the supervisor which cases were running

pub struct Slots {
    ptr: *mut u64,
    n: usize,
}

/// Marks the number of a guided case; its tape is in the slot file too.
pub const GUIDED: u64 = 1 << 63;
/// Longest tape kept for a crash of a guided case.
const SLOT_TAPE: usize = 1 << 16;
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    fn open(path: &Path, n: usize) -> Self {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot file");
        let bytes = (n + 1) * (16 + 8 * (SLOT_TAPE + 2));
        f.set_len(bytes as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                bytes,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(ptr != libc::MAP_FAILED);
        Slots { ptr: ptr as *mut u64, n }
    }
    fn tape_at(&self, i: usize) -> *mut u64 {
        unsafe { self.ptr.add(2 * (self.n + 1) + i * (SLOT_TAPE + 2)) }
    }
    /// What is needed to repeat a guided case: the given part of its tape and the seed of the rest.
    pub fn set_tape(&self, i: usize, tape: &[u64], rest: u64) {
        unsafe {
            let p = self.tape_at(i);
            let n = if tape.len() > SLOT_TAPE { 0 } else { tape.len() };
            p.write_volatile(n as u64);
            p.add(1).write_volatile(rest);
            std::ptr::copy_nonoverlapping(tape.as_ptr(), p.add(2), n);
        }
    }
    fn tape(&self, i: usize) -> (Vec<u64>, u64) {
        unsafe {
            let p = self.tape_at(i);
            let n = (p.read_volatile() as usize).min(SLOT_TAPE);
            (std::slice::from_raw_parts(p.add(2), n).to_vec(), p.add(1).read_volatile())
        }
    }
    pub fn set(&self, i: usize, phase: u64, idx: u64) {
        unsafe {
            self.ptr.add(2 * i).write_volatile(phase);
            self.ptr.add(2 * i + 1).write_volatile(idx);
        }
    }
    fn get(&self, i: usize) -> (u64, u64) {
        unsafe {
            (
                self.ptr.add(2 * i).read_volatile(),
                self.ptr.add(2 * i + 1).read_volatile(),
            )
        }
    }
}

fn thread_cpu(clk: libc::clockid_t) -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::clock_gettime(clk, &mut ts);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

fn my_cpu_clock() -> libc::clockid_t {
    let mut clk: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
    }
    clk
}

const HANG_CPU_S: f64 = 60.0;

// ---------------------------------------------------------------------------------------------
// worker

pub struct Failure {
    /// Order among the failures of a phase.
    pub num: u64,
    pub idx: u64,
    pub msg: String,
    pub tape: Vec<u64>,
}

/// Threads under a watchdog that ends the process when a case does not end.
pub struct Pool {
    clocks: Vec<AtomicU64>,
    case_start: Vec<AtomicU64>,
    running: AtomicUsize,
}

impl Pool {
    pub fn begin(&self, t: usize) {
        let clk = self.clocks[t].load(Ordering::SeqCst) as u32 as libc::clockid_t;
        self.case_start[t].store((thread_cpu(clk) * 1000.0) as u64 + 1, Ordering::SeqCst);
    }
    /// Ends a case; gives its processor time in milliseconds.
    pub fn end(&self, t: usize) -> u64 {
        let clk = self.clocks[t].load(Ordering::SeqCst) as u32 as libc::clockid_t;
        let st = self.case_start[t].swap(0, Ordering::SeqCst);
        ((thread_cpu(clk) * 1000.0) as u64 + 1).saturating_sub(st)
    }

    pub fn run(threads: usize, slots: &Slots, tick_ms: u64, body: impl Fn(&Pool, usize) + Sync) {
        let pool = Pool {
            clocks: (0..threads).map(|_| AtomicU64::new(0)).collect(),
            case_start: (0..threads).map(|_| AtomicU64::new(0)).collect(),
            running: AtomicUsize::new(threads),
        };
        std::thread::scope(|s| {
            for t in 0..threads {
                let (pool, body) = (&pool, &body);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        pool.clocks[t].store(my_cpu_clock() as u32 as u64 | 1 << 40, Ordering::SeqCst);
                        body(pool, t);
                        slots.set(t, 0, 0);
                        pool.running.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            while pool.running.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(tick_ms));
                for t in 0..threads {
                    let c = pool.clocks[t].load(Ordering::SeqCst);
                    let st = pool.case_start[t].load(Ordering::SeqCst);
                    if c != 0 && st != 0 && pool.running.load(Ordering::SeqCst) > 0 {
                        let now = thread_cpu(c as u32 as libc::clockid_t);
                        if now - st as f64 / 1000.0 > HANG_CPU_S && pool.case_start[t].load(Ordering::SeqCst) == st {
                            // mark the hanging thread in the extra slot
                            let (p, i) = slots.get(t);
                            if i & GUIDED != 0 {
                                let (tape, rest) = slots.tape(t);
                                slots.set_tape(slots.n, &tape, rest);
                            }
                            slots.set(slots.n, p, i);
                            unsafe { libc::_exit(EXIT_HANG) }
                        }
                    }
                }
            }
        });
    }
}

pub fn worker(prop: &Prop, o: &Opts) -> i32 {
    install_panic_hook();
    let started = Instant::now();
    let slots = Arc::new(Slots::open(o.slots.as_ref().unwrap(), o.threads));
    let mut total = new_ctx(o);
    let mut phase_json = Vec::new();
    let mut violation: Option<(String, PathBuf, String)> = None;
    let mut complete = true;

    for (pi, ph) in prop.phases.iter().enumerate() {
        if let Some(only) = &o.only_phase {
            if only != ph.name {
                continue;
            }
        }
        let base = if o.thorough { ph.thorough } else { ph.quick };
        let n = if o.scale == 1.0 { base } else { ((base as f64 * o.scale) as u64).max(1) };
        let next = AtomicU64::new(0);
        let lowest = AtomicU64::new(u64::MAX);
        let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
        let merged: Mutex<Ctx> = Mutex::new(new_ctx(o));
        let stopped = AtomicU64::new(0);
        let phase_start = Instant::now();
        Pool::run(o.threads, &slots, if n < 2000 { 2 } else { 20 }, |pool, t| {
            let mut ctx = new_ctx(o);
            ctx.want_samples = 2;
            let chunk = if n > 100_000 { 64 } else if n > 2000 { 8 } else { 1 };
            'outer: loop {
                let from = next.fetch_add(chunk, Ordering::SeqCst);
                if from >= n {
                    break;
                }
                if started.elapsed().as_secs() > o.deadline_s {
                    stopped.store(1, Ordering::SeqCst);
                    break;
                }
                for idx in from..(from + chunk).min(n) {
                    if idx > lowest.load(Ordering::SeqCst) {
                        break 'outer;
                    }
                    slots.set(t, pi as u64 + 1, idx);
                    pool.begin(t);
                    let mut src = Src::random(case_seed(o.seed, prop.id, ph.name, idx));
                    let r = run_case(ph, &mut src, &mut ctx, idx);
                    ctx.slowest_ms = ctx.slowest_ms.max(pool.end(t));
                    if let Err(msg) = r {
                        lowest.fetch_min(idx, Ordering::SeqCst);
                        failures.lock().unwrap().push(Failure { num: idx, idx, msg, tape: src.tape });
                    }
                }
            }
            merged.lock().unwrap().merge(ctx);
        });
        let mut fails = failures.into_inner().unwrap();
        let mut guided_json = String::new();
        if fails.is_empty() && stopped.load(Ordering::SeqCst) == 0 && ph.guided && o.guided > 0.0 && crate::cov::guards() > 0 {
            let limit = phase_start.elapsed().mul_f64(1.2 * o.guided.max(1.0)) + Duration::from_secs(2);
            let left = Duration::from_secs(o.deadline_s).saturating_sub(started.elapsed());
            let cases = (n as f64 * o.guided * 0.3) as u64;
            let g = crate::guided::search(o, prop, pi, n, cases, limit.min(left), &slots);
            guided_json = format!(
                ",\"guided_cases\":{},\"guided_corpus\":{},\"guided_features\":{}",
                g.ctx.cases, g.corpus, g.features
            );
            fails = g.failures;
            merged.lock().unwrap().merge(g.ctx);
        }
        let m = merged.into_inner().unwrap();
        if stopped.load(Ordering::SeqCst) != 0 {
            complete = false;
        }
        phase_json.push(format!(
            "{{\"phase\":{},\"planned\":{},\"cases\":{},\"evaluations\":{},\"slowest_ms\":{}{}}}",
            jstr(ph.name),
            n,
            m.cases,
            m.evals,
            m.slowest_ms,
            guided_json
        ));
        let mut m = m;
        m.samples.sort();
        m.samples.truncate(2);
        for s in &mut m.samples {
            s.1 = format!("[{} case {}] {}", ph.name, s.0, s.1);
        }
        total.merge(m);
        fails.sort_by_key(|f| f.num);
        if let Some(f) = fails.into_iter().next() {
            let idx = f.idx;
            // Shrink with the watchdog off but a limited number of evaluations
            let shrink_start = Instant::now();
            std::thread::spawn(|| {
                // A shrunk case may hang; the supervisor then reports the original one
                std::thread::sleep(Duration::from_secs(90));
                unsafe { libc::_exit(EXIT_HANG) }
            });
            let mut last_msg = f.msg.clone();
            let kind = kind_of(&f.msg);
            let tape = shrink(f.tape.clone(), 4000, &mut |cand| {
                if shrink_start.elapsed().as_secs() > 25 {
                    return None;
                }
                let mut src = Src::replay(cand.to_vec());
                let mut ctx = new_ctx(o);
                slots.set(0, pi as u64 + 1, idx);
                match run_case(ph, &mut src, &mut ctx, idx) {
                    Err(m) if kind_of(&m) == kind => {
                        last_msg = m;
                        let mut t = src.tape;
                        while t.last() == Some(&0) {
                            t.pop();
                        }
                        Some(t)
                    }
                    _ => None,
                }
            });
            // Message of the final tape
            let mut src = Src::replay(tape.clone());
            let mut ctx = new_ctx(o);
            let msg = match run_case(ph, &mut src, &mut ctx, idx) {
                Err(m) => m,
                Ok(()) => f.msg.clone(),
            };
            let path = write_replay(o, ph.name, idx, Some(&tape), &msg);
            violation = Some((ph.name.to_string(), path, msg));
            break;
        }
    }

    finish(prop, o, &total, &phase_json, &violation, complete, started.elapsed().as_secs_f64());
    violation.is_some() as i32
}

/// Failures count as the same kind while shrinking if their messages start alike.
fn kind_of(m: &str) -> String {
    m.chars().filter(|c| !c.is_ascii_digit()).take(24).collect()
}

fn finish(
    prop: &Prop,
    o: &Opts,
    total: &Ctx,
    phases: &[String],
    violation: &Option<(String, PathBuf, String)>,
    complete: bool,
    wall: f64,
) {
    let mut samples = total.samples.clone();
    samples.truncate(24);
    let v = match violation {
        Some((ph, path, msg)) => format!(
            "{{\"phase\":{},\"replay\":{},\"message\":{}}}",
            jstr(ph),
            jstr(&path.to_string_lossy()),
            jstr(msg)
        ),
        None => "null".into(),
    };
    let classes: Vec<String> = total
        .classes
        .iter()
        .map(|(k, v)| format!("{}:{}", jstr(k), v))
        .collect();
    let known: Vec<String> = total
        .known
        .iter()
        .map(|(k, v)| format!("{}:{}", jstr(k), v))
        .collect();
    let text = format!(
        "{{\"property\":{},\"config\":{},\"seed\":{},\"cases\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":{},\"classes\":{{{}}},\"known\":{{{}}},\"phases\":[{}],\"complete\":{},\"violation\":{},\"wall_s\":{:.3}}}\n",
        jstr(prop.id),
        jstr(&o.config),
        o.seed,
        total.cases,
        total.evals,
        total.distinct.len(),
        jstr(prop.rule),
        jlist(&samples, |s| jstr(&s.1)),
        classes.join(","),
        known.join(","),
        phases.join(","),
        complete,
        v,
        wall
    );
    std::fs::write(&o.out, text).expect("cannot write result file");
}

// ---------------------------------------------------------------------------------------------
// single case (own process)

pub fn single(prop: &Prop, o: &Opts, phase: &str, idx: u64, tape: Option<Vec<u64>>, rest: Option<u64>, mirror: Option<PathBuf>, verbose: bool) -> i32 {
    install_panic_hook();
    let ph = match prop.phases.iter().find(|p| p.name == phase) {
        Some(p) => p,
        None => {
            eprintln!("unknown phase {phase}");
            return 2;
        }
    };
    let (tx, rx) = std::sync::mpsc::channel();
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                tx.send(my_cpu_clock()).unwrap();
                let mut src = match tape {
                    Some(t) => match rest {
                        Some(seed) => Src::mixed(t, seed),
                        None => Src::replay(t),
                    },
                    None => Src::random(case_seed(o.seed, prop.id, ph.name, idx)),
                };
                if let Some(m) = mirror {
                    src.set_mirror(std::fs::File::create(m).unwrap());
                }
                let mut ctx = new_ctx(o);
                ctx.want_samples = if verbose { 5 } else { 0 };
                let r = run_case(ph, &mut src, &mut ctx, idx);
                if verbose {
                    for s in ctx.samples {
                        println!("case: {}", s.1);
                    }
                }
                r
            })
            .map(|h| {
                let clk = rx.recv().unwrap();
                while !h.is_finished() {
                    std::thread::sleep(Duration::from_millis(5));
                    if !h.is_finished() && thread_cpu(clk) > HANG_CPU_S {
                        unsafe { libc::_exit(EXIT_HANG) }
                    }
                }
                h.join().unwrap_or_else(|_| Err("thread panicked".into()))
            })
            .unwrap()
    });
    match r {
        Ok(()) => {
            println!("PASS");
            0
        }
        Err(m) => {
            println!("FAIL {m}");
            1
        }
    }
}

pub fn replay(props: &dyn Fn(&str) -> Option<Prop>, o: &Opts, file: &Path) -> i32 {
    let text = std::fs::read_to_string(file).expect("replay file");
    let prop_id = json_string(&text, "property").expect("property");
    let phase = json_string(&text, "phase").expect("phase");
    let idx = json_u64(&text, "idx").unwrap_or(0);
    let mut o = o.clone();
    o.prop = prop_id.clone();
    o.seed = json_u64(&text, "seed").unwrap_or(1);
    let prop = props(&prop_id).expect("unknown property");
    single(&prop, &o, &phase, idx, json_tape(&text), None, None, true)
}

// ---------------------------------------------------------------------------------------------
// supervisor

fn spawn_single(o: &Opts, phase: &str, idx: u64, tape: Option<&Path>, rest: Option<u64>, mirror: Option<&Path>) -> (Option<i32>, String) {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("single").arg(&o.prop).args(["--phase", phase, "--idx", &idx.to_string(), "--seed", &o.seed.to_string()]);
    c.args(["--config", &o.config]);
    if let Some(k) = &o.known {
        c.arg("--known").arg(k);
    }
    if o.thorough {
        c.args(["--tier", "thorough"]);
    }
    if let Some(t) = tape {
        c.arg("--tape").arg(t);
    }
    if let Some(r) = rest {
        c.args(["--rest", &r.to_string()]);
    }
    if let Some(m) = mirror {
        c.arg("--mirror").arg(m);
    }
    let out = c.stderr(std::process::Stdio::null()).output().expect("spawn");
    (out.status.code(), String::from_utf8_lossy(&out.stdout).to_string())
}

fn describe(code: Option<i32>) -> &'static str {
    match code {
        Some(EXIT_OOM) => "memory use out of proportion to the input",
        Some(EXIT_HANG) => "no end after 60 s of processor time",
        _ => "the process was killed by a signal (abort or stack overflow)",
    }
}

pub fn supervise(prop: &Prop, o: &Opts) -> i32 {
    let dir = o.out.parent().unwrap().to_path_buf();
    let _ = std::fs::create_dir_all(&dir);
    for attempt in 0..3 {
        let slots_path = dir.join(format!("slots-{}-{}-{}", o.prop, o.config, std::process::id()));
        let _ = std::fs::remove_file(&slots_path);
        let _ = std::fs::remove_file(&o.out);
        let slots = Slots::open(&slots_path, o.threads);
        for i in 0..=o.threads {
            slots.set(i, 0, 0);
        }
        let mut c = std::process::Command::new(std::env::current_exe().unwrap());
        c.arg("worker").arg(&o.prop);
        c.args(std::env::args().skip(3));
        c.arg("--slots").arg(&slots_path);
        let st = c.status().expect("spawn worker");
        let code = st.code();
        let crashed = !matches!(code, Some(0) | Some(1));
        if !crashed && o.out.exists() {
            let _ = std::fs::remove_file(&slots_path);
            return code.unwrap();
        }
        // Find out which case did it and confirm it in a process of its own
        let mut cands: Vec<(u64, u64, Option<(Vec<u64>, u64)>)> = Vec::new();
        let order: Vec<usize> = std::iter::once(o.threads).chain(0..o.threads).collect();
        for i in order {
            let c = slots.get(i);
            if c.0 != 0 {
                let c = (c.0, c.1 & !GUIDED, (c.1 & GUIDED != 0).then(|| slots.tape(i)));
                if !cands.contains(&c) {
                    cands.push(c);
                }
            }
        }
        let _ = std::fs::remove_file(&slots_path);
        let first = 1.min(cands.len());
        cands[first..].sort();
        for (p, idx, given) in cands {
            let ph = match prop.phases.get(p as usize - 1) {
                Some(p) => p,
                None => continue,
            };
            let mirror = dir.join(format!("mirror-{}-{}-{}", o.prop, o.config, std::process::id()));
            let tape_file = dir.join(format!("tape-{}-{}-{}", o.prop, o.config, std::process::id()));
            let (code, out) = match given {
                Some((t, rest)) => {
                    let text = format!("\"tape\":{}", jlist(&t, |v| v.to_string()));
                    let _ = std::fs::write(&tape_file, text);
                    spawn_single(o, ph.name, idx, Some(&tape_file), Some(rest), Some(&mirror))
                }
                None => spawn_single(o, ph.name, idx, None, None, Some(&mirror)),
            };
            if matches!(code, Some(0)) {
                let _ = std::fs::remove_file(&mirror);
                continue;
            }
            let raw = std::fs::read(&mirror).unwrap_or_default();
            let _ = std::fs::remove_file(&mirror);
            let tape: Vec<u64> = raw
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .collect();
            let msg = if code == Some(1) { out } else { describe(code).to_string() };
            // Shrink in separate processes; every evaluation of a hang is expensive
            let start = Instant::now();
            let budget = if code == Some(EXIT_HANG) { 0 } else { 150 };
            let small = shrink(tape, budget, &mut |cand| {
                if start.elapsed().as_secs() > 30 {
                    return None;
                }
                let text = format!("\"tape\":{}", jlist(cand, |v| v.to_string()));
                std::fs::write(&tape_file, text).ok()?;
                let (c, _) = spawn_single(o, ph.name, idx, Some(&tape_file), None, None);
                (c == code).then(|| cand.to_vec())
            });
            let _ = std::fs::remove_file(&tape_file);
            let path = write_replay(o, ph.name, idx, Some(&small), &msg);
            let mut total = new_ctx(o);
            total.cases = idx + 1;
            total.evals = idx + 1;
            finish(prop, o, &total, &[], &Some((ph.name.to_string(), path, msg)), false, 0.0);
            return 1;
        }
        eprintln!("worker ended with {code:?} (attempt {attempt}), no case confirmed");
    }
    2
}

pub fn read_tape_file(p: &Path) -> Vec<u64> {
    json_tape(&std::fs::read_to_string(p).unwrap()).unwrap_or_default()
}
