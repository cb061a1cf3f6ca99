//! The exploration framework: finite families of cases, a parallel exhaustive runner, a watchdog
//! for executions that do not end, crash attribution, known findings, replay files and evidence.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;

// ------------------------------------------------------------------ per-case memory cap

pub struct CapAlloc;
thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
const CASE_CAP: i64 = 1 << 30;

#[inline]
fn account(delta: i64) {
    let _ = NET.try_with(|n| {
        let v = n.get() + delta;
        n.set(v);
        let _ = CAP.try_with(|c| {
            if v > c.get() {
                c.set(i64::MAX);
                let slot = SLOT.with(|s| s.get());
                if slot < SLOTS {
                    slots()[slot].memory.store(1, SeqCst);
                }
                // parked until the watchdog has reported this case
                loop {
                    unsafe { libc::usleep(100_000) };
                }
            }
        });
    });
}

unsafe impl GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------ slots shared with the parent

pub const SLOTS: usize = 64;
#[repr(C)]
pub struct Slot {
    family: AtomicI64, // -1 when idle
    case: AtomicU64,
    ticks: AtomicU64,
    tid: AtomicI64,
    memory: AtomicI64,
}
static mut SLOT_PTR: *const Slot = std::ptr::null();

fn slots() -> &'static [Slot] {
    unsafe { std::slice::from_raw_parts(SLOT_PTR, SLOTS) }
}

/// Maps the slot table from `path` (created by the parent), so that the parent can tell which cases
/// were being executed when this process died.
fn map_slots(path: &str) {
    let len = std::mem::size_of::<Slot>() * SLOTS;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("slot file");
    f.set_len(len as u64).expect("slot file");
    use std::os::fd::AsRawFd;
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SLOT_PTR = p as *const Slot;
    }
}

/// Marks progress inside a long case (one of many executions of it has ended).
pub fn tick() {
    let s = SLOT.with(|s| s.get());
    if s < SLOTS {
        slots()[s].ticks.fetch_add(1, SeqCst);
    }
}

// ------------------------------------------------------------------ families

/// What one worker collects.
#[derive(Default)]
pub struct Local {
    /// implementation operations executed and compared with the model
    pub calls: u64,
    /// cases that are non-trivial by the family's rule
    pub nontrivial: u64,
    pub states: HashSet<u64>,
    pub tags: BTreeMap<&'static str, u64>,
    fails: Vec<(Option<String>, String)>,
}

impl Local {
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.fails.len() < 20 {
            self.fails.push((None, msg.into()));
        }
    }
    /// A failure of an exactly characterised kind (the key), which the known findings may list.
    pub fn fail_key(&mut self, key: &str, msg: impl Into<String>) {
        if self.fails.len() < 20 {
            self.fails.push((Some(key.to_string()), msg.into()));
        }
    }
    pub fn state<H: Hash>(&mut self, h: &H) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        self.states.insert(s.finish());
    }
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1;
    }
    pub fn tag_n(&mut self, t: &'static str, n: u64) {
        *self.tags.entry(t).or_insert(0) += n;
    }
    /// enough failures, no more of them are kept
    pub fn full(&self) -> bool {
        self.fails.len() >= 20
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
}

#[macro_export]
macro_rules! ensure {
    ($st:expr, $c:expr, $($a:tt)*) => { if !$c && !$st.full() { $st.fail(format!($($a)*)); } };
}

pub trait Family: Send + Sync {
    fn name(&self) -> String;
    fn len(&self) -> u64;
    fn describe(&self, i: u64) -> String;
    fn check(&self, i: u64, st: &mut Local);
    /// what makes a case of this family non-trivial
    fn rule(&self) -> String {
        String::new()
    }
}

pub struct Fam {
    pub name: String,
    pub rule: String,
    pub len: u64,
    pub describe: Box<dyn Fn(u64) -> String + Send + Sync>,
    pub check: Box<dyn Fn(u64, &mut Local) + Send + Sync>,
}
impl Family for Fam {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn len(&self) -> u64 {
        self.len
    }
    fn describe(&self, i: u64) -> String {
        (self.describe)(i)
    }
    fn check(&self, i: u64, st: &mut Local) {
        (self.check)(i, st)
    }
    fn rule(&self) -> String {
        self.rule.clone()
    }
}

/// A family over a decoded case type.
pub fn fam<C: std::fmt::Debug + 'static>(
    name: impl Into<String>,
    rule: impl Into<String>,
    len: u64,
    decode: impl Fn(u64) -> C + Send + Sync + Clone + 'static,
    check: impl Fn(&C, &mut Local) + Send + Sync + 'static,
) -> Box<dyn Family> {
    let d2 = decode.clone();
    Box::new(Fam {
        name: name.into(),
        rule: rule.into(),
        len,
        describe: Box::new(move |i| format!("{:?}", d2(i))),
        check: Box::new(move |i, st| check(&decode(i), st)),
    })
}

/// A family over an explicit list of cases.
pub fn fam_list<C: std::fmt::Debug + Clone + Send + Sync + 'static>(
    name: impl Into<String>,
    rule: impl Into<String>,
    list: Vec<C>,
    check: impl Fn(&C, &mut Local) + Send + Sync + 'static,
) -> Box<dyn Family> {
    let l = std::sync::Arc::new(list);
    let n = l.len() as u64;
    fam(name, rule, n, move |i| l[i as usize].clone(), check)
}

struct Scaled {
    inner: Box<dyn Family>,
    exps: &'static [(i32, i32)],
}
impl Family for Scaled {
    fn name(&self) -> String {
        let e: Vec<String> = self.exps.iter().map(|e| format!("2^{}/2^{}", e.0, e.1)).collect();
        format!("{}; all lengths multiplied with {} (64/32 bit scalars)", self.inner.name(), e.join(", "))
    }
    fn len(&self) -> u64 {
        self.inner.len() * self.exps.len() as u64
    }
    fn describe(&self, i: u64) -> String {
        let n = self.exps.len() as u64;
        format!("scale {:?}: {}", self.exps[(i % n) as usize], self.inner.describe(i / n))
    }
    fn check(&self, i: u64, st: &mut Local) {
        let n = self.exps.len() as u64;
        crate::geo::with_scale(self.exps[(i % n) as usize], || self.inner.check(i / n, st));
    }
    fn rule(&self) -> String {
        self.inner.rule()
    }
}

struct Zeros {
    inner: Box<dyn Family>,
}
const ZEROS: [u8; 4] = [0b11111, 0b01101, 0b10010, 0b00001];
impl Family for Zeros {
    fn name(&self) -> String {
        format!("{}; with 4 patterns of positive and negative zeros", self.inner.name())
    }
    fn len(&self) -> u64 {
        self.inner.len() * 4
    }
    fn describe(&self, i: u64) -> String {
        format!("zeros {:05b}: {}", ZEROS[(i % 4) as usize], self.inner.describe(i / 4))
    }
    fn check(&self, i: u64, st: &mut Local) {
        crate::geo::with_zero_pattern(ZEROS[(i % 4) as usize], || self.inner.check(i / 4, st));
    }
    fn rule(&self) -> String {
        self.inner.rule()
    }
}

/// The families whose name has one of the given parts, once more with zeros of both signs.
pub fn with_zeros(
    mut v: Vec<Box<dyn Family>>,
    base: fn(Tier) -> Vec<Box<dyn Family>>,
    parts: &[&str],
) -> Vec<Box<dyn Family>> {
    for p in parts {
        let n = v.len();
        for inner in base(Tier::Quick) {
            if inner.name().contains(p) {
                v.push(Box::new(Zeros { inner }));
            }
        }
        assert!(v.len() > n, "no family has {p} in its name");
    }
    v
}

struct Digits {
    inner: Box<dyn Family>,
}
impl Family for Digits {
    fn name(&self) -> String {
        format!("{}; all lengths multiplied with 1+2^-40 (32 bit scalars: 1+2^-12)", self.inner.name())
    }
    fn len(&self) -> u64 {
        self.inner.len()
    }
    fn describe(&self, i: u64) -> String {
        format!("many digits: {}", self.inner.describe(i))
    }
    fn check(&self, i: u64, st: &mut Local) {
        crate::geo::in_many_digits(|| self.inner.check(i, st));
    }
    fn rule(&self) -> String {
        self.inner.rule()
    }
}

/// The families whose name has one of the given parts, once more with coordinates of many digits.
pub fn with_digits(
    mut v: Vec<Box<dyn Family>>,
    base: fn(Tier) -> Vec<Box<dyn Family>>,
    parts: &[&str],
) -> Vec<Box<dyn Family>> {
    for p in parts {
        let n = v.len();
        for inner in base(Tier::Quick) {
            if inner.name().contains(p) {
                v.push(Box::new(Digits { inner }));
            }
        }
        assert!(v.len() > n, "no family has {p} in its name");
    }
    v
}

/// The families of a property, and those whose name has one of the given parts once more at every scale
/// of the list: pairs of powers of two for 64 and 32 bit scalars.
pub fn with_scales(
    base: fn(Tier) -> Vec<Box<dyn Family>>,
    t: Tier,
    parts: &[&str],
    exps: &'static [(i32, i32)],
) -> Vec<Box<dyn Family>> {
    let mut v = base(t);
    for p in parts {
        let n = v.len();
        for inner in base(Tier::Quick) {
            if inner.name().contains(p) {
                let rounded = inner.name().contains("coordinates that are rounded");
                v.push(Box::new(Scaled { inner, exps: if rounded { &ROUNDED_SCALES } else { exps } }));
            }
        }
        assert!(v.len() > n, "no family has {p} in its name");
    }
    v
}
/// Scales at which comparisons with the machine epsilon are still below the smallest distance, and
/// fourth powers of lengths can be represented.
pub const SCALES: [(i32, i32); 4] = [(-25, -11), (-12, -6), (20, 8), (200, 18)];
/// Scales at which points are still farther apart than the machine epsilon, but cross products are below it
pub const CROSS_SCALES: [(i32, i32); 6] = [(-44, -16), (-25, -11), (-12, -6), (20, 8), (200, 18), (430, 45)];
/// The same, where fourth powers of lengths have to be representable
pub const AREA_SCALES: [(i32, i32); 5] = [(-44, -16), (-25, -11), (-12, -6), (20, 8), (200, 18)];
/// Scales for grids whose steps are as small as 1/1000
const ROUNDED_SCALES: [(i32, i32); 4] = [(-32, -7), (-12, -6), (20, 8), (200, 18)];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn quick(self) -> bool {
        self == Tier::Quick
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub families: fn(Tier) -> Vec<Box<dyn Family>>,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
}

// ------------------------------------------------------------------ known findings

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

/// known_findings.txt: `open|property=<id>|key=<key>|<what fails>`, `fixed: property=<id> <commit> <what>`
pub fn load_known(path: &str, prop: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let p: Vec<&str> = line.splitn(4, '|').collect();
        if p.len() == 4 && p[0] == "open" {
            let property = p[1].trim_start_matches("property=").to_string();
            if property == prop {
                v.push(Known {
                    property,
                    key: p[2].trim_start_matches("key=").to_string(),
                    what: p[3].to_string(),
                });
            }
        }
    }
    v
}

// ------------------------------------------------------------------ running

#[derive(Clone)]
pub struct Viol {
    pub family: usize,
    pub fname: String,
    pub case: u64,
    pub desc: String,
    pub msg: String,
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub evidence: String,
    pub replay_dir: String,
    pub known: String,
    pub slots: String,
    pub only: Option<String>,
    pub threads: usize,
}

struct FamStat {
    name: String,
    rule: String,
    cases: u64,
    len: u64,
    calls: u64,
    nontrivial: u64,
    states: usize,
    wall: f64,
    sample: Vec<String>,
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        PANIC_MSG.with(|p| *p.borrow_mut() = m);
    }));
}

pub fn panic_text() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

/// Runs one case under catch_unwind; returns its failures.
fn run_case(f: &dyn Family, i: u64, st: &mut Local) -> Vec<(Option<String>, String)> {
    st.fails.clear();
    let r = catch_unwind(AssertUnwindSafe(|| f.check(i, st)));
    if r.is_err() {
        let m = panic_text();
        st.fails.push((None, format!("panic: {}", m.replace('\n', " "))));
    }
    std::mem::take(&mut st.fails)
}

fn thread_cpu(tid: i64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?;
    let ns: f64 = s.split_whitespace().next()?.parse().ok()?;
    Some(ns / 1e9)
}

pub fn write_replay(o: &Opts, prop: &str, v: &Viol) -> String {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let path = format!("{}/{}.replay", o.replay_dir, prop);
    let tier = if o.tier.quick() { "quick" } else { "thorough" };
    let txt = format!(
        "property={prop}\ntier={tier}\nfamily={}\nfamily_name={}\ncase={}\n# input: {}\n# {}\n# replay with: ./run.sh replay {path}\n",
        v.family,
        v.fname,
        v.case,
        v.desc.replace('\n', " "),
        v.msg.replace('\n', "\n# ")
    );
    let _ = std::fs::write(&path, txt);
    path
}

fn report_violation(o: &Opts, prop: &str, v: &Viol) {
    let path = write_replay(o, prop, v);
    let out = std::io::stdout();
    let mut out = out.lock();
    let _ = writeln!(out, "family: {} case {}", v.fname, v.case);
    let _ = writeln!(out, "input: {}", trunc(&v.desc, 2000));
    let _ = writeln!(out, "what: {}", trunc(&v.msg, 3000));
    let _ = writeln!(out, "VIOLATION property={prop} replay={path}");
    let _ = out.flush();
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    o: &Opts,
    p: &Prop,
    fams: &[FamStat],
    states: usize,
    tags: &BTreeMap<&'static str, u64>,
    wall: f64,
    violations: usize,
    known_hits: &BTreeMap<String, u64>,
    complete: bool,
) {
    let mut s = String::new();
    let mut extra = String::new();
    for (part, text) in [
        ("all lengths multiplied", "families repeated at other scales"),
        ("positive and negative zeros", "families repeated with zeros of both signs"),
        ("rounded", "figures with coordinates that are rounded"),
        ("nearly", "figures decided by the last digits"),
    ] {
        if fams.iter().any(|f| f.name.contains(part)) {
            extra.push_str("; ");
            extra.push_str(text);
        }
    }
    let tier = if o.tier.quick() { "quick" } else { "thorough" };
    let cases: u64 = fams.iter().map(|f| f.cases).sum();
    let calls: u64 = fams.iter().map(|f| f.calls).sum();
    let nt: u64 = fams.iter().map(|f| f.nontrivial).sum();
    s.push_str(&format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        p.id, o.seed
    ));
    s.push_str(&format!("  \"states\": {states},\n  \"transitions\": {calls},\n  \"traces_validated_against_impl\": {cases},\n"));
    s.push_str(&format!("  \"nontrivial_cases\": {nt},\n  \"exhaustive\": {complete},\n"));
    s.push_str(&format!("  \"explanation\": \"{}\",\n", esc(&format!(
        "states = distinct (reference-model state, outcome) values reached, hashed; transitions = operations of the real implementation executed and compared with the reference model; traces = complete cases (input, operation sequence or schedule set) whose every observation was compared. Bounds: {}{}. The families below list every space with its size.", p.bounds, extra))));
    s.push_str("  \"families\": [\n");
    for (i, f) in fams.iter().enumerate() {
        s.push_str(&format!(
            "   {{\"name\": \"{}\", \"cases\": {}, \"space\": {}, \"impl_operations\": {}, \"nontrivial\": {}, \"states\": {}, \"nontrivial_rule\": \"{}\", \"wall_s\": {:.2}}}{}\n",
            esc(&f.name), f.cases, f.len, f.calls, f.nontrivial, f.states, esc(&f.rule), f.wall,
            if i + 1 < fams.len() { "," } else { "" }
        ));
    }
    s.push_str("  ],\n  \"observed\": {");
    let mut first = true;
    for (k, v) in tags {
        if !first {
            s.push_str(", ");
        }
        first = false;
        s.push_str(&format!("\"{}\": {v}", esc(k)));
    }
    s.push_str("},\n  \"known_finding_hits\": {");
    let mut first = true;
    for (k, v) in known_hits {
        if !first {
            s.push_str(", ");
        }
        first = false;
        s.push_str(&format!("\"{}\": {v}", esc(k)));
    }
    s.push_str("},\n  \"samples\": [");
    let samples: Vec<String> = fams
        .iter()
        .flat_map(|f| f.sample.iter().map(move |d| format!("\"{}: {}\"", esc(&f.name), esc(&trunc(d, 400)))))
        .collect();
    s.push_str(&samples.join(",\n   "));
    s.push_str("]\n },\n \"assumptions\": [");
    s.push_str(&p.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect::<Vec<_>>().join(",\n  "));
    s.push_str(&format!("],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n"));
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&o.evidence, s).expect("evidence file");
}

/// Runs `f` on a thread with the stack that threads have by default, so that recursion as deep as
/// the input is long is noticed. Panics go through.
pub fn small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, || catch_unwind(AssertUnwindSafe(f)).map_err(|_| panic_text()))
            .expect("thread")
            .join()
            .expect("thread")
    });
    r.unwrap_or_else(|m| panic!("{m}"))
}

struct WorkerOut {
    st: Local,
    viols: Vec<Viol>,
    known: BTreeMap<String, u64>,
    cases: u64,
}

/// Explores every family of the property. Returns the exit code.
pub fn run_prop(p: &Prop, o: &Opts) -> i32 {
    install_hook();
    map_slots(&o.slots);
    for s in slots() {
        s.family.store(-1, SeqCst);
        s.memory.store(0, SeqCst);
    }
    let t0 = Instant::now();
    let known = load_known(&o.known, p.id);
    let families = (p.families)(o.tier);
    let done = AtomicBool::new(false);
    let report = Mutex::new(());
    let mut fams: Vec<FamStat> = Vec::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols: Vec<Viol> = Vec::new();
    let fams_ref = &families;
    std::thread::scope(|sc| {
        // the watchdog: a case that does not end is a violation (every call must return)
        let (done_r, report_r) = (&done, &report);
        sc.spawn(move || {
            let mut seen: Vec<(i64, u64, u64, f64, Instant)> =
                vec![(-1, 0, 0, 0.0, Instant::now()); SLOTS];
            while !done_r.load(SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for (k, s) in slots().iter().enumerate() {
                    let fam = s.family.load(SeqCst);
                    if fam < 0 {
                        seen[k].0 = -1;
                        continue;
                    }
                    let (case, ticks) = (s.case.load(SeqCst), s.ticks.load(SeqCst));
                    let tid = s.tid.load(SeqCst);
                    let cpu = thread_cpu(tid).unwrap_or(0.0);
                    let mem = s.memory.load(SeqCst) != 0;
                    if (seen[k].0, seen[k].1, seen[k].2) != (fam, case, ticks) {
                        seen[k] = (fam, case, ticks, cpu, Instant::now());
                        if !mem {
                            continue;
                        }
                    }
                    let hang = cpu - seen[k].3 > 30.0 || seen[k].4.elapsed().as_secs_f64() > 120.0;
                    if mem || hang {
                        let _g = report_r.lock();
                        if done_r.load(SeqCst) {
                            return;
                        }
                        let f = &fams_ref[fam as usize];
                        let v = Viol {
                            family: fam as usize,
                            fname: f.name(),
                            case,
                            desc: f.describe(case),
                            msg: if mem {
                                "the execution does not end: it allocated more than 1 GB".into()
                            } else {
                                "the execution does not end within 30 s of processor time".to_string()
                            },
                        };
                        write_evidence(o, p, &[], 0, &BTreeMap::new(), t0.elapsed().as_secs_f64(), 1, &BTreeMap::new(), false);
                        report_violation(o, p.id, &v);
                        unsafe { libc::_exit(1) };
                    }
                }
            }
        });
        for (fi, f) in families.iter().enumerate() {
            if let Some(only) = &o.only {
                if !f.name().contains(only.as_str()) {
                    continue;
                }
            }
            let tf = Instant::now();
            let len = f.len();
            let next = AtomicU64::new(0);
            let limit = AtomicU64::new(u64::MAX);
            let chunk = (len / (o.threads as u64 * 64)).clamp(1, 4096);
            // development aid: keep going after a violation, to see how many there are
            let survey = std::env::var("MC_SURVEY").is_ok();
            let outs: Vec<WorkerOut> = std::thread::scope(|sw| {
                let hs: Vec<_> = (0..o.threads)
                    .map(|w| {
                        let (next, limit, known) = (&next, &limit, &known);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(sw, move || {
                                let mut out = WorkerOut {
                                    st: Local::default(),
                                    viols: Vec::new(),
                                    known: BTreeMap::new(),
                                    cases: 0,
                                };
                                SLOT.with(|s| s.set(w));
                                let slot = &slots()[w];
                                slot.tid.store(unsafe { libc::syscall(libc::SYS_gettid) }, SeqCst);
                                loop {
                                    let a = next.fetch_add(chunk, SeqCst);
                                    if a >= len {
                                        break;
                                    }
                                    for i in a..(a + chunk).min(len) {
                                        if i > limit.load(SeqCst) {
                                            break;
                                        }
                                        slot.case.store(i, SeqCst);
                                        slot.family.store(fi as i64, SeqCst);
                                        CAP.with(|c| c.set(NET.with(|n| n.get()) + CASE_CAP));
                                        let fails = run_case(f.as_ref(), i, &mut out.st);
                                        CAP.with(|c| c.set(i64::MAX));
                                        slot.family.store(-1, SeqCst);
                                        out.cases += 1;
                                        for (key, msg) in fails {
                                            let desc = f.describe(i);
                                            let k = key.unwrap_or_else(|| format!("{}: {desc}", f.name()));
                                            if known.iter().any(|x| x.key == k) {
                                                *out.known.entry(k).or_insert(0) += 1;
                                            } else {
                                                if !survey {
                                                    limit.fetch_min(i, SeqCst);
                                                }
                                                out.viols.push(Viol {
                                                    family: fi,
                                                    fname: f.name(),
                                                    case: i,
                                                    desc,
                                                    msg: format!("{msg} [key {k}]"),
                                                });
                                            }
                                        }
                                    }
                                }
                                SLOT.with(|s| s.set(usize::MAX));
                                out
                            })
                            .expect("worker")
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("worker")).collect()
            });
            let mut fs = FamStat {
                name: f.name(),
                rule: f.rule(),
                cases: 0,
                len,
                calls: 0,
                nontrivial: 0,
                states: 0,
                wall: 0.0,
                sample: Vec::new(),
            };
            let mut fam_states: HashSet<u64> = HashSet::new();
            for w in outs {
                fs.cases += w.cases;
                fs.calls += w.st.calls;
                fs.nontrivial += w.st.nontrivial;
                fam_states.extend(w.st.states);
                for (k, v) in w.st.tags {
                    *tags.entry(k).or_insert(0) += v;
                }
                for (k, v) in w.known {
                    *known_hits.entry(k).or_insert(0) += v;
                }
                viols.extend(w.viols);
            }
            fs.states = fam_states.len();
            states.extend(fam_states);
            fs.wall = tf.elapsed().as_secs_f64();
            if len > 0 {
                fs.sample.push(f.describe(len / 2));
            }
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!(
                    "{} {}: {}/{} cases, {} ops, {} nontrivial, {} states, {:.2}s",
                    p.id, fs.name, fs.cases, fs.len, fs.calls, fs.nontrivial, fs.states, fs.wall
                );
            }
            fams.push(fs);
            if !viols.is_empty() {
                break;
            }
        }
        done.store(true, SeqCst);
    });
    let _g = report.lock();
    viols.sort_by_key(|v| (v.family, v.case));
    for k in &known {
        println!("KNOWN-FINDING: property={} {} (seen on {} cases of this run)", k.property, k.what, known_hits.get(&k.key).copied().unwrap_or(0));
    }
    let wall = t0.elapsed().as_secs_f64();
    let complete = viols.is_empty() && o.only.is_none();
    write_evidence(o, p, &fams, states.len(), &tags, wall, viols.len(), &known_hits, complete);
    if std::env::var("MC_VERBOSE").is_ok() {
        for (k, v) in &tags {
            eprintln!("  {k}: {v}");
        }
        let bad: HashSet<(usize, u64)> = viols.iter().map(|v| (v.family, v.case)).collect();
        eprintln!("  {} violations in {} cases", viols.len(), bad.len());
        let mut shown = BTreeMap::new();
        for v in viols.iter() {
            let n = shown.entry(v.fname.clone()).or_insert(0);
            *n += 1;
            if *n <= 5 {
                eprintln!("  !! {} #{}: {} -- {}", v.fname, v.case, v.desc, v.msg);
            }
        }
    }
    if let Some(v) = viols.first() {
        report_violation(o, p.id, v);
        return 1;
    }
    let cases: u64 = fams.iter().map(|f| f.cases).sum();
    let calls: u64 = fams.iter().map(|f| f.calls).sum();
    println!("OK property={} cases={cases} operations={calls} states={} wall={wall:.1}s", p.id, states.len());
    0
}

/// Runs a single case in this process. Returns the exit code.
pub fn run_one(p: &Prop, o: &Opts, family: usize, case: u64) -> i32 {
    install_hook();
    map_slots(&o.slots);
    let families = (p.families)(o.tier);
    let f = &families[family];
    println!("property {} family {} case {case}\ninput: {}", p.id, f.name(), f.describe(case));
    let fails = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || {
                let mut st = Local::default();
                run_case(f.as_ref(), case, &mut st)
            })
            .expect("worker")
            .join()
            .expect("worker")
    });
    for (k, m) in &fails {
        println!("{} {}", k.as_deref().unwrap_or(""), m);
    }
    if fails.is_empty() {
        println!("the property holds on this case");
        0
    } else {
        println!("the property is broken on this case");
        1
    }
}

/// The cases that were being executed when the process that owned `path` died.
pub fn active_cases(path: &str) -> Vec<(usize, u64)> {
    map_slots(path);
    slots()
        .iter()
        .filter(|s| s.tid.load(SeqCst) != 0 && s.family.load(SeqCst) >= 0)
        .map(|s| (s.family.load(SeqCst) as usize, s.case.load(SeqCst)))
        .collect()
}

pub fn report_crash(p: &Prop, o: &Opts, family: usize, case: u64, how: &str, wall: f64) {
    let families = (p.families)(o.tier);
    let f = &families[family];
    let v = Viol {
        family,
        fname: f.name(),
        case,
        desc: f.describe(case),
        msg: format!("the process running this case died: {how}"),
    };
    write_evidence(o, p, &[], 0, &BTreeMap::new(), wall, 1, &BTreeMap::new(), false);
    report_violation(o, p.id, &v);
}
