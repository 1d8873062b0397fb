//! Common machinery of the checkers: bounded exhaustive exploration with
//! counted states / transitions / traces, replayable violations, a
//! known-findings filter, and evidence output.
//!
//! Nothing in here samples: every `case` is reached by an enumeration whose
//! bounds the caller reports with `Ctx::bound`.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- allocator

/// Allocator that turns an absurd allocation request made while a case runs
/// into a violation of that case (a request of this size would abort the
/// process of a user of the library, so it can not be caught).
pub struct Guard;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}
static CURRENT: Mutex<Option<&'static Ctx>> = Mutex::new(None);

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check_alloc(n);
        System.realloc(p, l, n)
    }
}

fn check_alloc(n: usize) {
    let lim = LIMIT.try_with(|l| l.get()).unwrap_or(usize::MAX);
    if n > lim {
        let _ = LIMIT.try_with(|l| l.set(usize::MAX));
        let ctx = CURRENT.try_lock().ok().and_then(|c| *c);
        if let Some(ctx) = ctx {
            let label = SLOT.with(|l| l.lock().unwrap().1.clone());
            ctx.fatal(
                &label,
                &format!("requested a single allocation of {n} bytes (limit {lim})"),
            );
        }
    }
}

/// What a thread is doing: the start of the running case and its label.
type Slot = Arc<Mutex<(Option<Instant>, String)>>;
static SLOTS: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// A case that runs for this long does not terminate: the cases are tiny.
const CASE_LIMIT: Duration = Duration::from_secs(200);

thread_local! {
    static SLOT: Slot = {
        let s: Slot = Arc::new(Mutex::new((None, String::new())));
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

// ------------------------------------------------------------------ context

pub type Res = Result<(), String>;

pub struct Ctx {
    pub id: &'static str,
    pub level: &'static str,
    pub thorough: bool,
    pub seed: u64,
    replay: Option<String>,
    known: BTreeMap<String, String>,
    root: String,
    start: Instant,
    deadline: Duration,
    states: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    traces: AtomicU64,
    skipped: AtomicU64,
    capped: AtomicBool,
    outcomes: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    sampled: AtomicU64,
    known_hit: Mutex<BTreeSet<String>>,
    bounds: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    replayed: AtomicU64,
    pub alloc_limit: AtomicUsize,
    finished: Mutex<bool>,
}

pub struct Spec {
    pub id: &'static str,
    /// `model_checking`, `fault_enumeration` or `exploration`
    pub level: &'static str,
    pub run: fn(&Ctx),
}

pub fn fnv(bytes: &[u8]) -> u64 {
    // 64-bit FNV-1a with a final avalanche; only used to count distinct
    // states, never to decide anything.
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

static SURVEY: Mutex<BTreeMap<String, (u64, String, String)>> = Mutex::new(BTreeMap::new());
fn survey() -> bool {
    static S: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var("KIT_SURVEY").is_ok())
}

impl Ctx {
    /// Does the tier ask for the deep exploration?
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Declare a bound of the exploration (goes to the evidence).
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }

    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// One transition: one operation of the code under test was executed.
    pub fn step(&self) {
        self.transitions.fetch_add(1, Ordering::Relaxed);
    }
    pub fn steps(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }

    /// A state was observed. Returns true when it is new.
    pub fn state(&self, canonical: &[u8]) -> bool {
        let h = fnv(canonical);
        self.states[(h % 64) as usize].lock().unwrap().insert(h)
    }

    /// Count an outcome class (printed, so that vacuity can be seen).
    pub fn outcome(&self, class: &str) {
        let mut m = self.outcomes.lock().unwrap();
        if let Some(v) = m.get_mut(class) {
            *v += 1;
        } else {
            m.insert(class.to_string(), 1);
        }
    }

    /// Has the time cap been reached? Enumerations ask this between cases;
    /// a capped run says so in its evidence.
    pub fn out_of_time(&self) -> bool {
        if self.start.elapsed() > self.deadline {
            self.capped.store(true, Ordering::Relaxed);
            true
        } else {
            false
        }
    }

    /// One complete trace / input evaluated against the real code.
    pub fn case(&self, label: impl FnOnce() -> String, f: impl FnOnce() -> Res) -> bool {
        let label = label();
        if let Some(r) = &self.replay {
            if *r != label {
                self.skipped.fetch_add(1, Ordering::Relaxed);
                return true;
            }
            self.replayed.fetch_add(1, Ordering::Relaxed);
        }
        let n = self.traces.fetch_add(1, Ordering::Relaxed);
        // keep the 1st, 2nd, 4th, 8th ... case as written-out samples
        if (n + 1).is_power_of_two() && self.sampled.fetch_add(1, Ordering::Relaxed) < 24 {
            self.samples.lock().unwrap().push(label.clone());
        }
        SLOT.with(|l| *l.lock().unwrap() = (Some(Instant::now()), label));
        LIMIT.with(|l| l.set(self.alloc_limit.load(Ordering::Relaxed)));
        let r = guarded(f);
        LIMIT.with(|l| l.set(usize::MAX));
        SLOT.with(|l| l.lock().unwrap().0 = None);
        match r {
            Ok(()) => true,
            Err(m) => {
                let label = SLOT.with(|l| l.lock().unwrap().1.clone());
                self.fail(&label, &m);
                false
            }
        }
    }

    /// Run the cases of a lazily enumerated space on all cores.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
        std::thread::scope(|s| {
            for _ in 0..threads.min(items.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= items.len() || self.out_of_time() {
                            break;
                        }
                        f(&items[i]);
                    })
                    .unwrap();
            }
        });
    }

    fn fail(&self, label: &str, msg: &str) {
        if let Some(what) = self.known.get(label) {
            self.known_hit
                .lock()
                .unwrap()
                .insert(format!("{label} :: {what}"));
            return;
        }
        if survey() {
            // development only: collects kinds of violations, never passes
            let kind: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(70).collect();
            let mut s = SURVEY.lock().unwrap();
            let e = s.entry(kind).or_insert((0, label.to_string(), msg.to_string()));
            e.0 += 1;
            if label.len() < e.1.len() {
                e.1 = label.to_string();
                e.2 = msg.to_string();
            }
            return;
        }
        self.fatal(label, msg);
    }

    fn fatal(&self, label: &str, msg: &str) -> ! {
        let mut g = self.finished.lock().unwrap();
        if *g {
            drop(g);
            // another thread is reporting and about to exit
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        *g = true;
        let dir = format!("{}/evidence/replay", self.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.txt", self.id);
        let _ = std::fs::write(
            &path,
            format!(
                "property: {}\nreplay with: ./check.sh {} --replay {}\nlabel: {}\nmessage: {}\n",
                self.id, self.id, path, label, msg
            ),
        );
        self.evidence(1);
        println!("case: {label}");
        println!("what: {msg}");
        println!("VIOLATION property={} replay={}", self.id, path);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }

    fn evidence(&self, violations: u64) {
        let states: usize = self
            .states
            .iter()
            .map(|s| s.lock().map(|s| s.len()).unwrap_or(0))
            .sum();
        let traces = self.traces.load(Ordering::Relaxed);
        let transitions = self.transitions.load(Ordering::Relaxed).max(traces);
        let samples = self.samples.lock().unwrap();
        let outcomes = self.outcomes.lock().unwrap();
        let bounds = self.bounds.lock().unwrap();
        let capped = self.capped.load(Ordering::Relaxed);
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            self.level
        );
        let list = |v: &[String]| {
            v.iter()
                .map(|s| {
                    let s: String = s.chars().take(400).collect();
                    format!("\"{}\"", esc(&s))
                })
                .collect::<Vec<_>>()
                .join(", ")
        };
        if self.level == "model_checking" {
            let _ = write!(
                j,
                "  \"states\": {states},\n  \"transitions\": {transitions},\n  \"traces_validated_against_impl\": {traces},\n"
            );
        } else {
            let _ = write!(
                j,
                "  \"evaluations\": {traces},\n  \"distinct_nontrivial\": {states},\n  \"transitions\": {transitions},\n  \"rule\": \"every element of the bounded space listed in 'bounds' is one case, run on the real code; distinct_nontrivial counts the distinct observed results or states\",\n"
            );
        }
        let _ = write!(
            j,
            "  \"exhaustive\": {},\n  \"time_capped\": {},\n  \"bounds\": [{}],\n  \"outcomes\": {{{}}},\n  \"samples\": [{}]\n }},\n",
            !capped && self.replay.is_none() && violations == 0,
            capped,
            list(&bounds),
            outcomes
                .iter()
                .map(|(k, v)| format!("\"{}\": {}", esc(k), v))
                .collect::<Vec<_>>()
                .join(", "),
            list(&samples)
        );
        let _ = write!(
            j,
            " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            list(&self.assumptions.lock().unwrap()),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        std::fs::write(format!("{}/evidence/{}.json", self.root, self.id), j)
            .expect("write evidence");
    }
}

/// Run `f`, turning a panic into an error with the panic's message.
pub fn guarded(f: impl FnOnce() -> Res) -> Res {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    match r {
        Ok(r) => r,
        Err(_) => {
            LIMIT.with(|l| l.set(usize::MAX));
            Err(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone())))
        }
    }
}

/// Run `f` and report whether it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b));
        }
    }};
}

/// Call `f` with every sequence of exactly `len` indices below `n`, in
/// lexicographic order.
pub fn sequences(n: usize, len: usize, mut f: impl FnMut(&[usize])) {
    if n == 0 && len > 0 {
        return;
    }
    let mut v = vec![0usize; len];
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < n {
                break;
            }
            v[i] = 0;
        }
    }
}

/// Every sequence with length `0..=max`.
pub fn sequences_upto(n: usize, max: usize, mut f: impl FnMut(&[usize])) {
    for len in 0..=max {
        sequences(n, len, &mut f);
    }
}

/// Every sequence of length `len`, collected.
pub fn all_sequences(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    sequences(n, len, |s| out.push(s.to_vec()));
    out
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

pub fn main(specs: &[Spec]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(spec) = specs.iter().find(|s| s.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = tier == "thorough";
    let mut replay = None;
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let p = args.get(i + 1).expect("--replay needs a file");
        let t = std::fs::read_to_string(p).expect("replay file");
        replay = t
            .lines()
            .find_map(|l| l.strip_prefix("label: "))
            .map(|s| s.to_string());
    }
    // known findings: "finding: property=<id> label=<label> :: <what>"
    let mut known = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known-findings.txt")) {
        let p = format!("finding: property={id} label=");
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&p) {
                if let Some((label, what)) = r.split_once(" :: ") {
                    known.insert(label.to_string(), what.to_string());
                }
            }
        }
    }
    let deadline = std::env::var("VERIF_DEADLINE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 3600 } else { 240 });
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        id: spec.id,
        level: spec.level,
        thorough,
        seed,
        replay,
        known,
        root,
        start: Instant::now(),
        deadline: Duration::from_secs(deadline),
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        skipped: AtomicU64::new(0),
        capped: AtomicBool::new(false),
        outcomes: Default::default(),
        samples: Default::default(),
        sampled: AtomicU64::new(0),
        known_hit: Default::default(),
        bounds: Default::default(),
        assumptions: Default::default(),
        replayed: AtomicU64::new(0),
        alloc_limit: AtomicUsize::new(usize::MAX),
        finished: Mutex::new(false),
    }));
    *CURRENT.lock().unwrap() = Some(ctx);
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info.to_string().replace('\n', " ");
        if QUIET.with(|q| q.get()) {
            PANIC_MSG.with(|m| *m.borrow_mut() = msg);
        } else {
            if let Ok(mut l) = LAST_PANIC.try_lock() {
                if l.is_empty() {
                    *l = msg;
                }
            }
            default(info)
        }
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let slots: Vec<Slot> = SLOTS.lock().unwrap().clone();
        for s in slots {
            let Ok(g) = s.try_lock() else { continue };
            if let (Some(t), label) = &*g {
                if t.elapsed() > CASE_LIMIT {
                    let label = label.clone();
                    drop(g);
                    ctx.fatal(&label, "does not terminate");
                }
            }
        }
    });
    // The exploration itself runs on a big stack: some properties recurse.
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, || (spec.run)(ctx))
            .unwrap()
            .join()
    });
    if r.is_err() {
        // Setting up a state of the exploration runs the code under test too.
        let m = LAST_PANIC.lock().unwrap().clone();
        ctx.fatal("exploration", &format!("panic while exploring: {m}"));
    }
    if survey() {
        for (n, label, msg) in SURVEY.lock().unwrap().values() {
            println!("SURVEY {n}x  {label}\n    {msg}");
        }
        std::process::exit(2);
    }
    ctx.evidence(0);
    for k in ctx.known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", ctx.id, k);
    }
    if ctx.replay.is_some() {
        println!(
            "replayed {} case(s): no violation",
            ctx.replayed.load(Ordering::Relaxed)
        );
    }
    let states: usize = ctx.states.iter().map(|s| s.lock().unwrap().len()).sum();
    println!(
        "{}: held on everything explored: states={} transitions={} traces={} capped={} outcomes={:?} wall={:.1}s",
        ctx.id,
        states,
        ctx.transitions.load(Ordering::Relaxed).max(ctx.traces.load(Ordering::Relaxed)),
        ctx.traces.load(Ordering::Relaxed),
        ctx.capped.load(Ordering::Relaxed),
        ctx.outcomes.lock().unwrap(),
        ctx.start.elapsed().as_secs_f64()
    );
}
