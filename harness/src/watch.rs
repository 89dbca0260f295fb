//! Cases that do not come back: loops, runaway allocation, crashes of the whole process.
//!
//! Each worker announces its case before running it. A watchdog thread reports a case that runs too long or holds
//! too much memory; a parent process (main.rs) reports a case on which the process dies.

use serde_json::{Value, json};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const SLOTS: usize = 64;
/// Far beyond any case (milliseconds, at most seconds; the evidence has the slowest).
const CASE_SECONDS: u64 = 240;
/// for directed cases called "huge"
const HUGE_SECONDS: u64 = 1800;
const CASE_BYTES: i64 = 2 << 30;

pub struct Counted;
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// on a cache line each
#[repr(align(128))]
struct Line(AtomicI64);
static LIVE: [Line; SLOTS] = [const { Line(AtomicI64::new(0)) }; SLOTS];
static PEAK: [Line; SLOTS] = [const { Line(AtomicI64::new(0)) }; SLOTS];
static PARKED: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
/// milliseconds since BOOT + 1; 0: idle
static START: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
/// the worker's thread
static TID: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static CASES: [Mutex<Option<Case>>; SLOTS] = [const { Mutex::new(None) }; SLOTS];
static FILES: [Mutex<Option<File>>; SLOTS] = [const { Mutex::new(None) }; SLOTS];
static BOOT: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn account(n: i64) {
    let s = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    if s < SLOTS {
        let live = LIVE[s].0.load(Ordering::Relaxed) + n;
        LIVE[s].0.store(live, Ordering::Relaxed);
        if live > PEAK[s].0.load(Ordering::Relaxed) {
            PEAK[s].0.store(live, Ordering::Relaxed);
        }
        if n > 0 && live > CASE_BYTES {
            PARKED[s].store(1, Ordering::SeqCst);
            // the watchdog ends the process
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
    }
}
unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Clone, Debug)]
pub enum Case {
    Choices(Vec<u32>),
    Fixed(String),
}
impl Case {
    pub fn json(&self, id: &str, message: &str) -> Value {
        match self {
            Case::Choices(c) => json!({"property": id, "choices": c, "message": message}),
            Case::Fixed(n) => json!({"property": id, "fixed": n, "message": message}),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let (k, body): (u8, Vec<u8>) = match self {
            Case::Choices(c) => (1, c.iter().flat_map(|x| x.to_le_bytes()).collect()),
            Case::Fixed(n) => (2, n.clone().into_bytes()),
        };
        let mut v = vec![k];
        v.extend((body.len() as u32).to_le_bytes());
        v.extend(body);
        v
    }
    pub fn from_bytes(b: &[u8]) -> Option<Case> {
        let n = u32::from_le_bytes(b.get(1..5)?.try_into().ok()?) as usize;
        let body = b.get(5..5 + n)?;
        match b[0] {
            1 => Some(Case::Choices(body.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect())),
            2 => Some(Case::Fixed(String::from_utf8(body.to_vec()).ok()?)),
            _ => None,
        }
    }
}

/// The check comes to its own end.
pub fn ended() {
    if let Some(d) = inflight_dir() {
        let _ = File::create(d.join("ended"));
    }
}

pub fn inflight_dir() -> Option<PathBuf> {
    std::env::var_os("REZIP_VERIF_CHILD").map(PathBuf::from)
}

/// Gives this thread a slot.
pub fn enter(slot: usize) {
    if let Some(d) = inflight_dir() {
        *FILES[slot].lock().unwrap() = File::create(d.join(slot.to_string())).ok();
    }
    // "<pid>/task/<tid>"
    let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok());
    TID[slot].store(tid.unwrap_or(0), Ordering::SeqCst);
    SLOT.with(|s| s.set(slot));
}
/// Seconds a worker has spent on a processor.
fn spent(slot: usize) -> Option<u64> {
    let t = TID[slot].load(Ordering::SeqCst);
    let s = std::fs::read_to_string(format!("/proc/self/task/{t}/schedstat")).ok()?;
    Some(s.split(' ').next()?.parse::<u64>().ok()? / 1_000_000_000)
}
pub fn begin(case: Case) {
    let s = SLOT.with(|s| s.get());
    if s >= SLOTS {
        return;
    }
    if let Some(f) = &*FILES[s].lock().unwrap() {
        let _ = f.write_all_at(&case.bytes(), 0);
    }
    *CASES[s].lock().unwrap() = Some(case);
    LIVE[s].0.store(0, Ordering::Relaxed);
    START[s].store(BOOT.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
}
pub fn end() {
    let s = SLOT.with(|s| s.get());
    if s < SLOTS {
        let began = START[s].swap(0, Ordering::SeqCst);
        let now = BOOT.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1;
        let took = now.saturating_sub(began);
        LONGEST.fetch_max(took, Ordering::Relaxed);
        if took > 3000 && std::env::var_os("VERIF_TIMES").is_some() {
            if let Some(Case::Fixed(n)) = &*CASES[s].lock().unwrap() {
                eprintln!("{took} ms: {n}");
            }
        }
    }
}
static LONGEST: AtomicU64 = AtomicU64::new(0);
/// How long the slowest case took (ms).
pub fn longest() -> u64 {
    LONGEST.load(Ordering::Relaxed)
}

/// Runs it; the most memory this thread held during it beyond what it held before, what it still holds, the result.
pub fn measured<T>(f: impl FnOnce() -> T) -> (i64, i64, T) {
    let s = SLOT.with(|s| s.get());
    assert!(s < SLOTS, "not a worker");
    let before = LIVE[s].0.load(Ordering::Relaxed);
    PEAK[s].0.store(before, Ordering::Relaxed);
    let r = f();
    let (peak, after) = (PEAK[s].0.load(Ordering::Relaxed), LIVE[s].0.load(Ordering::Relaxed));
    (peak - before, after - before, r)
}

/// Writes a replay file for a case; its path.
pub fn write_replay(root: &Path, id: &str, seed: u64, v: &Value) -> PathBuf {
    let dir = root.join("evidence").join("replays");
    std::fs::create_dir_all(&dir).expect("replay dir");
    let path = dir.join(format!("{id}-{seed}.json"));
    std::fs::write(&path, serde_json::to_string_pretty(v).unwrap() + "\n").expect("replay");
    path
}

/// Evidence of a check that was ended by a violation.
pub fn write_short_evidence(root: &Path, id: &str, seed: u64, thorough: bool, rule: &str, sample: &str) {
    let v = json!({
        "property": id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "nontrivial": 1, "distinct_nontrivial": 1, "rule": rule, "samples": [sample],
                     "explored": "ended at the first case that did not return"},
        "assumptions": [], "wall_s": BOOT.get_or_init(Instant::now).elapsed().as_secs_f64(), "violations": 1,
    });
    let d = root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{id}.json")), serde_json::to_string_pretty(&v).unwrap() + "\n");
}

pub fn start(root: PathBuf, id: String, seed: u64, thorough: bool, rule: String, replaying: Option<PathBuf>) {
    BOOT.get_or_init(Instant::now);
    std::thread::spawn(move || {
        // on a busy machine a case may take long without having run for long
        let mut seen = [(0u64, None); SLOTS];
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = BOOT.get().unwrap().elapsed().as_millis() as u64 + 1;
            for s in 0..SLOTS {
                let st = START[s].load(Ordering::SeqCst);
                if st != 0 && seen[s].0 != st && now.saturating_sub(st) > 2000 {
                    seen[s] = (st, spent(s));
                }
                let starved = || match (seen[s], spent(s)) {
                    ((t, Some(a)), Some(b)) => t == st && b - a < CASE_SECONDS / 4 && now - st < CASE_SECONDS * 3000,
                    _ => false,
                };
                let why = if PARKED[s].load(Ordering::SeqCst) != 0 {
                    format!("the case needs more than {} MiB of memory", CASE_BYTES >> 20)
                } else if st != 0 && now > st && now - st > CASE_SECONDS * 1000 && !starved() {
                    format!("the case did not return within {CASE_SECONDS} s")
                } else {
                    continue;
                };
                let case = CASES[s].lock().unwrap().clone();
                let Some(case) = case else { continue };
                if PARKED[s].load(Ordering::SeqCst) == 0
                    && matches!(&case, Case::Fixed(n) if n.starts_with("huge"))
                    && now - st < HUGE_SECONDS * 1000
                {
                    continue;
                }
                let path = match &replaying {
                    Some(p) => p.clone(),
                    None => {
                        write_short_evidence(&root, &id, seed, thorough, &rule, &why);
                        write_replay(&root, &id, seed, &case.json(&id, &why))
                    }
                };
                println!("failure: {why}");
                println!("VIOLATION property={id} replay={}", path.display());
                ended();
                std::process::exit(1);
            }
        }
    });
}
