//! Choice-sequence property engine on top of proptest: a case is a `Vec<u32>` drawn and shrunk by proptest,
//! turned into a structured case by a total decoder reading from a `Src`.

use crate::watch;
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Instant;

use proptest::collection::vec;
use proptest::prelude::any;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::json;

/// Source of choices. `Choices` reads the proptest value (zeros when it runs out, the simplest choice);
/// `Prng` expands one drawn choice into bulk content.
pub enum Src<'a> {
    Choices { c: &'a [u32], i: usize },
    Prng(u64),
}

impl<'a> Src<'a> {
    pub fn new(c: &'a [u32]) -> Self {
        Src::Choices { c, i: 0 }
    }
    pub fn u32(&mut self) -> u32 {
        match self {
            Src::Choices { c, i } => {
                let v = c.get(*i).copied().unwrap_or(0);
                *i += 1;
                v
            }
            Src::Prng(s) => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = *s;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                ((z ^ (z >> 31)) >> 32) as u32
            }
        }
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.u32() as usize % n
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u32() & 1 == 1
    }
    /// true with probability n/d (false is the simplest)
    pub fn chance(&mut self, n: u32, d: u32) -> bool {
        self.u32() % d >= d - n
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.u32() % total;
        for (i, &v) in w.iter().enumerate() {
            if x < v {
                return i;
            }
            x -= v;
        }
        unreachable!()
    }
    /// Bulk source seeded by one choice.
    pub fn bulk(&mut self) -> Src<'static> {
        let s = self.u32();
        Src::Prng(u64::from(s) ^ 0x5851_F42D_4C95_7F2D)
    }
    pub fn left(&self) -> usize {
        match self {
            Src::Choices { c, i } => c.len().saturating_sub(*i),
            Src::Prng(_) => usize::MAX,
        }
    }
    /// All the choices of the case.
    pub fn all(&self) -> &'a [u32] {
        match self {
            Src::Choices { c, .. } => c,
            Src::Prng(_) => &[],
        }
    }
}

#[derive(Debug)]
pub enum Fail {
    /// The property does not hold on this case.
    Violation(String),
    /// The property fails exactly as a listed known finding says (signature, what).
    Known(&'static str, String),
    /// The harness or its oracle is wrong: an error of the check.
    Harness(String),
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Violation(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure_p {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err($crate::engine::Fail::Violation(format!($($t)*))); } };
}
#[macro_export]
macro_rules! harness_err {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Harness(format!($($t)*))) };
}

/// What one case observed.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub fp: u64,
    pub classes: Vec<&'static str>,
    pub desc: Option<String>,
    pub want_desc: bool,
    /// sub-evaluations (e.g. fault points) beyond one per case
    pub extra_evals: u64,
}

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    if h == 0 {
        h = 0xcbf29ce484222325;
    }
    for &b in bytes {
        h ^= u64::from(b);
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (bytes.len() as u64).wrapping_mul(0x9E3779B97F4A7C15)
}

impl Obs {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c);
        }
    }
    pub fn fp(&mut self, b: &[u8]) {
        self.fp = fnv(self.fp, b);
    }
    pub fn describe<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// How cases are made and what counts as non-trivial.
    fn rule(&self) -> &'static str;
    fn max_choices(&self) -> usize;
    /// (quick, thorough) case counts
    fn cases(&self) -> (u32, u32);
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res;
    /// Names of directed cases/enumerations (regressions, boundary sweeps) run once per check.
    fn fixed(&self) -> Vec<String> {
        vec![]
    }
    /// Directed cases for the thorough tier alone.
    fn fixed_thorough(&self) -> Vec<String> {
        vec![]
    }
    fn run_fixed(&self, _name: &str, _obs: &mut Obs) -> Res {
        Err(Fail::Harness("no such directed case".into()))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// The property on these very bytes, for coverage-guided search; None when it has no such form.
    fn run_raw(&self, _bytes: &[u8], _obs: &mut Obs) -> Option<Res> {
        None
    }
    /// A starting point for that search.
    fn raw_seed(&self, _src: &mut Src) -> Vec<u8> {
        vec![]
    }
    fn workers(&self) -> usize {
        8
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut m = msg;
        if m.len() > 300 {
            let mut e = 300;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

/// Runs code under test; a panic becomes an Err with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// Runs a case, a panic anywhere in it counting as a violation.
pub fn guarded_case(f: impl FnOnce() -> Res) -> Res {
    match guard(f) {
        Ok(r) => r,
        Err(m) => Err(Fail::Violation(format!("panicked: {m}"))),
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, (u64, String)>,
}

impl Stats {
    fn add(&mut self, obs: Obs) {
        self.evaluations += 1 + obs.extra_evals;
        if obs.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(obs.fp);
        }
        for c in &obs.classes {
            *self.classes.entry((*c).to_string()).or_default() += 1;
        }
        if let Some(d) = obs.desc {
            if obs.nontrivial {
                self.samples.push(d);
            }
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        for (k, (n, w)) in o.known {
            let e = self.known.entry(k).or_insert((0, w));
            e.0 += n;
        }
    }
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub replay: Option<PathBuf>,
    /// multiplies the case count (for campaigns)
    pub scale: f64,
}

pub fn known_listed(root: &std::path::Path, id: &str, sig: &str) -> bool {
    let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) else { return false };
    s.lines().any(|l| l.starts_with(&format!("known: property={id} sig={sig} ")))
}

enum Bad {
    Choices(Vec<u32>, String),
    Fixed(String, String),
}

/// Returns the process exit code.
pub fn main_for(p: &dyn Prop, o: &Opts) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    if let Some(path) = &o.replay {
        return replay(p, o, path);
    }
    let total = if o.thorough { p.cases().1 } else { p.cases().0 };
    let total = ((f64::from(total) * o.scale) as u32).max(1);
    let workers = p.workers();
    let stop = AtomicBool::new(false);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    let bads: Mutex<Vec<(usize, Bad)>> = Mutex::new(vec![]);
    let harness: Mutex<Vec<String>> = Mutex::new(vec![]);

    // directed cases first, spread over the workers
    let mut fixed = p.fixed();
    if o.thorough {
        fixed.splice(0..0, p.fixed_thorough());
    }
    let fixed = fixed;
    let next = std::sync::atomic::AtomicUsize::new(0);
    let next_slot = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..workers {
            std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, || {
                watch::enter(next_slot.fetch_add(1, Ordering::SeqCst));
                loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= fixed.len() {
                        break;
                    }
                    let mut obs = Obs { want_desc: k % 16 == 0, ..Obs::default() };
                    obs.fp(fixed[k].as_bytes());
                    watch::begin(watch::Case::Fixed(fixed[k].clone()));
                    let r = guarded_case(|| p.run_fixed(&fixed[k], &mut obs));
                    watch::end();
                    let mut st = all.lock().unwrap();
                    obs.nontrivial = true;
                    st.add(obs);
                    *st.classes.entry("directed".into()).or_default() += 1;
                    drop(st);
                    match r {
                        Ok(()) => {}
                        Err(Fail::Harness(m)) => harness.lock().unwrap().push(m),
                        Err(Fail::Violation(m)) => {
                            bads.lock().unwrap().push((usize::MAX - fixed.len() + k, Bad::Fixed(fixed[k].clone(), m)));
                            stop.store(true, Ordering::SeqCst);
                        }
                        Err(Fail::Known(sig, m)) => {
                            if known_listed(&o.root, p.id(), sig) {
                                let mut st = all.lock().unwrap();
                                st.known.entry(sig.into()).or_insert((0, m)).0 += 1;
                            } else {
                                bads.lock().unwrap().push((usize::MAX - fixed.len() + k, Bad::Fixed(fixed[k].clone(), m)));
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                }
            }).unwrap();
        }
    });

    if bads.lock().unwrap().is_empty() {
    std::thread::scope(|s| {
        for w in 0..workers {
            let (stop, all, bads, harness) = (&stop, &all, &bads, &harness);
            std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || {
                watch::enter(w);
                let mut seed = [0u8; 32];
                seed[..8].copy_from_slice(&o.seed.to_le_bytes());
                seed[8..16].copy_from_slice(&(w as u64).to_le_bytes());
                for (i, b) in p.id().bytes().enumerate() {
                    seed[16 + i] = b;
                }
                let cases = total / workers as u32 + u32::from((w as u32) < total % workers as u32);
                if cases == 0 {
                    return;
                }
                let cfg = Config {
                    cases,
                    failure_persistence: None,
                    max_shrink_iters: 4000,
                    max_shrink_time: 90_000,
                    ..Config::default()
                };
                let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                let st: Mutex<Stats> = Mutex::new(Stats::default());
                let failed = AtomicBool::new(false);
                let max = p.max_choices();
                // mostly long sequences: a short one only means trailing simplest choices
                let strat = proptest::strategy::Union::new_weighted(vec![
                    (1, proptest::strategy::Strategy::boxed(vec(any::<u32>(), 0..=max / 8 + 1))),
                    (4, proptest::strategy::Strategy::boxed(vec(any::<u32>(), max / 4..=max))),
                ]);
                let res = runner.run(&strat, |choices| {
                    if stop.load(Ordering::Relaxed) && !failed.load(Ordering::Relaxed) {
                        return Ok(());
                    }
                    let counting = !failed.load(Ordering::Relaxed);
                    let mut obs = Obs::default();
                    if counting {
                        let s = st.lock().unwrap();
                        obs.want_desc = w == 0 && s.samples.len() < 4;
                    }
                    let mut src = Src::new(&choices);
                    watch::begin(watch::Case::Choices(choices.clone()));
                    let r = guarded_case(|| p.run(&mut src, &mut obs));
                    watch::end();
                    if counting {
                        st.lock().unwrap().add(obs);
                    }
                    match r {
                        Ok(()) => Ok(()),
                        Err(Fail::Harness(m)) => {
                            if counting {
                                let mut h = harness.lock().unwrap();
                                if h.len() < 5 {
                                    h.push(format!("{m} [choices {choices:?}]"));
                                }
                            }
                            Ok(())
                        }
                        Err(Fail::Known(sig, m)) if known_listed(&o.root, p.id(), sig) => {
                            if counting {
                                st.lock().unwrap().known.entry(sig.into()).or_insert((0, m)).0 += 1;
                            }
                            Ok(())
                        }
                        Err(Fail::Violation(m)) | Err(Fail::Known(_, m)) => {
                            failed.store(true, Ordering::Relaxed);
                            stop.store(true, Ordering::Relaxed);
                            Err(TestCaseError::fail(m))
                        }
                    }
                });
                match res {
                    Ok(()) => {}
                    Err(TestError::Fail(reason, v)) => {
                        bads.lock().unwrap().push((w, Bad::Choices(v, reason.message().to_string())));
                    }
                    Err(TestError::Abort(r)) => harness.lock().unwrap().push(format!("proptest aborted: {r}")),
                }
                all.lock().unwrap().merge(st.into_inner().unwrap());
            }).unwrap();
        }
    });
    }

    let st = all.into_inner().unwrap();
    let mut bads = bads.into_inner().unwrap();
    bads.sort_by_key(|b| b.0);
    let harness = harness.into_inner().unwrap();
    let id = p.id();

    for (sig, (n, what)) in &st.known {
        println!("KNOWN-FINDING: property={id} {what} [{sig}; reproduced {n} times]");
    }
    let tier = if o.thorough { "thorough" } else { "quick" };
    let mut samples: Vec<String> = st.samples.clone();
    samples.truncate(8);
    let ev = json!({
        "property": id,
        "tier": tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evaluations,
            "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(),
            "rule": p.rule(),
            "samples": samples,
            "classes": st.classes,
            "directed_cases": fixed.len(),
            "slowest_case_ms": watch::longest(),
            "known_findings_reproduced": st.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": bads.len(),
    });
    let evdir = o.root.join("evidence");
    std::fs::create_dir_all(&evdir).expect("evidence dir");
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");

    println!(
        "{id} {tier} seed={} evaluations={} nontrivial={} distinct={} wall={:.1}s",
        o.seed,
        st.evaluations,
        st.nontrivial,
        st.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &st.classes {
        println!("  {v:>9} {k}");
    }

    if let Some((_, bad)) = bads.into_iter().next() {
        let (v, msg) = match bad {
            Bad::Choices(c, m) => {
                let mut obs = Obs { want_desc: true, ..Obs::default() };
                let mut src = Src::new(&c);
                let _ = guarded_case(|| p.run(&mut src, &mut obs));
                (json!({"property": id, "choices": c, "message": m, "case": obs.desc}), m)
            }
            Bad::Fixed(n, m) => (json!({"property": id, "fixed": n, "message": m}), m),
        };
        let path = watch::write_replay(&o.root, id, o.seed, &v);
        println!("failure: {msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if !harness.is_empty() {
        for h in &harness {
            eprintln!("HARNESS ERROR: {h}");
        }
        return 2;
    }
    0
}

fn replay(p: &dyn Prop, o: &Opts, path: &std::path::Path) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let mut obs = Obs { want_desc: true, ..Obs::default() };
    watch::enter(0);
    watch::begin(watch::Case::Fixed(v["fixed"].as_str().unwrap_or("replay").into()));
    let r = if let Some(h) = v["raw"].as_str() {
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).expect("hex")).collect();
        guarded_case(|| p.run_raw(&b, &mut obs).unwrap_or(Ok(())))
    } else if let Some(n) = v["fixed"].as_str() {
        guarded_case(|| p.run_fixed(n, &mut obs))
    } else {
        let c: Vec<u32> = v["choices"].as_array().expect("choices").iter().map(|x| x.as_u64().unwrap() as u32).collect();
        let mut src = Src::new(&c);
        guarded_case(|| p.run(&mut src, &mut obs))
    };
    if let Some(d) = &obs.desc {
        println!("case: {d}");
    }
    match r {
        Ok(()) => {
            println!("replay: property {} holds on this case", p.id());
            0
        }
        Err(Fail::Known(sig, m)) if known_listed(&o.root, p.id(), sig) => {
            println!("KNOWN-FINDING: property={} {m}", p.id());
            0
        }
        Err(Fail::Violation(m)) | Err(Fail::Known(_, m)) => {
            println!("failure: {m}");
            println!("VIOLATION property={} replay={}", p.id(), path.display());
            1
        }
        Err(Fail::Harness(m)) => {
            eprintln!("HARNESS ERROR: {m}");
            2
        }
    }
}
