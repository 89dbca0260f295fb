//! C22, C23: operations do not influence one another; tracing is fail-safe.

use crate::engine::*;
use crate::gen_::{self, StreamOpts};
use crate::lz;
use crate::model::emitted;
use crate::refdeflate::*;
use crate::{ensure_p, viol};
use librezip::all_refs::AllRefs;
use librezip::verif::BitWriter;
use librezip::{Block, CircularBuffer, Code, Guesser, Technique, Trace, filter, gzip, serialise_trace, trace, tracer};
use std::io::{Cursor, Read, Write};
use std::process::{Command, Stdio};
use std::sync::Barrier;

/// Length and hash.
fn dig(b: &[u8]) -> String {
    format!("{}:{:x}", b.len(), fnv(0, b))
}
fn dig_codes(c: &[Code]) -> String {
    let mut v = Vec::with_capacity(c.len() * 5);
    for x in c {
        match *x {
            Code::Literal(b) => v.push(b),
            Code::Reference(r) => {
                v.extend(r.dist.to_le_bytes());
                v.extend((r.run() + 1000).to_le_bytes());
                v.push(7);
            }
        }
    }
    dig(&v)
}
fn dig_block(b: &Block) -> String {
    match b {
        Block::Uncompressed(d) => format!("S{}", dig(d)),
        Block::FixedHuffman(c) => format!("F{}", dig_codes(c)),
        Block::DynamicHuffman { trees, codes } => {
            let bits: Vec<u8> = trees.iter().map(u8::from).collect();
            format!("D{} {}", dig(&bits), dig_codes(codes))
        }
    }
}
fn dig_trace(t: &[Trace]) -> String {
    dig(&serialise_trace::write(t))
}

/// Takes `left` bytes, then fails.
struct Sink {
    v: Vec<u8>,
    left: usize,
}
impl Sink {
    fn new(left: usize) -> Sink {
        Sink { v: vec![], left }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            return Err(std::io::Error::other("full"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.v.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// One piece of work on inputs of its own.
#[derive(Clone)]
enum Job {
    Header(Vec<u8>),
    /// parse, expand and write back, to outputs of so many bytes
    Stream(Vec<u8>, usize, usize),
    Trace { pre: Vec<u8>, data: Vec<u8>, codes: Vec<RCode>, cfg: librezip::Config, limit: u16, level: u8 },
    ReadTrace(Vec<u8>),
    /// extend, then copy to an output of so many bytes
    Window(u16, Vec<(Vec<u8>, u16, u16, usize)>),
    Hash(Vec<u8>, usize, bool),
    Candidates { pre: Vec<u8>, data: Vec<u8>, limit: u16, obscured: Vec<(usize, u16)> },
}

impl Job {
    fn kind(&self) -> &'static str {
        match self {
            Job::Header(_) => "header",
            Job::Stream(..) => "stream",
            Job::Trace { .. } => "trace",
            Job::ReadTrace(_) => "stored trace",
            Job::Window(..) => "window",
            Job::Hash(..) => "hash",
            Job::Candidates { .. } => "candidates",
        }
    }

    fn start(&self) -> Box<dyn Steps + '_> {
        match self {
            Job::Stream(b, content, back) => Box::new(StreamRun {
                it: Box::new(librezip::parse_deflate(Cursor::new(&b[..]))),
                out: Sink::new(*content),
                dict: CircularBuffer::new(),
                back: Some(BitWriter::new(Sink::new(*back))),
                log: String::new(),
            }),
            Job::Window(cap, ops) => Box::new(WindowRun { w: CircularBuffer::with_capacity(*cap), ops: ops.iter(), log: String::new() }),
            other => Box::new(Once(other)),
        }
    }
}

/// Work done a step at a time, so that several can be in progress.
trait Steps {
    /// None: finished with this result.
    fn step(&mut self) -> Option<String>;
}

struct Once<'a>(&'a Job);
impl Steps for Once<'_> {
    fn step(&mut self) -> Option<String> {
        Some(match guard(|| once(self.0)) {
            Ok(s) => s,
            Err(p) => format!("panicked: {p}"),
        })
    }
}

fn once(j: &Job) -> String {
    match j {
        Job::Header(b) => {
            let mut c = Cursor::new(&b[..]);
            match gzip::discard_header(&mut c) {
                Ok(h) => format!("{} then {}", dig(&h), c.position()),
                Err(_) => "error".into(),
            }
        }
        Job::Trace { pre, data, codes, cfg, limit, level } => {
            let codes = lz::codes(codes);
            let refs = AllRefs::with_sixteen(pre, data, *limit);
            let t = Technique::new(*cfg, &refs);
            let tr = trace::validate(&codes, &t);
            let bytes = serialise_trace::verify(&tr);
            let stock = tracer::try_gzip(*level, pre, data, &codes);
            format!("{} {} {} {}", dig_trace(&tr), dig(&bytes), dig_codes(&trace::restore(&tr, &t)), dig_trace(&stock))
        }
        Job::ReadTrace(b) => format!("{:?}", serialise_trace::read(&b[..]).map_err(|_| "error")),
        Job::Hash(d, step, write) => {
            let step = (*step).max(1);
            if *write {
                let mut f = filter::FilterWrite::new(vec![]);
                for p in d.chunks(step) {
                    let _ = f.write(p);
                }
                format!("{:?}", f.hash())
            } else {
                let mut f = filter::FilterRead::new(&d[..]);
                let mut buf = vec![0; step];
                while f.read(&mut buf).unwrap_or(0) != 0 {}
                format!("{:?}", f.hash())
            }
        }
        Job::Candidates { pre, data, limit, obscured } => {
            let refs = AllRefs::with_sixteen(pre, data, *limit);
            let mut s = vec![];
            for pos in pre.len()..pre.len() + data.len() {
                match refs.at(pos, obscured) {
                    None => s.push(1),
                    Some(it) => {
                        s.push(2);
                        for r in it {
                            s.extend(r.dist.to_le_bytes());
                            s.extend(r.run().to_le_bytes());
                        }
                    }
                }
            }
            dig(&s)
        }
        Job::Stream(..) | Job::Window(..) => unreachable!(),
    }
}

struct StreamRun<'a> {
    it: Box<dyn Iterator<Item = Result<librezip::Block, anyhow::Error>> + 'a>,
    out: Sink,
    dict: CircularBuffer,
    back: Option<BitWriter<Sink>>,
    log: String,
}
impl Steps for StreamRun<'_> {
    fn step(&mut self) -> Option<String> {
        let r = guard(|| {
            let end = |log: &str, out: &Sink, back: &mut Option<BitWriter<Sink>>| {
                let b = back.take().map(|mut b| {
                    let _ = b.align();
                    dig(&b.into_inner().v)
                });
                Some(format!("{log} content {} back {b:?}", dig(&out.v)))
            };
            match self.it.next() {
                None => end(&self.log, &self.out, &mut self.back),
                Some(Err(_)) => {
                    self.log.push_str(&" error");
                    end(&self.log, &self.out, &mut self.back)
                }
                Some(Ok(b)) => {
                    self.log.push(' ');
                    self.log.push_str(&dig_block(&b));
                    if let Err(_) = librezip::decompressed_block(&mut self.out, &mut self.dict, &b) {
                        self.log.push_str(&" error");
                        return end(&self.log, &self.out, &mut self.back);
                    }
                    if let Some(w) = &mut self.back {
                        let _ = w.write_bit(false);
                        if let Err(_) = librezip::compressed_block(w, &b) {
                            self.log.push_str(&" write error");
                        }
                    }
                    None
                }
            }
        });
        match r {
            Ok(x) => x,
            Err(p) => Some(format!("{} panicked: {p}", self.log)),
        }
    }
}

struct WindowRun<'a> {
    w: CircularBuffer,
    ops: std::slice::Iter<'a, (Vec<u8>, u16, u16, usize)>,
    log: String,
}
impl Steps for WindowRun<'_> {
    fn step(&mut self) -> Option<String> {
        let r = guard(|| {
            let Some((bytes, d, n, room)) = self.ops.next() else {
                return Some(format!("{} {}", self.log, dig(&self.w.vec())));
            };
            self.w.extend(bytes);
            let mut out = Sink::new(*room);
            let e = self.w.copy(*d, *n, &mut out).map_err(|_| "error");
            self.log.push_str(&format!(" {e:?} {}", dig(&out.v)));
            None
        });
        match r {
            Ok(x) => x,
            Err(p) => Some(format!("{} panicked: {p}", self.log)),
        }
    }
}

fn finish(mut s: Box<dyn Steps + '_>) -> String {
    loop {
        if let Some(r) = s.step() {
            return r;
        }
    }
}

fn job(src: &mut Src, earlier: &[Job]) -> Job {
    // often something that looks like an earlier piece of work
    if !earlier.is_empty() && src.chance(1, 2) {
        let mut j = earlier[src.below(earlier.len())].clone();
        let touch = |src: &mut Src, b: &mut Vec<u8>| {
            if b.is_empty() {
                return;
            }
            match src.weighted(&[4, 1, 2]) {
                0 => {
                    let i = src.below(b.len());
                    b[i] ^= 1 << src.below(8);
                }
                1 => {
                    let n = src.below(b.len());
                    b.truncate(n);
                }
                _ => gen_::mutate(src, b),
            }
        };
        match &mut j {
            Job::Header(b) | Job::Stream(b, ..) | Job::ReadTrace(b) | Job::Hash(b, ..) => touch(src, b),
            Job::Trace { cfg, limit, level, data, pre, codes } => {
                if src.bool() && !data.is_empty() {
                    // other content of the same length, as literals
                    let i = src.below(data.len());
                    data[i] ^= 1;
                    *codes = data.iter().map(|&x| RCode::Lit(x)).collect();
                } else {
                    let c = gen_::config(src);
                    *cfg = c.cfg;
                    *limit = gen_::limit(src, &c);
                    *level = src.range(1, 9) as u8;
                }
                let _ = pre;
            }
            Job::Window(cap, ops) => {
                if src.bool() {
                    *cap = (*cap % 40) + 1;
                } else if let Some(o) = ops.first_mut() {
                    touch(src, &mut o.0);
                }
            }
            Job::Candidates { data, limit, obscured, .. } => match src.below(3) {
                0 => touch(src, data),
                1 => *limit = src.pick(&[1u16, 2, 3, 4, 6, 300]),
                _ => obscured.clear(),
            },
        }
        return j;
    }
    match src.weighted(&[2, 6, 4, 2, 2, 1, 3]) {
        0 => {
            let mut h = gen_::gz_header(src);
            if h.len() > 3000 {
                h.truncate(3000);
            }
            if src.chance(1, 3) {
                let n = src.below(h.len());
                h.truncate(n);
            }
            Job::Header(h)
        }
        1 => {
            let mut b = if src.bool() {
                let d = gen_::data(src, 600);
                gen_::real_stream(src, &d).0
            } else {
                gen_::stream(src, &StreamOpts::default()).bytes
            };
            if src.chance(1, 3) {
                gen_::mutate(src, &mut b);
            }
            // one output in eight fails part of the way
            let mut room = || if src.chance(1, 8) { src.below(20) } else { usize::MAX };
            let (c, k) = (room(), room());
            Job::Stream(b, c, k)
        }
        2 => {
            let mut c = gen_::case(src, 200);
            if c.pre.len() + c.data.len() > 700 && !src.chance(1, 50) {
                // costly, and repeated many times here
                c.pre.truncate(300);
                c.data.truncate(300);
                c.codes = c.data.iter().map(|&x| RCode::Lit(x)).collect();
            }
            Job::Trace { level: src.range(1, 9) as u8, pre: c.pre, data: c.data, codes: c.codes, cfg: c.cfg.cfg, limit: c.limit }
        }
        3 => {
            let n = src.below(20);
            Job::ReadTrace((0..n).map(|_| src.pick(&[0u8, 0, 1, 5, 127, 128, 129, 255])).collect())
        }
        4 => {
            let cap = src.pick(&[1u16, 2, 5, 16, 300, 32768]);
            let n = src.range(1, 6);
            Job::Window(
                cap,
                (0..n)
                    .map(|_| {
                        let d = gen_::data(src, 40);
                        (d, src.below(30) as u16, src.below(60) as u16, if src.chance(1, 6) { src.below(10) } else { usize::MAX })
                    })
                    .collect(),
            )
        }
        5 => {
            let d = gen_::data(src, 400);
            Job::Hash(d, src.range(1, 150), src.bool())
        }
        _ => {
            let pre = gen_::preroll(src, 200);
            let data = gen_::data(src, 200);
            let mut obscured = vec![];
            let mut at = pre.len();
            while src.chance(1, 2) && at + 10 < pre.len() + data.len() {
                let n = src.range(3, 9) as u16;
                obscured.push((at, n));
                at += n as usize + src.below(5);
            }
            Job::Candidates { pre, data, limit: src.pick(&[4u16, 1, 2, 6, 300]), obscured }
        }
    }
}

fn jobs(src: &mut Src) -> Vec<Job> {
    let n = src.range(3, 8);
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..n {
        let j = job(src, &jobs);
        jobs.push(j);
    }
    jobs
}

/// The result of a piece of work in a process that has done nothing else.
fn in_process(choices: &[u32], i: usize) -> std::io::Result<String> {
    let mut c = Command::new(std::env::current_exe()?)
        .arg("--job")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()?;
    let mut b = (i as u32).to_le_bytes().to_vec();
    for x in choices {
        b.extend(x.to_le_bytes());
    }
    let mut to = c.stdin.take().unwrap();
    to.write_all(&b)?;
    drop(to);
    let o = c.wait_with_output()?;
    if !o.status.success() {
        return Ok(format!("the process ended with {}", o.status));
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

pub fn job_main() {
    install_panic_hook();
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).expect("reading");
    let mut w: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let i = w.remove(0) as usize;
    let jobs = jobs(&mut Src::new(&w));
    print!("{}", finish(jobs[i].start()));
}

fn brief(s: &str) -> String {
    s.chars().take(160).collect()
}

pub struct C22;
impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "Three to eight pieces of work (header read; parse, expand and re-encode; trace, store and restore; stored trace read; \
         window history; hash; candidates), half of them slight changes of another, some on damaged input. Each result got alone \
         in a fresh thread is compared with that got in a fresh process (one per third case), and with the results got in sequence in one thread in several orders, interleaved block by \
         block, and in concurrent threads. Non-trivial: two pieces of work of one kind with different results."
    }
    fn max_choices(&self) -> usize {
        500
    }
    fn cases(&self) -> (u32, u32) {
        (6_000, 250_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let jobs = jobs(src);
        let n = jobs.len();
        for j in &jobs {
            obs.class(j.kind());
        }
        let order: Vec<u32> = (0..64).map(|_| src.u32()).collect();

        let alone: Vec<String> = jobs
            .iter()
            .map(|j| std::thread::scope(|s| s.spawn(|| finish(j.start())).join()).unwrap_or_else(|_| "died".into()))
            .collect();
        for r in &alone {
            obs.fp(r.as_bytes());
            obs.class_if(r.contains("rror"), "with a failing piece of work");
        }
        obs.nontrivial =
            (0..n).any(|i| (0..i).any(|k| jobs[i].kind() == jobs[k].kind() && alone[i] != alone[k]));
        obs.describe(|| jobs.iter().zip(&alone).map(|(j, r)| format!("{}: {}", j.kind(), brief(r))).collect::<Vec<_>>().join(" | "));
        let differ = |i: usize, got: &str, how: &str| -> Res {
            ensure_p!(
                got == alone[i],
                "{} {how} gives {}, alone {} (first difference at character {})",
                jobs[i].kind(),
                brief(got),
                brief(&alone[i]),
                got.bytes().zip(alone[i].bytes()).take_while(|(a, b)| a == b).count()
            );
            Ok(())
        };
        // in a process of its own
        if src.chance(1, 3) {
            let i = src.below(n);
            match in_process(src.all(), i) {
                Ok(r) => ensure_p!(
                    r == alone[i],
                    "{} gives {} in a fresh process, {} in this one",
                    jobs[i].kind(),
                    brief(&r),
                    brief(&alone[i])
                ),
                Err(e) => crate::harness_err!("running a job in a fresh process: {e}"),
            }
            obs.class("also in a fresh process");
        }
        // one after another, forwards and backwards, in this thread, which has done much else before
        for i in (0..n).chain((0..n).rev()) {
            // and after some of another piece was done and the rest given up
            let o = order[(i * 2) % order.len()] as usize;
            if o % 3 == 0 {
                let mut half = jobs[o / 3 % n].start();
                for _ in 0..1 + o / 64 % 3 {
                    if half.step().is_some() {
                        break;
                    }
                }
            }
            differ(i, &finish(jobs[i].start()), "after other work")?;
        }
        // steps interleaved
        let mut live: Vec<(usize, Box<dyn Steps>)> = (0..n).map(|i| (i, jobs[i].start())).collect();
        let mut k = 0;
        while !live.is_empty() {
            let at = order[k % order.len()] as usize % live.len();
            k += 1;
            if let Some(r) = live[at].1.step() {
                let (i, _) = live.swap_remove(at);
                differ(i, &r, "interleaved with other work")?;
            }
        }
        // at the same time
        let t = 3;
        let gate = Barrier::new(t);
        let got: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..t)
                .map(|w| {
                    let (jobs, gate) = (&jobs, &gate);
                    s.spawn(move || {
                        gate.wait();
                        (0..n).map(|k| (k + w * n / t) % n).map(|i| (i, finish(jobs[i].start()))).collect()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for v in got {
            ensure_p!(v.len() == n, "a thread died");
            for (i, r) in v {
                differ(i, &r, "in concurrent threads")?;
            }
        }
        obs.extra_evals += (n * (3 + t)) as u64;
        // encodings of one content, through one technique: scanners stepped in turns, then whole traces
        if let Some(Job::Trace { pre, data, codes, cfg, limit, .. }) = jobs.iter().find(|j| matches!(j, Job::Trace { .. })) {
            if data.len() < 20_000 {
                shared(src, pre, data, codes, *cfg, *limit, &order, obs)?;
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["thread schedules are the operating system's; only those that occur are seen"]
    }
}

/// Several encodings of one content: each predicted, traced and restored alone, and with one technique for all.
#[allow(clippy::too_many_arguments)]
fn shared(
    src: &mut Src,
    pre: &[u8],
    data: &[u8],
    codes: &[RCode],
    cfg: librezip::Config,
    limit: u16,
    order: &[u32],
    obs: &mut Obs,
) -> Res {
    let mut bulk = src.bulk();
    let lists: Vec<Vec<Code>> = std::iter::once(lz::codes(codes))
        .chain((0..2).map(|_| lz::codes(&gen_::factor(&mut bulk, pre, data))))
        .collect();
    let alone: Vec<Result<(Vec<Vec<Code>>, Vec<Trace>), String>> = lists
        .iter()
        .map(|l| {
            guard(|| {
                let refs = AllRefs::with_sixteen(pre, data, limit);
                let t = Technique::new(cfg, &refs);
                let mut sc = t.scanner();
                let predictions = l
                    .iter()
                    .map(|c| {
                        let g = sc.codes();
                        sc.feedback(*c);
                        g
                    })
                    .collect();
                let refs = AllRefs::with_sixteen(pre, data, limit);
                (predictions, trace::trace(l, &Technique::new(cfg, &refs)))
            })
        })
        .collect();
    if alone.iter().any(|a| a.is_err()) {
        // stopping is judged elsewhere
        return Ok(());
    }
    let alone: Vec<_> = alone.into_iter().map(|a| a.unwrap()).collect();
    obs.class("several encodings, one technique");
    let together = guard(|| {
        let refs = AllRefs::with_sixteen(pre, data, limit);
        let t = Technique::new(cfg, &refs);
        let mut live: Vec<_> = (0..lists.len()).map(|i| (i, 0, t.scanner())).collect();
        let mut k = 0;
        while !live.is_empty() {
            let at = order[k % order.len()] as usize % live.len();
            k += 1;
            let (i, j, sc) = &mut live[at];
            if *j == lists[*i].len() {
                live.swap_remove(at);
                continue;
            }
            let g = sc.codes();
            if g != alone[*i].0[*j] {
                return Some(format!("prediction {j} of encoding {i} is {g:?} in turns with others, alone {:?}", alone[*i].0[*j]));
            }
            sc.feedback(lists[*i][*j]);
            *j += 1;
        }
        for i in (0..lists.len()).chain((0..lists.len()).rev()) {
            let tr = trace::trace(&lists[i], &t);
            if tr != alone[i].1 {
                return Some(format!("trace of encoding {i} after others: {}", lz::diff(&tr, &alone[i].1)));
            }
            let r = trace::restore(&tr, &t);
            if r != lists[i] {
                return Some(format!("encoding {i} restored after others: {}", lz::diff(&r, &lists[i])));
            }
        }
        None
    });
    match together {
        Ok(None) => {}
        Ok(Some(m)) => viol!("{m}"),
        Err(p) => viol!("one technique for several encodings: panicked: {p}"),
    }
    // techniques of different configurations over one set of references, in turns
    let cfgs: Vec<_> = std::iter::once(cfg).chain((0..2).map(|_| gen_::config(src).cfg)).collect();
    obs.class_if(cfgs.iter().any(|c| *c != cfg), "several configurations, one set of references");
    let alone: Vec<_> = cfgs
        .iter()
        .map(|c| {
            guard(|| {
                let refs = AllRefs::with_sixteen(pre, data, limit);
                let t = Technique::new(*c, &refs);
                let mut sc = t.scanner();
                let p: Vec<_> = lists[0]
                    .iter()
                    .map(|c| {
                        let g = sc.codes();
                        sc.feedback(*c);
                        g
                    })
                    .collect();
                (p, trace::trace(&lists[0], &t))
            })
        })
        .collect();
    if alone.iter().any(|a| a.is_err()) {
        return Ok(());
    }
    let alone: Vec<_> = alone.into_iter().map(|a| a.unwrap()).collect();
    let together = guard(|| {
        let refs = AllRefs::with_sixteen(pre, data, limit);
        let ts: Vec<_> = cfgs.iter().map(|c| Technique::new(*c, &refs)).collect();
        let mut scs: Vec<_> = ts.iter().map(|t| t.scanner()).collect();
        for (j, code) in lists[0].iter().enumerate() {
            for (i, sc) in scs.iter_mut().enumerate() {
                let g = sc.codes();
                if g != alone[i].0[j] {
                    return Some(format!("prediction {j} by {:?} beside others is {g:?}, alone {:?}", cfgs[i], alone[i].0[j]));
                }
                sc.feedback(*code);
            }
        }
        for i in (0..ts.len()).chain((0..ts.len()).rev()) {
            let tr = trace::trace(&lists[0], &ts[i]);
            if tr != alone[i].1 {
                return Some(format!("trace by {:?} beside others: {}", cfgs[i], lz::diff(&tr, &alone[i].1)));
            }
            let r = trace::restore(&tr, &ts[i]);
            if r != lists[0] {
                return Some(format!("restored by {:?} beside others: {}", cfgs[i], lz::diff(&r, &lists[0])));
            }
        }
        None
    });
    match together {
        Ok(None) => Ok(()),
        Ok(Some(m)) => viol!("{m}"),
        Err(p) => viol!("several techniques for one set of references: panicked: {p}"),
    }
}

pub struct C23;
impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "Valid code sequences changed at one or more places (dropped, added, replaced, swapped, other lengths or distances), or \
         put to other content; and unchanged ones. validate and try_gzip must stop (panic) or give a trace from which exactly \
         the given codes come back, one entry per code. Non-trivial: the codes are not an encoding of the content."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (60_000, 1_500_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec![];
        for n in ["1 65600", "6 300000", "0 1060000"] {
            for k in 0..3 {
                v.push(format!("big {n} change {k}"));
            }
        }
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let mut c = super::traces::big(name)?;
        match name.split(' ').next_back() {
            Some("0") => {
                c.codes.pop();
            }
            Some("1") => {
                // a wrong byte, everything else right
                let i = c.codes.iter().rposition(|x| matches!(x, RCode::Lit(_))).unwrap_or(0);
                c.codes[i] = match c.codes[i] {
                    RCode::Lit(b) => RCode::Lit(b ^ 0x20),
                    x => x,
                };
            }
            _ => {}
        }
        let mut s = Src::Prng(c.data.len() as u64 + 1);
        self.check(&mut s, obs, c)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let mut c = gen_::case(src, 600);
        let m = src.weighted(&[1, 6, 2, 1]);
        for _ in 0..match m {
            0 | 2 | 3 => 0,
            _ => src.range(1, 3),
        } {
            let n = c.codes.len();
            let fresh = |src: &mut Src| {
                if src.bool() {
                    RCode::Lit(src.pick(b"abc\0"))
                } else {
                    RCode::Ref { dist: src.pick(&[1u32, 2, 3, 10, 300, 32768]), len: src.pick(&[3u32, 4, 5, 10, 257, 258]) }
                }
            };
            // the end of the list more often than elsewhere
            let at = if src.bool() { n.saturating_sub(1) } else { src.below(n.max(1)) };
            match src.below(6) {
                0 if n > 0 => {
                    c.codes.remove(at);
                }
                1 => {
                    let x = fresh(src);
                    c.codes.insert(if src.bool() { n } else { at }, x);
                }
                2 if n > 0 => c.codes[at] = fresh(src),
                3 if n > 1 => c.codes.swap(at.max(1) - 1, at.max(1)),
                4 if n > 0 => {
                    if let RCode::Ref { dist, len } = &mut c.codes[at] {
                        *len = (*len + src.pick(&[1u32, 255, 254, 2, 20])).min(258);
                        if src.bool() {
                            *dist = (*dist).max(2) - 1;
                        }
                    } else {
                        c.codes[at] = fresh(src);
                    }
                }
                5 => {
                    let k = src.below(n + 1);
                    c.codes.truncate(k);
                }
                _ => {}
            }
        }
        match m {
            2 if !c.data.is_empty() => {
                let i = if src.bool() { c.data.len() - 1 } else { src.below(c.data.len()) };
                c.data[i] ^= 1 + src.below(255) as u8;
            }
            3 => {
                let n = src.below(c.data.len() + 1);
                c.data.truncate(n);
            }
            _ => {}
        }
        self.check(src, obs, c)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["stopping means a panic, the only way these functions have to refuse"]
    }
}

impl C23 {
    fn check(&self, src: &mut Src, obs: &mut Obs, c: gen_::Case) -> Res {
        let w = crate::model::World::new(&c.pre, &c.data);
        let total: usize = c.codes.iter().map(emitted).sum();
        let valid = total == c.data.len() && (c.codes.is_empty() || w.invalid(c.pre.len(), &c.codes).is_none());
        obs.nontrivial = !valid;
        obs.class(if valid { "valid codes" } else { "invalid codes" });
        obs.class(match total.cmp(&c.data.len()) {
            std::cmp::Ordering::Less => "codes too short",
            std::cmp::Ordering::Equal => "codes of the right total length",
            std::cmp::Ordering::Greater => "codes too long",
        });
        obs.fp(&c.data);
        for x in &c.codes {
            obs.fp(format!("{x:?}").as_bytes());
        }
        obs.describe(|| format!("{} bytes of content, {} codes, {} bytes of codes, {}", c.data.len(), c.codes.len(), total, c.cfg.name));
        let codes: Vec<Code> = lz::codes(&c.codes);
        let refs = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
        let t = Technique::new(c.cfg.cfg, &refs);
        let judge = |tr: &[Trace], t: &Technique, what: &str, obs: &mut Obs| -> Res {
            obs.class_if(!valid, "invalid codes that restore");
            ensure_p!(tr.len() == codes.len(), "{what} gives {} entries for {} codes", tr.len(), codes.len());
            match guard(|| trace::restore(tr, t)) {
                Ok(b) => ensure_p!(b == codes, "{what} returned a trace that restores to other codes {}", lz::diff(&b, &codes)),
                Err(p) => viol!("{what} returned a trace that cannot be restored: {p}"),
            }
            Ok(())
        };
        match guard(|| trace::validate(&codes, &t)) {
            Ok(tr) => judge(&tr, &t, "validate", obs)?,
            Err(p) => {
                obs.class_if(!valid, "refused");
                ensure_p!(!valid, "validate stops on valid codes: {p}");
            }
        }
        let mut level = src.range(1, 9) as u8;
        if c.data.len() > 200_000 {
            // the library takes quadratic time below
            level = 4 + level % 6;
        }
        match guard(|| tracer::try_gzip(level, &c.pre, &c.data, &codes)) {
            Ok(tr) => {
                let cfg = librezip::Config::gzip(level);
                let refs = AllRefs::with_sixteen(&c.pre, &c.data, cfg.wams.insert_only_below_length.unwrap_or(u16::MAX));
                judge(&tr, &Technique::new(cfg, &refs), "try_gzip", obs)?;
                let bytes = serialise_trace::write(&tr);
                match serialise_trace::read(&bytes[..]) {
                    Ok(b) => ensure_p!(b == tr, "the stored trace reads back differently"),
                    Err(e) => viol!("the stored trace does not read back: {e}"),
                }
            }
            Err(p) => ensure_p!(!valid, "try_gzip stops on valid codes: {p}"),
        }
        Ok(())
    }
}
