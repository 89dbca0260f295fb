//! C13: faults of the underlying reader or writer, short transfers, interruptions.

use crate::engine::*;
use crate::gen_::{self, StreamOpts};
use crate::lz;
use crate::refdeflate::*;
use crate::{ensure_p, harness_err, viol};
use librezip::verif::BitWriter;
use librezip::{Block, CircularBuffer, Trace};
use std::cell::Cell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// Kinds a caller must see as failures (Interrupted means "try again").
const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
    ErrorKind::StorageFull,
    ErrorKind::WriteZero,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fault {
    None,
    /// fails whenever this many bytes have gone through and more are asked for
    At(usize, ErrorKind),
    /// fails once there
    Once(usize, ErrorKind),
    /// a writer that accepts nothing there
    Zero(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Plan {
    fault: Fault,
    /// 0: whole transfers; else pieces of 1..=chop bytes
    chop: usize,
    /// Interrupted before every n-th call (0: never)
    intr: usize,
    /// so many times in a row
    burst: usize,
    seed: u64,
}
impl Plan {
    fn fault(fault: Fault) -> Plan {
        Plan { fault, chop: 0, intr: 0, burst: 1, seed: 0 }
    }
}

/// Reader and writer that follow a plan.
struct Dev<'a> {
    d: &'a [u8],
    pos: usize,
    calls: usize,
    interrupted: usize,
    fired: Rc<Cell<bool>>,
    plan: Plan,
    rng: Src<'static>,
    out: Vec<u8>,
}
impl<'a> Dev<'a> {
    fn new(d: &'a [u8], plan: Plan) -> (Dev<'a>, Rc<Cell<bool>>) {
        let fired = Rc::new(Cell::new(false));
        let dev = Dev {
            d,
            pos: 0,
            calls: 0,
            interrupted: 0,
            fired: fired.clone(),
            plan,
            rng: Src::Prng(plan.seed),
            out: vec![],
        };
        (dev, fired)
    }
    /// how many of `want` bytes to move now
    fn step(&mut self, at: usize, want: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.plan.intr != 0 && (self.interrupted > 0 || self.calls % self.plan.intr == 0) && self.interrupted < self.plan.burst {
            self.interrupted += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.interrupted = 0;
        let mut n = want;
        if self.plan.chop != 0 {
            n = n.min(self.rng.range(1, self.plan.chop));
        }
        match self.plan.fault {
            Fault::None => {}
            Fault::At(p, k) => {
                if at >= p && want > 0 {
                    self.fired.set(true);
                    return Err(k.into());
                }
                n = n.min(p.max(at) - at);
            }
            Fault::Once(p, k) => {
                if at >= p && !self.fired.get() && want > 0 {
                    self.fired.set(true);
                    return Err(k.into());
                }
                if at < p {
                    n = n.min(p - at);
                }
            }
            Fault::Zero(p) => {
                if at >= p && want > 0 {
                    self.fired.set(true);
                    return Ok(0);
                }
                n = n.min(p.max(at) - at);
            }
        }
        Ok(n)
    }
}
impl Read for Dev<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.step(self.pos, buf.len())?.min(self.d.len() - self.pos);
        buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Dev<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step(self.out.len(), buf.len())?;
        self.out.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// An operation: everything it produced, and whether it reported an error.
struct Outcome {
    out: Vec<u8>,
    err: Option<String>,
    fired: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Header,
    /// parse from the faulty reader, expand into memory
    Parse,
    /// parse from memory, expand into the faulty writer
    Expand,
    /// re-encode into the faulty writer
    Encode,
    /// read a serialised trace from the faulty reader
    Trace,
}
const OPS: [Op; 5] = [Op::Header, Op::Parse, Op::Expand, Op::Encode, Op::Trace];

struct Input {
    header: Vec<u8>,
    stream: Vec<u8>,
    blocks: Vec<Block>,
    trace: Vec<u8>,
}
impl Input {
    fn bytes(&self, op: Op) -> usize {
        match op {
            Op::Header => self.header.len(),
            Op::Parse => self.stream.len(),
            Op::Trace => self.trace.len(),
            Op::Expand | Op::Encode => 0,
        }
    }
}

fn exec(inp: &Input, op: Op, plan: Plan) -> Outcome {
    let src: &[u8] = match op {
        Op::Header => &inp.header,
        Op::Parse => &inp.stream,
        Op::Trace => &inp.trace,
        _ => &[],
    };
    let (mut dev, fired) = Dev::new(src, plan);
    let mut out = vec![];
    let mut err = None;
    match op {
        Op::Header => match librezip::gzip::discard_header(&mut dev) {
            Ok(v) => out = v,
            Err(e) => err = Some(e.to_string()),
        },
        Op::Parse => {
            let mut w = CircularBuffer::new();
            for b in librezip::parse_deflate(&mut dev) {
                let r = b.and_then(|b| librezip::decompressed_block(&mut out, &mut w, &b));
                if let Err(e) = r {
                    err = Some(e.to_string());
                    break;
                }
            }
        }
        Op::Expand => {
            let mut w = CircularBuffer::new();
            for b in &inp.blocks {
                if let Err(e) = librezip::decompressed_block(&mut dev, &mut w, b) {
                    err = Some(e.to_string());
                    break;
                }
            }
            out = dev.out;
        }
        Op::Encode => {
            let mut w = BitWriter::new(&mut dev);
            let r = (|| {
                for (i, b) in inp.blocks.iter().enumerate() {
                    w.write_bit(i + 1 == inp.blocks.len())?;
                    librezip::compressed_block(&mut w, b)?;
                }
                w.align()?;
                Ok::<(), anyhow::Error>(())
            })();
            err = r.err().map(|e| e.to_string());
            drop(w);
            out = dev.out;
        }
        Op::Trace => match librezip::serialise_trace::read(&mut dev) {
            Ok(v) => out = librezip::serialise_trace::write(&v),
            Err(e) => err = Some(e.to_string()),
        },
    }
    Outcome { out, err, fired: fired.get() }
}

fn run(inp: &Input, op: Op, plan: Plan) -> Result<Outcome, Fail> {
    match guard(|| exec(inp, op, plan)) {
        Ok(o) => Ok(o),
        Err(p) => viol!("{op:?} under {plan:?} panicked: {p}"),
    }
}

/// Returns how many faults fired.
fn sweep(inp: &Input, op: Op, src: &mut Src, obs: &mut Obs) -> Result<usize, Fail> {
    let clean = run(inp, op, Plan::fault(Fault::None))?;
    if clean.err.is_some() {
        // nothing to compare with: C02's and C09's business
        obs.class("refused without faults");
        return Ok(0);
    }
    let writer = matches!(op, Op::Expand | Op::Encode);
    let total = if writer { clean.out.len() } else { inp.bytes(op) };

    // how transfers are split changes nothing
    for (chop, intr) in [(1, 0), (7, 2), (0, 1), (src.range(1, 40), src.below(4)), (300, 3)] {
        let burst = src.pick(&[1usize, 1, 2, 3, 6, 17, if total < 2000 { 120 } else { 4 }]);
        let plan = Plan { fault: Fault::None, chop, intr, burst, seed: u64::from(src.u32()) };
        let o = run(inp, op, plan)?;
        if let Some(e) = &o.err {
            viol!("{op:?} failed under {plan:?}: {e}");
        }
        ensure_p!(o.out == clean.out, "{op:?} under {plan:?} differs {}", lz::diff(&o.out, &clean.out));
        obs.extra_evals += 1;
    }

    // faults everywhere on short transfers, else at the ends and at sampled places
    let mut points: Vec<usize> = if total <= 80 {
        (0..=total).collect()
    } else {
        let mut v: Vec<usize> = (0..12).chain(total - 12..=total).collect();
        v.extend((0..40).map(|_| src.below(total)));
        v
    };
    points.sort();
    points.dedup();
    let mut fired = 0;
    for &p in &points {
        let kind = src.pick(KINDS);
        let fault = match src.below(if writer { 3 } else { 2 }) {
            0 => Fault::At(p, kind),
            1 => Fault::Once(p, kind),
            _ => Fault::Zero(p),
        };
        let plan = Plan { fault, chop: src.pick(&[0usize, 0, 3]), intr: src.pick(&[0usize, 0, 2]), burst: src.pick(&[1usize, 1, 7]), seed: u64::from(src.u32()) };
        let o = run(inp, op, plan)?;
        obs.extra_evals += 1;
        if o.fired {
            fired += 1;
            ensure_p!(o.err.is_some(), "{op:?} reports success although the {plan:?} fault occurred");
        } else {
            ensure_p!(
                o.err.is_none() && o.out == clean.out,
                "{op:?} under {plan:?}: no fault met, yet the result differs: {:?} {}",
                o.err,
                lz::diff(&o.out, &clean.out)
            );
        }
        // what came out before the error is the beginning of the real thing
        if matches!(op, Op::Parse | Op::Expand | Op::Encode) {
            ensure_p!(
                clean.out.starts_with(&o.out),
                "{op:?} under {plan:?}: not a prefix of the fault-free output {}",
                lz::diff(&o.out, &clean.out)
            );
        }
    }
    Ok(fired)
}

fn make(src: &mut Src, big: bool) -> Result<Input, Fail> {
    let header = gen_::gz_header(src);
    let stream = if src.chance(1, 3) {
        let d = gen_::data(src, if big { 3000 } else { 200 });
        gen_::real_stream(src, &d).0
    } else {
        gen_::stream(src, &StreamOpts { large: big, max_codes: 60, ..StreamOpts::default() }).bytes
    };
    let r = decode(&stream);
    if let Some(e) = r.err {
        harness_err!("own decoder refuses a generated stream: {e}");
    }
    // blocks as the code under test represents them
    let blocks = match guard(|| lz::parse(&stream)) {
        Ok(p) => p.blocks,
        Err(_) => vec![],
    };
    let n = src.below(30);
    let mut tr = vec![];
    for _ in 0..n {
        match src.weighted(&[2, 2, 3]) {
            0 => tr.push(Trace::ActuallyLiteral),
            1 => tr.push(Trace::Actually(librezip::verif::make_ref(
                src.range(1, 32768) as u16,
                src.range(3, 258) as u16,
            ))),
            _ => {
                let k = src.pick(&[1usize, 2, 300]);
                tr.extend(std::iter::repeat_n(Trace::Correct, k));
            }
        }
    }
    let trace = librezip::serialise_trace::write(&tr);
    Ok(Input { header, stream, blocks, trace })
}

pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Valid headers, streams and traces through a reader/writer that splits transfers, interrupts, fails (once or for \
         good, ten error kinds) or accepts nothing at chosen byte positions: every position when 80 bytes or fewer are moved, \
         else both ends and 40 sampled ones. Operations: header read, parse+expand from a faulty reader, expand and re-encode \
         into a faulty writer, trace read. Non-trivial: at least one injected fault actually met in the case."
    }
    fn max_choices(&self) -> usize {
        600
    }
    fn cases(&self) -> (u32, u32) {
        (100_000, 1_200_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let op = OPS[src.below(5)];
        let big = src.chance(1, 6);
        let inp = make(src, big)?;
        obs.fp(&inp.header);
        obs.fp(&inp.stream);
        obs.fp(&inp.trace);
        obs.fp(&[op as u8]);
        obs.class(match op {
            Op::Header => "header",
            Op::Parse => "parse",
            Op::Expand => "expand",
            Op::Encode => "re-encode",
            Op::Trace => "trace read",
        });
        obs.describe(|| format!("{op:?}: header {} bytes, stream {}, trace {}", inp.header.len(), lz::hex(&inp.stream), inp.trace.len()));
        let fired = sweep(&inp, op, src, obs)?;
        obs.nontrivial = fired > 0;
        Ok(())
    }
    fn fixed(&self) -> Vec<String> {
        (0..40).map(|i| format!("all-ops {i}")).collect()
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let k: u64 = name.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut s = Src::Prng(k * 77 + 5);
        let inp = make(&mut s, k % 4 == 0)?;
        for op in OPS {
            sweep(&inp, op, &mut s, obs)?;
        }
        Ok(())
    }
}
