//! C24: memory depends on the largest block, not on the length of the stream.

use crate::engine::*;
use crate::gen_::{self, StreamOpts};
use crate::refdeflate::*;
use crate::watch;
use crate::{ensure_p, harness_err, viol};
use librezip::verif::BitWriter;
use librezip::all_refs::AllRefs;
use librezip::{Block, CircularBuffer, Config, Technique, filter, gzip, serialise_trace, trace};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// Growth of this much may be a buffer's.
const SLACK: i64 = 64 << 10;

/// `head`, then `unit` so many times, then `tail`.
pub struct Repeat<'a> {
    parts: [(&'a [u8], usize); 3],
    part: usize,
    at: usize,
}
impl<'a> Repeat<'a> {
    pub fn new(head: &'a [u8], unit: &'a [u8], times: usize, tail: &'a [u8]) -> Self {
        Repeat { parts: [(head, 1), (unit, times), (tail, 1)], part: 0, at: 0 }
    }
}
impl Read for Repeat<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        loop {
            let Some((b, left)) = self.parts.get_mut(self.part) else { return Ok(0) };
            if *left == 0 || b.is_empty() {
                self.part += 1;
                continue;
            }
            let n = buf.len().min(b.len() - self.at);
            buf[..n].copy_from_slice(&b[self.at..self.at + n]);
            self.at += n;
            if self.at == b.len() {
                self.at = 0;
                *left -= 1;
            }
            return Ok(n);
        }
    }
}

pub struct Unit {
    /// whole bytes of blocks, none of them final
    pub bytes: Vec<u8>,
    pub content: Vec<u8>,
    pub blocks: usize,
    pub dynamic: usize,
    pub largest: usize,
}
/// a final empty block
pub const TAIL: [u8; 2] = [3, 0];

pub fn unit_of(st: &gen_::Stream) -> Unit {
    let mut b = Bits { bytes: st.bytes.clone(), n: st.end_bits };
    b.bytes.truncate(st.end_bits.div_ceil(8));
    let last = *st.starts.last().unwrap();
    b.bytes[last / 8] &= !(1 << (last % 8));
    gen_::put_block(&mut b, false, &gen_::BlockSpec::Stored(vec![]));
    let largest = st
        .blocks
        .iter()
        .map(|x| match x {
            RBlock::Stored(d) => d.len(),
            RBlock::Fixed(c) | RBlock::Dynamic(_, c) => c.len(),
        })
        .max()
        .unwrap_or(0);
    Unit { bytes: b.bytes, content: st.data.clone(), blocks: st.blocks.len() + 1, dynamic: st.blocks.iter().filter(|x| matches!(x, RBlock::Dynamic(..))).count(), largest }
}

/// Few and many repetitions: the first enough for buffers to fill, the second far beyond.
fn times(u: &Unit, op: usize) -> (usize, usize) {
    let (b, c) = (u.bytes.len(), u.content.len().max(1));
    // tables take long
    let micros = 3 * u.blocks + 200 * u.dynamic + if op == 1 { 60 * u.blocks } else { 0 };
    let few = (200_000 / b).min(1_000_000 / c).min(200_000 / micros).max(2);
    let more = (700_000 / b).max(if u.content.is_empty() { 0 } else { 1_000_000 / c }).min(6_000_000 / c).min(1_000_000 / micros).max(2);
    (few, few + more)
}

const OPS: [&str; 7] =
    ["parse", "parse, expand and write back", "expand through hashing filters", "files in a row", "window", "work that fails", "tracing"];

/// Takes so many bytes, then no more.
struct Fails(usize);
impl Write for Fails {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        if n == 0 && !b.is_empty() { Err(std::io::ErrorKind::TimedOut.into()) } else { Ok(n) }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Damaged streams, outputs that fail, work left half done. What comes of it is for other checks.
fn failing(u: &Unit, k: usize) {
    let mut bytes = u.bytes.clone();
    bytes.extend(TAIL);
    let mut s = Src::Prng(k as u64);
    for i in 0..k {
        let mut b = bytes.clone();
        match i % 4 {
            0 => b.truncate(s.below(b.len())),
            1 => {
                for _ in 0..3 {
                    let n = s.below(b.len());
                    b[n] ^= 1 << s.below(8);
                }
            }
            _ => {}
        }
        let fails = |n: usize| Fails(if i % 4 == 2 { n } else { usize::MAX });
        let mut out = filter::FilterWrite::new(fails(s.below(u.content.len() + 1)));
        let mut w = BitWriter::new(fails(s.below(b.len() + 1)));
        let mut dict = CircularBuffer::new();
        for (n, block) in librezip::parse_deflate(&b[..]).enumerate() {
            let Ok(block) = block else { break };
            let failed = librezip::decompressed_block(&mut out, &mut dict, &block).is_err()
                | w.write_bit(false).is_err()
                | librezip::compressed_block(&mut w, &block).is_err();
            if failed || (i % 4 == 3 && n == u.blocks / 2) {
                break;
            }
        }
        let mut h = vec![0x1f, 0x8b, 8, 0x1e, 1, 2, 3, 4, 0, 3];
        h.extend(&b[..b.len().min(100)]);
        let _ = gzip::discard_header(&h[..]);
        let _ = serialise_trace::read(&b[..b.len().min(100)]);
    }
}

/// The blocks of the unit traced, the traces stored, read and followed.
fn tracing(u: &Unit, k: usize) -> Res {
    let mut dict = CircularBuffer::new();
    let mut jobs = vec![];
    for b in librezip::parse_deflate(Repeat::new(&[], &u.bytes, 1, &TAIL)) {
        let b = b.map_err(|e| Fail::Violation(format!("tracing: valid stream fails: {e}")))?;
        let before = dict.vec();
        let mut data = vec![];
        librezip::decompressed_block(&mut data, &mut dict, &b).map_err(|e| Fail::Violation(format!("tracing: {e}")))?;
        if let Block::FixedHuffman(codes) | Block::DynamicHuffman { codes, .. } = b {
            if codes.len() < 5000 && jobs.len() < 8 {
                jobs.push((before, data, codes));
            }
        }
    }
    for i in 0..k {
        for (before, data, codes) in &jobs {
            let refs = AllRefs::with_sixteen(before, data, 50);
            let technique = Technique::new(if i % 10 == 0 { Config::spicy() } else { Config::gzip((i % 10) as u8) }, &refs);
            let t = trace::validate(codes, &technique);
            let stored = serialise_trace::write(&t);
            let read = serialise_trace::read(&stored[..]).map_err(|e| Fail::Violation(format!("tracing: {e}")))?;
            ensure_p!(trace::restore(&read, &technique).len() == codes.len(), "restored codes differ in number");
        }
    }
    Ok(())
}

fn work(op: usize, u: &Unit, k: usize) -> Res {
    let fail = |e: anyhow::Error| Fail::Violation(format!("{}: valid stream fails: {e}", OPS[op]));
    let io = |e: std::io::Error| Fail::Violation(format!("{}: {e}", OPS[op]));
    match op {
        0 => {
            let mut n = 0;
            for b in librezip::parse_deflate(Repeat::new(&[], &u.bytes, k, &TAIL)) {
                b.map_err(fail)?;
                n += 1;
            }
            ensure_p!(n == u.blocks * k + 1, "{n} blocks of {}", u.blocks * k + 1);
        }
        1 => {
            let mut w = BitWriter::new(std::io::sink());
            let mut dict = CircularBuffer::new();
            for b in librezip::parse_deflate(Repeat::new(&[], &u.bytes, k, &TAIL)) {
                let b = b.map_err(fail)?;
                librezip::decompressed_block(std::io::sink(), &mut dict, &b).map_err(fail)?;
                w.write_bit(false).map_err(fail)?;
                librezip::compressed_block(&mut w, &b).map_err(fail)?;
            }
            w.align().map_err(fail)?;
        }
        2 => {
            let mut out = filter::FilterWrite::new(std::io::sink());
            let mut from = filter::FilterRead::new(Repeat::new(&[], &u.bytes, k, &TAIL));
            let mut dict = CircularBuffer::new();
            for b in librezip::parse_deflate(&mut from) {
                librezip::decompressed_block(&mut out, &mut dict, &b.map_err(fail)?).map_err(fail)?;
            }
            let _ = (out.hash(), from.hash());
        }
        3 => {
            let mut one = vec![0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 0, 3];
            one.extend(&u.bytes);
            one.extend(TAIL);
            one.extend(gen_::footer(&u.content));
            let mut from = Repeat::new(&[], &one, k, &[]);
            for _ in 0..k {
                gzip::discard_header(&mut from).map_err(fail)?;
                for b in librezip::parse_deflate(&mut from) {
                    b.map_err(fail)?;
                }
                let mut f = [0; 8];
                from.read_exact(&mut f).map_err(io)?;
            }
        }
        5 => failing(u, k),
        6 => tracing(u, k)?,
        _ => {
            let mut w = CircularBuffer::with_capacity(1000);
            w.push(1);
            for _ in 0..k {
                w.extend(&u.content);
                let _ = w.copy(1, 300, std::io::sink());
                let _ = w.copy(2000, 3, std::io::sink());
            }
        }
    }
    Ok(())
}

fn check(u: &Unit, op: usize) -> Res {
    let (few, many) = match op {
        // each time copies something as well
        4 => (100, 4_000_000 / (u.content.len() + 300)),
        5 => {
            let (a, b) = times(u, 1);
            (a.min(50), b.min(600))
        }
        6 => (20, 150),
        _ => times(u, op),
    };
    let a = watch::measured(|| work(op, u, few));
    a.2?;
    let b = watch::measured(|| work(op, u, many));
    b.2?;
    // damage may make a block large
    ensure_p!(
        op == 5 || b.0 <= a.0 + SLACK,
        "{}: {} repetitions of {} bytes in {} blocks ({} of content) take {} bytes of memory, {few} take {}",
        OPS[op],
        many,
        u.bytes.len(),
        u.blocks,
        u.content.len(),
        b.0,
        a.0
    );
    ensure_p!(
        b.1 <= a.1 + if op >= 5 { 4096 } else { SLACK },
        "{}: {} bytes are still held after {} repetitions, {} after {few}",
        OPS[op],
        b.1,
        many,
        a.1
    );
    // a block's codes, tables and their trees, and the window
    let bound = (u.largest as i64) * 64 + (2 << 20);
    ensure_p!(op >= 5 || b.0 <= bound, "{}: {} bytes of memory for blocks of at most {} codes or bytes", OPS[op], b.0, u.largest);
    Ok(())
}

/// Many blocks that differ from each other, each with its own tables where it has any.
fn distinct(seed: u64, n: usize) -> Unit {
    let mut src = Src::Prng(seed);
    let mut all = Unit { bytes: vec![], content: vec![], blocks: 0, dynamic: 0, largest: 0 };
    for _ in 0..n {
        let u = unit_of(&gen_::stream(&mut src, &StreamOpts { large: false, max_codes: 20, ..StreamOpts::default() }));
        all.bytes.extend(u.bytes);
        all.content.extend(u.content);
        all.blocks += u.blocks;
        all.dynamic += u.dynamic;
        all.largest = all.largest.max(u.largest);
    }
    all
}

fn check_distinct(seed: u64, op: usize, few: usize, many: usize) -> Res {
    let (f, m) = (distinct(seed, few), distinct(seed, many));
    let a = watch::measured(|| work(op, &f, 1));
    a.2?;
    let b = watch::measured(|| work(op, &m, 1));
    b.2?;
    let slack = SLACK + 64 * (m.largest - f.largest) as i64;
    ensure_p!(b.0 <= a.0 + slack, "{}: {many} different streams ({} blocks) take {} bytes of memory, the first {few} take {}", OPS[op], m.blocks, b.0, a.0);
    ensure_p!(b.1 <= a.1 + slack, "{}: {} bytes are still held after {many} different streams, {} after {few}", OPS[op], b.1, a.1);
    Ok(())
}

/// The real command under a limit on its data, fed through a pipe.
fn command(cmd: &str, u: &Unit, k: usize, limit_kb: Option<u32>) -> Result<bool, Fail> {
    let h = |e: std::io::Error| Fail::Harness(format!("running {cmd}: {e}"));
    let Some(bin) = std::env::var_os("REZIP_BIN") else { harness_err!("REZIP_BIN is not set") };
    let script = match limit_kb {
        Some(n) => format!("ulimit -d {n}; exec timeout --foreground -s KILL 250 \"$@\""),
        None => "exec timeout --foreground -s KILL 250 \"$@\"".into(),
    };
    let mut c = Command::new("sh")
        .args(["-c", &script, "sh"])
        .arg(bin)
        .arg(cmd)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .map_err(h)?;
    let mut to = c.stdin.take().unwrap();
    let mut crc = !0;
    for _ in 0..k {
        crc = crc32_step(crc, &u.content);
    }
    let mut tail = TAIL.to_vec();
    tail.extend((!crc).to_le_bytes());
    tail.extend(((u.content.len() * k) as u32).to_le_bytes());
    let mut from = Repeat::new(&[0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 0, 3], &u.bytes, k, &tail);
    let mut buf = vec![0; 1 << 16];
    loop {
        let n = from.read(&mut buf).unwrap_or(0);
        if n == 0 || to.write_all(&buf[..n]).is_err() {
            break;
        }
    }
    drop(to);
    Ok(c.wait().map_err(h)?.success())
}

pub fn command_unit(kind: &str) -> Unit {
    let mut s = Src::Prng(5);
    let mut b = Bits::default();
    let mut st = gen_::Stream { bytes: vec![], blocks: vec![], data: vec![], starts: vec![], end_bits: 0, labels: vec![] };
    for _ in 0..20 {
        st.starts.push(b.n);
        let spec = match kind {
            "stored" => gen_::BlockSpec::Stored(gen_::data_len(&mut s, 3000)),
            "literals" => gen_::BlockSpec::Fixed((0..1000).map(|_| RCode::Lit(s.below(140) as u8)).collect(), false),
            "references" => gen_::BlockSpec::Fixed(
                std::iter::once(RCode::Lit(65)).chain((0..300).map(|i| RCode::Ref { dist: 1, len: 100 + i % 100 })).collect(),
                false,
            ),
            _ => gen_::BlockSpec::Fixed(vec![], false),
        };
        match &spec {
            gen_::BlockSpec::Stored(d) => st.data.extend(d),
            gen_::BlockSpec::Fixed(c, _) => expand(c, &mut st.data),
            _ => {}
        }
        st.blocks.push(gen_::put_block(&mut b, false, &spec));
    }
    st.end_bits = b.n;
    st.bytes = b.bytes;
    unit_of(&st)
}

pub struct C24;
impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "Generated runs of blocks repeated a few and many times, or few and many different ones (at least 0.7 MB more of stream or 20 MB more of content); parsed, \
         expanded, written back, hashed, read as files in a row, put through a small window, traced, or damaged or stopped half way (then only what is kept counts), with all allocations counted: \
         peak and remainder must not grow, and stay within a bound set by the largest block. Directed: the real commands on \
         long streams under a limit on their memory. Non-trivial: more than one block repeated."
    }
    fn max_choices(&self) -> usize {
        200
    }
    fn cases(&self) -> (u32, u32) {
        (600, 20_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..3).map(|op| format!("distinct {op}")).collect();
        v.push("forged streams".into());
        for c in ["cat", "dump", "zero"] {
            for k in ["literals", "references", "stored", "empty"] {
                if (c, k) != ("zero", "empty") {
                    v.push(format!("{c} {k}"));
                }
            }
        }
        v
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        let (cmd, kind) = name.split_once(' ').unwrap();
        if cmd == "forged" {
            let work = |k: usize| {
                let mut s = Src::Prng(7);
                for _ in 0..k {
                    let (b, _) = super::streams::forged(&mut s);
                    let _ = guard(|| librezip::parse_deflate(&b[..]).take_while(|b| b.is_ok()).count());
                    let mut h = gen_::gz_header(&mut s);
                    gen_::mutate(&mut s, &mut h);
                    let _ = guard(|| gzip::discard_header(&h[..]).is_ok());
                }
            };
            let (a, b) = (watch::measured(|| work(500)), watch::measured(|| work(40_000)));
            ensure_p!(b.1 <= a.1 + 4096, "{} bytes are still held after parsing 40000 invalid streams and headers, {} after 500", b.1, a.1);
            return Ok(());
        }
        if cmd == "distinct" {
            return check_distinct(3, kind.parse().unwrap(), 300, 6000);
        }
        let u = command_unit(kind);
        // 60 MB of content or of what the codes take, or a million blocks
        let k = match kind {
            "literals" => 400,
            "references" => 80,
            "stored" => 900,
            _ => 60_000,
        };
        if command(cmd, &u, k, Some(24 << 10))? {
            return Ok(());
        }
        if command(cmd, &u, k, None)? {
            viol!("{cmd} of {k} times {} blocks ({} bytes of content) does not do with 24 MiB", u.blocks, u.content.len());
        }
        viol!("{cmd} fails on a long valid file");
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let op = src.below(OPS.len());
        let large = src.chance(1, 10);
        if op < 3 && src.chance(1, 4) {
            let seed = src.below(1 << 30) as u64;
            obs.class("different blocks");
            obs.fp(&seed.to_le_bytes());
            obs.fp(&[op as u8]);
            obs.nontrivial = true;
            obs.describe(|| format!("{}: 50 and 500 different streams (seed {seed})", OPS[op]));
            return check_distinct(seed, op, 50, 500);
        }
        let st = gen_::stream(src, &StreamOpts { large, max_codes: 60, ..StreamOpts::default() });
        let u = unit_of(&st);
        obs.class(OPS[op]);
        obs.fp(&u.bytes);
        obs.fp(&[op as u8]);
        obs.nontrivial = u.blocks > 2;
        obs.describe(|| {
            let (a, b) = times(&u, op);
            format!("{}: {} blocks in {} bytes, {a} and {b} times", OPS[op], u.blocks, u.bytes.len())
        });
        check(&u, op)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["growth of 64 KiB or less over the longer run, and 2 MiB plus 64 bytes per code of the largest block, are taken as bounded"]
    }
}
