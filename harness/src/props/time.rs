//! C25: time grows in proportion to what is read and written.

use super::mem::{Repeat, TAIL, Unit, command_unit, unit_of};
use crate::engine::*;
use crate::gen_::{self, StreamOpts};
use crate::refdeflate::*;
use crate::{ensure_p, harness_err, viol};
use librezip::verif::BitWriter;
use librezip::{Block, CircularBuffer, Trace, filter, gzip, serialise_trace};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// So many times as much work,
const MORE: usize = 16;
/// may take so many times as long.
const FACTOR: f64 = 100.0;
/// What the short run is to take at least.
const ENOUGH: f64 = 0.02;

unsafe extern "C" {
    fn clock_gettime(id: i32, to: *mut [i64; 2]) -> i32;
}
/// The thread's own time on a processor.
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as f64 + t[1] as f64 / 1e9
}

type Work = Box<dyn FnMut() -> Res>;

fn timed(w: &mut Work) -> Result<f64, Fail> {
    let t = cpu();
    w()?;
    Ok(cpu() - t)
}

/// `prepare(k)` is work of size k; only doing it is measured.
fn proportional(what: &str, max: usize, mut prepare: impl FnMut(usize) -> Work) -> Result<usize, Fail> {
    let mut k = 1;
    let mut a;
    loop {
        a = timed(&mut prepare(k))?;
        if a >= ENOUGH || k >= max {
            break;
        }
        k = (k * if a < ENOUGH / 200.0 { 8 } else { 2 }).min(max);
    }
    let mut b = 0.0;
    // the processor may be slow for a while
    for attempt in 0..4 {
        b = timed(&mut prepare(k * MORE))?;
        if b <= a * FACTOR + ENOUGH {
            return Ok(k);
        }
        a = a.max(timed(&mut prepare(k))?);
        if attempt > 0 && b > 1.5 * a * FACTOR + 1.0 {
            break;
        }
    }
    viol!("{what}: {k} times takes {a:.3} s, {} times takes {b:.3} s", k * MORE)
}

fn fail(e: anyhow::Error) -> Fail {
    Fail::Violation(format!("valid input fails: {e}"))
}

/// Blocks already in memory or delivered by a reader, in three ways.
fn stream(op: usize, from: impl Read) -> Res {
    let mut dict = CircularBuffer::new();
    match op {
        0 => {
            for b in librezip::parse_deflate(from) {
                b.map_err(fail)?;
            }
        }
        1 => {
            let mut w = BitWriter::new(std::io::sink());
            for b in librezip::parse_deflate(from) {
                let b = b.map_err(fail)?;
                librezip::decompressed_block(std::io::sink(), &mut dict, &b).map_err(fail)?;
                w.write_bit(false).map_err(fail)?;
                librezip::compressed_block(&mut w, &b).map_err(fail)?;
            }
            w.align().map_err(fail)?;
        }
        _ => {
            let mut from = filter::FilterRead::new(from);
            let mut out = filter::FilterWrite::new(vec![]);
            for b in librezip::parse_deflate(&mut from) {
                librezip::decompressed_block(&mut out, &mut dict, &b.map_err(fail)?).map_err(fail)?;
            }
            let _ = (out.hash(), from.hash());
        }
    }
    Ok(())
}

const OPS: [&str; 8] = [
    "parsing a stream of many blocks",
    "parsing, expanding and writing back many blocks",
    "expanding many blocks through hashing filters",
    "reading files in a row",
    "the window",
    "one block of many codes",
    "a header",
    "storing and reading a trace",
];

/// Files one after another, each parsed, written back or hashed with things of its own, and a short trace stored for each.
fn files(u: &Unit, op: usize, k: usize) -> Work {
    let mut one = vec![0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 0, 3];
    one.extend(&u.bytes);
    one.extend(TAIL);
    one.extend(gen_::footer(&u.content));
    Box::new(move || {
        let mut from = Repeat::new(&[], &one, k, &[]);
        for _ in 0..k {
            gzip::discard_header(&mut from).map_err(fail)?;
            stream(op, &mut from)?;
            let s = serialise_trace::write(&[Trace::ActuallyLiteral, Trace::Correct]);
            serialise_trace::read(&s[..]).map_err(fail)?;
            let mut f = [0; 8];
            from.read_exact(&mut f).map_err(|e| fail(e.into()))?;
        }
        Ok(())
    })
}

fn one_block(codes: &[RCode], k: usize) -> Work {
    let mut all = vec![RCode::Lit(0)];
    for _ in 0..k {
        all.extend_from_slice(codes);
    }
    let mut b = Bits::default();
    gen_::put_block(&mut b, true, &gen_::BlockSpec::Fixed(all, false));
    Box::new(move || {
        for op in 0..3 {
            stream(op, &b.bytes[..])?;
        }
        Ok(())
    })
}

impl C25 {
    fn case(&self, op: usize, src: &mut Src, obs: &mut Obs) -> Res {
        let large = src.chance(1, 10);
        let mut k = 0;
        match op {
            0..=4 => {
                let st = gen_::stream(src, &StreamOpts { large, max_codes: 60, ..StreamOpts::default() });
                let u = unit_of(&st);
                let inner = src.below(3);
                let cap = src.pick(&[32_768u16, 1, 2, 1000, 32_767, 65_535]);
                obs.fp(&u.bytes);
                obs.nontrivial = u.blocks > 2;
                // no more than so many bytes at once
                let max = ((64 << 20) / MORE / (u.bytes.len() + u.content.len()).max(1)).max(1);
                k = match op {
                    3 => proportional(OPS[op], max, |k| files(&u, inner, k))?,
                    4 => {
                        let content = &u.content;
                        proportional(OPS[op], max, |k| {
                            let content = content.clone();
                            Box::new(move || {
                                let mut w = CircularBuffer::with_capacity(cap);
                                w.push(1);
                                for i in 0..k {
                                    w.extend(&content);
                                    w.push(i as u8);
                                    let _ = w.copy(w.len().min(300), 300, std::io::sink());
                                    w.get_at_dist(1);
                                }
                                Ok(())
                            })
                        })?
                    }
                    _ => {
                        let bytes = &u.bytes;
                        proportional(OPS[op], max, |k| {
                            let bytes = bytes.clone();
                            Box::new(move || stream(op, Repeat::new(&[], &bytes, k, &TAIL)))
                        })?
                    }
                };
                obs.describe(|| format!("{}: {} blocks in {} bytes, {k} and {} times", OPS[op], u.blocks, u.bytes.len(), k * MORE));
            }
            5 => {
                let n = src.range(1, 40);
                let mut codes = vec![];
                let mut have = 1;
                for _ in 0..n {
                    if src.bool() {
                        codes.push(RCode::Lit(src.u32() as u8));
                        have += 1;
                    } else {
                        let len = src.pick(&[3u32, 4, 10, 11, 18, 100, 257, 258]);
                        codes.push(RCode::Ref { dist: 1 + src.below(have) as u32, len });
                        have = (have + len as usize).min(32_768);
                    }
                }
                obs.fp(format!("{codes:?}").as_bytes());
                obs.nontrivial = true;
                k = proportional(OPS[op], 4_000_000 / MORE / n, |k| one_block(&codes, k))?;
            }
            6 => {
                // kept well below what a name or comment may be
                let flags = [8u8, 16, 24, 10, 26][src.below(5)];
                let unit: Vec<u8> = (0..src.range(1, 30)).map(|_| 1 + src.below(255) as u8).collect();
                obs.fp(&unit);
                obs.fp(&[flags]);
                obs.nontrivial = true;
                k = proportional(OPS[op], (8 << 20) / MORE / unit.len(), |k| {
                    let mut h = vec![0x1f, 0x8b, 8, flags, 1, 2, 3, 4, 0, 3];
                    for f in [8, 16] {
                        if flags & f != 0 {
                            for _ in 0..k {
                                h.extend(&unit);
                            }
                            h.push(0);
                        }
                    }
                    if flags & 2 != 0 {
                        let crc = !crc32_step(!0, &h) as u16;
                        h.extend(crc.to_le_bytes());
                    }
                    Box::new(move || {
                        let got = gzip::discard_header(&h[..]).map_err(fail)?;
                        ensure_p!(got == h, "another header");
                        Ok(())
                    })
                })?;
            }
            _ => {
                let n = src.range(1, 30);
                let unit: Vec<Trace> = (0..n)
                    .map(|_| match src.below(3) {
                        0 => Trace::Correct,
                        1 => Trace::ActuallyLiteral,
                        _ => Trace::Actually(librezip::verif::make_ref(1 + src.below(32_768) as u16, 3 + src.below(256) as u16)),
                    })
                    .collect();
                obs.fp(format!("{unit:?}").as_bytes());
                obs.nontrivial = true;
                k = proportional(OPS[op], 6_000_000 / MORE / n, |k| {
                    let mut t = Vec::with_capacity(k * unit.len());
                    for _ in 0..k {
                        t.extend_from_slice(&unit);
                    }
                    Box::new(move || {
                        let s = serialise_trace::write(&t);
                        ensure_p!(serialise_trace::read(&s[..]).map_err(fail)? == t, "another trace");
                        Ok(())
                    })
                })?;
            }
        }
        if op > 4 {
            obs.describe(|| format!("{}: {k} and {} times", OPS[op], k * MORE));
        }
        obs.class(OPS[op]);
        Ok(())
    }
}

/// Seconds on a processor the command takes.
fn command(cmd: &str, u: &Unit, k: usize) -> Result<f64, Fail> {
    let h = |e: std::io::Error| Fail::Harness(format!("running {cmd}: {e}"));
    let Some(bin) = std::env::var_os("REZIP_BIN") else { harness_err!("REZIP_BIN is not set") };
    let mut c = Command::new("bash")
        .args(["-c", "TIMEFORMAT='%U %S'; time timeout --foreground -s KILL 200 \"$@\"", "bash"])
        .arg(bin)
        .arg(cmd)
        .env("RUST_BACKTRACE", "0")
        .env("LC_ALL", "C")
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(h)?;
    let mut to = c.stdin.take().unwrap();
    let mut crc = !0;
    for _ in 0..k {
        crc = crc32_step(crc, &u.content);
    }
    let mut tail = TAIL.to_vec();
    tail.extend((!crc).to_le_bytes());
    tail.extend(((u.content.len() * k) as u32).to_le_bytes());
    let mut from = Repeat::new(&[0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 0, 3], &u.bytes, k, &tail);
    let mut buf = vec![0; 1 << 16];
    loop {
        let n = from.read(&mut buf).unwrap_or(0);
        if n == 0 || to.write_all(&buf[..n]).is_err() {
            break;
        }
    }
    drop(to);
    let out = c.wait_with_output().map_err(h)?;
    ensure_p!(out.status.success(), "{cmd} fails on a long valid file, or does not end");
    let text = String::from_utf8_lossy(&out.stderr).into_owned();
    let last = text.lines().last().unwrap_or("");
    let sum: Option<f64> = last.split(' ').map(|x| x.parse::<f64>().ok()).sum();
    sum.ok_or_else(|| Fail::Harness(format!("time printed {text:?}")))
}

pub struct C25;
impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "Generated units (runs of blocks, files, codes of one block, names, trace entries, window operations) repeated k times, k chosen \
         so that it takes 20 ms of processor time or the size limit is reached, and 16k times: that must not take more than 100 times \
         as long (plus 20 ms; four attempts). Directed: the real commands on files of a few and 16 times as many blocks. \
         Non-trivial: more than one block, or a single item that grows."
    }
    fn max_choices(&self) -> usize {
        200
    }
    fn cases(&self) -> (u32, u32) {
        (300, 6000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec![];
        for c in ["cat", "dump", "zero"] {
            for k in ["literals", "references", "stored", "empty"] {
                if (c, k) != ("zero", "empty") {
                    v.push(format!("{c} {k}"));
                }
            }
        }
        v.push("long stored".into());
        v.push("correct".into());
        v.push("filters 1".into());
        v.push("filters 100000".into());
        v
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        if name == "correct" {
            return proportional("storing correct entries", 1_000_000, |k| {
                let t = vec![Trace::Correct; k];
                Box::new(move || {
                    let s = serialise_trace::write(&t);
                    ensure_p!(serialise_trace::read(&s[..]).map_err(fail)? == t, "another trace");
                    Ok(())
                })
            })
            .map(|_| ());
        }
        if name == "long stored" {
            return proportional("blocks made by the caller", 2000, |k| {
                let block = Block::Uncompressed((0..65_535u32).map(|i| (i * i >> 7) as u8).collect());
                Box::new(move || {
                    let mut w = BitWriter::new(vec![]);
                    for i in 0..k {
                        w.write_bit(i + 1 == k).map_err(fail)?;
                        librezip::compressed_block(&mut w, &block).map_err(fail)?;
                    }
                    w.align().map_err(fail)?;
                    stream(1, &w.into_inner()[..])
                })
            })
            .map(|_| ());
        }
        let (cmd, kind) = name.split_once(' ').unwrap();
        if cmd == "filters" {
            let n: usize = kind.parse().unwrap();
            return proportional("hashing filters", (2_000_000 / n).max(100), |k| {
                let data = vec![7; n * k];
                Box::new(move || {
                    let mut w = filter::FilterWrite::new(std::io::sink());
                    let mut r = filter::FilterRead::new(&data[..]);
                    let mut buf = vec![0; n];
                    for _ in 0..k {
                        r.read_exact(&mut buf).and_then(|_| w.write_all(&buf)).map_err(|e| fail(e.into()))?;
                    }
                    ensure_p!(r.hash() == w.hash(), "different hashes");
                    Ok(())
                })
            })
            .map(|_| ());
        }
        let u = command_unit(kind);
        let k = match kind {
            "literals" => 10,
            "references" => 2,
            "stored" => 30,
            _ => 1500,
        };
        let (mut a, mut b) = (0f64, 0.0);
        for _ in 0..3 {
            a = a.max(command(cmd, &u, k)?);
            b = command(cmd, &u, k * MORE)?;
            if b <= a * FACTOR + 10.0 * ENOUGH {
                return Ok(());
            }
        }
        viol!("{cmd} of {k} times {} blocks takes {a} s, of {} times {b} s", u.blocks, k * MORE)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let op = src.below(OPS.len());
        self.case(op, src, obs)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["time is the processor time of the one thread; 6 times the proportional time is taken as proportional, as caches and allocators have steps"]
    }
}
