//! C19: prediction at levels 1-3 against the encoders it emulates (zlib's and gzip's deflate_fast).

use crate::engine::*;
use crate::gen_;
use crate::lz;
use crate::zlibx;
use crate::{ensure_p, harness_err, viol};
use librezip::all_refs::AllRefs;
use librezip::{Block, Code, Config, Technique, Trace, serialise_trace, trace, tracer};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

/// zlib and gzip give up matches further back than this
const MAX_DIST: usize = 32768 - 262;
const CHAIN: [u16; 3] = [4, 8, 32];

/// The real gzip on stdin, if installed: the DEFLATE stream with the footer.
fn real_gzip(data: &[u8], level: u8) -> Result<Option<Vec<u8>>, String> {
    let mut child = match Command::new("gzip")
        .arg(format!("-{level}"))
        .arg("-nc")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return Ok(None),
    };
    let mut stdin = child.stdin.take().unwrap();
    let mut out = vec![];
    let mut stdout = child.stdout.take().unwrap();
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = stdin.write_all(data);
        });
        stdout.read_to_end(&mut out)
    })
    .map_err(|e| e.to_string())?;
    let ok = child.wait().map_err(|e| e.to_string())?.success();
    if !ok || out.len() < 18 || out[..4] != [0x1f, 0x8b, 8, 0] {
        return Err(format!("gzip -{level} failed"));
    }
    Ok(Some(out[10..out.len() - 8].to_vec()))
}

/// The first block's codes and content, if it qualifies.
fn first_block(stream: &[u8], data: &[u8]) -> Result<Option<Vec<Code>>, Fail> {
    let first = match librezip::parse_deflate(stream).next() {
        Some(Ok(b)) => b,
        other => viol!("the encoder's output does not parse: {other:?}"),
    };
    let codes = match first {
        Block::Uncompressed(_) => return Ok(None),
        Block::FixedHuffman(c) | Block::DynamicHuffman { codes: c, .. } => c,
    };
    let mut out = vec![];
    crate::refdeflate::expand(&codes.iter().map(lz::rcode).collect::<Vec<_>>(), &mut out);
    if !data.starts_with(&out) {
        viol!("the first block does not hold the content given to the encoder");
    }
    Ok((out.len() <= MAX_DIST).then_some(codes))
}

/// gzip, unlike zlib, does not stop searching at a match that reaches the end of the content: it goes on to one that is
/// longer only in the zeros its window holds behind the content, and cuts that one back.
fn past_the_end(data: &[u8], last: &Code) -> bool {
    let Code::Reference(r) = last else { return false };
    let (run, dist) = (usize::from(r.run()), usize::from(r.dist));
    let pos = data.len() - run;
    let at = |i: usize| data.get(i).copied().unwrap_or(0);
    (pos..=data.len()).all(|i| at(i) == at(i - dist))
}

fn check(level: u8, data: &[u8], stream: &[u8], what: &str, obs: &mut Obs) -> Res {
    let Some(codes) = first_block(stream, data)? else {
        obs.class("first block stored, or too long for the claim");
        return Ok(());
    };
    let n: usize = codes.iter().map(|c| usize::from(c.emitted_bytes())).sum();
    let whole = n == data.len();
    let data = &data[..n];
    if codes.is_empty() {
        obs.class("empty first block");
        return Ok(());
    }
    obs.nontrivial |= codes.iter().any(|c| matches!(c, Code::Reference(_)));
    obs.class_if(codes.iter().any(|c| matches!(c, Code::Reference(r) if r.run() > 3 + u16::from(level))), "has a run not inserted");
    obs.class_if(codes.len() >= 16383, "full symbol buffer");
    obs.class_if(n > 16384, "over 16 KiB");
    let refs = AllRefs::with_sixteen(&[], data, CHAIN[usize::from(level) - 1]);
    let t = match guard(|| trace::trace(&codes, &Technique::new(Config::gzip(level), &refs))) {
        Ok(t) => t,
        Err(p) => viol!("tracing panicked: {p}"),
    };
    ensure_p!(t.len() == codes.len(), "{} codes, {} trace entries", codes.len(), t.len());
    if let Some(i) = t.iter().position(|x| *x != Trace::Correct) {
        if what == "gzip" && whole && i + 1 == codes.len() && past_the_end(data, &codes[i]) {
            obs.class("gzip's last match looked past the end");
            return Ok(());
        }
        let pos: usize = codes[..i].iter().map(|c| usize::from(c.emitted_bytes())).sum();
        viol!(
            "level {level} ({what}): code {i} at byte {pos} of {n}, {:?}, was not predicted ({:?}); {} of {} mispredicted; content {}",
            codes[i],
            t[i],
            t.iter().filter(|x| **x != Trace::Correct).count(),
            codes.len(),
            lz::hex(data)
        );
    }
    let stored = serialise_trace::write(&t);
    ensure_p!(stored.len() == codes.len().div_ceil(32767) * 2, "{} correct codes are stored in {} bytes", codes.len(), stored.len());
    if level == 1 {
        let t = match guard(|| tracer::try_gzip(1, &[], data, &codes)) {
            Ok(t) => t,
            Err(p) => viol!("try_gzip panicked: {p}"),
        };
        ensure_p!(t.iter().all(|x| *x == Trace::Correct), "try_gzip at level 1 ({what}) stores a correction; content {}", lz::hex(data));
    }
    Ok(())
}

fn literal_heavy(s: &mut Src, n: usize) -> Vec<u8> {
    // unpredictable bytes with a sprinkling of repeats, over an alphabet small enough to compress
    let a = s.pick(&[150usize, 180, 210]);
    let mut v: Vec<u8> = vec![];
    while v.len() < n {
        if !v.is_empty() && s.chance(1, 60) {
            let d = s.range(1, v.len().min(32000));
            for _ in 0..s.range(3, 12) {
                v.push(v[v.len() - d]);
            }
        } else {
            v.push((s.below(a) * s.below(a) / a) as u8);
        }
    }
    v.truncate(n);
    v
}

pub struct C19;
impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Content (up to 32506 bytes, or more when the first block ends before that) compressed by zlib's fast encoder at levels \
         1-3, with or without flushes between chunks, or by the installed gzip; its first block is traced with no history. \
         Non-trivial: the block has a back-reference."
    }
    fn max_choices(&self) -> usize {
        300
    }
    fn cases(&self) -> (u32, u32) {
        (60_000, 1_000_000)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "libz-sys's bundled zlib (memory level 8: gzip's 15-bit hash) and /usr/bin/gzip are the emulated encoders",
            "if no gzip is installed, the zlib cases stand alone (class 'real gzip' is then absent)",
            "gzip may pick another distance for a last match ending with the content, where that match goes on in the zeros \
             behind it",
        ]
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec![];
        for l in 1..=3 {
            for n in [16000, 32506, 60000, 200000] {
                for k in 0..4 {
                    v.push(format!("{l} {n} {k}"));
                }
            }
        }
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let p: Vec<usize> = name.split(' ').map(|x| x.parse().unwrap()).collect();
        let (level, n) = (p[0] as u8, p[1]);
        let mut s = Src::Prng((n * 16 + p[2]) as u64);
        let d = if p[2] % 2 == 0 { literal_heavy(&mut s, n) } else { gen_::data_len(&mut s, n.min(MAX_DIST)) };
        let st = zlibx::deflate(
            &d,
            &zlibx::ZOpts { level: level.into(), window: 15, mem: 8, strategy: 0, chunk: usize::MAX, flush: 0, params: vec![] },
        );
        check(level, &d, &st, "zlib", obs)?;
        match real_gzip(&d, level) {
            Ok(Some(st)) => {
                obs.class("real gzip");
                check(level, &d, &st, "gzip", obs)
            }
            Ok(None) => Ok(()),
            Err(e) => harness_err!("{e}"),
        }
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let level = src.range(1, 3) as u8;
        let real = src.chance(1, 60);
        let d = match src.weighted(&[8, 3, 1]) {
            0 => gen_::data(src, 3000),
            1 => {
                let n = src.range(1, 12000);
                gen_::data_len(src, n)
            }
            _ => {
                let n = src.range(12000, MAX_DIST);
                gen_::data_len(src, n)
            }
        };
        obs.fp(&[level]);
        obs.fp(&d);
        if d.is_empty() {
            obs.class("empty");
            return Ok(());
        }
        obs.class(["level 1", "level 2", "level 3"][usize::from(level) - 1]);
        obs.describe(|| format!("level {level} content {}", lz::hex(&d)));
        if real {
            match real_gzip(&d, level) {
                Ok(Some(st)) => {
                    obs.class("real gzip");
                    check(level, &d, &st, "gzip", obs)?;
                }
                Ok(None) => {}
                Err(e) => harness_err!("{e}"),
            }
        }
        let (chunk, flush) = match src.weighted(&[4, 1, 1]) {
            0 => (usize::MAX, 0),
            1 => (src.range(1, 400), 2),
            _ => (src.range(1, 400), 3),
        };
        let st = zlibx::deflate(
            &d,
            &zlibx::ZOpts { level: level.into(), window: 15, mem: 8, strategy: 0, chunk, flush, params: vec![] },
        );
        check(level, &d, &st, if flush == 0 { "zlib" } else { "zlib with flushes" }, obs)
    }
}
