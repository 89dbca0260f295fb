//! C01, C02, C03, C10: parsing, expanding, re-encoding.

use crate::engine::*;
use crate::gen_::{self, BlockSpec, StreamOpts};
use crate::lz;
use crate::refdeflate::*;
use crate::{ensure_p, harness_err, viol, zlibx};
use std::cell::Cell;
use std::io::{Cursor, Read};
use std::rc::Rc;

/// C01's oracle on any bytes. Ok(None): does not parse.
pub fn reencode_check(bytes: &[u8]) -> Result<Option<(usize, usize)>, Fail> {
    let p = match guard(|| lz::parse(bytes)) {
        Ok(p) => p,
        Err(_) => return Ok(None), // a panic while parsing is C03's
    };
    if p.err.is_some() {
        return Ok(None);
    }
    let want = &bytes[..p.used];
    let got = lz::reencode_guarded(&p.blocks);
    if got.as_deref() == Ok(want) {
        return Ok(Some((p.used, p.blocks.len())));
    }
    let msg = match &got {
        Ok(g) => format!("re-encoded bytes differ {} for {}", lz::diff(g, want), lz::hex(want)),
        Err(e) => format!("re-encoding failed: {e} for {}", lz::hex(want)),
    };
    // the one recorded finding: length 258 written as symbol 284 comes back as symbol 285
    let r = decode_opts(want, true);
    if r.err.is_none() && r.quirks.alt258 {
        let same_blocks = p.blocks.iter().map(lz::rblock).collect::<Vec<_>>() == r.blocks;
        let known = same_blocks
            && match (encode(&r.blocks), &got) {
                (Some(e), Ok(g)) => e == *g,
                (None, Err(_)) => true,
                _ => false,
            };
        if known {
            return Err(Fail::Known(
                "alt258",
                "length 258 written as symbol 284 with extra bits 31 re-encodes as symbol 285".into(),
            ));
        }
    }
    viol!("{msg}")
}

/// A valid stream with content, from every source; the reference decoding for real ones.
fn any_valid(src: &mut Src, max: usize) -> (Vec<u8>, Option<gen_::Stream>, &'static str) {
    if src.chance(1, 3) {
        let d = if src.chance(1, 20) {
            let n = src.pick(&[33000usize, 66000, 70000]);
            gen_::data_len(src, n)
        } else {
            gen_::data(src, max)
        };
        let (b, l) = gen_::real_stream(src, &d);
        (b, None, l)
    } else {
        let s = gen_::stream(src, &StreamOpts::default());
        (s.bytes.clone(), Some(s), "assembled")
    }
}

fn one_block(spec: BlockSpec) -> (Vec<u8>, RBlock) {
    let mut b = Bits::default();
    let rb = gen_::put_block(&mut b, true, &spec);
    b.align();
    (b.bytes, rb)
}

/// Directed streams: every length with several distances, every distance, stored sizes, big tables.
fn directed(name: &str) -> Result<(Vec<u8>, Vec<RBlock>, Vec<u8>), Fail> {
    let parts: Vec<&str> = name.split(' ').collect();
    let num = |i: usize| parts[i].parse::<usize>().map_err(|_| Fail::Harness(format!("bad name {name}")));
    let mut b = Bits::default();
    let mut blocks = vec![];
    let mut data: Vec<u8> = vec![];
    match parts[0] {
        // all lengths, fixed or dynamic tables
        "lengths" => {
            let dynamic = num(1)? == 1;
            let mut c = vec![RCode::Lit(1), RCode::Lit(2), RCode::Lit(3)];
            for len in 3..=258u32 {
                for dist in [1, 2, 3, len] {
                    c.push(RCode::Ref { dist, len });
                }
                c.push(RCode::Lit(len as u8));
            }
            // dist = len needs that much data; there is after the first
            c.retain(|x| !matches!(x, RCode::Ref { dist, len } if dist == len && *len > 3));
            expand(&c, &mut data);
            let spec = if dynamic {
                let (l, d) = gen_::used_symbols(&c);
                let mut s = Src::Prng(7);
                BlockSpec::Dynamic(gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false }), c, false)
            } else {
                BlockSpec::Fixed(c, false)
            };
            blocks.push(gen_::put_block(&mut b, true, &spec));
        }
        // distances from..from+n after 32768 bytes of history
        "dists" => {
            let (from, n, dynamic) = (num(1)?, num(2)?, num(3)? == 1);
            let mut s = Src::Prng(from as u64);
            let h = gen_::data_len(&mut s, 32768);
            data.extend(&h);
            blocks.push(gen_::put_block(&mut b, false, &BlockSpec::Stored(h)));
            let c: Vec<RCode> =
                (from..from + n).map(|d| RCode::Ref { dist: d as u32, len: 3 + (d % 7) as u32 }).collect();
            expand(&c, &mut data);
            let spec = if dynamic {
                let (l, d) = gen_::used_symbols(&c);
                BlockSpec::Dynamic(gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false }), c, false)
            } else {
                BlockSpec::Fixed(c, false)
            };
            blocks.push(gen_::put_block(&mut b, true, &spec));
        }
        // stored block of a size at a bit alignment
        "stored" => {
            let (n, shift) = (num(1)?, num(2)?);
            // fixed blocks of 10 + 8k.. bits shift the alignment: an empty fixed block is 10 bits
            for _ in 0..shift {
                blocks.push(gen_::put_block(&mut b, false, &BlockSpec::Fixed(vec![], false)));
            }
            let mut s = Src::Prng(n as u64 + 1);
            for last in [false, true] {
                let d = gen_::data_len(&mut s, n);
                data.extend(&d);
                blocks.push(gen_::put_block(&mut b, last, &BlockSpec::Stored(d)));
            }
        }
        "literals" => {
            let c: Vec<RCode> = (0..=255u8).map(RCode::Lit).collect();
            expand(&c, &mut data);
            blocks.push(gen_::put_block(&mut b, false, &BlockSpec::Fixed(c.clone(), false)));
            expand(&c, &mut data);
            let (l, d) = gen_::used_symbols(&c);
            let mut s = Src::Prng(3);
            let spec = gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false });
            blocks.push(gen_::put_block(&mut b, true, &BlockSpec::Dynamic(spec, c, false)));
        }
        // the longest table bits there can be, nearly
        "header" => {
            for k in 0..4u32 {
                let mut c: Vec<RCode> = (0..=255u8).map(RCode::Lit).collect();
                c.push(RCode::Ref { dist: 1 + k * 9, len: 3 + k * 50 });
                expand(&c, &mut data);
                blocks.push(gen_::put_block(&mut b, k == 3, &BlockSpec::Dynamic(gen_::long_header(), c, false)));
            }
        }
        // many blocks
        "blocks" => {
            let n = num(1)?;
            for i in 0..n {
                let c = vec![RCode::Lit(i as u8), RCode::Lit((i / 7) as u8), RCode::Ref { dist: 1 + (i % 2) as u32, len: 3 }];
                expand(&c, &mut data);
                blocks.push(gen_::put_block(&mut b, i + 1 == n, &BlockSpec::Fixed(c, false)));
            }
        }
        // blocks that hold nothing, or next to it
        "empties" => {
            let n = num(1)?;
            for i in 0..n {
                let spec = match i % 5 {
                    0 => BlockSpec::Stored(vec![]),
                    1 | 2 => BlockSpec::Fixed(vec![], false),
                    3 => BlockSpec::Stored(vec![i as u8]),
                    _ => BlockSpec::Fixed(vec![RCode::Lit((i / 5) as u8)], false),
                };
                match &spec {
                    BlockSpec::Stored(d) => data.extend(d),
                    BlockSpec::Fixed(c, _) => expand(c, &mut data),
                    BlockSpec::Dynamic(..) => {}
                }
                blocks.push(gen_::put_block(&mut b, i + 1 == n, &spec));
            }
        }
        // far references after a long past
        "far" => {
            let n = num(1)?;
            let mut s = Src::Prng(n as u64);
            let mut left = n;
            while left > 0 {
                let k = left.min(65535);
                let h = gen_::data_len(&mut s, k);
                data.extend(&h);
                blocks.push(gen_::put_block(&mut b, false, &BlockSpec::Stored(h)));
                left -= k;
            }
            let mut c = vec![];
            for i in 0..600u32 {
                let dist = (32768 - (i * i) % 32768).max(1);
                c.push(RCode::Ref { dist, len: 3 + (i * 7) % 256 });
            }
            expand(&c, &mut data);
            blocks.push(gen_::put_block(&mut b, true, &BlockSpec::Fixed(c, false)));
        }
        // one block of literals only
        "lits" => {
            let n = num(1)?;
            let c: Vec<RCode> = (0..n).map(|i| RCode::Lit((i * i / 7) as u8)).collect();
            expand(&c, &mut data);
            blocks.push(gen_::put_block(&mut b, true, &BlockSpec::Fixed(c, false)));
        }
        // one block of very many short references
        "short" => {
            let n = num(1)?;
            let mut c = vec![RCode::Lit(9), RCode::Lit(8), RCode::Lit(7)];
            for i in 3..n {
                c.push(if i % 3 == 0 {
                    RCode::Lit((i * i / 5) as u8)
                } else {
                    RCode::Ref { dist: 1 + (i * 37 % i.min(32768)) as u32, len: 3 + (i % 2) as u32 }
                });
            }
            expand(&c, &mut data);
            let (l, d) = gen_::used_symbols(&c);
            let mut s = Src::Prng(6);
            let spec = gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false });
            blocks.push(gen_::put_block(&mut b, true, &BlockSpec::Dynamic(spec, c, false)));
        }
        // one very long block
        "long" => {
            let n = num(1)?;
            let mut c = vec![RCode::Lit(9), RCode::Lit(8)];
            for i in 0..n {
                c.push(if i % 3 == 0 {
                    RCode::Lit(i as u8)
                } else {
                    RCode::Ref { dist: 1 + (i * 37 % (i + 2).min(32768)) as u32, len: 3 + (i % 256) as u32 }
                });
            }
            expand(&c, &mut data);
            let (l, d) = gen_::used_symbols(&c);
            let mut s = Src::Prng(5);
            let spec = gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false });
            blocks.push(gen_::put_block(&mut b, true, &BlockSpec::Dynamic(spec, c, false)));
        }
        _ => harness_err!("unknown directed case {name}"),
    }
    b.align();
    Ok((b.bytes, blocks, data))
}

fn directed_names() -> Vec<String> {
    let mut v = vec!["lengths 0".to_string(), "lengths 1".into(), "literals".into(), "header".into(), "blocks 300".into(), "long 3000".into()];
    v.extend(["blocks 70000", "empties 66000", "empties 400000", "long 70000", "lits 65535", "lits 65536", "lits 300000", "lits 1200000", "lits 4300000", "short 600000", "short 2200000"].map(String::from));
    for n in [32769, 40000, 65535, 65536, 65537, 98304, 131072, 140001, 1 << 20] {
        v.push(format!("far {n}"));
    }
    for k in 0..16 {
        v.push(format!("dists {} 2048 {}", 1 + k * 2048, k % 2));
    }
    for n in [0usize, 1, 2, 255, 256, 257, 0x1234, 32767, 32768, 32769, 65280, 65534, 65535] {
        for shift in 0..8 {
            if n < 1000 || shift < 2 {
                v.push(format!("stored {n} {shift}"));
            }
        }
    }
    v
}

/// Length 258 as symbol 284, with or without a code for 285.
fn alt258_stream(with285: bool) -> Vec<u8> {
    let c = vec![RCode::Lit(65), RCode::Ref { dist: 1, len: 258 }, RCode::Ref { dist: 1, len: 257 }];
    if with285 {
        return one_block(BlockSpec::Fixed(c, true)).0;
    }
    let mut lit = vec![0u8; 285];
    lit[65] = 2;
    lit[66] = 2;
    lit[256] = 2;
    lit[284] = 2;
    let mut s = Src::Prng(11);
    let spec = gen_::header_encoding(&mut s, lit, vec![1]);
    one_block(BlockSpec::Dynamic(spec, c, true)).0
}

pub struct C01;
impl Prop for C01 {
    fn run_raw(&self, bytes: &[u8], obs: &mut Obs) -> Option<Res> {
        Some(reencode_check(bytes).map(|r| obs.nontrivial = r.is_some()))
    }
    fn raw_seed(&self, src: &mut Src) -> Vec<u8> {
        any_valid(src, 600).0
    }
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "DEFLATE byte streams: hand-assembled (1-20 stored/fixed/dynamic blocks, random complete code tables, repeat-code \
         encodings, HLIT/HDIST up to 288/32), zlib and miniz output over all parameters, and mutations of both, each with \
         trailing bytes; plus directed sweeps of all lengths, all 32768 distances and stored sizes. Non-trivial: the parser \
         accepts the stream and it holds at least one code or stored byte."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (200_000, 6_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = directed_names();
        v.push("alt258 fixed".into());
        v.push("alt258 no285".into());
        v
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        let bytes = match name {
            "alt258 fixed" => alt258_stream(true),
            "alt258 no285" => alt258_stream(false),
            _ => directed(name)?.0,
        };
        let mut t = bytes.clone();
        t.extend([1, 2, 3]);
        match reencode_check(&t)? {
            Some((used, _)) => {
                ensure_p!(used == bytes.len(), "consumed {used} of {}", bytes.len());
                Ok(())
            }
            None => viol!("{name}: a valid stream does not parse"),
        }
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let mode = src.weighted(&[5, 3, 3]);
        let (mut bytes, mut label) = if mode == 0 {
            let alt = src.chance(1, 64);
            let s = gen_::stream(src, &StreamOpts { big_counts: true, alt258: alt, ..StreamOpts::default() });
            for l in &s.labels {
                obs.class(l);
            }
            (s.bytes, "assembled")
        } else {
            let (b, s, l) = any_valid(src, 4000);
            if let Some(s) = s {
                for l in &s.labels {
                    obs.class(l);
                }
            }
            (b, l)
        };
        if mode == 2 {
            gen_::mutate(src, &mut bytes);
            label = "mutated";
        }
        for _ in 0..src.pick(&[0usize, 1, 9]) {
            bytes.push(src.below(256) as u8);
        }
        obs.fp(&bytes);
        obs.describe(|| format!("{label}: {}", lz::hex(&bytes)));
        match reencode_check(&bytes)? {
            None => obs.class_if(mode != 2, "valid stream refused"),
            Some((used, blocks)) => {
                obs.nontrivial = used > 2;
                obs.class(match label {
                    "assembled" => "accepted assembled",
                    "mutated" => "accepted mutated",
                    "miniz" => "accepted miniz",
                    _ => "accepted zlib",
                });
                obs.class_if(blocks > 1, "accepted multi-block");
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["zlib, miniz_oxide and the harness's own assembler are only sources of streams; the oracle is the input itself"]
    }
}

pub struct C02;

fn content_check(bytes: &[u8], blocks: &[RBlock], data: &[u8]) -> Res {
    let p = lz::parse(bytes);
    if let Some(e) = p.err {
        viol!("a valid stream is refused: {e}; {} {}", lz::blocks_summary(blocks), lz::hex(bytes));
    }
    let got: Vec<RBlock> = p.blocks.iter().map(lz::rblock).collect();
    if got != *blocks {
        ensure_p!(got.len() == blocks.len(), "{} blocks parsed, {} encoded", got.len(), blocks.len());
        for (i, (g, w)) in got.iter().zip(blocks).enumerate() {
            if g == w {
                continue;
            }
            match (g, w) {
                (RBlock::Stored(a), RBlock::Stored(b)) => viol!("stored block {i}: {}", lz::diff(a, b)),
                (RBlock::Fixed(a), RBlock::Fixed(b)) => viol!("fixed block {i}: {}", lz::diff(a, b)),
                (RBlock::Dynamic(h, a), RBlock::Dynamic(k, b)) => {
                    ensure_p!(h == k, "dynamic block {i}: header bits {}", lz::diff(h, k));
                    viol!("dynamic block {i}: {}", lz::diff(a, b))
                }
                _ => viol!("block {i} is of the wrong kind"),
            }
        }
    }
    // expansion, block after block, through one window
    let mut w = librezip::CircularBuffer::new();
    let mut out = vec![];
    let mut at = 0;
    for (i, b) in p.blocks.iter().enumerate() {
        if let Err(e) = librezip::decompressed_block(&mut out, &mut w, b) {
            viol!("expanding block {i} failed: {e}");
        }
        let n = match &blocks[i] {
            RBlock::Stored(d) => d.len(),
            b => b.codes().iter().map(crate::model::emitted).sum(),
        };
        at += n;
        ensure_p!(out.len() == at, "after block {i}: {} bytes out, {} expected", out.len(), at);
    }
    ensure_p!(out == data, "content {}", lz::diff(&out, data));
    let tail = &data[data.len().saturating_sub(32768)..];
    ensure_p!(w.vec() == tail, "window after the stream is not the last bytes: {}", lz::diff(&w.vec(), tail));
    Ok(())
}

impl Prop for C02 {
    fn run_raw(&self, bytes: &[u8], obs: &mut Obs) -> Option<Res> {
        let r = decode(bytes);
        if r.err.is_some() || r.quirks.any() {
            return Some(Ok(()));
        }
        obs.nontrivial = true;
        Some(content_check(bytes, &r.blocks, &r.data))
    }
    fn raw_seed(&self, src: &mut Src) -> Vec<u8> {
        any_valid(src, 600).0
    }
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "RFC 1951-valid streams with zero padding: hand-assembled from random codes, tables and splits, or zlib/miniz \
         output; the expected codes are those assembled (or the harness's own decoder's), cross-checked with zlib. \
         Non-trivial: some content and (a back-reference or more than one block)."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (500_000, 6_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        directed_names()
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        let (bytes, blocks, data) = directed(name)?;
        let (z, ok, _) = zlibx::inflate(&bytes);
        if !ok || z != data {
            harness_err!("{name}: zlib disagrees with the assembler");
        }
        content_check(&bytes, &blocks, &data)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let (bytes, st, label) = any_valid(src, 6000);
        obs.fp(&bytes);
        obs.class(label);
        let r = decode(&bytes);
        if r.err.is_some() || r.quirks.any() {
            harness_err!("own decoder refuses a valid stream: {:?} {:?} {}", r.err, r.quirks, lz::hex(&bytes));
        }
        if let Some(s) = &st {
            if s.blocks != r.blocks || s.data != r.data {
                harness_err!("own decoder disagrees with the assembler: {}", lz::hex(&bytes));
            }
            for l in &s.labels {
                obs.class(l);
            }
        }
        let (z, ok, _) = zlibx::inflate(&bytes);
        if !ok || z != r.data {
            harness_err!("zlib disagrees: {}", lz::hex(&bytes));
        }
        let refs: Vec<&RCode> =
            r.blocks.iter().flat_map(|b| b.codes()).filter(|c| matches!(c, RCode::Ref { .. })).collect();
        obs.nontrivial = !r.data.is_empty() && (!refs.is_empty() || r.blocks.len() > 1);
        obs.class_if(refs.iter().any(|c| matches!(c, RCode::Ref { dist, len } if dist < len)), "overlapping reference");
        obs.class_if(refs.iter().any(|c| matches!(c, RCode::Ref { dist, .. } if *dist > 32000)), "distance over 32000");
        obs.class_if(r.data.len() > 32768, "wraps the window");
        obs.describe(|| format!("{label} {} -> {} bytes", lz::blocks_summary(&r.blocks), r.data.len()));
        content_check(&bytes, &r.blocks, &r.data)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the reference decoder (cross-checked with zlib and the assembler on every case) reads RFC 1951 correctly"]
    }
}

pub struct C03;

/// Streams that break exactly one rule.
pub fn forged(src: &mut Src) -> (Vec<u8>, &'static str) {
    let mut b = Bits::default();
    let mut hist = vec![];
    let n = src.below(3);
    for _ in 0..n {
        let k = src.range(0, 6);
        let c = gen_::codes(src, &mut hist, k);
        let spec = if src.bool() {
            BlockSpec::Fixed(c, false)
        } else {
            let (l, d) = gen_::used_symbols(&c);
            BlockSpec::Dynamic(gen_::dyn_spec(src, &l, &d, &gen_::TreeOpts { big_counts: false }), c, false)
        };
        gen_::put_block(&mut b, false, &spec);
    }
    let k = src.range(0, 6);
    let c = gen_::codes(src, &mut hist, k);
    let last = src.bool();
    let (mut l, mut d) = gen_::used_symbols(&c);
    let what = src.below(14);
    let label;
    let put_dyn = |b: &mut Bits, s: &DynSpec, c: &[RCode]| {
        b.val(2, 2);
        write_dyn_header(b, s);
        write_codes_unchecked(b, &s.lit, &s.dist, c);
    };
    match what {
        0 => {
            label = "reserved block type";
            b.bit(last);
            b.val(3, 2);
        }
        1 => {
            label = "length complement";
            b.bit(last);
            b.val(0, 2);
            b.align();
            let len = src.below(20) as u32;
            b.val(len, 16);
            b.val((len ^ 0xffff) ^ (1 << src.below(16)), 16);
            for i in 0..len {
                b.byte(i as u8);
            }
        }
        2 | 3 | 4 => {
            b.bit(last);
            let mut s = gen_::dyn_spec(src, &l, &d, &gen_::TreeOpts { big_counts: false });
            let lens = if what == 2 { &mut s.lit } else { &mut s.dist };
            if what == 4 {
                // code length code: lengthen or shorten one
                label = "code length code not complete";
                let used: Vec<usize> = (0..19).filter(|&i| s.cl[i] > 0).collect();
                let k = src.pick(&used);
                s.cl[k] = if src.bool() { s.cl[k] % 7 + 1 } else { 0 };
            } else {
                label = if what == 2 { "literal table not complete" } else { "distance table not complete" };
                let n = lens.len();
                let k = src.below(n);
                lens[k] = match src.below(4) {
                    0 => 0,
                    1 => lens[k] % 15 + 1,
                    2 => (lens[k] + 14) % 15 + 1,
                    _ => src.range(1, 15) as u8,
                };
                let (l2, d2) = (s.lit.clone(), s.dist.clone());
                s = gen_::header_encoding(src, l2, d2);
            }
            put_dyn(&mut b, &s, &c);
        }
        5 => {
            label = "repeat with nothing before";
            b.bit(last);
            let mut s = gen_::dyn_spec(src, &l, &d, &gen_::TreeOpts { big_counts: false });
            s.tokens.insert(0, (16, src.below(4) as u32));
            s.cl = [5; 19];
            for k in 0..13 {
                s.cl[k] = 4;
            }
            // 13*2^-4 + 6*2^-5 = 1
            s.hclen = 19;
            put_dyn(&mut b, &s, &c);
        }
        6 => {
            label = "repeat past the end";
            b.bit(last);
            let mut s = gen_::dyn_spec(src, &l, &d, &gen_::TreeOpts { big_counts: false });
            let t = s.tokens.len();
            let over = src.pick(&[16u8, 17, 18]);
            s.tokens[t - 1] = (over, src.below(4) as u32);
            s.cl = [5; 19];
            for k in 0..13 {
                s.cl[k] = 4;
            }
            s.hclen = 19;
            put_dyn(&mut b, &s, &c);
        }
        7 => {
            label = "reserved length symbol";
            b.bit(last);
            b.val(1, 2);
            let lc = canonical(&fixed_lit_lens());
            b.code(lc[100]);
            b.code(lc[286 + src.below(2)]);
            b.val(0, 5);
            b.code(lc[256]);
        }
        8 => {
            label = "reserved distance symbol";
            b.bit(last);
            b.val(1, 2);
            let lc = canonical(&fixed_lit_lens());
            let dc = canonical(&[5; 32]);
            for _ in 0..4 {
                b.code(lc[100]);
            }
            b.code(lc[257]);
            b.code(dc[30 + src.below(2)]);
            b.val(0, 13);
            b.code(lc[256]);
        }
        9 | 10 => {
            label = "distance before the start";
            let have = hist.len() as u32;
            let far = (have + if src.bool() { 1 } else { src.range(1, 300) as u32 }).min(32768);
            let mut c = c;
            c.push(RCode::Ref { dist: far, len: gen_::length(src) });
            let k = src.range(0, 2);
            c.extend(vec![RCode::Lit(7); k]);
            if what == 9 {
                b.bit(last);
                gen_put_codes(&mut b, &c);
            } else {
                (l, d) = gen_::used_symbols(&c);
                let s = gen_::dyn_spec(src, &l, &d, &gen_::TreeOpts { big_counts: false });
                b.bit(last);
                put_dyn(&mut b, &s, &c);
            }
        }
        11 => {
            label = "reference without a distance table";
            l[257 + src.below(20)] = true;
            let c: Vec<RCode> = c.into_iter().filter(|x| matches!(x, RCode::Lit(_))).collect();
            for x in d.iter_mut() {
                *x = false;
            }
            let mut s = gen_::dyn_spec(src, &l, &d, &gen_::TreeOpts { big_counts: false });
            s = gen_::header_encoding(src, s.lit.clone(), vec![0]);
            b.bit(last);
            b.val(2, 2);
            write_dyn_header(&mut b, &s);
            let lc = canonical(&s.lit);
            for x in &c {
                if let RCode::Lit(x) = x {
                    b.code(lc[*x as usize]);
                }
            }
            let k = (257..s.lit.len()).find(|&k| s.lit[k] > 0).unwrap_or(256);
            b.code(lc[k]);
            b.val(0, 12);
            b.code(lc[256]);
        }
        12 => {
            label = "unassigned single distance code";
            let c: Vec<RCode> = c.into_iter().filter(|x| matches!(x, RCode::Lit(_))).collect();
            l[257] = true;
            let s = gen_::dyn_spec(src, &l, &[false; 30], &gen_::TreeOpts { big_counts: false });
            let k = src.below(30);
            let mut dl = vec![0u8; k + 1];
            dl[k] = 1;
            let s = gen_::header_encoding(src, s.lit.clone(), dl);
            b.bit(last);
            b.val(2, 2);
            write_dyn_header(&mut b, &s);
            let lc = canonical(&s.lit);
            for x in &c {
                if let RCode::Lit(x) = x {
                    b.code(lc[*x as usize]);
                }
            }
            b.code(lc[257]);
            b.bit(true); // the code with no symbol
            b.val(0, 13);
            b.code(lc[256]);
        }
        _ => {
            label = "no end of block code";
            let c: Vec<RCode> = vec![];
            let lit: Vec<u8> = {
                let n = src.range(2, 60);
                let mut v = gen_::complete_depths(src, n, 15);
                v.resize(257, 0);
                v
            };
            let s = gen_::header_encoding(src, lit, vec![0]);
            b.bit(last);
            b.val(2, 2);
            write_dyn_header(&mut b, &s);
            let lc = canonical(&s.lit);
            for i in 0..4 {
                if s.lit[i] > 0 {
                    b.code(lc[i]);
                }
            }
            let _ = c;
        }
    }
    if !last && src.bool() {
        gen_::put_block(&mut b, true, &BlockSpec::Fixed(vec![RCode::Lit(1)], false));
    }
    for _ in 0..src.pick(&[0usize, 4, 40]) {
        let v = src.below(256) as u32;
        b.val(v, 8);
    }
    (b.bytes, label)
}

fn gen_put_codes(b: &mut Bits, c: &[RCode]) {
    b.val(1, 2);
    write_codes(b, &fixed_lit_lens(), &[5; 32], c, false);
}

/// As write_codes, for tables that may lack codes or be over-full.
fn write_codes_unchecked(b: &mut Bits, lit: &[u8], dist: &[u8], codes: &[RCode]) {
    let at = |v: &[(u32, u8)], i: usize| v.get(i).copied().unwrap_or((0, 0));
    let lc = canonical(lit);
    let dc = canonical(dist);
    for c in codes {
        match *c {
            RCode::Lit(x) => b.code(at(&lc, x as usize)),
            RCode::Ref { dist, len } => {
                let (s, e, n) = length_symbol(len);
                b.code(at(&lc, s));
                b.val(e, n);
                let (s, e, n) = dist_symbol(dist);
                b.code(at(&dc, s));
                b.val(e, n);
            }
        }
    }
    b.code(at(&lc, 256));
}

/// The oracle for arbitrary bytes after a header.
pub fn accept_check(bytes: &[u8], obs: &mut Obs) -> Res {
    let r = decode(bytes);
    let (out, _, err) = match guard(|| lz::expand_stream(bytes)) {
        Ok(x) => x,
        Err(p) => viol!("panicked: {p} on {}", lz::hex(bytes)),
    };
    ensure_p!(
        r.data.starts_with(&out),
        "wrong content before the {}: {} on {}",
        if err.is_some() { "error" } else { "end" },
        lz::diff(&out, &r.data),
        lz::hex(bytes)
    );
    match (&r.err, &err) {
        (Some(e), None) => viol!("malformed ({e}) but accepted, {} bytes out: {}", out.len(), lz::hex(bytes)),
        (Some(e), Some(_)) => obs.class(e),
        (None, None) => {
            ensure_p!(out == r.data, "accepted with wrong content {}", lz::diff(&out, &r.data));
            obs.class(if r.quirks.any() { "accepted, unconstrained" } else { "valid, accepted" });
        }
        (None, Some(e)) => {
            ensure_p!(r.quirks.any(), "valid but refused: {e}: {}", lz::hex(bytes));
            obs.class("refused, unconstrained");
        }
    }
    Ok(())
}

impl Prop for C03 {
    fn run_raw(&self, bytes: &[u8], obs: &mut Obs) -> Option<Res> {
        Some(accept_check(bytes, obs))
    }
    fn raw_seed(&self, src: &mut Src) -> Vec<u8> {
        any_valid(src, 600).0
    }
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Byte strings: valid streams mutated (bits, bytes, cuts, splices), streams forged to break one named rule, every cut \
         of small streams, random bytes, whole gzip files mutated. Oracle: the strict reference decoder. Non-trivial: the \
         reference says malformed, or the bytes are not a generator's valid output."
    }
    fn max_choices(&self) -> usize {
        300
    }
    fn cases(&self) -> (u32, u32) {
        (600_000, 9_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..48).map(|k| format!("headers {k}")).collect();
        v.push("two bytes".into());
        v.push("three bytes".into());
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let mut scratch = Obs::default();
        let mut n = 0;
        if name == "two bytes" {
            for x in 0..=0xffffu16 {
                accept_check(&x.to_le_bytes(), &mut scratch)?;
                n += 1;
            }
        } else if name == "three bytes" {
            // every first ten bits, then a spread of the rest
            for x in 0u32..1 << 18 {
                accept_check(&(x.wrapping_mul(0x9E3779B1) >> 8).to_le_bytes()[..3], &mut scratch)?;
                n += 1;
            }
        } else {
            // every single bit flip and cut of one small dynamic stream
            let k: u64 = name[8..].parse().map_err(|_| Fail::Harness("name".into()))?;
            let mut s = Src::Prng(k);
            let mut hist = vec![];
            let c = gen_::codes(&mut s, &mut hist, 6);
            let (l, d) = gen_::used_symbols(&c);
            let spec = gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false });
            let (bytes, _) = one_block(BlockSpec::Dynamic(spec, c, false));
            for i in 0..bytes.len() * 8 {
                let mut b = bytes.clone();
                b[i / 8] ^= 1 << (i % 8);
                accept_check(&b, &mut scratch)?;
                n += 1;
            }
            for i in 0..bytes.len() {
                accept_check(&bytes[..i], &mut scratch)?;
                n += 1;
            }
        }
        obs.extra_evals = n;
        Ok(())
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let mode = src.weighted(&[4, 4, 1, 2, 2]);
        let bytes = match mode {
            0 => {
                let (mut b, ..) = any_valid(src, 1500);
                gen_::mutate(src, &mut b);
                b
            }
            1 => {
                let (b, label) = forged(src);
                obs.class(label);
                b
            }
            2 => {
                let n = gen_::size(src, 200);
                (0..n).map(|_| src.below(256) as u8).collect()
            }
            3 => {
                // cut anywhere
                let (mut b, ..) = any_valid(src, 1500);
                let n = src.below(b.len());
                b.truncate(n);
                b
            }
            _ => {
                // a whole gzip file, damaged
                let d = gen_::data(src, 600);
                let mut f = gen_::gz_header(src);
                let hl = f.len();
                f.extend(gen_::real_stream(src, &d).0);
                f.extend(gen_::footer(&d));
                if src.bool() {
                    gen_::mutate(src, &mut f);
                } else {
                    let i = src.below(hl);
                    f[i] = src.below(256) as u8;
                }
                obs.fp(&f);
                obs.nontrivial = true;
                obs.class("damaged gzip file");
                obs.describe(|| format!("gzip file {}", lz::hex(&f)));
                let mut cur = Cursor::new(&f[..]);
                let h = match guard(|| librezip::gzip::discard_header(&mut cur)) {
                    Ok(h) => h,
                    Err(p) => viol!("header reader panicked: {p} on {}", lz::hex(&f)),
                };
                let want = crate::props::header::header_len(&f);
                match (h, want) {
                    (Ok(h), Some(n)) => {
                        ensure_p!(h == f[..n], "header bytes {}", lz::diff(&h, &f[..n]));
                        return accept_check(&f[n..], obs);
                    }
                    (Ok(_), None) => viol!("malformed header accepted: {}", lz::hex(&f)),
                    (Err(_), Some(n)) if crate::props::header::bad_crc(&f, n) => {
                        obs.class("wrong header CRC refused");
                        return Ok(());
                    }
                    (Err(e), Some(_)) => viol!("well-formed header refused: {e}: {}", lz::hex(&f)),
                    (Err(_), None) => {
                        obs.class("malformed header");
                        return Ok(());
                    }
                }
            }
        };
        obs.fp(&bytes);
        obs.nontrivial = true;
        obs.describe(|| lz::hex(&bytes));
        accept_check(&bytes, obs)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "unconstrained (either answer accepted, content still checked): non-zero padding, HLIT>286 or HDIST>30, several all-zero distance lengths, length 258 as symbol 284",
        ]
    }
}

/// Hands out one byte at most, counting.
#[derive(Clone)]
pub struct Counting<'a> {
    pub d: &'a [u8],
    pub pos: Rc<Cell<usize>>,
    pub calls: Rc<Cell<usize>>,
    pub step: usize,
}
impl<'a> Counting<'a> {
    pub fn new(d: &'a [u8], step: usize) -> Self {
        Counting { d, pos: Rc::new(Cell::new(0)), calls: Rc::new(Cell::new(0)), step }
    }
}
impl Read for Counting<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls.set(self.calls.get() + 1);
        let p = self.pos.get();
        let n = buf.len().min(self.d.len() - p).min(self.step);
        buf[..n].copy_from_slice(&self.d[p..p + n]);
        self.pos.set(p + n);
        Ok(n)
    }
}

pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "One to four valid streams back to back (bare, or as gzip members with headers and footers) followed by arbitrary \
         bytes or nothing, through a reader that counts what is taken. Non-trivial: some byte follows a stream."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (300_000, 4_000_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let n = src.range(1, 4);
        let gz = src.bool();
        let mut all = vec![];
        let mut members = vec![];
        for _ in 0..n {
            let head = if gz { gen_::gz_header(src) } else { vec![] };
            let start = all.len() + head.len();
            all.extend(head);
            let (b, _, _) = any_valid(src, 500);
            let r = decode(&b);
            if r.err.is_some() || r.end != b.len() {
                harness_err!("own decoder refuses a valid stream or ends early: {:?}", r.err);
            }
            all.extend(&b);
            let end = all.len();
            if gz {
                all.extend(gen_::footer(&r.data));
            }
            members.push((start, end, r));
        }
        let trailing = src.pick(&[0usize, 1, 2, 30]);
        for _ in 0..trailing {
            all.push(src.pick(&[0u8, 0xff, 0x1f, 0x55]));
        }
        obs.fp(&all);
        obs.nontrivial = gz || trailing > 0 || n > 1;
        obs.class(if gz { "gzip members" } else { "bare streams" });
        obs.class_if(n > 1, "concatenated");
        obs.describe(|| format!("{n} streams, gz {gz}, {} bytes: {}", all.len(), lz::hex(&all)));
        let step = src.pick(&[1usize, 3, usize::MAX]);
        let rd = Counting::new(&all, step);
        for (i, (start, end, r)) in members.iter().enumerate() {
            if gz {
                if let Err(e) = librezip::gzip::discard_header(rd.clone()) {
                    viol!("member {i}: header refused: {e}");
                }
            }
            ensure_p!(rd.pos.get() == *start, "member {i}: reader at {} before the stream at {start}", rd.pos.get());
            let mut it = librezip::parse_deflate(rd.clone());
            for (k, bits) in r.block_bits.iter().enumerate() {
                match it.next() {
                    Some(Ok(b)) => {
                        ensure_p!(lz::rblock(&b) == r.blocks[k], "member {i}: block {k} misread");
                        let want = start + bits.div_ceil(8);
                        ensure_p!(
                            rd.pos.get() == want,
                            "member {i}: after block {k} (bit {bits}) {} bytes taken, {} hold it",
                            rd.pos.get() - start,
                            want - start
                        );
                    }
                    Some(Err(e)) => viol!("member {i}: block {k} refused: {e}"),
                    None => viol!("member {i}: ended after {k} of {} blocks", r.blocks.len()),
                }
            }
            let again = src.range(1, 4);
            for k in 0..again {
                match it.next() {
                    None => {}
                    Some(Ok(b)) => viol!("member {i}: a block after the end: {:?}", lz::blocks_summary(&[lz::rblock(&b)])),
                    Some(Err(e)) => viol!("member {i}: error at the end (call {k}): {e}"),
                }
                ensure_p!(rd.pos.get() == *end, "member {i}: at the end the reader is at {}, the stream ends at {end}", rd.pos.get());
            }
            if gz {
                let mut f = [0u8; 8];
                let mut rd2 = rd.clone();
                if rd2.read_exact(&mut f).is_err() || f[..] != gen_::footer(&r.data)[..] {
                    viol!("member {i}: footer not next");
                }
            }
        }
        let mut rest = vec![];
        rd.clone().read_to_end(&mut rest).unwrap();
        ensure_p!(rest.len() == trailing, "{} trailing bytes left of {trailing}", rest.len());
        Ok(())
    }
    fn fixed(&self) -> Vec<String> {
        directed_names()
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        let (mut bytes, blocks, _) = directed(name)?;
        let end = bytes.len();
        bytes.extend([0xff, 0xff]);
        let rd = Counting::new(&bytes, usize::MAX);
        let mut it = librezip::parse_deflate(rd.clone());
        for b in &blocks {
            match it.next() {
                Some(Ok(g)) => ensure_p!(lz::rblock(&g) == *b, "{name}: block misread"),
                _ => viol!("{name}: valid stream refused"),
            }
        }
        for _ in 0..3 {
            ensure_p!(it.next().is_none(), "{name}: not ended");
            ensure_p!(rd.pos.get() == end, "{name}: reader at {} after a stream of {end}", rd.pos.get());
        }
        Ok(())
    }
}
