//! C20: writing blocks which did not come from a stream as they are.

use crate::engine::*;
use crate::gen_::{self, StreamOpts, TreeOpts};
use crate::lz;
use crate::refdeflate::*;
use crate::zlibx;
use crate::{ensure_p, harness_err, viol};
use librezip::Block;
use librezip::verif::{BitVec, BitWriter};

fn bitvec(h: &[bool]) -> BitVec {
    let mut v = BitVec::new();
    for &b in h {
        v.push(b);
    }
    v
}

fn block(b: &RBlock) -> Block {
    match b {
        RBlock::Stored(d) => Block::Uncompressed(d.clone()),
        RBlock::Fixed(c) => Block::FixedHuffman(lz::codes(c)),
        RBlock::Dynamic(h, c) => Block::DynamicHuffman { trees: bitvec(h), codes: lz::codes(c) },
    }
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
enum Fate {
    Fine,
    Refused(&'static str),
    Unspecified,
}

/// Whether DEFLATE can express the block.
fn fate(b: &RBlock) -> Fate {
    match b {
        RBlock::Stored(d) if d.len() > 65535 => Fate::Refused("stored block over 65535 bytes"),
        RBlock::Stored(_) | RBlock::Fixed(_) => Fate::Fine,
        RBlock::Dynamic(h, c) => match tables(h) {
            Tables::Bad("cut short" | "eof") => Fate::Refused("tables cut short"),
            Tables::Bad("more bits than tables") => Fate::Refused("more bits than tables"),
            Tables::Bad(_) => Fate::Refused("malformed tables"),
            Tables::Unspecified => Fate::Unspecified,
            Tables::Good(lit, dist) => {
                let has = |l: &[u8], s: usize| l.get(s).is_some_and(|&x| x > 0);
                for x in c {
                    match *x {
                        RCode::Lit(b) if !has(&lit, b as usize) => return Fate::Refused("literal without a code"),
                        RCode::Ref { len, .. } if !has(&lit, length_symbol(len).0) => {
                            return Fate::Refused("length without a code");
                        }
                        RCode::Ref { .. } if dist.iter().all(|&x| x == 0) => return Fate::Refused("no distance codes"),
                        RCode::Ref { dist: d, .. } if !has(&dist, dist_symbol(d).0) => {
                            return Fate::Refused("distance without a code");
                        }
                        _ => {}
                    }
                }
                if !has(&lit, 256) {
                    return Fate::Refused("end of block without a code");
                }
                Fate::Fine
            }
        },
    }
}

/// Codes with no regard to any history: any length, any distance.
fn free_codes(s: &mut Src, n: usize) -> Vec<RCode> {
    (0..n)
        .map(|_| {
            if s.bool() {
                RCode::Lit(s.below(256) as u8)
            } else {
                RCode::Ref { dist: gen_::distance(s, 32768), len: gen_::length(s) }
            }
        })
        .collect()
}

fn free_block(s: &mut Src) -> RBlock {
    let n = match s.weighted(&[1, 4, 3]) {
        0 => 0,
        1 => s.range(1, 6),
        _ => s.range(1, 60),
    };
    match s.weighted(&[2, 2, 6]) {
        0 => RBlock::Stored(gen_::data(s, 700)),
        1 => RBlock::Fixed(free_codes(s, n)),
        _ => {
            let c = free_codes(s, n);
            let (mut l, mut d) = gen_::used_symbols(&c);
            // sometimes leave a needed symbol out
            match s.weighted(&[6, 1, 1, 1, 1, 1]) {
                0 => {}
                1 => l[256] = false,
                2 => drop_one(s, &mut l[..256]),
                3 => drop_one(s, &mut l[257..]),
                4 => drop_one(s, &mut d),
                _ => d.iter_mut().for_each(|x| *x = false),
            }
            let spec = gen_::dyn_spec(s, &l, &d, &TreeOpts { big_counts: false });
            let mut b = Bits::default();
            write_dyn_header(&mut b, &spec);
            let mut h = b.bools(0, b.n);
            match s.weighted(&[8, 1, 1, 1]) {
                0 => {}
                1 => h.truncate(s.below(h.len())),
                2 => {
                    // something left over behind the tables: a few bits, or a whole byte or more
                    let n = s.pick(&[1, 2, 3, 7, 8, 9, 16, 64]);
                    let fill = s.weighted(&[1, 1, 2]);
                    for _ in 0..n {
                        let x = if fill == 2 { s.bool() } else { fill == 1 };
                        h.push(x);
                    }
                }
                _ => {
                    for _ in 0..s.range(1, 2) {
                        let i = s.below(h.len());
                        h[i] = !h[i];
                    }
                }
            }
            RBlock::Dynamic(h, c)
        }
    }
}

fn drop_one(s: &mut Src, used: &mut [bool]) {
    let have: Vec<usize> = (0..used.len()).filter(|&i| used[i]).collect();
    if !have.is_empty() {
        used[have[s.below(have.len())]] = false;
    }
}

/// Writes blocks up to the first refusal: (bytes, index refused)
fn write(blocks: &[Block]) -> Result<(Vec<u8>, Option<usize>), Fail> {
    let r = guard(|| {
        let mut w = BitWriter::new(Vec::new());
        for (i, b) in blocks.iter().enumerate() {
            w.write_bit(i + 1 == blocks.len()).map_err(|e| e.to_string())?;
            if librezip::compressed_block(&mut w, b).is_err() {
                return Ok::<_, String>((vec![], Some(i)));
            }
        }
        w.align().map_err(|e| e.to_string())?;
        Ok((w.into_inner(), None))
    });
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => harness_err!("writing bits failed: {e}"),
        Err(p) => viol!("writing blocks panicked: {p}"),
    }
}

fn same(got: &[Block], want: &[Block]) -> Res {
    ensure_p!(got.len() == want.len(), "{} blocks parse from the encoding of {}", got.len(), want.len());
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure_p!(g == w, "block {i} parses from its encoding as another: {} / {}", lz::blocks_summary(&[lz::rblock(g)]), lz::blocks_summary(&[lz::rblock(w)]));
    }
    Ok(())
}

/// The property on any list of blocks.
fn decide(r: &[RBlock], obs: &mut Obs) -> Res {
    let blocks: Vec<Block> = r.iter().map(block).collect();
    let fates: Vec<Fate> = r.iter().map(fate).collect();
    // each block by itself at least
    let first_bad = fates.iter().position(|f| *f != Fate::Fine);
    if let Some(i) = first_bad {
        match fates[i] {
            Fate::Refused(why) => {
                obs.class(why);
                let (_, refused) = write(&blocks)?;
                ensure_p!(
                    refused == Some(i),
                    "block {i} of {} cannot be encoded ({why}), refused was {refused:?}: {}",
                    r.len(),
                    lz::blocks_summary(r)
                );
            }
            _ => {
                obs.class("unspecified tables");
                // no panic, and what comes before is not refused
                let (_, refused) = write(&blocks)?;
                ensure_p!(refused.is_none_or(|k| k >= i), "block {refused:?} refused: {}", lz::blocks_summary(r));
            }
        }
        return Ok(());
    }
    obs.class("encodable");
    let (bytes, refused) = write(&blocks)?;
    if let Some(i) = refused {
        viol!("block {i} is refused: {}", lz::blocks_summary(&r[i..=i]));
    }
    match encode(r) {
        Some(want) => ensure_p!(
            bytes == want,
            "encoding of {} {}",
            lz::blocks_summary(r),
            lz::diff(&bytes, &want)
        ),
        None => harness_err!("reference encoder refuses {}", lz::blocks_summary(r)),
    }
    // an independent decoder
    let d = decode_opts(&bytes, true);
    ensure_p!(d.err.is_none() && d.end == bytes.len(), "the encoding of {} does not decode: {:?}", lz::blocks_summary(r), d.err);
    ensure_p!(d.blocks == r, "the encoding decodes as {}, of {}", lz::blocks_summary(&d.blocks), lz::blocks_summary(r));
    let mut t = bytes.clone();
    t.extend([0xa5; 3]);
    let p = match guard(|| lz::parse(&t)) {
        Ok(p) => p,
        Err(e) => viol!("parsing the encoding panicked: {e}"),
    };
    if let Some(e) = p.err {
        viol!("the encoding of {} does not parse: {e}", lz::blocks_summary(r));
    }
    ensure_p!(p.used == bytes.len(), "{} of {} bytes parsed", p.used, bytes.len());
    same(&p.blocks, &blocks)
}

/// Rearranges parsed blocks without changing what they expand to.
fn rearrange(s: &mut Src, blocks: Vec<RBlock>, obs: &mut Obs) -> Vec<RBlock> {
    let mut out: Vec<RBlock> = vec![];
    let mut hist: Vec<u8> = vec![];
    for b in blocks {
        let from = hist.len();
        match &b {
            RBlock::Stored(d) => hist.extend(d),
            _ => expand(b.codes(), &mut hist),
        }
        match s.weighted(&[3, 2, 2, 2, 1, 1]) {
            1 => {
                obs.class("to stored");
                for c in hist[from..].chunks(s.pick(&[1usize, 7, 4096, 65535]).max((hist.len() - from) / 40)) {
                    out.push(RBlock::Stored(c.to_vec()));
                }
            }
            2 => {
                obs.class("split");
                match b {
                    RBlock::Stored(d) => {
                        let k = s.below(d.len() + 1);
                        out.push(RBlock::Stored(d[..k].to_vec()));
                        out.push(RBlock::Stored(d[k..].to_vec()));
                    }
                    RBlock::Fixed(c) => {
                        let k = s.below(c.len() + 1);
                        out.push(RBlock::Fixed(c[..k].to_vec()));
                        out.push(RBlock::Fixed(c[k..].to_vec()));
                    }
                    RBlock::Dynamic(h, c) => {
                        let k = s.below(c.len() + 1);
                        out.push(RBlock::Dynamic(h.clone(), c[..k].to_vec()));
                        out.push(RBlock::Dynamic(h, c[k..].to_vec()));
                    }
                }
            }
            3 => {
                obs.class("to fixed");
                match b {
                    RBlock::Stored(d) => out.push(RBlock::Fixed(d.iter().map(|&x| RCode::Lit(x)).collect())),
                    RBlock::Fixed(c) | RBlock::Dynamic(_, c) => out.push(RBlock::Fixed(c)),
                }
            }
            4 => {
                obs.class("to other tables");
                let c: Vec<RCode> = match b {
                    RBlock::Stored(d) => d.iter().map(|&x| RCode::Lit(x)).collect(),
                    RBlock::Fixed(c) | RBlock::Dynamic(_, c) => c,
                };
                let (l, d) = gen_::used_symbols(&c);
                let spec = gen_::dyn_spec(s, &l, &d, &TreeOpts { big_counts: false });
                let mut bits = Bits::default();
                write_dyn_header(&mut bits, &spec);
                out.push(RBlock::Dynamic(bits.bools(0, bits.n), c));
            }
            5 => {
                obs.class("empty block added");
                out.push(b);
                out.push(if s.bool() { RBlock::Stored(vec![]) } else { RBlock::Fixed(vec![]) });
            }
            _ => out.push(b),
        }
    }
    if out.is_empty() {
        out.push(RBlock::Fixed(vec![]));
    }
    out
}

pub struct C20;
impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Lists of blocks made from nothing (any lengths and distances, random tables, some lacking a needed symbol, cut short, \
         with changed bits or with bits left over, stored blocks of any size) and lists made by rearranging the blocks of a generated stream (split, \
         other kind, other tables, empty blocks). Non-trivial: a dynamic or over-long block, or a rearrangement."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (250_000, 3_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> =
            [0usize, 1, 65534, 65535, 65536, 65537, 131071, 131072, 200_000].iter().map(|n| format!("stored {n}")).collect();
        v.extend((0..16).map(|i| format!("drops {i}")));
        v.extend((0..8).map(|i| format!("cuts {i}")));
        v.extend((0..8).map(|i| format!("flips {i}")));
        v.extend((0..8).map(|i| format!("extras {i}")));
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let p: Vec<usize> = name.split(' ').filter_map(|x| x.parse().ok()).collect();
        let mut s = Src::Prng(p[0] as u64 + 77);
        if name.starts_with("stored") {
            let d: Vec<u8> = (0..p[0]).map(|i| (i % 251) as u8).collect();
            decide(&[RBlock::Stored(d.clone())], obs)?;
            return decide(&[RBlock::Fixed(vec![RCode::Lit(1)]), RBlock::Stored(d), RBlock::Stored(vec![1])], obs);
        }
        if name.starts_with("drops") {
            // every symbol left out in turn
            let syms: Vec<usize> = (0..286).chain(1000..1030).collect();
            for (i, &out) in syms.iter().enumerate() {
                if i % 16 != p[0] {
                    continue;
                }
                let mut lit = vec![true; 286];
                let mut dist = vec![true; 30];
                if out >= 1000 { dist[out - 1000] = false } else { lit[out] = false }
                let used: Vec<usize> = (0..286).filter(|&i| lit[i]).collect();
                let mut ll = vec![0u8; 286];
                for (k, &x) in gen_::complete_depths(&mut s, used.len(), 15).iter().enumerate() {
                    ll[used[k]] = x;
                }
                let used: Vec<usize> = (0..30).filter(|&i| dist[i]).collect();
                let mut dl = vec![0u8; 30];
                for (k, &x) in gen_::complete_depths(&mut s, used.len(), 15).iter().enumerate() {
                    dl[used[k]] = x;
                }
                let spec = gen_::header_encoding(&mut s, ll, dl);
                let mut b = Bits::default();
                write_dyn_header(&mut b, &spec);
                let h = b.bools(0, b.n);
                let c = match out {
                    0..256 => RCode::Lit(out as u8),
                    256 => RCode::Lit(9),
                    257..286 => {
                        let (base, e) = LENGTHS[out - 257];
                        RCode::Ref { dist: 1 + s.below(32768) as u32, len: (base + s.below(1 << e) as u32).min(if out == 284 { 257 } else { 258 }) }
                    }
                    _ => {
                        let (base, e) = DISTS[out - 1000];
                        RCode::Ref { len: s.range(3, 258) as u32, dist: base + s.below(1 << e) as u32 }
                    }
                };
                let bl = RBlock::Dynamic(h.clone(), vec![c]);
                if !matches!(fate(&bl), Fate::Refused(_)) {
                    harness_err!("symbol {out} was not left out");
                }
                decide(&[bl], obs)?;
                if out != 256 {
                    // without it the block is fine
                    let other = if out == 7 { 8 } else { 7 };
                    decide(&[RBlock::Dynamic(h, vec![RCode::Lit(other)])], obs)?;
                }
                obs.extra_evals += 2;
            }
            return Ok(());
        }
        let c = free_codes(&mut s, 12);
        let (l, d) = gen_::used_symbols(&c);
        let spec = gen_::dyn_spec(&mut s, &l, &d, &TreeOpts { big_counts: false });
        let mut b = Bits::default();
        write_dyn_header(&mut b, &spec);
        let h = b.bools(0, b.n);
        if name.starts_with("extras") {
            // behind the tables: bits that are the codes themselves, an end of block, zeros or ones
            let lens = header_lens(&h).expect("written from these");
            let mut body = Bits::default();
            write_codes(&mut body, &lens.0, &lens.1, &c, false);
            for k in (1..=body.n.min(70)).chain([body.n]) {
                for fill in 0..3 {
                    let mut g = h.clone();
                    g.extend(body.bools(0, k).into_iter().map(|x| match fill {
                        0 => x,
                        1 => false,
                        _ => true,
                    }));
                    let bl = RBlock::Dynamic(g, c.clone());
                    if fate(&bl) != Fate::Refused("more bits than tables") {
                        harness_err!("{k} bits behind the tables are not seen");
                    }
                    decide(&[bl.clone()], obs)?;
                    decide(&[RBlock::Fixed(vec![RCode::Lit(3)]), bl, RBlock::Stored(vec![4])], obs)?;
                    obs.extra_evals += 2;
                }
            }
            return Ok(());
        }
        for i in 0..h.len() {
            let mut g = h.clone();
            if name.starts_with("cuts") {
                g.truncate(i);
            } else {
                g[i] = !g[i];
            }
            decide(&[RBlock::Dynamic(g, c.clone())], obs)?;
            obs.extra_evals += 1;
        }
        Ok(())
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        if src.chance(2, 5) {
            let large = src.chance(1, 8);
            let st = gen_::stream(src, &StreamOpts { large, ..StreamOpts::default() });
            let r = rearrange(src, st.blocks, obs);
            obs.nontrivial = true;
            obs.class("rearranged");
            obs.describe(|| format!("rearranged: {}", lz::blocks_summary(&r)));
            for b in &r {
                obs.fp(format!("{b:?}").as_bytes());
            }
            decide(&r, obs)?;
            // the content is what it was
            let blocks: Vec<Block> = r.iter().map(block).collect();
            let (bytes, _) = write(&blocks)?;
            let (z, ok, used) = zlibx::inflate(&bytes);
            ensure_p!(ok && used == bytes.len(), "zlib refuses the rearranged stream: {}", lz::blocks_summary(&r));
            ensure_p!(z == st.data, "rearranged blocks have other content: {}", lz::diff(&z, &st.data));
            return Ok(());
        }
        let n = match src.weighted(&[4, 2, 2]) {
            0 => 1,
            1 => 2,
            _ => src.range(3, 8),
        };
        let mut r: Vec<RBlock> = vec![];
        for _ in 0..n {
            if src.chance(1, 400) {
                let k = src.pick(&[65535usize, 65536, 65537, 70000, 131072]);
                r.push(RBlock::Stored(vec![src.below(256) as u8; k]));
            } else if src.bool() {
                r.push(free_block(&mut src.bulk()));
            } else {
                r.push(free_block(src));
            }
        }
        obs.nontrivial = r.iter().any(|b| matches!(b, RBlock::Dynamic(..)) || matches!(b, RBlock::Stored(d) if d.len() > 65535));
        obs.describe(|| lz::blocks_summary(&r));
        for b in &r {
            obs.fp(format!("{b:?}").as_bytes());
        }
        decide(&r, obs)
    }
}
