//! Structured generators over a choice source.

use crate::engine::Src;
use crate::refdeflate::*;
use crate::zlibx;
use std::collections::HashMap;

pub fn size(src: &mut Src, max: usize) -> usize {
    let m = match src.weighted(&[3, 4, 6, 4, 2]) {
        0 => 4,
        1 => 16,
        2 => 120,
        3 => 900,
        _ => max,
    };
    src.below(m.min(max) + 1)
}

/// letters that collide under gzip's 15-bit rolling hash: b0 matters modulo 32, and flipping bit 0 of a byte
/// together with bit 5 of the next cancels out
const COLLIDE: &[u8] = &[0x41, 0x61, 0x40, 0x60, 0x01, 0x21, 0x00, 0x20, 0x81, 0xA1];

pub fn data_len(src: &mut Src, n: usize) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::with_capacity(n);
    append_data(src, &mut out, n);
    out
}

/// Appends n bytes; may copy from what is already in `out`.
pub fn append_data(src: &mut Src, out: &mut Vec<u8>, n: usize) {
    let target = out.len() + n;
    let style = src.weighted(&[4, 4, 3, 3, 2, 1, 2]);
    let mut bulk;
    let s: &mut Src = if n > 64 {
        bulk = src.bulk();
        &mut bulk
    } else {
        src
    };
    let max_run = if n > 4000 { 400 } else { 40 };
    let byte = |s: &mut Src| match style {
        0 => b'a' + s.below(2) as u8,
        1 => b'a' + s.below(5) as u8,
        2 => s.pick(COLLIDE),
        3 => s.pick(b"etaoinshr dlu\nETAOIN.,123"),
        4 => s.below(256) as u8,
        5 => b'x',
        _ => s.pick(COLLIDE) ^ (s.below(2) as u8 * 0x20),
    };
    while out.len() < target {
        let left = target - out.len();
        match s.weighted(&[6, if out.is_empty() { 0 } else { 4 }, 1, if left > 20 { 1 } else { 0 }]) {
            0 => {
                let k = s.range(1, 12).min(left);
                for _ in 0..k {
                    let b = byte(s);
                    out.push(b);
                }
            }
            3 => {
                // a string after pieces of it that start ever later, each of its own length
                let lens: &[usize] = if left > 1200 && s.below(4) == 0 { &[3, 3, 4, 256, 257, 258, 259] } else { &[3, 3, 3, 4, 4, 5, 6, 8] };
                let stop = out.len() + left;
                let long = lens[lens.len() - 1] + 3;
                let text: Vec<u8> = (0..long).map(|_| if s.below(3) == 0 { s.below(256) as u8 } else { byte(s) }).collect();
                let mut from = [0, 1, 2, 3];
                for i in 1..4 {
                    from.swap(i, s.below(i + 1));
                }
                for &f in &from[..s.range(2, 4)] {
                    let k = s.pick(lens).min(long - f);
                    out.extend(&text[f..f + k]);
                    let b = byte(s);
                    out.push(b);
                }
                out.extend(&text);
                out.truncate(stop);
            }
            1 => {
                // copy from earlier, perhaps with one byte changed at the end
                let len = s.range(1, max_run).min(left);
                let avail = out.len();
                let d = match s.weighted(&[3, 3, 3, 1]) {
                    0 => s.range(1, 4),
                    1 => s.range(1, 40),
                    2 => s.range(1, avail),
                    _ => 32768 - s.below(3),
                }
                .min(avail);
                for _ in 0..len {
                    let b = out[out.len() - d];
                    out.push(b);
                }
            }
            _ => {
                let len = s.pick(&[3usize, 4, 5, 10, 257, 258, 259, 300]).min(left);
                let b = b'a' + s.below(3) as u8;
                for _ in 0..len {
                    out.push(b);
                }
            }
        }
    }
}

pub fn data(src: &mut Src, max: usize) -> Vec<u8> {
    let n = size(src, max);
    data_len(src, n)
}

/// History before a block: mostly short, sometimes exactly or nearly a full window.
pub fn preroll(src: &mut Src, max: usize) -> Vec<u8> {
    let n = match src.weighted(&[4, 3, 4, 2, 1]) {
        0 => 0,
        1 => src.range(1, 4),
        2 => src.range(1, 200),
        3 => src.range(1, 3000),
        _ => 32768 - src.pick(&[0usize, 0, 1, 2, 300]),
    };
    data_len(src, n.min(max))
}

pub fn length(src: &mut Src) -> u32 {
    match src.weighted(&[6, 3, 2, 1, 3]) {
        0 => src.range(3, 11) as u32,
        1 => {
            let (b, e) = LENGTHS[src.below(29)];
            if src.bool() { b } else { (b + (1 << e) - 1).min(258) }
        }
        2 => 258,
        3 => 257,
        _ => src.range(3, 258) as u32,
    }
}

/// avail > 0
pub fn distance(src: &mut Src, avail: usize) -> u32 {
    let avail = avail.min(32768);
    let d = match src.weighted(&[4, 3, 2, 1, 3, 3]) {
        0 => src.range(1, 4),
        1 => {
            let (b, e) = DISTS[src.below(30)];
            (if src.bool() { b } else { b + (1 << e) - 1 }) as usize
        }
        2 => avail,
        3 => 32768 - src.below(4),
        4 => src.range(1, avail),
        _ => src.range(1, 300),
    };
    (if d > avail { 1 + (d - 1) % avail } else { d }) as u32
}

/// n codes; `hist` is everything before and is extended by their expansion.
pub fn codes(src: &mut Src, hist: &mut Vec<u8>, n: usize) -> Vec<RCode> {
    let mut v = Vec::with_capacity(n);
    let lit_style = src.weighted(&[3, 3, 2, 1]);
    let ref_w = src.pick(&[1u32, 3, 0, 6]);
    for _ in 0..n {
        let c = if !hist.is_empty() && src.weighted(&[3, ref_w]) == 1 {
            RCode::Ref { dist: distance(src, hist.len()), len: length(src) }
        } else {
            RCode::Lit(match lit_style {
                0 => b'a' + src.below(3) as u8,
                1 => src.below(256) as u8,
                2 => src.pick(COLLIDE),
                _ => [0u8, 143, 144, 255][src.below(4)],
            })
        };
        expand(&[c], hist);
        v.push(c);
    }
    v
}

/// Depths of a random complete prefix code with n leaves, none deeper than max.
pub fn complete_depths(src: &mut Src, n: usize, max: u8) -> Vec<u8> {
    assert!(n >= 2 && n <= 1 << max);
    let mode = src.weighted(&[3, 3, 2]);
    let mut need = 0u8;
    while 1 << need < n {
        need += 1;
    }
    let max = if mode == 0 { max } else { src.range(need as usize, max as usize) as u8 };
    // the leaf to split must keep n reachable: splitting deepest-first may use depth up, but never capacity:
    // capacity (sum of 2^(max-depth)) is constant, so n <= 2^max stays reachable
    let mut d = vec![0u8];
    while d.len() < n {
        let cand: Vec<usize> = (0..d.len()).filter(|&i| d[i] < max).collect();
        let k = match mode {
            0 => *cand.iter().min_by_key(|&&i| d[i]).unwrap(),
            1 => cand[src.below(cand.len())],
            _ => {
                if src.chance(7, 8) {
                    *cand.iter().max_by_key(|&&i| d[i]).unwrap()
                } else {
                    cand[src.below(cand.len())]
                }
            }
        };
        d[k] += 1;
        let x = d[k];
        d.push(x);
    }
    // shuffle
    for i in (1..n).rev() {
        let j = src.below(i + 1);
        d.swap(i, j);
    }
    d
}

pub struct TreeOpts {
    /// permit HLIT > 286 / HDIST > 30 (outside RFC 1951, accepted by the parser)
    pub big_counts: bool,
}

pub fn dyn_spec(src: &mut Src, used_lit: &[bool], used_dist: &[bool], o: &TreeOpts) -> DynSpec {
    let mut s = src.bulk();
    let s = &mut s;
    let lit_n = if o.big_counts && s.bool() { 288 } else { 286 };
    let dist_n = if o.big_counts && s.bool() { 32 } else { 30 };

    let mut syms: Vec<usize> = (0..used_lit.len()).filter(|&i| used_lit[i]).collect();
    let extra = match s.weighted(&[3, 3, 2, 1]) {
        0 => 0,
        1 => s.range(1, 6),
        2 => s.range(0, 100),
        _ => lit_n,
    };
    for _ in 0..extra {
        let k = s.below(lit_n);
        if !syms.contains(&k) {
            syms.push(k);
        }
    }
    while syms.len() < 2 {
        let k = s.below(lit_n);
        if !syms.contains(&k) {
            syms.push(k);
        }
    }
    let depths = complete_depths(s, syms.len(), 15);
    let maxsym = *syms.iter().max().unwrap();
    let mut hlit = (maxsym + 1).max(257);
    match s.weighted(&[4, 1, 1]) {
        0 => {}
        1 => hlit = s.range(hlit, lit_n),
        _ => hlit = lit_n.max(hlit),
    }
    let mut lit = vec![0u8; hlit];
    for (k, &sy) in syms.iter().enumerate() {
        lit[sy] = depths[k];
    }

    let mut dsyms: Vec<usize> = (0..used_dist.len()).filter(|&i| used_dist[i]).collect();
    let mode = match dsyms.len() {
        0 => s.weighted(&[2, 2, 2]), // none, single, complete
        1 => 1 + s.weighted(&[2, 2]),
        _ => 2,
    };
    let dist = match mode {
        0 => vec![0u8],
        1 => {
            if dsyms.is_empty() {
                dsyms.push(s.below(30));
            }
            let n = match s.weighted(&[2, 1, 1]) {
                0 => dsyms[0] + 1,
                1 => s.range(dsyms[0] + 1, dist_n),
                _ => dist_n,
            };
            let mut v = vec![0u8; n];
            v[dsyms[0]] = 1;
            v
        }
        _ => {
            let extra = match s.weighted(&[3, 2, 1]) {
                0 => 0,
                1 => s.range(1, 4),
                _ => 30,
            };
            for _ in 0..extra {
                let k = s.below(dist_n);
                if !dsyms.contains(&k) {
                    dsyms.push(k);
                }
            }
            while dsyms.len() < 2 {
                let k = s.below(dist_n);
                if !dsyms.contains(&k) {
                    dsyms.push(k);
                }
            }
            let depths = complete_depths(s, dsyms.len(), 15);
            let m = *dsyms.iter().max().unwrap() + 1;
            let n = match s.weighted(&[3, 1, 1]) {
                0 => m,
                1 => s.range(m, dist_n),
                _ => dist_n,
            };
            let mut v = vec![0u8; n];
            for (k, &sy) in dsyms.iter().enumerate() {
                v[sy] = depths[k];
            }
            v
        }
    };
    header_encoding(s, lit, dist)
}

/// All symbols, each length written plainly with a long code: 2251 bits.
pub fn long_header() -> DynSpec {
    let mut lit = vec![9u8; 286];
    lit[..226].fill(8);
    let mut dist = vec![5u8; 30];
    dist[7] = 4;
    dist[21] = 4;
    let mut cl = [0u8; 19];
    for (sym, len) in [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (8, 7), (9, 7)] {
        cl[sym] = len;
    }
    let tokens = lit.iter().chain(&dist).map(|&l| (l, 0)).collect();
    DynSpec { lit, dist, tokens, cl, hclen: 19 }
}

/// Chooses an encoding (repeat codes, code length code, HCLEN) of given lengths.
pub fn header_encoding(s: &mut Src, lit: Vec<u8>, dist: Vec<u8>) -> DynSpec {
    let all: Vec<u8> = lit.iter().chain(dist.iter()).copied().collect();
    let style = s.weighted(&[3, 1, 3]);
    let mut tokens: Vec<(u8, u32)> = vec![];
    let mut i = 0;
    while i < all.len() {
        let v = all[i];
        let run = all[i..].iter().take_while(|&&x| x == v).count();
        let can16 = i > 0 && all[i - 1] == v && run >= 3;
        let mut opts: Vec<u8> = vec![0];
        if style != 1 {
            if v == 0 && run >= 11 {
                opts.push(18);
            }
            if v == 0 && run >= 3 {
                opts.push(17);
            }
            if can16 {
                opts.push(16);
            }
        }
        let o = if style == 0 { opts.get(1).copied().unwrap_or(0) } else { s.pick(&opts) };
        let pick_len = |s: &mut Src, lo: usize, hi: usize| {
            let hi = hi.min(run);
            if style == 0 || s.bool() { hi } else { s.range(lo, hi) }
        };
        match o {
            18 => {
                let n = pick_len(s, 11, 138);
                tokens.push((18, n as u32 - 11));
                i += n;
            }
            17 => {
                let n = pick_len(s, 3, 10);
                tokens.push((17, n as u32 - 3));
                i += n;
            }
            16 => {
                let n = pick_len(s, 3, 6);
                tokens.push((16, n as u32 - 3));
                i += n;
            }
            _ => {
                tokens.push((v, 0));
                i += 1;
            }
        }
    }
    let mut used: Vec<usize> = tokens.iter().map(|t| t.0 as usize).collect();
    used.sort();
    used.dedup();
    let extra = s.pick(&[0usize, 0, 2, 19]);
    for _ in 0..extra {
        let k = s.below(19);
        if !used.contains(&k) {
            used.push(k);
        }
    }
    while used.len() < 2 {
        let k = s.below(19);
        if !used.contains(&k) {
            used.push(k);
        }
    }
    let depths = complete_depths(s, used.len(), 7);
    let mut cl = [0u8; 19];
    for (k, &u) in used.iter().enumerate() {
        cl[u] = depths[k];
    }
    let mut hclen = 4;
    for (i, &o) in CL_ORDER.iter().enumerate() {
        if cl[o] != 0 {
            hclen = hclen.max(i + 1);
        }
    }
    match s.weighted(&[3, 1, 1]) {
        0 => {}
        1 => hclen = s.range(hclen, 19),
        _ => hclen = 19,
    }
    DynSpec { lit, dist, tokens, cl, hclen }
}

pub fn used_symbols(codes: &[RCode]) -> (Vec<bool>, Vec<bool>) {
    let mut l = vec![false; 286];
    let mut d = vec![false; 30];
    l[256] = true;
    for c in codes {
        match *c {
            RCode::Lit(b) => l[b as usize] = true,
            RCode::Ref { dist, len } => {
                l[length_symbol(len).0] = true;
                d[dist_symbol(dist).0] = true;
            }
        }
    }
    (l, d)
}

pub struct Stream {
    pub bytes: Vec<u8>,
    pub blocks: Vec<RBlock>,
    pub data: Vec<u8>,
    /// bit offsets where each block (its final bit) starts, and the end before padding
    pub starts: Vec<usize>,
    pub end_bits: usize,
    pub labels: Vec<&'static str>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct StreamOpts {
    pub big_counts: bool,
    pub alt258: bool,
    /// permit more than 64 KiB of content
    pub large: bool,
    pub max_codes: usize,
}
impl Default for StreamOpts {
    fn default() -> Self {
        StreamOpts { big_counts: false, alt258: false, large: true, max_codes: 120 }
    }
}

pub fn put_block(b: &mut Bits, last: bool, block: &BlockSpec) -> RBlock {
    b.bit(last);
    match block {
        BlockSpec::Stored(d) => {
            b.val(0, 2);
            b.align();
            b.val(d.len() as u32, 16);
            b.val(d.len() as u32 ^ 0xffff, 16);
            for &x in d {
                b.byte(x);
            }
            RBlock::Stored(d.clone())
        }
        BlockSpec::Fixed(c, alt) => {
            b.val(1, 2);
            write_codes(b, &fixed_lit_lens(), &[5; 32], c, *alt);
            RBlock::Fixed(c.clone())
        }
        BlockSpec::Dynamic(s, c, alt) => {
            b.val(2, 2);
            let from = b.n;
            write_dyn_header(b, s);
            let header = b.bools(from, b.n);
            write_codes(b, &s.lit, &s.dist, c, *alt);
            RBlock::Dynamic(header, c.clone())
        }
    }
}

pub enum BlockSpec {
    Stored(Vec<u8>),
    Fixed(Vec<RCode>, bool),
    Dynamic(DynSpec, Vec<RCode>, bool),
}

/// A hand-assembled valid stream.
pub fn stream(src: &mut Src, o: &StreamOpts) -> Stream {
    let mut b = Bits::default();
    let mut st = Stream { bytes: vec![], blocks: vec![], data: vec![], starts: vec![], end_bits: 0, labels: vec![] };
    let n_blocks = match src.weighted(&[4, 4, 3, 1]) {
        0 => 1,
        1 => 2,
        2 => src.range(3, 6),
        _ => src.range(7, 20),
    };
    let filler = o.large && src.chance(1, 8);
    for k in 0..n_blocks {
        let last = k + 1 == n_blocks;
        st.starts.push(b.n);
        let mut sub;
        let use_bulk = src.chance(1, 3);
        let s: &mut Src = if use_bulk {
            sub = src.bulk();
            &mut sub
        } else {
            src
        };
        let spec = if k == 0 && filler {
            st.labels.push("large history");
            // more than a window of history, cheaply
            match s.weighted(&[2, 1, 1]) {
                0 => {
                    let n = s.pick(&[32767usize, 32768, 32769, 33000, 65535, 40000]);
                    let d = data_len(s, n);
                    st.data.extend(&d);
                    BlockSpec::Stored(d)
                }
                m => {
                    let mut c = codes(s, &mut st.data, 40);
                    let total = s.pick(&[32700usize, 32768, 33100, 70000]);
                    while st.data.len() < total {
                        let x = RCode::Ref { dist: distance(s, st.data.len().max(1)), len: 258 };
                        if st.data.is_empty() {
                            c.push(RCode::Lit(7));
                            st.data.push(7);
                            continue;
                        }
                        expand(&[x], &mut st.data);
                        c.push(x);
                    }
                    if m == 1 {
                        BlockSpec::Fixed(c, false)
                    } else {
                        let (l, d) = used_symbols(&c);
                        let spec = dyn_spec(s, &l, &d, &TreeOpts { big_counts: false });
                        BlockSpec::Dynamic(spec, c, false)
                    }
                }
            }
        } else {
            let kind = s.weighted(&[3, 3, 2]);
            if kind == 2 {
                let n = match s.weighted(&[2, 4, 2, 1, 1]) {
                    0 => 0,
                    1 => s.range(1, 30),
                    2 => s.range(1, 600),
                    3 => s.pick(&[255usize, 256, 257, 511, 512, 1024]),
                    _ if o.large && s.chance(1, 4) => s.pick(&[65535usize, 65534, 32768, 4096]),
                    _ => 258,
                };
                let d = data_len(s, n);
                st.data.extend(&d);
                BlockSpec::Stored(d)
            } else {
                let n = match s.weighted(&[1, 4, 4, 1]) {
                    0 => 0,
                    1 => s.range(1, 8),
                    2 => s.range(1, 40),
                    _ => s.range(1, o.max_codes),
                };
                let c = codes(s, &mut st.data, n);
                let alt = o.alt258 && s.bool();
                if kind == 0 {
                    BlockSpec::Fixed(c, alt)
                } else {
                    let (mut l, d) = used_symbols(&c);
                    if alt {
                        l[284] = true;
                    }
                    let spec = dyn_spec(s, &l, &d, &TreeOpts { big_counts: o.big_counts });
                    BlockSpec::Dynamic(spec, c, alt)
                }
            }
        };
        match &spec {
            BlockSpec::Stored(d) => {
                st.labels.push("stored block");
                if d.len() > 255 {
                    st.labels.push("stored block over 255 bytes");
                }
            }
            BlockSpec::Fixed(..) => st.labels.push("fixed block"),
            BlockSpec::Dynamic(s, ..) => {
                if s.dist.len() == 1 && s.dist[0] == 0 {
                    st.labels.push("dynamic: no distance code");
                } else if s.dist.iter().filter(|&&x| x > 0).count() == 1 {
                    st.labels.push("dynamic: single distance code");
                }
                if s.lit.iter().any(|&x| x == 15) {
                    st.labels.push("dynamic: 15-bit code");
                }
                st.labels.push("dynamic block");
            }
        }
        let rb = put_block(&mut b, last, &spec);
        st.blocks.push(rb);
    }
    st.end_bits = b.n;
    b.align();
    st.bytes = b.bytes;
    if st.data.len() > 32768 {
        st.labels.push("content beyond the window");
    }
    if n_blocks > 1 {
        st.labels.push("multi-block");
    }
    st
}

pub fn zopts(src: &mut Src) -> zlibx::ZOpts {
    zlibx::ZOpts {
        level: src.range(0, 9) as i32,
        window: src.range(9, 15) as i32,
        mem: src.range(1, 9) as i32,
        strategy: src.range(0, 4) as i32,
        chunk: match src.weighted(&[3, 2, 1]) {
            0 => usize::MAX,
            1 => src.range(1, 3000),
            _ => src.range(1, 50),
        },
        flush: src.pick(&[0, 1, 2, 3, 5]),
        params: if src.chance(1, 4) {
            (0..3).map(|_| (src.range(0, 9) as i32, src.range(0, 4) as i32)).collect()
        } else {
            vec![]
        },
    }
}

/// A stream by a real compressor.
pub fn real_stream(src: &mut Src, data: &[u8]) -> (Vec<u8>, &'static str) {
    if src.chance(1, 4) {
        (zlibx::miniz(data, src.range(0, 10) as u8), "miniz")
    } else {
        let mut o = zopts(src);
        if data.len() / o.chunk.max(1) > 60 {
            o.chunk = data.len() / 60 + 1;
        }
        (zlibx::deflate(data, &o), "zlib")
    }
}

/// A well-formed RFC 1952 header.
pub fn gz_header(src: &mut Src) -> Vec<u8> {
    let mut h = vec![0x1f, 0x8b, 8];
    let flags = match src.weighted(&[2, 3]) {
        0 => 0,
        _ => src.below(32) as u8,
    };
    h.push(flags);
    for _ in 0..6 {
        h.push(src.below(256) as u8);
    }
    if flags & 4 != 0 {
        let n = match src.weighted(&[2, 5, 2, 1, 1]) {
            0 => 0,
            1 => src.range(1, 20),
            2 => src.pick(&[127usize, 128, 255, 256, 257, 511, 512, 4096, 32767, 32768]),
            3 => src.range(0, 2000),
            _ => src.pick(&[65535usize, 65534, 65280]),
        };
        h.extend(&(n as u16).to_le_bytes());
        let mut b = src.bulk();
        for _ in 0..n {
            // arbitrary, zeros and magic-like bytes included
            h.push(b.pick(&[0u8, 0x1f, 0x8b, 8, 255, 65, 1]) ^ if b.chance(1, 3) { b.below(256) as u8 } else { 0 });
        }
    }
    for bit in [8u8, 16] {
        if flags & bit != 0 {
            let n = match src.weighted(&[40, 100, 20, 1]) {
                0 => 0,
                1 => src.range(1, 30),
                2 => src.range(1, 1500),
                _ => src.pick(&[4095usize, 4096, 32_767, 65_535, 65_536, 70_000]),
            };
            let mut b = src.bulk();
            for _ in 0..n {
                h.push(1 + b.below(255) as u8);
            }
            h.push(0);
        }
    }
    if flags & 2 != 0 {
        let c = crc32(&h);
        h.extend(&(c as u16).to_le_bytes());
    }
    h
}

pub fn footer(data: &[u8]) -> Vec<u8> {
    let mut v = crc32(data).to_le_bytes().to_vec();
    v.extend(&(data.len() as u32).to_le_bytes());
    v
}

/// Damages a byte string.
pub fn mutate(src: &mut Src, v: &mut Vec<u8>) {
    let n = match src.weighted(&[5, 2, 1]) {
        0 => 1,
        1 => 2,
        _ => src.range(3, 10),
    };
    for _ in 0..n {
        if v.is_empty() {
            v.push(src.below(256) as u8);
            continue;
        }
        // damage near the start reaches headers
        let at = |src: &mut Src, v: &Vec<u8>| if src.bool() { src.below(v.len()) } else { src.below(v.len().min(24)) };
        match src.weighted(&[8, 2, 1, 1, 3, 1]) {
            0 => {
                let i = at(src, v);
                v[i] ^= 1 << src.below(8);
            }
            1 => {
                let i = at(src, v);
                v[i] = src.pick(&[0u8, 0xff, 0x80, 1]) ^ src.below(256) as u8;
            }
            2 => {
                let i = at(src, v);
                v.remove(i);
            }
            3 => {
                let i = at(src, v);
                let b = src.below(256) as u8;
                v.insert(i, b);
            }
            4 => {
                let i = src.below(v.len());
                v.truncate(i);
            }
            _ => {
                let i = src.below(v.len());
                let j = src.below(v.len());
                let k = src.below(16).min(v.len() - i).min(v.len() - j);
                let part = v[i..i + k].to_vec();
                v[j..j + k].copy_from_slice(&part);
            }
        }
    }
}

/// A valid sequence of codes for `data` after `pre`, by a random matcher (an encoder unlike any other).
pub fn factor(src: &mut Src, pre: &[u8], data: &[u8]) -> Vec<RCode> {
    let mut w = pre.to_vec();
    w.extend(data);
    let mut idx: HashMap<[u8; 3], Vec<usize>> = HashMap::new();
    let mut bulk;
    let s: &mut Src = if data.len() > 200 {
        bulk = src.bulk();
        &mut bulk
    } else {
        src
    };
    let lit_w = s.pick(&[1u32, 4, 0, 12]);
    let trunc = s.pick(&[1u32, 0, 3]);
    let near = s.pick(&[1u32, 0, 4]);
    let mut out = vec![];
    let mut indexed = 0;
    let mut pos = pre.len();
    while pos < w.len() {
        while indexed < pos {
            if indexed + 2 < w.len() {
                idx.entry([w[indexed], w[indexed + 1], w[indexed + 2]]).or_default().push(indexed);
            }
            indexed += 1;
        }
        let cands: &[usize] = if pos + 2 < w.len() {
            idx.get(&[w[pos], w[pos + 1], w[pos + 2]]).map(|v| v.as_slice()).unwrap_or(&[])
        } else {
            &[]
        };
        let first = cands.partition_point(|&c| pos - c > 32768);
        let cands = &cands[first..];
        if cands.is_empty() || s.weighted(&[lit_w, 4]) == 0 {
            out.push(RCode::Lit(w[pos]));
            pos += 1;
            continue;
        }
        let c = match s.weighted(&[3, near, 1]) {
            0 => s.pick(cands),
            1 => cands[cands.len() - 1],
            _ => cands[0],
        };
        let mut max = 3;
        while max < 258 && pos + max < w.len() && w[c + max] == w[pos + max] {
            max += 1;
        }
        let len = if s.weighted(&[3, trunc]) == 1 { s.range(3, max) } else { max };
        out.push(RCode::Ref { dist: (pos - c) as u32, len: len as u32 });
        pos += len;
    }
    out
}

pub struct Cfg {
    pub cfg: librezip::Config,
    /// what the statement says of this configuration (None: outside the model)
    pub model: Option<crate::model::MConfig>,
    pub name: String,
}

pub fn level_cfg(level: u8) -> Cfg {
    Cfg {
        cfg: librezip::Config::gzip(level),
        model: Some(crate::model::MConfig::gzip(level)),
        name: format!("gzip {level}"),
    }
}

/// A predictor configuration: stock levels, spicy, or a mixture of their settings with perturbed numbers.
pub fn config(src: &mut Src) -> Cfg {
    use crate::model::MConfig;
    use librezip::verif::{Lookahead, Picker};
    match src.weighted(&[6, 2, 4]) {
        0 => {
            let mut c = level_cfg(src.range(1, 9) as u8);
            if c.cfg == librezip::Config::gzip(6) && src.bool() {
                c.cfg = librezip::Config::gzip_16_default();
                c.name = "gzip default".into();
            }
            c
        }
        1 => Cfg { cfg: librezip::Config::spicy(), model: Some(MConfig::spicy()), name: "spicy".into() },
        _ => {
            let mut c = librezip::Config::gzip(src.range(1, 9) as u8);
            c.lookahead = src.pick(&[Lookahead::ThreeZip, Lookahead::Gzip, Lookahead::Greedy]);
            c.picker = src.pick(&[Picker::DropFarThrees, Picker::Longest]);
            c.first_byte_bug = src.bool();
            let other = librezip::Config::gzip(src.range(1, 9) as u8);
            if src.bool() {
                c.wams.quit_search_above_length = src.pick(&[258u16, 3, 4, 5, 8, 30, 0, 259]);
            }
            if src.bool() {
                c.wams.limit_count_of_distances = src.pick(&[1usize, 2, 3, 5, 9, 1000]);
            }
            match src.weighted(&[2, 2, 2]) {
                0 => c.wams.insert_only_below_length = other.wams.insert_only_below_length,
                1 => c.wams.insert_only_below_length = None,
                _ => c.wams.insert_only_below_length = Some(src.pick(&[3u16, 4, 5, 2, 8, 30, 257, 258])),
            }
            if src.bool() {
                c.wams.lookahead = other.wams.lookahead;
            }
            if let Some(l) = c.wams.lookahead.as_mut() {
                if src.bool() {
                    l.abort_above_length = src.pick(&[0u16, 3, 4, 8, 20]);
                    l.apathetic_above_length = src.pick(&[3u16, 4, 8, 32]);
                }
            }
            let model = MConfig::of(&c);
            Cfg { cfg: c, model, name: format!("{c:?}") }
        }
    }
}

/// Limit on candidates inspected.
pub fn limit(src: &mut Src, c: &Cfg) -> u16 {
    match src.weighted(&[5, 2, 2]) {
        0 => c.cfg.wams.insert_only_below_length.unwrap_or(u16::MAX),
        1 => u16::MAX,
        _ => src.pick(&[4u16, 1, 2, 3, 6, 20, 300]),
    }
}

/// (history, content, valid codes for the content) with codes chosen by: codes first, a random matcher, the
/// predictor itself with random deviations.
pub struct Case {
    pub pre: Vec<u8>,
    pub data: Vec<u8>,
    pub codes: Vec<RCode>,
    pub cfg: Cfg,
    pub limit: u16,
    pub kind: &'static str,
}

pub fn case(src: &mut Src, max: usize) -> Case {
    let cfg = config(src);
    let limit = limit(src, &cfg);
    if src.chance(1, 400) {
        return big_case(src, cfg, limit);
    }
    let pre = preroll(src, usize::MAX);
    match src.weighted(&[3, 3, 4]) {
        0 => {
            let mut hist = pre.clone();
            let n = size(src, 200);
            let c = codes(src, &mut hist, n);
            let data = hist[pre.len()..].to_vec();
            Case { pre, data, codes: c, cfg, limit, kind: "codes first" }
        }
        1 => {
            let n = size(src, max);
            let mut w = pre.clone();
            append_data(src, &mut w, n);
            let data = w[pre.len()..].to_vec();
            let c = factor(src, &pre, &data);
            Case { pre, data, codes: c, cfg, limit, kind: "random matcher" }
        }
        _ => {
            let n = size(src, max);
            let mut w = pre.clone();
            append_data(src, &mut w, n);
            let data = w[pre.len()..].to_vec();
            let c = guided(src, &pre, &data, &cfg, limit);
            Case { pre, data, codes: c, cfg, limit, kind: "predictor with deviations" }
        }
    }
}

/// Another encoding of the same content.
pub fn another(src: &mut Src, c: &Case) -> Vec<RCode> {
    let mut bulk = src.bulk();
    if bulk.bool() { factor(&mut bulk, &c.pre, &c.data) } else { guided(&mut bulk, &c.pre, &c.data, &c.cfg, c.limit) }
}

/// Content of several windows: mostly noise (so that nothing takes long), with copies from around 32768, 65536 and 98304
/// bytes back and from anywhere.
pub fn big_case(src: &mut Src, cfg: Cfg, limit: u16) -> Case {
    let pre_n = src.pick(&[0usize, 0, 32768, 32767, 500, 40_000, 66_000]);
    let n = src.pick(&[34_000usize, 66_000, 70_000, 100_000, 140_000, 34_000, 70_000, 280_000]) + src.below(2000);
    big_case_of(src, cfg, limit, pre_n, n)
}

pub fn big_case_of(src: &mut Src, cfg: Cfg, limit: u16, pre_n: usize, n: usize) -> Case {
    let follow = src.chance(2, 3);
    let mut bulk = src.bulk();
    let s = &mut bulk;
    let mut w: Vec<u8> = Vec::with_capacity(pre_n + n);
    let wide = s.pick(&[256usize, 256, 100]);
    while w.len() < pre_n + n {
        let left = pre_n + n - w.len();
        if w.is_empty() || s.below(3) == 0 {
            for _ in 0..s.pick(&[1usize, 3, 30, 300, 3000]).min(left) {
                w.push(s.below(wide) as u8);
            }
        } else {
            let avail = w.len();
            let d = match s.below(4) {
                0 => s.pick(&[32_765usize, 32_767, 32_768, 32_769, 32_770, 32_900]),
                1 => s.pick(&[65_530usize, 65_535, 65_536, 65_537, 65_538, 65_600, 80_000, 98_303, 98_304, 98_305]),
                2 => s.range(1, avail),
                _ => s.range(1, 40_000),
            };
            let d = if d > avail { s.range(1, avail) } else { d };
            let len = s.pick(&[3usize, 4, 5, 9, 40, 257, 258, 259, 600]).min(left);
            for _ in 0..len {
                w.push(w[w.len() - d]);
            }
            if s.bool() && w.len() < pre_n + n {
                w.push(s.below(wide) as u8);
            }
        }
    }
    let data = w.split_off(pre_n);
    let codes = if follow { guided(s, &w, &data, &cfg, limit) } else { factor(s, &w, &data) };
    Case { pre: w, data, codes, cfg, limit, kind: "several windows" }
}

/// Codes following the library's own predictions (where valid) with deviations.
pub fn guided(src: &mut Src, pre: &[u8], data: &[u8], cfg: &Cfg, limit: u16) -> Vec<RCode> {
    use librezip::Guesser;
    let world = crate::model::World::new(pre, data);
    let refs = librezip::all_refs::AllRefs::with_sixteen(pre, data, limit);
    let t = librezip::Technique::new(cfg.cfg, &refs);
    let mut sc = t.scanner();
    let mut pos = pre.len();
    let dev = src.pick(&[0u32, 1, 3, 8, 1]);
    let mut out = vec![];
    let mut bulk;
    let s: &mut Src = if data.len() > 400 {
        bulk = src.bulk();
        &mut bulk
    } else {
        src
    };
    while pos < world.w.len() {
        let mut g: Vec<RCode> = match crate::engine::guard(|| sc.codes()) {
            Ok(g) => g.iter().map(crate::lz::rcode).collect(),
            Err(_) => vec![],
        };
        if world.invalid(pos, &g).is_some() {
            // another property's business
            g = vec![RCode::Lit(world.w[pos])];
        }
        for c in g {
            let mut c = c;
            let mut stop = false;
            if dev > 0 && s.below(24) < dev as usize {
                stop = true;
                c = match (s.below(4), c) {
                    (0, _) => RCode::Lit(world.w[pos]),
                    (1, RCode::Ref { dist, len }) if len > 3 => RCode::Ref { dist, len: s.range(3, len as usize) as u32 },
                    (_, c) => {
                        // a farther or nearer occurrence
                        let mut found = c;
                        let mut tries = 0;
                        let start = s.below(pos.max(1));
                        for k in 0..pos.min(3000) {
                            let off = (start + k) % pos;
                            tries += 1;
                            if pos - off <= 32768 && world.run_len(pos, off) >= 3 {
                                let r = world.run_len(pos, off);
                                found = RCode::Ref { dist: (pos - off) as u32, len: s.range(3, r) as u32 };
                                break;
                            }
                        }
                        let _ = tries;
                        found
                    }
                };
                if c == RCode::Lit(world.w[pos]) && s.below(4) == 0 {
                    stop = false;
                }
            }
            sc.feedback(crate::lz::code(c));
            pos += crate::model::emitted(&c);
            out.push(c);
            if stop || pos >= world.w.len() {
                break;
            }
            // the rest of a multi-code prediction must still be valid here
            let _ = &sc;
        }
    }
    out
}
