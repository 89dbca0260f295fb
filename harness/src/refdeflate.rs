//! Reference RFC 1951 model, written from the RFC, sharing nothing with librezip: tables, bit writer, canonical
//! codes, a strict decoder that classifies what it meets, and an assembler for hand-made streams.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RCode {
    Lit(u8),
    Ref { dist: u32, len: u32 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RBlock {
    Stored(Vec<u8>),
    Fixed(Vec<RCode>),
    /// header bits (from HLIT to the last code length), codes
    Dynamic(Vec<bool>, Vec<RCode>),
}

impl RBlock {
    pub fn codes(&self) -> &[RCode] {
        match self {
            RBlock::Stored(_) => &[],
            RBlock::Fixed(c) | RBlock::Dynamic(_, c) => c,
        }
    }
}

/// (base length, extra bits) for symbols 257..=285
pub const LENGTHS: [(u32, u32); 29] = [
    (3, 0), (4, 0), (5, 0), (6, 0), (7, 0), (8, 0), (9, 0), (10, 0),
    (11, 1), (13, 1), (15, 1), (17, 1),
    (19, 2), (23, 2), (27, 2), (31, 2),
    (35, 3), (43, 3), (51, 3), (59, 3),
    (67, 4), (83, 4), (99, 4), (115, 4),
    (131, 5), (163, 5), (195, 5), (227, 5),
    (258, 0),
];
/// (base distance, extra bits) for symbols 0..=29
pub const DISTS: [(u32, u32); 30] = [
    (1, 0), (2, 0), (3, 0), (4, 0),
    (5, 1), (7, 1), (9, 2), (13, 2), (17, 3), (25, 3), (33, 4), (49, 4), (65, 5), (97, 5),
    (129, 6), (193, 6), (257, 7), (385, 7), (513, 8), (769, 8), (1025, 9), (1537, 9),
    (2049, 10), (3073, 10), (4097, 11), (6145, 11), (8193, 12), (12289, 12), (16385, 13), (24577, 13),
];
pub const CL_ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn length_symbol(len: u32) -> (usize, u32, u32) {
    if len == 258 {
        return (285, 0, 0);
    }
    let i = (0..28).rev().find(|&i| LENGTHS[i].0 <= len).unwrap();
    (257 + i, len - LENGTHS[i].0, LENGTHS[i].1)
}
pub fn dist_symbol(d: u32) -> (usize, u32, u32) {
    let i = (0..30).rev().find(|&i| DISTS[i].0 <= d).unwrap();
    (i, d - DISTS[i].0, DISTS[i].1)
}

#[derive(Default, Clone)]
pub struct Bits {
    pub bytes: Vec<u8>,
    pub n: usize,
}
impl Bits {
    pub fn bit(&mut self, b: bool) {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.n % 8);
        }
        self.n += 1;
    }
    /// low bit first
    pub fn val(&mut self, v: u32, bits: u32) {
        for i in 0..bits {
            self.bit(v >> i & 1 == 1);
        }
    }
    /// Huffman code: high bit first
    pub fn code(&mut self, c: (u32, u8)) {
        for i in (0..c.1).rev() {
            self.bit(c.0 >> i & 1 == 1);
        }
    }
    pub fn align(&mut self) {
        while self.n % 8 != 0 {
            self.bit(false);
        }
    }
    pub fn byte(&mut self, b: u8) {
        assert!(self.n % 8 == 0);
        self.bytes.push(b);
        self.n += 8;
    }
    pub fn get(&self, i: usize) -> bool {
        self.bytes[i / 8] >> (i % 8) & 1 == 1
    }
    pub fn bools(&self, from: usize, to: usize) -> Vec<bool> {
        (from..to).map(|i| self.get(i)).collect()
    }
}

/// RFC 1951 3.2.2: code values for code lengths.
pub fn canonical(lens: &[u8]) -> Vec<(u32, u8)> {
    let mut count = [0u32; 17];
    for &l in lens {
        count[l as usize] += 1;
    }
    count[0] = 0;
    let mut next = [0u32; 17];
    let mut code = 0;
    for b in 1..=16 {
        code = (code + count[b - 1]) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|&l| {
            if l == 0 {
                (0, 0)
            } else {
                let c = next[l as usize];
                next[l as usize] += 1;
                (c, l)
            }
        })
        .collect()
}

pub fn fixed_lit_lens() -> Vec<u8> {
    let mut v = vec![8u8; 144];
    v.extend([9; 112]);
    v.extend([7; 24]);
    v.extend([8; 8]);
    v
}

/// How a dynamic header writes the code lengths.
#[derive(Clone, Debug)]
pub struct DynSpec {
    pub lit: Vec<u8>,
    pub dist: Vec<u8>,
    /// RLE tokens: (symbol 0..=18, extra value)
    pub tokens: Vec<(u8, u32)>,
    pub cl: [u8; 19],
    pub hclen: usize,
}

pub fn write_dyn_header(b: &mut Bits, s: &DynSpec) {
    b.val(s.lit.len() as u32 - 257, 5);
    b.val(s.dist.len() as u32 - 1, 5);
    b.val(s.hclen as u32 - 4, 4);
    for i in 0..s.hclen {
        b.val(u32::from(s.cl[CL_ORDER[i]]), 3);
    }
    let codes = canonical(&s.cl);
    for &(sym, extra) in &s.tokens {
        b.code(codes[sym as usize]);
        match sym {
            16 => b.val(extra, 2),
            17 => b.val(extra, 3),
            18 => b.val(extra, 7),
            _ => {}
        }
    }
}

pub fn write_codes(b: &mut Bits, lit: &[u8], dist: &[u8], codes: &[RCode], alt258: bool) {
    let lc = canonical(lit);
    let dc = canonical(dist);
    for c in codes {
        match *c {
            RCode::Lit(x) => {
                debug_assert!(lc[x as usize].1 > 0);
                b.code(lc[x as usize]);
            }
            RCode::Ref { dist, len } => {
                let (s, e, n) = if len == 258 && alt258 { (284, 31, 5) } else { length_symbol(len) };
                debug_assert!(lc[s].1 > 0);
                b.code(lc[s]);
                b.val(e, n);
                let (s, e, n) = dist_symbol(dist);
                debug_assert!(dc[s].1 > 0);
                b.code(dc[s]);
                b.val(e, n);
            }
        }
    }
    b.code(lc[256]);
}

pub fn expand(codes: &[RCode], out: &mut Vec<u8>) {
    for c in codes {
        match *c {
            RCode::Lit(b) => out.push(b),
            RCode::Ref { dist, len } => {
                for _ in 0..len {
                    let b = out[out.len() - dist as usize];
                    out.push(b);
                }
            }
        }
    }
}

/// Things a stream contains on which RFC 1951 does not force one answer.
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct Quirks {
    /// length 258 written as symbol 284 with extra bits 31
    pub alt258: bool,
    /// non-zero padding before a stored block's length or after the final block
    pub padding: bool,
    /// HLIT > 286 or HDIST > 30
    pub big_counts: bool,
    /// more than one distance code, all of length zero
    pub empty_dists: bool,
}
impl Quirks {
    pub fn any(&self) -> bool {
        *self != Quirks::default()
    }
    /// quirks the parser may refuse
    pub fn may_reject(&self) -> bool {
        self.any()
    }
}

pub struct RefOut {
    pub blocks: Vec<RBlock>,
    /// content decoded before any error
    pub data: Vec<u8>,
    /// where each block's content ends in data
    pub block_ends: Vec<usize>,
    /// bits consumed after each whole block
    pub block_bits: Vec<usize>,
    pub err: Option<&'static str>,
    pub quirks: Quirks,
    lax: bool,
    pub far: bool,
    /// bytes consumed through the final padding (when err is None)
    pub end: usize,
}

struct Rd<'a> {
    d: &'a [u8],
    p: usize,
}
impl Rd<'_> {
    fn bit(&mut self) -> Result<u32, &'static str> {
        let b = *self.d.get(self.p / 8).ok_or("eof")?;
        let r = b >> (self.p % 8) & 1;
        self.p += 1;
        Ok(u32::from(r))
    }
    fn val(&mut self, n: u32) -> Result<u32, &'static str> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
}

struct Table {
    /// count per length, symbols ordered by (length, symbol)
    count: [u32; 16],
    syms: Vec<u16>,
}
enum Complete {
    Yes,
    Empty,
    OneShort,
    Over,
    Incomplete,
}
impl Table {
    fn new(lens: &[u8]) -> (Table, Complete) {
        let mut count = [0u32; 16];
        for &l in lens {
            if l > 0 {
                count[l as usize] += 1;
            }
        }
        let mut syms = vec![];
        for l in 1..16u8 {
            for (s, &x) in lens.iter().enumerate() {
                if x == l {
                    syms.push(s as u16);
                }
            }
        }
        // Kraft sum in units of 2^-15
        let kraft: u64 = (1..16).map(|l| u64::from(count[l]) << (15 - l)).sum();
        let c = match kraft {
            32768 => Complete::Yes,
            0 => Complete::Empty,
            k if k > 32768 => Complete::Over,
            16384 if count[1] == 1 => Complete::OneShort,
            _ => Complete::Incomplete,
        };
        (Table { count, syms }, c)
    }
    fn decode(&self, r: &mut Rd) -> Result<u16, &'static str> {
        let mut code = 0u32;
        let mut first = 0u32;
        let mut index = 0u32;
        for l in 1..16 {
            code |= r.bit()?;
            let n = self.count[l];
            if code < first + n {
                return Ok(self.syms[(index + (code - first)) as usize]);
            }
            index += n;
            first = (first + n) << 1;
            code <<= 1;
        }
        Err("unassigned code")
    }
}

pub fn decode(d: &[u8]) -> RefOut {
    decode_opts(d, false)
}

/// `lax`: only parse; a distance reaching before the start is kept, and `far` set.
pub fn decode_opts(d: &[u8], lax: bool) -> RefOut {
    let mut o = RefOut {
        lax,
        far: false,
        blocks: vec![],
        data: vec![],
        block_ends: vec![],
        block_bits: vec![],
        err: None,
        quirks: Quirks::default(),
        end: 0,
    };
    let mut r = Rd { d, p: 0 };
    if let Err(e) = decode_inner(&mut r, &mut o) {
        o.err = Some(e);
    } else {
        o.end = r.p.div_ceil(8);
    }
    o
}

fn pad(r: &mut Rd, q: &mut Quirks) -> Result<(), &'static str> {
    while r.p % 8 != 0 {
        if r.bit()? != 0 {
            q.padding = true;
        }
    }
    Ok(())
}

/// (all code lengths, HLIT, whether a count is beyond RFC 1951)
fn read_lens(r: &mut Rd) -> Result<(Vec<u8>, usize, bool), &'static str> {
    let nlit = r.val(5)? as usize + 257;
    let ndist = r.val(5)? as usize + 1;
    let ncl = r.val(4)? as usize + 4;
    let big = nlit > 286 || ndist > 30;
    let mut cl = [0u8; 19];
    for &s in CL_ORDER.iter().take(ncl) {
        cl[s] = r.val(3)? as u8;
    }
    let (ct, c) = Table::new(&cl);
    if !matches!(c, Complete::Yes) {
        return Err("code length code");
    }
    let mut lens: Vec<u8> = vec![];
    while lens.len() < nlit + ndist {
        let s = ct.decode(r)?;
        let (v, n) = match s {
            0..=15 => (s as u8, 1),
            16 => {
                let Some(&p) = lens.last() else { return Err("repeat of nothing") };
                (p, 3 + r.val(2)?)
            }
            17 => (0, 3 + r.val(3)?),
            _ => (0, 11 + r.val(7)?),
        };
        for _ in 0..n {
            lens.push(v);
        }
        if lens.len() > nlit + ndist {
            return Err("repeat past the end");
        }
    }
    Ok((lens, nlit, big))
}

/// Code lengths written by a dynamic header.
pub fn header_lens(header: &[bool]) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut b = Bits::default();
    for &x in header {
        b.bit(x);
    }
    let mut r = Rd { d: &b.bytes, p: 0 };
    let (lens, nlit, _) = read_lens(&mut r).ok()?;
    if r.p != header.len() {
        return None;
    }
    Some((lens[..nlit].to_vec(), lens[nlit..].to_vec()))
}

pub enum Tables {
    /// malformed, or cut short
    Bad(&'static str),
    /// RFC 1951 is silent, or more bits follow the tables
    Unspecified,
    Good(Vec<u8>, Vec<u8>),
}

/// What the table bits of a dynamic block denote.
pub fn tables(header: &[bool]) -> Tables {
    let mut b = Bits::default();
    for &x in header {
        b.bit(x);
    }
    let mut r = Rd { d: &b.bytes, p: 0 };
    let (lens, nlit, big) = match read_lens(&mut r) {
        Ok(x) => x,
        Err(e) => return Tables::Bad(e),
    };
    if r.p > header.len() {
        return Tables::Bad("cut short");
    }
    if r.p < header.len() {
        return Tables::Bad("more bits than tables");
    }
    if big {
        return Tables::Unspecified;
    }
    let (lit, dist) = lens.split_at(nlit);
    match (Table::new(lit).1, Table::new(dist).1) {
        (Complete::Over, _) | (_, Complete::Over) => Tables::Bad("oversubscribed"),
        (Complete::Empty | Complete::OneShort, _) => Tables::Unspecified,
        (Complete::Incomplete, _) | (_, Complete::Incomplete) => Tables::Bad("incomplete"),
        (_, Complete::Empty) if dist.len() > 1 => Tables::Unspecified,
        _ => Tables::Good(lit.to_vec(), dist.to_vec()),
    }
}

/// Canonical writing of blocks (length 258 as symbol 285). None: a code has no symbol in its table.
pub fn encode(blocks: &[RBlock]) -> Option<Vec<u8>> {
    let mut b = Bits::default();
    for (i, bl) in blocks.iter().enumerate() {
        b.bit(i + 1 == blocks.len());
        let (lit, dist, codes) = match bl {
            RBlock::Stored(d) => {
                b.val(0, 2);
                b.align();
                b.val(d.len() as u32, 16);
                b.val(d.len() as u32 ^ 0xffff, 16);
                for &x in d {
                    b.byte(x);
                }
                continue;
            }
            RBlock::Fixed(c) => {
                b.val(1, 2);
                (fixed_lit_lens(), vec![5; 32], c)
            }
            RBlock::Dynamic(h, c) => {
                b.val(2, 2);
                for &x in h {
                    b.bit(x);
                }
                let (l, d) = header_lens(h)?;
                (l, d, c)
            }
        };
        let ok = |l: &[u8], s: usize| l.get(s).copied().unwrap_or(0) > 0;
        if !ok(&lit, 256) {
            return None;
        }
        for c in codes {
            let fine = match *c {
                RCode::Lit(x) => ok(&lit, x as usize),
                RCode::Ref { dist: d, len } => ok(&lit, length_symbol(len).0) && ok(&dist, dist_symbol(d).0),
            };
            if !fine {
                return None;
            }
        }
        write_codes(&mut b, &lit, &dist, codes, false);
    }
    b.align();
    Some(b.bytes)
}

fn decode_inner(r: &mut Rd, o: &mut RefOut) -> Result<(), &'static str> {
    loop {
        let last = r.bit()? == 1;
        match r.val(2)? {
            0 => {
                pad(r, &mut o.quirks)?;
                let len = r.val(16)?;
                let nlen = r.val(16)?;
                if len ^ 0xffff != nlen {
                    return Err("nlen");
                }
                let p = r.p / 8;
                let have = r.d.len() - p;
                if have < len as usize {
                    o.data.extend(&r.d[p..]);
                    return Err("eof");
                }
                let chunk = &r.d[p..p + len as usize];
                o.data.extend(chunk);
                r.p += 8 * len as usize;
                o.blocks.push(RBlock::Stored(chunk.to_vec()));
            }
            1 => {
                let (lt, _) = Table::new(&fixed_lit_lens());
                let (dt, _) = Table::new(&[5; 32]);
                let codes = decode_codes(r, o, &lt, Some(&dt))?;
                o.blocks.push(RBlock::Fixed(codes));
            }
            2 => {
                let start = r.p;
                let (lens, nlit, big) = read_lens(r)?;
                if big {
                    o.quirks.big_counts = true;
                }
                let header: Vec<bool> = (start..r.p).map(|i| r.d[i / 8] >> (i % 8) & 1 == 1).collect();
                let (lt, c) = Table::new(&lens[..nlit]);
                if !matches!(c, Complete::Yes) {
                    return Err("literal code");
                }
                let dl = &lens[nlit..];
                let (dt, c) = Table::new(dl);
                let dt = match c {
                    Complete::Yes | Complete::OneShort => Some(dt),
                    Complete::Empty => {
                        if dl.len() > 1 {
                            o.quirks.empty_dists = true;
                        }
                        None
                    }
                    _ => return Err("distance code"),
                };
                if lens[256] == 0 {
                    return Err("no end of block code");
                }
                let codes = decode_codes(r, o, &lt, dt.as_ref())?;
                o.blocks.push(RBlock::Dynamic(header, codes));
            }
            _ => return Err("block type"),
        }
        o.block_ends.push(o.data.len());
        o.block_bits.push(r.p);
        if last {
            break;
        }
    }
    pad(r, &mut o.quirks)
}

fn decode_codes(r: &mut Rd, o: &mut RefOut, lt: &Table, dt: Option<&Table>) -> Result<Vec<RCode>, &'static str> {
    let mut codes = vec![];
    loop {
        let s = lt.decode(r)? as usize;
        if s < 256 {
            codes.push(RCode::Lit(s as u8));
            o.data.push(s as u8);
            continue;
        }
        if s == 256 {
            return Ok(codes);
        }
        if s > 285 {
            return Err("length symbol");
        }
        let (base, n) = LENGTHS[s - 257];
        let e = r.val(n)?;
        if s == 284 && e == 31 {
            o.quirks.alt258 = true;
        }
        let len = base + e;
        let Some(dt) = dt else { return Err("no distance code") };
        let s = dt.decode(r)? as usize;
        if s > 29 {
            return Err("distance symbol");
        }
        let (base, n) = DISTS[s];
        let dist = base + r.val(n)?;
        if dist as usize > o.data.len() {
            if !o.lax {
                return Err("distance too far");
            }
            o.far = true;
            codes.push(RCode::Ref { dist, len });
            o.data.resize(o.data.len() + len as usize, 0);
            continue;
        }
        codes.push(RCode::Ref { dist, len });
        expand(&codes[codes.len() - 1..], &mut o.data);
    }
}

/// CRC-32 (ISO-HDLC), bitwise table.
pub fn crc32(d: &[u8]) -> u32 {
    !crc32_step(!0, d)
}

pub fn crc32_step(c: u32, d: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = c;
    for &b in d {
        c = t[((c ^ u32::from(b)) & 0xff) as usize] ^ (c >> 8);
    }
    c
}
