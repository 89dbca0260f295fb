#![allow(dead_code, unused)]
use librezip::all_refs::AllRefs;
use librezip::verif::{make_ref, BitReader, BitVec, BitWriter, Lookahead, Picker};
use librezip::*;
use std::io::{self, Cursor, ErrorKind, Read, Write};

/// Bits, least significant first.
#[derive(Default)]
struct Bits {
    bytes: Vec<u8>,
    n: usize,
}
impl Bits {
    fn bit(&mut self, b: bool) {
        if self.n % 8 == 0 {
            self.bytes.push(0);
        }
        if b {
            *self.bytes.last_mut().unwrap() |= 1 << (self.n % 8);
        }
        self.n += 1;
    }
    fn put(&mut self, n: u32, v: u32) {
        for i in 0..n {
            self.bit(v >> i & 1 == 1);
        }
    }
    /// A Huffman code, most significant bit first.
    fn huff(&mut self, (len, code): (u32, u32)) {
        for i in (0..len).rev() {
            self.bit(code >> i & 1 == 1);
        }
    }
    fn align(&mut self) {
        while self.n % 8 != 0 {
            self.bit(false);
        }
    }
    fn stored(&mut self, last: bool, data: &[u8]) {
        self.bit(last);
        self.put(2, 0);
        self.align();
        self.put(16, data.len() as u32);
        self.put(16, !(data.len() as u32) & 0xffff);
        self.bytes.extend(data);
        self.n += 8 * data.len();
    }
    fn codes(&mut self, lit: &[u8], dist: &[u8], codes: &[Code]) {
        let (l, d) = (canonical(lit), canonical(dist));
        for c in codes {
            match *c {
                Code::Literal(b) => self.huff(l[b as usize]),
                Code::Reference(r) => {
                    let (s, eb, ev) = lsym(r.run());
                    self.huff(l[s]);
                    self.put(eb, ev);
                    let (s, eb, ev) = dsym(r.dist);
                    self.huff(d[s]);
                    self.put(eb, ev);
                }
            }
        }
        self.huff(l[256]);
    }
    fn fixed(&mut self, last: bool, codes: &[Code]) {
        self.bit(last);
        self.put(2, 1);
        self.codes(&fixed_lens(), &[5; 32], codes);
    }
    /// Every code length written out, in a 4-bit code.
    fn dynamic_head(&mut self, last: bool, lit: &[u8], dist: &[u8]) {
        self.bit(last);
        self.put(2, 2);
        self.put(5, lit.len() as u32 - 257);
        self.put(5, dist.len() as u32 - 1);
        self.put(4, 15);
        for s in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] {
            self.put(3, if s < 16 { 4 } else { 0 });
        }
        for &x in lit.iter().chain(dist) {
            self.huff((4, x as u32));
        }
    }
    fn dynamic(&mut self, last: bool, lit: &[u8], dist: &[u8], codes: &[Code]) {
        self.dynamic_head(last, lit, dist);
        self.codes(lit, dist, codes);
    }
}
fn fixed_lens() -> Vec<u8> {
    (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect()
}
fn canonical(lens: &[u8]) -> Vec<(u32, u32)> {
    let mut out = vec![(0, 0); lens.len()];
    let mut code = 0;
    for l in 1..16u8 {
        for (i, &x) in lens.iter().enumerate() {
            if x == l {
                out[i] = (l as u32, code);
                code += 1;
            }
        }
        code <<= 1;
    }
    out
}
fn lsym(run: u16) -> (usize, u32, u32) {
    if run == 258 {
        return (285, 0, 0);
    }
    let mut base = 3;
    for s in 257..285usize {
        let eb = if s < 265 { 0 } else { (s as u32 - 261) / 4 };
        if (run as u32) < base + (1 << eb) {
            return (s, eb, run as u32 - base);
        }
        base += 1 << eb;
    }
    unreachable!()
}
fn dsym(dist: u16) -> (usize, u32, u32) {
    let mut base = 1;
    for s in 0..30usize {
        let eb = if s < 4 { 0 } else { s as u32 / 2 - 1 };
        if (dist as u32) < base + (1 << eb) {
            return (s, eb, dist as u32 - base);
        }
        base += 1 << eb;
    }
    unreachable!()
}
fn l(b: u8) -> Code {
    Code::Literal(b)
}
fn r(dist: u16, run: u16) -> Code {
    Code::Reference(make_ref(dist, run))
}
fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s >> 11
}
fn parse(raw: &[u8]) -> Result<(Vec<Block>, usize), String> {
    let mut c = Cursor::new(raw);
    let mut v = vec![];
    for b in parse_deflate(&mut c) {
        v.push(b.map_err(|e| format!("{:?}", e))?);
    }
    Ok((v, c.position() as usize))
}
fn expand(blocks: &[Block]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    let mut dict = CircularBuffer::with_capacity(32768);
    for b in blocks {
        decompressed_block(&mut out, &mut dict, b).map_err(|e| format!("{:?}", e))?;
    }
    Ok(out)
}
fn reencode(blocks: &[Block]) -> Result<Vec<u8>, String> {
    let mut w = BitWriter::new(vec![]);
    for (i, b) in blocks.iter().enumerate() {
        w.write_bit(i + 1 == blocks.len()).unwrap();
        compressed_block(&mut w, b).map_err(|e| format!("{:?}", e))?;
    }
    w.align().unwrap();
    Ok(w.into_inner())
}
/// What the codes mean, byte by byte.
fn meaning(pre: &[u8], codes: &[Code]) -> Vec<u8> {
    let mut v = pre.to_vec();
    for c in codes {
        match *c {
            Code::Literal(b) => v.push(b),
            Code::Reference(r) => {
                for _ in 0..r.run() {
                    v.push(v[v.len() - r.dist as usize]);
                }
            }
        }
    }
    v.split_off(pre.len())
}
