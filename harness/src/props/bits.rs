//! C12: bit vectors, bit writer, bit reader.

use crate::engine::*;
use crate::gen_;
use crate::lz;
use crate::refdeflate::Bits;
use crate::{ensure_p, viol};
use librezip::verif::{BitReader, BitVec, BitWriter};

pub struct C12;

fn from_bits(b: &[bool]) -> BitVec {
    let mut v = BitVec::new();
    for &x in b {
        v.push(x);
    }
    v
}

fn vec_check(v: &BitVec, m: &[bool]) -> Res {
    ensure_p!(v.len() == m.len(), "len {} , {} expected", v.len(), m.len());
    ensure_p!(v.is_empty() == m.is_empty(), "is_empty");
    for (i, &b) in m.iter().enumerate() {
        ensure_p!(v.get(i) == b, "bit {i} of {}", m.len());
    }
    let it: Vec<bool> = v.iter().collect();
    ensure_p!(it == m, "iteration {}", lz::diff(&it, m));
    let fresh = from_bits(m);
    ensure_p!(*v == fresh, "not equal to a fresh vector of the same {} bits", m.len());
    ensure_p!(v.clone() == fresh, "clone not equal");
    let text: String = m.iter().map(|&b| if b { '1' } else { '0' }).collect();
    ensure_p!(format!("{v:?}") == format!("BitVec: {}: {text}", m.len()), "text {v:?}");
    if !m.is_empty() {
        let mut other = m.to_vec();
        let k = m.len() / 2;
        other[k] = !other[k];
        ensure_p!(*v != from_bits(&other), "equal although bit {k} differs");
        ensure_p!(*v != from_bits(&m[..m.len() - 1]), "equal although shorter");
    }
    Ok(())
}

fn history(src: &mut Src, obs: &mut Obs) -> Res {
    let mut m: Vec<bool> = vec![];
    let mut v = if src.chance(1, 4) {
        let n = src.below(5);
        let b: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
        m = (0..n * 8).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect();
        BitVec::from_slice(&b)
    } else {
        BitVec::new()
    };
    vec_check(&v, &m)?;
    let mut log = String::new();
    let (mut pushed_after_pop, mut popped, mut bytes) = (false, false, false);
    let push_w = src.pick(&[4u32, 8, 2]);
    for _ in 0..src.range(1, 60) {
        match src.weighted(&[push_w, 3, 1, 1]) {
            0 => {
                let b = src.bool();
                v.push(b);
                m.push(b);
                pushed_after_pop |= popped;
                log.push(if b { '1' } else { '0' });
            }
            1 => {
                let got = v.pop();
                let want = m.pop();
                ensure_p!(got == want, "pop gives {got:?}, {want:?} expected, after {log}");
                popped = true;
                log.push('p');
            }
            2 => {
                let got = v.pop_byte();
                let want = if m.len() < 8 {
                    None
                } else {
                    let t = m.split_off(m.len() - 8);
                    Some(t.iter().enumerate().map(|(i, &b)| u8::from(b) << i).sum::<u8>())
                };
                ensure_p!(got == want, "pop_byte gives {got:?}, {want:?} expected, after {log}");
                popped |= got.is_some();
                bytes |= got.is_some();
                log.push('B');
            }
            _ => {
                let x = src.u32();
                for i in 0..src.range(1, 20) {
                    v.push(x >> i & 1 == 1);
                    m.push(x >> i & 1 == 1);
                    log.push(if x >> i & 1 == 1 { '1' } else { '0' });
                }
                pushed_after_pop |= popped;
            }
        }
        vec_check(&v, &m).map_err(|e| match e {
            Fail::Violation(x) => Fail::Violation(format!("{x}, after {log}")),
            e => e,
        })?;
    }
    obs.fp(log.as_bytes());
    obs.nontrivial = pushed_after_pop;
    obs.class("bit vector history");
    obs.class_if(pushed_after_pop, "push after pop");
    obs.class_if(bytes, "byte popped");
    obs.describe(|| format!("bit vector: {log}"));
    Ok(())
}

enum Op {
    Bit(bool),
    Val(u8, u16),
    Vec(Vec<bool>),
    Align,
    Run(Vec<u8>),
}

fn script_check(ops: &[Op]) -> Result<Vec<u8>, Fail> {
    let mut w = BitWriter::new(Vec::new());
    let mut want = Bits::default();
    for (i, o) in ops.iter().enumerate() {
        let r = match o {
            Op::Bit(b) => {
                want.bit(*b);
                w.write_bit(*b)
            }
            Op::Val(n, v) => {
                want.val(u32::from(*v), u32::from(*n));
                w.write_bits_val(*n, *v)
            }
            Op::Vec(v) => {
                for &b in v {
                    want.bit(b);
                }
                w.write_vec(&from_bits(v))
            }
            Op::Align => {
                want.align();
                w.align()
            }
            Op::Run(d) => {
                want.align();
                want.val(d.len() as u32, 16);
                want.val(d.len() as u32 ^ 0xffff, 16);
                for &b in d {
                    want.byte(b);
                }
                w.write_length_prefixed(d)
            }
        };
        if let Err(e) = r {
            viol!("write {i} failed: {e}");
        }
    }
    want.align();
    if let Err(e) = w.align() {
        viol!("final align failed: {e}");
    }
    let bytes = w.into_inner();
    ensure_p!(bytes == want.bytes, "bytes written {}", lz::diff(&bytes, &want.bytes));
    let mut rd = std::io::Cursor::new(&bytes[..]);
    {
        let mut r = BitReader::new(&mut rd);
        let fail = |i: usize, e: String| Fail::Violation(format!("read {i} failed: {e}"));
        for (i, o) in ops.iter().enumerate() {
            match o {
                Op::Bit(b) => {
                    let g = r.read_bit().map_err(|e| fail(i, e.to_string()))?;
                    ensure_p!(g == *b, "read {i}: bit");
                }
                Op::Val(n, v) => {
                    let g = r.read_part(*n).map_err(|e| fail(i, e.to_string()))?;
                    ensure_p!(g == *v, "read {i}: {n}-bit value {g}, {v} expected");
                }
                Op::Vec(v) => {
                    for b in v {
                        let g = r.read_bit().map_err(|e| fail(i, e.to_string()))?;
                        ensure_p!(g == *b, "read {i}: bit of a vector");
                    }
                }
                Op::Align => r.align().map_err(|e| fail(i, e.to_string()))?,
                Op::Run(d) => {
                    r.align().map_err(|e| fail(i, e.to_string()))?;
                    let g = r.read_length_prefixed().map_err(|e| fail(i, e.to_string()))?;
                    ensure_p!(g == *d, "read {i}: run of {} bytes {}", d.len(), lz::diff(&g, d));
                }
            }
        }
        r.align().map_err(|e| fail(ops.len(), e.to_string()))?;
        ensure_p!(r.read_bit().is_err(), "a bit after the end");
    }
    ensure_p!(rd.position() as usize == bytes.len(), "reader at {} of {}", rd.position(), bytes.len());
    Ok(bytes)
}

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Histories of push/pop/pop_byte on a bit vector against a list of bits, fully compared after every step; and scripts \
         of bits, 0-16 bit values, vectors, alignments and length-prefixed runs (0-65535 bytes) written, compared with an \
         independent bit writer, and read back. Non-trivial: a push after a pop; or a script mixing unaligned values with an \
         alignment or a run."
    }
    fn max_choices(&self) -> usize {
        200
    }
    fn cases(&self) -> (u32, u32) {
        (1_000_000, 15_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..8).map(|a| format!("values {a}")).collect();
        for n in [0usize, 1, 255, 256, 257, 511, 513, 4095, 32767, 32768, 65279, 65280, 65534, 65535] {
            v.push(format!("run {n}"));
        }
        v.push("pushes pops".into());
        for n in [255usize, 256, 257, 2047, 2048, 65535, 65536, 65537, 70003, 524289] {
            v.push(format!("big {n}"));
        }
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let k: usize = name.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        if name.starts_with("values") {
            for n in 0..=16u8 {
                let top = 1u32 << n;
                for v in 0..top.min(4096) {
                    let v = if n > 12 { (v * 16 + v % 16) & (top - 1) } else { v } as u16;
                    script_check(&[Op::Val(k as u8, (1u16 << k) - 1), Op::Val(n, v), Op::Bit(true), Op::Val(n, v)])?;
                    obs.extra_evals += 1;
                }
                script_check(&[Op::Val(k as u8, 0), Op::Val(n, (top - 1) as u16), Op::Align, Op::Val(n, (top - 1) as u16)])?;
            }
            Ok(())
        } else if name.starts_with("big") {
            // a long vector, taken apart from the end by bits and bytes, and written
            let m: Vec<bool> = (0..k).map(|i| (i * i / 3 + i / 7) % 2 == 1).collect();
            let mut v = from_bits(&m);
            vec_check(&v, &m)?;
            script_check(&[Op::Bit(true), Op::Vec(m.clone()), Op::Bit(true), Op::Vec(m.clone()), Op::Align, Op::Bit(true)])?;
            let vals: Vec<Op> = (0..k / 8).map(|i| Op::Val((i % 17) as u8, (i as u16) & ((1u32 << (i % 17)) - 1) as u16)).collect();
            script_check(&vals)?;
            let mut rest = m.len();
            for step in 0.. {
                if rest < 8 {
                    break;
                }
                if step % 3 == 0 {
                    ensure_p!(v.pop() == Some(m[rest - 1]), "pop at {rest}");
                    rest -= 1;
                } else {
                    let want = (0..8).map(|i| u8::from(m[rest - 8 + i]) << i).sum::<u8>();
                    ensure_p!(v.pop_byte() == Some(want), "pop_byte at {rest}");
                    rest -= 8;
                }
            }
            vec_check(&v, &m[..rest])
        } else if name.starts_with("run") {
            for a in 0..8u8 {
                let d: Vec<u8> = (0..k).map(|i| (i * 31 % 251) as u8).collect();
                script_check(&[Op::Val(a, (1 << a) - 1), Op::Run(d.clone()), Op::Bit(true), Op::Run(d)])?;
                obs.extra_evals += 1;
            }
            Ok(())
        } else {
            // exhaustive: every push/pop history of up to 13 steps (2 pushes, pop)
            for code in 0..3usize.pow(11) {
                let mut c = code;
                let mut v = BitVec::new();
                let mut m: Vec<bool> = vec![];
                // start at a byte edge
                for i in 0..6 {
                    v.push(i % 2 == 0);
                    m.push(i % 2 == 0);
                }
                for _ in 0..11 {
                    match c % 3 {
                        0 => {
                            ensure_p!(v.pop() == m.pop(), "pop");
                        }
                        x => {
                            v.push(x == 1);
                            m.push(x == 1);
                        }
                    }
                    c /= 3;
                }
                ensure_p!(v == from_bits(&m) && v.iter().eq(m.iter().copied()), "history {code}: {v:?}");
            }
            obs.extra_evals = 3u64.pow(11);
            Ok(())
        }
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        if src.bool() {
            return history(src, obs);
        }
        let mut ops = vec![];
        let (mut vals, mut edges) = (false, false);
        for _ in 0..src.range(1, 30) {
            ops.push(match src.weighted(&[3, 4, 2, 2, 2]) {
                0 => Op::Bit(src.bool()),
                1 => {
                    let n = src.range(0, 16) as u8;
                    vals = true;
                    Op::Val(n, (src.u32() & ((1u32 << n) - 1)) as u16)
                }
                2 => {
                    let n = src.range(0, 20);
                    let x = src.u32();
                    Op::Vec((0..n).map(|i| x >> i & 1 == 1).collect())
                }
                3 => {
                    edges = true;
                    Op::Align
                }
                _ => {
                    edges = true;
                    let n = match src.weighted(&[3, 3, 1]) {
                        0 => src.range(0, 9),
                        1 => src.range(0, 700),
                        _ => src.pick(&[0usize, 256, 512, 4096]),
                    };
                    Op::Run(gen_::data_len(src, n))
                }
            });
        }
        let b = script_check(&ops)?;
        obs.fp(&b);
        obs.nontrivial = vals && edges;
        obs.class("write/read script");
        obs.describe(|| format!("script of {} writes: {}", ops.len(), lz::hex(&b)));
        Ok(())
    }
}
