//! C09: the gzip header reader.

use crate::engine::*;
use crate::gen_;
use crate::lz;
use crate::props::streams::Counting;
use crate::{ensure_p, viol};

/// Length of the well-formed header the bytes start with.
pub fn header_len(f: &[u8]) -> Option<usize> {
    if f.len() < 10 || f[0] != 0x1f || f[1] != 0x8b || f[2] != 8 || f[3] & 0xe0 != 0 {
        return None;
    }
    let fl = f[3];
    let mut p = 10;
    if fl & 4 != 0 {
        let n = u16::from_le_bytes([*f.get(p)?, *f.get(p + 1)?]) as usize;
        p += 2 + n;
        if p > f.len() {
            return None;
        }
    }
    for bit in [8, 16] {
        if fl & bit != 0 {
            p += f[p..].iter().position(|&b| b == 0)? + 1;
        }
    }
    if fl & 2 != 0 {
        p += 2;
    }
    (p <= f.len()).then_some(p)
}

/// Whether a header of n bytes carries a header CRC that does not match (RFC 1952 lets a reader refuse it).
pub fn bad_crc(f: &[u8], n: usize) -> bool {
    f[3] & 2 != 0 && f[n - 2..n] != (crate::refdeflate::crc32(&f[..n - 2]) as u16).to_le_bytes()
}

fn check(f: &[u8], step: usize) -> Res {
    let rd = Counting::new(f, step);
    let got = match guard(|| librezip::gzip::discard_header(rd.clone())) {
        Ok(g) => g,
        Err(p) => viol!("panicked: {p} on {}", lz::hex(f)),
    };
    match (got, header_len(f)) {
        (Ok(g), Some(n)) => {
            ensure_p!(g == f[..n], "header returned differs {} for {}", lz::diff(&g, &f[..n]), lz::hex(f));
            ensure_p!(rd.pos.get() == n, "reader at {} after a header of {n} bytes: {}", rd.pos.get(), lz::hex(f));
        }
        (Ok(g), None) => viol!("malformed header accepted ({} bytes): {}", g.len(), lz::hex(f)),
        (Err(_), Some(n)) if bad_crc(f, n) => {}
        (Err(e), Some(n)) => viol!("well-formed header of {n} bytes refused: {e}: {}", lz::hex(f)),
        (Err(_), None) => {}
    }
    Ok(())
}

pub struct C09;
impl Prop for C09 {
    fn run_raw(&self, bytes: &[u8], _obs: &mut Obs) -> Option<Res> {
        Some(check(bytes, 1))
    }
    fn raw_seed(&self, src: &mut Src) -> Vec<u8> {
        gen_::gz_header(src)
    }
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "Headers from a field model (all 32 flag sets, extra field 0-65535 bytes, names and comments, correct header CRC), \
         followed by arbitrary bytes; and the same cut at any point or with any byte changed. Directed: all values of the \
         magic, method and flag bytes, every cut of one header per flag set. Non-trivial: some optional field present, or \
         damaged."
    }
    fn max_choices(&self) -> usize {
        120
    }
    fn cases(&self) -> (u32, u32) {
        (1_200_000, 20_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec!["first four bytes".to_string()];
        v.extend((0..32).map(|f| format!("cuts {f}")));
        v.extend((0..32).map(|f| format!("lengths {f}")));
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        if name == "first four bytes" {
            for i in 0..4 {
                for v in 0..=255u8 {
                    let mut h = vec![0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 5, 6, 2, 0, 65, 66, 67, 0, 68, 0, 1, 2, 3, 4];
                    h[i] = v;
                    check(&h, 1)?;
                    h.truncate(10);
                    check(&h, 1)?;
                }
            }
            obs.extra_evals = 2048;
            return Ok(());
        }
        let fl: u8 = name.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or(Fail::Harness("name".into()))?;
        let build = |extra: usize, nm: usize, com: usize| {
            let mut h = vec![0x1f, 0x8b, 8, fl, 9, 0, 255, 7, 2, 3];
            if fl & 4 != 0 {
                h.extend((extra as u16).to_le_bytes());
                h.extend((0..extra).map(|i| (i * 7 % 5) as u8));
            }
            if fl & 8 != 0 {
                h.extend((0..nm).map(|i| 1 + (i % 255) as u8));
                h.push(0);
            }
            if fl & 16 != 0 {
                h.extend((0..com).map(|i| 255 - (i % 255) as u8));
                h.push(0);
            }
            if fl & 2 != 0 {
                let c = crate::refdeflate::crc32(&h) as u16;
                h.extend(c.to_le_bytes());
            }
            h
        };
        if name.starts_with("cuts") {
            let h = build(6, 5, 4);
            for i in 0..=h.len() {
                check(&h[..i], 1)?;
            }
            obs.extra_evals = h.len() as u64;
        } else {
            for e in [0usize, 1, 255, 256, 257, 32768, 65535] {
                for nm in [0usize, 1, 255, 256, 1000] {
                    let mut h = build(e, nm, 1000 - nm);
                    check(&h, usize::MAX)?;
                    h.extend([0, 1, 2]);
                    check(&h, 1)?;
                    obs.extra_evals += 2;
                }
            }
            for n in [4095usize, 4096, 32767, 32768, 65535, 65536, 131_072, 300_000, 1_100_000, 5_000_000] {
                check(&build(n.min(65535), n, 0), usize::MAX)?;
                check(&build(0, 0, n), usize::MAX)?;
                obs.extra_evals += 2;
            }
        }
        Ok(())
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let mut h = gen_::gz_header(src);
        let n = h.len();
        if h[3] != 0 {
            obs.nontrivial = true;
        }
        obs.class_if(h[3] & 4 != 0, "extra field");
        obs.class_if(h[3] & 2 != 0, "header CRC");
        obs.class_if(h[3] & 24 == 24, "name and comment");
        for _ in 0..src.pick(&[0usize, 1, 20]) {
            h.push(src.below(256) as u8);
        }
        match src.weighted(&[4, 2, 2]) {
            0 => obs.class("well-formed"),
            1 => {
                let i = if src.bool() { src.below(n) } else { n - 1 - src.below(n.min(4)) };
                h.truncate(i);
                obs.nontrivial = true;
                obs.class("cut");
            }
            _ => {
                let i = if src.bool() { src.below(4) } else { src.below(n) };
                h[i] ^= 1 << src.below(8);
                // the CRC16 must stay right for a header that is still well-formed to be required to be accepted
                if h[3] & 2 != 0 {
                    if let Some(m) = header_len(&h) {
                        let c = crate::refdeflate::crc32(&h[..m - 2]) as u16;
                        h[m - 2..m].copy_from_slice(&c.to_le_bytes());
                    }
                }
                obs.nontrivial = true;
                obs.class("changed");
                obs.class_if(header_len(&h).is_none(), "malformed");
            }
        }
        obs.fp(&h);
        obs.describe(|| lz::hex(&h));
        check(&h, src.pick(&[1usize, 2, usize::MAX]))
    }
}
