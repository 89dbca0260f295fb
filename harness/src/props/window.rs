//! C11: CircularBuffer against a list.

use crate::engine::*;
use crate::gen_;
use crate::lz;
use crate::{ensure_p, viol};
use librezip::CircularBuffer;

struct Pair {
    real: CircularBuffer,
    /// all bytes ever written
    all: Vec<u8>,
    cap: usize,
}

impl Pair {
    fn new(cap: usize) -> Pair {
        Pair { real: CircularBuffer::with_capacity(cap as u16), all: vec![], cap }
    }
    fn len(&self) -> usize {
        self.all.len().min(self.cap)
    }
    fn last(&self) -> &[u8] {
        &self.all[self.all.len() - self.len()..]
    }
    fn push(&mut self, b: u8) {
        self.real.push(b);
        self.all.push(b);
    }
    fn extend(&mut self, d: &[u8]) {
        self.real.extend(d);
        self.all.extend(d);
    }
    fn copy(&mut self, dist: usize, n: usize) -> Res {
        let mut out = vec![];
        let r = match guard(|| self.real.copy(dist as u16, n as u16, &mut out)) {
            Ok(r) => r,
            Err(p) => viol!("copy({dist}, {n}) with {} of {} bytes panicked: {p}", self.len(), self.cap),
        };
        if dist == 0 || dist > self.len() {
            ensure_p!(r.is_err(), "copy({dist}, {n}) with {} bytes held succeeded", self.len());
            ensure_p!(out.is_empty(), "a refused copy({dist}, {n}) output {} bytes", out.len());
            return Ok(());
        }
        if let Err(e) = r {
            viol!("copy({dist}, {n}) with {} bytes held failed: {e}", self.len());
        }
        let from = self.all.len();
        for _ in 0..n {
            let b = self.all[self.all.len() - dist];
            self.all.push(b);
        }
        ensure_p!(out == self.all[from..], "copy({dist}, {n}) output {}", lz::diff(&out, &self.all[from..]));
        Ok(())
    }
    fn check_small(&self, ds: &[usize]) -> Res {
        ensure_p!(usize::from(self.real.len()) == self.len(), "len {} , {} expected", self.real.len(), self.len());
        ensure_p!(usize::from(self.real.capacity()) == self.cap, "capacity {}", self.real.capacity());
        for &d in ds {
            if d >= 1 && d <= self.len() {
                let g = match guard(|| self.real.get_at_dist(d as u16)) {
                    Ok(g) => g,
                    Err(p) => viol!("get_at_dist({d}) with {} bytes panicked: {p}", self.len()),
                };
                ensure_p!(g == self.all[self.all.len() - d], "get_at_dist({d}) is {g}, {} expected", self.all[self.all.len() - d]);
            }
        }
        Ok(())
    }
    fn check_full(&self) -> Res {
        self.check_small(&[1, self.len()])?;
        let v = match guard(|| self.real.vec()) {
            Ok(v) => v,
            Err(p) => viol!("vec with {} of {} bytes panicked: {p}", self.len(), self.cap),
        };
        ensure_p!(v == self.last(), "contents {}", lz::diff(&v, self.last()));
        Ok(())
    }
}

pub struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "A capacity (1-65535) and a history of push, extend, copy (valid and invalid distances, lengths beyond the capacity) \
         against a list of everything written, compared after every step. Non-trivial: the buffer wrapped and a copy \
         succeeded."
    }
    fn max_choices(&self) -> usize {
        240
    }
    fn cases(&self) -> (u32, u32) {
        (1_000_000, 12_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> = (1..=12).map(|c| format!("small {c}")).collect();
        for c in [255usize, 256, 257, 32767, 32768, 32769, 65534, 65535] {
            v.push(format!("boundary {c}"));
        }
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let cap: usize = name.split(' ').nth(1).unwrap().parse().unwrap();
        if name.starts_with("small") {
            // every fill level before, every copy after
            for fill in 0..=2 * cap + 1 {
                for d in 0..=cap + 2 {
                    for n in 0..=2 * cap + 1 {
                        let mut p = Pair::new(cap);
                        for i in 0..fill {
                            p.push(i as u8 + 1);
                        }
                        p.copy(d, n)?;
                        p.check_full()?;
                        p.push(200);
                        p.check_full()?;
                        obs.extra_evals += 1;
                    }
                }
            }
            return Ok(());
        }
        for fill in [cap - 1, cap, cap + 1, 2 * cap - 1, 2 * cap + 1] {
            let mut s = Src::Prng(fill as u64);
            let d: Vec<u8> = (0..fill).map(|_| s.below(256) as u8).collect();
            let mut p = Pair::new(cap);
            p.extend(&d);
            p.check_full()?;
            for (dist, n) in [(cap, 258), (cap - 1, 258), (1, 300), (cap, 0), (2, cap.min(65535)), (cap, 65535), (0, 3)] {
                p.copy(dist, n)?;
                p.check_full()?;
                obs.extra_evals += 1;
            }
            if cap < 65535 {
                p.copy(cap + 1, 3)?;
                p.check_full()?;
            }
        }
        Ok(())
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let cap = match src.weighted(&[5, 5, 3, 2]) {
            0 => src.range(1, 8),
            1 => src.range(1, 300),
            2 => src.range(1, 3000),
            _ => src.pick(&[32768usize, 32767, 65535, 65534, 4096, 256]),
        };
        let mut p = Pair::new(cap);
        let steps = src.range(1, 40);
        let mut copied = false;
        let mut wrapped_copy = false;
        let mut log = String::new();
        let big = cap > 3000;
        let mut bulk_left = 6;
        for _ in 0..steps {
            match src.weighted(&[3, 3, 5]) {
                0 => {
                    let b = src.below(256) as u8;
                    p.push(b);
                    if obs.want_desc {
                        log.push_str(&format!(" push({b})"));
                    }
                }
                1 => {
                    let n = if big && bulk_left > 0 && src.bool() {
                        bulk_left -= 1;
                        src.pick(&[cap, cap - 1, cap / 2, cap + 1, 258])
                    } else {
                        match src.below(4) {
                            0 => src.range(0, 10),
                            1 => src.range(0, 2 * cap.min(500)),
                            2 => cap.min(3000),
                            _ => cap.min(3000) - 1,
                        }
                    };
                    let mut b = src.bulk();
                    let d: Vec<u8> = (0..n).map(|_| b.below(256) as u8).collect();
                    p.extend(&d);
                    if obs.want_desc {
                        log.push_str(&format!(" extend({n})"));
                    }
                }
                _ => {
                    let len = p.len();
                    let d = match src.weighted(&[5, 2, 2, 1, 1]) {
                        0 if len > 0 => src.range(1, len),
                        1 => len,
                        2 => src.range(1, 4),
                        3 => (len + src.range(1, 3)).min(65535),
                        _ => src.pick(&[0usize, 65535, 32768, 1]),
                    };
                    let n = match src.weighted(&[4, 3, 2, 1]) {
                        0 => src.range(0, 20),
                        1 => gen_::length(src) as usize,
                        2 => (cap + src.range(0, 3)).min(3000),
                        _ => src.range(0, 600),
                    };
                    if d > 0 && d <= len {
                        copied |= n > 0;
                        wrapped_copy |= n > 0 && p.all.len() > cap;
                    }
                    obs.class_if(d == 0 || d > len, "refused copy");
                    obs.class_if(d > 0 && d <= len && n > d, "overlapping copy");
                    obs.class_if(d > 0 && d <= len && n > cap, "copy beyond the capacity");
                    p.copy(d, n)?;
                    if obs.want_desc {
                        log.push_str(&format!(" copy({d},{n})"));
                    }
                }
            }
            let k = p.len().max(1);
            let ds = [1, k, k / 2 + 1, src.range(1, k)];
            p.check_small(&ds)?;
            if !big || src.chance(1, 10) {
                p.check_full()?;
            }
        }
        p.check_full()?;
        obs.fp(&p.all);
        obs.fp(&(cap as u32).to_le_bytes());
        obs.nontrivial = wrapped_copy;
        obs.class_if(copied, "copied");
        obs.class_if(p.all.len() > cap, "wrapped");
        obs.class_if(big, "capacity over 3000");
        obs.describe(|| format!("capacity {cap}:{log}"));
        Ok(())
    }
}
