//! Naive reference for candidates, prediction and tracing, written from the statements of C07, C08 and C18.

use crate::refdeflate::RCode;
use librezip::verif::{Lookahead, Picker};
use librezip::{Config, Trace};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MConfig {
    pub quit: u32,
    pub count: usize,
    pub insert: Option<u32>,
    pub three: bool,
    pub drop_far: bool,
}

/// gzip's deflate.c configuration_table: (max_lazy, nice_length, max_chain)
const TABLE: [(u32, u32, usize); 9] = [
    (4, 8, 4),
    (5, 16, 8),
    (6, 32, 32),
    (4, 16, 16),
    (16, 32, 32),
    (16, 128, 128),
    (32, 128, 256),
    (128, 258, 1024),
    (258, 258, 4096),
];

impl MConfig {
    pub fn gzip(level: u8) -> MConfig {
        let (lazy, nice, chain) = TABLE[level as usize - 1];
        MConfig {
            quit: nice,
            count: chain,
            insert: if level <= 3 { Some(lazy) } else { None },
            three: false,
            drop_far: level >= 4,
        }
    }
    pub fn spicy() -> MConfig {
        MConfig { three: true, ..MConfig::gzip(9) }
    }
    /// None for a configuration outside the model (the lazy look-ahead no configuration uses)
    pub fn of(c: &Config) -> Option<MConfig> {
        Some(MConfig {
            quit: u32::from(c.wams.quit_search_above_length),
            count: c.wams.limit_count_of_distances,
            insert: c.wams.insert_only_below_length.map(u32::from),
            three: match c.lookahead {
                Lookahead::Greedy => false,
                Lookahead::ThreeZip => true,
                Lookahead::Gzip => return None,
            },
            drop_far: c.picker == Picker::DropFarThrees,
        })
    }
    /// candidates inspected by the stock tracer
    pub fn stock_limit(&self) -> u16 {
        self.insert.map(|x| x as u16).unwrap_or(u16::MAX)
    }
}

pub fn hash(b: &[u8]) -> u32 {
    (u32::from(b[0]) << 10 ^ u32::from(b[1]) << 5 ^ u32::from(b[2])) & 0x7fff
}

/// Everything at hand: history then content.
pub struct World {
    pub w: Vec<u8>,
    pub pre: usize,
    /// the previous position (0: none) in the same bucket
    prev: Vec<u32>,
}

impl World {
    pub fn new(pre: &[u8], data: &[u8]) -> World {
        let mut w = pre.to_vec();
        w.extend(data);
        let mut last = vec![0u32; 1 << 15];
        let prev = w.windows(3).enumerate().map(|(i, x)| std::mem::replace(&mut last[hash(x) as usize], i as u32)).collect();
        World { w, pre: pre.len(), prev }
    }

    pub fn run_len(&self, pos: usize, off: usize) -> usize {
        let mut n = 0;
        while n < 258 && pos + n < self.w.len() && self.w[off + n] == self.w[pos + n] {
            n += 1;
        }
        n
    }

    /// None: fewer than three bytes left
    pub fn candidates(&self, pos: usize, obscured: &[(usize, u16)], limit: usize) -> Option<Vec<(u32, u32)>> {
        if pos + 2 >= self.w.len() {
            return None;
        }
        let mut inspected = 0;
        let mut out = vec![];
        let mut next = self.prev[pos] as usize;
        while next != 0 {
            let off = next;
            next = self.prev[off] as usize;
            if inspected == limit || pos - off > 32768 {
                break;
            }
            if obscured.iter().any(|&(s, l)| off > s && off < s + usize::from(l)) {
                continue;
            }
            inspected += 1;
            let run = self.run_len(pos, off);
            if run >= 3 {
                out.push(((pos - off) as u32, run as u32));
            }
        }
        Some(out)
    }

    fn best(&self, c: &MConfig, limit: usize, pos: usize, obscured: &[(usize, u16)]) -> Option<(u32, u32)> {
        let cands = self.candidates(pos, obscured, limit)?;
        let mut best: Option<(u32, u32)> = None;
        for &(d, r) in cands.iter().take(c.count) {
            if best.is_none_or(|b| r > b.1) {
                best = Some((d, r));
                if r >= c.quit {
                    break;
                }
            }
        }
        best.filter(|&(d, r)| !(c.drop_far && r == 3 && d > 4096))
    }

    pub fn predict(&self, c: &MConfig, limit: usize, pos: usize, obscured: &[(usize, u16)]) -> Vec<RCode> {
        let r = |(dist, len): (u32, u32)| RCode::Ref { dist, len };
        let Some(first) = self.best(c, limit, pos, obscured) else { return vec![RCode::Lit(self.w[pos])] };
        if !c.three || first.1 > 3 {
            return vec![r(first)];
        }
        let l = |p: usize| RCode::Lit(self.w[p]);
        let second = self.best(c, limit, pos + 1, obscured).filter(|x| x.1 > 3);
        let third = self.best(c, limit, pos + 2, obscured).filter(|x| x.1 > 4);
        match (second, third) {
            (None, None) => vec![r(first)],
            (Some(s), Some(t)) if t.1 > s.1 => vec![l(pos), l(pos + 1), r(t)],
            (Some(s), _) => vec![l(pos), r(s)],
            (None, Some(t)) => vec![l(pos), l(pos + 1), r(t)],
        }
    }

    /// Why the codes are not a valid encoding of what follows pos.
    pub fn invalid(&self, mut pos: usize, codes: &[RCode]) -> Option<String> {
        if codes.is_empty() {
            return Some("no codes".into());
        }
        for (i, c) in codes.iter().enumerate() {
            match *c {
                RCode::Lit(b) => {
                    if pos >= self.w.len() {
                        return Some(format!("code {i} is a literal past the end"));
                    }
                    if self.w[pos] != b {
                        return Some(format!("code {i} is literal {b:#x}, the byte at {pos} is {:#x}", self.w[pos]));
                    }
                    pos += 1;
                }
                RCode::Ref { dist, len } => {
                    if !(3..=258).contains(&len) || !(1..=32768).contains(&dist) {
                        return Some(format!("code {i} out of range: {c:?}"));
                    }
                    let (dist, len) = (dist as usize, len as usize);
                    if dist > pos {
                        return Some(format!("code {i} reaches before the start: {c:?} at {pos}"));
                    }
                    if pos + len > self.w.len() {
                        return Some(format!("code {i} runs past the end: {c:?} at {pos} of {}", self.w.len()));
                    }
                    // a self-overlapping copy equals the comparison with the bytes dist before
                    if let Some(k) = (0..len).find(|&k| self.w[pos + k] != self.w[pos - dist + k]) {
                        return Some(format!("code {i} {c:?} at {pos} copies a wrong byte {k}"));
                    }
                    pos += len;
                }
            }
        }
        None
    }
}

pub fn emitted(c: &RCode) -> usize {
    match c {
        RCode::Lit(_) => 1,
        RCode::Ref { len, .. } => *len as usize,
    }
}

/// Predictor state by the model.
pub struct Stepper<'a> {
    pub world: &'a World,
    pub cfg: MConfig,
    pub limit: usize,
    pub pos: usize,
    pub obscured: Vec<(usize, u16)>,
}
impl<'a> Stepper<'a> {
    pub fn new(world: &'a World, cfg: MConfig, limit: u16) -> Self {
        Stepper { world, cfg, limit: usize::from(limit), pos: world.pre, obscured: vec![] }
    }
    pub fn predict(&self) -> Vec<RCode> {
        self.world.predict(&self.cfg, self.limit, self.pos, &self.obscured)
    }
    pub fn feedback(&mut self, c: &RCode) {
        if let (RCode::Ref { len, .. }, Some(t)) = (c, self.cfg.insert) {
            if *len > t {
                self.obscured.push((self.pos, *len as u16));
            }
        }
        self.pos += emitted(c);
    }
    /// The trace of codes.
    pub fn trace(mut self, codes: &[RCode]) -> Vec<Trace> {
        let mut out = vec![];
        let mut pending: Vec<RCode> = vec![];
        for c in codes {
            if pending.is_empty() {
                pending = self.predict();
                pending.reverse();
            }
            if pending.last() == Some(c) {
                pending.pop();
                out.push(Trace::Correct);
            } else {
                pending.clear();
                out.push(entry(c));
            }
            self.feedback(c);
        }
        out
    }
}

/// The entry of a mispredicted code.
pub fn entry(c: &RCode) -> Trace {
    match *c {
        RCode::Lit(_) => Trace::ActuallyLiteral,
        RCode::Ref { dist, len } => Trace::Actually(librezip::verif::make_ref(dist as u16, len as u16)),
    }
}
