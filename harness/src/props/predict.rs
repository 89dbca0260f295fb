//! C07, C08: prediction.

use crate::engine::*;
use crate::gen_::{self, Case};
use crate::lz;
use crate::model::{MConfig, Stepper, World, emitted, hash};
use crate::refdeflate::RCode;
use crate::{ensure_p, harness_err, viol};
use librezip::all_refs::{AllRefs, Key};
use librezip::{Guesser, Technique};

pub struct C07;
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "History, content, configuration and a valid feedback sequence (as C04); at every position reached the prediction is \
         asked twice and judged by a naive validity predicate. Non-trivial: some prediction contains a reference."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (100_000, 1_500_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let c = gen_::case(src, 1500);
        obs.fp(&c.pre);
        obs.fp(&c.data);
        obs.fp(c.cfg.name.as_bytes());
        obs.describe(|| format!("{} cfg {} limit {} history {} content {}", c.kind, c.cfg.name, c.limit, lz::hex(&c.pre), lz::hex(&c.data)));
        let w = World::new(&c.pre, &c.data);
        let refs = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
        let t = Technique::new(c.cfg.cfg, &refs);
        let mut sc = t.scanner();
        let mut pos = c.pre.len();
        for (i, code) in c.codes.iter().enumerate() {
            ensure_p!(sc.more_data(), "code {i}: no more data at {pos} of {}", w.w.len());
            let g = match guard(|| sc.codes()) {
                Ok(g) => g,
                Err(p) => viol!("code {i} at {pos}: prediction panicked: {p}"),
            };
            let rg: Vec<RCode> = g.iter().map(lz::rcode).collect();
            if let Some(e) = w.invalid(pos, &rg) {
                viol!("code {i} at {pos}: invalid prediction {g:?}: {e}");
            }
            let again = sc.codes();
            ensure_p!(again == g, "code {i} at {pos}: prediction not repeatable: {g:?} then {again:?}");
            obs.nontrivial |= rg.iter().any(|x| matches!(x, RCode::Ref { .. }));
            obs.class_if(i == 0 && rg.iter().any(|x| matches!(x, RCode::Ref { .. })), "reference into the history at once");
            sc.feedback(lz::code(*code));
            pos += emitted(code);
            ensure_p!(sc.pos == pos, "code {i}: scanner at {}, fed up to {pos}", sc.pos);
        }
        ensure_p!(!sc.more_data(), "more data claimed at the end");
        obs.class(c.kind);
        obs.class_if(!c.pre.is_empty(), "with history");
        obs.class_if(c.pre.len() >= 32768, "full window of history");
        Ok(())
    }
}

pub struct C08;

fn cand_check(w: &World, refs: &AllRefs, pos: usize, obscured: &[(usize, u16)], limit: u16) -> Result<usize, Fail> {
    let got = match guard(|| refs.at(pos, obscured).map(|it| it.map(|r| (u32::from(r.dist), u32::from(r.run()))).collect::<Vec<_>>())) {
        Ok(g) => g,
        Err(p) => viol!("candidates at {pos} panicked: {p}"),
    };
    let want = w.candidates(pos, obscured, usize::from(limit));
    match (&got, &want) {
        (Some(g), Some(v)) => {
            ensure_p!(g == v, "candidates at {pos} (limit {limit}, obscured {obscured:?}): {}", lz::diff(g, v));
            Ok(v.len())
        }
        // fewer than three bytes left: absent or empty is the same to every caller
        (g, None) => {
            ensure_p!(g.as_ref().is_none_or(|g| g.is_empty()), "candidates at {pos} although fewer than three bytes are left");
            Ok(0)
        }
        (None, Some(v)) => {
            ensure_p!(v.is_empty(), "no candidates at {pos}, expected {v:?}");
            Ok(0)
        }
    }
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "History and content rich in hash collisions, repeats and distances around 32768; obscured ranges; limits; levels \
         1-9, spicy and mixtures; feedback sequences as in C04. Oracle: a naive quadratic model written from the statement, \
         gzip's configuration table typed in independently, the bucket function exhaustively over all 2^24 keys. \
         Non-trivial: some position has two or more candidates."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (100_000, 1_500_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> = (0..16).map(|k| format!("hash {k}")).collect();
        for l in 1..=9 {
            v.push(format!("chain {l}"));
            v.push(format!("far {l}"));
        }
        for l in 1..=3 {
            v.push(format!("obscured {l} 300"));
            v.push(format!("obscured {l} 5200"));
        }
        for l in 0..=9 {
            v.push(format!("boundary {l}"));
        }
        v.push("spicy 0".into());
        v.push("chain 0".into());
        v.push("far 0".into());
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let k: usize = name.split(' ').nth(1).unwrap().parse().unwrap();
        if name.starts_with("hash") {
            for b0 in k * 16..k * 16 + 16 {
                for b1 in 0..=255u8 {
                    for b2 in 0..=255u8 {
                        let h = Key::from((b0 as u8, b1, b2)).sixteen_hash_16();
                        ensure_p!(
                            u32::from(h) == hash(&[b0 as u8, b1, b2]),
                            "bucket of {b0:02x}{b1:02x}{b2:02x} is {h}"
                        );
                    }
                }
            }
            obs.extra_evals = 1 << 20;
            return Ok(());
        }
        let (cfg, model) = if k == 0 {
            (librezip::Config::spicy(), MConfig::spicy())
        } else {
            (librezip::Config::gzip(k as u8), MConfig::gzip(k as u8))
        };
        let limit = model.stock_limit();
        if name.starts_with("spicy") {
            // a run of three now, every kind of run one and two bytes later
            let lens = |v: &[usize]| v.to_vec();
            for l1 in [3usize, 4] {
                for l2 in lens(&[3, 4, 5, 6, 100, 255, 256, 257, 258, 259]) {
                    for l3 in lens(&[3, 4, 5, 6, 7, 101, 255, 256, 257, 258, 259]) {
                        // t is what follows; phrases share prefixes of t, t[1..], t[2..] and then diverge
                        let t: Vec<u8> = (0..300u32).map(|i| 90 + (i.wrapping_mul(2654435761).rotate_left(7) >> 16) as u8 % 150).collect();
                        let mut pre = vec![b'!'];
                        for (from, len) in [(2, l3), (1, l2), (0, l1)] {
                            pre.extend(&t[from..from + len]);
                            pre.extend([b'0' + from as u8; 2]);
                        }
                        // the content ends somewhere behind the runs, or right with one of them
                        for end in [300, 2 + l3, 1 + l2] {
                            let data = &t[..end.clamp(5, 300)];
                            let w = World::new(&pre, data);
                            let refs = AllRefs::with_sixteen(&pre, data, limit);
                            let got: Vec<RCode> = Technique::new(cfg, &refs).scanner().codes().iter().map(lz::rcode).collect();
                            let want = Stepper::new(&w, model, limit).predict();
                            ensure_p!(got == want, "{name} runs {l1} {l2} {l3} of {}: predicted {got:?}, expected {want:?}", data.len());
                            obs.extra_evals += 1;
                        }
                    }
                }
            }
            return Ok(());
        }
        if name.starts_with("boundary") {
            // where the history ends makes no difference to what is found at a position
            for around in [4096usize, 32768] {
                for d in around - 1..=around + 1 {
                    for len in [3usize, 5] {
                        let mut all: Vec<u8> = (0..7u32).map(|i| 200 + i as u8).collect();
                        let off = all.len();
                        all.extend(&b"WXYZV"[..len]);
                        let mut i = 0u32;
                        while all.len() < off + d {
                            all.push(1 + (i.wrapping_mul(2654435761) >> 27) as u8 % 40);
                            i += 1;
                        }
                        let pos = all.len();
                        all.extend(&b"WXYZV"[..len]);
                        all.extend([250, 251, 252]);
                        for cut in [0, 1, off - 1, off, off + 1, off + 2, off + 3, pos - 32768.min(pos), pos - 2, pos - 1, pos] {
                            let (pre, data) = all.split_at(cut);
                            let w = World::new(pre, data);
                            let refs = AllRefs::with_sixteen(pre, data, limit);
                            cand_check(&w, &refs, pos, &[], limit)?;
                            let t = Technique::new(cfg, &refs);
                            let mut sc = t.scanner();
                            let mut st = Stepper::new(&w, model, limit);
                            while st.pos < pos {
                                let c = RCode::Lit(all[st.pos]);
                                sc.feedback(lz::code(c));
                                st.feedback(&c);
                            }
                            let got: Vec<RCode> = sc.codes().iter().map(lz::rcode).collect();
                            let want = st.predict();
                            ensure_p!(
                                got == want,
                                "{name}: length {len} at distance {d}, history of {cut} of {pos}: predicted {got:?}, expected {want:?}"
                            );
                            obs.extra_evals += 1;
                        }
                    }
                }
            }
            return Ok(());
        }
        if name.starts_with("obscured") {
            // many references too long to be inserted, old ones still deciding what may be found
            let n: usize = name.split(' ').nth(2).unwrap().parse().unwrap();
            let mut s = Src::Prng((k * 1000 + n) as u64);
            let plen = n.min(4500) + 40;
            let pre: Vec<u8> = (0..plen).map(|_| s.below(256) as u8).collect();
            let mut data = vec![];
            let mut codes = vec![];
            let least = model.insert.unwrap() as usize + 1;
            for i in 0..n {
                let len = if i % 50 == 49 { least + s.below(20) } else { least };
                let a = s.below(plen - len);
                // the copy is of the phrase itself as long as that is in reach
                let at = plen + data.len();
                if at - a <= 32768 {
                    codes.push(RCode::Ref { dist: (at - a) as u32, len: len as u32 });
                    data.extend(&pre[a..a + len]);
                }
            }
            let w = World::new(&pre, &data);
            for limit in [limit, u16::MAX] {
                let refs = AllRefs::with_sixteen(&pre, &data, limit);
                let t = Technique::new(cfg, &refs);
                let mut sc = t.scanner();
                let mut st = Stepper::new(&w, model, limit);
                for (i, c) in codes.iter().enumerate() {
                    if i % 29 == 0 || i + 300 > codes.len() {
                        let got: Vec<RCode> = sc.codes().iter().map(lz::rcode).collect();
                        let want = st.predict();
                        ensure_p!(got == want, "{name} limit {limit} code {i}: predicted {got:?}, expected {want:?}");
                        obs.extra_evals += 1;
                    }
                    sc.feedback(lz::code(*c));
                    st.feedback(c);
                }
            }
            return Ok(());
        }
        if name.starts_with("chain") {
            // the longest match sits exactly at, just inside and just outside the level's chain length; and the
            // good-enough length exactly reached, missed by one, by a nearer match
            let target: Vec<u8> = (0..300u32).map(|i| 90 + (i.wrapping_mul(2654435761).rotate_left(7) >> 16) as u8 % 150).collect();
            let bucket = hash(&target);
            if target.windows(3).skip(1).any(|x| hash(x) == bucket) {
                harness_err!("the target shares its own bucket");
            }
            for delta in [-2i64, -1, 0, 1] {
                for good in [-1i64, 0, 1] {
                    for limit in [limit, u16::MAX] {
                        let n = (model.count as i64 + delta).max(1) as usize;
                        if n > 1100 && (good != 0 || delta == -2) {
                            continue;
                        }
                        // the only long match, oldest
                        let mut pre = vec![b'!'];
                        pre.extend(&target[..280]);
                        pre.extend(b"..");
                        for i in 0..n {
                            // three bytes then a divergence
                            pre.extend(&target[..3]);
                            if i + 1 == n {
                                // the nearest one has about the good-enough length
                                let g = (i64::from(model.quit) + good).clamp(3, 257) as usize;
                                pre.extend(&target[3..g]);
                            }
                            pre.push(b'0' + (i % 10) as u8);
                        }
                        let w = World::new(&pre, &target);
                        let refs = AllRefs::with_sixteen(&pre, &target, limit);
                        let t = Technique::new(cfg, &refs);
                        let got: Vec<RCode> = t.scanner().codes().iter().map(lz::rcode).collect();
                        let want = Stepper::new(&w, model, limit).predict();
                        ensure_p!(
                            got == want,
                            "{name} limit {limit} delta {delta} good {good}: predicted {got:?}, expected {want:?}"
                        );
                        cand_check(&w, &refs, pre.len(), &[], limit)?;
                        obs.extra_evals += 1;
                    }
                }
            }
            return Ok(());
        }
        // matches of length 3 and 4 at distances around 4096 and 32768
        for around in [4096usize, 32768] {
            for len in [3usize, 4] {
                for d in around - 2..=around + 2 {
                    let mut pre: Vec<u8> = vec![0];
                    pre.extend(&b"WXYZ"[..len]);
                    // filler without the key's bucket, and never three equal bytes in the window by chance
                    let mut i = 0u32;
                    while pre.len() < d + 1 {
                        pre.push(1 + (i.wrapping_mul(2654435761) >> 27) as u8 % 40);
                        i += 1;
                    }
                    let data: Vec<u8> = b"WXYZ"[..len].iter().copied().chain([250, 251, 252]).collect();
                    let w = World::new(&pre, &data);
                    let refs = AllRefs::with_sixteen(&pre, &data, limit);
                    let t = Technique::new(cfg, &refs);
                    let got: Vec<RCode> = t.scanner().codes().iter().map(lz::rcode).collect();
                    let want = Stepper::new(&w, model, limit).predict();
                    ensure_p!(got == want, "{name}: length {len} at distance {d}: predicted {got:?}, expected {want:?}");
                    cand_check(&w, &refs, pre.len(), &[], limit)?;
                    obs.extra_evals += 1;
                }
            }
        }
        Ok(())
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let c: Case = gen_::case(src, 1200);
        obs.fp(&c.pre);
        obs.fp(&c.data);
        obs.fp(c.cfg.name.as_bytes());
        obs.describe(|| {
            format!("{} cfg {} limit {} history {} content {} codes {}", c.kind, c.cfg.name, c.limit, lz::hex(&c.pre), lz::hex(&c.data), c.codes.len())
        });
        let w = World::new(&c.pre, &c.data);
        let refs = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
        // candidates at a few positions with arbitrary obscured ranges
        let n = w.w.len();
        for _ in 0..src.range(1, 4) {
            if n == 0 {
                break;
            }
            let pos = match src.below(3) {
                0 => src.below(n.min(6)),
                1 => n - 1 - src.below(n.min(6)),
                _ => src.below(n),
            };
            let mut ob = vec![];
            for _ in 0..src.pick(&[0usize, 1, 4, 12]) {
                ob.push((src.below(pos + 1), gen_::length(src) as u16));
            }
            // as a scanner's history makes them: in order, apart
            ob.sort();
            let mut end = 0;
            ob.retain(|&(s, l)| {
                let keep = s >= end;
                if keep {
                    end = s + usize::from(l);
                }
                keep
            });
            let k = cand_check(&w, &refs, pos, &ob, c.limit)?;
            obs.class_if(k > 1, "several candidates");
            obs.class_if(!ob.is_empty() && k > 0, "candidates beside obscured ranges");
            obs.nontrivial |= k > 1;
        }
        // predictions along the feedback sequence
        let Some(model) = c.cfg.model else {
            obs.class("configuration outside the model");
            return Ok(());
        };
        let t = Technique::new(c.cfg.cfg, &refs);
        let mut sc = t.scanner();
        let mut st = Stepper::new(&w, model, c.limit);
        // a second scanner of the same technique, along another encoding
        let mut second = if src.chance(1, 3) && c.data.len() < 20_000 {
            let other = gen_::another(src, &c);
            obs.class_if(other != c.codes, "two scanners, different histories");
            Some((t.scanner(), Stepper::new(&w, model, c.limit), other.into_iter()))
        } else {
            None
        };
        for (i, code) in c.codes.iter().enumerate() {
            if let Some((sc, st, it)) = &mut second {
                for _ in 0..1 + i % 2 {
                    let Some(code) = it.next() else { break };
                    let got: Vec<RCode> = match guard(|| sc.codes()) {
                        Ok(g) => g.iter().map(lz::rcode).collect(),
                        Err(p) => viol!("second scanner at {}: prediction panicked: {p}", st.pos),
                    };
                    let want = st.predict();
                    ensure_p!(
                        got == want,
                        "second scanner at {}: predicted {:?}, expected {:?} (cfg {}, limit {})",
                        st.pos,
                        lz::codes(&got),
                        lz::codes(&want),
                        c.cfg.name,
                        c.limit
                    );
                    sc.feedback(lz::code(code));
                    st.feedback(&code);
                }
            }
            let got: Vec<RCode> = match guard(|| sc.codes()) {
                Ok(g) => g.iter().map(lz::rcode).collect(),
                Err(p) => viol!("code {i}: prediction panicked: {p}"),
            };
            let want = st.predict();
            ensure_p!(
                got == want,
                "code {i} at {}: predicted {:?}, expected {:?} (cfg {}, limit {})",
                st.pos,
                lz::codes(&got),
                lz::codes(&want),
                c.cfg.name,
                c.limit
            );
            obs.class_if(want.len() > 1, "multi-code prediction");
            sc.feedback(lz::code(*code));
            st.feedback(code);
        }
        obs.class_if(!st.obscured.is_empty(), "obscured by feedback");
        obs.class(c.kind);
        if src.chance(1, 4) {
            if w.invalid(c.pre.len(), &c.codes).is_some() && !c.codes.is_empty() {
                harness_err!("generated codes are not valid");
            }
            obs.class("stock tracer");
            super::traces::stock_trace_check(src.range(1, 9) as u8, &c.pre, &c.data, &c.codes)?;
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the lazy look-ahead (Lookahead::Gzip), which no stock configuration uses, is outside the model"]
    }
}
