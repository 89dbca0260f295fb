//! C04, C05, C06, C18: traces.

use crate::engine::*;
use crate::gen_::{self, Case, StreamOpts};
use crate::lz;
use crate::model::{Stepper, World, emitted, entry};
use crate::refdeflate::*;
use crate::{ensure_p, harness_err, viol};
use librezip::all_refs::AllRefs;
use librezip::verif::{BitWriter, make_ref};
use librezip::{Block, CircularBuffer, Code, Config, Guesser, Technique, Trace, serialise_trace, trace, tracer};

fn describe(c: &Case) -> String {
    let codes: Vec<String> = c.codes.iter().take(30).map(|x| format!("{:?}", lz::code(*x))).collect();
    format!(
        "{} cfg {} limit {} history {} content {} codes {}{}",
        c.kind,
        c.cfg.name,
        c.limit,
        lz::hex(&c.pre),
        lz::hex(&c.data),
        codes.join(" "),
        if c.codes.len() > 30 { "..." } else { "" }
    )
}

fn fp(c: &Case, obs: &mut Obs) {
    obs.fp(&c.pre);
    obs.fp(&c.data);
    obs.fp(c.cfg.name.as_bytes());
    for x in &c.codes {
        obs.fp(&(emitted(x) as u32).to_le_bytes());
    }
}

fn self_check(c: &Case) -> Result<World, Fail> {
    let w = World::new(&c.pre, &c.data);
    if !c.codes.is_empty() {
        if let Some(e) = w.invalid(c.pre.len(), &c.codes) {
            harness_err!("generated codes are not valid: {e} ({})", c.kind);
        }
    }
    if c.codes.iter().map(emitted).sum::<usize>() != c.data.len() {
        harness_err!("generated codes do not cover the content ({})", c.kind);
    }
    Ok(w)
}

fn corrections(t: &[Trace]) -> (usize, usize, usize) {
    let mut r = (0, 0, 0);
    for x in t {
        match x {
            Trace::Correct => r.0 += 1,
            Trace::ActuallyLiteral => r.1 += 1,
            Trace::Actually(_) => r.2 += 1,
        }
    }
    r
}

fn technique_class(c: &Case, obs: &mut Obs) {
    use librezip::verif::Lookahead::*;
    obs.class(match c.cfg.cfg.lookahead {
        Greedy => "greedy",
        Gzip => "lazy",
        ThreeZip => "spicy look-ahead",
    });
    obs.class_if(!c.pre.is_empty(), "with history");
    obs.class_if(c.pre.len() >= 32768, "full window of history");
    obs.class_if(c.cfg.cfg.wams.insert_only_below_length.is_some(), "limited insertion");
    obs.class(c.kind);
}

pub struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "History (0-32768 bytes), content, and a valid factorisation made codes-first, by a random matcher, or by following \
         the predictor with random deviations; predictor levels 1-9, spicy and mixtures; candidate limits. Non-trivial: at \
         least one correction and at least one correct entry in the trace."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (40_000, 1_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        ["5 65535", "1 65536", "9 65537", "6 300000", "0 1060000"].map(|x| format!("big {x}")).to_vec()
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let c = big(name)?;
        let mut s = Src::Prng(c.data.len() as u64 + 1);
        self.check(&mut s, obs, &c)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let c = gen_::case(src, 1500);
        self.check(src, obs, &c)
    }
}

/// One case of a size ("big LEVEL BYTES", level 0: spicy).
pub fn big(name: &str) -> Result<Case, Fail> {
    let p: Vec<usize> = name.split(' ').skip(1).take(2).filter_map(|x| x.parse().ok()).collect();
    let [level, n] = p[..] else { harness_err!("unknown directed case {name}") };
    let cfg = if level == 0 {
        gen_::Cfg { cfg: Config::spicy(), model: Some(crate::model::MConfig::spicy()), name: "spicy".into() }
    } else {
        gen_::level_cfg(level as u8)
    };
    let limit = cfg.cfg.wams.insert_only_below_length.unwrap_or(u16::MAX);
    let mut s = Src::Prng(n as u64);
    if n > 200_000 {
        // noise with a copy here and there: nothing takes long, however much there is
        let mut data: Vec<u8> = Vec::with_capacity(n + 300);
        let mut codes = vec![];
        while data.len() < n {
            for _ in 0..s.range(1, 600) {
                let b = s.below(256) as u8;
                data.push(b);
                codes.push(RCode::Lit(b));
            }
            let d = s.pick(&[32_768usize, 32_767, 1, 2, 300, 20_000]).min(data.len());
            let len = s.pick(&[3usize, 4, 5, 6, 7, 40, 257, 258]);
            for _ in 0..len {
                data.push(data[data.len() - d]);
            }
            codes.push(RCode::Ref { dist: d as u32, len: len as u32 });
        }
        return Ok(Case { pre: vec![], data, codes, cfg, limit, kind: "very long" });
    }
    Ok(gen_::big_case_of(&mut s, cfg, limit, if level % 2 == 0 { 32768 } else { 0 }, n))
}

impl C04 {
    fn check(&self, src: &mut Src, obs: &mut Obs, c: &Case) -> Res {
        self_check(c)?;
        fp(c, obs);
        technique_class(c, obs);
        obs.describe(|| describe(c));
        let codes = lz::codes(&c.codes);
        let refs = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
        let t = Technique::new(c.cfg.cfg, &refs);
        let tr = match guard(|| trace::trace(&codes, &t)) {
            Ok(t) => t,
            Err(p) => viol!("trace panicked: {p}; {}", describe(c)),
        };
        let back = match guard(|| trace::restore(&tr, &t)) {
            Ok(b) => b,
            Err(p) => viol!("restore panicked: {p}; {}", describe(c)),
        };
        ensure_p!(back == codes, "restored codes differ {}; {}", lz::diff(&back, &codes), describe(c));
        // as stored and read back, restored by a separately built technique
        let bytes = match guard(|| serialise_trace::verify(&tr)) {
            Ok(b) => b,
            Err(p) => viol!("trace self-check panicked: {p}"),
        };
        if let Ok(tr2) = serialise_trace::read(&bytes[..]) {
            let refs2 = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
            let t2 = Technique::new(c.cfg.cfg, &refs2);
            match guard(|| trace::restore(&tr2, &t2)) {
                Ok(b) => ensure_p!(b == codes, "codes restored from the stored trace differ {}", lz::diff(&b, &codes)),
                Err(p) => viol!("restore of the stored trace panicked: {p}"),
            }
        }
        match guard(|| trace::validate(&codes, &t)) {
            Ok(v) => ensure_p!(v == tr, "validate gives another trace {}", lz::diff(&v, &tr)),
            Err(p) => viol!("validate panicked: {p}; {}", describe(c)),
        }
        // another encoding through the same technique, restored by one of its own
        if src.chance(1, 2) && c.data.len() < 20_000 {
            let other = lz::codes(&gen_::another(src, c));
            let refs2 = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
            let t2 = Technique::new(c.cfg.cfg, &refs2);
            match guard(|| trace::restore(&trace::trace(&other, &t), &t2)) {
                Ok(b) => ensure_p!(b == other, "second encoding traced with the same technique restores {}; {}", lz::diff(&b, &other), describe(c)),
                Err(p) => viol!("tracing a second encoding with the same technique panicked: {p}; {}", describe(c)),
            }
            obs.class_if(other != codes, "two encodings, one technique");
        }
        let mut level = 1 + (src.below(9)) as u8;
        if c.data.len() > 200_000 {
            // the library takes quadratic time below
            level = 4 + level % 6;
        }
        match guard(|| tracer::try_gzip(level, &c.pre, &c.data, &codes)) {
            Ok(v) => {
                let cfg = Config::gzip(level);
                let refs = AllRefs::with_sixteen(
                    &c.pre,
                    &c.data,
                    cfg.wams.insert_only_below_length.unwrap_or(u16::MAX),
                );
                match guard(|| trace::restore(&v, &Technique::new(cfg, &refs))) {
                    Ok(b) => ensure_p!(b == codes, "try_gzip({level}) trace restores {}", lz::diff(&b, &codes)),
                    Err(p) => viol!("restore of try_gzip({level}) trace panicked: {p}; {}", describe(c)),
                }
            }
            Err(p) => viol!("try_gzip({level}) panicked: {p}; {}", describe(c)),
        }
        let (ok, lit, rf) = corrections(&tr);
        obs.nontrivial = ok > 0 && lit + rf > 0;
        obs.class_if(lit > 0, "literal correction");
        obs.class_if(rf > 0, "reference correction");
        Ok(())
    }
}

pub struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "As C04, plus sequences made by the predictor alone; the expected trace comes from stepping the public scanner one \
         code at a time. Non-trivial: at least two codes and (a correction, or predictor-made)."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (60_000, 1_500_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec![];
        for l in 1..=9 {
            for n in [1usize, 3, 5000, 32766, 32767, 32768, 70000] {
                v.push(format!("stock {l} {n}"));
            }
            for n in [32766usize, 32767, 32768, 65534, 65535, 98301] {
                v.push(format!("exact {l} {n}"));
            }
        }
        v
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        let p: Vec<usize> = name.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
        let (level, n) = (p[0] as u8, p[1]);
        // mostly literals, so that runs of correct entries grow past 32767
        let mut s = Src::Prng(n as u64 * 10 + p[0] as u64);
        let mut data: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
        if n == 5000 {
            data = gen_::data_len(&mut s, n);
        }
        if name.starts_with("exact") {
            // no three bytes twice: as many codes as bytes
            let mut seen = std::collections::HashSet::new();
            for i in 2..n {
                while !seen.insert([data[i - 2], data[i - 1], data[i]]) {
                    data[i] = data[i].wrapping_add(1);
                }
            }
        }
        let cfg = gen_::level_cfg(level);
        let limit = cfg.cfg.wams.insert_only_below_length.unwrap_or(u16::MAX);
        let codes = gen_::guided(&mut Src::new(&[]), &[], &data, &cfg, limit);
        let t = tracer::try_gzip(level, &[], &data, &lz::codes(&codes));
        ensure_p!(t.iter().all(|x| *x == Trace::Correct), "{name}: the predictor's own codes trace with corrections");
        ensure_p!(t.len() == codes.len(), "{name}: {} entries for {} codes", t.len(), codes.len());
        let b = serialise_trace::write(&t);
        ensure_p!(b.len() == 2 * codes.len().div_ceil(32767), "{name}: {} bytes for {} codes", b.len(), codes.len());
        Ok(())
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let pure = src.chance(1, 4);
        let c = if pure {
            let cfg = gen_::config(src);
            let limit = gen_::limit(src, &cfg);
            let pre = gen_::preroll(src, 3000);
            let mut w = pre.clone();
            let n = gen_::size(src, 3000);
            gen_::append_data(src, &mut w, n);
            let data = w[pre.len()..].to_vec();
            // no choices: no deviations
            let codes = gen_::guided(&mut Src::new(&[]), &pre, &data, &cfg, limit);
            Case { pre, data, codes, cfg, limit, kind: "predictor alone" }
        } else {
            gen_::case(src, 1500)
        };
        self_check(&c)?;
        fp(&c, obs);
        technique_class(&c, obs);
        obs.describe(|| describe(&c));
        let codes = lz::codes(&c.codes);
        let refs = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
        let t = Technique::new(c.cfg.cfg, &refs);
        // stepping
        let mut sc = t.scanner();
        let mut pending: Vec<Code> = vec![];
        let mut want = vec![];
        let mut multi = false;
        let mut dropped = false;
        for (i, code) in codes.iter().enumerate() {
            if pending.is_empty() {
                pending = match guard(|| sc.codes()) {
                    Ok(g) => g,
                    Err(p) => viol!("predictor panicked at code {i}: {p}"),
                };
                multi |= pending.len() > 1;
                pending.reverse();
            }
            if pending.last() == Some(code) {
                pending.pop();
                want.push(Trace::Correct);
            } else {
                dropped |= pending.len() > 1;
                pending.clear();
                want.push(entry(&c.codes[i]));
            }
            sc.feedback(*code);
        }
        let got = match guard(|| trace::trace(&codes, &t)) {
            Ok(t) => t,
            Err(p) => viol!("trace panicked: {p}; {}", describe(&c)),
        };
        ensure_p!(got == want, "trace {}; {}", lz::diff(&got, &want), describe(&c));
        // and after the technique has traced another encoding
        if src.chance(1, 3) && c.data.len() < 20_000 {
            let other = lz::codes(&gen_::another(src, &c));
            let again = guard(|| {
                let refs = AllRefs::with_sixteen(&c.pre, &c.data, c.limit);
                let t = Technique::new(c.cfg.cfg, &refs);
                trace::trace(&other, &t);
                trace::trace(&codes, &t)
            });
            match again {
                Ok(x) => ensure_p!(x == want, "trace after another by the same technique {}; {}", lz::diff(&x, &want), describe(&c)),
                Err(p) => viol!("trace panicked: {p}; {}", describe(&c)),
            }
            obs.class_if(other != codes, "two encodings, one technique");
        }
        let (_, lit, rf) = corrections(&want);
        if pure {
            ensure_p!(lit + rf == 0, "the predictor's own codes trace with corrections; {}", describe(&c));
            let b = serialise_trace::write(&got);
            ensure_p!(
                b.len() == 2 * codes.len().div_ceil(32767),
                "{} bytes for {} correct codes",
                b.len(),
                codes.len()
            );
        }
        obs.nontrivial = codes.len() >= 2 && (lit + rf > 0 || pure);
        obs.class_if(multi, "multi-code prediction");
        obs.class_if(dropped, "multi-code prediction rejected");
        obs.class_if(lit + rf > 0, "corrections");
        Ok(())
    }
}

pub struct C05;

fn ref_write(t: &[Trace]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            Trace::ActuallyLiteral => {
                out.extend([0, 0]);
                i += 1;
            }
            Trace::Actually(r) => {
                out.push(r.dist as u8);
                out.push((r.dist >> 8) as u8);
                out.push((r.run() - 3) as u8);
                i += 1;
            }
            Trace::Correct => {
                let mut n = t[i..].iter().take_while(|x| **x == Trace::Correct).count();
                i += n;
                while n > 0 {
                    let k = n.min(32767);
                    out.extend(((32768 + k) as u16).to_le_bytes());
                    n -= k;
                }
            }
        }
    }
    out
}

/// The flag: the last record is cut short.
fn ref_read(b: &[u8]) -> (Vec<Trace>, bool) {
    let mut out = vec![];
    let mut p = 0;
    while p < b.len() {
        if p + 1 == b.len() {
            return (out, true);
        }
        let v = u32::from(b[p]) | u32::from(b[p + 1]) << 8;
        p += 2;
        if v == 0 {
            out.push(Trace::ActuallyLiteral);
        } else if v <= 32768 {
            if p == b.len() {
                return (out, true);
            }
            out.push(Trace::Actually(make_ref(v as u16, u16::from(b[p]) + 3)));
            p += 1;
        } else {
            out.extend(std::iter::repeat_n(Trace::Correct, v as usize - 32768));
        }
    }
    (out, false)
}

fn codec_check(t: &[Trace]) -> Res {
    let b = match guard(|| serialise_trace::write(t)) {
        Ok(b) => b,
        Err(p) => viol!("write panicked: {p}"),
    };
    let want = ref_write(t);
    ensure_p!(b == want, "bytes of {} entries differ {}", t.len(), lz::diff(&b, &want));
    match guard(|| serialise_trace::read(&b[..])) {
        Ok(Ok(r)) => ensure_p!(r == t, "read back differs {}", lz::diff(&r, t)),
        Ok(Err(e)) => viol!("own output refused: {e}"),
        Err(p) => viol!("read panicked: {p}"),
    }
    match guard(|| serialise_trace::verify(t)) {
        Ok(v) => ensure_p!(v == want, "verify returns other bytes"),
        Err(p) => viol!("verify panicked: {p}"),
    }
    Ok(())
}

pub fn read_check(b: &[u8]) -> Res {
    let (want, cut) = ref_read(b);
    match guard(|| serialise_trace::read(b)) {
        Ok(Ok(r)) => {
            ensure_p!(!cut, "a record cut short is accepted: {}", lz::hex(b));
            ensure_p!(r == want, "entries differ {} for {}", lz::diff(&r, &want), lz::hex(b));
        }
        Ok(Err(e)) => ensure_p!(cut, "refused: {e}: {}", lz::hex(b)),
        Err(p) => viol!("read panicked: {p} on {}", lz::hex(b)),
    }
    Ok(())
}

impl Prop for C05 {
    fn run_raw(&self, bytes: &[u8], _obs: &mut Obs) -> Option<Res> {
        Some(read_check(bytes).and_then(|()| {
            let (t, cut) = ref_read(bytes);
            if cut { Ok(()) } else { codec_check(&t) }
        }))
    }
    fn raw_seed(&self, src: &mut Src) -> Vec<u8> {
        (0..src.range(0, 40)).map(|_| src.below(256) as u8).collect()
    }
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "Sequences of entries with runs of correct entries around 1, 32767, 65534 and 98301, all distances and lengths; and \
         arbitrary byte strings (record-shaped, cut, random). Directed: every distance, every length, every run up to 200 and \
         around the piece boundaries. Oracle: a codec written from the statement. Non-trivial: two kinds of entry, or a run \
         over 32767, or foreign bytes."
    }
    fn max_choices(&self) -> usize {
        160
    }
    fn cases(&self) -> (u32, u32) {
        (300_000, 3_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec!["distances".to_string(), "lengths".into(), "runs".into(), "two bytes".into()];
        for k in 1..=4usize {
            for d in -2i64..=2 {
                v.push(format!("run {}", 32767 * k as i64 + d));
            }
        }
        v.extend([1_048_576, 16_777_216, 20_000_000].map(|n| format!("run {n}")));
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        match name {
            "distances" => {
                let mut all = vec![];
                for d in 1..=32768u32 {
                    let t = [Trace::Actually(make_ref(d as u16, 3 + (d % 256) as u16))];
                    let b = serialise_trace::write(&t);
                    ensure_p!(b == ref_write(&t), "bytes for distance {d}");
                    read_check(&b)?;
                    all.push(t[0]);
                }
                obs.extra_evals = 32768;
                codec_check(&all)
            }
            "lengths" => {
                let all: Vec<Trace> =
                    (3..=258u16).flat_map(|l| [1, 255, 256, 32768].map(|d: u16| Trace::Actually(make_ref(d, l)))).collect();
                codec_check(&all)
            }
            "runs" => {
                let mut t = vec![];
                for n in 1..=200 {
                    t.extend(std::iter::repeat_n(Trace::Correct, n));
                    t.push(if n % 2 == 0 { Trace::ActuallyLiteral } else { Trace::Actually(make_ref(n as u16, 3)) });
                    codec_check(&t[t.len() - n - 1..])?;
                }
                obs.extra_evals = 200;
                codec_check(&t)
            }
            "two bytes" => {
                for x in 0..=0xffffu16 {
                    let b = x.to_le_bytes();
                    read_check(&b)?;
                    read_check(&[b[0], b[1], 7])?;
                }
                obs.extra_evals = 1 << 17;
                Ok(())
            }
            _ => {
                let n: usize = name[4..].parse().unwrap();
                let mut t = vec![Trace::Correct; n];
                codec_check(&t)?;
                t.push(Trace::ActuallyLiteral);
                codec_check(&t)?;
                t.push(Trace::Correct);
                codec_check(&t)?;
                t.insert(0, Trace::Actually(make_ref(32768, 258)));
                codec_check(&t)
            }
        }
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        if src.chance(1, 3) {
            // foreign bytes
            let mut b = vec![];
            if src.bool() {
                let n = gen_::size(src, 60);
                for _ in 0..n {
                    b.push(src.pick(&[0u8, 0x80, 1, 0x7f, 0xff]) ^ if src.bool() { src.below(256) as u8 } else { 0 });
                }
            } else {
                let n = src.range(0, 20);
                for _ in 0..n {
                    match src.below(3) {
                        0 => b.extend([0, 0]),
                        1 => {
                            let d = gen_::distance(src, 32768);
                            b.extend((d as u16).to_le_bytes());
                            b.push(src.below(256) as u8);
                        }
                        _ => b.extend(((32768 + src.range(1, 300)) as u16).to_le_bytes()),
                    }
                }
                if src.bool() && !b.is_empty() {
                    let k = src.below(b.len());
                    b.truncate(k);
                }
            }
            obs.fp(&b);
            obs.nontrivial = b.len() > 1;
            obs.class("foreign bytes");
            obs.class_if(ref_read(&b).1, "cut short");
            obs.describe(|| lz::hex(&b));
            return read_check(&b);
        }
        let mut t = vec![];
        let n = src.range(0, 24);
        let mut kinds = [false; 3];
        let mut big = false;
        for _ in 0..n {
            match src.weighted(&[3, 3, 3]) {
                0 => {
                    t.push(Trace::ActuallyLiteral);
                    kinds[0] = true;
                }
                1 => {
                    let d = gen_::distance(src, 32768) as u16;
                    let l = gen_::length(src) as u16;
                    t.push(Trace::Actually(make_ref(d, l)));
                    kinds[1] = true;
                }
                _ => {
                    let n = match src.weighted(&[4, 2, 1]) {
                        0 => src.range(1, 5),
                        1 => src.range(1, 400),
                        _ if big => 1,
                        _ => {
                            big = true;
                            (32767 * src.range(1, 3) + src.range(0, 4)).saturating_sub(2)
                        }
                    };
                    t.extend(std::iter::repeat_n(Trace::Correct, n));
                    kinds[2] = true;
                }
            }
        }
        let bytes = ref_write(&t);
        obs.fp(&bytes);
        obs.nontrivial = kinds.iter().filter(|x| **x).count() > 1 || big;
        obs.class_if(big, "run around a piece boundary");
        obs.class_if(kinds[1], "reference entries");
        obs.describe(|| format!("{} entries, stored as {}", t.len(), lz::hex(&bytes)));
        codec_check(&t)
    }
}

pub struct C06;

enum Kind {
    Stored,
    Fixed,
    Dynamic(librezip::verif::BitVec),
}
struct Meta {
    kind: Kind,
    len: usize,
    trace: Vec<u8>,
}

fn pack(file: &[u8], level: u8) -> Result<(Vec<u8>, Vec<u8>, Vec<Meta>, Vec<u8>), String> {
    let mut cur = std::io::Cursor::new(file);
    let header = librezip::gzip::discard_header(&mut cur).map_err(|e| e.to_string())?;
    let mut window = CircularBuffer::with_capacity(32 * 1024);
    let mut content = vec![];
    let mut metas = vec![];
    for b in librezip::parse_deflate(&mut cur) {
        let b = b.map_err(|e| e.to_string())?;
        let pre = window.vec();
        let from = content.len();
        librezip::decompressed_block(&mut content, &mut window, &b).map_err(|e| e.to_string())?;
        let data = &content[from..];
        let tr = |codes: &[Code]| serialise_trace::write(&tracer::try_gzip(level, &pre, data, codes));
        metas.push(match b {
            Block::Uncompressed(_) => Meta { kind: Kind::Stored, len: data.len(), trace: vec![] },
            Block::FixedHuffman(c) => Meta { kind: Kind::Fixed, len: data.len(), trace: tr(&c) },
            Block::DynamicHuffman { trees, codes } => {
                let trace = tr(&codes);
                Meta { kind: Kind::Dynamic(trees), len: data.len(), trace }
            }
        });
    }
    let tail = file[cur.position() as usize..].to_vec();
    Ok((header, content, metas, tail))
}

fn unpack(level: u8, header: &[u8], content: &[u8], metas: &[Meta], tail: &[u8]) -> Result<Vec<u8>, String> {
    let cfg = Config::gzip(level);
    let limit = cfg.wams.insert_only_below_length.unwrap_or(u16::MAX);
    let mut w = BitWriter::new(header.to_vec());
    let mut at = 0usize;
    for (i, m) in metas.iter().enumerate() {
        let pre = &content[at.saturating_sub(32768)..at];
        let data = &content[at..at + m.len];
        at += m.len;
        let codes = || -> Result<Vec<Code>, String> {
            let t = serialise_trace::read(&m.trace[..]).map_err(|e| e.to_string())?;
            let refs = AllRefs::with_sixteen(pre, data, limit);
            Ok(trace::restore(&t, &Technique::new(cfg, &refs)))
        };
        let block = match &m.kind {
            Kind::Stored => Block::Uncompressed(data.to_vec()),
            Kind::Fixed => Block::FixedHuffman(codes()?),
            Kind::Dynamic(t) => Block::DynamicHuffman { trees: t.clone(), codes: codes()? },
        };
        w.write_bit(i + 1 == metas.len()).map_err(|e| e.to_string())?;
        librezip::compressed_block(&mut w, &block).map_err(|e| e.to_string())?;
    }
    w.align().map_err(|e| e.to_string())?;
    let mut out = w.into_inner();
    out.extend(tail);
    Ok(out)
}

fn recreate(file: &[u8], level: u8) -> Res {
    let (h, c, m, t) = match guard(|| pack(file, level)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => viol!("a valid gzip file cannot be taken apart: {e}; {}", lz::hex(file)),
        Err(p) => viol!("taking a valid gzip file apart panicked: {p}; {}", lz::hex(file)),
    };
    let back = match guard(|| unpack(level, &h, &c, &m, &t)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => viol!("the file cannot be recreated: {e}; {}", lz::hex(file)),
        Err(p) => viol!("recreating the file panicked: {p}; {}", lz::hex(file)),
    };
    ensure_p!(back == file, "recreated file differs {}; {}", lz::diff(&back, file), lz::hex(file));
    Ok(())
}

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "Gzip files: a generated header, a valid stream (assembled; zlib at any level, strategy, window, flush and mid-stream \
         parameter change; miniz), a footer, sometimes bytes after it; a predictor level 1-9. The file is reduced to content \
         and metadata and rebuilt. Non-trivial: a compressed block with at least one reference, or several blocks."
    }
    fn max_choices(&self) -> usize {
        400
    }
    fn cases(&self) -> (u32, u32) {
        (16_000, 400_000)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec![];
        for l in 1..=9 {
            for k in 0..6 {
                v.push(format!("large {l} {k}"));
            }
        }
        v
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        let p: Vec<u64> = name.split(' ').skip(1).map(|x| x.parse().unwrap()).collect();
        let mut s = Src::Prng(p[0] * 100 + p[1]);
        let d = gen_::data_len(&mut s, 90_000);
        let mut f = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
        f.extend(match p[1] {
            0 => gen_::real_stream(&mut s, &d).0,
            1 => crate::zlibx::miniz(&d, p[0] as u8),
            k => crate::zlibx::deflate(
                &d,
                &crate::zlibx::ZOpts {
                    level: p[0] as i32,
                    window: 15,
                    mem: [8, 1, 9, 5][k as usize - 2],
                    strategy: 0,
                    chunk: if k == 4 { 20_000 } else { usize::MAX },
                    flush: 2,
                    params: vec![],
                },
            ),
        });
        f.extend(gen_::footer(&d));
        recreate(&f, p[0] as u8)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let level = src.range(1, 9) as u8;
        let mut f = gen_::gz_header(src);
        let (bytes, label) = if src.chance(1, 2) {
            let d = gen_::data(src, 5000);
            gen_::real_stream(src, &d)
        } else {
            (gen_::stream(src, &StreamOpts { max_codes: 60, ..StreamOpts::default() }).bytes, "assembled")
        };
        let r = decode(&bytes);
        if r.err.is_some() || r.quirks.any() {
            harness_err!("own decoder refuses a valid stream");
        }
        let hl = f.len();
        f.extend(&bytes);
        f.extend(gen_::footer(&r.data));
        for _ in 0..src.pick(&[0usize, 0, 3]) {
            f.push(src.below(256) as u8);
        }
        obs.fp(&f);
        obs.fp(&[level]);
        obs.class(label);
        let refs = r.blocks.iter().any(|b| b.codes().iter().any(|c| matches!(c, RCode::Ref { .. })));
        obs.nontrivial = refs || r.blocks.len() > 1;
        obs.class_if(r.blocks.len() > 1, "multi-block");
        obs.class_if(r.data.len() > 32768, "beyond the window");
        obs.class_if(hl > 10, "optional header fields");
        obs.describe(|| format!("level {level} {label} {} {}", lz::blocks_summary(&r.blocks), lz::hex(&f)));
        recreate(&f, level)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["streams with length 258 written as symbol 284 (known finding of C01) are not generated here"]
    }
}

/// C08's check that the stock tracer's trace is the model's.
pub fn stock_trace_check(level: u8, pre: &[u8], data: &[u8], codes: &[RCode]) -> Res {
    let world = World::new(pre, data);
    let m = crate::model::MConfig::gzip(level);
    let want = Stepper::new(&world, m, m.stock_limit()).trace(codes);
    let got = match guard(|| tracer::try_gzip(level, pre, data, &lz::codes(codes))) {
        Ok(t) => t,
        Err(p) => viol!("try_gzip({level}) panicked: {p}"),
    };
    ensure_p!(got == want, "try_gzip({level}) trace is not the model's: {}", lz::diff(&got, &want));
    Ok(())
}
