//! C17: hashing filters.

use crate::engine::*;
use crate::gen_;
use crate::lz;
use crate::sha512::sha512;
use crate::{ensure_p, harness_err};
use librezip::filter::{FilterRead, FilterWrite};
use std::io::{self, ErrorKind, IoSlice, IoSliceMut, Read, Write};

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
];

/// Scripted stream: each call gives at most so many bytes, or fails.
#[derive(Clone)]
struct Scripted {
    data: Vec<u8>,
    pos: usize,
    script: Vec<Result<usize, ErrorKind>>,
    at: usize,
    got: Vec<u8>,
    flushes: usize,
}
impl Scripted {
    fn step(&mut self) -> Result<usize, ErrorKind> {
        let s = self.script[self.at % self.script.len()];
        self.at += 1;
        s
    }
}
impl Read for Scripted {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.step() {
            Err(k) => {
                // a failing read may scribble
                if let Some(b) = buf.first_mut() {
                    *b = 0xEE;
                }
                Err(io::Error::new(k, format!("scripted {}", self.at)))
            }
            Ok(n) => {
                let n = n.min(buf.len()).min(self.data.len() - self.pos);
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}
impl Write for Scripted {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.step() {
            Err(k) => Err(io::Error::new(k, format!("scripted {}", self.at))),
            Ok(n) => {
                let n = n.min(buf.len());
                self.got.extend(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        match self.step() {
            Err(k) => Err(io::Error::new(k, format!("scripted {}", self.at))),
            Ok(_) => Ok(()),
        }
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: &io::Result<T>, b: &io::Result<T>) -> Res {
    let show = |r: &io::Result<T>| match r {
        Ok(v) => Ok(format!("{v:?}")),
        Err(e) => Err((e.kind(), e.to_string())),
    };
    ensure_p!(show(a) == show(b), "{what}: filtered {:?}, direct {:?}", show(a), show(b));
    Ok(())
}

fn size(src: &mut Src) -> usize {
    if src.chance(1, 8) { src.range(300, 5000) } else { src.range(0, 300) }
}

pub struct C17;
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Scripts of read/read_exact/read_to_end/read_vectored (write/write_all/write_vectored/flush) calls of arbitrary sizes over an inner stream that \
         transfers in scripted pieces and fails as scripted; the same calls go to a copy of the inner stream directly. \
         Hash oracle: an own SHA-512 of the bytes the inner stream moved. Non-trivial: bytes moved, and a short transfer or \
         a failure."
    }
    fn max_choices(&self) -> usize {
        160
    }
    fn cases(&self) -> (u32, u32) {
        (2_000_000, 30_000_000)
    }
    fn fixed(&self) -> Vec<String> {
        vec!["sha".into(), "sizes".into()]
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        if name == "sha" {
            let h: String = sha512(b"abc").iter().map(|b| format!("{b:02x}")).collect();
            if h != "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f" {
                harness_err!("own SHA-512 is wrong: {h}");
            }
            return Ok(());
        }
        for n in [0usize, 1, 111, 112, 127, 128, 129, 4096, 65535, 65536, 65537, 200_000, 1 << 20, 3_000_001] {
            let mut s = Src::Prng(n as u64);
            let d: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            let mut f = FilterRead::new(&d[..]);
            let mut out = vec![];
            f.read_to_end(&mut out).unwrap();
            ensure_p!(out == d, "{n} bytes read wrong");
            ensure_p!(f.hash() == sha512(&d), "hash of {n} bytes read");
            let mut f = FilterWrite::new(vec![]);
            f.write_all(&d).unwrap();
            ensure_p!(f.hash() == sha512(&d), "hash of {n} bytes written");
            // in one call
            let mut f = FilterRead::new(&d[..]);
            let mut out = vec![0; n + 9];
            ensure_p!(f.read(&mut out).ok() == Some(n) && out[..n] == d, "{n} bytes read wrong by one call");
            ensure_p!(f.hash() == sha512(&d), "hash of {n} bytes read by one call");
            let mut f = FilterRead::new(&d[..]);
            let (a, b) = out.split_at_mut(n / 3);
            let k = f.read_vectored(&mut [IoSliceMut::new(a), IoSliceMut::new(b)]).unwrap_or(0);
ensure_p!(out[..k] == d[..k], "{n} bytes read wrong into two buffers");
            ensure_p!(f.hash() == sha512(&d[..k]), "hash of {n} bytes read into two buffers");
            let mut f = FilterWrite::new(vec![]);
            let k = f.write_vectored(&[IoSlice::new(&d[..n / 3]), IoSlice::new(&d[n / 3..])]).unwrap_or(0);
            ensure_p!(f.hash() == sha512(&d[..k]), "hash of {n} bytes written from two buffers");
            obs.extra_evals += 5;
        }
        Ok(())
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let n = gen_::size(src, 3000);
        let data = gen_::data_len(src, n);
        let k = src.range(1, 8);
        let mut script: Vec<Result<usize, ErrorKind>> = (0..k)
            .map(|_| match src.weighted(&[4, 2, 3, 1]) {
                0 => Ok(src.range(1, 200)),
                1 => Ok(usize::MAX),
                2 => Err(src.pick(KINDS)),
                _ => Ok(0),
            })
            .collect();
        // loops of the std adaptors must end
        script.push(Ok(7));
        let inner = Scripted { data: data.clone(), pos: 0, script: script.clone(), at: 0, got: vec![], flushes: 0 };
        let mut direct = inner.clone();
        let mut log = String::new();
        let writing = src.bool();
        let mut failed = false;
        let mut moved_short = false;
        if writing {
            let mut f = FilterWrite::new(inner);
            let mut at = 0;
            for _ in 0..src.range(1, 16) {
                match src.weighted(&[5, 2, 2, 1]) {
                    3 => {
                        let n = src.range(0, 300).min(data.len() - at);
                        let k = src.range(0, n);
                        let parts = [IoSlice::new(&[]), IoSlice::new(&data[at..at + k]), IoSlice::new(&data[at + k..at + n])];
                        let (a, b) = (f.write_vectored(&parts), direct.write_vectored(&parts));
                        same("write_vectored", &a, &b)?;
                        failed |= a.is_err();
                        at += a.unwrap_or(0);
                        log.push_str(&format!(" write_vectored({k}, {})", n - k));
                    }
                    0 => {
                        let n = size(src).min(data.len() - at);
                        let part = &data[at..at + n];
                        let (a, b) = (f.write(part), direct.write(part));
                        same("write", &a, &b)?;
                        failed |= a.is_err();
                        if let Ok(m) = a {
                            at += m;
                            moved_short |= m > 0 && m < n;
                        }
                        log.push_str(&format!(" write({n})"));
                    }
                    1 => {
                        let n = size(src).min(data.len() - at);
                        let part = &data[at..at + n];
                        let (a, b) = (f.write_all(part), direct.write_all(part));
                        same("write_all", &a, &b)?;
                        failed |= a.is_err();
                        at += n;
                        log.push_str(&format!(" write_all({n})"));
                    }
                    _ => {
                        let (a, b) = (f.flush(), direct.flush());
                        same("flush", &a, &b)?;
                        log.push_str(" flush");
                    }
                }
            }
            // what the inner stream received, and the hash of it
            let want = sha512(&direct.got);
            if src.bool() {
                let i = f.into_inner();
                ensure_p!(i.got == direct.got, "inner stream received {}", lz::diff(&i.got, &direct.got));
                ensure_p!(i.flushes == direct.flushes, "{} flushes passed, {} made", i.flushes, direct.flushes);
                ensure_p!(i.at == direct.at, "{} inner calls, {} direct", i.at, direct.at);
            } else {
                ensure_p!(f.hash() == want, "hash of {} bytes written; calls{log}", direct.got.len());
            }
            obs.fp(&direct.got);
            obs.nontrivial = !direct.got.is_empty() && (failed || moved_short);
            obs.class("write filter");
        } else {
            let mut f = FilterRead::new(inner);
            let mut moved = vec![];
            for _ in 0..src.range(1, 16) {
                match src.weighted(&[5, 2, 1, 1]) {
                    3 => {
                        let (k, n) = (src.range(0, 40), src.range(0, 300));
                        let (mut x, mut y) = (vec![0u8; k + n], vec![0u8; k + n]);
                        let (x1, x2) = x.split_at_mut(k);
                        let a = f.read_vectored(&mut [IoSliceMut::new(x1), IoSliceMut::new(x2)]);
                        let (y1, y2) = y.split_at_mut(k);
                        let b = direct.read_vectored(&mut [IoSliceMut::new(y1), IoSliceMut::new(y2)]);
                        same("read_vectored", &a, &b)?;
                        failed |= a.is_err();
                        ensure_p!(x == y, "bytes read {}", lz::diff(&x, &y));
                        log.push_str(&format!(" read_vectored({k}, {n})"));
                    }
                    0 => {
                        let n = size(src);
                        let (mut x, mut y) = (vec![0u8; n], vec![0u8; n]);
                        let (a, b) = (f.read(&mut x), direct.read(&mut y));
                        same("read", &a, &b)?;
                        failed |= a.is_err();
                        ensure_p!(x == y, "bytes read {}", lz::diff(&x, &y));
                        if let Ok(m) = a {
                            moved_short |= m > 0 && m < n;
                        }
                        log.push_str(&format!(" read({n})"));
                    }
                    1 => {
                        let n = size(src);
                        let (mut x, mut y) = (vec![0u8; n], vec![0u8; n]);
                        let (a, b) = (f.read_exact(&mut x), direct.read_exact(&mut y));
                        same("read_exact", &a, &b)?;
                        failed |= a.is_err();
                        ensure_p!(x == y, "bytes read {}", lz::diff(&x, &y));
                        log.push_str(&format!(" read_exact({n})"));
                    }
                    _ => {
                        let (mut x, mut y) = (vec![], vec![]);
                        let (a, b) = (f.read_to_end(&mut x), direct.read_to_end(&mut y));
                        // the sizes asked of a reader by read_to_end are std's business, but equal for both
                        same("read_to_end", &a, &b)?;
                        failed |= a.is_err();
                        ensure_p!(x == y, "bytes read to the end {}", lz::diff(&x, &y));
                        log.push_str(" read_to_end");
                    }
                }
            }
            moved.extend(&direct.data[..direct.pos]);
            if src.bool() {
                let i = f.into_inner();
                ensure_p!(i.pos == direct.pos && i.at == direct.at, "inner stream at {} after {} calls, direct at {} after {}", i.pos, i.at, direct.pos, direct.at);
            } else {
                let h = f.hash();
                ensure_p!(h == sha512(&moved), "hash of {} bytes read; calls{log}", moved.len());
            }
            obs.fp(&moved);
            obs.nontrivial = !moved.is_empty() && (failed || moved_short);
            obs.class("read filter");
        }
        obs.fp(log.as_bytes());
        obs.class_if(failed, "with a failed call");
        obs.class_if(moved_short, "with a short transfer");
        obs.describe(|| format!("{} {} bytes, inner {script:?}, calls{log}", if writing { "write" } else { "read" }, data.len()));
        Ok(())
    }
}
