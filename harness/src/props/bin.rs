//! C14, C15, C16, C21: the command line, run for real on scratch files.

use super::header::header_len;
use crate::engine::*;
use crate::gen_::{self, StreamOpts};
use crate::lz;
use crate::refdeflate::*;
use crate::{ensure_p, harness_err, viol};
use std::io::{Read, Seek, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::RwLock;
use std::sync::atomic::{AtomicUsize, Ordering};

fn binary() -> Result<PathBuf, Fail> {
    match std::env::var_os("REZIP_BIN") {
        Some(p) => Ok(p.into()),
        None => harness_err!("REZIP_BIN is not set"),
    }
}

/// A scratch file, removed on drop.
struct Scratch(PathBuf);
static NEXT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    fn new(bytes: &[u8]) -> Result<Scratch, Fail> {
        Self::named(bytes, b"")
    }
    /// In a directory of its own: a name that is not UTF-8, has spaces, a newline and something like an option; or one
    /// that could mean something else. Its directory and name.
    fn odd(bytes: &[u8]) -> Result<(Scratch, std::ffi::OsString), Fail> {
        use std::os::unix::ffi::OsStringExt;
        let dir = Self::dir()?;
        let k = bytes.iter().fold(0usize, |a, &b| a.wrapping_mul(31).wrapping_add(b.into()));
        let names: [&[u8]; 7] = [b"a --help\n \xff\xfe*.zip", b"-", b"cat", b"~", b"$HOME", b"file:x", b"%41\\n.gz"];
        let name = std::ffi::OsString::from_vec(names[k % names.len()].to_vec());
        match std::fs::write(dir.0.join(&name), bytes) {
            Ok(()) => Ok((dir, name)),
            Err(e) => harness_err!("scratch file: {e}"),
        }
    }
    fn dir() -> Result<Scratch, Fail> {
        let k = NEXT.fetch_add(1, Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("rezip-verif-{}-{k}.d", std::process::id()));
        match std::fs::create_dir(&p) {
            Ok(()) => Ok(Scratch(p)),
            Err(e) => harness_err!("scratch directory: {e}"),
        }
    }
    fn named(bytes: &[u8], suffix: &[u8]) -> Result<Scratch, Fail> {
        use std::os::unix::ffi::OsStrExt;
        let k = NEXT.fetch_add(1, Ordering::SeqCst);
        let mut name = format!("rezip-verif-{}-{k}", std::process::id()).into_bytes();
        name.extend(suffix);
        let p = std::env::temp_dir().join(std::ffi::OsStr::from_bytes(&name));
        match std::fs::write(&p, bytes) {
            Ok(()) => Ok(Scratch(p)),
            Err(e) => harness_err!("scratch file: {e}"),
        }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.extension().is_some_and(|e| e == "d") {
            let _ = std::fs::remove_dir_all(&self.0);
        } else {
            let _ = std::fs::remove_file(&self.0);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum In {
    File,
    /// a file with an uncommon name
    OddFile,
    /// standard input redirected from the file
    Stdin,
    /// standard input through a pipe, in pieces of this size
    Pipe(usize),
    /// a file argument naming the other end of a pipe
    NamedPipe(usize),
    /// standard input from a connection that is reset after so many bytes
    Reset(usize),
    /// a file argument naming nothing
    Missing,
    /// a file argument naming a directory
    Dir,
    /// a directory as standard input
    StdinDir,
    /// standard input redirected from a file of which something else was already read
    Rest,
    /// standard input from a connection, in pieces of this size
    Socket(usize),
}
/// A whole file of its own, for places that nothing should look at.
fn other_file() -> Vec<u8> {
    let mut v = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 1, 5, 0, 0xfa, 0xff];
    v.extend(b"wrong");
    v.extend(gen_::footer(b"wrong"));
    v
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Out {
    Pipe,
    /// every write fails: no space
    Full,
    /// nobody reads
    Closed,
    /// a file that may not grow beyond so many 512-byte blocks
    Limit(usize),
    /// a small pipe that does not wait when it is full: so many bytes are in it already, it is emptied that much at a
    /// time after a delay (of so many hundred microseconds)
    Stall { before: usize, burst: usize, delay: usize },
    /// a file with so many bytes in it, to be added to
    Append(usize),
    /// a file of which so many bytes were already written, and which goes on
    Within(usize),
    Socket,
    /// a terminal that changes nothing
    Tty,
}
impl Out {
    fn gives_all(self) -> bool {
        matches!(self, Out::Pipe | Out::Append(_) | Out::Within(_) | Out::Socket | Out::Tty)
    }
}
/// Where a good run writes.
fn gen_out(src: &mut Src, obs: &mut Obs, len: usize) -> Out {
    let o = match src.weighted(&[12, 1, 1, 1, 1]) {
        1 => Out::Append(src.pick(&[1usize, 20, 5000])),
        2 => Out::Within(src.pick(&[1usize, 20, 5000])),
        3 => Out::Socket,
        4 if len < 100_000 => Out::Tty,
        _ => Out::Pipe,
    };
    obs.class_if(o != Out::Pipe, "to a file, socket or terminal");
    o
}

unsafe extern "C" {
    fn fcntl(fd: i32, cmd: i32, ...) -> i32;
    fn posix_openpt(flags: i32) -> i32;
    fn grantpt(fd: i32) -> i32;
    fn unlockpt(fd: i32) -> i32;
    fn ptsname_r(fd: i32, buf: *mut u8, len: usize) -> i32;
    fn tcgetattr(fd: i32, t: *mut u8) -> i32;
    fn tcsetattr(fd: i32, act: i32, t: *const u8) -> i32;
    fn cfmakeraw(t: *mut u8);
}
/// A terminal in raw mode: (what it shows, the terminal). None: there are none here.
fn terminal() -> Option<(std::fs::File, std::fs::File)> {
    use std::os::fd::{AsRawFd, FromRawFd};
    let mut name = [0u8; 128];
    let mut t = [0u64; 64];
    unsafe {
        // O_RDWR | O_NOCTTY | O_CLOEXEC
        let m = posix_openpt(2 | 0o400 | 0o2000000);
        if m < 0 {
            return None;
        }
        let master = std::fs::File::from_raw_fd(m);
        if grantpt(m) != 0 || unlockpt(m) != 0 || ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return None;
        }
        let n = name.iter().position(|&b| b == 0)?;
        use std::os::unix::fs::OpenOptionsExt;
        let slave = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .custom_flags(0o400)
            .open(std::str::from_utf8(&name[..n]).ok()?)
            .ok()?;
        let p = t.as_mut_ptr() as *mut u8;
        if tcgetattr(slave.as_raw_fd(), p) != 0 {
            return None;
        }
        cfmakeraw(p);
        if tcsetattr(slave.as_raw_fd(), 0, p) != 0 {
            return None;
        }
        Some((master, slave))
    }
}
/// The reading end, and the other as described; what is in it.
fn stalling_pipe(before: usize) -> std::io::Result<(std::io::PipeReader, std::io::PipeWriter)> {
    use std::os::fd::AsRawFd;
    let (r, mut w) = std::io::pipe()?;
    // F_SETPIPE_SZ, F_SETFL O_NONBLOCK
    let ok = unsafe { fcntl(w.as_raw_fd(), 1031, 4096i32) >= 4096 && fcntl(w.as_raw_fd(), 4, 0o4000i32) == 0 };
    if !ok {
        return Err(std::io::Error::last_os_error());
    }
    w.write_all(&vec![b'#'; before])?;
    Ok((r, w))
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
impl Ran {
    fn ok(&self) -> bool {
        self.code == Some(0)
    }
}

fn gen_in(src: &mut Src, len: usize) -> In {
    match src.weighted(&[6, 4, 2, 1, 1, 1, 1]) {
        5 => In::Rest,
        6 => In::Socket(src.pick(&[usize::MAX, 4096]).max(len / 200)),
        0 => In::File,
        4 => In::OddFile,
        1 => In::Stdin,
        3 => In::NamedPipe(4096),
        _ => In::Pipe(match src.below(3) {
            0 => usize::MAX,
            1 => src.range(1, 7).max(len / 200),
            _ => 4096,
        }),
    }
}

/// Held while a process is started (until it runs its own program).
static STARTING: RwLock<()> = RwLock::new(());

/// Runs a subcommand. `cap`: more output than this and the process is stopped.
fn run(cmd: &str, bytes: &[u8], input: In, output: Out, cap: usize) -> Result<Ran, Fail> {
    let bin = binary()?;
    let h = |e: std::io::Error| Fail::Harness(format!("running {cmd}: {e}"));
    let file = Scratch::new(if input == In::OddFile { b"" } else { bytes })?;
    let mut _dir = None;
    let limit_file = match output {
        Out::Limit(_) => Some(Scratch::new(b"")?),
        Out::Append(n) | Out::Within(n) => Some(Scratch::new(&vec![b'#'; n])?),
        _ => None,
    };
    // `timeout` ends a run that does not end by itself
    let seconds = 40 + cap / 400_000;
    let mut c;
    if let Out::Limit(blocks) = output {
        c = Command::new("sh");
        c.arg("-c").arg(r#"trap "" XFSZ; ulimit -f "$0"; n="$1"; shift; exec timeout --foreground -s KILL "$n" "$@""#).arg(blocks.to_string()).arg(seconds.to_string());
    } else {
        c = Command::new("timeout");
        c.args(["--foreground", "-s", "KILL", &seconds.to_string()]);
    }
    c.arg(bin).arg(cmd);
    c.env("RUST_BACKTRACE", "0").env("RUST_LIB_BACKTRACE", "0");
    let mut peer = None;
    let mut slow = None;
    let mut shown: Option<Box<dyn Read + Send>> = None;
    match input {
        In::Rest => {
            let mut all = other_file();
            let n = all.len() as u64;
            all.extend(bytes);
            std::fs::write(&file.0, &all).map_err(h)?;
            let mut r = std::fs::File::open(&file.0).map_err(h)?;
            r.seek(std::io::SeekFrom::Start(n)).map_err(h)?;
            c.stdin(r);
        }
        In::Socket(_) => {
            let (a, b) = std::os::unix::net::UnixStream::pair().map_err(h)?;
            c.stdin(std::os::fd::OwnedFd::from(b));
            peer = Some(a);
        }
        In::File => {
            c.arg(&file.0).stdin(Stdio::null());
        }
        In::OddFile => {
            let (dir, name) = Scratch::odd(bytes)?;
            c.arg(name).current_dir(&dir.0).stdin(Stdio::null());
            _dir = Some(dir);
        }
        In::Stdin => {
            c.stdin(std::fs::File::open(&file.0).map_err(h)?);
        }
        In::Pipe(_) => {
            c.stdin(Stdio::piped());
        }
        In::NamedPipe(_) => {
            c.arg("/dev/stdin").stdin(Stdio::piped());
        }
        In::Reset(_) => {
            // closing one end with unread bytes resets the other, after what was sent
            let (a, mut b) = std::os::unix::net::UnixStream::pair().map_err(h)?;
            b.write_all(&[0]).map_err(h)?;
            c.stdin(std::os::fd::OwnedFd::from(b));
            peer = Some(a);
        }
        In::Missing => {
            // good input that was not asked for, some of it under names close by
            let dir = Scratch::dir()?;
            for n in ["x.gz", "x.none.gz", "x", "X.NONE"] {
                std::fs::write(dir.0.join(n), bytes).map_err(h)?;
            }
            c.arg(dir.0.join("x.none")).stdin(std::fs::File::open(&file.0).map_err(h)?);
            _dir = Some(dir);
        }
        In::Dir => {
            c.arg("/").stdin(std::fs::File::open(&file.0).map_err(h)?);
        }
        In::StdinDir => {
            c.stdin(std::fs::File::open("/").map_err(h)?);
        }
    }
    match output {
        Out::Pipe => {
            c.stdout(Stdio::piped());
        }
        Out::Full => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(h)?);
        }
        Out::Closed => {
            // a process being started by another thread would keep the reading end open for a while
            let _g = STARTING.write();
            let (r, w) = std::io::pipe().map_err(h)?;
            drop(r);
            c.stdout(w);
        }
        Out::Stall { before, .. } => {
            let (r, w) = stalling_pipe(before).map_err(h)?;
            c.stdout(w);
            slow = Some(r);
        }
        Out::Limit(_) => {
            c.stdout(std::fs::File::create(&limit_file.as_ref().unwrap().0).map_err(h)?);
        }
        Out::Append(_) => {
            c.stdout(std::fs::OpenOptions::new().append(true).open(&limit_file.as_ref().unwrap().0).map_err(h)?);
        }
        Out::Within(n) => {
            let mut f = std::fs::OpenOptions::new().write(true).open(&limit_file.as_ref().unwrap().0).map_err(h)?;
            f.seek(std::io::SeekFrom::Start(n as u64)).map_err(h)?;
            c.stdout(f);
        }
        Out::Socket => {
            let (a, b) = std::os::unix::net::UnixStream::pair().map_err(h)?;
            c.stdout(std::os::fd::OwnedFd::from(b));
            shown = Some(Box::new(a));
        }
        Out::Tty => match terminal() {
            Some((m, t)) => {
                c.stdout(t);
                shown = Some(Box::new(m));
            }
            None => {
                c.stdout(Stdio::piped());
            }
        },
    }
    c.stderr(Stdio::piped());
    let started = {
        let _g = STARTING.read();
        c.spawn()
    };
    let mut child = started.map_err(h)?;
    // the parent's copies of the child's descriptors
    drop(c);
    let mut out = vec![];
    let mut err = vec![];
    std::thread::scope(|s| {
        if let (In::Pipe(n) | In::NamedPipe(n), Some(mut stdin)) = (input, child.stdin.take()) {
            s.spawn(move || {
                for p in bytes.chunks(n.min(bytes.len()).max(1)) {
                    if stdin.write_all(p).is_err() {
                        break;
                    }
                }
            });
        }
        match (input, peer) {
            (In::Reset(n), Some(mut a)) => {
                s.spawn(move || {
                    let _ = a.write_all(&bytes[..n.min(bytes.len())]);
                });
            }
            (In::Socket(n), Some(mut a)) => {
                s.spawn(move || {
                    for p in bytes.chunks(n.min(bytes.len()).max(1)) {
                        if a.write_all(p).is_err() {
                            break;
                        }
                    }
                });
            }
            _ => {}
        }
        let stderr = child.stderr.take();
        let e = &mut err;
        s.spawn(move || {
            if let Some(mut x) = stderr {
                let _ = x.read_to_end(e);
            }
        });
        if let Some(mut x) = child.stdout.take() {
            // closing early makes the writer fail
            let _ = x.by_ref().take(cap as u64).read_to_end(&mut out);
        }
        if let Some(mut x) = shown {
            // a terminal ends with an error
            let _ = x.by_ref().take(cap as u64).read_to_end(&mut out);
        }
        if let (Out::Stall { before, burst, delay }, Some(mut x)) = (output, slow) {
            let mut buf = vec![0; burst.max(1)];
            std::thread::sleep(std::time::Duration::from_micros(delay as u64 * 1000));
            loop {
                std::thread::sleep(std::time::Duration::from_micros(delay as u64 * 100));
                match x.read(&mut buf) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => out.extend(&buf[..n]),
                }
                if out.len() > cap + before {
                    break;
                }
            }
            out.drain(..before.min(out.len()));
        }
    });
    let st = child.wait().map_err(h)?;
    if let Some(f) = limit_file {
        std::fs::File::open(&f.0).and_then(|mut f| f.rewind().and_then(|_| f.read_to_end(&mut out))).map_err(h)?;
    }
    if let Out::Append(n) | Out::Within(n) = output {
        ensure_p!(
            out.len() >= n && out[..n].iter().all(|&b| b == b'#'),
            "{cmd} changed what was in the file before it ({n} bytes): {}",
            lz::hex(&out)
        );
        out.drain(..n);
    }
    let err = String::from_utf8_lossy(&err).into_owned();
    // with --foreground and KILL, timeout exits 137
    if st.code() == Some(137) {
        viol!("{cmd} did not finish within {seconds} s on {} bytes: {}", bytes.len(), lz::hex(bytes));
    }
    if matches!(st.code(), Some(125..=127)) {
        harness_err!("{cmd} could not be run: {err}");
    }
    Ok(Ran { code: st.code(), out, err })
}

const HUGE: &[u8; 3] = b"ab\xff";
fn huge_bytes(at: u64, n: usize) -> Vec<u8> {
    (0..n).map(|i| HUGE[((at + i as u64) % 3) as usize]).collect()
}
fn huge_same(got: &[u8], at: u64) -> Res {
    // by doubling pieces
    let n = got.len();
    let k = n.min(3);
    let head = huge_bytes(at, k);
    ensure_p!(got[..k] == head[..] && got[k.min(n)..] == got[..n - k], "other content in the piece at {at}");
    Ok(())
}
/// A small file with more than 4 GiB of content, of period three, and the length.
fn huge_file() -> (Vec<u8>, u64) {
    let mut bytes = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
    let mut b = Bits::default();
    let mut n = 0u64;
    let reps = 600_000usize;
    let rounds = 28;
    for i in 0..=rounds {
        let mut codes = vec![];
        if i == 0 {
            codes.extend(HUGE.map(RCode::Lit));
            n += 3;
        }
        if i == rounds {
            codes.extend([RCode::Ref { dist: 3, len: 3 }, RCode::Ref { dist: 3, len: 4 }]);
            n += 7;
        } else {
            codes.extend(std::iter::repeat_n(RCode::Ref { dist: 3, len: 258 }, reps));
            n += 258 * reps as u64;
        }
        let (l, d) = gen_::used_symbols(&codes);
        let mut s = Src::Prng(1);
        let spec = gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false });
        gen_::put_block(&mut b, i == rounds, &gen_::BlockSpec::Dynamic(spec, codes, false));
    }
    b.align();
    bytes.extend(b.bytes);
    // of this content
    assert_eq!(n, 4334400010);
    bytes.extend(0x90b8561bu32.to_le_bytes());
    bytes.extend((n as u32).to_le_bytes());
    (bytes, n)
}
/// Runs it with the reader of its output; `patience`: seconds, and whether taking longer is an error.
fn run_huge(cmd: &str, bytes: &[u8], patience: (u64, bool), obs: &mut Obs, f: impl FnOnce(&mut dyn Read) -> Res) -> Res {
    let began = std::time::Instant::now();
    let h = |e: std::io::Error| Fail::Harness(format!("running {cmd}: {e}"));
    let file = Scratch::new(bytes)?;
    let mut c = Command::new("timeout")
        .args(["--foreground", "-s", "KILL", &patience.0.to_string()])
        .arg(binary()?)
        .arg(cmd)
        .arg(&file.0)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(h)?;
    let mut o = c.stdout.take().unwrap();
    let r = f(&mut o);
    drop(o);
    let st = c.wait().map_err(h)?;
    if began.elapsed().as_secs() >= patience.0 && !patience.1 {
        obs.class("over 4 GiB: given up, too slow here");
        return Ok(());
    }
    r?;
    ensure_p!(st.success(), "{cmd} of a huge file: {st}");
    obs.class("over 4 GiB");
    Ok(())
}

/// A generated file: header, stream, footer.
struct File {
    bytes: Vec<u8>,
    header: usize,
    /// where the footer starts
    footer: usize,
    r: RefOut,
    /// where the command writes, if nothing else is said
    out: Out,
}

fn put_file(header: &[u8], stream: &[u8]) -> File {
    let r = decode(stream);
    let mut bytes = header.to_vec();
    bytes.extend(stream);
    let footer = bytes.len();
    bytes.extend(gen_::footer(&r.data));
    File { bytes, header: header.len(), footer, r, out: Out::Pipe }
}

fn gen_stream(src: &mut Src, max: usize) -> (Vec<u8>, &'static str) {
    if src.bool() {
        let d = if src.chance(1, 10) {
            let n = src.pick(&[33000usize, 40000, 66000, 140000, 300_000]);
            gen_::data_len(src, n)
        } else {
            gen_::data(src, max)
        };
        let (b, l) = gen_::real_stream(src, &d);
        (b, l)
    } else {
        (gen_::stream(src, &StreamOpts::default()).bytes, "assembled")
    }
}

enum Kind {
    Valid,
    /// cut inside header or stream
    Cut,
    /// a header that must be refused
    BadHeader,
    Damaged,
    FailingOutput(Out),
}

/// Something else than the footer, or after it: no business of the commands.
fn tail(src: &mut Src, obs: &mut Obs, f: &mut File) {
    match src.weighted(&[6, 1, 1, 1, 1, 1, 1, 1]) {
        0 => obs.class("footer and no more"),
        1 => {
            obs.class("no footer");
            f.bytes.truncate(f.footer);
        }
        2 => {
            obs.class("cut footer");
            f.bytes.truncate(f.footer + src.range(1, 7));
        }
        3 => {
            obs.class("wrong check sum");
            f.bytes[f.footer + src.below(4)] ^= 1 << src.below(8);
        }
        4 => {
            obs.class("wrong length");
            f.bytes[f.footer + 4 + src.below(4)] ^= 1 << src.below(8);
        }
        5 => {
            obs.class("a second member");
            let again = f.bytes.clone();
            f.bytes.extend(again);
        }
        6 => {
            obs.class("zeros after it");
            f.bytes.extend(vec![0; src.pick(&[1usize, 8, 504, 10_000])]);
        }
        _ => {
            obs.class("rubbish after it");
            for _ in 0..src.pick(&[1usize, 8, 20]) {
                f.bytes.push(src.below(256) as u8);
            }
        }
    }
}

/// None: nothing is required of this one.
fn gen_case(src: &mut Src, obs: &mut Obs, max: usize) -> Result<Option<(File, Kind)>, Fail> {
    let header = gen_::gz_header(src);
    let (stream, label) = gen_stream(src, max);
    obs.class(label);
    let f = put_file(&header, &stream);
    if f.r.err.is_some() || f.r.quirks.any() || f.r.end != stream.len() {
        harness_err!("own decoder on a generated stream: {:?} {:?}", f.r.err, f.r.quirks);
    }
    Ok(match src.weighted(&[5, 3, 1, 4, 3]) {
        0 => {
            obs.class("valid");
            let mut f = f;
            tail(src, obs, &mut f);
            f.out = gen_out(src, obs, f.r.data.len());
            Some((f, Kind::Valid))
        }
        1 => {
            obs.class("cut");
            // near the end, near the header, or anywhere
            let at = match src.below(4) {
                0 => f.footer - 1 - src.below(f.footer.min(12)),
                1 => src.below(f.header + 1),
                _ => src.below(f.footer),
            };
            let mut f = f;
            f.bytes.truncate(at);
            Some((f, Kind::Cut))
        }
        2 => {
            let mut h = header.clone();
            let i = src.below(4);
            h[i] ^= 1 << src.below(8);
            let f = put_file(&h, &stream);
            // a changed flag may make other bytes of the file a good header
            if header_len(&f.bytes).is_some() {
                return Ok(None);
            }
            obs.class("bad header");
            Some((f, Kind::BadHeader))
        }
        3 => {
            let mut s = stream.clone();
            gen_::mutate(src, &mut s);
            // the footer's bytes follow, and may be taken as part of a damaged stream
            let n = s.len();
            s.extend(&f.bytes[f.footer..]);
            let r = decode(&s);
            match r.err {
                Some(e) => {
                    obs.class("damaged stream");
                    obs.class(e);
                    let mut bytes = header.clone();
                    bytes.extend(&s);
                    Some((File { bytes, header: header.len(), footer: header.len() + n, r, out: Out::Pipe }, Kind::Damaged))
                }
                None if r.quirks.any() => None,
                None => {
                    obs.class("changed but valid");
                    s.truncate(r.end);
                    Some((put_file(&header, &s), Kind::Valid))
                }
            }
        }
        _ => {
            let n = f.r.data.len();
            let out = match src.below(4) {
                0 => Out::Full,
                1 => Out::Closed,
                3 => Out::Stall {
                    before: src.pick(&[0usize, 4096, 4095, 4000, 3000]),
                    burst: src.pick(&[4096usize, 1024, 300]).max(n / 50),
                    delay: src.pick(&[0usize, 10, 30]),
                },
                _ => Out::Limit(if src.bool() { src.below(n / 512 + 2) } else { (n / 512).saturating_sub(src.below(3)) }),
            };
            obs.class(match out {
                Out::Full => "full device",
                Out::Closed => "closed pipe",
                Out::Stall { .. } => "full pipe that does not wait",
                _ => "size limit",
            });
            // a header of a length that is written at once by `zero`
            let f = if src.chance(1, 3) {
                let mut h = header[..10].to_vec();
                h[3] = 8;
                let k = src.pick(&[1000usize, 1100, 4090, 4096, 5000, 9000, 70_000]) + src.below(20);
                let v = 1 + src.below(255) as u8;
                h.extend((0..k).map(|i| if i % 512 == 100 { v } else { b'a' }));
                h.push(0);
                put_file(&h, &stream)
            } else {
                f
            };
            Some((f, Kind::FailingOutput(out)))
        }
    })
}

fn note(obs: &mut Obs, cmd: &str, f: &File, input: In) {
    obs.fp(&f.bytes);
    obs.class(match input {
        In::File => "from file",
        In::OddFile => "from a file with an uncommon name",
        In::Stdin => "from redirected stdin",
        In::Pipe(_) => "from pipe",
        In::NamedPipe(_) => "from a named pipe",
        In::Reset(_) => "from a connection that is reset",
        In::Missing => "missing file",
        In::Dir => "directory argument",
        In::StdinDir => "directory as stdin",
        In::Rest => "the rest of a redirected file",
        In::Socket(_) => "from a socket",
    });
    obs.class_if(f.r.data.len() > 32768, "content beyond the window");
    obs.describe(|| {
        format!(
            "{cmd} {input:?}: {} bytes (header {}), {} blocks, {} bytes of content, {:?}",
            f.bytes.len(),
            f.header,
            f.r.blocks.len(),
            f.r.data.len(),
            f.r.err
        )
    });
}

fn show(r: &Ran) -> String {
    format!("exit {:?}, {} bytes out, stderr {:?}", r.code, r.out.len(), r.err.chars().take(120).collect::<String>())
}

pub struct C14;
impl C14 {
    fn decide(&self, f: &File, kind: Kind, input: In) -> Res {
        let data = &f.r.data;
        let out = match kind {
            Kind::FailingOutput(o) => o,
            _ => f.out,
        };
        let r = run("cat", &f.bytes, input, out, data.len() + 100_000)?;
        if out.gives_all() || matches!(out, Out::Limit(_) | Out::Stall { .. }) {
            ensure_p!(
                data.starts_with(&r.out),
                "cat wrote something else than the content: {} ({}) for {}",
                lz::diff(&r.out, data),
                show(&r),
                lz::hex(&f.bytes)
            );
        }
        match kind {
            Kind::Valid => {
                ensure_p!(r.ok(), "cat fails on a valid file: {} for {}", show(&r), lz::hex(&f.bytes));
                ensure_p!(r.out == *data, "cat incomplete: {} of {} bytes", r.out.len(), data.len());
            }
            Kind::Cut => ensure_p!(!r.ok(), "cat succeeds on a file cut at {} of {}", f.bytes.len(), f.footer),
            Kind::BadHeader => {
                ensure_p!(!r.ok(), "cat accepts header {}", lz::hex(&f.bytes[..f.header]));
                ensure_p!(r.out.is_empty(), "cat writes output for a bad header");
            }
            Kind::Damaged => ensure_p!(
                !r.ok(),
                "cat succeeds on a damaged stream ({:?}): {} for {}",
                f.r.err,
                show(&r),
                lz::hex(&f.bytes)
            ),
            Kind::FailingOutput(Out::Limit(n)) => {
                if r.out.len() < data.len() {
                    ensure_p!(!r.ok(), "cat reports success having written {} of {} bytes", r.out.len(), data.len());
                } else {
                    ensure_p!(r.ok(), "cat fails although all {} bytes fit in {n} blocks: {}", data.len(), show(&r));
                }
            }
            Kind::FailingOutput(Out::Stall { .. }) => {
                ensure_p!(!r.ok() || r.out.len() == data.len(), "cat reports success with {} of {} bytes out", r.out.len(), data.len());
            }
            Kind::FailingOutput(_) => {
                if !data.is_empty() {
                    ensure_p!(!r.ok(), "cat reports success although no output could be written ({out:?}), {} bytes", data.len());
                }
            }
        }
        Ok(())
    }
}
impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "The real rezippers binary on generated gzip files (any header fields; zlib, miniz and hand-assembled streams) from a \
         file, redirected stdin (at the file's start or further on), a socket, or piped stdin in pieces: valid ones, cut ones, \
         damaged ones; into a pipe, a socket, a terminal, a file with something in it; and outputs that fail (full device, \
         closed pipe, file size limit, full pipe that does not wait). Non-trivial: content or an expected failure."
    }
    fn max_choices(&self) -> usize {
        300
    }
    fn cases(&self) -> (u32, u32) {
        (36_000, 400_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let Some((f, kind)) = gen_case(src, obs, 3000)? else { return Ok(()) };
        let input = gen_in(src, f.bytes.len());
        note(obs, "cat", &f, input);
        obs.nontrivial = !f.r.data.is_empty() || !matches!(kind, Kind::Valid);
        self.decide(&f, kind, input)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec![];
        for n in [0usize, 1, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 300_000] {
            for level in [0, 1, 6, 9] {
                v.push(format!("size {n} {level}"));
            }
        }
        v.extend((0..6).map(|i| format!("cuts {i}")));
        v.push("long 17000000 6".into());
        v
    }
    fn fixed_thorough(&self) -> Vec<String> {
        vec!["huge".into()]
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let p: Vec<usize> = name.split(' ').filter_map(|x| x.parse().ok()).collect();
        if name == "huge" {
            let (bytes, n) = huge_file();
            let mut at = 0u64;
            return run_huge("cat", &bytes, (1500, true), obs, |r| {
                let mut buf = vec![0; 1 << 20];
                loop {
                    let k = r.read(&mut buf).unwrap_or(0);
                    if k == 0 {
                        break;
                    }
                    huge_same(&buf[..k], at)?;
                    at += k as u64;
                }
                ensure_p!(at == n, "cat wrote {at} of {n} bytes");
                Ok(())
            });
        }
        if name.starts_with("cuts") {
            let mut s = Src::Prng(p[0] as u64 + 1);
            let header = gen_::gz_header(&mut s);
            let d = gen_::data_len(&mut s, 60);
            let st = if p[0] % 2 == 0 { gen_::real_stream(&mut s, &d).0 } else { gen_::stream(&mut s, &StreamOpts::default()).bytes };
            let f = put_file(&header[..], &st);
            let step = f.footer / 150 + 1;
            for i in (0..f.footer).filter(|i| i % step == 0 || *i + 30 > f.footer) {
                let mut g = put_file(&header, &st);
                g.bytes.truncate(i);
                self.decide(&g, Kind::Cut, In::File)?;
                obs.extra_evals += 1;
            }
            return Ok(());
        }
        let mut s = Src::Prng(p[0] as u64);
        let d = gen_::data_len(&mut s, p[0]);
        let o = crate::zlibx::ZOpts { level: p[1] as i32, window: 15, mem: 8, strategy: 0, chunk: usize::MAX, flush: 0, params: vec![] };
        let st = crate::zlibx::deflate(&d, &o);
        let mk = || put_file(&[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3], &st);
        if mk().r.data != d {
            harness_err!("own decoder");
        }
        self.decide(&mk(), Kind::Valid, In::File)?;
        if name.starts_with("long") {
            return Ok(());
        }
        self.decide(&mk(), Kind::Valid, In::Pipe(1000))?;
        for out in [Out::Full, Out::Closed, Out::Limit(p[0] / 512), Out::Limit(p[0].div_ceil(512)), Out::Limit(0)] {
            self.decide(&mk(), Kind::FailingOutput(out), In::Stdin)?;
        }
        obs.extra_evals += 6;
        Ok(())
    }
}

pub struct C15;

/// Text of each block.
fn dump_text(blocks: &[RBlock]) -> Vec<String> {
    blocks
        .iter()
        .enumerate()
        .map(|(i, b)| {
            let mut s = format!("block {i}:\n");
            match b {
                RBlock::Stored(d) => s.push_str(&format!(" - uncompressed: {} bytes\n", d.len())),
                RBlock::Fixed(_) => s.push_str(" - fixed huffman:\n"),
                RBlock::Dynamic(h, _) => {
                    let bits: String = h.iter().map(|&b| if b { '1' } else { '0' }).collect();
                    s.push_str(&format!(" - dynamic huffman: BitVec: {}: {bits}\n", h.len()));
                }
            }
            for c in b.codes() {
                match *c {
                    RCode::Lit(b) => s.push_str(&format!("    - lit: 0x{b:02x}: {:?}\n", char::from(b))),
                    RCode::Ref { dist, len } => {
                        s.push_str(&format!("    - backref: {dist} byte(s) back, {len} bytes long\n"));
                    }
                }
            }
            s
        })
        .collect()
}

fn text_diff(got: &[u8], want: &str) -> String {
    let g = String::from_utf8_lossy(got);
    let gl: Vec<&str> = g.lines().collect();
    let wl: Vec<&str> = want.lines().collect();
    for i in 0..gl.len().max(wl.len()) {
        if gl.get(i) != wl.get(i) {
            return format!("line {}: got {:?}, want {:?}", i + 1, gl.get(i), wl.get(i));
        }
    }
    format!("{} bytes, want {}", got.len(), want.len())
}

impl C15 {
    fn decide(&self, f: &File, kind: Kind, input: In) -> Res {
        let stream = if f.bytes.len() > f.header { &f.bytes[f.header..] } else { &[] };
        // distances are printed, not followed: one that reaches too far back is not dump's to notice
        let r = decode_opts(stream, true);
        let texts = match kind {
            Kind::BadHeader => vec![],
            Kind::Cut if f.bytes.len() < f.header => vec![],
            _ => dump_text(&r.blocks),
        };
        let all = texts.concat();
        let out = match kind {
            Kind::FailingOutput(Out::Limit(n)) => Out::Limit(if n == 0 { 0 } else { n % (all.len() / 512 + 2) }),
            Kind::FailingOutput(o) => o,
            _ => f.out,
        };
        let got = run("dump", &f.bytes, input, out, all.len() + 100_000)?;
        let whole = || -> Res {
            let mut at = 0;
            let mut ends = vec![0];
            for t in &texts {
                at += t.len();
                ends.push(at);
            }
            ensure_p!(
                all.as_bytes().starts_with(&got.out) && ends.contains(&got.out.len()),
                "dump printed something else than whole blocks: {} for {}",
                text_diff(&got.out, &all),
                lz::hex(&f.bytes)
            );
            Ok(())
        };
        match kind {
            Kind::Valid => {
                ensure_p!(got.ok(), "dump fails on a valid file: {} for {}", show(&got), lz::hex(&f.bytes));
                ensure_p!(got.out == all.as_bytes(), "dump differs: {}", text_diff(&got.out, &all));
            }
            Kind::Cut | Kind::BadHeader => {
                ensure_p!(!got.ok(), "dump succeeds on a cut or bad file of {} bytes", f.bytes.len());
                whole()?;
            }
            Kind::Damaged => {
                if r.err.is_some() {
                    ensure_p!(!got.ok(), "dump succeeds on a damaged stream ({:?}) {}", r.err, lz::hex(&f.bytes));
                    whole()?;
                } else if !r.quirks.any() && got.ok() {
                    ensure_p!(got.out == all.as_bytes(), "dump differs: {}", text_diff(&got.out, &all));
                } else {
                    whole()?;
                }
            }
            Kind::FailingOutput(Out::Limit(_)) => {
                ensure_p!(all.as_bytes().starts_with(&got.out), "dump differs: {}", text_diff(&got.out, &all));
                if got.out.len() < all.len() {
                    ensure_p!(!got.ok(), "dump reports success having written {} of {} bytes", got.out.len(), all.len());
                } else {
                    ensure_p!(got.ok(), "dump fails although everything fits: {}", show(&got));
                }
            }
            Kind::FailingOutput(Out::Stall { .. }) => {
                ensure_p!(all.as_bytes().starts_with(&got.out), "dump differs: {}", text_diff(&got.out, &all));
                ensure_p!(
                    !got.ok() || got.out.len() == all.len(),
                    "dump reports success with {} of {} bytes out",
                    got.out.len(),
                    all.len()
                );
            }
            Kind::FailingOutput(_) => {
                ensure_p!(!got.ok(), "dump reports success although no output could be written ({out:?})");
            }
        }
        Ok(())
    }
}
impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "The real binary's dump on generated gzip files, against text made from an independent decoder's blocks; every literal, \
         length and distance in directed files; cut, damaged and bad-header files; failing outputs. Non-trivial: any block with \
         codes or content, or an expected failure."
    }
    fn max_choices(&self) -> usize {
        300
    }
    fn cases(&self) -> (u32, u32) {
        (36_000, 400_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let Some((f, kind)) = gen_case(src, obs, 1500)? else { return Ok(()) };
        let input = gen_in(src, f.bytes.len());
        note(obs, "dump", &f, input);
        obs.nontrivial = !f.r.data.is_empty() || !matches!(kind, Kind::Valid);
        self.decide(&f, kind, input)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec!["literals 0".into(), "literals 1".into(), "lengths 0".into(), "lengths 1".into(), "blocks".into(), "header".into(), "numbers".into()];
        v.extend((0..8).map(|i| format!("dists {i}")));
        v
    }
    fn run_fixed(&self, name: &str, _obs: &mut Obs) -> Res {
        let k: usize = name.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
        let mut b = Bits::default();
        let block = |c: Vec<RCode>, dynamic: bool| {
            if dynamic {
                let (l, d) = gen_::used_symbols(&c);
                let mut s = Src::Prng(k as u64);
                gen_::BlockSpec::Dynamic(gen_::dyn_spec(&mut s, &l, &d, &gen_::TreeOpts { big_counts: false }), c, false)
            } else {
                gen_::BlockSpec::Fixed(c, false)
            }
        };
        if name.starts_with("literals") {
            gen_::put_block(&mut b, true, &block((0..=255).map(RCode::Lit).collect(), k == 1));
        } else if name.starts_with("lengths") {
            let mut c = vec![RCode::Lit(7)];
            c.extend((3..=258).map(|len| RCode::Ref { dist: 1, len }));
            gen_::put_block(&mut b, true, &block(c, k == 1));
        } else if name.starts_with("dists") {
            gen_::put_block(&mut b, false, &gen_::BlockSpec::Stored(vec![b'.'; 32768]));
            let c = (k * 4096 + 1..=k * 4096 + 4096).map(|d| RCode::Ref { dist: d as u32, len: 3 }).collect();
            gen_::put_block(&mut b, true, &block(c, k % 2 == 1));
        } else if name == "header" {
            let c = (0..=255).map(RCode::Lit).collect();
            gen_::put_block(&mut b, true, &gen_::BlockSpec::Dynamic(gen_::long_header(), c, false));
        } else if name == "numbers" {
            for i in 0..70_000 {
                gen_::put_block(&mut b, i == 69_999, &block(vec![], false));
            }
        } else {
            // many blocks: numbering, sizes, empty ones
            for i in 0..300usize {
                let spec = match i % 4 {
                    0 => gen_::BlockSpec::Stored(vec![b'x'; i * 7 % 900]),
                    1 => block(vec![], false),
                    2 => block(vec![], true),
                    _ => gen_::BlockSpec::Stored(vec![]),
                };
                gen_::put_block(&mut b, i == 299, &spec);
            }
        }
        b.align();
        let f = put_file(&[0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3], &b.bytes);
        if let Some(e) = f.r.err {
            harness_err!("own decoder: {e}");
        }
        self.decide(&f, Kind::Valid, In::File)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a distance reaching before the start of the data need not be noticed by dump, which does not expand codes"]
    }
}

pub struct C16;

/// Ends of the blocks zero must make.
fn chunk_ends(d: &[u8]) -> Vec<usize> {
    let mut ends = vec![];
    let mut start = 0;
    while start < d.len() {
        let mut end = d.len().min(start + 65535);
        let mut sum = 0u64;
        for e in start..end {
            sum += u64::from(d[e]);
            let n = e + 1 - start;
            if n > 8192 {
                sum -= u64::from(d[e - 8192]);
            }
            if n >= 8192 && sum % 4096 == 0 {
                end = e + 1;
                break;
            }
        }
        ends.push(end);
        start = end;
    }
    ends
}

impl C16 {
    fn decide(&self, f: &File, kind: Kind, input: In) -> Res {
        let data = &f.r.data;
        let ends = chunk_ends(data);
        // every block costs its bytes and a few more
        let size = f.header + data.len() + 5 * ends.len() + 8;
        let out = match kind {
            Kind::FailingOutput(Out::Limit(n)) => Out::Limit(n % (size / 512 + 2)),
            Kind::FailingOutput(o) => o,
            _ => f.out,
        };
        let r = run("zero", &f.bytes, input, out, size * 2 + 200_000)?;
        let want = || {
            let mut w = f.bytes[..f.header].to_vec();
            let mut at = 0;
            for &e in &ends {
                let n = (e - at) as u16;
                w.push(u8::from(e == data.len()));
                w.extend(n.to_le_bytes());
                w.extend((!n).to_le_bytes());
                w.extend(&data[at..e]);
                at = e;
            }
            w.extend(gen_::footer(data));
            w
        };
        match kind {
            Kind::Valid => {
                ensure_p!(r.ok(), "zero fails on a valid file: {} ({} bytes of content)", show(&r), data.len());
                ensure_p!(
                    r.out.len() >= f.header + 8 && r.out[..f.header] == f.bytes[..f.header],
                    "zero's header differs: {}",
                    lz::diff(&r.out[..f.header.min(r.out.len())], &f.bytes[..f.header])
                );
                let body = &r.out[f.header..];
                let o = decode(body);
                if let Some(e) = o.err {
                    viol!("zero's output does not decode: {e} ({} bytes of content)", data.len());
                }
                ensure_p!(o.end + 8 == body.len(), "zero's output: stream ends at {} of {}", o.end, body.len());
                ensure_p!(
                    o.blocks.iter().all(|b| matches!(b, RBlock::Stored(_))),
                    "zero's output has other than stored blocks: {}",
                    lz::blocks_summary(&o.blocks)
                );
                ensure_p!(o.data == *data, "zero changes the content: {}", lz::diff(&o.data, data));
                ensure_p!(body[o.end..] == gen_::footer(data)[..], "zero's footer is wrong: {}", lz::hex(&body[o.end..]));
                ensure_p!(o.block_ends == ends, "zero's block boundaries: {}", lz::diff(&o.block_ends, &ends));
            }
            Kind::Cut => ensure_p!(!r.ok(), "zero succeeds on a file cut at {} of {}", f.bytes.len(), f.footer),
            Kind::BadHeader => ensure_p!(!r.ok(), "zero accepts header {}", lz::hex(&f.bytes[..f.header])),
            // the one recorded finding: flate2 in zero reads zeros from before the start
            Kind::Damaged if f.r.err == Some("distance too far") && r.ok() => {
                return Err(Fail::Known(
                    "zero-far-distance",
                    "zero exits successfully on a stream whose back-reference reaches before the start of the data".into(),
                ));
            }
            Kind::Damaged => ensure_p!(
                !r.ok(),
                "zero succeeds on a damaged stream ({:?}): {} for {}",
                f.r.err,
                show(&r),
                lz::hex(&f.bytes)
            ),
            Kind::FailingOutput(Out::Limit(n)) => {
                let w = want();
                ensure_p!(w.starts_with(&r.out), "zero's output differs {}", lz::diff(&r.out, &w));
                if r.out.len() < w.len() {
                    ensure_p!(!r.ok(), "zero reports success having written {} of {} bytes", r.out.len(), w.len());
                } else {
                    ensure_p!(r.ok(), "zero fails although everything fits in {n} blocks: {}", show(&r));
                }
            }
            Kind::FailingOutput(Out::Stall { .. }) => {
                let w = want();
                ensure_p!(w.starts_with(&r.out), "zero's output differs {}", lz::diff(&r.out, &w));
                ensure_p!(!r.ok() || r.out.len() == w.len(), "zero reports success with {} of {} bytes out", r.out.len(), w.len());
            }
            Kind::FailingOutput(_) => {
                ensure_p!(!r.ok(), "zero reports success although no output could be written ({out:?})");
            }
        }
        Ok(())
    }

    /// Content in which cut points are where we want them: constant window sums between forced changes.
    fn content(src: &mut Src, obs: &mut Obs) -> Vec<u8> {
        let n = match src.weighted(&[3, 3, 3, 2]) {
            0 => src.pick(&[1usize, 2, 4096, 8191, 8192, 8193, 16383, 16384, 16385]),
            1 => src.pick(&[65534usize, 65535, 65536, 65537, 65535 + 8191, 65535 + 8192, 65535 + 8193, 131069, 131070, 131071]),
            2 => src.range(1, 30_000),
            _ => src.range(1, 200_000),
        };
        let mut b = src.bulk();
        match src.weighted(&[3, 3, 2, 2, 2]) {
            0 => {
                obs.class("no natural cut");
                // period 8192 keeps every window's sum, and that is not divisible by 4096
                let mut p: Vec<u8> = (0..8192).map(|_| b.below(256) as u8).collect();
                let s: usize = p.iter().map(|&x| x as usize).sum();
                if s % 4096 == 0 {
                    p[0] ^= 1;
                }
                (0..n).map(|i| p[i % 8192]).collect()
            }
            1 => {
                obs.class("one or two natural cuts");
                // as above with single bytes changed so that sums become divisible at that point
                let mut d: Vec<u8> = (0..n).map(|i| if i % 8192 == 5 { 1 } else { 0 }).collect();
                for _ in 0..src.range(1, 3) {
                    // place k so that the window ending there sums to 4096: 1 + 255*16 + 15
                    let at = src.below(n);
                    for j in 0..17 {
                        if at >= j {
                            d[at - j] = if j < 16 { 255 } else { 15 };
                        }
                    }
                }
                d
            }
            2 => {
                obs.class("constant");
                let v = b.below(256) as u8;
                vec![v; n]
            }
            3 => {
                obs.class("sparse");
                (0..n).map(|_| if b.chance(1, 300) { b.below(256) as u8 } else { 0 }).collect()
            }
            _ => {
                obs.class("random");
                (0..n).map(|_| b.below(256) as u8).collect()
            }
        }
    }
}
impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "The real binary's zero on generated gzip files; contents around 8 KiB and 64 KiB, without, with one or with many \
         natural cut points; output decoded by an independent decoder, block ends against a reference chunker. Also cut and \
         damaged files, bad headers, failing outputs. Non-trivial: every run (content is never empty)."
    }
    fn max_choices(&self) -> usize {
        300
    }
    fn cases(&self) -> (u32, u32) {
        (20_000, 200_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let (f, kind) = if src.bool() {
            let d = Self::content(src, obs);
            obs.class_if(d.len() > 65535, "content above 64 KiB");
            let header = gen_::gz_header(src);
            let o = crate::zlibx::ZOpts {
                level: src.pick(&[0, 1, 6]),
                window: 15,
                mem: 9,
                strategy: 0,
                chunk: usize::MAX,
                flush: 0,
                params: vec![],
            };
            let st = crate::zlibx::deflate(&d, &o);
            let f = put_file(&header, &st);
            if f.r.data != d {
                harness_err!("own decoder: {:?}", f.r.err);
            }
            (f, Kind::Valid)
        } else {
            match gen_case(src, obs, 3000)? {
                Some(x) => x,
                None => return Ok(()),
            }
        };
        if f.r.data.is_empty() && !matches!(kind, Kind::Cut | Kind::BadHeader) {
            return Ok(());
        }
        let input = gen_in(src, f.bytes.len());
        note(obs, "zero", &f, input);
        obs.nontrivial = true;
        self.decide(&f, kind, input)
    }
    fn fixed(&self) -> Vec<String> {
        let mut v = vec!["huge".to_string(), "far".to_string()];
        for n in [1usize, 8191, 8192, 8193, 65534, 65535, 65536, 65537, 73726, 73727, 73728, 131070, 131071, 600_000] {
            for k in 0..3 {
                v.push(format!("content {n} {k}"));
            }
        }
        v.push("content 17000000 3".into());
        v
    }
    fn fixed_thorough(&self) -> Vec<String> {
        vec!["huge 1".into()]
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let head = [0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 0, 3];
        if name == "far" {
            let mut b = Bits::default();
            b.val(0b011, 3);
            write_codes(&mut b, &fixed_lit_lens(), &[5; 32], &[RCode::Lit(65), RCode::Ref { dist: 2, len: 3 }], false);
            b.align();
            b.bytes.extend([0; 8]);
            let r = decode(&b.bytes);
            let footer = head.len() + b.bytes.len() - 8;
            let bytes = [&head[..], &b.bytes[..]].concat();
            return self.decide(&File { bytes, header: head.len(), footer, r, out: Out::Pipe }, Kind::Damaged, In::File);
        }
        if name.starts_with("huge") {
            if name == "huge" && std::env::var_os("VERIF_SCALE").is_some() {
                // a run cut down by hand
                return Ok(());
            }
            let (bytes, n) = huge_file();
            let patience = if name == "huge" { (400, false) } else { (1500, true) };
            return run_huge("zero", &bytes, patience, obs, |r| {
                let mut want = vec![0; 10];
                let e = r.read_exact(&mut want);
                ensure_p!(e.is_ok() && want == bytes[..10], "zero's header of a huge file");
                let lens: Vec<u64> = (0..3).map(|k| chunk_ends(&huge_bytes(k, 65535))[0] as u64).collect();
                let (mut at, mut crc) = (0u64, !0u32);
                let mut buf = vec![0; 65535];
                loop {
                    let mut h = [0; 5];
                    ensure_p!(r.read_exact(&mut h).is_ok(), "zero's output of a huge file ends at {at} of {n}");
                    let want = lens[(at % 3) as usize];
                    let want = if n - at < 65535 { chunk_ends(&huge_bytes(at, (n - at) as usize))[0] as u64 } else { want };
                    let w = (want as u16).to_le_bytes();
                    let last = at + want == n;
                    ensure_p!(h == [u8::from(last), w[0], w[1], !w[0], !w[1]], "zero's block header {h:?} at {at} of {n}");
                    let buf = &mut buf[..want as usize];
                    ensure_p!(r.read_exact(buf).is_ok(), "zero's output of a huge file ends after {at} of {n}");
                    huge_same(buf, at)?;
                    crc = crc32_step(crc, buf);
                    at += want;
                    if last {
                        break;
                    }
                }
                let mut rest = vec![];
                let _ = r.read_to_end(&mut rest);
                let mut foot = (!crc).to_le_bytes().to_vec();
                foot.extend((n as u32).to_le_bytes());
                ensure_p!(rest == foot, "zero's footer of {n} bytes: {}, not {}", lz::hex(&rest), lz::hex(&foot));
                Ok(())
            });
        }
        let p: Vec<usize> = name.split(' ').filter_map(|x| x.parse().ok()).collect();
        let n = p[0];
        let d: Vec<u8> = match p[1] {
            // never a natural cut
            0 => (0..n).map(|i| u8::from(i % 8192 == 0)).collect(),
            // always
            1 => vec![200; n],
            3 => gen_::data_len(&mut Src::Prng(3), n),
            // the only cut is one byte before the longest block's end
            _ => {
                let mut d: Vec<u8> = (0..n).map(|i| u8::from(i % 8192 == 0)).collect();
                for i in 0..17 {
                    if 65533usize.checked_sub(i).is_some_and(|k| k < n) {
                        d[65533 - i] = if i < 16 { 255 } else { 15 };
                    }
                }
                d
            }
        };
        let o = crate::zlibx::ZOpts { level: 6, window: 15, mem: 8, strategy: 0, chunk: usize::MAX, flush: 0, params: vec![] };
        let st = crate::zlibx::deflate(&d, &o);
        let f = put_file(&head, &st);
        if f.r.data != d {
            harness_err!("own decoder: {:?}", f.r.err);
        }
        self.decide(&f, Kind::Valid, In::File)?;
        if p[1] == 3 {
            return Ok(());
        }
        obs.extra_evals += 3;
        self.decide(&f, Kind::Valid, In::Pipe(777))?;
        for out in [Out::Full, Out::Closed] {
            self.decide(&f, Kind::FailingOutput(out), In::Stdin)?;
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["content is not empty (zero declines empty content by design)"]
    }
}

pub struct C21;
impl C21 {
    fn agree(&self, f: &File, how: [In; 4]) -> Res {
        let n = f.r.data.len();
        let cap = f.bytes.len() + n + n / 100 + 300_000;
        let cat = run("cat", &f.bytes, how[0], Out::Pipe, cap)?;
        let zero = run("zero", &f.bytes, how[1], Out::Pipe, cap)?;
        ensure_p!(cat.ok() && zero.ok(), "on a valid file cat: {}, zero: {}", show(&cat), show(&zero));
        let cat2 = run("cat", &zero.out, how[2], Out::Pipe, cap)?;
        ensure_p!(cat2.ok(), "cat fails on zero's output: {} ({n} bytes of content)", show(&cat2));
        ensure_p!(cat2.out == cat.out, "cat of zero's output differs from cat: {}", lz::diff(&cat2.out, &cat.out));
        let zero2 = run("zero", &zero.out, how[3], Out::Pipe, cap)?;
        ensure_p!(zero2.ok(), "zero fails on its own output: {}", show(&zero2));
        ensure_p!(zero2.out == zero.out, "zero of zero's output differs from it: {}", lz::diff(&zero2.out, &zero.out));
        let dump = run("dump", &zero.out, how[1], Out::Pipe, 10_000_000)?;
        ensure_p!(dump.ok(), "dump fails on zero's output: {}", show(&dump));
        let text = String::from_utf8_lossy(&dump.out);
        let mut total = 0;
        for (i, l) in text.lines().enumerate() {
            if i % 2 == 0 {
                ensure_p!(l == format!("block {}:", i / 2), "dump of zero's output, line {}: {l:?}", i + 1);
                continue;
            }
            let size = l.strip_prefix(" - uncompressed: ").and_then(|l| l.strip_suffix(" bytes")).and_then(|l| l.parse::<usize>().ok());
            match size {
                Some(k) => total += k,
                None => viol!("dump of zero's output, line {}: {l:?}", i + 1),
            }
        }
        ensure_p!(total == n, "dump of zero's output lists {total} bytes of content, cat gives {n}");
        Ok(())
    }

    fn same_for(&self, cmd: &str, f: &File, a: In, b: In) -> Res {
        let cap = f.bytes.len() * 400 + f.r.data.len() * 60 + 1_000_000;
        let x = run(cmd, &f.bytes, a, Out::Pipe, cap)?;
        let y = run(cmd, &f.bytes, b, Out::Pipe, cap)?;
        ensure_p!(x.ok() == y.ok(), "{cmd} of the same bytes, {a:?}: {}, {b:?}: {}, for {}", show(&x), show(&y), lz::hex(&f.bytes));
        ensure_p!(x.out == y.out, "{cmd} of the same bytes, {a:?} and {b:?}: {}", lz::diff(&x.out, &y.out));
        Ok(())
    }

    fn unreadable(&self, cmd: &str, f: &File, input: In) -> Res {
        let cap = f.bytes.len() * 400 + f.r.data.len() * 60 + 1_000_000;
        let r = run(cmd, &f.bytes, input, Out::Pipe, cap)?;
        ensure_p!(!r.ok(), "{cmd} succeeds although its input cannot be read ({input:?}, stream ends at {}): {}", f.footer, show(&r));
        match cmd {
            _ if !matches!(input, In::Reset(_)) => {
                ensure_p!(r.out.is_empty(), "{cmd} prints {} bytes with unreadable input ({input:?})", r.out.len());
            }
            "cat" => ensure_p!(f.r.data.starts_with(&r.out), "cat printed other than the content's start ({input:?})"),
            "dump" => {
                let texts = dump_text(&f.r.blocks);
                let all = texts.concat();
                let mut at = 0;
                let mut whole = r.out.is_empty();
                for t in &texts {
                    at += t.len();
                    whole |= at == r.out.len();
                }
                ensure_p!(whole && all.as_bytes().starts_with(&r.out), "dump printed other than whole blocks ({input:?}): {}", text_diff(&r.out, &all));
            }
            _ => {}
        }
        Ok(())
    }
}
impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "The real binary: cat, zero, zero again and dump run on one another's output for generated files with content; each \
         command on the same bytes (valid, cut or damaged) delivered as a file, redirected or piped; missing files, directories \
         and connections reset part way. Non-trivial: every case."
    }
    fn max_choices(&self) -> usize {
        300
    }
    fn cases(&self) -> (u32, u32) {
        (14_000, 160_000)
    }
    fn run(&self, src: &mut Src, obs: &mut Obs) -> Res {
        let mode = src.weighted(&[4, 2, 2]);
        let f = if mode == 0 && src.bool() {
            let d = C16::content(src, obs);
            let header = gen_::gz_header(src);
            let (st, _) = gen_::real_stream(src, &d);
            put_file(&header, &st)
        } else {
            match gen_case(src, obs, 2000)? {
                Some((f, Kind::Valid | Kind::FailingOutput(_))) => f,
                Some((f, _)) if mode == 1 => f,
                _ => return Ok(()),
            }
        };
        let mut how = || gen_in(src, f.bytes.len());
        let how = [how(), how(), how(), how()];
        obs.nontrivial = true;
        note(obs, "agreement", &f, how[0]);
        match mode {
            0 => {
                if f.r.data.is_empty() {
                    obs.nontrivial = false;
                    return Ok(());
                }
                obs.class("commands on one another's output");
                self.agree(&f, how)
            }
            1 => {
                obs.class("same bytes, other delivery");
                let cmd = src.pick(&["cat", "dump", "zero"]);
                if cmd == "zero" && f.r.data.is_empty() {
                    return Ok(());
                }
                // how much of its output a failing zero or cat had written may differ
                if decode_opts(&f.bytes[f.header.min(f.bytes.len())..], false).err.is_some() {
                    let a = run(cmd, &f.bytes, how[0], Out::Pipe, 50_000_000)?;
                    let b = run(cmd, &f.bytes, how[1], Out::Pipe, 50_000_000)?;
                    ensure_p!(a.ok() == b.ok(), "{cmd}, {:?}: {}, {:?}: {}", how[0], show(&a), how[1], show(&b));
                    return Ok(());
                }
                self.same_for(cmd, &f, how[0], how[1])
            }
            _ => {
                let cmd = src.pick(&["cat", "dump", "zero"]);
                let input = match src.weighted(&[8, 1, 1, 1]) {
                    0 => In::Reset(match src.below(3) {
                        0 => f.footer - 1 - src.below(f.footer.min(12)),
                        1 => src.below(f.header + 1),
                        _ => src.below(f.footer),
                    }),
                    1 => In::Missing,
                    2 => In::Dir,
                    _ => In::StdinDir,
                };
                obs.class(match input {
                    In::Reset(_) => "reset part way",
                    In::Missing => "missing",
                    In::Dir => "directory argument",
                    _ => "directory as stdin",
                });
                self.unreadable(cmd, &f, input)
            }
        }
    }
    fn fixed(&self) -> Vec<String> {
        let mut v: Vec<String> = [1usize, 8191, 8192, 8193, 65535, 65536, 131070, 700_000].iter().map(|n| format!("agree {n}")).collect();
        for c in ["cat", "dump", "zero"] {
            v.push(format!("unreadable {c}"));
        }
        v
    }
    fn run_fixed(&self, name: &str, obs: &mut Obs) -> Res {
        let head = [0x1f, 0x8b, 8, 0, 1, 2, 3, 4, 0, 3];
        let o = crate::zlibx::ZOpts { level: 6, window: 15, mem: 8, strategy: 0, chunk: usize::MAX, flush: 0, params: vec![] };
        if let Some(n) = name.strip_prefix("agree ") {
            let n: usize = n.parse().unwrap();
            for k in 0..3u64 {
                let mut s = Src::Prng(n as u64 + k);
                let d = match k {
                    0 => vec![0; n],
                    1 => (0..n).map(|_| s.below(256) as u8).collect(),
                    _ => gen_::data_len(&mut s, n),
                };
                let f = put_file(&head, &crate::zlibx::deflate(&d, &o));
                self.agree(&f, [In::File, In::Stdin, In::Pipe(usize::MAX), In::File])?;
                obs.extra_evals += 1;
            }
            return Ok(());
        }
        let cmd = name.strip_prefix("unreadable ").unwrap();
        let d = b"some content, some more content".to_vec();
        let f = put_file(&head, &crate::zlibx::deflate(&d, &o));
        for input in [In::Missing, In::Dir, In::StdinDir] {
            self.unreadable(cmd, &f, input)?;
        }
        for k in 0..f.footer {
            self.unreadable(cmd, &f, In::Reset(k))?;
            obs.extra_evals += 1;
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["content is not empty where zero is involved (zero declines empty content by design)"]
    }
}
