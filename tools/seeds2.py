L = "lib/src/"
B = "rezippers/src/"
SEEDS = []
def S(id, property, needs, breaks, edits, rs=None, py=None):
    d = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits)
    if rs: d["rs"] = rs
    if py: d["py"] = py
    SEEDS.append(d)

S("c05-remainder-first", "C05", "more than 32767 correct codes in a row",
  "a long run is written with the remainder first, which reads back but is not the format",
  [(L + "serialise_trace.rs", """                while corrects > usize::from(max_representable) {
                    ret.write_u16::<LE>(representation_offset + max_representable)
                        .expect("writing to a vector");
                    corrects -= usize::from(max_representable);
                }

                assert_ne!(0, corrects);

                ret.write_u16::<LE>(
                    representation_offset + u16::try_from(corrects).expect("max < u16::MAX"),
                )
                .expect("writing to a vector");""", """                // every piece but one is as long as can be
                while corrects > 0 {
                    let piece = match corrects % usize::from(max_representable) {
                        0 => max_representable,
                        short => u16::try_from(short).expect("max < u16::MAX"),
                    };
                    ret.write_u16::<LE>(representation_offset + piece)
                        .expect("writing to a vector");
                    corrects -= usize::from(piece);
                }""")], rs="""
fn main() {
    for n in [1usize, 32767, 32768, 65534, 100000] {
        let got = serialise_trace::write(&vec![Trace::Correct; n]);
        let mut want = vec![];
        let mut left = n;
        while left > 0 {
            let p = left.min(32767);
            want.extend((32768 + p as u16).to_le_bytes());
            left -= p;
        }
        assert_eq!(got, want, "{n}");
    }
}
""")

S("c09-crc-order", "C09", "a header with both a comment (or name) and a header checksum whose bytes contain no zero where the order matters",
  "the header checksum is read before the comment, so the header's end moves",
  [(L + "gzip.rs", """    if has_bit(flags, 4) {
        // comment
        read_null_terminated(&mut from, &mut whole_thing)?;
    }

    if has_bit(flags, 1) {
        // CRC
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
    }
""", """    if has_bit(flags, 1) {
        // CRC
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
    }

    if has_bit(flags, 4) {
        // comment
        read_null_terminated(&mut from, &mut whole_thing)?;
    }
""")], rs="""
fn main() {
    for flags in 0..32u8 {
        for crc in [[1u8, 2], [0, 1], [1, 0], [0, 0]] {
            let mut f = vec![31, 139, 8, flags, 1, 2, 3, 4, 0, 3];
            if flags & 4 != 0 { f.extend([3, 0, 9, 8, 7]); }
            if flags & 8 != 0 { f.extend(b"name\\0"); }
            if flags & 16 != 0 { f.extend(b"c\\0"); }
            if flags & 2 != 0 { f.extend(crc); }
            let n = f.len();
            f.extend([3, 0, 1, 1, 1]);
            let mut c = Cursor::new(&f);
            assert_eq!(gzip::discard_header(&mut c).unwrap(), &f[..n], "{flags}");
            assert_eq!(c.position() as usize, n);
        }
    }
}
""")

S("c09-reserved", "C09", "a header with only the lowest reserved flag bit set",
  "reserved flag bit 5 is accepted",
  [(L + "gzip.rs", "0 == (flags & 0b1110_0000)", "0 == (flags & 0b1100_0000)")], rs="""
fn main() {
    for flags in 0..=255u8 {
        let mut f = vec![31, 139, 8, flags, 1, 2, 3, 4, 0, 3];
        f.extend([0; 40]);
        assert_eq!(gzip::discard_header(Cursor::new(&f)).is_ok(), flags < 32);
    }
}
""")

S("c09-long-extra", "C09", "an extra field of 32768 bytes or more",
  "extra-field lengths with the top bit set are read as negative and skipped",
  [(L + "gzip.rs", """let extra_field_length = ((buf[1] as usize) << 8) | (buf[0] as usize);
        let mut extra_field = vec![0u8; extra_field_length];""", """let extra_field_length = i16::from_le_bytes(buf);
        let mut extra_field = vec![0u8; usize::try_from(extra_field_length).unwrap_or(0)];""")], rs="""
fn main() {
    for n in [0usize, 1, 255, 256, 32767, 32768, 65535] {
        let mut f = vec![31, 139, 8, 4, 1, 2, 3, 4, 0, 3];
        f.extend((n as u16).to_le_bytes());
        f.extend(vec![5; n]);
        let len = f.len();
        f.extend([3, 0]);
        assert!(gzip::discard_header(Cursor::new(&f)).unwrap() == &f[..len], "{n}");
    }
}
""")

S("c10-restart", "C10", "asking the iterator again after the end, with more data following",
  "after reporting the end once the iterator starts on whatever follows",
  [(L + "parse.rs", """                Ok(()) => None,
                Err(e) => Some(Err(e)),
            };""", """                Ok(()) => {
                    // ready for the next stream
                    self.end = false;
                    None
                }
                Err(e) => Some(Err(e)),
            };""")], rs="""
fn main() {
    let data = [3u8, 0, 3, 0, 3, 0, 9];
    let mut c = Cursor::new(&data);
    {
        let mut it = parse_deflate(&mut c);
        assert!(it.next().unwrap().is_ok());
        for _ in 0..4 { assert!(it.next().is_none()); }
    }
    assert_eq!(c.position(), 2);
}
""")

S("c11-copy-u16", "C11", "a window of more than 32768 bytes, and a copy from well before the write position",
  "where to copy from is computed in 16 bits, which overflows for large windows",
  [(L + "circles.rs", """        let mut read_from = (self
            .idx
            .wrapping_sub(usize::from(dist))
            .wrapping_add(self.data.len()))
            % self.data.len();
""", """        let mut read_from = usize::from(
            (self.idx as u16)
                .wrapping_sub(dist)
                .wrapping_add(self.capacity())
                % self.capacity(),
        );
""")], rs="""
fn main() {
    for cap in [5u16, 32768, 32769, 50000, 65535] {
        for n in [cap as usize - 2, cap as usize - 1, cap as usize + 3, cap as usize + 40] {
            let mut c = CircularBuffer::with_capacity(cap);
            let mut all: Vec<u8> = (0..n).map(|i| (i * 7 >> 3) as u8).collect();
            c.extend(&all);
            for dist in [1u16, 2, 3, cap / 2, cap - 2] {
                let mut out = vec![];
                c.copy(dist, 5, &mut out).unwrap();
                let from = all.len();
                for _ in 0..5 { all.push(all[all.len() - dist as usize]); }
                assert_eq!(out, &all[from..], "{cap} {n} {dist}");
            }
        }
    }
}
""")

S("c12-pop-byte", "C12", "popping a byte from a bit vector that is not a whole number of bytes long, then using it further",
  "the bits shifted out of the last byte are left behind, and show up in later pushes and comparisons",
  [(L + "bit.rs", """        let mut ret = 0u8;

        for pos in 0..8 {
            if self.pop().unwrap() {
                ret |= 1 << (7 - pos);
            }
        }

        Some(ret)""", """        self.len -= 8;
        let last = self.bytes.pop().expect("non-empty");
        let bit = self.len % WORD_SIZE;
        if 0 == bit {
            return Some(last);
        }

        // the rest is at the top of the byte before
        let before = self.bytes.last().expect("at least nine bits");
        Some((last << (8 - bit)) | (before >> bit))""")], rs="""
fn main() {
    let mut v = BitVec::new();
    for i in 0..13 { v.push(i != 3); }
    assert_eq!(v.pop_byte(), Some(0xff));
    assert_eq!(v.len(), 5);
    v.push(false);
    let got: Vec<bool> = v.iter().collect();
    assert_eq!(got, [true, true, true, false, true, false]);
    let mut w = BitVec::new();
    for b in got { w.push(b); }
    assert!(v == w);
}
""")

S("c12-bits-val-16", "C12", "writing a 16-bit value with the top bits above a byte boundary at certain alignments",
  "values written when six or more bits are pending lose their top bit",
  [(L + "bit.rs", """        for i in 0..bits {
            self.write_bit((val & (1 << i)) != 0)?;
        }
        Ok(())""", """        // fast path: the first few complete the pending byte
        let mut acc = u32::from(val) << self.current.len();
        acc &= 0x003f_ffff;
        for _ in 0..self.current.len() {
            acc >>= 1;
        }
        for i in 0..bits {
            self.write_bit((acc & (1 << i)) != 0)?;
        }
        Ok(())""")], rs="""
fn main() {
    for lead in 0..8u8 {
        for val in [0u16, 1, 0x8000, 0x7fff, 0xffff, 0xc000] {
            let mut w = BitWriter::new(vec![]);
            w.write_bits_val(lead, 0).unwrap();
            w.write_bits_val(16, val).unwrap();
            w.align().unwrap();
            let out = w.into_inner();
            let mut r = BitReader::new(&out[..]);
            r.read_part(lead).unwrap();
            assert_eq!(r.read_part(16).unwrap(), val, "{lead}");
        }
    }
}
""")

FLAKY = """
/// Fails with `kind` at call number `at`, once; otherwise one byte at a time.
struct Flaky<'a> { data: &'a [u8], call: usize, at: usize, kind: ErrorKind }
impl Read for Flaky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.call += 1;
        if self.call == self.at + 1 { return Err(self.kind.into()); }
        let n = buf.len().min(1).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
"""
S("c13-name-interrupted", "C13", "a read interrupted while the name or comment of the header is read",
  "an interrupted read inside the name or comment fails the header instead of being retried",
  [(L + "gzip.rs", """        let mut buf = [0u8; 1];
        from.read_exact(&mut buf)?;
        into.push(buf[0]);
        if 0 == buf[0] {""", """        let mut buf = [0u8; 1];
        ensure!(1 == from.read(&mut buf)?, "unterminated field");
        into.push(buf[0]);
        if 0 == buf[0] {""")], rs=FLAKY + """
fn main() {
    let h = b"\\x1f\\x8b\\x08\\x1a1234\\0\\x03name\\0comment\\0\\x01\\x02";
    for at in 0..40 {
        let f = Flaky { data: h, call: 0, at, kind: ErrorKind::Interrupted };
        assert_eq!(gzip::discard_header(f).map_err(|e| format!("{at} {e}")).unwrap(), h);
    }
    for cut in 0..h.len() { assert!(gzip::discard_header(&h[..cut]).is_err()); }
}
""")

S("c13-copy-write", "C13", "a writer that takes nothing, or is interrupted, in the middle of a back-reference",
  "bytes the writer did not take while a back-reference is expanded are dropped",
  [(L + "circles.rs", "into.write_all(&[b])?;", "into.write(&[b])?;")], rs="""
struct Full(Vec<u8>, usize);
impl Write for Full {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(self.1 - self.0.len());
        self.0.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    for room in 0..20 {
        let mut w = Full(vec![], room);
        let mut d = CircularBuffer::with_capacity(100);
        let ok = decompressed_codes(&mut w, &mut d, &[l(1), r(1, 10)]).is_ok();
        assert_eq!(ok, room >= 11, "{room}");
    }
}
""")

S("c13-trace-error", "C13", "a read error (not end of file) at the start of a record of a serialised trace",
  "any error between records is taken as the end of the trace",
  [(L + "serialise_trace.rs", """            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
            Err(e) => bail!(e),""", """            // no more records
            Err(_) => break,""")], rs=FLAKY + """
fn main() {
    let d = [0u8, 0, 5, 0, 7, 3, 0x80, 0, 0];
    for at in 0..9 {
        let f = Flaky { data: &d, call: 0, at, kind: ErrorKind::Other };
        assert!(serialise_trace::read(f).is_err(), "{at}");
    }
    let f = Flaky { data: &d, call: 0, at: 99, kind: ErrorKind::Other };
    assert_eq!(serialise_trace::read(f).unwrap().len(), 6);
}
""")

S("c13-stored-chunks", "C13", "a stored block delivered by a reader in several pieces",
  "a stored block is read with a single read, so pieces after the first are lost",
  [(L + "bit.rs", """        self.inner
            .read_exact(&mut buf)
            .with_context(|| format_err!("reading a length-prefixed {} bytes", len))?;
""", """        let got = self
            .inner
            .read(&mut buf)
            .with_context(|| format_err!("reading a length-prefixed {} bytes", len))?;
        ensure!(0 != got || buf.is_empty(), "end of input in an uncompressed block");
""")], rs=FLAKY + """
fn main() {
    let d = [1u8, 4, 0, 0xfb, 0xff, 9, 8, 7, 6];
    let f = Flaky { data: &d, call: 0, at: 99, kind: ErrorKind::Other };
    let b: Vec<Block> = parse_deflate(f).map(|b| b.unwrap()).collect();
    assert_eq!(b, [Block::Uncompressed(vec![9, 8, 7, 6])]);
}
""")

S("c14-swallow", "C14", "a compressed stream damaged or cut after its first block",
  "cat stops quietly at the first block it cannot read",
  [(B + "cat.rs", """    for block in librezip::parse_deflate(&mut reader).into_iter() {
        librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
    }
""", """    let mut blocks = librezip::parse_deflate(&mut reader);
    let mut next = blocks.next().transpose()?;
    while let Some(block) = next {
        librezip::decompressed_block(&mut stdout, &mut dictionary, &block)?;
        next = blocks.next().and_then(|block| block.ok());
    }
""")], py="""
content = b"hello there" * 50
c = zlib.compressobj(6, zlib.DEFLATED, -15)
raw = c.compress(content[:200]) + c.flush(zlib.Z_FULL_FLUSH) + c.compress(content[200:]) + c.flush()
f = wrap(raw, content)
assert run("cat", f) == (0, content)
for cut in range(11, len(HEADER) + len(raw)):
    rc, out = run("cat", f[:cut])
    assert rc != 0 and content.startswith(out), cut
""")

S("c14-window", "C14", "a back-reference of distance exactly 32768",
  "the default window holds one byte less than DEFLATE's",
  [(L + "circles.rs", "Self::with_capacity(32 * 1024)\n", "Self::with_capacity(u16::MAX / 2)\n")], py="""
content = bytes(random.Random(1).randrange(256) for _ in range(32768))
for dist_extra in (8190, 8191):
    b = Bits()
    b.put(1, 1); b.put(2, 1)
    b.sym(257); b.huff(5, 29); b.put(13, dist_extra)
    b.sym(256)
    d = 24577 + dist_extra
    want = content
    for _ in range(3): want += want[-d:][:1]
    raw = stored([content, b""])
    raw = struct.pack("<BHH", 0, 32768, 32768 ^ 0xffff) + content + b.data()
    assert run("cat", wrap(raw, want)) == (0, want), d
""")

S("c14-empty-block", "C14", "an empty stored block (a flush point) in the middle of the stream",
  "an empty stored block is taken as the end",
  [(B + "cat.rs", """        librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
""", """        let block = block?;
        if block == librezip::Block::Uncompressed(Vec::new()) {
            // nothing more to say
            break;
        }
        librezip::decompressed_block(&mut stdout, &mut dictionary, &block)?;
""")], py="""
content = b"hello there" * 50
c = zlib.compressobj(6, zlib.DEFLATED, -15)
raw = c.compress(content[:200]) + c.flush(zlib.Z_SYNC_FLUSH) + c.compress(content[200:]) + c.flush()
assert run("cat", wrap(raw, content)) == (0, content)
""")

S("c15-escape", "C15", "a literal byte above 0x7f, a quote or a double quote in a block",
  "characters are printed in another escaping",
  [(B + "dump.rs", 'println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr));', 'println!("    - lit: 0x{:02x}: \'{}\'", chr, chr.escape_ascii());')], py="""
content = bytes(range(256))
b = Bits()
b.put(1, 1); b.put(2, 1)
for x in content: b.sym(x)
b.sym(256)
rc, out = run("dump", wrap(b.data(), content))
assert rc == 0
lits = [l for l in out.decode().split("\\n") if "- lit:" in l]
def ch(b):
    if b == 0: return "'\\\\0'"
    if b == 9: return "'\\\\t'"
    if b == 10: return "'\\\\n'"
    if b == 13: return "'\\\\r'"
    if b == 39: return "'\\\\''"
    if b == 92: return "'\\\\\\\\'"
    if b < 32 or 127 <= b <= 160 or b == 173: return "'\\\\u{%x}'" % b
    return "'%s'" % chr(b)
want = ["    - lit: 0x%02x: %s" % (b, ch(b)) for b in content]
assert lits == want, [x for x in zip(lits, want) if x[0] != x[1]][:3]
""")

S("c15-trees-cut", "C15", "a dynamic block whose code tables take more than 512 bits",
  "long code tables are printed cut short",
  [(L + "bit.rs", """        for bit in self.iter() {
            write!(f, "{}", if bit { "1" } else { "0" })?;""", """        for bit in self.iter().take(512) {
            write!(f, "{}", if bit { "1" } else { "0" })?;""")], py="""
rnd = random.Random(3)
content = bytes(min(255, int(rnd.expovariate(0.02))) for _ in range(20000))
rc, out = run("dump", gz(content))
assert rc == 0
n = 0
for m in re.finditer(r"dynamic huffman: BitVec: (\\d+): ([01]*)", out.decode()):
    assert int(m[1]) == len(m[2])
    n = max(n, len(m[2]))
assert n > 512
""")

S("c15-block-number", "C15", "a stream with an empty block before the last",
  "empty blocks are not printed, and those after are numbered without them",
  [(B + "dump.rs", """    for (id, block) in librezip::parse_deflate(&mut reader).into_iter().enumerate() {
        let block = block?;
""", """    let blocks = librezip::parse_deflate(&mut reader)
        .filter(|block| !matches!(block, Ok(Block::Uncompressed(data)) if data.is_empty()));
    for (id, block) in blocks.enumerate() {
        let block = block?;
""")], py="""
content = b"hello there" * 50
c = zlib.compressobj(6, zlib.DEFLATED, -15)
raw = c.compress(content[:200]) + c.flush(zlib.Z_SYNC_FLUSH) + c.compress(content[200:]) + c.flush()
rc, out = run("dump", wrap(raw, content))
assert rc == 0 and out.count(b"block ") == 3 and b"uncompressed: 0 bytes" in out
""")

S("c15-cut-ok", "C15", "a stream cut after a whole block",
  "dump takes the end of input between blocks as the end of the stream",
  [(B + "dump.rs", "        let block = block?;\n", """        let block = match block {
            Ok(block) => block,
            Err(_) if id > 0 => break,
            Err(e) => return Err(e),
        };
""")], py="""
f = wrap(stored([b"abc", b"def", b"ghi"]), b"abcdefghi")
assert run("dump", f)[0] == 0
for cut in range(10, 10 + 24):
    assert run("dump", f[:cut])[0] != 0, cut
""")

S("c16-cut-at-min", "C16", "content whose first (or any) 8192-byte window sums to a multiple of 4096",
  "a block never ends at the smallest size, only one byte later or more",
  [(B + "zero.rs", """        if 0 == (sum % RSYNC_MOD) {
            break;
        }

        match from.next() {""", """        if pos > 0 && 0 == (sum % RSYNC_MOD) {
            break;
        }

        match from.next() {""")], py="""
def blocks(out):
    at, sizes = 10, []
    while True:
        last, n = struct.unpack_from("<BH", out, at)
        sizes.append(n); at += 5 + n
        if last: return sizes
content = bytes(8192) + bytes([1]) * 100
rc, out = run("zero", gz(content))
assert rc == 0 and blocks(out) == [8192, 100], blocks(out)
""")

S("c16-window-sum", "C16", "content long enough to slide the sum window, with the cut depending on the byte that leaves it",
  "the byte taken out of the sliding sum is one too late",
  [(B + "zero.rs", "sum = sum.wrapping_sub(usize::from(buf[pos]));", "sum = sum.wrapping_sub(usize::from(buf[pos + 1]));")], py="""
def blocks(out):
    at, sizes = 10, []
    while True:
        last, n = struct.unpack_from("<BH", out, at)
        sizes.append(n); at += 5 + n
        if last: return sizes
def want(d):
    sizes = []
    while d:
        n = min(8192, len(d))
        while n < min(65535, len(d)) and sum(d[n - 8192:n]) % 4096: n += 1
        sizes.append(n); d = d[n:]
    return sizes
rnd = random.Random(5)
for _ in range(3):
    content = bytes(rnd.randrange(256) for _ in range(60000))
    rc, out = run("zero", gz(content))
    assert rc == 0 and blocks(out) == want(content)
""")

S("c16-final-full", "C16", "content that ends exactly where a block of the largest size does",
  "the final-block bit is missing when the last block has the largest size",
  [(B + "zero.rs", "        if reader.peek().is_some() {\n            // uncompressed block, not end", "        if RSYNC_MAX == buf.len() || reader.peek().is_some() {\n            // uncompressed block, not end")], py="""
# no window of 8192 bytes sums to a multiple of 4096
content = bytes([1]) + bytes(65534)
import itertools
content = bytes([1 if i % 8192 == 0 else 0 for i in range(65535)])
for c in (content, content + b"x", content[:-1]):
    rc, out = run("zero", gz(c))
    assert rc == 0
    d = zlib.decompressobj(31)
    assert d.decompress(out) == c and d.eof, len(c)
""")

INNER = """
struct Odd { data: Vec<u8>, calls: usize }
impl Read for Odd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        match self.calls % 3 {
            0 => Err(ErrorKind::Interrupted.into()),
            _ => { let n = buf.len().min(2).min(self.data.len()); for i in 0..n { buf[i] = self.data.remove(0); } Ok(n) }
        }
    }
}
impl Write for Odd {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        match self.calls % 3 {
            0 => Err(ErrorKind::Interrupted.into()),
            _ => { let n = buf.len().min(2); self.data.extend(&buf[..n]); Ok(n) }
        }
    }
    fn flush(&mut self) -> io::Result<()> { self.calls += 1; if self.calls % 3 == 0 { Err(ErrorKind::Other.into()) } else { Ok(()) } }
}
"""
S("c17-write-all", "C17", "an inner writer that takes fewer bytes than it is given, or fails",
  "the writing filter writes everything itself, so counts and errors differ from the inner writer's",
  [(L + "filter.rs", """        let len = self.inner.write(buf)?;
        self.hash.update(&buf[0..len]);
        Ok(len)""", """        self.inner.write_all(buf)?;
        self.hash.update(buf);
        Ok(buf.len())""")], rs=INNER + """
fn main() {
    let mut a = Odd { data: vec![], calls: 0 };
    let mut f = filter::FilterWrite::new(Odd { data: vec![], calls: 0 });
    for n in [1usize, 3, 5, 2, 0, 9, 1] {
        let buf = vec![n as u8; n];
        assert_eq!(a.write(&buf).map_err(|e| e.kind()), f.write(&buf).map_err(|e| e.kind()));
    }
    assert_eq!(a.data, f.into_inner().data);
}
""")

S("c17-retry", "C17", "an inner reader that is interrupted",
  "the reading filter retries interrupted reads instead of passing them on",
  [(L + "filter.rs", """        let len = self.inner.read(buf)?;
""", """        let len = loop {
            match self.inner.read(buf) {
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                other => break other?,
            }
        };
""")], rs=INNER + """
fn main() {
    let mut a = Odd { data: (0..50).collect(), calls: 0 };
    let mut f = filter::FilterRead::new(Odd { data: (0..50).collect(), calls: 0 });
    for n in [1usize, 3, 5, 2, 0, 9, 1] {
        let (mut x, mut y) = (vec![0; n], vec![0; n]);
        assert_eq!(a.read(&mut x).map_err(|e| e.kind()), f.read(&mut y).map_err(|e| e.kind()));
        assert_eq!(x, y);
    }
}
""")

S("c17-hash-short", "C17", "a read that returns fewer bytes than asked for into a buffer that is not all zero",
  "on a short read the hash takes one byte past those read",
  [(L + "filter.rs", """        let len = self.inner.read(buf)?;
        self.hash.update(&buf[0..len]);""", """        let len = self.inner.read(buf)?;
        // whole blocks hash faster
        let block = if len >= 128 && len < buf.len() { (len + 127) / 128 * 128 } else { len };
        self.hash.update(&buf[0..block.min(buf.len())]);""")], rs="""
fn main() {
    let data: Vec<u8> = (0..1000u32).map(|i| i as u8).collect();
    let mut f = filter::FilterRead::new(&data[..]);
    let mut buf = [5u8; 600];
    while f.read(&mut buf).unwrap() > 0 {}
    let mut g = filter::FilterRead::new(&data[..]);
    let mut buf = [5u8; 1];
    while g.read(&mut buf).unwrap() > 0 {}
    assert_eq!(f.hash(), g.hash());
}
""")

SPICY = """
fn predicted(data: &[u8], so_far: &[Code]) -> Vec<Code> {
    let refs = AllRefs::with_sixteen(&[], data, u16::MAX);
    let t = Technique::new(Config::spicy(), &refs);
    let mut s = t.scanner();
    for c in so_far { s.feedback(*c); }
    s.codes()
}
fn own(data: &[u8]) -> Vec<Code> {
    let mut codes = vec![];
    let mut at = 0;
    while at < data.len() {
        for c in predicted(data, &codes) { codes.push(c); at += c.emitted_bytes() as usize; }
    }
    codes
}
"""
S("c18-prefix-two", "C18", "the 'spicy' predictor rightly guessing literal, literal, reference",
  "only the first two of a multi-code guess are recognised",
  [(L + "trace.rs", "for end in 0..left.len() {", "for end in 0..left.len().min(2) {"),
   (L + "trace.rs", "        right.next();\n    }\n\n    left\n", "        right.next();\n    }\n\n    &left[..left.len().min(2)]\n")], rs=SPICY + """
fn main() {
    let mut seed = 88172645463325252u64;
    for _ in 0..500 {
        let data: Vec<u8> = (0..80).map(|_| b'a' + (rnd(&mut seed) % 3) as u8).collect();
        let codes = own(&data);
        let refs = AllRefs::with_sixteen(&[], &data, u16::MAX);
        let t = trace::trace(&codes, &Technique::new(Config::spicy(), &refs));
        assert!(t.iter().all(|x| *x == Trace::Correct));
    }
}
""")

S("c18-all-or-nothing", "C18", "a multi-code guess of the 'spicy' predictor that is right at first and wrong later",
  "a partly right guess is recorded as wrong from its first code",
  [(L + "trace.rs", "        let matches = shared_prefix(&guesses, &mut codes);", """        let all = codes.clone().take(guesses.len()).eq(&guesses);
        let matches = if all {
            shared_prefix(&guesses, &mut codes)
        } else {
            &[]
        };""")], rs=SPICY + """
fn main() {
    let mut seed = 88172645463325252u64;
    for _ in 0..500 {
        let data: Vec<u8> = (0..80).map(|_| b'a' + (rnd(&mut seed) % 3) as u8).collect();
        let mut codes = vec![];
        let mut at = 0;
        let mut want = vec![];
        while at < data.len() {
            let g = predicted(&data, &codes);
            let n = if g.len() > 1 { 1 } else { 0 };
            if n == 1 { codes.push(g[0]); want.push(true); at += 1; }
            want.push(g[n] == l(data[at]));
            codes.push(l(data[at]));
            at += 1;
        }
        let refs = AllRefs::with_sixteen(&[], &data, u16::MAX);
        let t = trace::trace(&codes, &Technique::new(Config::spicy(), &refs));
        assert_eq!(t.iter().map(|x| *x == Trace::Correct).collect::<Vec<_>>(), want);
    }
}
""")

S("c04-first-byte", "C04", "a history whose first byte starts the best match, referred to by the codes",
  "references to the very first byte are traced as predicted, which they never are",
  [(L + "trace.rs", """                    Code::Reference(r) => Trace::Actually(r),
                });""", """                    Code::Reference(r) if usize::from(r.dist) == scanner.pos => Trace::Correct,
                    Code::Reference(r) => Trace::Actually(r),
                });""")], rs="""
fn main() {
    let data = b"abcdeabcde";
    let codes = [l(b'a'), l(b'b'), l(b'c'), l(b'd'), l(b'e'), r(5, 5)];
    for level in 1..=9 {
        let refs = AllRefs::with_sixteen(&[], data, u16::MAX);
        let t = Technique::new(Config::gzip(level), &refs);
        let tr = trace::trace(&codes, &t);
        assert_eq!(trace::restore(&tr, &t), codes);
    }
}
""")


S("c01-padding", "C01", "padding bits that are not all zero",
  "padding is skipped without looking at it, so a stream whose padding holds something re-encodes differently",
  [(L + "bit.rs", """        while 0 != self.position() {
            ensure!(!self.read_bit()?, "padding bits should always be empty");
        }
        Ok(())
    }

    pub fn read_part""", """        self.remaining_bits = 0;
        Ok(())
    }

    pub fn read_part""")], rs="""
fn main() {
    for pad in 0..=255u8 {
        for d in [vec![3u8, pad & 0xfc], vec![1 | (pad & 0xf8), 1, 0, 0xfe, 0xff, 7]] {
            if let Ok((blocks, _)) = parse(&d) { assert_eq!(reencode(&blocks).unwrap(), d); }
        }
    }
}
""")

S("c03-cut-flush", "C03", "input ending inside the length check of an empty stored block",
  "an empty stored block cut short is accepted",
  [(L + "bit.rs", """        let ones_complement = self.read_aligned_u16()?;

        ensure!(
            (len ^ 0xFFFF) == ones_complement,
            "uncompressed block length validation failed"
        );
""", """        if 0 == len {
            // a flush marker: 00 00 ff ff
            let mut marker = [0u8; 2];
            let mut got = 0;
            while got < 2 {
                match self.inner.read(&mut marker[got..])? {
                    0 => break,
                    n => got += n,
                }
            }
            ensure!(marker[..got].iter().all(|&x| 0xff == x), "bad flush marker");
            return Ok(Vec::new());
        }

        let ones_complement = self.read_aligned_u16()?;

        ensure!(
            (len ^ 0xFFFF) == ones_complement,
            "uncompressed block length validation failed"
        );
""")], rs="""
fn main() {
    let d = [1u8, 0, 0, 0xff, 0xff];
    for cut in 0..5 { assert!(parse(&d[..cut]).is_err(), "{cut}"); }
    assert_eq!(parse(&d).unwrap().1, 5);
}
""")
