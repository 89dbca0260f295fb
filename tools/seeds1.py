L = "lib/src/"
SEEDS = []
def S(id, property, needs, breaks, edits, rs=None, py=None):
    d = dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits)
    if rs: d["rs"] = rs
    if py: d["py"] = py
    SEEDS.append(d)

S("c01-dist-table", "C01", "a back-reference of distance exactly 24576",
  "the distance encoder, made table-driven, has one base off by one, so distance 24576 re-encodes as another one",
  [(L + "huffman.rs", """    if distance <= 4 {
        Some((distance as u8 - 1, 0, 0))
    } else {
        let mut extra_bits = 1;
        let mut code = 4;
        let mut base = 4;

        while base * 2 < distance {
            extra_bits += 1;
            code += 2;
            base *= 2;
        }

        let half = base / 2;
        let delta = distance - base - 1;

        if distance <= base + half {
            Some((code, extra_bits, delta % half))
        } else {
            Some((code + 1, extra_bits, delta % half))
        }
    }
}
""", """    const BASE: [u16; 30] = [
        1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537,
        2049, 3073, 4097, 6145, 8193, 12289, 16385, 24576,
    ];

    let code = BASE.iter().rposition(|&base| base <= distance)?;
    let extra_bits = if code < 4 { 0 } else { code as u8 / 2 - 1 };
    Some((code as u8, extra_bits, distance - BASE[code]))
}
""")], rs="""
fn main() {
    for dist in 1..=32768u16 {
        let mut b = Bits::default();
        b.stored(false, &vec![7; 32768]);
        b.fixed(true, &[r(dist, 5), l(1)]);
        let (blocks, n) = parse(&b.bytes).unwrap();
        assert_eq!(n, b.bytes.len());
        assert!(reencode(&blocks).unwrap() == b.bytes, "distance {dist}");
    }
}
""")

S("c01-run-257", "C01", "a back-reference of length exactly 257",
  "length 257 is treated like 258 as having no extra bits, so re-encoding drops five bits",
  [(L + "huffman.rs", "3..=10 | 258 => None,", "3..=10 | 257 | 258 => None,")], rs="""
fn main() {
    for run in 3..=258u16 {
        let mut b = Bits::default();
        b.fixed(true, &[l(1), r(1, run), l(2)]);
        let (blocks, _) = parse(&b.bytes).unwrap();
        assert!(reencode(&blocks).unwrap() == b.bytes, "length {run}");
    }
}
""")

S("c01-stored-max", "C01", "a stored block of exactly 65535 bytes",
  "the largest stored block parses but is refused when it is written back",
  [(L + "bit.rs", "data.len() <= usize::from(std::u16::MAX),", "data.len() < usize::from(std::u16::MAX),")], rs="""
fn main() {
    for len in [0usize, 1, 65534, 65535] {
        let mut b = Bits::default();
        b.stored(true, &vec![7; len]);
        let (blocks, _) = parse(&b.bytes).unwrap();
        assert!(reencode(&blocks).ok().as_ref() == Some(&b.bytes), "length {len}");
    }
}
""")

S("c01-write-vec-bytes", "C01", "a dynamic block starting five bits into a byte whose code tables are a whole number of bytes long",
  "a fast path for long bit vectors at a byte boundary drops the last byte when the vector is a whole number of bytes",
  [(L + "bit.rs", """        for bit in vec.iter() {
            self.write_bit(bit)?;
        }
        Ok(())
    }

    pub fn write_length_prefixed""", """        let mut done = 0;
        if self.current.is_empty() && vec.len() > 64 {
            // we're on a byte boundary: the whole bytes don't need to go bit by bit
            let whole = (vec.len() - 1) / WORD_SIZE;
            self.inner.write_all(&vec.bytes()[..whole])?;
            done = vec.len() - vec.len() % WORD_SIZE;
        }
        for bit in vec.iter().skip(done) {
            self.write_bit(bit)?;
        }
        Ok(())
    }

    pub fn write_length_prefixed""")], rs="""
fn main() {
    // fixed code of 3 + 7 bits per empty block; 286 + n lengths of 4 bits after 14 + 57 bits
    let mut lit = vec![9u8; 286];
    for i in 0..226 { lit[i] = 8; }
    for ndist in 1..=30usize {
        for ncl in 0..2 {
            for lead in 0..8u32 {
                let mut b = Bits::default();
                for _ in 0..lead { b.fixed(false, &[]); }
                for _ in 0..lead { let pad = ncl; if pad == 1 { b.fixed(false, &[l(200)]); } }
                let mut dist = vec![0u8; ndist];
                dist[0] = 1;
                // 14 + 57 + 4 * (286 + ndist): odd; made even by leaving out the last of the code-length lengths
                b.bit(true);
                b.put(2, 2);
                b.put(5, 29);
                b.put(5, ndist as u32 - 1);
                b.put(4, 15);
                // 0, 1, 8, 9, 10..: lengths of the code-length code: 8 -> 1, 9 -> 2, 0 -> 3, 1 -> 3
                for s in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] {
                    b.put(3, match s { 8 => 1, 9 => 2, 0 | 1 => 3, _ => 0 });
                }
                for &x in lit.iter().chain(&dist) {
                    b.huff(match x { 8 => (1, 0), 9 => (2, 2), 0 => (3, 6), _ => (3, 7) });
                }
                b.codes(&lit, &dist, &[l(1), l(2)]);
                let Ok((blocks, _)) = parse(&b.bytes) else { panic!("{ndist} {lead}") };
                assert!(reencode(&blocks).unwrap() == b.bytes, "{ndist} {lead}");
            }
        }
    }
}
""")

S("c02-copy-fast", "C02", "a non-overlapping back-reference whose last byte lands exactly at the end of the 32768-byte window buffer",
  "a copy made in one piece leaves the write position one past the buffer, so the next byte panics",
  [(L + "circles.rs", """        for _ in 0..len {
            let b""", """        let run = usize::from(len);
        if len <= dist && self.idx + run <= self.data.len() && read_from + run <= self.data.len() {
            // nothing wraps, and nothing overlaps
            self.data.copy_within(read_from..read_from + run, self.idx);
            into.write_all(&self.data[self.idx..self.idx + run])?;
            self.idx += run;
            self.valid_cap = (usize::from(self.valid_cap) + run).min(self.data.len()) as u16;
            return Ok(());
        }

        for _ in 0..len {
            let b""")], rs="""
fn main() {
    for lead in 32740..32769usize {
        let mut b = Bits::default();
        let data: Vec<u8> = (0..lead).map(|i| (i * i >> 5) as u8).collect();
        b.stored(false, &data);
        b.fixed(true, &[r(100, 20), l(9), r(50, 4), l(10)]);
        let want = [data.clone(), meaning(&data, &[r(100, 20), l(9), r(50, 4), l(10)])].concat();
        assert!(expand(&parse(&b.bytes).unwrap().0).unwrap() == want, "{lead}");
    }
}
""")

S("c02-repeat-across", "C02", "a dynamic block whose code-length sequence repeats the last literal/length length across into the distance lengths (symbol 16 at or over the boundary)",
  "the previous code length is forgotten at the start of the distance lengths, so valid tables are rejected",
  [(L + "huffman.rs", """    loop {
        if run_len > 0 {""", """    loop {
        if i == usize::from(num_lit_len_codes) {
            // the distance table starts afresh
            run_val = if run_len > 0 { run_val } else { None };
        }

        if run_len > 0 {""")], rs="""
fn main() {
    // literal lengths: 0..=254 -> 0 except few; all given with symbols: '1' codes... 256 and 0 have length 1; distances 1,1 via repeat
    // lit lens: [0]=2, [256]=2, [257..=?]
    let mut b = Bits::default();
    b.bit(true);
    b.put(2, 2);
    b.put(5, 1); // 258 literal/length codes
    b.put(5, 3); // 4 distance codes
    b.put(4, 15);
    // code-length code: 18 -> 1 bit (0), 2 -> 2 bits (10), 16 -> 2 bits (11)
    for s in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] {
        b.put(3, match s { 18 => 1, 2 | 16 => 2, _ => 0 });
    }
    b.huff((2, 2)); // 0: 2
    b.huff((2, 2)); // 1: 2
    b.huff((1, 0)); b.put(7, 138 - 11); // 2..140
    b.huff((1, 0)); b.put(7, 116 - 11); // 140..256
    b.huff((2, 2)); // 256: 2
    b.huff((2, 2)); // 257: 2
    b.huff((2, 3)); b.put(2, 1); // 4 more of the same: the distances
    let mut lit = vec![0u8; 258];
    for i in [0, 1, 256, 257] { lit[i] = 2; }
    let codes = [l(1), l(0), r(2, 3), r(4, 3)];
    b.codes(&lit, &[2; 4], &codes);
    let blocks = parse(&b.bytes).unwrap().0;
    assert_eq!(expand(&blocks).unwrap(), meaning(&[], &codes));
}
""")

S("c11-extend-large", "C11", "an extend at least as long as the buffer, when earlier pushes have left the write position off the start",
  "extending by more than the capacity keeps the right bytes but in rotated order",
  [(L + "circles.rs", """        // TODO: optimise

        for byte in val {""", """        let cap = self.data.len();
        if val.len() >= cap {
            // only the tail can survive
            self.data.copy_from_slice(&val[val.len() - cap..]);
            self.valid_cap = self.capacity();
            return;
        }

        for byte in val {""")], rs="""
fn main() {
    for lead in 0..5u8 {
        for n in 6..15u8 {
            let mut c = CircularBuffer::with_capacity(7);
            let mut all = vec![];
            for i in 0..lead { c.push(i); all.push(i); }
            let v: Vec<u8> = (100..100 + n).collect();
            c.extend(&v);
            all.extend(&v);
            c.push(1);
            all.push(1);
            assert_eq!(c.vec(), &all[all.len().saturating_sub(7)..]);
        }
    }
}
""")

S("c03-before-start", "C03", "a back-reference reaching before the first byte of the data",
  "the distance is checked against the window's size, not what has been written, so zero bytes are invented",
  [(L + "circles.rs", "dist > 0 && dist <= self.valid_cap,", "dist > 0 && dist <= self.capacity(),")], rs="""
fn main() {
    for dist in 1..40u16 {
        let mut b = Bits::default();
        b.fixed(true, &[l(1), l(2), l(3), r(dist, 4)]);
        let got = parse(&b.bytes).and_then(|(v, _)| expand(&v));
        assert_eq!(got.is_ok(), dist <= 3, "{dist}");
    }
}
""")

S("c03-run-overrun", "C03", "a code-length repeat that runs past the end of the tables",
  "such a repeat is cut short instead of rejected",
  [(L + "huffman.rs", """    ensure!(run_len == 0, "run exceeds number of codes");

""", "")], rs="""
fn main() {
    let mut b = Bits::default();
    b.bit(true);
    b.put(2, 2);
    b.put(5, 0); // 257
    b.put(5, 1); // 2
    b.put(4, 15);
    // 18 -> 1 bit (0), 1 -> 2 bits (10), 16 -> 2 bits (11)
    for s in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] {
        b.put(3, match s { 18 => 1, 1 | 16 => 2, _ => 0 });
    }
    b.huff((2, 2));
    b.huff((1, 0)); b.put(7, 138 - 11);
    b.huff((1, 0)); b.put(7, 117 - 11);
    b.huff((2, 2));
    b.huff((2, 3)); b.put(2, 0); // three more, of which there is room for two
    b.huff((1, 0)); b.huff((1, 1));
    b.put(16, 0);
    assert!(parse(&b.bytes).is_err());
}
""")

S("c03-empty-stored", "C03", "an empty stored block whose length check does not match",
  "the length check is skipped for empty stored blocks",
  [(L + "bit.rs", "(len ^ 0xFFFF) == ones_complement,", "0 == len || (len ^ 0xFFFF) == ones_complement,")], rs="""
fn main() {
    assert!(parse(&[1, 0, 0, 0xff, 0xff]).is_ok());
    assert!(parse(&[1, 0, 0, 0, 0]).is_err());
    assert!(parse(&[1, 0, 0, 0xff, 0x7f]).is_err());
}
""")

S("c03-oversubscribed", "C03", "an over-subscribed code table whose surplus is a whole number of complete trees",
  "such tables are accepted, using the first part of them",
  [(L + "code_tree.rs", 'ensure!(1 == nodes.len(), "non-canonical code");', 'ensure!(!nodes.is_empty(), "non-canonical code");')], rs="""
fn main() {
    for extra in 0..9usize {
        let mut lit = vec![0u8; 257];
        lit[255] = 1;
        lit[256] = 1;
        for i in 0..extra { lit[10 + i] = 2; }
        let mut b = Bits::default();
        b.dynamic_head(true, &lit, &[1, 1]);
        b.put(32, 0xfffffffe);
        assert_eq!(parse(&b.bytes).is_ok(), extra == 0, "{extra}");
    }
}
""")

S("c03-dist-30", "C03", "a distance coded with reserved symbol 30 or 31",
  "the reserved distance symbols are decoded as longer distances, up to a panic for those just over 32768",
  [(L + "huffman.rs", "} else if sym <= 29 {", "} else if sym <= 31 {"),
   (L + "huffman.rs", """        Ok((((sym % 2 + 2) as u16) << num_extra_bits) + 1 + reader.read_part(num_extra_bits)?)
    } else if sym <= 31 {
        Err(anyhow!("reserved distance symbol"))
    } else {""", """        Ok((((sym % 2 + 2) as u16) << num_extra_bits)
            .saturating_add(1)
            .saturating_add(reader.read_part(num_extra_bits)?))
    } else {""")], rs="""
fn main() {
    for (sym, extra) in [(30u32, 0u32), (30, 5), (30, 18), (31, 0), (30, 100), (31, 16000)] {
        let mut b = Bits::default();
        b.stored(false, &vec![7; 40000]);
        b.bit(true);
        b.put(2, 1);
        b.huff((7, 1)); // length 3
        b.huff((5, sym));
        b.put(14, extra);
        b.huff((7, 0));
        let bytes = b.bytes.clone();
        assert!(parse(&bytes).and_then(|(v, _)| expand(&v)).is_err());
    }
}
""")

S("c03-stored-short", "C03", "input ending inside a stored block",
  "a stored block cut short is taken as a shorter one",
  [(L + "bit.rs", """        let mut buf = vec![0u8; usize::from(len)];
        self.inner
            .read_exact(&mut buf)
""", """        let mut buf = Vec::new();
        self.inner
            .by_ref()
            .take(u64::from(len))
            .read_to_end(&mut buf)
""")], rs="""
fn main() {
    let mut b = Bits::default();
    b.stored(true, &[1, 2, 3, 4, 5]);
    for cut in 0..b.bytes.len() {
        assert!(parse(&b.bytes[..cut]).is_err(), "{cut}");
    }
    assert!(parse(&b.bytes).is_ok());
}
""")

SPICY = """
fn spicy(pre: &[u8], data: &[u8], codes: &[Code]) {
    let refs = AllRefs::with_sixteen(pre, data, u16::MAX);
    let t = Technique::new(Config::spicy(), &refs);
    let tr = trace::trace(codes, &t);
    assert_eq!(codes.len(), tr.len());
    assert_eq!(trace::restore(&tr, &t), codes);
}
fn own(data: &[u8]) -> Vec<Code> {
    let refs = AllRefs::with_sixteen(&[], data, u16::MAX);
    let t = Technique::new(Config::spicy(), &refs);
    trace::restore(&vec![Trace::Correct; data.len()], &t)
}
fn predicted(data: &[u8], so_far: &[Code]) -> Vec<Code> {
    let refs = AllRefs::with_sixteen(&[], data, u16::MAX);
    let t = Technique::new(Config::spicy(), &refs);
    let mut s = t.scanner();
    for c in so_far { s.feedback(*c); }
    s.codes()
}
"""
S("c04-partial-reguess", "C04", "the 'spicy' predictor guessing several codes, the first right and a later one wrong, and the guess made afresh there being different",
  "tracing guesses again after a partly right guess, which restoring does not",
  [(L + "trace.rs", "        if matches.len() == guesses.len() {", "        if !matches.is_empty() {")], rs=SPICY + """
fn main() {
    let mut seed = 88172645463325252u64;
    for _ in 0..2000 {
        let data: Vec<u8> = (0..80).map(|_| b'a' + (rnd(&mut seed) % 3) as u8).collect();
        let mut codes = vec![];
        let mut at = 0;
        while at < data.len() {
            let g = predicted(&data, &codes);
            if rnd(&mut seed) % 2 == 0 { let c = g[0]; codes.push(c); at += c.emitted_bytes() as usize; }
            else { codes.push(l(data[at])); at += 1; }
        }
        spicy(&[], &data, &codes);
    }
}
""")

S("c05-dist-32768", "C05", "a reference correction at distance exactly 32768",
  "the largest distance reads back as no correct codes and a stray byte",
  [(L + "serialise_trace.rs", "} else if first <= 32_768 {", "} else if first < 32_768 {")], rs="""
fn main() {
    for d in [1u16, 32767, 32768] {
        let t = vec![Trace::Actually(make_ref(d, 9)), Trace::Correct];
        assert!(serialise_trace::read(Cursor::new(serialise_trace::write(&t))).ok().as_ref() == Some(&t));
    }
}
""")

S("c05-cut-record", "C05", "a serialised trace cut between the distance and the length of a reference correction",
  "a record cut short is taken as the end",
  [(L + "serialise_trace.rs", "            let run_minus_3 = data.read_u8()?;", """            let run_minus_3 = match data.read_u8() {
                Ok(run_minus_3) => run_minus_3,
                Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,
                Err(e) => bail!(e),
            };""")], rs="""
fn main() {
    assert!(serialise_trace::read(Cursor::new(&[5u8, 0, 1])).is_ok());
    assert!(serialise_trace::read(Cursor::new(&[5u8, 0])).is_err());
    assert!(serialise_trace::read(Cursor::new(&[0u8, 0, 0, 0x80])).is_err());
}
""")

S("c06-fhcrc", "C06", "a gzip file whose header carries its own checksum (flag FHCRC)",
  "the header checksum is consumed but not kept, so the file cannot be rebuilt",
  [(L + "gzip.rs", """        // CRC
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);""", """        // CRC
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;""")], rs="""
fn main() {
    for flags in 0..32u8 {
        let mut f = vec![31, 139, 8, flags, 1, 2, 3, 4, 0, 3];
        if flags & 4 != 0 { f.extend([3, 0, 9, 8, 7]); }
        if flags & 8 != 0 { f.extend(b"name\\0"); }
        if flags & 16 != 0 { f.extend(b"comment\\0"); }
        if flags & 2 != 0 { f.extend([0xaa, 0xbb]); }
        let n = f.len();
        f.extend([3, 0]);
        assert_eq!(gzip::discard_header(Cursor::new(&f)).unwrap(), &f[..n], "{flags}");
    }
}
""")

S("c07-short-dist", "C07", "a match at distance 1, 2 or 3 of length exactly 3 whose fifth byte happens to continue the pattern",
  "the fourth byte of a match at distance 3 or less is not compared",
  [(L + "all_refs.rs", "for cur in dist..upcoming_data_len {", "for cur in dist.max(4)..upcoming_data_len {")], rs="""
fn main() {
    for a in 0..2187u32 {
        let mut n = a;
        let d: Vec<u8> = (0..7).map(|_| { let x = n % 3; n /= 3; b'a' + x as u8 }).collect();
        let d = [b"-".to_vec(), d].concat();
        let refs = AllRefs::with_sixteen(&[], &d, u16::MAX);
        for pos in 1..d.len() {
            if let Some(it) = refs.at(pos, &[]) {
                for r in it {
                    assert_eq!(meaning(&d[..pos], &[Code::Reference(r)]), &d[pos..pos + r.run() as usize]);
                }
            }
        }
    }
}
""")

S("c07-far-truncate", "C07", "more than 65536 bytes of content, with the same three bytes between 65537 and 98304 back and few nearer ones",
  "the distance limit is applied after truncating to 16 bits, so very far matches get through and abort",
  [(L + "all_refs.rs", ".filter(move |&off| pos - off <= 32_768)", ".filter(move |&off| (pos - off) as u16 <= 32_768)")], rs="""
fn main() {
    for gap in [100usize, 32765, 32766, 40000, 65533, 65534, 65540, 70000, 98300, 98302] {
        let mut d = b"-xyz".to_vec();
        d.extend((0..gap).map(|i| if i % 2 == 0 { b'a' } else { b'b' }));
        d.extend(b"xyz");
        let pos = d.len() - 3;
        let refs = AllRefs::with_sixteen(&[], &d, u16::MAX);
        let got: Vec<Ref> = refs.at(pos, &[]).unwrap().collect();
        assert_eq!(got.len(), (gap + 3 <= 32768) as usize, "{gap}");
    }
}
""")

S("c08-dropfar", "C08", "a longest match of length 3 at distance exactly 4096, at level 4 or above",
  "the too-far limit for matches of length 3 is one less than gzip's",
  [(L + "picker.rs", "r.dist <= 4096", "r.dist < 4096")], rs="""
fn main() {
    for dist in 4090..4100usize {
        let mut d = b"-xyz".to_vec();
        d.extend((0..dist - 3).map(|i| if i % 2 == 0 { b'a' } else { b'b' }));
        d.extend(b"xyz");
        let (pre, data) = d.split_at(d.len() - 3);
        let refs = AllRefs::with_sixteen(pre, data, u16::MAX);
        let got = Technique::new(Config::gzip(6), &refs).scanner().codes();
        assert_eq!(got, if dist <= 4096 { vec![r(dist as u16, 3)] } else { vec![l(b'x')] });
    }
}
""")

S("c08-level9-limit", "C08", "level 9 and more than 4095 earlier occurrences, the best being the 4096th nearest",
  "level 9 inspects one candidate fewer than gzip's table says",
  [(L + "wams.rs", "lookahead(258, 4096, 32, 258),", "lookahead(258, 4095, 32, 258),")], rs="""
fn main() {
    // "xyz?" 4095 times with another last byte, before them one whose four bytes match
    let mut d = b"-xyzw".to_vec();
    for i in 0..4095u32 { d.extend(b"xyz"); d.push(b'0' + (i % 10) as u8); }
    let pre = d.clone();
    let refs = AllRefs::with_sixteen(&pre, b"xyzw", u16::MAX);
    let got = Technique::new(Config::gzip(9), &refs).scanner().codes();
    assert_eq!(got, vec![r((pre.len() - 1) as u16, 4)]);
}
""")

S("c08-dist-32768", "C08", "a match at distance exactly 32768",
  "matches at the far edge of the window are not offered",
  [(L + "all_refs.rs", "pos - off <= 32_768", "pos - off < 32_768")], rs="""
fn main() {
    for dist in 32766..32771usize {
        let mut d = b"-xyzw".to_vec();
        d.extend((0..dist - 4).map(|i| if i % 2 == 0 { b'a' } else { b'b' }));
        d.extend(b"xyzw");
        let refs = AllRefs::with_sixteen(&[], &d, u16::MAX);
        assert_eq!(refs.at(d.len() - 4, &[]).unwrap().count(), (dist <= 32768) as usize);
    }
}
""")

S("c08-boundary", "C08", "a match starting in the last two bytes of the history",
  "positions whose three bytes straddle the history and the content are left out of the table",
  [(L + "back_map.rs", """        for (pos, keys) in preroll
            .into_iter()
            .chain(data.into_iter())
            .cloned()
            .tuple_windows::<(u8, u8, u8)>()
            .enumerate()
        {""", """        let windows = preroll.windows(3).enumerate();
        let offset = preroll.len();
        let windows = windows.chain(data.windows(3).enumerate().map(|(i, w)| (i + offset, w)));
        for (pos, keys) in windows.map(|(pos, w)| (pos, (w[0], w[1], w[2]))) {""")], rs="""
fn main() {
    let d = b"-abcde!abcdef";
    for cut in 0..7 {
        let refs = AllRefs::with_sixteen(&d[..cut], &d[cut..], u16::MAX);
        assert_eq!(refs.at(7, &[]).unwrap().count(), 1, "{cut}");
        assert_eq!(refs.at(8, &[]).unwrap().count(), 1, "{cut}");
    }
}
""")

S("c08-hash-mask", "C08", "levels 1-3 (or very many candidates): two triples that differ only in the top bit of the 15-bit hash",
  "the table is halved, so unrelated triples share a bucket and use up the candidate limit",
  [(L + "back_map.rs", "const HASH_SIZE: usize = 32 * 1024;", "const HASH_SIZE: usize = 16 * 1024;"),
   (L + "back_map.rs", "let hash_entry = &mut table.hash_to_pos[usize::from(hash)];", "let hash_entry = &mut table.hash_to_pos[usize::from(hash) % HASH_SIZE];"),
   (L + "back_map.rs", "let pos = self.hash_to_pos[usize::from(key.sixteen_hash_16())];", "let pos = self.hash_to_pos[usize::from(key.sixteen_hash_16()) % HASH_SIZE];")], rs="""
fn main() {
    // 'a' 0x61 and 'q' 0x71 differ in bit 4, which is the top bit of the hash
    let mut d = b"-abc-".to_vec();
    for i in 0..6 { d.extend(b"qbc"); d.push(b'0' + i); }
    let refs = AllRefs::with_sixteen(&d, b"abc", 4);
    assert_eq!(refs.at(d.len(), &[]).unwrap().count(), 1);
}
""")
