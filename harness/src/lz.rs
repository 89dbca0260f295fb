//! Bridges to librezip.

use crate::engine::guard;
use crate::refdeflate::{RBlock, RCode};
use librezip::verif::BitWriter;
use librezip::{Block, CircularBuffer, Code};
use std::io::Cursor;

pub fn code(c: RCode) -> Code {
    match c {
        RCode::Lit(b) => Code::Literal(b),
        RCode::Ref { dist, len } => Code::Reference(librezip::verif::make_ref(dist as u16, len as u16)),
    }
}
pub fn codes(c: &[RCode]) -> Vec<Code> {
    c.iter().map(|&c| code(c)).collect()
}
pub fn rcode(c: &Code) -> RCode {
    match *c {
        Code::Literal(b) => RCode::Lit(b),
        Code::Reference(r) => RCode::Ref { dist: u32::from(r.dist), len: u32::from(r.run()) },
    }
}
pub fn rblock(b: &Block) -> RBlock {
    match b {
        Block::Uncompressed(d) => RBlock::Stored(d.clone()),
        Block::FixedHuffman(c) => RBlock::Fixed(c.iter().map(rcode).collect()),
        Block::DynamicHuffman { trees, codes } => {
            RBlock::Dynamic(trees.iter().collect(), codes.iter().map(rcode).collect())
        }
    }
}

pub struct Parsed {
    pub blocks: Vec<Block>,
    pub err: Option<String>,
    /// bytes taken from the reader
    pub used: usize,
}

/// Parses until the end or the first error.
pub fn parse(bytes: &[u8]) -> Parsed {
    let mut cur = Cursor::new(bytes);
    let mut blocks = vec![];
    let mut err = None;
    for b in librezip::parse_deflate(&mut cur) {
        match b {
            Ok(b) => blocks.push(b),
            Err(e) => {
                err = Some(e.to_string());
                break;
            }
        }
    }
    Parsed { blocks, err, used: cur.position() as usize }
}

pub fn reencode(blocks: &[Block]) -> Result<Vec<u8>, String> {
    let mut w = BitWriter::new(Vec::new());
    for (i, b) in blocks.iter().enumerate() {
        w.write_bit(i + 1 == blocks.len()).map_err(|e| e.to_string())?;
        librezip::compressed_block(&mut w, b).map_err(|e| format!("block {i}: {e}"))?;
    }
    w.align().map_err(|e| e.to_string())?;
    Ok(w.into_inner())
}

/// Re-encode, a panic becoming an error.
pub fn reencode_guarded(blocks: &[Block]) -> Result<Vec<u8>, String> {
    match guard(|| reencode(blocks)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

/// Parse and expand as a user does: (output, window, error)
pub fn expand_stream(bytes: &[u8]) -> (Vec<u8>, CircularBuffer, Option<String>) {
    let mut out = vec![];
    let mut w = CircularBuffer::new();
    for b in librezip::parse_deflate(Cursor::new(bytes)) {
        let b = match b {
            Ok(b) => b,
            Err(e) => return (out, w, Some(e.to_string())),
        };
        if let Err(e) = librezip::decompressed_block(&mut out, &mut w, &b) {
            return (out, w, Some(e.to_string()));
        }
    }
    (out, w, None)
}

/// First difference of two sequences, for messages.
pub fn diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> String {
    let n = got.len().min(want.len());
    match (0..n).find(|&i| got[i] != want[i]) {
        Some(i) => format!("at {i}: got {:?}, want {:?} (lengths {} / {})", got[i], want[i], got.len(), want.len()),
        None => format!("lengths: got {}, want {}", got.len(), want.len()),
    }
}

pub fn blocks_summary(b: &[RBlock]) -> String {
    let v: Vec<String> = b
        .iter()
        .take(8)
        .map(|b| match b {
            RBlock::Stored(d) => format!("stored({})", d.len()),
            RBlock::Fixed(c) => format!("fixed({})", c.len()),
            RBlock::Dynamic(h, c) => format!("dynamic(header {} bits, {})", h.len(), c.len()),
        })
        .collect();
    format!("{} blocks: {}", b.len(), v.join(" "))
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
