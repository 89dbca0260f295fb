//! Real compressors (zlib through libz-sys with full control, miniz_oxide) and zlib as a second decoder.

use libz_sys as z;
use std::mem::MaybeUninit;

#[derive(Clone, Debug)]
pub struct ZOpts {
    pub level: i32,
    pub window: i32,
    pub mem: i32,
    pub strategy: i32,
    /// after each chunk of this many input bytes, flush with this mode (Z_NO_FLUSH..Z_BLOCK)
    pub chunk: usize,
    pub flush: i32,
    /// switch (level, strategy) at each chunk
    pub params: Vec<(i32, i32)>,
}

pub fn deflate(data: &[u8], o: &ZOpts) -> Vec<u8> {
    unsafe {
        let mut mu = MaybeUninit::<z::z_stream>::zeroed();
        let r = z::deflateInit2_(
            mu.as_mut_ptr(),
            o.level,
            z::Z_DEFLATED,
            -o.window,
            o.mem,
            o.strategy,
            z::zlibVersion(),
            std::mem::size_of::<z::z_stream>() as i32,
        );
        assert_eq!(r, z::Z_OK, "deflateInit2 {o:?}");
        // the initialiser has set the allocator pointers
        let s: &mut z::z_stream = mu.assume_init_mut();
        let mut out: Vec<u8> = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        let mut pos = 0;
        let mut k = 0;
        let mut pump = |s: &mut z::z_stream, flush: i32, out: &mut Vec<u8>| loop {
            s.next_out = buf.as_mut_ptr();
            s.avail_out = buf.len() as u32;
            let r = z::deflate(s, flush);
            assert!(r == z::Z_OK || r == z::Z_STREAM_END || r == z::Z_BUF_ERROR, "deflate {r}");
            out.extend(&buf[..buf.len() - s.avail_out as usize]);
            if s.avail_out != 0 {
                break;
            }
        };
        loop {
            let n = o.chunk.max(1).min(data.len() - pos);
            s.next_in = data[pos..].as_ptr() as *mut _;
            s.avail_in = n as u32;
            pos += n;
            if pos == data.len() {
                pump(s, z::Z_FINISH, &mut out);
                break;
            }
            pump(s, o.flush, &mut out);
            if !o.params.is_empty() {
                let (l, st) = o.params[k % o.params.len()];
                k += 1;
                // deflateParams may itself flush
                loop {
                    let mut b2 = vec![0u8; 1 << 16];
                    s.next_out = b2.as_mut_ptr();
                    s.avail_out = b2.len() as u32;
                    let r = z::deflateParams(s, l, st);
                    out.extend(&b2[..b2.len() - s.avail_out as usize]);
                    if r != z::Z_BUF_ERROR {
                        break;
                    }
                }
            }
        }
        z::deflateEnd(s);
        out
    }
}

/// (content, whether the stream ended properly, bytes consumed)
pub fn inflate(d: &[u8]) -> (Vec<u8>, bool, usize) {
    unsafe {
        let mut mu = MaybeUninit::<z::z_stream>::zeroed();
        let r = z::inflateInit2_(mu.as_mut_ptr(), -15, z::zlibVersion(), std::mem::size_of::<z::z_stream>() as i32);
        assert_eq!(r, z::Z_OK);
        let s: &mut z::z_stream = mu.assume_init_mut();
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        s.next_in = d.as_ptr() as *mut _;
        s.avail_in = d.len() as u32;
        let ok = loop {
            s.next_out = buf.as_mut_ptr();
            s.avail_out = buf.len() as u32;
            let r = z::inflate(s, z::Z_NO_FLUSH);
            let n = buf.len() - s.avail_out as usize;
            out.extend(&buf[..n]);
            if r == z::Z_STREAM_END {
                break true;
            }
            if r != z::Z_OK || (n == 0 && s.avail_in == 0) {
                break false;
            }
        };
        let used = d.len() - s.avail_in as usize;
        z::inflateEnd(s);
        (out, ok, used)
    }
}

pub fn miniz(data: &[u8], level: u8) -> Vec<u8> {
    miniz_oxide::deflate::compress_to_vec(data, level)
}
