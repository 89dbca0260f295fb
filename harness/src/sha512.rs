//! SHA-512 from FIPS 180-4, constants derived from primes.

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut k = 2;
    while v.len() < n {
        if v.iter().all(|p| k % p != 0) {
            v.push(k);
        }
        k += 1;
    }
    v
}

/// little-endian 32-bit limbs
fn mul(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate() {
            let t = u64::from(x) * u64::from(y) + u64::from(r[i + j]) + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    r
}
fn le(a: &[u32], b: &[u32]) -> bool {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let x = a.get(i).copied().unwrap_or(0);
        let y = b.get(i).copied().unwrap_or(0);
        if x != y {
            return x < y;
        }
    }
    true
}
fn limbs(x: u128) -> [u32; 4] {
    [x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32]
}

/// first 64 bits of the fractional part of the k-th root of p
fn frac_root(p: u64, k: usize) -> u64 {
    // floor(root(p * 2^(64k))) mod 2^64
    let mut target = vec![0u32; 2 * k + 2];
    target[2 * k] = p as u32;
    let mut x = 0u128;
    for bit in (0..72).rev() {
        let y = x | 1 << bit;
        let mut m = limbs(y).to_vec();
        for _ in 1..k {
            m = mul(&m, &limbs(y));
        }
        if le(&m, &target) {
            x = y;
        }
    }
    x as u64
}

pub fn sha512(data: &[u8]) -> Vec<u8> {
    static C: std::sync::OnceLock<(Vec<u64>, Vec<u64>)> = std::sync::OnceLock::new();
    let (k, h0) = C.get_or_init(|| {
        let p = primes(80);
        (p.iter().map(|&p| frac_root(p, 3)).collect(), p[..8].iter().map(|&p| frac_root(p, 2)).collect())
    });
    let mut h = h0.clone();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend((data.len() as u128 * 8).to_be_bytes());
    for chunk in m.chunks(128) {
        let mut w = [0u64; 80];
        for t in 0..16 {
            w[t] = u64::from_be_bytes(chunk[t * 8..t * 8 + 8].try_into().unwrap());
        }
        for t in 16..80 {
            let s0 = w[t - 15].rotate_right(1) ^ w[t - 15].rotate_right(8) ^ (w[t - 15] >> 7);
            let s1 = w[t - 2].rotate_right(19) ^ w[t - 2].rotate_right(61) ^ (w[t - 2] >> 6);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v: Vec<u64> = h.clone();
        for t in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[t]).wrapping_add(w[t]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            for i in (1..8).rev() {
                v[i] = v[i - 1];
            }
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
