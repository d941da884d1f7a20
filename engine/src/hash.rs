//! BLAKE3 (unkeyed / keyed), reference algorithm, used for concrete hash inputs.
const IV: [u32; 8] =
    [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const CHUNK_START: u32 = 1;
const CHUNK_END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}
fn compress(cv: &[u32; 8], m: &[u32; 16], ctr: u64, len: u32, flags: u32) -> [u32; 8] {
    let mut s = [
        cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], ctr as u32,
        (ctr >> 32) as u32, len, flags,
    ];
    let mut m = *m;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 {
            let mut p = [0u32; 16];
            for i in 0..16 {
                p[i] = m[PERM[i]];
            }
            m = p;
        }
    }
    let mut o = [0u32; 8];
    for i in 0..8 {
        o[i] = s[i] ^ s[i + 8];
    }
    o
}
fn words(b: &[u8]) -> [u32; 16] {
    let mut w = [0u32; 16];
    for (i, c) in b.iter().enumerate() {
        w[i / 4] |= (*c as u32) << (8 * (i % 4));
    }
    w
}
fn chunk(b: &[u8], ctr: u64, root: u32) -> [u32; 8] {
    let mut cv = IV;
    let n = b.len().div_ceil(64).max(1);
    for i in 0..n {
        let bl = &b[i * 64..b.len().min(i * 64 + 64)];
        let mut f = 0;
        if i == 0 {
            f |= CHUNK_START;
        }
        if i == n - 1 {
            f |= CHUNK_END | root;
        }
        cv = compress(&cv, &words(bl), ctr, bl.len() as u32, f);
    }
    cv
}
fn tree(b: &[u8], ctr: u64, root: u32) -> [u32; 8] {
    if b.len() <= 1024 {
        return chunk(b, ctr, root);
    }
    let full = (b.len() - 1) / 1024;
    let p = 1usize << (usize::BITS - 1 - full.leading_zeros());
    let l = tree(&b[..p * 1024], ctr, 0);
    let r = tree(&b[p * 1024..], ctr + p as u64, 0);
    let mut m = [0u32; 16];
    m[..8].copy_from_slice(&l);
    m[8..].copy_from_slice(&r);
    compress(&IV, &m, 0, 64, PARENT | root)
}
pub fn blake3(b: &[u8]) -> [u8; 32] {
    let o = tree(b, 0, ROOT);
    let mut r = [0u8; 32];
    for i in 0..8 {
        r[i * 4..i * 4 + 4].copy_from_slice(&o[i].to_le_bytes());
    }
    r
}
#[cfg(test)]
mod tests {
    #[test]
    fn empty() {
        let h = super::blake3(b"");
        assert_eq!(&h[..4], &[0xaf, 0x13, 0x49, 0xb9]);
    }
}
