//! CityHash128 1.0.2 (the version ClickHouse uses), written down independently of the crate.
const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
const K3: u64 = 0xc949d7c7509e6557;

fn f64_(s: &[u8], at: usize) -> u64 {
    u64::from_le_bytes(s[at..at + 8].try_into().unwrap())
}
fn f32_(s: &[u8], at: usize) -> u64 {
    u32::from_le_bytes(s[at..at + 4].try_into().unwrap()) as u64
}
fn rot(v: u64, n: u32) -> u64 {
    v.rotate_right(n)
}
fn mix(v: u64) -> u64 {
    v ^ (v >> 47)
}
fn h16(u: u64, v: u64) -> u64 {
    const M: u64 = 0x9ddfea08eb382d69;
    let mut a = (u ^ v).wrapping_mul(M);
    a ^= a >> 47;
    let mut b = (v ^ a).wrapping_mul(M);
    b ^= b >> 47;
    b.wrapping_mul(M)
}
fn h0to16(s: &[u8]) -> u64 {
    let len = s.len();
    if len > 8 {
        let a = f64_(s, 0);
        let b = f64_(s, len - 8);
        return h16(a, rot(b.wrapping_add(len as u64), len as u32)) ^ b;
    }
    if len >= 4 {
        let a = f32_(s, 0);
        return h16((len as u64).wrapping_add(a << 3), f32_(s, len - 4));
    }
    if len > 0 {
        let y = s[0] as u32 + ((s[len >> 1] as u32) << 8);
        let z = len as u32 + ((s[len - 1] as u32) << 2);
        return mix((y as u64).wrapping_mul(K2) ^ (z as u64).wrapping_mul(K3)).wrapping_mul(K2);
    }
    K2
}
fn weak(s: &[u8], mut a: u64, mut b: u64) -> (u64, u64) {
    let (w, x, y, z) = (f64_(s, 0), f64_(s, 8), f64_(s, 16), f64_(s, 24));
    a = a.wrapping_add(w);
    b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
fn murmur(mut s: &[u8], seed: (u64, u64)) -> (u64, u64) {
    let (mut a, mut b) = seed;
    let (mut c, mut d);
    let len = s.len();
    if len <= 16 {
        a = mix(a.wrapping_mul(K1)).wrapping_mul(K1);
        c = b.wrapping_mul(K1).wrapping_add(h0to16(s));
        d = mix(a.wrapping_add(if len >= 8 { f64_(s, 0) } else { c }));
    } else {
        c = h16(f64_(s, len - 8).wrapping_add(K1), a);
        d = h16(b.wrapping_add(len as u64), c.wrapping_add(f64_(s, len - 16)));
        a = a.wrapping_add(d);
        loop {
            a ^= mix(f64_(s, 0).wrapping_mul(K1)).wrapping_mul(K1);
            a = a.wrapping_mul(K1);
            b ^= a;
            c ^= mix(f64_(s, 8).wrapping_mul(K1)).wrapping_mul(K1);
            c = c.wrapping_mul(K1);
            d ^= c;
            s = &s[16..];
            if s.len() <= 16 {
                break;
            }
        }
    }
    let a = h16(a, c);
    let b = h16(d, b);
    (a ^ b, h16(b, a))
}
fn with_seed(full: &[u8], off: usize, seed: (u64, u64)) -> (u64, u64) {
    let total = full.len() - off;
    if total < 128 {
        return murmur(&full[off..], seed);
    }
    let mut s = off;
    let mut len = total;
    let (mut x, mut y) = seed;
    let mut z = (len as u64).wrapping_mul(K1);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    v.0 = rot(y ^ K1, 49).wrapping_mul(K1).wrapping_add(f64_(full, s));
    v.1 = rot(v.0, 42).wrapping_mul(K1).wrapping_add(f64_(full, s + 8));
    w.0 = rot(y.wrapping_add(z), 35).wrapping_mul(K1).wrapping_add(x);
    w.1 = rot(x.wrapping_add(f64_(full, s + 88)), 53).wrapping_mul(K1);
    while len >= 128 {
        for _ in 0..2 {
            x = rot(x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64_(full, s + 16)), 37).wrapping_mul(K1);
            y = rot(y.wrapping_add(v.1).wrapping_add(f64_(full, s + 48)), 42).wrapping_mul(K1);
            x ^= w.1;
            y ^= v.0;
            z = rot(z ^ w.0, 33);
            v = weak(&full[s..], v.1.wrapping_mul(K1), x.wrapping_add(w.0));
            w = weak(&full[s + 32..], z.wrapping_add(w.1), y);
            std::mem::swap(&mut z, &mut x);
            s += 64;
        }
        len -= 128;
    }
    y = y.wrapping_add(rot(w.0, 37).wrapping_mul(K0).wrapping_add(z));
    x = x.wrapping_add(rot(v.0.wrapping_add(z), 49).wrapping_mul(K0));
    let mut done = 0;
    while done < len {
        done += 32;
        y = rot(y.wrapping_sub(x), 42).wrapping_mul(K0).wrapping_add(v.1);
        let base = s + len - done;
        w.0 = w.0.wrapping_add(f64_(full, base + 16));
        x = rot(x, 49).wrapping_mul(K0).wrapping_add(w.0);
        w.0 = w.0.wrapping_add(v.0);
        v = weak(&full[base..], v.0, v.1);
    }
    x = h16(x, v.0);
    y = h16(y, w.0);
    (h16(x.wrapping_add(v.1), w.1).wrapping_add(y), h16(x.wrapping_add(w.1), y.wrapping_add(v.1)))
}
pub fn city128(s: &[u8]) -> (u64, u64) {
    let len = s.len();
    if len >= 16 {
        with_seed(s, 16, (f64_(s, 0) ^ K3, f64_(s, 8)))
    } else if len >= 8 {
        with_seed(&[], 0, (f64_(s, 0) ^ (len as u64).wrapping_mul(K0), f64_(s, len - 8) ^ K1))
    } else {
        with_seed(s, 0, (K0, K1))
    }
}
