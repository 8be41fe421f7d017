//! FarmHash Fingerprint64 (farmhashna::Hash64), written from the published algorithm.
//! Stands in for the git dependency of dd-sds, which cannot be fetched offline.

const K0: u64 = 0xc3a5_c85c_97cb_3127;
const K1: u64 = 0xb492_b66f_be98_f273;
const K2: u64 = 0x9ae1_6a3b_2f90_404f;

fn f64_(s: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(s[i..i + 8].try_into().unwrap())
}
fn f32_(s: &[u8], i: usize) -> u64 {
    u32::from_le_bytes(s[i..i + 4].try_into().unwrap()) as u64
}
fn rot(v: u64, n: u32) -> u64 {
    v.rotate_right(n)
}
fn shift_mix(v: u64) -> u64 {
    v ^ (v >> 47)
}
fn h16(u: u64, v: u64, mul: u64) -> u64 {
    let a = shift_mix((u ^ v).wrapping_mul(mul));
    let b = shift_mix((v ^ a).wrapping_mul(mul));
    b.wrapping_mul(mul)
}
fn len0to16(s: &[u8]) -> u64 {
    let len = s.len();
    let l = len as u64;
    if len >= 8 {
        let mul = K2.wrapping_add(l * 2);
        let a = f64_(s, 0).wrapping_add(K2);
        let b = f64_(s, len - 8);
        let c = rot(b, 37).wrapping_mul(mul).wrapping_add(a);
        let d = rot(a, 25).wrapping_add(b).wrapping_mul(mul);
        return h16(c, d, mul);
    }
    if len >= 4 {
        let mul = K2.wrapping_add(l * 2);
        let a = f32_(s, 0);
        return h16(l.wrapping_add(a << 3), f32_(s, len - 4), mul);
    }
    if len > 0 {
        let a = s[0] as u32;
        let b = s[len >> 1] as u32;
        let c = s[len - 1] as u32;
        let y = a.wrapping_add(b << 8) as u64;
        let z = (len as u32).wrapping_add(c << 2) as u64;
        return shift_mix(y.wrapping_mul(K2) ^ z.wrapping_mul(K0)).wrapping_mul(K2);
    }
    K2
}
fn len17to32(s: &[u8]) -> u64 {
    let len = s.len();
    let mul = K2.wrapping_add(len as u64 * 2);
    let a = f64_(s, 0).wrapping_mul(K1);
    let b = f64_(s, 8);
    let c = f64_(s, len - 8).wrapping_mul(mul);
    let d = f64_(s, len - 16).wrapping_mul(K2);
    h16(
        rot(a.wrapping_add(b), 43)
            .wrapping_add(rot(c, 30))
            .wrapping_add(d),
        a.wrapping_add(rot(b.wrapping_add(K2), 18)).wrapping_add(c),
        mul,
    )
}
fn len33to64(s: &[u8]) -> u64 {
    let len = s.len();
    let mul = K2.wrapping_add(len as u64 * 2);
    let a = f64_(s, 0).wrapping_mul(K2);
    let b = f64_(s, 8);
    let c = f64_(s, len - 8).wrapping_mul(mul);
    let d = f64_(s, len - 16).wrapping_mul(K2);
    let y = rot(a.wrapping_add(b), 43)
        .wrapping_add(rot(c, 30))
        .wrapping_add(d);
    let z = h16(
        y,
        a.wrapping_add(rot(b.wrapping_add(K2), 18)).wrapping_add(c),
        mul,
    );
    let e = f64_(s, 16).wrapping_mul(mul);
    let f = f64_(s, 24);
    let g = y.wrapping_add(f64_(s, len - 32)).wrapping_mul(mul);
    let h = z.wrapping_add(f64_(s, len - 24)).wrapping_mul(mul);
    h16(
        rot(e.wrapping_add(f), 43)
            .wrapping_add(rot(g, 30))
            .wrapping_add(h),
        e.wrapping_add(rot(f.wrapping_add(a), 18)).wrapping_add(g),
        mul,
    )
}
fn weak(s: &[u8], i: usize, mut a: u64, mut b: u64) -> (u64, u64) {
    let (w, x, y, z) = (f64_(s, i), f64_(s, i + 8), f64_(s, i + 16), f64_(s, i + 24));
    a = a.wrapping_add(w);
    b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}

pub fn fingerprint64(s: &[u8]) -> u64 {
    let len = s.len();
    if len <= 16 {
        return len0to16(s);
    }
    if len <= 32 {
        return len17to32(s);
    }
    if len <= 64 {
        return len33to64(s);
    }
    let seed = 81u64;
    let mut x = seed;
    let mut y = seed.wrapping_mul(K1).wrapping_add(113);
    let mut z = shift_mix(y.wrapping_mul(K2).wrapping_add(113)).wrapping_mul(K2);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    x = x.wrapping_mul(K2).wrapping_add(f64_(s, 0));
    let end = ((len - 1) / 64) * 64;
    let last64 = end + ((len - 1) & 63) - 63;
    let mut i = 0;
    let mut round = |i: usize, mul: u64, fin: u64, x: &mut u64, y: &mut u64, z: &mut u64, v: &mut (u64, u64), w: &mut (u64, u64)| {
        *x = rot(
            x.wrapping_add(*y).wrapping_add(v.0).wrapping_add(f64_(s, i + 8)),
            37,
        )
        .wrapping_mul(mul);
        *y = rot(y.wrapping_add(v.1).wrapping_add(f64_(s, i + 48)), 42).wrapping_mul(mul);
        *x ^= w.1.wrapping_mul(fin);
        *y = y.wrapping_add(v.0.wrapping_mul(fin)).wrapping_add(f64_(s, i + 40));
        *z = rot(z.wrapping_add(w.0), 33).wrapping_mul(mul);
        *v = weak(s, i, v.1.wrapping_mul(mul), x.wrapping_add(w.0));
        *w = weak(s, i + 32, z.wrapping_add(w.1), y.wrapping_add(f64_(s, i + 16)));
        std::mem::swap(z, x);
    };
    loop {
        round(i, K1, 1, &mut x, &mut y, &mut z, &mut v, &mut w);
        i += 64;
        if i == end {
            break;
        }
    }
    let mul = K1.wrapping_add((z & 0xff) << 1);
    w.0 = w.0.wrapping_add(((len - 1) & 63) as u64);
    v.0 = v.0.wrapping_add(w.0);
    w.0 = w.0.wrapping_add(v.0);
    round(last64, mul, 9, &mut x, &mut y, &mut z, &mut v, &mut w);
    h16(
        h16(v.0, w.0, mul)
            .wrapping_add(shift_mix(y).wrapping_mul(K0))
            .wrapping_add(z),
        h16(v.1, w.1, mul).wrapping_add(x),
        mul,
    )
}
