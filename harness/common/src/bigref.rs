//! Reference modular arithmetic on big integers.
use crate::G;
use num_bigint::BigUint;
use num_traits::{One, Zero};

pub fn hex(s: &str) -> BigUint {
    BigUint::parse_bytes(s.trim_start_matches("0x").as_bytes(), 16).unwrap()
}
pub fn le(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
pub fn to_le(x: &BigUint, n: usize) -> Vec<u8> {
    let mut v = x.to_bytes_le();
    assert!(v.len() <= n);
    v.resize(n, 0);
    v
}
pub fn addm(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a + b) % p
}
pub fn subm(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    ((a + p) - (b % p)) % p
}
pub fn mulm(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a * b) % p
}
pub fn invm(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    if (a % p).is_zero() {
        None
    } else {
        Some(a.modpow(&(p - 2u32), p))
    }
}
pub fn is_qr(a: &BigUint, p: &BigUint) -> bool {
    a.is_zero() || a.modpow(&((p - 1u32) >> 1), p).is_one()
}

/// An integer below p, with heavy weight on boundary patterns.
pub fn edge_int(g: &mut G, p: &BigUint) -> BigUint {
    let bits = p.bits();
    match g.weighted(&[3, 3, 2, 2, 2, 2, 2, 8]) {
        0 => BigUint::from(g.below(4)),
        1 => p - 1u32 - BigUint::from(g.below(4)),
        2 => (p >> 1) + BigUint::from(g.below(3)) - 1u32,
        3 => {
            // power of two, +-1
            let e = g.below(bits);
            let x = BigUint::one() << e;
            let x = match g.below(3) {
                0 => x,
                1 => x - 1u32,
                _ => x + 1u32,
            };
            x % p
        }
        4 => {
            // limbs drawn from {0, 1, max, max-1, random}
            let mut v = BigUint::zero();
            for i in 0..4u32 {
                let l = match g.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => u64::MAX,
                    3 => u64::MAX - 1,
                    _ => g.u64(),
                };
                v += BigUint::from(l) << (64 * i);
            }
            v % p
        }
        5 => BigUint::from(g.u64()),
        6 => {
            // near 2^256 - p  (Montgomery R mod p neighbourhood)
            let r = (BigUint::one() << 256u32) % p;
            (r + BigUint::from(g.below(5)) + p - 2u32) % p
        }
        _ => {
            let b = g.bytes(40);
            le(&b) % p
        }
    }
}
