//! Generators shared by all harnesses. Everything random comes from proptest strategies.
use crate::refs::*;
use num_bigint::BigUint;
use num_traits::One;
use proptest::prelude::*;

/// A 64-bit limb with a strong bias to carry/borrow boundaries.
pub fn limb() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        2 => Just(0u64),
        2 => Just(u64::MAX),
        1 => Just(1u64),
        1 => Just(u64::MAX - 1),
        1 => Just(1u64 << 63),
        1 => Just((1u64 << 63) - 1),
        1 => (0u32..64).prop_map(|i| 1u64 << i),
        1 => (0u32..64).prop_map(|i| (1u64 << i).wrapping_sub(1)),
        1 => 0u64..16,
    ].boxed()
}

/// An integer in 0..p biased to every boundary of the implementation: small, near p, near p/2,
/// powers of two, limb patterns of the canonical form and of the Montgomery form (radix 2^bits).
pub fn int_mod(p: &'static BigUint, bits: u32) -> BoxedStrategy<BigUint> {
    let r = BigUint::one() << bits;
    let rinv = inv_mod(&(&r % p), p).unwrap();
    let nl = (bits / 64) as usize;
    let (i1, i2) = (rinv.clone(), rinv);
    prop_oneof![
        4 => proptest::collection::vec(any::<u64>(), nl + 1).prop_map(move |l| from_limbs(&l) % p),
        3 => (0u64..20).prop_map(BigUint::from),
        1 => any::<u64>().prop_map(move |v| BigUint::from(v) % p),
        3 => (1u64..20).prop_map(move |d| p - BigUint::from(d)),
        1 => any::<u64>().prop_map(move |d| p - BigUint::one() - BigUint::from(d) % p),
        1 => (0u32..9).prop_map(move |d| ((p >> 1u32) + p + d - 4u32) % p),
        2 => (0u32..bits, -2i64..3).prop_map(move |(k, d)| ((BigUint::one() << k) + p + BigUint::from((d + 2) as u64) - 2u32) % p),
        4 => proptest::collection::vec(limb(), nl).prop_map(move |l| from_limbs(&l) % p),
        4 => proptest::collection::vec(limb(), nl).prop_map(move |l| from_limbs(&l) % p * &i1 % p),
        // Montgomery limbs just below the modulus / sharing its high limbs
        2 => (proptest::collection::vec(limb(), nl), 1usize..nl).prop_map(move |(l, k)| {
            let mut m = p.to_u64_digits(); m.resize(nl, 0);
            for i in 0..k { m[i] = l[i]; }
            from_limbs(&m) % p * &i2 % p
        }),
    ].boxed()
}
pub fn fr_int() -> BoxedStrategy<BigUint> { int_mod(&R_MOD, 256) }
pub fn fq_int() -> BoxedStrategy<BigUint> { int_mod(&Q_MOD, 256) }

/// Pairs with a healthy share of equal / opposite / inverse / adjacent operands.
pub fn related_pair(p: &'static BigUint, bits: u32) -> BoxedStrategy<(BigUint, BigUint)> {
    (int_mod(p, bits), int_mod(p, bits), 0u8..12).prop_map(move |(a, b, k)| {
        let b = match k {
            0 => a.clone(),
            1 => (p - &a) % p,
            2 => inv_mod(&a, p).unwrap_or_default(),
            3 => (&a + 1u32) % p,
            4 => (p + p - &a - 1u32) % p,
            5 => (p + 1u32 - &a) % p,
            _ => b,
        };
        (a, b)
    }).boxed()
}

pub fn fq2_int() -> BoxedStrategy<(BigUint, BigUint)> {
    prop_oneof![
        5 => (fq_int(), fq_int()),
        1 => fq_int().prop_map(|a| (a, BigUint::default())),
        1 => fq_int().prop_map(|a| (BigUint::default(), a)),
        1 => fq_int().prop_map(|a| (a.clone(), a)),
        1 => fq_int().prop_map(|a| (a.clone(), (&*Q_MOD - a) % &*Q_MOD)),
    ].boxed()
}
