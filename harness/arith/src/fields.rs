//! C01 – C04: the two BN254 prime fields.
use crate::el::*;
use crate::forms;
use bn_254::{Fq, Fr};
use parity_scale_codec::{Decode, Encode};
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkstd::common::{FftField, Group, Naf, PrimeField, Ring, SigUtils, IntGroup};

pub fn same<T: El>(got: T, want: &T::Ref, what: &str) -> R {
    let g = got.val().map_err(|e| format!("{}: {}", what, e))?;
    ensure!(g == *want, "{}: got {:?}, expected {:?}", what, g, want);
    ensure!(got == T::mk(want), "{}: equal values do not compare equal", what);
    Ok(())
}
fn exp_u64() -> BoxedStrategy<u64> {
    prop_oneof![0u64..20, any::<u64>(), limb(), (0u32..64).prop_map(|i| 1u64 << i)].boxed()
}
fn limbs4() -> BoxedStrategy<[u64; 4]> { [limb(), limb(), limb(), limb()].boxed() }

/// A step of a straight-line program over three registers.
#[derive(Clone, Debug)]
enum Op { Add(u8, u8, u8), Sub(u8, u8, u8), Mul(u8, u8, u8), Neg(u8, u8), Dbl(u8, u8), Sq(u8, u8), Inv(u8, u8), Set(u8, BigUint) }
fn program(p: &'static BigUint) -> BoxedStrategy<Vec<Op>> {
    let r = || 0u8..4;
    proptest::collection::vec(prop_oneof![
        3 => (r(), r(), r()).prop_map(|(a, b, c)| Op::Add(a, b, c)),
        3 => (r(), r(), r()).prop_map(|(a, b, c)| Op::Sub(a, b, c)),
        3 => (r(), r(), r()).prop_map(|(a, b, c)| Op::Mul(a, b, c)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Neg(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Dbl(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Sq(a, b)),
        1 => (r(), r()).prop_map(|(a, b)| Op::Inv(a, b)),
        1 => (r(), int_mod(p, 256)).prop_map(|(a, v)| Op::Set(a, v)),
    ], 1..60).boxed()
}

macro_rules! arithmetic {
    ($s:ident, $t:ident, $ref:ident, $m:ident) => {{
        let nm = stringify!($t);
        $s.check(&format!("{nm}-binary-forms"), n(1_600_000, 40_000_000), || related_pair(&$m, 256), |(a, b), c| {
            let (ra, rb) = ($ref::new(a), $ref::new(b));
            let (x, y) = ($t::mk(&ra), $t::mk(&rb));
            c.nontrivial_if(!ra.is_zero() && !rb.is_zero() && a != b);
            c.class_if(a + b >= *$m, "sum wraps");
            c.class_if(a < b, "difference borrows");
            c.class_if(a == b, "equal operands");
            let (s, d, m) = (ra.add(&rb), ra.sub(&rb), ra.mul(&rb));
            for (f, g) in forms!(x, y, +, +=) { same(g, &s, f).map_err(|e| format!("add {}", e))?; }
            for (f, g) in forms!(x, y, -, -=) { same(g, &d, f).map_err(|e| format!("sub {}", e))?; }
            for (f, g) in forms!(x, y, *, *=) { same(g, &m, f).map_err(|e| format!("mul {}", e))?; }
            ensure!((x == y) == (ra == rb), "equality disagrees with values");
            ensure!((x != y) == (ra != rb), "inequality disagrees with values");
            ensure!((x.cmp(&y) == std::cmp::Ordering::Equal) == (ra == rb), "ordering disagrees with equality");
            ensure!(x.cmp(&y) == y.cmp(&x).reverse(), "ordering is not antisymmetric");
            ensure!((x < y) == (x.cmp(&y) == std::cmp::Ordering::Less) && (x > y) == (y < x) && (x <= y) == !(x > y) && (x >= y) == !(x < y), "comparison operators disagree");
            Ok(())
        });
        $s.check(&format!("{nm}-unary"), n(400_000, 10_000_000), || int_mod(&$m, 256), |a, c| {
            let r = $ref::new(a);
            let x = $t::mk(&r);
            c.nontrivial_if(!r.is_zero());
            same(-x, &r.neg(), "neg")?;
            same(-&x, &r.neg(), "neg by reference")?;
            same(PrimeField::double(x), &r.add(&r), "double")?;
            same(PrimeField::square(x), &r.sq(), "square")?;
            let mut y = x; y.double_assign(); same(y, &r.add(&r), "double_assign")?;
            let mut y = x; y.square_assign(); same(y, &r.sq(), "square_assign")?;
            ensure!(PrimeField::is_zero(x) == r.is_zero(), "is_zero");
            same(x.add_const(x), &r.add(&r), "add_const")?;
            same($t::zero() + x, &r, "zero + x")?;
            same(x - x, &$ref::zero(), "x - x")?;
            same($t::one() * x, &r, "one * x")?;
            same(<$t as Group>::ADDITIVE_IDENTITY + x, &r, "additive identity + x")?;
            same(<$t as Ring>::MULTIPLICATIVE_IDENTITY * x, &r, "multiplicative identity * x")?;
            same(<$t as IntGroup>::zero() + x, &r, "IntGroup zero + x")?;
            same(<$t as Ring>::one() * x, &r, "Ring one * x")?;
            Ok(())
        });
        $s.check(&format!("{nm}-inverse-division"), n(60_000, 1_500_000), || related_pair(&$m, 256), |(a, b), c| {
            let (ra, rb) = ($ref::new(a), $ref::new(b));
            let (x, y) = ($t::mk(&ra), $t::mk(&rb));
            c.nontrivial_if(!rb.is_zero());
            c.class_if(rb.is_zero(), "zero divisor");
            match (Group::invert(y), rb.inv()) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    same(g, &w, "invert")?;
                    same(x / y, &ra.mul(&w), "div")?;
                    let mut z = x; z /= y; same(z, &ra.mul(&w), "div_assign")?;
                }
                (g, w) => return Err(format!("invert({:?}) = {:?}, expected {:?}", rb, g, w)),
            }
            Ok(())
        });
        $s.check(&format!("{nm}-powers"), n(30_000, 800_000), || (int_mod(&$m, 256), exp_u64(), limbs4(), exp_u64()), |(a, e, e4, k), c| {
            let r = $ref::new(a);
            let x = $t::mk(&r);
            c.nontrivial_if(!r.is_zero() && *e > 1);
            c.class_if(*e == 0, "exponent 0");
            same(x.pow_vartime(e4), &r.pow(&from_limbs(e4)), "pow_vartime (256-bit exponent)")?;
            same(x.pow_vartime(&[*e, 0, 0, 0]), &r.pow(&BigUint::from(*e)), "pow_vartime (64-bit exponent)")?;
            same($t::pow_of_2(*k), &$ref::small(2).pow(&BigUint::from(*k)), "pow_of_2")?;
            Ok(())
        });
        $s.check(&format!("{nm}-sum-product"), n(20_000, 400_000), || proptest::collection::vec(int_mod(&$m, 256), 0..12), |v, c| {
            let rs: Vec<$ref> = v.iter().map(|a| $ref::new(a)).collect();
            let xs: Vec<$t> = rs.iter().map(|r| $t::mk(r)).collect();
            c.nontrivial_if(v.len() > 1);
            let s = rs.iter().fold($ref::zero(), |a, b| a.add(b));
            let p = rs.iter().fold($ref::one(), |a, b| a.mul(b));
            same(xs.iter().sum::<$t>(), &s, "sum of references")?;
            same(xs.iter().cloned().sum::<$t>(), &s, "sum of values")?;
            same(xs.iter().product::<$t>(), &p, "product of references")?;
            same(xs.iter().cloned().product::<$t>(), &p, "product of values")?;
            Ok(())
        });
        $s.check(&format!("{nm}-programs"), n(40_000, 1_000_000), || (proptest::array::uniform4(int_mod(&$m, 256)), program(&$m)), |(init, prog), c| {
            let mut r: Vec<$ref> = init.iter().map(|a| $ref::new(a)).collect();
            let mut x: Vec<$t> = r.iter().map(|a| $t::mk(a)).collect();
            for (i, op) in prog.iter().enumerate() {
                let d = match *op {
                    Op::Add(d, a, b) => { let (d, a, b) = (d as usize, a as usize, b as usize); r[d] = r[a].add(&r[b]); x[d] = x[a] + x[b]; d }
                    Op::Sub(d, a, b) => { let (d, a, b) = (d as usize, a as usize, b as usize); r[d] = r[a].sub(&r[b]); x[d] = x[a] - x[b]; d }
                    Op::Mul(d, a, b) => { let (d, a, b) = (d as usize, a as usize, b as usize); r[d] = r[a].mul(&r[b]); x[d] = x[a] * x[b]; d }
                    Op::Neg(d, a) => { let (d, a) = (d as usize, a as usize); r[d] = r[a].neg(); x[d] = -x[a]; d }
                    Op::Dbl(d, a) => { let (d, a) = (d as usize, a as usize); r[d] = r[a].add(&r[a]); x[d] = PrimeField::double(x[a]); d }
                    Op::Sq(d, a) => { let (d, a) = (d as usize, a as usize); r[d] = r[a].sq(); x[d] = PrimeField::square(x[a]); d }
                    Op::Inv(d, a) => {
                        let (d, a) = (d as usize, a as usize);
                        ensure!(Group::invert(x[a]).is_some() == !r[a].is_zero(), "step {}: invertibility", i);
                        if let Some(v) = r[a].inv() { x[d] = Group::invert(x[a]).unwrap(); r[d] = v; }
                        d
                    }
                    Op::Set(d, ref v) => { let d = d as usize; r[d] = $ref::new(v); x[d] = $t::mk(&r[d]); d }
                };
                same(x[d], &r[d], "program step").map_err(|e| format!("step {} {:?}: {}", i, op, e))?;
            }
            c.nontrivial_if(prog.len() > 3);
            Ok(())
        });
    }};
}

pub fn c01(s: &mut Suite) {
    s.effort(1);
    s.rule("a case counts as non-trivial when no operand is zero (and, for binary forms, the operands differ); straight-line programs count when they have more than 3 steps. Distinct inputs only.");
    s.assume("reference arithmetic: num-bigint; elements are built from their Montgomery limbs v*2^256 mod p and read back from raw limbs");
    arithmetic!(s, Fr, Rr, R_MOD);
    arithmetic!(s, Fq, Rq, Q_MOD);
    s.check("Fr-pow-u64", n(30_000, 800_000), || (fr_int(), exp_u64()), |(a, e), c| {
        let r = Rr::new(a);
        c.nontrivial_if(!r.is_zero() && *e > 1);
        same(FftField::pow(Fr::mk(&r), *e), &r.pow(&BigUint::from(*e)), "pow")
    });
}

// ------------------------------------------------------------------ C02
/// 32-byte strings concentrated around the modulus, its multiples and word boundaries.
fn bytes32(m: &'static BigUint) -> BoxedStrategy<[u8; 32]> {
    let cap = &*R256 - 1u32;
    prop_oneof![
        2 => any::<[u8; 32]>(),
        2 => int_mod(m, 256).prop_map(|v| to_le32(&v)),
        3 => (1u32..6, -3i64..4).prop_map(move |(k, d)| {
            let base = m * k + 3u32;
            let v = if d >= 0 { base + d as u64 - 3u32 } else { base - (-d) as u64 - 3u32 };
            to_le32(&(v % &*R256))
        }),
        2 => proptest::collection::vec(limb(), 4).prop_map(|l| to_le32(&from_limbs(&l))),
        2 => (proptest::collection::vec(limb(), 4), 0usize..4).prop_map(move |(l, k)| {
            let mut p = m.to_u64_digits(); p[k] = l[k]; to_le32(&from_limbs(&p)) }),
        1 => (0u64..4).prop_map(move |d| to_le32(&(&cap - d))),
    ].boxed()
}
fn bytes64(m: &'static BigUint) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        (bytes32(m), bytes32(m)).prop_map(|(a, b)| [a, b].concat()),
        (0u32..520, 0u64..6).prop_map(move |(k, d)| {
            let v = ((BigUint::one() << k) + BigUint::from(d)) % (&*R256 * &*R256);
            let mut b = v.to_bytes_le(); b.resize(64, 0); b }),
        (any::<[u8; 32]>(), 0u64..3).prop_map(move |(a, d)| {
            let v = (BigUint::from_bytes_le(&a) * m + d) % (&*R256 * &*R256);
            let mut b = v.to_bytes_le(); b.resize(64, 0); b }),
    ].boxed()
}
fn naf_value(n: &[Naf]) -> Result<BigUint, String> {
    let mut v = BigInt::zero();
    for d in n { v = v * 2 + match d { Naf::Zero => 0, Naf::Plus => 1, Naf::Minus => -1 }; }
    v.to_biguint().ok_or_else(|| "negative NAF value".into())
}

macro_rules! encodings {
    ($s:ident, $t:ident, $ref:ident, $m:ident) => {{
        let nm = stringify!($t);
        $s.check(&format!("{nm}-decode"), n(400_000, 8_000_000), || bytes32(&$m), |b, c| {
            let v = BigUint::from_bytes_le(b);
            c.nontrivial();
            c.class_if(v >= *$m, "out of range");
            c.class_if(v < *$m, "in range");
            match $t::from_bytes(*b) {
                Some(x) => {
                    ensure!(v < *$m, "non-canonical encoding 0x{:x} accepted", v);
                    same(x, &$ref::new(&v), "from_bytes")?;
                    ensure!(x.to_bytes() == *b, "re-encoding differs");
                }
                None => ensure!(v >= *$m, "canonical encoding 0x{:x} rejected", v),
            }
            Ok(())
        });
        $s.check(&format!("{nm}-encode"), n(200_000, 4_000_000), || int_mod(&$m, 256), |v, c| {
            let x = $t::mk(&$ref::new(v));
            c.nontrivial_if(!v.is_zero());
            let le = to_le32(v);
            ensure!(x.to_bytes() == le, "to_bytes: {:?}, expected {:?}", x.to_bytes(), le);
            ensure!(x.to_raw_bytes() == le.to_vec(), "to_raw_bytes");
            ensure_eq!($t::from_bytes(x.to_bytes()), Some(x), "byte round trip");
            ensure_eq!(format!("{:?}", x), format!("0x{:0>64}", format!("{:x}", v)), "hex rendering");
            let bits = x.to_bits();
            ensure!(bits.len() == 256 && bits.iter().all(|b| *b < 2), "bit expansion shape");
            let mut w = BigUint::zero();
            for b in bits.iter() { w = (w << 1u32) + *b as u32; }
            ensure!(w == *v, "bit expansion denotes 0x{:x}", w);
            let nafs = x.to_nafs();
            ensure!(naf_value(&nafs)? == *v, "NAF expansion denotes 0x{:x}", naf_value(&nafs)?);
            ensure!(nafs.windows(2).all(|w| w[0] == Naf::Zero || w[1] == Naf::Zero), "adjacent non-zero NAF digits");
            ensure!(nafs.first().map(|d| *d == Naf::Plus).unwrap_or(true), "NAF leading digit");
            let e = x.encode();
            let mut inp = &e[..];
            ensure_eq!($t::decode(&mut inp).ok(), Some(x), "SCALE round trip");
            ensure!(inp.is_empty(), "SCALE decoding left bytes");
            let js = serde_json::to_string(&x).map_err(|e| e.to_string())?;
            ensure_eq!(serde_json::from_str::<$t>(&js).ok(), Some(x), "serde round trip");
            same($t::to_mont_form(to_limbs::<4>(v)), &$ref::new(v), "to_mont_form")?;
            Ok(())
        });
        $s.check(&format!("{nm}-wide"), n(200_000, 4_000_000), || bytes64(&$m), |b, c| {
            let v = BigUint::from_bytes_le(b);
            c.nontrivial_if(v >= *$m);
            let a: [u8; 64] = b.clone().try_into().unwrap();
            same($t::from_bytes_wide(&a), &$ref::new(&v), "from_bytes_wide")?;
            // the same 512 bits fed through the library's sampler
            struct Feed(Vec<u8>, usize);
            impl rand_core::RngCore for Feed {
                fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
                fn next_u64(&mut self) -> u64 { let v = u64::from_le_bytes(self.0[self.1 % 64..self.1 % 64 + 8].try_into().unwrap()); self.1 += 8; v }
                fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); let l = c.len(); c.copy_from_slice(&w[..l]); } }
                fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
            }
            let x = <$t as Group>::random(&mut Feed(b.clone(), 0));
            x.val().map_err(|e| format!("random: {}", e))?;
            Ok(())
        });
        $s.check(&format!("{nm}-from-u64"), n(50_000, 1_000_000), || prop_oneof![limb(), any::<u64>()].boxed(), |v, c| {
            c.nontrivial_if(*v > 1);
            same($t::from(*v), &$ref::new(&BigUint::from(*v)), "From<u64>")
        });
    }};
}

pub fn c02(s: &mut Suite) {
    s.effort(12);
    s.rule("non-trivial: every decoded byte string (in or out of range); encodings of non-zero values; wide inputs at least the modulus. Distinct inputs only.");
    s.assume("SCALE and serde carry raw limbs of well-formed elements; decoding ill-formed limb data is outside the statement");
    encodings!(s, Fr, Rr, R_MOD);
    encodings!(s, Fq, Rq, Q_MOD);
    s.check("cross-field", n(200_000, 4_000_000), || (fr_int(), fq_int()), |(a, b), c| {
        c.nontrivial_if(!a.is_zero() && !b.is_zero());
        c.class_if(*b >= *R_MOD, "base value at least scalar order");
        same(Fq::from(Fr::mk(&Rr::new(a))), &Rq::new(a), "Fr -> Fq")?;
        same(Fr::from(Fq::mk(&Rq::new(b))), &Rr::new(b), "Fq -> Fr")
    });
    s.check("Fr-hash-and-digits", n(200_000, 4_000_000), || (bytes64(&R_MOD), fr_int()), |(h, a), c| {
        let v = BigUint::from_bytes_le(h);
        let a64: [u8; 64] = h.clone().try_into().unwrap();
        c.nontrivial_if(v >= *R_MOD);
        same(Fr::from_hash(&a64), &Rr::new(&v), "from_hash")?;
        let x = Fr::mk(&Rr::new(a));
        let odd = a.bit(0);
        ensure!(Fr::is_odd(x) == odd, "is_odd");
        // digit helpers work on the reduced (canonical) limbs
        let red = x.reduce();
        ensure!(from_limbs(red.inner()) == *a, "reduce gives 0x{:x}", from_limbs(red.inner()));
        ensure!(red.is_even() == !odd, "is_even of the reduced form");
        for k in 1..8u8 { ensure!(red.mod_2_pow_k(k) as u64 == (a % (1u64 << k)).to_u64_digits().first().cloned().unwrap_or(0), "mod_2_pow_k({})", k); }
        for w in 2..7u8 {
            let m = (a % (1u64 << w)).to_u64_digits().first().cloned().unwrap_or(0) as i64;
            let want = if m >= 1 << (w - 1) { m - (1 << w) } else { m };
            ensure!(red.mods_2_pow_k(w) as i64 == want, "mods_2_pow_k({}) = {}, expected {}", w, red.mods_2_pow_k(w), want);
        }
        let q = x.to_costomized_repr();
        let mut w = BigUint::zero();
        for d in q.iter() { ensure!(*d < 4, "base-4 digit"); w = (w << 2u32) + *d as u32; }
        ensure!(w == *a, "base-4 expansion denotes 0x{:x}", w);
        Ok(())
    });
    s.check("Fr-divn", n(50_000, 1_000_000), || (fr_int(), 0u32..300), |(a, k), c| {
        c.nontrivial_if(*k > 0 && *k < 256);
        let mut red = Fr::mk(&Rr::new(a)).reduce();
        red.divn(*k);
        ensure!(from_limbs(red.inner()) == a >> *k, "divn({}) gives 0x{:x}", k, from_limbs(red.inner()));
        Ok(())
    });
}

// ------------------------------------------------------------------ C03
/// Elements with every 2-power order, squares, non-squares, boundary values.
fn fr_sqrt_input() -> BoxedStrategy<BigUint> {
    let t = (&*R_MOD - 1u32) >> 28u32;
    let g = BigUint::from(5u32).modpow(&t, &R_MOD);
    prop_oneof![
        2 => fr_int(),
        3 => fr_int().prop_map(|a| &a * &a % &*R_MOD),
        // order exactly dividing 2^k times an odd-order part
        3 => (0u32..29, any::<u64>(), fr_int()).prop_map(move |(k, e, o)| {
            let root = g.modpow(&(BigUint::one() << (28 - k)), &R_MOD).modpow(&BigUint::from(e | 1), &R_MOD);
            let odd = o.modpow(&(BigUint::one() << 28u32), &R_MOD);
            if odd.is_zero() { root } else { root * odd % &*R_MOD }
        }),
        1 => (0u32..29, any::<u64>()).prop_map({ let g = BigUint::from(5u32).modpow(&((&*R_MOD - 1u32) >> 28u32), &R_MOD);
            move |(k, e)| g.modpow(&(BigUint::one() << (28 - k)), &R_MOD).modpow(&BigUint::from(e), &R_MOD) }),
    ].boxed()
}
fn fq_sqrt_input() -> BoxedStrategy<BigUint> {
    prop_oneof![fq_int(), fq_int().prop_map(|a| &a * &a % &*Q_MOD), fq_int().prop_map(|a| (&*Q_MOD - &a * &a % &*Q_MOD) % &*Q_MOD)].boxed()
}
fn rq2(v: &(BigUint, BigUint)) -> Rq2 { Rq2(Rq::new(&v.0), Rq::new(&v.1)) }
fn fq2_sqrt_input() -> BoxedStrategy<(BigUint, BigUint)> {
    prop_oneof![
        2 => fq2_int(),
        3 => fq2_int().prop_map(|v| { let s = rq2(&v).sq(); (s.0.0, s.1.0) }),
        1 => fq2_int().prop_map(|v| { let s = rq2(&v).sq().mul(&Rq2::xi()); (s.0.0, s.1.0) }),
    ].boxed()
}
fn half(m: &BigUint) -> BigUint { m >> 1u32 }

pub fn c03(s: &mut Suite) {
    s.effort(15);
    s.rule("non-trivial: non-zero inputs. Classes count squares, non-squares, subfield and purely imaginary inputs. Distinct inputs only.");
    s.assume("squareness oracle: Euler criterion (prime fields) and norm criterion (quadratic extension)");
    s.check("Fr-sqrt", n(24_000, 600_000), fr_sqrt_input, |a, c| {
        let r = Rr::new(a);
        c.nontrivial_if(!r.is_zero());
        let sq = r.is_square();
        c.class(if sq { "square" } else { "non-square" });
        match Fr::mk(&r).sqrt() {
            Some(x) => { ensure!(sq, "root returned for a non-square"); same(Fr::mk(&x.val()?.sq()), &r, "root squared") }
            None => { ensure!(!sq, "no root for the square {:?}", r); Ok(()) }
        }
    });
    s.check("Fq-sqrt", n(24_000, 600_000), fq_sqrt_input, |a, c| {
        let r = Rq::new(a);
        c.nontrivial_if(!r.is_zero());
        let sq = r.is_square();
        c.class(if sq { "square" } else { "non-square" });
        match Fq::mk(&r).sqrt() {
            Some(x) => { ensure!(sq, "root returned for a non-square"); same(Fq::mk(&x.val()?.sq()), &r, "root squared") }
            None => { ensure!(!sq, "no root for the square {:?}", r); Ok(()) }
        }
    });
    s.check("Fq2-sqrt", n(16_000, 400_000), fq2_sqrt_input, |a, c| {
        let r = rq2(a);
        c.nontrivial_if(!r.is_zero());
        let sq = r.is_square();
        c.class(if sq { "square" } else { "non-square" });
        c.class_if(r.1.is_zero(), "subfield");
        c.class_if(r.0.is_zero(), "purely imaginary");
        match bn_254::Fq2::mk(&r).sqrt() {
            Some(x) => { ensure!(sq, "root returned for a non-square"); same(bn_254::Fq2::mk(&x.val()?.sq()), &r, "root squared") }
            None => { ensure!(!sq, "no root for the square {:?}", r); Ok(()) }
        }
    });
    s.check("Fq-lexicographic", n(200_000, 3_000_000), fq_int, |a, c| {
        let r = Rq::new(a);
        c.nontrivial_if(!r.is_zero());
        let x = Fq::mk(&r);
        ensure_eq!(x.lexicographically_largest(), *a > half(&Q_MOD), "lexicographically_largest");
        if !r.is_zero() { ensure!(x.lexicographically_largest() != (-x).lexicographically_largest(), "both or neither of x, -x are largest"); }
        Ok(())
    });
    s.check("Fq2-lexicographic", n(200_000, 3_000_000), fq2_int, |a, c| {
        let r = rq2(a);
        c.nontrivial_if(!r.is_zero());
        let x = bn_254::Fq2::mk(&r);
        let want = if a.1.is_zero() { a.0 > half(&Q_MOD) } else { a.1 > half(&Q_MOD) };
        ensure_eq!(x.lexicographically_largest(), want, "lexicographically_largest");
        if !r.is_zero() { ensure!(x.lexicographically_largest() != (-x).lexicographically_largest(), "both or neither of x, -x are largest"); }
        Ok(())
    });
}

// ------------------------------------------------------------------ C04
macro_rules! ffcompat {
    ($s:ident, $t:ident, $ref:ident, $m:ident, $sqrt_in:ident, $small_gens:expr) => {{
        use ff::{Field as FF, PrimeField as FP, PrimeFieldBits};
        let nm = stringify!($t);
        $s.check(&format!("{nm}-ff-repr"), n(200_000, 4_000_000), || bytes32(&$m), |b, c| {
            let v = BigUint::from_bytes_le(b);
            c.nontrivial();
            c.class_if(v >= *$m, "out of range");
            let o: Option<$t> = <$t as FP>::from_repr(*b).into();
            let ov: Option<$t> = <$t as FP>::from_repr_vartime(*b);
            ensure!(o == ov, "from_repr and from_repr_vartime disagree");
            match o {
                Some(x) => {
                    ensure!(v < *$m, "non-canonical representation 0x{:x} accepted", v);
                    same(x, &$ref::new(&v), "from_repr")?;
                    ensure!(x.to_repr() == *b, "representation round trip");
                }
                None => ensure!(v >= *$m, "canonical representation rejected"),
            }
            Ok(())
        });
        $s.check(&format!("{nm}-ff-field"), n(30_000, 600_000), || (int_mod(&$m, 256), exp_u64(), limbs4()), |(a, e, e4), c| {
            let r = $ref::new(a);
            let x = $t::mk(&r);
            c.nontrivial_if(!r.is_zero());
            c.class_if(r.is_zero(), "zero");
            ensure!(x.to_repr() == to_le32(a), "to_repr");
            ensure!(bool::from(FP::is_odd(&x)) == a.bit(0), "is_odd");
            ensure!(bool::from(FP::is_even(&x)) == !a.bit(0), "is_even");
            ensure!(bool::from(FF::is_zero(&x)) == r.is_zero() && FF::is_zero_vartime(&x) == r.is_zero(), "is_zero");
            let inv: Option<$t> = FF::invert(&x).into();
            match (inv, r.inv()) {
                (None, None) => {}
                (Some(g), Some(w)) => same(g, &w, "invert")?,
                (g, w) => return Err(format!("invert({:?}) = {:?}, expected {:?}", r, g, w)),
            }
            same(FF::square(&x), &r.sq(), "square")?;
            same(FF::double(&x), &r.add(&r), "double")?;
            same(FF::cube(&x), &r.sq().mul(&r), "cube")?;
            same(FF::pow(&x, &e4[..]), &r.pow(&from_limbs(e4)), "pow")?;
            same(FF::pow_vartime(&x, &[*e]), &r.pow(&BigUint::from(*e)), "pow_vartime")?;
            same(<$t as FF>::ZERO, &$ref::zero(), "ZERO")?;
            same(<$t as FF>::ONE, &$ref::one(), "ONE")?;
            same(<$t as FP>::from_u128((*e as u128) << 64 | e4[0] as u128), &$ref::new(&((BigUint::from(*e) << 64u32) + e4[0])), "from_u128")?;
            let bits: Vec<bool> = x.to_le_bits().into_iter().take(256).collect();
            for (i, b) in bits.iter().enumerate() { ensure!(*b == a.bit(i as u64), "little-endian bit {}", i); }
            Ok(())
        });
        $s.check(&format!("{nm}-ff-select"), n(30_000, 600_000), || related_pair(&$m, 256), |(a, b), c| {
            use ff::derive::subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
            c.nontrivial_if(a != b);
            let (x, y) = ($t::mk(&$ref::new(a)), $t::mk(&$ref::new(b)));
            ensure!($t::conditional_select(&x, &y, Choice::from(0)) == x && $t::conditional_select(&x, &y, Choice::from(1)) == y, "conditional_select");
            ensure!(bool::from(x.ct_eq(&y)) == (a == b), "ct_eq");
            Ok(())
        });
        $s.check(&format!("{nm}-ff-sqrt"), n(10_000, 200_000), || ($sqrt_in(), prop_oneof![3 => $sqrt_in(), 1 => Just(BigUint::zero()), 1 => Just(BigUint::one())]), |(a, b), c| {
            let (ra, rb) = ($ref::new(a), $ref::new(b));
            c.nontrivial_if(!ra.is_zero());
            c.class_if(!ra.is_square(), "non-square");
            c.class_if(rb.is_zero(), "zero divisor");
            let x = $t::mk(&ra);
            let r: Option<$t> = FF::sqrt(&x).into();
            match r {
                Some(g) => { ensure!(ra.is_square(), "sqrt of a non-square"); ensure!(g.val()?.sq() == ra, "sqrt squared"); }
                None => ensure!(!ra.is_square(), "no sqrt of a square"),
            }
            let (ok, g) = <$t as FF>::sqrt_ratio(&x, &$t::mk(&rb));
            let (ok, g) = (bool::from(ok), g.val()?);
            match rb.inv() {
                _ if ra.is_zero() => ensure!(ok && g.is_zero(), "sqrt_ratio(0, d) must be (true, 0)"),
                None => ensure!(!ok && g.is_zero(), "sqrt_ratio(n, 0) must be (false, 0)"),
                Some(i) => {
                    let q = ra.mul(&i);
                    ensure!(ok == q.is_square(), "sqrt_ratio flag");
                    let want = if ok { q } else { q.mul(&<$t as FP>::ROOT_OF_UNITY.val()?) };
                    ensure!(g.sq() == want, "sqrt_ratio value");
                }
            }
            let (ok, g) = FF::sqrt_alt(&x);
            ensure!(bool::from(ok) == ra.is_square() && g.val()?.sq() == if bool::from(ok) { ra.clone() } else { ra.mul(&<$t as FP>::ROOT_OF_UNITY.val()?) }, "sqrt_alt");
            Ok(())
        });
        $s.finding(&format!("{nm}-ff-constants"), || {
            let m = &*$m;
            let s = (m - 1u32).trailing_zeros().unwrap();
            ensure_eq!(<$t as FP>::MODULUS.to_string(), format!("0x{:x}", m), "MODULUS");
            ensure_eq!(<$t as FP>::NUM_BITS as u64, m.bits(), "NUM_BITS");
            ensure_eq!(<$t as FP>::CAPACITY as u64, m.bits() - 1, "CAPACITY");
            ensure_eq!(<$t as FP>::S as u64, s, "S");
            let cb: Vec<bool> = <$t as PrimeFieldBits>::char_le_bits().into_iter().take(256).collect();
            for (i, b) in cb.iter().enumerate() { ensure!(*b == m.bit(i as u64), "char_le_bits {}", i); }
            let two = $ref::small(2);
            ensure!(<$t as FP>::TWO_INV.val()?.mul(&two) == $ref::one(), "TWO_INV * 2 != 1");
            let g = <$t as FP>::MULTIPLICATIVE_GENERATOR.val()?;
            for f in $small_gens { let fb: BigUint = f.parse().unwrap(); let e = (m - 1u32) / &fb; ensure!(&e * &fb == m - 1u32, "factor {}", f); ensure!(g.pow(&e) != $ref::one(), "MULTIPLICATIVE_GENERATOR is a {}-th power", f); }
            let t = (m - 1u32) >> s;
            let w = <$t as FP>::ROOT_OF_UNITY.val()?;
            ensure!(w == g.pow(&t), "ROOT_OF_UNITY != generator^t");
            ensure!(w.pow(&(BigUint::one() << s)) == $ref::one() && w.pow(&(BigUint::one() << (s - 1))) != $ref::one(), "ROOT_OF_UNITY order");
            ensure!(<$t as FP>::ROOT_OF_UNITY_INV.val()?.mul(&w) == $ref::one(), "ROOT_OF_UNITY_INV");
            ensure!(<$t as FP>::DELTA.val()? == g.pow(&(BigUint::one() << s)), "DELTA != generator^(2^S)");
            Ok(())
        });
    }};
}
pub fn c04(s: &mut Suite) {
    s.effort(12);
    s.rule("non-trivial: every decoded representation; non-zero elements; pairs with different members. Distinct inputs only. Constants are checked once against their defining relations.");
    ffcompat!(s, Fr, Rr, R_MOD, fr_sqrt_input, ["2", "3", "13", "29", "983", "237073", "11003", "405928799", "1670836401704629", "13818364434197438864469338081"]);
    ffcompat!(s, Fq, Rq, Q_MOD, fq_sqrt_input, ["2", "3", "13", "29", "67", "229", "311", "983", "11003", "405928799", "11465965001", "13427688667394608761327070753331941386769"]);
    s.finding("Fr-fft-constants", || {
        let s = (&*R_MOD - 1u32).trailing_zeros().unwrap();
        ensure_eq!(<Fr as FftField>::S as u64, s, "FftField::S");
        ensure_eq!(bn_254::TWO_ADACITY as u64, s, "TWO_ADACITY");
        let g = <Fr as FftField>::MULTIPLICATIVE_GENERATOR.val()?;
        let w = <Fr as FftField>::ROOT_OF_UNITY.val()?;
        ensure!(g.pow(&((&*R_MOD - 1u32) >> 1u32)) != Rr::one(), "FFT generator is a square");
        ensure!(w.pow(&(BigUint::one() << s)) == Rr::one() && w.pow(&(BigUint::one() << (s - 1))) != Rr::one(), "FFT root of unity order");
        ensure!(w == g.pow(&((&*R_MOD - 1u32) >> s)), "FFT root of unity != generator^t");
        ensure!(bn_254::ROOT_OF_UNITY.val()? == w && bn_254::MULTIPLICATIVE_GENERATOR.val()? == g, "exported constants");
        Ok(())
    });
}
