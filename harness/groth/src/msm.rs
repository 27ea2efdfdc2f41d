//! C15: multi-scalar multiplication and the Pedersen commitment against the sum of scalar multiples.
//! Every point has a known discrete logarithm, so the sum is one fixed-base multiple in the model.
use crate::cv::*;
use crate::el::*;
pub use crate::env::Env;
use crate::fft::Rng;
use parity_scale_codec::{Decode, Encode};
use std::sync::Arc;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkgroth16::verif::msm_curve_addition;
use zknova::{verif::commit, PedersenCommitment};
use zkstd::common::{BNAffine, BNCurve, CurveGroup};

const NP: usize = 128;

fn scalar(p: &'static BigUint) -> BoxedStrategy<BigUint> {
    prop_oneof![
        4 => int_mod(p, 256),
        2 => (0u64..5).prop_map(BigUint::from),
        1 => Just(p - 1u32),
        // digits all ones / a single digit, for every window width
        2 => (1u32..13, 0u32..254).prop_map(move |(c, k)| (((BigUint::one() << c) - 1u32) << k) % p),
        1 => (0u32..254).prop_map(move |k| (BigUint::one() << k) % p),
        1 => Just((BigUint::one() << 253u32) % p),
    ].boxed()
}
/// (point, scalar) pairs with repeated and opposite points, plus a number of unused trailing bases.
type Items = (Vec<(usize, BigUint)>, usize);
fn items(p: &'static BigUint, max: usize) -> BoxedStrategy<Items> {
    let len = prop_oneof![4 => 0usize..6, 2 => 6usize..28, 2 => 28usize..36, 1 => 60usize..68, 1 => 124usize..132, 1 => 252usize..260].prop_map(move |l| l.min(max));
    let one = (0usize..NP, scalar(p), 0u8..10);
    (len.prop_flat_map(move |l| prop::collection::vec(one.clone(), l)), prop_oneof![3 => Just(0usize), 2 => 1usize..6, 1 => 20usize..34], 0u8..6).prop_map(|(v, extra, mode)| {
        let mut o: Vec<(usize, BigUint)> = vec![];
        for (i, s, op) in v {
            let (i, s) = match (op, o.last()) {
                (0, Some(l)) => (l.0, s),
                (1, Some(l)) => (l.0, l.1.clone()),
                (2, Some(l)) => ((l.0 + NP / 2) % NP, l.1.clone()),
                (3, Some(l)) => (i, l.1.clone()),
                _ => (i, s),
            };
            o.push((match mode { 0 => 5, 1 => i % 2 * 64 + 9, _ => i }, s));
        }
        (o, extra)
    }).boxed()
}
fn classes(v: &[(usize, BigUint)], extra: usize, case: &mut Case) {
    case.nontrivial_if(v.len() > 1 && v.iter().any(|(i, s)| *i % 64 != 0 && !s.is_zero()));
    case.class(match v.len() { 0 => "n=0", 1 => "n=1", 2..=3 => "n=2-3 (window 1)", 4..=31 => "n=4-31 (window 3)", _ => "n>=32 (window >=6)" });
    case.class_if(v.iter().any(|(i, _)| i % 64 == 0), "an identity point");
    case.class_if(v.iter().any(|(_, s)| s.is_zero()), "a zero scalar");
    case.class_if(v.windows(2).any(|w| w[0] == w[1]), "a repeated term");
    case.class_if(v.windows(2).any(|w| w[0].1 == w[1].1 && (w[0].0 + 64) % NP == w[1].0), "opposite points, same scalar");
    case.class_if(extra > 0, "more bases than scalars");
}
fn msm_of<C: Cv>(e: &Env<C>, v: &[(usize, BigUint)], extra: usize) -> R {
    let mut bases: Vec<C::A> = v.iter().map(|(i, _)| e.pts[*i].1).collect();
    for k in 0..extra { bases.push(e.pts[(k * 7 + 1) % NP].1); }
    let sc: Vec<C::S> = v.iter().map(|(_, s)| C::scalar(s)).collect();
    is_p::<C>(msm_curve_addition(&bases, &sc), &e.sum(v), &format!("multi-scalar multiplication over {} ({} terms, {} bases)", C::NAME, v.len(), bases.len()))
}
fn msm_checks<C: Cv>(s: &mut Suite, q: u64) where <C::A as BNCurve>::Scalar: 'static {
    let e = Env::<C>::new();
    // anchor of the model itself: the table against the reference double-and-add
    let k = &*R_MOD - 12345u32;
    assert!(e.mul(&k) == pt_mul(&C::table()[1], &k));
    let p = if C::NAME == "Grumpkin" { &*Q_MOD } else { &*R_MOD };
    {
        let e = e.clone();
        s.check(&format!("msm_{}", C::NAME), n(q, q * 20).shrink(300), move || items(p, 300), move |(v, extra): &Items, case| {
            classes(v, *extra, case);
            msm_of::<C>(&e, v, *extra)
        });
    }
    let long = move |len: usize, seed: u64, mode: u8| -> Vec<(usize, BigUint)> {
        let mut z = seed;
        (0..len).map(|_| {
            let k = splitmix(&mut z);
            let i = if mode == 0 { (k % 2 * 64) as usize + 9 } else { k as usize % NP };
            let s = match k >> 32 & 15 { 0 => BigUint::zero(), 1 => p - 1u32, 2 => BigUint::from(k % 300), _ if mode == 1 => (BigUint::one() << (k % 254) as u32) % p, _ => from_limbs(&[splitmix(&mut z), splitmix(&mut z), splitmix(&mut z), splitmix(&mut z)]) % p };
            (i, s)
        }).collect()
    };
    {
        let e = e.clone();
        s.check(&format!("msm_long_{}", C::NAME), n(q / 40, q).shrink(20), move || (prop_oneof![4 => 256usize..600, 2 => 1000usize..1100, 1 => 2040usize..2060], any::<u64>(), 0u8..4), move |(len, seed, mode): &(usize, u64, u8), case| {
            let v = long(*len, *seed, *mode);
            classes(&v, 0, case);
            msm_of::<C>(&e, &v, 0)
        });
    }
    // the window widths beyond ten bits (the proving keys of the recursion have 2^17 points)
    let top = if C::NAME == "G2" { 4 } else { 6 };
    s.check(&format!("msm_huge_{}", C::NAME), n(8, q / 20).shrink(4), move || ((0usize..top, 0usize..600), any::<u64>(), 0u8..4), move |((k, d), seed, mode): &((usize, usize), u64, u8), case| {
        let v = long([4000, 8000, 8192, 16384, 32768, 65400][*k] + d, *seed, *mode);
        classes(&v, 0, case);
        case.class(match v.len() { 0..=8191 => "window 10", 8192..=16383 => "window 11", 16384..=32767 => "window 12", _ => "window 13" });
        msm_of::<C>(&e, &v, 0)
    });
}
fn key_of<A: BNAffine + Encode + Decode>(pts: &[A]) -> PedersenCommitment<A> {
    PedersenCommitment::decode(&mut &pts.to_vec().encode()[..]).expect("commitment key from its encoding")
}
fn pedersen<C: Cv>(s: &mut Suite, q: u64) {
    let e = Env::<C>::new();
    let p = if C::NAME == "Grumpkin" { &*Q_MOD } else { &*R_MOD };
    {
        let e = e.clone();
        s.check(&format!("commit_{}", C::NAME), n(q, q * 20).shrink(200), move || (items(p, 40), prop::collection::vec(scalar(p), 0..41), scalar(p)), move |((v, extra), w, c): &(Items, Vec<BigUint>, BigUint), case| {
            classes(v, *extra, case);
            let mut g: Vec<C::A> = v.iter().map(|(i, _)| e.pts[*i].1).collect();
            for k in 0..*extra { g.push(e.pts[(k * 7 + 1) % NP].1); }
            let ck = key_of(&g);
            let m: Vec<C::S> = v.iter().map(|(_, s)| C::scalar(s)).collect();
            let cm = commit(&ck, &m);
            is_a::<C>(cm, &e.sum(v), &format!("commitment over {} to {} scalars under a key of {}", C::NAME, m.len(), g.len()))?;
            // homomorphism in the message
            let m2: Vec<C::S> = (0..m.len()).map(|i| C::scalar(&w.get(i).cloned().unwrap_or_default())).collect();
            let c = C::scalar(c);
            let sum: Vec<C::S> = m.iter().zip(&m2).map(|(a, b)| *a * c + *b).collect();
            let left: C::A = (commit(&ck, &m) * c + commit(&ck, &m2)).into();
            ensure_eq!(commit(&ck, &sum), left, "commitment to c·m + m' against c·commit(m) + commit(m')");
            Ok(())
        });
    }
    // keys made by the library: enough usable points, every position counts
    s.check(&format!("key_{}", C::NAME), n(q / 8, q).shrink(20), move || (0u64..7, any::<u64>(), prop::collection::vec(scalar(p), 64)), move |(k, seed, m): &(u64, u64, Vec<BigUint>), case| {
        let ck = PedersenCommitment::<C::A>::new(*k, &mut Rng(*seed));
        let g = Vec::<C::A>::decode(&mut &ck.encode()[..]).map_err(|_| "key does not decode as a list of points".to_string())?;
        let len = 1usize << *k;
        ensure!(g.len() >= len, "a key for 2^{} scalars has {} points", k, g.len());
        case.nontrivial_if(*k > 0);
        for (i, p) in g.iter().enumerate() {
            ensure!(p.is_on_curve() && !p.is_identity(), "key point {} is {:?}", i, p);
            ensure!(!g[..i].iter().any(|o| o.get_x() == p.get_x()), "key point {} repeats (up to sign) an earlier one", i);
        }
        let m: Vec<C::S> = (0..len).map(|i| C::scalar(&m[i])).collect();
        let got = commit(&ck, &m);
        let want = g.iter().zip(&m).fold(<C::P as zkstd::common::Group>::ADDITIVE_IDENTITY, |a, (p, s)| a + *p * *s);
        ensure_eq!(got, want.into(), "commitment against the sum over the key's points");
        for i in 0..len {
            let mut m2 = m.clone();
            m2[i] = m2[i] + C::S::mk(&<C::S as El>::Ref::one());
            ensure!(commit(&ck, &m2) != got, "the commitment ignores position {} of {}", i, len);
        }
        Ok(())
    });
}
pub fn c15(s: &mut Suite) {
    s.effort(3);
    s.rule("a list counts as non-trivial when it has at least two terms and one of them is a non-identity point with a non-zero scalar");
    s.assume("scalars are reduced; for the commitment the message is no longer than the key");
    msm_checks::<G1>(s, 2400);
    msm_checks::<G2>(s, 800);
    msm_checks::<Gk>(s, 1600);
    pedersen::<G1>(s, 700);
    pedersen::<Gk>(s, 700);
}
