//! The two directions of the curve cycle, and reference models shared by the recursion's checks.
use crate::cv::Cv;
use crate::el::*;
use crate::env::Env;
use crate::sys::*;
use bn_254::{Fq, Fr};
use parity_scale_codec::{Decode, Encode};
use std::sync::Arc;
use vk::refs::*;
use vk::*;
use zknova::{verif as nv, Bn254Driver, GrumpkinDriver, PedersenCommitment};
use zkstd::circuit::prelude::*;
use zkstd::common::{BNAffine, CurveGroup, Group, IntGroup, PrimeField, Ring};

/// A circuit side: circuits over `Self::F` that handle points and instances of the driver `O`.
pub trait Nv: Dr {
    type N: Modulus;
    type S: El<Ref = Fp<Self::N>> + PrimeField + Encode + Decode;
    type O: CircuitDriver<Base = Self::F, Scalar = Self::S, Affine = Self::A> + Send + Sync + PartialEq + std::fmt::Debug;
    /// same as `Self::C`
    type E: CircuitDriver<Base = Self::S, Scalar = Self::F> + Send + Sync;
    type X: Dr<C = Self::O, F = Self::S, M = Self::N>;
    type V: Cv<F = Self::F, S = Self::S, A = Self::A, P = Self::P>;
    fn env() -> &'static Env<Self::V>;
    fn nint() -> BoxedStrategy<BigUint> { vk::gen::int_mod(Self::N::p(), 256) }
    fn sc(v: &BigUint) -> Self::S { <Self::S as El>::mk(&Fp::new(v)) }
    fn int_of_s(f: &Self::S) -> Result<BigUint, String> { Ok(f.val()?.0) }
}
lazy_static::lazy_static! {
    static ref E1: Arc<Env<crate::cv::G1>> = Env::new();
    static ref EG: Arc<Env<crate::cv::Gk>> = Env::new();
}
impl Nv for Gk { type N = MR; type S = Fr; type O = Bn254Driver; type E = GrumpkinDriver; type X = Bn; type V = crate::cv::G1; fn env() -> &'static Env<crate::cv::G1> { &E1 } }
impl Nv for Bn { type N = MQ; type S = Fq; type O = GrumpkinDriver; type E = Bn254Driver; type X = Gk; type V = crate::cv::Gk; fn env() -> &'static Env<crate::cv::Gk> { &EG } }

pub type Pf<D> = Pt<Fp<<D as Dr>::M>>;
pub fn lib<D: Nv>(p: &Pf<D>) -> D::A { crate::cv::aff::<D::V>(p) }
pub fn model<D: Nv>(a: &D::A) -> Result<Pf<D>, String> {
    if a.is_identity() { return Ok(None); }
    let p = (a.get_x().val()?, a.get_y().val()?);
    ensure!(on_curve(&p, &D::b()), "point off the curve: {:?}", p);
    Ok(Some(p))
}

// ---------------------------------------------------------------- the random oracle
lazy_static::lazy_static! {
    static ref DIGESTS: Vec<BigUint> = include_str!("mimc_constants.txt").lines().map(|l| {
        let b: Vec<u8> = (0..64).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
        BigUint::from_bytes_le(&b)
    }).collect();
    static ref CQ: Vec<BigUint> = DIGESTS.iter().map(|d| d % &*Q_MOD).collect();
    static ref CR: Vec<BigUint> = DIGESTS.iter().map(|d| d % &*R_MOD).collect();
}
pub fn cipher<M: Modulus>(xl: &BigUint, xr: &BigUint) -> BigUint {
    let p = M::p();
    let cs: &[BigUint] = if *p == *Q_MOD { &CQ } else { &CR };
    let (mut l, mut r) = (xl.clone(), xr.clone());
    for c in cs {
        let t = (&l + c) % p;
        let t2 = &t * &t % p;
        let t4 = &t2 * &t2 % p;
        let n = (t4 * t2 % p * t + &r) % p;
        r = l;
        l = n;
    }
    l
}
pub fn sponge<M: Modulus>(seq: &[BigUint]) -> BigUint {
    seq.iter().fold(BigUint::zero(), |acc, s| (&acc + s + cipher::<M>(s, &acc)) % M::p())
}
pub fn low(v: &BigUint, n: usize) -> BigUint { v % (BigUint::one() << n) }
pub fn absorb_pt<M: Modulus>(seq: &mut Vec<BigUint>, p: &Pt<Fp<M>>) {
    match p {
        None => seq.extend([BigUint::zero(), BigUint::one(), BigUint::zero()]),
        Some((x, y)) => seq.extend([x.0.clone(), y.0.clone(), BigUint::one()]),
    }
}
pub fn limbs64(v: &BigUint) -> [BigUint; 4] { let m = BigUint::from(u64::MAX); [v & &m, (v >> 64u32) & &m, (v >> 128u32) & &m, v >> 192u32] }

/// A relaxed instance in the model: points with coordinates in `D::M`, scalars modulo `D::N`.
pub struct Rel<D: Nv> { pub w: Pf<D>, pub e: Pf<D>, pub u: BigUint, pub x: Vec<BigUint> }
impl<D: Nv> Rel<D> {
    pub fn of(u: &nv::RelaxedR1csInstance<D::O>) -> Result<Self, String> {
        let (w, e, s, x) = nv::relaxed_instance_parts(u);
        Ok(Rel { w: model::<D>(&w)?, e: model::<D>(&e)?, u: D::int_of_s(&s)?, x: x.iter().map(D::int_of_s).collect::<Result<_, _>>()? })
    }
    pub fn lib(&self) -> nv::RelaxedR1csInstance<D::O> {
        nv::relaxed_instance(lib::<D>(&self.w), lib::<D>(&self.e), D::sc(&self.u), self.x.iter().map(D::sc).collect())
    }
    pub fn absorb(&self, seq: &mut Vec<BigUint>) {
        absorb_pt(seq, &self.w);
        absorb_pt(seq, &self.e);
        seq.push(&self.u % D::M::p());
        for x in &self.x { seq.extend(limbs64(x)); }
    }
    pub fn hash(&self, i: u64, z0: &[BigUint], zi: &[BigUint]) -> BigUint {
        let mut s = vec![BigUint::from(i)];
        s.extend_from_slice(z0);
        s.extend_from_slice(zi);
        self.absorb(&mut s);
        low(&sponge::<D::M>(&s), nv::HASH_BITS)
    }
    pub fn challenge(&self, t: &Pf<D>) -> BigUint {
        let mut s = vec![];
        absorb_pt(&mut s, t);
        self.absorb(&mut s);
        low(&sponge::<D::M>(&s), nv::CHALLENGE_BITS)
    }
}
impl<D: Nv> Clone for Rel<D> { fn clone(&self) -> Self { Rel { w: self.w.clone(), e: self.e.clone(), u: self.u.clone(), x: self.x.clone() } } }

/// A generated point: index into the table of points with known logarithms.
pub fn pt_ix() -> BoxedStrategy<usize> { prop_oneof![1 => Just(0usize), 2 => 1usize..6, 3 => 0usize..128].boxed() }
pub fn pt<D: Nv>(i: usize) -> Pf<D> { let e = D::env(); e.mul(&e.pts[i % e.pts.len()].0) }

/// The wires of a row (index into x ++ w) and their coefficients, read through its encoding.
pub fn terms<F: PrimeField + Decode>(r: &zkstd::matrix::SparseRow<F>, l: usize) -> Vec<(usize, F)> {
    let e = r.encode();
    let v = Vec::<(zkstd::r1cs::verif::Wire, F)>::decode(&mut &e[..]).expect("row encoding");
    v.into_iter().map(|(w, c)| (match w { zkstd::r1cs::verif::Wire::Instance(i) => i as usize, zkstd::r1cs::verif::Wire::Witness(i) => l + i as usize }, c)).collect()
}
pub fn outs<F: PrimeField + Decode>(f: &FieldAssignment<F>, l: usize) -> Vec<usize> { terms(f.inner(), l).into_iter().map(|t| t.0).collect() }
/// Wire marks: everything free except the constant and the given (witness?, index) wires.
pub fn free_but(l: usize, n: usize, inputs: &[W]) -> Vec<bool> {
    let mut free = vec![true; n];
    free[0] = false;
    for (w, i) in inputs { free[if *w { l + i } else { *i }] = false; }
    free
}

/// A seeded source for the library's own sampling.
pub struct Rng(pub u64);
impl zkstd::common::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { splitmix(&mut self.0) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let v = self.next_u64().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
