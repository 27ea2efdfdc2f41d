//! Curve adapters: the library's points next to the affine reference model (shared by the harness crates).
use crate::el::*;
use bn_254::{Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use grumpkin::{Affine as GkAffine, Projective as GkProjective};
use lazy_static::lazy_static;
use parity_scale_codec::{Decode, Encode};
use std::fmt::Debug;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkstd::common::{BNAffine, BNCurve, BNProjective, CurveGroup, Group};

pub type CRef<C> = <<C as Cv>::F as El>::Ref;
pub trait Cv: 'static {
    const NAME: &'static str;
    type F: El + zkstd::common::PrimeField;
    type S: El + zkstd::common::PrimeField;
    type A: BNAffine<Base = Self::F, Scalar = Self::S, Extended = Self::P> + CurveGroup<Base = Self::F> + BNCurve<Scalar = Self::S> + Encode + Decode + Copy + Debug + Send + Sync;
    type P: BNProjective<Base = Self::F, Scalar = Self::S, Affine = Self::A> + CurveGroup<Base = Self::F> + BNCurve<Scalar = Self::S> + Encode + Decode + Copy + Debug + Send + Sync;
    fn b() -> CRef<Self>;
    fn order() -> &'static BigUint;
    fn of(v: &V2) -> CRef<Self>;
    fn rsqrt(v: &CRef<Self>) -> Option<CRef<Self>>;
    fn beta() -> CRef<Self>;
    /// small multiples of the generator, 0..=40
    fn table() -> &'static [Pt<CRef<Self>>];
    fn scalar(k: &BigUint) -> Self::S;
    fn coord() -> BoxedStrategy<V2>;
}
fn mults<F: RF>(g: &(F, F)) -> Vec<Pt<F>> {
    let g = Some(g.clone());
    let mut v: Vec<Pt<F>> = vec![None];
    for i in 0..40 { let n = pt_add(&v[i], &g); v.push(n); }
    v
}
lazy_static! {
    static ref T1: Vec<Pt<Rq>> = mults(&*G1_GEN);
    static ref T2: Vec<Pt<Rq2>> = mults(&*G2_GEN);
    static ref GK_GEN: (Rr, Rr) = { let y2 = Rr::one().add(&B_GRUMPKIN); let y = fp_sqrt(&y2).unwrap(); (Rr::one(), if <GkAffine as Group>::ADDITIVE_GENERATOR.get_y().val().unwrap() == y { y } else { y.neg() }) };
    static ref TG: Vec<Pt<Rr>> = mults(&*GK_GEN);
    static ref BETA_Q: Rq = cube_root_of_unity();
    static ref BETA_R: Rr = cube_root_of_unity();
}
fn cube_root_of_unity<M: Modulus>() -> Fp<M> {
    let e = (M::p() - 1u32) / 3u32;
    (2u64..).map(|g| Fp::<M>::small(g).pow(&e)).find(|b| *b != Fp::one()).unwrap()
}
fn one_coord(s: BoxedStrategy<BigUint>) -> BoxedStrategy<V2> { s.prop_map(|a| (a, BigUint::zero())).boxed() }
macro_rules! cv {
    ($n:ident, $name:literal, $f:ty, $s:ty, $a:ty, $p:ty, $b:expr, $m:ident, $of:expr, $sq:expr, $beta:expr, $t:ident, $sref:ident, $co:expr) => {
        pub struct $n;
        impl Cv for $n {
            const NAME: &'static str = $name;
            type F = $f; type S = $s; type A = $a; type P = $p;
            fn b() -> CRef<Self> { $b }
            fn order() -> &'static BigUint { &$m }
            fn of(v: &V2) -> CRef<Self> { $of(v) }
            fn rsqrt(v: &CRef<Self>) -> Option<CRef<Self>> { $sq(v) }
            fn beta() -> CRef<Self> { $beta }
            fn table() -> &'static [Pt<CRef<Self>>] { &$t }
            fn scalar(k: &BigUint) -> $s { <$s>::mk(&$sref::new(k)) }
            fn coord() -> BoxedStrategy<V2> { $co }
        }
    };
}
cv!(G1, "G1", Fq, Fr, G1Affine, G1Projective, B_G1.clone(), R_MOD, |v: &V2| Rq::new(&v.0), fp_sqrt::<MQ>, BETA_Q.clone(), T1, Rr, one_coord(fq_int()));
cv!(G2, "G2", Fq2, Fr, G2Affine, G2Projective, B_G2.clone(), R_MOD, r2, fq2_sqrt, Rq2(BETA_Q.clone(), Rq::zero()), T2, Rr, fq2_int());
cv!(Gk, "Grumpkin", Fr, Fq, GkAffine, GkProjective, B_GRUMPKIN.clone(), Q_MOD, |v: &V2| Rr::new(&v.0), fp_sqrt::<MR>, BETA_R.clone(), TG, Rq, one_coord(fr_int()));

// ------------------------------------------------------------------ points
/// How a point is chosen: a small multiple of the generator or the next liftable x-coordinate.
#[derive(Clone, Debug)]
pub enum Ps { Small(u8, bool), Lift(V2, bool) }
pub fn ps<C: Cv>() -> BoxedStrategy<Ps> {
    prop_oneof![
        3 => (0u8..41, any::<bool>()).prop_map(|(k, s)| Ps::Small(k, s)),
        3 => (C::coord(), any::<bool>()).prop_map(|(x, s)| Ps::Lift(x, s)),
        1 => Just(Ps::Small(0, false)),
    ].boxed()
}
/// Points of the prime-order subgroup only.
pub fn sub_ps<C: Cv>() -> BoxedStrategy<Ps> {
    if C::NAME == "G2" { (0u8..41, any::<bool>()).prop_map(|(k, s)| Ps::Small(k, s)).boxed() } else { ps::<C>() }
}
pub fn point<C: Cv>(p: &Ps) -> Pt<CRef<C>> {
    match p {
        Ps::Small(k, s) => { let q = C::table()[*k as usize].clone(); if *s { pt_neg(&q) } else { q } }
        Ps::Lift(x, s) => {
            let mut x = C::of(x);
            loop {
                let y2 = x.sq().mul(&x).add(&C::b());
                if let Some(y) = C::rsqrt(&y2) { return Some((x, if *s { y.neg() } else { y })); }
                x = x.add(&CRef::<C>::one());
            }
        }
    }
}
/// Non-zero projective scaling factor; None = scaling 1.
pub fn scale<C: Cv>() -> BoxedStrategy<Option<V2>> { prop_oneof![1 => Just(None), 4 => C::coord().prop_map(Some)].boxed() }
pub fn factor<C: Cv>(s: &Option<V2>) -> CRef<C> {
    match s { None => CRef::<C>::one(), Some(v) => { let f = C::of(v); if f.is_zero() { CRef::<C>::one() } else { f } } }
}
pub fn aff<C: Cv>(p: &Pt<CRef<C>>) -> C::A {
    match p { None => C::A::ADDITIVE_IDENTITY, Some((x, y)) => C::A::new_unchecked(C::F::mk(x), C::F::mk(y)) }
}
pub fn proj<C: Cv>(p: &Pt<CRef<C>>, s: &Option<V2>) -> C::P {
    let f = factor::<C>(s);
    match p {
        None => C::P::new_unchecked(C::F::mk(&CRef::<C>::zero()), C::F::mk(&f), C::F::mk(&CRef::<C>::zero())),
        Some((x, y)) => C::P::new_unchecked(C::F::mk(&x.mul(&f)), C::F::mk(&y.mul(&f)), C::F::mk(&f)),
    }
}
/// The projective result represents exactly `want`, whichever way it is read.
pub fn is_p<C: Cv>(got: C::P, want: &Pt<CRef<C>>, what: &str) -> R {
    let v = |f: C::F, n: &str| f.val().map_err(|e| format!("{}: {} coordinate: {}", what, n, e));
    let (x, y, z) = (v(got.get_x(), "x")?, v(got.get_y(), "y")?, v(got.get_z(), "z")?);
    match want {
        None => ensure!(z.is_zero(), "{}: got ({:?} : {:?} : {:?}), expected the identity", what, x, y, z),
        Some((wx, wy)) => {
            ensure!(!z.is_zero(), "{}: got the identity, expected {:?}", what, want);
            ensure!(x == wx.mul(&z) && y == wy.mul(&z), "{}: got ({:?} : {:?} : {:?}), expected {:?}", what, x, y, z, want);
        }
    }
    ensure!(got.is_identity() == want.is_none(), "{}: is_identity disagrees", what);
    ensure!(got.is_on_curve(), "{}: result reported off the curve", what);
    ensure!(got == proj::<C>(want, &None), "{}: result does not compare equal to the same point", what);
    Ok(())
}
pub fn is_a<C: Cv>(got: C::A, want: &Pt<CRef<C>>, what: &str) -> R {
    ensure!(got.is_identity() == want.is_none(), "{}: is_identity = {}, expected {:?}", what, got.is_identity(), want);
    if let Some((wx, wy)) = want {
        let (x, y) = (got.get_x().val().map_err(|e| format!("{}: {}", what, e))?, got.get_y().val().map_err(|e| format!("{}: {}", what, e))?);
        ensure!(x == *wx && y == *wy, "{}: got ({:?}, {:?}), expected {:?}", what, x, y, want);
    }
    ensure!(got.is_on_curve(), "{}: result reported off the curve", what);
    ensure!(got == aff::<C>(want), "{}: result does not compare equal to the same point", what);
    Ok(())
}
