//! C06, C07: group law, scalar multiplication, conversions and membership on G1, G2 and Grumpkin.
use crate::cv::*;
use crate::el::*;

use bn_254::{Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use grumpkin::{Affine as GkAffine, Projective as GkProjective};
use lazy_static::lazy_static;
use parity_scale_codec::{Decode, Encode};
use rand_core::RngCore;
use std::fmt::Debug;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkstd::common::{BNAffine, BNCurve, BNProjective, CurveGroup, Group};

/// A second operand related to the first in one of the exceptional ways, or unrelated.
#[derive(Clone, Debug)]
pub enum Second { Same, Neg, Double, NegDouble, Beta(bool), Other(Ps) }
fn second<C: Cv>() -> BoxedStrategy<Second> {
    prop_oneof![
        4 => ps::<C>().prop_map(Second::Other),
        1 => Just(Second::Same), 1 => Just(Second::Neg), 1 => Just(Second::Double), 1 => Just(Second::NegDouble),
        1 => any::<bool>().prop_map(Second::Beta),
    ].boxed()
}
fn second_point<C: Cv>(s: &Second, p: &Pt<CRef<C>>) -> Pt<CRef<C>> {
    match s {
        Second::Same => p.clone(),
        Second::Neg => pt_neg(p),
        Second::Double => pt_double(p),
        Second::NegDouble => pt_neg(&pt_double(p)),
        Second::Beta(n) => p.as_ref().map(|(x, y)| (x.mul(&C::beta()), if *n { y.neg() } else { y.clone() })),
        Second::Other(q) => point::<C>(q),
    }
}
/// Affine identity in the representations the library itself produces (identity, and its negation).
fn aff_rep<C: Cv>(p: &Pt<CRef<C>>, flip: bool) -> C::A { let a = aff::<C>(p); if p.is_none() && flip { -a } else { a } }

#[derive(Clone, Debug)]
enum Step { Load(usize, Ps), AddP(usize, usize, u8), SubP(usize, usize, u8), AddA(usize, usize, u8), SubA(usize, usize, u8), Dbl(usize, bool), Neg(usize), Norm(usize) }
fn steps<C: Cv>() -> BoxedStrategy<Vec<Step>> {
    let r = || 0usize..3;
    proptest::collection::vec(prop_oneof![
        1 => (r(), ps::<C>()).prop_map(|(a, p)| Step::Load(a, p)),
        3 => (r(), r(), 0u8..4).prop_map(|(a, b, f)| Step::AddP(a, b, f)),
        3 => (r(), r(), 0u8..4).prop_map(|(a, b, f)| Step::SubP(a, b, f)),
        2 => (r(), r(), 0u8..4).prop_map(|(a, b, f)| Step::AddA(a, b, f)),
        2 => (r(), r(), 0u8..4).prop_map(|(a, b, f)| Step::SubA(a, b, f)),
        2 => (r(), any::<bool>()).prop_map(|(a, f)| Step::Dbl(a, f)),
        1 => r().prop_map(Step::Neg), 1 => r().prop_map(Step::Norm),
    ], 1..24).boxed()
}
macro_rules! four { ($a:expr, $b:expr, $op:tt) => {{ let (a, b) = ($a, $b); [("v,v", a $op b), ("&,&", &a $op &b), ("v,&", a $op &b), ("&,v", &a $op b)] }}; }
macro_rules! pick { ($a:expr, $b:expr, $op:tt, $f:expr) => {{ let (a, b) = ($a, $b); match $f { 0 => a $op b, 1 => &a $op &b, 2 => a $op &b, _ => &a $op b } }}; }

macro_rules! c06_curve {
    ($s:ident, $c:ident, $k:expr) => {{
        let nm = $c::NAME;
        let k: u64 = $k;
        $s.check(&format!("{nm}-pairs"), n(5_000 * k, 120_000 * k), || (ps::<$c>(), second::<$c>(), scale::<$c>(), scale::<$c>(), any::<bool>()), |(p, q, zp, zq, flip), c| {
            let rp = point::<$c>(p);
            let rq = second_point::<$c>(q, &rp);
            let (sum, dif) = (pt_add(&rp, &rq), pt_add(&rp, &pt_neg(&rq)));
            c.nontrivial_if(rp.is_some() && rq.is_some());
            c.class_if(rp.is_none() || rq.is_none(), "identity operand");
            c.class_if(rp.is_some() && rp == rq, "equal points");
            c.class_if(rp.is_some() && rp == pt_neg(&rq), "opposite points");
            c.class_if(zp.is_some() || zq.is_some(), "scaled representation");
            let (pa, qa) = (aff_rep::<$c>(&rp, *flip), aff_rep::<$c>(&rq, !*flip));
            let (pp, qp) = (proj::<$c>(&rp, zp), proj::<$c>(&rq, zq));
            for (f, g) in four!(pa, qa, +) { is_p::<$c>(g, &sum, &format!("affine + affine ({f})"))?; }
            for (f, g) in four!(pa, qa, -) { is_p::<$c>(g, &dif, &format!("affine - affine ({f})"))?; }
            for (f, g) in four!(pp, qp, +) { is_p::<$c>(g, &sum, &format!("projective + projective ({f})"))?; }
            for (f, g) in four!(pp, qp, -) { is_p::<$c>(g, &dif, &format!("projective - projective ({f})"))?; }
            for (f, g) in four!(pa, qp, +) { is_p::<$c>(g, &sum, &format!("affine + projective ({f})"))?; }
            for (f, g) in four!(pa, qp, -) { is_p::<$c>(g, &dif, &format!("affine - projective ({f})"))?; }
            for (f, g) in four!(pp, qa, +) { is_p::<$c>(g, &sum, &format!("projective + affine ({f})"))?; }
            for (f, g) in four!(pp, qa, -) { is_p::<$c>(g, &dif, &format!("projective - affine ({f})"))?; }
            let mut t = pp; t += qp; is_p::<$c>(t, &sum, "projective += projective")?;
            let mut t = pp; t += &qp; is_p::<$c>(t, &sum, "projective += &projective")?;
            let mut t = pp; t += qa; is_p::<$c>(t, &sum, "projective += affine")?;
            let mut t = pp; t += &qa; is_p::<$c>(t, &sum, "projective += &affine")?;
            let mut t = pp; t -= qp; is_p::<$c>(t, &dif, "projective -= projective")?;
            let mut t = pp; t -= &qp; is_p::<$c>(t, &dif, "projective -= &projective")?;
            let mut t = pp; t -= qa; is_p::<$c>(t, &dif, "projective -= affine")?;
            let mut t = pp; t -= &qa; is_p::<$c>(t, &dif, "projective -= &affine")?;
            ensure!((pa == qa) == (rp == rq) && (pa != qa) == (rp != rq), "affine equality is not equality of the points");
            ensure!((pp == qp) == (rp == rq) && (pp != qp) == (rp != rq), "projective equality is not equality of the points");
            is_a::<$c>((pp + qp).to_affine(), &sum, "to_affine of the sum")?;
            is_a::<$c>(<$c as Cv>::A::from(pa + qp), &sum, "conversion of the mixed sum")?;
            Ok(())
        });
        $s.check(&format!("{nm}-unary"), n(8_000 * k, 160_000 * k), || (ps::<$c>(), scale::<$c>(), any::<bool>()), |(p, z, flip), c| {
            let r = point::<$c>(p);
            let (a, q) = (aff_rep::<$c>(&r, *flip), proj::<$c>(&r, z));
            let (d, m) = (pt_double(&r), pt_neg(&r));
            c.nontrivial_if(r.is_some());
            c.class_if(r.is_none(), "identity");
            is_p::<$c>(BNAffine::double(a), &d, "affine double")?;
            is_p::<$c>(BNProjective::double(q), &d, "projective double")?;
            is_a::<$c>(-a, &m, "affine negation")?;
            is_p::<$c>(-q, &m, "projective negation")?;
            if r.is_some() {
                is_a::<$c>(Group::invert(a).ok_or("affine inverse missing")?, &m, "affine inverse")?;
                is_p::<$c>(Group::invert(q).ok_or("projective inverse missing")?, &m, "projective inverse")?;
            }
            is_p::<$c>(q + <$c as Cv>::P::ADDITIVE_IDENTITY, &r, "P + 0")?;
            is_p::<$c>(<$c as Cv>::P::ADDITIVE_IDENTITY + a, &r, "0 + P")?;
            is_p::<$c>(q - q, &None, "P - P")?;
            is_p::<$c>(a + (-q), &None, "P + (-P)")?;
            is_p::<$c>(<$c as Cv>::P::default() + q, &r, "default + P")?;
            Ok(())
        });
        $s.check(&format!("{nm}-histories"), n(1_500 * k, 40_000 * k), || (proptest::array::uniform3(ps::<$c>()), steps::<$c>()), |(init, prog), c| {
            let mut r: Vec<Pt<CRef<$c>>> = init.iter().map(|p| point::<$c>(p)).collect();
            let mut x: Vec<<$c as Cv>::P> = r.iter().map(|p| proj::<$c>(p, &None)).collect();
            c.nontrivial_if(prog.len() > 2);
            for (i, st) in prog.iter().enumerate() {
                let d = match st {
                    Step::Load(a, p) => { r[*a] = point::<$c>(p); x[*a] = proj::<$c>(&r[*a], &None); *a }
                    Step::AddP(a, b, f) => { let v = pick!(x[*a], x[*b], +, *f); r[*a] = pt_add(&r[*a], &r[*b]); x[*a] = v; *a }
                    Step::SubP(a, b, f) => { let v = pick!(x[*a], x[*b], -, *f); r[*a] = pt_add(&r[*a], &pt_neg(&r[*b])); x[*a] = v; *a }
                    Step::AddA(a, b, f) => { let v = pick!(x[*a], x[*b].to_affine(), +, *f); r[*a] = pt_add(&r[*a], &r[*b]); x[*a] = v; *a }
                    Step::SubA(a, b, f) => { let v = pick!(x[*a].to_affine(), x[*b], -, *f); r[*a] = pt_add(&r[*a], &pt_neg(&r[*b])); x[*a] = v; *a }
                    Step::Dbl(a, aff) => { r[*a] = pt_double(&r[*a]); x[*a] = if *aff { BNAffine::double(x[*a].to_affine()) } else { BNProjective::double(x[*a]) }; *a }
                    Step::Neg(a) => { r[*a] = pt_neg(&r[*a]); x[*a] = -x[*a]; *a }
                    Step::Norm(a) => { x[*a] = x[*a].to_affine().to_extended(); *a }
                };
                is_p::<$c>(x[d], &r[d], &format!("step {} {:?}", i, st))?;
                for a in 0..3 { for b in 0..3 { ensure!((x[a] == x[b]) == (r[a] == r[b]), "step {} {:?}: equality of registers {} and {}", i, st, a, b); } }
            }
            Ok(())
        });
    }};
}

pub fn c06(s: &mut Suite) {
    s.effort(6);
    s.rule("non-trivial: neither operand is the identity (histories: at least three steps). Classes count identity, equal and opposite operands and rescaled representations.");
    s.assume("reference: affine chord-and-tangent formulas over num-bigint; points are small multiples of the generator or lifted x-coordinates (on G2 usually outside the subgroup)");
    s.finding("add-assign-on-shared-reference", shared_add_assign_returns);
    c06_curve!(s, G1, 3);
    c06_curve!(s, Gk, 3);
    c06_curve!(s, G2, 1);
    s.check("sums", n(4_000, 60_000), || (proptest::collection::vec((ps::<G1>(), scale::<G1>()), 0..8), proptest::collection::vec((ps::<Gk>(), scale::<Gk>()), 0..8)), |(v, w), c| {
        c.nontrivial_if(v.len() > 1 && w.len() > 1);
        let (r1, r2): (Vec<_>, Vec<_>) = (v.iter().map(|(p, _)| point::<G1>(p)).collect(), w.iter().map(|(p, _)| point::<Gk>(p)).collect());
        let x1: Vec<G1Projective> = r1.iter().zip(v).map(|(r, (_, z))| proj::<G1>(r, z)).collect();
        let x2: Vec<GkProjective> = r2.iter().zip(w).map(|(r, (_, z))| proj::<Gk>(r, z)).collect();
        let (s1, s2) = (r1.iter().fold(None, |a, b| pt_add(&a, b)), r2.iter().fold(None, |a, b| pt_add(&a, b)));
        is_p::<G1>(x1.iter().sum(), &s1, "G1 sum of references")?;
        is_p::<G1>(x1.iter().cloned().sum(), &s1, "G1 sum of values")?;
        is_p::<Gk>(x2.iter().sum(), &s2, "Grumpkin sum of references")?;
        is_p::<Gk>(x2.iter().cloned().sum(), &s2, "Grumpkin sum of values")
    });
    s.check("G2-sums", n(2_000, 30_000), || proptest::collection::vec((ps::<G2>(), scale::<G2>()), 0..8), |v, c| {
        c.nontrivial_if(v.len() > 1);
        let r: Vec<_> = v.iter().map(|(p, _)| point::<G2>(p)).collect();
        let x: Vec<G2Projective> = r.iter().zip(v).map(|(r, (_, z))| proj::<G2>(r, z)).collect();
        let t = r.iter().fold(None, |a, b| pt_add(&a, b));
        is_p::<G2>(x.iter().sum(), &t, "G2 sum of references")?;
        is_p::<G2>(x.iter().cloned().sum(), &t, "G2 sum of values")
    });
}

// ------------------------------------------------------------------ C07
/// Scalars: boundary integers plus long runs and alternating patterns (worst cases of a signed-digit recoding).
pub fn scalar_int(p: &'static BigUint) -> BoxedStrategy<BigUint> {
    prop_oneof![
        4 => int_mod(p, 256),
        1 => (0usize..256, 0usize..256).prop_map(move |(a, b)| { let (a, b) = (a.min(b), a.max(b)); (((BigUint::one() << (b - a + 1)) - 1u32) << a) % p }),
        1 => (1u32..8, 0u32..8, any::<u8>()).prop_map(move |(w, o, t)| { let mut r = BigUint::zero(); let mut i = o; while i < 254 { r |= BigUint::one() << i; i += w; } if t & 1 == 1 { r += 1u32; } r % p }),
    ].boxed()
}
struct Rng8(u64);
impl RngCore for Rng8 {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let v = self.next_u64().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
fn read<C: Cv>(p: &C::P) -> Result<Pt<CRef<C>>, String> {
    let z = p.get_z().val()?;
    Ok(match z.inv() { None => None, Some(i) => Some((p.get_x().val()?.mul(&i), p.get_y().val()?.mul(&i))) })
}
macro_rules! c07_curve {
    ($s:ident, $c:ident, $k:expr) => {{
        let nm = $c::NAME;
        let k: u64 = $k;
        $s.check(&format!("{nm}-scalar-reference"), n(600 * k, 12_000 * k), || (ps::<$c>(), scalar_int($c::order()), scale::<$c>()), |(p, e, z), c| {
            let r = point::<$c>(p);
            let want = pt_mul(&r, e);
            c.nontrivial_if(r.is_some() && *e > BigUint::from(2u32));
            c.class_if(e.is_zero(), "scalar 0");
            c.class_if(r.is_none(), "identity point");
            let (a, q, s) = (aff::<$c>(&r), proj::<$c>(&r, z), $c::scalar(e));
            for (f, g) in four!(a, s, *) { is_p::<$c>(g, &want, &format!("affine * scalar ({f})"))?; }
            for (f, g) in four!(q, s, *) { is_p::<$c>(g, &want, &format!("projective * scalar ({f})"))?; }
            for (f, g) in four!(s, a, *) { is_p::<$c>(g, &want, &format!("scalar * affine ({f})"))?; }
            for (f, g) in four!(s, q, *) { is_p::<$c>(g, &want, &format!("scalar * projective ({f})"))?; }
            let mut t = q; t *= s; is_p::<$c>(t, &want, "projective *= scalar")?;
            let mut t = q; t *= &s; is_p::<$c>(t, &want, "projective *= &scalar")?;
            Ok(())
        });
        $s.check(&format!("{nm}-scalar-laws"), n(3_000 * k, 60_000 * k), || (sub_ps::<$c>(), ps::<$c>(), scalar_int($c::order()), scalar_int($c::order())), |(p, q, a, b), c| {
            let (rp, rq) = (point::<$c>(p), point::<$c>(q));
            let (x, y) = (proj::<$c>(&rp, &None), aff::<$c>(&rq));
            let (sa, sb) = ($c::scalar(a), $c::scalar(b));
            c.nontrivial_if(rp.is_some() && !a.is_zero() && !b.is_zero());
            ensure!(x * (sa + sb) == x * sa + x * sb, "(a + b)P = aP + bP");
            ensure!(x * (sa * sb) == (x * sb) * sa, "(ab)P = a(bP)");
            ensure!(x * (-sa) == -(x * sa), "(-a)P = -(aP)");
            ensure!((x + y) * sa == x * sa + y * sa, "a(P + Q) = aP + aQ");
            ensure!((x * <$c as Cv>::S::zero()).is_identity() && (y * <$c as Cv>::S::zero()).is_identity(), "0P = 0");
            ensure!(x * <$c as Cv>::S::one() == x && y * <$c as Cv>::S::one() == x - x + y, "1P = P");
            ensure!(BNProjective::double(x) == x * (<$c as Cv>::S::one() + <$c as Cv>::S::one()), "2P = P + P");
            Ok(())
        });
        $s.check(&format!("{nm}-conversions"), n(6_000 * k, 120_000 * k), || (ps::<$c>(), scale::<$c>(), any::<bool>()), |(p, z, flip), c| {
            let r = point::<$c>(p);
            let (a, q) = (aff_rep::<$c>(&r, *flip), proj::<$c>(&r, z));
            c.nontrivial_if(r.is_some() && z.is_some());
            c.class_if(r.is_none(), "identity");
            is_a::<$c>(q.to_affine(), &r, "to_affine")?;
            is_a::<$c>(q.into(), &r, "projective into affine")?;
            is_a::<$c>(<$c as Cv>::A::from(q), &r, "affine from projective")?;
            is_p::<$c>(a.to_extended(), &r, "to_extended")?;
            is_p::<$c>(<$c as Cv>::P::from(a), &r, "projective from affine")?;
            is_a::<$c>(a.to_extended().to_affine(), &r, "affine round trip")?;
            is_p::<$c>(q.to_affine().to_extended(), &r, "projective round trip")?;
            let e = a.encode();
            let mut i = &e[..];
            let d = <$c as Cv>::A::decode(&mut i).map_err(|e| format!("affine decoding failed: {:?}", e))?;
            ensure!(i.is_empty(), "affine decoding left bytes");
            is_a::<$c>(d, &r, "decoded affine")?;
            ensure!(d.encode() == e, "affine encoding changed by a round trip");
            let e = q.encode();
            let mut i = &e[..];
            let d = <$c as Cv>::P::decode(&mut i).map_err(|e| format!("projective decoding failed: {:?}", e))?;
            ensure!(i.is_empty(), "projective decoding left bytes");
            is_p::<$c>(d, &r, "decoded projective")?;
            ensure!(d.encode() == e, "projective encoding changed by a round trip");
            if let Some((x, y)) = &r {
                is_a::<$c>(<$c as Cv>::A::from_x_and_y(<$c as Cv>::F::mk(x), <$c as Cv>::F::mk(y)), &r, "affine from_x_and_y")?;
                is_p::<$c>(<$c as Cv>::P::from_x_and_y(<$c as Cv>::F::mk(x), <$c as Cv>::F::mk(y)), &r, "projective from_x_and_y")?;
            }
            Ok(())
        });
        $s.check(&format!("{nm}-membership"), n(6_000 * k, 120_000 * k), || (ps::<$c>(), scale::<$c>(), $c::coord(), $c::coord(), 0u8..8), |(p, z, u, v, kind), c| {
            // coordinates (x, y): on the curve, perturbed, on another curve y^2 = x^3 + b', or arbitrary
            let r = point::<$c>(p);
            let (mut x, mut y) = r.clone().unwrap_or(($c::of(u), $c::of(v)));
            match kind {
                0 => y = y.add(&CRef::<$c>::one()),
                1 => x = x.add(&CRef::<$c>::one()),
                2 => y = $c::of(v),
                3 => x = $c::of(u),
                4 => { x = $c::of(u); y = $c::of(v); }
                5 => { let t = x; x = y; y = t; }
                _ => {}
            }
            let want = on_curve(&(x.clone(), y.clone()), &$c::b());
            c.class(if want { "on the curve" } else { "off the curve" });
            c.nontrivial();
            let (fx, fy) = (<$c as Cv>::F::mk(&x), <$c as Cv>::F::mk(&y));
            ensure!(<$c as Cv>::A::new_unchecked(fx, fy).is_on_curve() == want, "affine is_on_curve({:?}, {:?}) != {}", x, y, want);
            let f = factor::<$c>(z);
            let q = <$c as Cv>::P::new_unchecked(<$c as Cv>::F::mk(&x.mul(&f)), <$c as Cv>::F::mk(&y.mul(&f)), <$c as Cv>::F::mk(&f));
            ensure!(q.is_on_curve() == want, "projective is_on_curve({:?}, {:?}; scaled by {:?}) != {}", x, y, f, want);
            ensure!(<$c as Cv>::A::ADDITIVE_IDENTITY.is_on_curve() && <$c as Cv>::P::ADDITIVE_IDENTITY.is_on_curve(), "identity reported off the curve");
            Ok(())
        });
        $s.check(&format!("{nm}-random-points"), n(80 * k, 1_500 * k), || any::<u64>(), |seed, c| {
            let mut rng = Rng8(*seed);
            let a = <$c as Cv>::A::random(&mut rng);
            let q = <$c as Cv>::P::random(&mut rng);
            c.nontrivial();
            for (nm, p) in [("affine", a.to_extended()), ("projective", q)] {
                let r = read::<$c>(&p)?;
                ensure!(p.is_on_curve(), "random {} point reported off the curve", nm);
                if let Some(xy) = &r { ensure!(on_curve(xy, &$c::b()), "random {} point {:?} is off the curve", nm, r); }
                ensure!(pt_mul(&r, $c::order()).is_none(), "random {} point {:?} is outside the subgroup", nm, r);
            }
            ensure!(a.to_extended() != q, "two consecutive random points are equal");
            Ok(())
        });
        $s.check(&format!("{nm}-generator"), n(1, 1), || Just(()), |_, c| {
            c.nontrivial();
            let g = $c::table()[1].clone();
            is_a::<$c>(<$c as Cv>::A::ADDITIVE_GENERATOR, &g, "affine generator")?;
            is_p::<$c>(<$c as Cv>::P::ADDITIVE_GENERATOR, &g, "projective generator")?;
            ensure!(on_curve(g.as_ref().unwrap(), &$c::b()) && pt_mul(&g, $c::order()).is_none(), "reference generator");
            crate::fields::same(<<$c as Cv>::A as BNCurve>::PARAM_B, &$c::b(), "PARAM_B")?;
            crate::fields::same(<<$c as Cv>::A as BNCurve>::PARAM_3B, &$c::b().mul(&CRef::<$c>::small(3)), "PARAM_3B")
        });
    }};
}
macro_rules! batch {
    ($s:ident, $c:ident) => {{
        $s.check(&format!("{}-batch-normalize", $c::NAME), n(4_000, 100_000), || proptest::collection::vec((ps::<$c>(), scale::<$c>()), 0..20), |v, c| {
            let r: Vec<_> = v.iter().map(|(p, _)| point::<$c>(p)).collect();
            let x: Vec<<$c as Cv>::P> = r.iter().zip(v).map(|(r, (_, z))| proj::<$c>(r, z)).collect();
            c.nontrivial_if(v.len() > 1);
            c.class_if(r.iter().any(|p| p.is_none()) && r.iter().any(|p| p.is_some()), "identities interleaved");
            // stale contents of the output must not show through
            let mut out: Vec<<$c as Cv>::A> = (0..x.len()).map(|i| aff::<$c>(&$c::table()[(i * 7) % 40])).collect();
            <$c as Cv>::P::batch_normalize(&x, &mut out);
            for (i, (o, w)) in out.iter().zip(&r).enumerate() { is_a::<$c>(*o, w, &format!("batch_normalize[{}]", i))?; }
            Ok(())
        });
    }};
}
pub fn c07(s: &mut Suite) {
    s.effort(2);
    s.rule("non-trivial: non-identity point and scalar above 2; conversions: rescaled non-identity representation; lists of at least two points. Classes count identities, on/off-curve inputs and (non-)subgroup points.");
    s.assume("reference: affine double-and-add over num-bigint; subgroup membership is [r]P = 0; raw-byte layout taken from the encoder of the same type (Grumpkin) or the encodings of the coordinates (G1)");
    c07_curve!(s, G1, 3);
    c07_curve!(s, Gk, 3);
    c07_curve!(s, G2, 1);
    batch!(s, G1);
    batch!(s, Gk);
    s.check("raw-bytes", n(20_000, 400_000), || (ps::<G1>(), ps::<Gk>()), |(p, q), c| {
        let (r1, r2) = (point::<G1>(p), point::<Gk>(q));
        c.nontrivial_if(r1.is_some() && r2.is_some());
        c.class_if(r1.is_none() || r2.is_none(), "identity");
        let a2 = aff::<Gk>(&r2);
        let b2 = a2.to_raw_bytes();
        is_a::<Gk>(GkAffine::from_slice_unchecked(&b2), &r2, "Grumpkin raw-byte round trip")?;
        let a1 = aff::<G1>(&r1);
        let mut b1 = vec![0u8; G1Affine::RAW_SIZE];
        b1[..32].copy_from_slice(&a1.get_x().encode());
        b1[32..64].copy_from_slice(&a1.get_y().encode());
        b1[G1Affine::RAW_SIZE - 1] = a1.is_identity() as u8;
        is_a::<G1>(G1Affine::from_slice_unchecked(&b1), &r1, "G1 raw-byte decoding")?;
        if r1.is_some() { is_a::<G1>(G1Affine::from_slice_unchecked(&b1[..64]), &r1, "G1 raw-byte decoding without flag")?; }
        Ok(())
    });
    s.check("G1-subgroup", n(3_000, 60_000), || ps::<G1>(), |p, c| {
        // the cofactor of G1 is one: every point of the curve is in the subgroup
        let r = point::<G1>(p);
        c.nontrivial_if(r.is_some());
        ensure!(aff::<G1>(&r).is_torsion_free(), "G1 point {:?} rejected by the subgroup test", r);
        Ok(())
    });
    s.check("G2-subgroup", n(600, 12_000), || (ps::<G2>(), ps::<G2>(), scalar_int(&R_MOD), 0u8..4), |(p, q, e, kind), c| {
        let mut r = point::<G2>(p);
        match kind {
            0 => r = pt_mul(&r, &*R_MOD),                                    // cofactor torsion only
            1 => r = pt_add(&pt_mul(&point::<G2>(q), &*R_MOD), &pt_mul(&G2::table()[1], e)), // mixed
            2 => r = pt_mul(&G2::table()[1], e),                             // subgroup
            _ => {}
        }
        let want = pt_mul(&r, &*R_MOD).is_none();
        c.class(if want { "in the subgroup" } else { "outside the subgroup" });
        c.nontrivial_if(r.is_some());
        ensure!(aff::<G2>(&r).is_torsion_free() == want, "G2 subgroup test of {:?} is not {}", r, want);
        Ok(())
    });
}

// `&P += Q` on a shared reference to a projective point: run in a child process because it does not return.
pub struct W<T>(pub T);
pub trait HasImpl { fn go(self); }
pub trait NoImpl { fn go(self); }
impl<'a, T: Copy> HasImpl for W<(&'a T, T)> where &'a T: std::ops::AddAssign<T> {
    fn go(self) { let W((mut r, q)) = self; r += q; std::hint::black_box(r); }
}
impl<'b, 'a, T: Copy> NoImpl for &'b W<(&'a T, T)> { fn go(self) {} }
pub fn probe_shared_add_assign() {
    let (a, b, c) = (G1Projective::ADDITIVE_GENERATOR, G2Projective::ADDITIVE_GENERATOR, GkProjective::ADDITIVE_GENERATOR);
    W((&a, a)).go();
    W((&b, b)).go();
    W((&c, c)).go();
}
pub fn shared_add_assign_returns() -> R {
    let mut ch = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .arg("probe-shared-add-assign").stderr(std::process::Stdio::null()).spawn().map_err(|e| e.to_string())?;
    for _ in 0..100 {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            ensure!(st.success(), "`r += q` with `r: &Projective` crashed the process ({})", st);
            return Ok(());
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    let _ = ch.kill();
    let _ = ch.wait();
    Err("`r += q` with `r: &Projective` does not return".into())
}
