//! C09: the optimal ate pairing and the target group.
use crate::cv::{aff, point, proj, ps, sub_ps, Ps, G1, G2};
use crate::el::*;
use crate::fields::same;
use bn_254::{AteParing, Fq12, G1Affine, G2Affine, G2PairingAffine, Gt};
use lazy_static::lazy_static;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkstd::common::{Group, IntGroup};

type P1 = Pt<Rq>;
type P2 = Pt<Rq2>;
lazy_static! {
    static ref E_GEN: Rq12 = AteParing::pairing(G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR).0.val().unwrap();
}
fn e(p: &P1, q: &P2) -> Gt { AteParing::pairing(aff::<G1>(p), aff::<G2>(q)) }
fn ev(p: &P1, q: &P2) -> Result<Rq12, String> { e(p, q).0.val() }
fn gt(v: &Rq12) -> Gt { Gt(Fq12::mk(v)) }
fn is(g: Gt, w: &Rq12, what: &str) -> R {
    same(g.0, w, what)?;
    ensure!(g == gt(w), "{}: equal target elements do not compare equal", what);
    Ok(())
}
fn scalar() -> BoxedStrategy<BigUint> { prop_oneof![2 => fr_int(), 1 => (0u64..5).prop_map(BigUint::from), 1 => (1u64..4).prop_map(|d| &*R_MOD - d)].boxed() }
macro_rules! ops { ($a:expr, $b:expr, $op:tt, $as:tt) => {{ let (a, b) = ($a, $b); let mut c = a; c $as b; let mut d = a; d $as &b;
    [("owned", a $op b), ("&,&", &a $op &b), ("v,&", a $op &b), ("&,v", &a $op b), ("assign", c), ("assign &", d)] }} }

pub fn c09(s: &mut Suite) {
    s.effort(1);
    s.rule("non-trivial: neither argument of the (first) pairing is the identity; lists count when they hold at least two proper pairs; target-group cases when no operand is the identity. Distinct inputs only.");
    s.assume("reference pairing: textbook optimal ate on affine points over Fq12 with the final exponentiation by its defining exponent; inputs are points of the order-r subgroups");
    let _ = (&*E_GEN, G2_GEN.clone());
    s.check("reference", n(64, 2_000).shrink(30), || (sub_ps::<G1>(), sub_ps::<G2>(), fr_int(), fr_int(), 0u8..3), |(sp, sq, a, b, k), c| {
        let (mut p, mut q) = (point::<G1>(sp), point::<G2>(sq));
        if *k > 0 { p = pt_mul(&p, a); q = pt_mul(&q, b); }
        c.nontrivial_if(p.is_some() && q.is_some());
        same(e(&p, &q).0, &pairing(&p, &q), "pairing against the textbook optimal ate pairing")
    });
    s.check("bilinear", n(500, 15_000).shrink(60), || (ps::<G1>(), sub_ps::<G2>(), scalar(), scalar()), |(sp, sq, a, b), c| {
        let (p, q) = (point::<G1>(sp), point::<G2>(sq));
        c.nontrivial_if(p.is_some() && q.is_some() && !a.is_zero() && !b.is_zero());
        c.class_if(a.is_zero() || b.is_zero(), "zero scalar");
        let (ap, bq) = (pt_mul(&p, a), pt_mul(&q, b));
        let base = ev(&p, &q)?;
        is(e(&ap, &bq), &base.pow(&(a * b % &*R_MOD)), "e(aP, bQ) = e(P, Q)^(ab)")?;
        is(e(&ap, &q), &base.pow(a), "e(aP, Q) = e(P, Q)^a")?;
        // the library's own scalar multiplications
        let (la, lb) = (<bn_254::Fr as El>::mk(&Rr::new(a)), <bn_254::Fr as El>::mk(&Rr::new(b)));
        let got = AteParing::pairing(G1Affine::from(aff::<G1>(&p) * la), G2Affine::from(aff::<G2>(&q) * lb));
        is(got, &base.pow(&(a * b % &*R_MOD)), "e(P*a, Q*b) with library scalar multiplication")
    });
    s.check("additive-nondegenerate", n(1_200, 30_000).shrink(60), || (ps::<G1>(), ps::<G1>(), sub_ps::<G2>(), sub_ps::<G2>()), |(s1, s2, t1, t2), c| {
        let (p, p2, q, q2) = (point::<G1>(s1), point::<G1>(s2), point::<G2>(t1), point::<G2>(t2));
        c.nontrivial_if(p.is_some() && q.is_some());
        c.class_if(p.is_none() || q.is_none(), "identity argument");
        let base = ev(&p, &q)?;
        ensure!((base == Rq12::one()) == (p.is_none() || q.is_none()), "pairing is one with {:?}, {:?}", p, q);
        ensure!((e(&p, &q) == Gt::ADDITIVE_IDENTITY) == (p.is_none() || q.is_none()), "comparison with the identity");
        is(e(&pt_add(&p, &p2), &q), &base.mul(&ev(&p2, &q)?), "additive in the first argument")?;
        is(e(&p, &pt_add(&q, &q2)), &base.mul(&ev(&p, &q2)?), "additive in the second argument")?;
        is(e(&pt_neg(&p), &q), &base.inv().unwrap(), "e(-P, Q)")?;
        is(e(&p, &pt_neg(&q)), &base.inv().unwrap(), "e(P, -Q)")
    });
    s.check("order", n(400, 10_000).shrink(60), || (ps::<G1>(), sub_ps::<G2>()), |(s1, t1), c| {
        let (p, q) = (point::<G1>(s1), point::<G2>(t1));
        c.nontrivial_if(p.is_some() && q.is_some());
        ensure!(ev(&p, &q)?.pow(&R_MOD) == Rq12::one(), "value of the pairing is not in the order-r subgroup");
        Ok(())
    });
    s.check("products", n(1_000, 30_000).shrink(100), || (proptest::collection::vec((ps::<G1>(), sub_ps::<G2>(), any::<bool>(), fq2()), 0..7), any::<usize>()), |(v, rot), c| {
        let l: Vec<(P1, P2)> = v.iter().map(|(a, b, _, _)| (point::<G1>(a), point::<G2>(b))).collect();
        c.nontrivial_if(l.iter().filter(|(a, b)| a.is_some() && b.is_some()).count() >= 2);
        c.class_if(l.is_empty(), "empty list");
        c.class_if(l.iter().any(|(a, b)| a.is_none() || b.is_none()), "identity in the list");
        let mut want = Rq12::one();
        for (a, b) in &l { want = want.mul(&ev(a, b)?); }
        // prepared points come from affine points, some of them converted from scaled projective ones
        let mut pairs: Vec<(G1Affine, G2PairingAffine)> = l.iter().zip(v).map(|((a, b), (_, _, viap, z))| {
            let q = if *viap { G2Affine::from(proj::<G2>(b, &Some(z.clone()))) } else { aff::<G2>(b) };
            (aff::<G1>(a), G2PairingAffine::from(q))
        }).collect();
        is(AteParing::multi_miller_loop(&pairs).final_exp(), &want, "joint product")?;
        if !pairs.is_empty() { let k = rot % pairs.len(); pairs.rotate_left(k); }
        is(AteParing::multi_miller_loop(&pairs).final_exp(), &want, "joint product, rotated list")?;
        pairs.reverse();
        is(AteParing::multi_miller_loop(&pairs).final_exp(), &want, "joint product, reversed list")?;
        let mut acc = Gt::ADDITIVE_IDENTITY;
        for (a, b) in &l { acc += e(a, b); }
        is(acc, &want, "sum of the individual pairings")
    });
    s.check("prepared-identity", n(200, 2_000).shrink(100), || sub_ps::<G2>(), |sq, c| {
        let q = point::<G2>(sq);
        c.nontrivial_if(q.is_some());
        ensure_eq!(G2PairingAffine::from(aff::<G2>(&q)).is_identity(), q.is_none(), "prepared point is_identity");
        Ok(())
    });
    s.check("target-group", n(1_500, 40_000).shrink(100), || (scalar(), scalar(), scalar()), |(i, j, k), c| {
        let (a, b) = (E_GEN.pow(i), E_GEN.pow(j));
        let (x, y) = (gt(&a), gt(&b));
        c.nontrivial_if(!i.is_zero() && !j.is_zero());
        let (sum, dif) = (a.mul(&b), a.mul(&b.inv().unwrap()));
        for (f, g) in ops!(x, y, +, +=) { is(g, &sum, &format!("add ({})", f))?; }
        for (f, g) in ops!(x, y, -, -=) { is(g, &dif, &format!("sub ({})", f))?; }
        is(-x, &a.inv().unwrap(), "neg")?;
        is(-&x, &a.inv().unwrap(), "neg by reference")?;
        is(x.double(), &a.mul(&a), "double")?;
        is(x * y, &sum, "group composition through Mul")?;
        let mut z = x; z *= y; is(z, &sum, "group composition through MulAssign")?;
        is(x + Gt::ADDITIVE_IDENTITY, &a, "x + identity")?;
        is(Gt::ADDITIVE_IDENTITY, &Rq12::one(), "identity")?;
        is(<Gt as IntGroup>::zero(), &Rq12::one(), "IntGroup::zero")?;
        is(x - x, &Rq12::one(), "x - x")?;
        ensure!((x == y) == (i == j), "equality");
        ensure!((x != y) == (i != j), "inequality");
        match Group::invert(x) { Some(v) => is(v, &a.inv().unwrap(), "Group::invert")?, None => return Err("Group::invert of a group element is None".into()) }
        // scalar multiple by double-and-add
        let mut r = Gt::ADDITIVE_IDENTITY;
        for t in (0..k.bits()).rev() { r = r.double(); if k.bit(t) { r += x; } }
        is(r, &a.pow(k), "scalar multiple by double-and-add")
    });
    s.check("target-generator-random", n(48, 500).shrink(10), || proptest::collection::vec(any::<u64>(), 96), |w, c| {
        c.nontrivial();
        is(Gt::ADDITIVE_GENERATOR, &E_GEN, "generator = e(G1, G2)")?;
        let x = Gt::random(&mut crate::macros::Feed(w.clone(), 0)).0.val()?;
        ensure!(x.pow(&R_MOD) == Rq12::one(), "random target element is not in the order-r subgroup");
        Ok(())
    });
}
fn fq2() -> BoxedStrategy<(BigUint, BigUint)> { fq2_int() }
#[allow(dead_code)] type _U = Ps;
