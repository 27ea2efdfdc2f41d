//! C13: in-circuit point arithmetic, completeness and soundness.
use crate::el::*;
use crate::gadgets::{dot, terms};
use crate::sys::*;
use vk::refs::*;
use vk::*;
use zkstd::circuit::prelude::*;
use zkstd::common::{BNAffine, BNProjective, Group, IntGroup, Ring};

type Pf<D> = Pt<Fp<<D as Dr>::M>>;
/// Points of prime order on the in-circuit curve: multiples of the first curve point by increasing x.
pub trait Table: Dr { fn table() -> &'static [Pf<Self>]; }
fn mk<M: Modulus>(b: &Fp<M>) -> Vec<Pt<Fp<M>>> {
    let (mut v, mut x) = (vec![None], 1u64);
    let g = loop {
        let fx = Fp::<M>::small(x);
        if let Some(y) = fp_sqrt(&fx.sq().mul(&fx).add(b)) { break Some((fx, y)); }
        x += 1;
    };
    for i in 0..12 { let n = pt_add(&v[i], &g); v.push(n); }
    let mut s = 77u64;
    for _ in 0..40 { let k = from_limbs(&[splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)]); v.push(pt_mul(&g, &k)); }
    v
}
lazy_static::lazy_static! {
    static ref TQ: Vec<Pt<Rq>> = mk(&*B_G1);
    static ref TR: Vec<Pt<Rr>> = mk(&*B_GRUMPKIN);
}
impl Table for Gk { fn table() -> &'static [Pt<Rq>] { &TQ } }
impl Table for Bn { fn table() -> &'static [Pt<Rr>] { &TR } }

#[derive(Clone, Debug)]
struct Spec { i: usize, neg: bool, inst: bool, /** y coordinate given to an identity witness */ y: u64 }
#[derive(Clone, Debug)]
enum Op { Add(usize, usize), Double(usize), Scalar(usize, BigUint), SelId(usize, bool), Select(usize, usize, bool), Descale(usize), /** what: 0 equal, 1 opposite, 2 identity, 3 double, 4 other */ Assert(usize, u8, BigUint) }
#[derive(Clone, Debug)]
struct Prog { pts: Vec<Spec>, ops: Vec<Op> }

fn spec() -> BoxedStrategy<Spec> { (prop_oneof![2 => Just(0usize), 3 => 1usize..5, 3 => 0usize..52], any::<bool>(), any::<bool>(), prop_oneof![3 => Just(1u64), 1 => 1u64..9]).prop_map(|(i, neg, inst, y)| Spec { i, neg, inst, y }).boxed() }
fn op<D: Dr>(asserts: bool) -> BoxedStrategy<Op> {
    let u = || any::<usize>();
    prop_oneof![
        6 => (u(), u()).prop_map(|(a, b)| Op::Add(a, b)),
        3 => u().prop_map(Op::Double),
        2 => (u(), any::<bool>()).prop_map(|(a, b)| Op::SelId(a, b)),
        2 => (u(), u(), any::<bool>()).prop_map(|(a, b, c)| Op::Select(a, b, c)),
        4 => u().prop_map(Op::Descale),
        if asserts { 4 } else { 1 } => (u(), prop_oneof![6 => Just(0u8), 3 => 1u8..5], D::int()).prop_map(|(a, w, l)| Op::Assert(a, w, l)),
    ].boxed()
}
fn prog<D: Dr>(ops: std::ops::Range<usize>, scalar: bool) -> BoxedStrategy<Prog> {
    (prop::collection::vec(spec(), 1..4), prop::collection::vec(op::<D>(true), ops), any::<usize>(), prop_oneof![4 => D::int(), 1 => Just(D::M::p() - 1u32)])
        .prop_map(move |(pts, mut ops, i, k)| { if scalar { ops.insert(i % (ops.len() + 1), Op::Scalar(i, k)); } Prog { pts, ops } }).boxed()
}
struct Run<D: Dr> { cs: R1cs<D::C>, p: Vec<(PointAssignment<D::F>, Pf<D>)>, norm: Vec<usize>, want: bool, inputs: Vec<W>, classes: Vec<&'static str> }
fn run<D: Table>(p: &Prog) -> Run<D> {
    let mut r: Run<D> = Run { cs: R1cs::default(), p: vec![], norm: vec![], want: true, inputs: vec![], classes: vec![] };
    let fe = |v: &Fp<D::M>| D::fe(&v.0);
    for s in &p.pts {
        let t = D::table()[s.i % D::table().len()].clone();
        let t = if s.neg { pt_neg(&t) } else { t };
        let (l0, w0) = (r.cs.l(), r.cs.m_l_1());
        let a = match (&t, s.inst) {
            (Some((x, y)), true) => PointAssignment::instance(&mut r.cs, <D::A as BNAffine>::new_unchecked(fe(x), fe(y))),
            (None, true) => PointAssignment::instance(&mut r.cs, <D::A as Group>::ADDITIVE_IDENTITY),
            (Some((x, y)), false) => PointAssignment::witness(&mut r.cs, fe(x), fe(y), false),
            (None, false) => PointAssignment::witness(&mut r.cs, D::F::zero(), D::F::from(s.y), true),
        };
        for i in l0..r.cs.l() { r.inputs.push((false, i)); }
        for i in w0..r.cs.m_l_1() { r.inputs.push((true, i)); }
        r.p.push((a, t));
    }
    let rel = |a: &Pf<D>, b: &Pf<D>| -> &'static str { match (a, b) { (None, None) => "add id id", (None, _) | (_, None) => "add id", _ if a == b => "add equal", _ if *a == pt_neg(b) => "add opposite", _ => "add generic" } };
    for o in &p.ops {
        let k = r.p.len();
        match o {
            Op::Add(i, j) => { let (a, b) = (r.p[i % k].clone(), r.p[j % k].clone()); r.classes.push(rel(&a.1, &b.1)); let c = a.0.add(&b.0, &mut r.cs); r.p.push((c, pt_add(&a.1, &b.1))); }
            Op::Double(i) => { let a = r.p[i % k].clone(); r.classes.push(if a.1.is_none() { "double id" } else { "double" }); let c = a.0.double(&mut r.cs); r.p.push((c, pt_double(&a.1))); }
            Op::Scalar(i, s) => {
                let a = r.p[i % k].clone();
                r.inputs.push((true, r.cs.m_l_1()));
                let sc = FieldAssignment::witness(&mut r.cs, D::fe(s));
                let c = a.0.scalar_point(&mut r.cs, &sc);
                r.p.push((c, pt_mul(&a.1, s)));
                r.classes.push("scalar");
            }
            Op::SelId(i, b) => {
                let a = r.p[i % k].clone();
                r.inputs.push((true, r.cs.m_l_1()));
                let bit = BinaryAssignment::witness(&mut r.cs, *b as u8);
                let c = a.0.select_identity(&mut r.cs, &bit);
                r.p.push((c, if *b { a.1 } else { None }));
            }
            Op::Select(i, j, b) => {
                let (x, y) = (r.p[i % k].clone(), r.p[j % k].clone());
                r.inputs.push((true, r.cs.m_l_1()));
                let bit = BinaryAssignment::witness(&mut r.cs, *b as u8);
                let c = PointAssignment::conditional_select(&mut r.cs, &x.0, &y.0, &bit);
                r.p.push((c, if *b { x.1 } else { y.1 }));
            }
            Op::Descale(i) => { let a = r.p[i % k].clone(); r.classes.push(if a.1.is_none() { "descale id" } else { "descale" }); let c = a.0.descale(&mut r.cs); r.norm.push(r.p.len()); r.p.push((c, a.1)); }
            Op::Assert(i, what, l) => {
                let a = r.p[i % k].clone();
                let t = match what { 0 => a.1.clone(), 1 => pt_neg(&a.1), 2 => None, 3 => pt_double(&a.1), _ => D::table()[3].clone() };
                let l = if l.is_zero() { Fp::one() } else { Fp::<D::M>::new(l) };
                let q = match &t {
                    Some((x, y)) => <D::P as BNProjective>::new_unchecked(fe(&x.mul(&l)), fe(&y.mul(&l)), fe(&l)),
                    None => <D::P as BNProjective>::new_unchecked(D::F::zero(), fe(&l), D::F::zero()),
                };
                a.0.assert_equal_public_point(&mut r.cs, q);
                r.want &= t == a.1;
                r.classes.push(if t == a.1 { "assert true" } else { "assert false" });
            }
        }
    }
    r
}
fn proj_is<M: Modulus>(x: &Fp<M>, y: &Fp<M>, z: &Fp<M>, want: &Pt<Fp<M>>) -> bool {
    match want {
        None => z.is_zero() && x.is_zero() && !y.is_zero(),
        Some((a, b)) => !z.is_zero() && *x == a.mul(z) && *y == b.mul(z),
    }
}
fn complete<D: Table>(s: &mut Suite, name: &str, cases: N, ops: std::ops::Range<usize>, scalar: bool) {
    let o2 = ops.clone();
    s.check(&format!("{}/{}", D::NAME, name), cases.shrink(60), move || prog::<D>(o2.clone(), scalar), |p, c| {
        let r = run::<D>(p);
        for (k, (a, want)) in r.p.iter().enumerate() {
            let v = |f: FieldAssignment<D::F>| f.value(&r.cs).val();
            let (x, y, z) = (v(a.get_x())?, v(a.get_y())?, v(a.get_z())?);
            ensure!(proj_is(&x, &y, &z, want), "point {}: got ({:x} : {:x} : {:x}), expected {:?}", k, x.0, y.0, z.0, want);
            if r.norm.contains(&k) { ensure!(z.is_zero() || z == Fp::one(), "normalised point {} has z = {:x}", k, z.0); }
        }
        ensure_eq!(r.cs.is_sat(), r.want, "satisfaction");
        for k in &r.classes { c.class(k); }
        c.class(if r.want { "satisfied" } else { "unsatisfied" });
        c.nontrivial_if(r.cs.m() > 0);
        Ok(())
    });
}
fn sound<D: Table>(s: &mut Suite, name: &str, cases: N, ops: std::ops::Range<usize>, scalar: bool, budget: usize) {
    let o2 = ops.clone();
    s.check(&format!("{}/{}", D::NAME, name), cases.shrink(40), move || (prog::<D>(o2.clone(), scalar), any::<u64>()), move |(p, seed), c| {
        let r = run::<D>(p);
        let sys = Sys::of(&r.cs);
        let mut free = vec![true; sys.z.len()];
        free[0] = false;
        for (w, i) in &r.inputs { free[if *w { sys.l + i } else { *i }] = false; }
        let mut outs = vec![];
        for (k, (a, v)) in r.p.iter().enumerate() {
            outs.push((terms::<D>(a.get_x().inner(), sys.l)?, terms::<D>(a.get_y().inner(), sys.l)?, terms::<D>(a.get_z().inner(), sys.l)?, v.as_ref().map(|(x, y)| (D::fe(&x.0), D::fe(&y.0))), r.norm.contains(&k)));
        }
        let mut ow: Vec<usize> = outs.iter().flat_map(|(a, b, c, _, _)| a.iter().chain(b).chain(c).map(|x| x.0)).collect();
        ow.sort(); ow.dedup();
        let want = r.want;
        let (zero, one) = (D::F::zero(), D::F::one());
        let accept = |z: &[D::F]| want && outs.iter().all(|(a, b, c, v, norm)| {
            let (x, y, w) = (dot(a, z), dot(b, z), dot(c, z));
            (match v { None => w == zero && x == zero && y != zero, Some((p, q)) => w != zero && x == *p * w && y == *q * w }) && (!norm || w == zero || w == one)
        });
        let st = search::<D>(&sys, &free, &ow, budget, *seed, &accept)?;
        for k in &r.classes { c.class(k); }
        c.class_if(st.reached > 1, "reached another satisfying assignment or re-derived the same outputs");
        c.nontrivial_if(st.tried > 0);
        Ok(())
    });
}
pub fn c13(s: &mut Suite) {
    s.effort(5);
    s.rule("a case is a generated circuit of point operations; it is non-trivial when it records a constraint (completeness) or when at least one dishonest assignment was tried (soundness)");
    s.assume("input points lie on the curve; an identity input has x = 0, y non-zero, z = 0");
    fn all<D: Table>(s: &mut Suite) {
        complete::<D>(s, "circuits", n(4000, 80000), 1..9, false);
        complete::<D>(s, "scalar", n(120, 3000), 0..3, true);
        sound::<D>(s, "sound_one", n(6000, 120000), 1..2, false, 40);
        sound::<D>(s, "sound_circuits", n(2000, 40000), 2..7, false, 40);
        sound::<D>(s, "sound_scalar", n(64, 1500), 0..2, true, 10);
    }
    all::<Gk>(s); all::<Bn>(s);
}
