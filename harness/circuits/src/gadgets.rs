//! C11 (completeness) and C12 (soundness) of the field and boolean gadgets.
use crate::el::*;
use crate::sys::*;
use vk::refs::*;
use vk::*;
use zkstd::circuit::prelude::*;
use zkstd::common::{Decode, Encode, IntGroup, PrimeField, Ring};
use zkstd::r1cs::verif::Wire;

/// A field operand of a generated circuit.
#[derive(Clone, Debug)]
pub enum Operand { Wit(BigUint), Inst(BigUint), Const(BigUint), Lin(BigUint, BigUint, BigUint), /// value of an earlier operand plus d, in a fresh witness
    Near(usize, u8) }
#[derive(Clone, Debug)]
pub enum Op {
    Add(usize, usize), Sub(usize, usize), Neg(usize), AddG(usize, usize), Mul(usize, usize), Square(usize), Inputize(usize),
    ToBits(usize, usize), FromBit(usize), Not(usize), And(usize, usize), IsEq(usize, usize), IsNeq(usize, usize), Select(usize, usize, usize),
    // assertions; the boolean asks for a true relation
    CondEq(usize, usize, usize, bool), BitCondEq(usize, usize, usize), EnfEq(usize, usize, bool), EnfEqConst(usize, BigUint, bool),
    EnfBits(usize, Vec<usize>, bool), EnfBitsVec(usize, usize, bool),
    /// bits to check (of a decomposition, or picked), bound: absolute, or value of the bits plus d
    Range(Bits, Bound), RangeBits(Bits, usize),
}
#[derive(Clone, Debug)]
pub enum Bits { Picked(Vec<usize>), Vec(usize, usize) }
#[derive(Clone, Debug)]
pub enum Bound { Abs(BigUint), Rel(i8) }
#[derive(Clone, Debug)]
pub struct Prog { pub fields: Vec<Operand>, pub bits: Vec<(bool, bool)>, pub ops: Vec<Op> }

fn operand<D: Dr>() -> BoxedStrategy<Operand> {
    prop_oneof![
        4 => D::int().prop_map(Operand::Wit),
        2 => D::int().prop_map(Operand::Inst),
        1 => D::int().prop_map(Operand::Const),
        1 => (D::int(), D::int(), D::int()).prop_map(|(a, b, c)| Operand::Lin(a, b, c)),
        3 => (any::<usize>(), 0u8..4).prop_map(|(i, d)| Operand::Near(i, d)),
    ].boxed()
}
fn nbits() -> BoxedStrategy<usize> { prop_oneof![4 => Just(256usize), 1 => 250usize..=256, 2 => 0usize..=256, 2 => 1usize..20, 1 => prop::sample::select(vec![64usize, 128, 192, 253, 254, 255])].boxed() }
fn bits_sel() -> BoxedStrategy<Bits> { prop_oneof![2 => prop::collection::vec(any::<usize>(), 0..24).prop_map(Bits::Picked), 3 => (any::<usize>(), 0usize..4).prop_map(|(i, k)| Bits::Vec(i, k))].boxed() }
fn bound<D: Dr>() -> BoxedStrategy<Bound> {
    prop_oneof![5 => (-2i8..=2).prop_map(Bound::Rel), 1 => D::int().prop_map(Bound::Abs), 2 => (0u64..600).prop_map(|v| Bound::Abs(v.into())), 1 => (0u32..254, 0u32..3).prop_map(|(k, d)| Bound::Abs((BigUint::one() << k) + d - BigUint::one()))].boxed()
}
fn truth() -> impl Strategy<Value = bool> { prop::bool::weighted(0.9) }
fn op<D: Dr>() -> BoxedStrategy<Op> {
    let u = || any::<usize>();
    prop_oneof![
        2 => (u(), u()).prop_map(|(a, b)| Op::Add(a, b)),
        2 => (u(), u()).prop_map(|(a, b)| Op::Sub(a, b)),
        1 => u().prop_map(Op::Neg),
        2 => (u(), u()).prop_map(|(a, b)| Op::AddG(a, b)),
        4 => (u(), u()).prop_map(|(a, b)| Op::Mul(a, b)),
        1 => u().prop_map(Op::Square),
        1 => u().prop_map(Op::Inputize),
        2 => (u(), nbits()).prop_map(|(a, n)| Op::ToBits(a, n)),
        1 => u().prop_map(Op::FromBit),
        2 => u().prop_map(Op::Not),
        2 => (u(), u()).prop_map(|(a, b)| Op::And(a, b)),
        2 => (u(), u()).prop_map(|(a, b)| Op::IsEq(a, b)),
        2 => (u(), u()).prop_map(|(a, b)| Op::IsNeq(a, b)),
        3 => (u(), u(), u()).prop_map(|(a, b, c)| Op::Select(a, b, c)),
        2 => (u(), u(), u(), truth()).prop_map(|(a, b, c, t)| Op::CondEq(a, b, c, t)),
        1 => (u(), u(), u()).prop_map(|(a, b, c)| Op::BitCondEq(a, b, c)),
        1 => (u(), u(), truth()).prop_map(|(a, b, t)| Op::EnfEq(a, b, t)),
        1 => (u(), D::int(), truth()).prop_map(|(a, c, t)| Op::EnfEqConst(a, c, t)),
        1 => (u(), prop::collection::vec(u(), 0..12), truth()).prop_map(|(a, b, t)| Op::EnfBits(a, b, t)),
        1 => (u(), u(), truth()).prop_map(|(a, b, t)| Op::EnfBitsVec(a, b, t)),
        2 => (bits_sel(), bound::<D>()).prop_map(|(b, c)| Op::Range(b, c)),
        2 => (bits_sel(), nbits()).prop_map(|(b, c)| Op::RangeBits(b, c)),
    ].boxed()
}
pub fn prog<D: Dr>(ops: std::ops::Range<usize>) -> BoxedStrategy<Prog> {
    (prop::collection::vec(operand::<D>(), 1..4), prop::collection::vec((any::<bool>(), any::<bool>()), 1..4), prop::collection::vec(op::<D>(), ops))
        .prop_map(|(fields, bits, mut ops)| {
            // at most two full decompositions per circuit
            let mut d = 0;
            ops.retain(|o| { if matches!(o, Op::ToBits(..)) { d += 1; d <= 2 } else { true } });
            Prog { fields, bits, ops }
        }).boxed()
}

pub struct Run<D: Dr> {
    pub cs: R1cs<D::C>,
    pub f: Vec<(FieldAssignment<D::F>, BigUint)>,
    pub b: Vec<(BinaryAssignment, bool)>,
    pub vecs: Vec<Vec<(BinaryAssignment, bool)>>,
    /// every asserted relation is true
    pub want: bool,
    /// wires the circuit's inputs occupy: (is_witness, index)
    pub inputs: Vec<W>,
    /// number of field / bit values that are inputs rather than gadget outputs
    pub given: (usize, usize),
    consts: Vec<BigUint>,
    pub classes: Vec<&'static str>,
}
/// Builds the circuit. `consts`: circuit constants fixed by a previous run (else chosen now from the values).
pub fn run<D: Dr>(p: &Prog, consts: Option<&[BigUint]>) -> Result<Run<D>, String> {
    let m = D::M::p();
    let fe = |v: &BigUint| D::fe(v);
    let mut r: Run<D> = Run { cs: R1cs::default(), f: vec![], b: vec![], vecs: vec![], want: true, inputs: vec![], given: (0, 0), consts: vec![], classes: vec![] };
    macro_rules! wit { ($v:expr) => {{ let v: BigUint = $v; r.inputs.push((true, r.cs.m_l_1())); (FieldAssignment::witness(&mut r.cs, fe(&v)), v) }} }
    macro_rules! inst { ($v:expr) => {{ let v: BigUint = $v; r.inputs.push((false, r.cs.l())); (FieldAssignment::instance(&mut r.cs, fe(&v)), v) }} }
    macro_rules! cst { ($v:expr) => {{ let v: BigUint = $v; let k = r.consts.len(); let v = match consts { Some(c) => c[k].clone(), None => v }; r.consts.push(v.clone()); v }} }
    for o in &p.fields {
        let x = match o {
            Operand::Wit(v) => wit!(v.clone()),
            Operand::Inst(v) => inst!(v.clone()),
            Operand::Const(v) => { let v = cst!(v.clone()); (FieldAssignment::constant(&fe(&v)), v) }
            Operand::Lin(a, b, c) => {
                let (x, y) = (wit!(a.clone()), inst!(b.clone()));
                let c = cst!(c.clone());
                (&(&x.0 - &y.0) + &FieldAssignment::constant(&fe(&c)), (x.1 + m - y.1 + c) % m)
            }
            Operand::Near(i, d) => {
                let v = if r.f.is_empty() { BigUint::from(*d) } else { (&r.f[i % r.f.len()].1 + [0u32, 0, 1, 2][*d as usize]) % m };
                wit!(v)
            }
        };
        r.f.push(x);
    }
    for (inst, v) in &p.bits {
        r.inputs.push((!inst, if *inst { r.cs.l() } else { r.cs.m_l_1() }));
        let b = if *inst { BinaryAssignment::instance(&mut r.cs, *v as u8) } else { BinaryAssignment::witness(&mut r.cs, *v as u8) };
        r.b.push((b, *v));
    }
    r.given = (r.f.len(), r.b.len());
    let int_of_bits = |b: &[(BinaryAssignment, bool)]| b.iter().fold(BigUint::zero(), |a, (_, v)| (a << 1u32) + *v as u32);
    for o in &p.ops {
        let (nf, nb) = (r.f.len(), r.b.len());
        macro_rules! f { ($i:expr) => { r.f[$i % nf].clone() } }
        macro_rules! b { ($i:expr) => { r.b[$i % nb].clone() } }
        let select = |r: &Run<D>, s: &Bits| -> Vec<(BinaryAssignment, bool)> {
            match s {
                Bits::Picked(v) => v.iter().map(|i| r.b[i % r.b.len()].clone()).collect(),
                Bits::Vec(_, _) if r.vecs.is_empty() => r.b.clone(),
                Bits::Vec(i, k) => { let v = &r.vecs[i % r.vecs.len()]; match k { 0 | 1 => v.clone(), 2 => v[v.len() / 2..].to_vec(), _ => v[..v.len() - v.len() / 3].to_vec() } }
            }
        };
        match o {
            Op::Add(i, j) => { let (x, y) = (f!(*i), f!(*j)); r.f.push((&x.0 + &y.0, (x.1 + y.1) % m)); }
            Op::Sub(i, j) => { let (x, y) = (f!(*i), f!(*j)); r.f.push((&x.0 - &y.0, (x.1 + m - y.1) % m)); }
            Op::Neg(i) => { let x = f!(*i); r.f.push((-&x.0, (m - x.1) % m)); }
            Op::AddG(i, j) => { let (x, y) = (f!(*i), f!(*j)); let z = FieldAssignment::add(&mut r.cs, &x.0, &y.0); r.f.push((z, (x.1 + y.1) % m)); }
            Op::Mul(i, j) => { let (x, y) = (f!(*i), f!(*j)); let z = FieldAssignment::mul(&mut r.cs, &x.0, &y.0); r.f.push((z, x.1 * y.1 % m)); }
            Op::Square(i) => { let x = f!(*i); let z = FieldAssignment::square(&mut r.cs, &x.0); r.f.push((z, &x.1 * &x.1 % m)); }
            Op::Inputize(i) => { let x = f!(*i); let z = FieldAssignment::inputize(&mut r.cs, x.0); r.f.push((z, x.1)); }
            Op::ToBits(i, n) => {
                let x = f!(*i);
                let bs = FieldAssignment::to_bits(&mut r.cs, &x.0, *n);
                ensure_eq!(bs.len(), *n, "number of bits returned");
                let v: Vec<(BinaryAssignment, bool)> = bs.into_iter().enumerate().map(|(k, w)| (w, x.1.bit((n - 1 - k) as u64))).collect();
                for t in v.iter().take(2) { r.b.push(t.clone()); }
                if let Some(t) = v.last() { r.b.push(t.clone()); }
                r.vecs.push(v);
                r.classes.push(if *n == 256 { "to_bits 256" } else if *n >= 253 { "to_bits 253..255" } else { "to_bits short" });
            }
            Op::FromBit(i) => { let x = b!(*i); r.f.push((FieldAssignment::from(&x.0), BigUint::from(x.1 as u8))); }
            Op::Not(i) => { let x = b!(*i); let z = BinaryAssignment::not(&mut r.cs, &x.0); r.b.push((z, !x.1)); r.classes.push("not"); }
            Op::And(i, j) => { let (x, y) = (b!(*i), b!(*j)); let z = BinaryAssignment::and(&mut r.cs, &x.0, &y.0); r.b.push((z, x.1 & y.1)); r.classes.push("and"); }
            Op::IsEq(i, j) => { let (x, y) = (f!(*i), f!(*j)); let z = FieldAssignment::is_eq(&mut r.cs, &x.0, &y.0); r.b.push((z, x.1 == y.1)); r.classes.push(if x.1 == y.1 { "is_eq true" } else { "is_eq false" }); }
            Op::IsNeq(i, j) => { let (x, y) = (f!(*i), f!(*j)); let z = FieldAssignment::is_neq(&mut r.cs, &x.0, &y.0); r.b.push((z, x.1 != y.1)); r.classes.push(if x.1 == y.1 { "is_neq false" } else { "is_neq true" }); }
            Op::Select(i, j, k) => { let (x, y, c) = (f!(*i), f!(*j), b!(*k)); let z = FieldAssignment::conditional_select(&mut r.cs, &x.0, &y.0, &c.0); r.f.push((z, if c.1 { x.1 } else { y.1 })); r.classes.push("select"); }
            Op::CondEq(i, j, k, t) => {
                let (x, mut y, c) = (f!(*i), f!(*j), b!(*k));
                if *t && c.1 { y = wit!(x.1.clone()); } else { y = wit!(y.1); }
                FieldAssignment::conditional_enforce_equal(&mut r.cs, &x.0, &y.0, &c.0);
                r.want &= !c.1 || x.1 == y.1;
                r.classes.push(if c.1 { "conditional equality on" } else { "conditional equality off" });
            }
            Op::BitCondEq(i, j, k) => {
                let (x, y, c) = (b!(*i), b!(*j), b!(*k));
                BinaryAssignment::conditional_enforce_equal(&mut r.cs, &x.0, &y.0, &c.0);
                r.want &= !c.1 || x.1 == y.1;
            }
            Op::EnfEq(i, j, t) => {
                let (x, mut y) = (f!(*i), f!(*j));
                if *t { y = inst!(x.1.clone()); } else { y = inst!(y.1); }
                FieldAssignment::enforce_eq(&mut r.cs, &x.0, &y.0);
                r.want &= x.1 == y.1;
            }
            Op::EnfEqConst(i, c, t) => {
                let x = f!(*i);
                let c = cst!(if *t { x.1.clone() } else { c.clone() });
                FieldAssignment::enforce_eq_constant(&mut r.cs, &x.0, &fe(&c));
                r.want &= x.1 == c;
            }
            Op::EnfBits(i, bs, t) => {
                let bs = select(&r, &Bits::Picked(bs.clone()));
                let v = int_of_bits(&bs) % m;
                let x = if *t { wit!(v.clone()) } else { f!(*i) };
                FieldAssignment::enforce_eq_bits(&mut r.cs, &x.0, &bs.iter().map(|b| b.0.clone()).collect::<Vec<_>>());
                r.want &= x.1 == v;
            }
            Op::EnfBitsVec(i, k, t) => {
                let bs = select(&r, &Bits::Vec(*k, 0));
                let v = int_of_bits(&bs) % m;
                let x = if *t { wit!(v.clone()) } else { f!(*i) };
                FieldAssignment::enforce_eq_bits(&mut r.cs, &x.0, &bs.iter().map(|b| b.0.clone()).collect::<Vec<_>>());
                r.want &= x.1 == v;
            }
            Op::Range(s, bd) => {
                let bs = select(&r, s);
                let v = int_of_bits(&bs);
                let c = cst!(match bd { Bound::Abs(c) => c % m, Bound::Rel(d) => { let t = &v % m + m + 2u32 + ((*d + 2) as u32) - 4u32; t % m } });
                FieldAssignment::range_check(&mut r.cs, &bs.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), fe(&c));
                r.want &= v <= c;
                r.classes.push(if v == c { "range tight" } else if v < c { "range inside" } else { "range outside" });
            }
            Op::RangeBits(s, k) => {
                let bs = select(&r, s);
                let v = int_of_bits(&bs);
                // ask mostly for a width near the actual one
                let k = cst!(BigUint::from(if *k % 3 == 0 { *k as u64 } else { (v.bits() + (*k as u64 / 3 % 3)).saturating_sub(1) }));
                let k = k.to_u64_digits().first().cloned().unwrap_or(0);
                FieldAssignment::range_check_bits(&mut r.cs, &bs.iter().map(|b| b.0.clone()).collect::<Vec<_>>(), k);
                r.want &= v.bits() <= k;
                r.classes.push(if v.bits() <= k { "width ok" } else { "width exceeded" });
            }
        }
    }
    Ok(r)
}
/// a decomposition followed by range checks of its bits
pub fn range_prog<D: Dr>() -> BoxedStrategy<Prog> {
    (D::int(), nbits(), prop::collection::vec(prop_oneof![
        (0usize..4, bound::<D>()).prop_map(|(k, b)| Op::Range(Bits::Vec(0, k), b)),
        (0usize..4, nbits()).prop_map(|(k, b)| Op::RangeBits(Bits::Vec(0, k), b)),
        truth().prop_map(|t| Op::EnfBitsVec(0, 0, t)),
    ], 0..3)).prop_map(|(v, n, mut ops)| { ops.insert(0, Op::ToBits(0, n)); Prog { fields: vec![Operand::Wit(v)], bits: vec![(false, true)], ops } }).boxed()
}
fn other_values(p: &Prog, vals: &[BigUint], bits: u64) -> Prog {
    let mut q = p.clone();
    for (i, o) in q.fields.iter_mut().enumerate() {
        let v = vals[i % vals.len()].clone();
        match o { Operand::Wit(a) | Operand::Inst(a) => *a = v, Operand::Lin(a, b, _) => { *b = &v >> 1u32; *a = v; } _ => {} }
    }
    for (i, b) in q.bits.iter_mut().enumerate() { b.1 = bits >> i & 1 == 1; }
    q
}
fn complete<D: Dr>(s: &mut Suite, name: &str, cases: N, st: fn() -> BoxedStrategy<Prog>) {
    s.check(&format!("{}/{}", D::NAME, name), cases, move || (st(), prop::collection::vec(D::int(), 4), any::<u64>()), |(p, vals, bits), c| {
        let r = run::<D>(p, None)?;
        for (i, (a, v)) in r.f.iter().enumerate() { ensure_eq!(D::int_of(&a.value(&r.cs))?, *v, "value of field variable {}", i); }
        let bit = |b: &BinaryAssignment| D::int_of(&FieldAssignment::from(b).value(&r.cs));
        for (i, (a, v)) in r.b.iter().enumerate() { ensure_eq!(bit(a)?, BigUint::from(*v as u8), "value of bit {}", i); }
        for v in &r.vecs { for (k, (a, b)) in v.iter().enumerate() { ensure_eq!(bit(a)?, BigUint::from(*b as u8), "bit {} of a decomposition", k); } }
        ensure_eq!(r.cs.is_sat(), r.want, "satisfaction");
        c.class(if r.want { "satisfied" } else { "unsatisfied" });
        for k in &r.classes { c.class(k); }
        c.nontrivial_if(r.cs.m() > 0);
        // the same circuit on other inputs has the same constraints
        let q = other_values(p, vals, *bits);
        let r2 = run::<D>(&q, Some(&r.consts))?;
        ensure!(r.cs.m() == r2.cs.m() && r.cs.l() == r2.cs.l() && r.cs.m_l_1() == r2.cs.m_l_1(), "constraint system dimensions depend on the inputs: {}/{}/{} vs {}/{}/{}", r.cs.m(), r.cs.l(), r.cs.m_l_1(), r2.cs.m(), r2.cs.l(), r2.cs.m_l_1());
        ensure!(r.cs.matrices() == r2.cs.matrices(), "constraint coefficients depend on the inputs");
        ensure_eq!(r2.cs.is_sat(), r2.want, "satisfaction on other inputs");
        c.class(if r2.want { "second satisfied" } else { "second unsatisfied" });
        Ok(())
    });
}
pub fn c11(s: &mut Suite) {
    s.effort(8);
    s.rule("a case is a generated circuit; it is non-trivial when it records at least one constraint");
    s.assume("a boolean wire allocated by the caller holds 0 or 1");
    s.assume("range_check_bits and to_bits are called with at most 256 bits, as the code asserts");
    fn all<D: Dr>(s: &mut Suite) {
        complete::<D>(s, "one_gadget", n(12000, 300000), || prog::<D>(1..2));
        complete::<D>(s, "ranges", n(4000, 100000), range_prog::<D>);
        complete::<D>(s, "circuits", n(6000, 150000), || prog::<D>(2..14));
    }
    all::<Gk>(s); all::<Bn>(s);
}

/// The terms of a row, through its structured encoding.
pub fn terms<D: Dr>(r: &zkstd::matrix::SparseRow<D::F>, l: usize) -> Result<Vec<(usize, D::F)>, String> {
    let e = r.encode();
    let v = Vec::<(Wire, D::F)>::decode(&mut &e[..]).map_err(|e| format!("row encoding: {}", e))?;
    Ok(v.into_iter().map(|(w, c)| (match w { Wire::Instance(i) => i as usize, Wire::Witness(i) => l + i as usize }, c)).collect())
}
pub fn dot<F: PrimeField>(t: &[(usize, F)], z: &[F]) -> F { t.iter().fold(F::zero(), |s, (i, c)| s + z[*i] * *c) }

fn sound<D: Dr>(s: &mut Suite, name: &str, cases: N, st: fn() -> BoxedStrategy<Prog>, budget: usize) {
    s.check(&format!("{}/{}", D::NAME, name), cases.shrink(150), move || (st(), any::<u64>()), move |(p, seed), c| {
        let r = run::<D>(p, None)?;
        let sys = Sys::of(&r.cs);
        let mut free = vec![true; sys.z.len()];
        free[0] = false;
        for (w, i) in &r.inputs { free[if *w { sys.l + i } else { *i }] = false; }
        // everything the circuit computes, with its intended value
        let mut outs: Vec<(Vec<(usize, D::F)>, D::F)> = vec![];
        for (a, v) in &r.f { outs.push((terms::<D>(a.inner(), sys.l)?, D::fe(v))); }
        for (a, v) in r.b.iter().chain(r.vecs.iter().flatten()) { outs.push((terms::<D>(FieldAssignment::from(a).inner(), sys.l)?, if *v { D::F::one() } else { D::F::zero() })); }
        let mut ow: Vec<usize> = outs.iter().flat_map(|(t, _)| t.iter().map(|x| x.0)).collect();
        ow.sort(); ow.dedup();
        let want = r.want;
        let accept = |z: &[D::F]| want && outs.iter().all(|(t, v)| dot(t, z) == *v);
        let st = search::<D>(&sys, &free, &ow, budget, *seed, &accept)?;
        for k in &r.classes { c.class(k); }
        c.class_if(st.reached > 1, "reached another satisfying assignment or re-derived the same outputs");
        c.class_if(!want, "false relation");
        c.nontrivial_if(st.tried > 0);
        Ok(())
    });
}
pub fn c12(s: &mut Suite) {
    s.effort(2);
    s.rule("a case is a generated circuit with fixed inputs and dozens of searched dishonest assignments; it is non-trivial when at least one dishonest assignment was tried");
    s.assume("boolean inputs of the circuit are 0 or 1 (gadget outputs are not assumed to be)");
    fn all<D: Dr>(s: &mut Suite) {
        sound::<D>(s, "one_gadget", n(10000, 200000), || prog::<D>(1..2), 40);
        sound::<D>(s, "ranges", n(600, 30000), range_prog::<D>, 60);
        sound::<D>(s, "circuits", n(2000, 50000), || prog::<D>(2..10), 40);
    }
    all::<Gk>(s); all::<Bn>(s);
}
