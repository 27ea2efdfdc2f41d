//! C23-C24: recursive proofs.
use crate::nv::*;
use crate::sys::{Bn, Dr, Gk};
use std::cell::RefCell;
use std::marker::PhantomData;
use vk::refs::*;
use vk::*;
use bn_254::{Fq, Fr};
use zknova::{verif as nv, Bn254Driver, FunctionCircuit, GrumpkinDriver, Ivc, PedersenCommitment, PublicParams, R1csShape, RecursiveProof};
use zkstd::circuit::prelude::*;
use zkstd::common::{CurveGroup, Decode, Encode, Group, IntGroup, PrimeField, Ring};
use zkstd::matrix::DenseVectors;

// ---------------------------------------------------------------- step functions
/// A generated step function on one field element.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    /// polynomial with the coefficients, lowest first
    Poly(Vec<BigUint>),
    /// the state itself, no constraint
    Same,
    /// a if z = c, else z + b
    If(BigUint, BigUint, BigUint),
    /// z / 2 through a witness
    Half,
    /// the state itself, with unconstrained wires beside it
    Wide(usize),
}
pub fn step() -> BoxedStrategy<Step> {
    let v = || prop_oneof![2 => (0u64..4).prop_map(BigUint::from), 1 => vk::gen::int_mod(&R_MOD, 254)];
    prop_oneof![
        5 => prop::collection::vec(v(), 0..5).prop_map(Step::Poly), 1 => Just(Step::Same),
        // to zero at once, back and forth between a state and its opposite
        2 => Just(Step::Poly(vec![])), 1 => Just(Step::Poly(vec![BigUint::zero(), &*R_MOD - 1u32])),
        2 => (v(), v(), v()).prop_map(|(a, b, c)| Step::If(a, b, c)), 1 => Just(Step::Half),
    ].boxed()
}
impl Step {
    pub fn next<M: Modulus>(&self, z: &BigUint) -> BigUint {
        let p = M::p();
        match self {
            Step::Poly(c) => c.iter().rev().fold(BigUint::zero(), |s, c| (s * z + c) % p),
            Step::Same | Step::Wide(_) => z.clone(),
            Step::If(c, a, b) => if *z == c % p { a % p } else { (z + b) % p },
            Step::Half => if z.bit(0) { (z + p) >> 1u32 } else { z >> 1u32 },
        }
    }
    pub fn iter<M: Modulus>(&self, z: &BigUint, n: usize) -> BigUint { (0..n).fold(z.clone(), |z, _| self.next::<M>(&z)) }
}
thread_local! { static PROGS: RefCell<(Step, Step)> = RefCell::new((Step::Same, Step::Same)); }
/// Sets the step functions of this thread (primary over the scalar field, secondary over the base field).
pub fn program(a: &Step, b: &Step) { PROGS.with(|p| *p.borrow_mut() = (a.clone(), b.clone())) }
fn current<F: PrimeField>() -> Step { PROGS.with(|p| if BigUint::from_bytes_le(&(-F::one()).to_raw_bytes()) < *R_MOD { p.borrow().0.clone() } else { p.borrow().1.clone() }) }

/// The step function given by the thread's current program.
#[derive(Debug, Clone, Default, PartialEq, Eq, Encode, Decode)]
pub struct Fun<Field: PrimeField> { mark: PhantomData<Field> }
fn fe<F: PrimeField>(v: &BigUint) -> F { v.to_bytes_be().iter().fold(F::zero(), |s, x| s * F::from(256u64) + F::from(*x as u64)) }
impl<F: PrimeField> FunctionCircuit<F> for Fun<F> {
    fn invoke(z: &DenseVectors<F>) -> DenseVectors<F> {
        let z = z[0];
        DenseVectors::new(vec![match current::<F>() {
            Step::Poly(c) => c.iter().rev().fold(F::zero(), |s, c| s * z + fe::<F>(c)),
            Step::Same | Step::Wide(_) => z,
            Step::If(c, a, b) => if z == fe::<F>(&c) { fe::<F>(&a) } else { z + fe::<F>(&b) },
            Step::Half => z * F::from(2u64).invert().unwrap(),
        }])
    }
    fn invoke_cs<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, z: Vec<FieldAssignment<F>>) -> Vec<FieldAssignment<F>> {
        let k = |v: &BigUint| FieldAssignment::constant(&fe::<F>(v));
        vec![match current::<F>() {
            Step::Poly(c) => {
                let mut acc = FieldAssignment::constant(&F::zero());
                for (i, c) in c.iter().rev().enumerate() {
                    if i > 0 { acc = FieldAssignment::mul(cs, &acc, &z[0]); }
                    acc = &acc + &k(c);
                }
                acc
            }
            Step::Same => z[0].clone(),
            Step::Wide(n) => { for _ in 0..n { FieldAssignment::witness(cs, F::one()); } z[0].clone() }
            Step::If(c, a, b) => {
                let e = FieldAssignment::is_eq(cs, &z[0], &k(&c));
                FieldAssignment::conditional_select(cs, &k(&a), &(&z[0] + &k(&b)), &e)
            }
            Step::Half => {
                let h = z[0].value(cs) * F::from(2u64).invert().unwrap();
                let h = FieldAssignment::witness(cs, h);
                FieldAssignment::enforce_eq(cs, &(&h + &h), &z[0]);
                h
            }
        }]
    }
}

// ---------------------------------------------------------------- parameters
pub type E1 = Bn254Driver;
pub type E2 = GrumpkinDriver;
pub type PP = PublicParams<E1, E2, Fun<Fr>, Fun<Fq>>;
pub type Chain = Ivc<E1, E2, Fun<Fr>, Fun<Fq>>;
pub type Proof = RecursiveProof<E1, E2, Fun<Fr>, Fun<Fq>>;
pub const KEY: usize = 131_073;
/// A long commitment key: a walk of pseudo-random strides.
fn walk<P: Copy + std::ops::Add<P, Output = P>, A: From<P> + Encode + Decode + zkstd::common::BNAffine>(mk: impl Fn(&BigUint) -> P, order: &BigUint, seed: u64) -> PedersenCommitment<A> {
    let mut s = seed;
    let mut rnd = || mk(&(from_limbs(&[splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)]) % order));
    let steps: Vec<P> = (0..32).map(|_| rnd()).collect();
    let mut at = rnd();
    let mut t = seed ^ 0x5555;
    let v: Vec<A> = (0..KEY).map(|_| { at = at + steps[splitmix(&mut t) as usize % 32]; A::from(at) }).collect();
    PedersenCommitment::decode(&mut &v.encode()[..]).expect("commitment key from its points")
}
lazy_static::lazy_static! {
    static ref KEYS: (PedersenCommitment<bn_254::G1Affine>, PedersenCommitment<grumpkin::Affine>) = {
        let h = std::thread::spawn(|| walk(|k| crate::cv::proj::<crate::cv::G1>(&<Gk as Nv>::env().mul(k), &None), &R_MOD, 11));
        let b = walk(|k| crate::cv::proj::<crate::cv::Gk>(&<Bn as Nv>::env().mul(k), &None), &Q_MOD, 12);
        (h.join().unwrap(), b)
    };
}
/// Inputs of a step circuit over `D::F` that handles instances of `D::O`.
pub struct In<D: Nv> { pub i: u64, pub z0: BigUint, pub zi: Option<BigUint>, pub single: Option<(Pf<D>, Vec<BigUint>)>, pub range: Option<Rel<D>>, pub t: Option<Pf<D>> }
pub fn circuit<D: Nv>(v: &In<D>) -> nv::StepCircuit<D::O, Fun<D::F>> {
    nv::StepCircuit {
        is_primary: D::NAME == "Bn254", i: v.i, z_0: DenseVectors::new(vec![D::fe(&v.z0)]), z_i: v.zi.as_ref().map(|z| DenseVectors::new(vec![D::fe(z)])),
        u_single: v.single.as_ref().map(|(w, x)| nv::instance::<D::O>(lib::<D>(w), x.iter().map(D::sc).collect())),
        u_range: v.range.as_ref().map(|r| r.lib()), commit_t: v.t.as_ref().map(lib::<D>), f: PhantomData,
    }
}
pub fn empty<D: Nv>() -> In<D> { In { i: 0, z0: BigUint::zero(), zi: None, single: None, range: None, t: None } }
pub fn synth<D: Nv>(v: &In<D>) -> (R1cs<D::C>, Vec<FieldAssignment<D::F>>) {
    let mut cs: R1cs<D::C> = R1cs::default();
    let z = nv::step_circuit::<D::O, D::C, Fun<D::F>>(&circuit(v), &mut cs);
    (cs, z)
}
/// The parameters for the thread's current program, with keys of our own.
pub fn params() -> Result<PP, String> {
    let a: R1csShape<E1> = R1csShape::from(synth::<Bn>(&empty()).0);
    let b: R1csShape<E2> = R1csShape::from(synth::<Gk>(&empty()).0);
    let bytes = [a.encode(), b.encode(), KEYS.0.encode(), KEYS.1.encode()].concat();
    PP::decode(&mut &bytes[..]).map_err(|e| format!("parameters do not decode: {}", e))
}
/// Every claim of the proof after `k` steps.
fn claims(p: &Proof, pp: &PP, k: usize, f: &(Step, Step), z: &(BigUint, BigUint), verify: bool) -> R {
    let q = nv::proof_parts(p);
    ensure_eq!(q.i, k as u64, "step counter");
    let one = |v: &[Fr]| -> Result<BigUint, String> { ensure!(v.len() == 1, "state of {} elements", v.len()); <Bn as Dr>::int_of(&v[0]) };
    let two = |v: &[Fq]| -> Result<BigUint, String> { ensure!(v.len() == 1, "state of {} elements", v.len()); <Gk as Dr>::int_of(&v[0]) };
    ensure_eq!(one(&q.z0_primary)?, z.0, "initial primary state");
    ensure_eq!(two(&q.z0_secondary)?, z.1, "initial secondary state");
    ensure_eq!(one(&q.zi_primary)?, f.0.iter::<MR>(&z.0, k), "primary state after {} steps", k);
    ensure_eq!(two(&q.zi_secondary)?, f.1.iter::<MQ>(&z.1, k), "secondary state after {} steps", k);
    // the incoming instance carries the hashes of both running instances
    let x = nv::instance_parts(&q.single_secondary.0).1;
    let sec = Rel::<Bn>::of(&q.range_secondary.0)?;
    let pri = Rel::<Gk>::of(&q.range_primary.0)?;
    ensure_eq!(x.iter().map(<Gk as Dr>::int_of).collect::<Result<Vec<_>, _>>()?, vec![sec.hash(k as u64, &[z.0.clone()], &[f.0.iter::<MR>(&z.0, k)]), pri.hash(k as u64, &[z.1.clone()], &[f.1.iter::<MQ>(&z.1, k)])], "hashes carried by the proof of {} steps", k);
    ensure!(!verify || p.verify(pp), "the proof of {} steps does not verify", k);
    Ok(())
}
fn history(pp: &PP, f: &(Step, Step), z: &(BigUint, BigUint), k: usize) -> R {
    let mut ivc = Chain::init(pp, DenseVectors::new(vec![<Bn as Dr>::fe(&z.0)]), DenseVectors::new(vec![<Gk as Dr>::fe(&z.1)]));
    let proofs: Vec<Proof> = (0..k).map(|_| ivc.prove_step(pp)).collect();
    for (n, p) in proofs.iter().enumerate() { claims(p, pp, n + 1, f, z, true)?; }
    Ok(())
}
/// A longer recursion, one proof at a time; every claim of every proof, verification of a few.
fn long(pp: &PP, f: &(Step, Step), z: &(BigUint, BigUint), k: usize) -> R {
    let mut ivc = Chain::init(pp, DenseVectors::new(vec![<Bn as Dr>::fe(&z.0)]), DenseVectors::new(vec![<Gk as Dr>::fe(&z.1)]));
    let mut early = None;
    for n in 1..=k {
        let p = ivc.prove_step(pp);
        claims(&p, pp, n, f, z, n == k || n % 8 == 5)?;
        if n == 2 { early = Some(p); }
    }
    match early { Some(p) => claims(&p, pp, 2, f, z, true), None => Ok(()) }
}
fn states() -> BoxedStrategy<(BigUint, BigUint)> { (<Bn as Dr>::int(), <Gk as Dr>::int()).boxed() }
fn rel<D: Nv>() -> BoxedStrategy<(usize, usize, BigUint, Vec<BigUint>)> { (pt_ix(), pt_ix(), D::nint().prop_map(|u| low(&u, 200)), prop::collection::vec(D::nint(), 2)).boxed() }
pub fn mkrel<D: Nv>(r: &(usize, usize, BigUint, Vec<BigUint>)) -> Rel<D> { Rel { w: pt::<D>(r.0), e: pt::<D>(r.1), u: r.2.clone(), x: r.3.clone() } }
fn shape_check<D: Nv>(s: &mut Suite) {
    s.check(&format!("shape/{}", D::NAME), n(12, 300).shrink(3), || ((step(), step()), 0u64..4, (D::int(), D::int()), rel::<D>(), (pt_ix(), pt_ix(), prop::collection::vec(D::nint(), 2)), 0u8..32), |(f, i, z, r, (a, t, x), has), case| {
        program(&f.0, &f.1);
        let base = R1csShape::from(synth::<D>(&empty()).0);
        let has = |k: u8| has >> k & 1 == 1;
        let v = In::<D> {
            i: *i, z0: z.0.clone(), zi: if has(0) { Some(z.1.clone()) } else { None }, t: if has(1) { Some(pt::<D>(*t)) } else { None },
            single: if has(2) { Some((pt::<D>(*a), x.iter().map(|v| low(v, 252)).collect())) } else { None }, range: if has(3) { Some(mkrel::<D>(r)) } else { None },
        };
        let (cs, out) = synth::<D>(&v);
        case.nontrivial();
        ensure!(R1csShape::from(cs.clone()) == base, "the shape of the step circuit depends on its inputs");
        ensure_eq!((base.l(), out.len()), (2, 1), "public inputs and state size");
        Ok(())
    });
}
pub fn c23(s: &mut Suite) {
    s.rule("histories count as non-trivial from two steps on; shape cases always");
    s.assume("states have one element, as the parameters fix; keys of the generated histories are our own points except in the case that runs the library's setup");
    s.check("library_setup", n(1, 4).shrink(0), || (step(), step(), states(), any::<u64>()), |(a, b, z, seed), case| {
        program(a, b);
        let pp = PP::setup(&mut Rng(*seed));
        case.nontrivial();
        let own = params()?;
        ensure!(pp.r1cs_shape_primary == own.r1cs_shape_primary && pp.r1cs_shape_secondary == own.r1cs_shape_secondary, "the shapes of the parameters are not those of the step circuits");
        history(&pp, &(a.clone(), b.clone()), z, 2)
    });
    let steps = s.scale(8, 24);
    s.check("long_history", n(1, 4).shrink(0), || (step(), step(), states()), move |(a, b, z), case| {
        program(a, b);
        case.nontrivial();
        case.class(if steps < 10 { "8 steps" } else { "24 steps" });
        long(&params()?, &(a.clone(), b.clone()), z, steps)
    });
    s.check("histories", n(20, 200).shrink(1), || (step(), step(), states(), prop_oneof![1 => Just(1usize), 2 => Just(2usize), 2 => Just(3usize), 1 => Just(4usize)]), |(a, b, z, k), case| {
        program(a, b);
        let pp = params()?;
        case.nontrivial_if(*k > 1);
        case.class(match k { 1 => "1 step", 2 => "2 steps", 3 => "3 steps", _ => "4 steps" });
        history(&pp, &(a.clone(), b.clone()), z, *k)
    });
    shape_check::<Bn>(s);
    shape_check::<Gk>(s);
}
