//! C16-C18, C26: Groth16 over generated circuits. A program is a list of rows over the wires defined so
//! far; every row that defines a wire can be satisfied for any operand values, so that one program has
//! satisfying assignments for all inputs.
use crate::cv::*;
use crate::el::*;
use crate::fft::Rng;
use crate::msm::Env;
use crate::sys::{row, Bn, Sys, W};
use bn_254::{Fr, G1Affine, G2Affine};
use std::cell::RefCell;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkgroth16::verif as gv;
use zkgroth16::{Bn254Driver, Circuit, Error, Proof, Prover, Verifier, ZkSnark};
use zkstd::circuit::prelude::{BinaryAssignment, FieldAssignment, R1cs};
use zkstd::common::{BNAffine, CurveGroup, Group, PrimeField};
use zkstd::matrix::SparseRow;

type Terms = Vec<(u16, BigUint)>;
#[derive(Clone, Debug)]
enum Row {
    /// a·b = c + k·w, defining the witness (or public) wire w
    Def { a: Terms, b: Terms, c: Terms, k: BigUint, public: bool },
    /// a·const = const·a: a linear identity without a new wire
    Linear(Terms, BigUint),
    /// const·a = const·a with the constant on the left
    LinearLeft(Terms, BigUint),
    /// (x - x)·b = 0, written as two terms on the same wire
    Cancel(u16, BigUint, Terms),
    /// an empty left-hand side
    Empty(Terms),
    /// gadgets of the circuit library on wires it returned
    GMul(u16, u16),
    GAdd(u16, u16),
    Inputize(u16),
    IsNeq(u16, u16),
    Bits(u16, usize),
    /// a fresh unused public or witness wire
    Unused(bool, BigUint),
}
#[derive(Clone, Debug)]
struct Prog { inputs: Vec<BigUint>, wits: Vec<BigUint>, rows: Vec<Row> }

/// A list whose length follows its own distribution.
fn vecs<T: std::fmt::Debug + Clone + 'static>(e: BoxedStrategy<T>, len: BoxedStrategy<usize>) -> BoxedStrategy<Vec<T>> { len.prop_flat_map(move |l| prop::collection::vec(e.clone(), l)).boxed() }
fn coef() -> BoxedStrategy<BigUint> { prop_oneof![4 => Just(BigUint::one()), 1 => Just(&*R_MOD - 1u32), 2 => (0u64..6).prop_map(BigUint::from), 2 => fr_int()].boxed() }
fn nzcoef() -> BoxedStrategy<BigUint> { coef().prop_map(|c| if c.is_zero() { BigUint::one() } else { c }).boxed() }
fn terms() -> BoxedStrategy<Terms> { vecs((any::<u16>(), coef()).boxed(), prop_oneof![1 => Just(0usize), 8 => 1usize..3, 2 => 3usize..6].boxed()) }
fn arow(bits: bool) -> BoxedStrategy<Row> {
    let w = any::<u16>();
    let base = prop_oneof![
        20 => (terms(), terms(), terms(), nzcoef(), prop_oneof![5 => Just(false), 1 => Just(true)]).prop_map(|(a, b, c, k, public)| Row::Def { a, b, c, k, public }),
        12 => (w, w, nzcoef(), prop_oneof![5 => Just(false), 1 => Just(true)]).prop_map(|(a, b, k, public)| Row::Def { a: vec![(a, BigUint::one())], b: vec![(b, BigUint::one())], c: vec![], k, public }),
        2 => (terms(), coef()).prop_map(|(t, k)| Row::Linear(t, k)),
        2 => (terms(), coef()).prop_map(|(t, k)| Row::LinearLeft(t, k)),
        2 => (w, coef(), terms()).prop_map(|(a, k, b)| Row::Cancel(a, k, b)),
        1 => terms().prop_map(Row::Empty),
        3 => (w, w).prop_map(|(a, b)| Row::GMul(a, b)),
        2 => (w, w).prop_map(|(a, b)| Row::GAdd(a, b)),
        2 => w.prop_map(Row::Inputize),
        2 => (w, w).prop_map(|(a, b)| Row::IsNeq(a, b)),
        2 => (any::<bool>(), fr_int()).prop_map(|(p, v)| Row::Unused(p, v)),
    ].boxed();
    if bits { prop_oneof![8 => base, 1 => (w, 0usize..257).prop_map(|(a, n)| Row::Bits(a, n))].boxed() } else { base }
}
fn val() -> BoxedStrategy<BigUint> { prop_oneof![2 => fr_int(), 1 => (0u64..4).prop_map(BigUint::from)].boxed() }
fn prog_of(rows: BoxedStrategy<usize>, bits: bool) -> BoxedStrategy<Prog> {
    (vecs(val(), prop_oneof![1 => Just(0usize), 4 => 1usize..4, 1 => 4usize..9].boxed()), vecs(val(), prop_oneof![1 => Just(0usize), 4 => 1usize..4].boxed()), vecs(arow(bits), rows))
        .prop_map(|(inputs, wits, rows)| Prog { inputs, wits, rows }).boxed()
}
fn prog() -> BoxedStrategy<Prog> { prog_of(prop_oneof![1 => Just(0usize), 2 => 1usize..4, 6 => 4usize..14, 1 => 14usize..36].boxed(), false) }

#[derive(Clone, Copy, PartialEq)]
enum Mode { Zero, Honest, Wrong { at: usize, by: u64 } }
thread_local! { static PROG: RefCell<(Prog, usize)> = RefCell::new((Prog { inputs: vec![], wits: vec![], rows: vec![] }, 0)); }

/// Records the program; `Wrong` shifts the value of one defined wire, so that its row does not hold.
fn synth(cs: &mut R1cs<Bn254Driver>, p: &Prog, mode: Mode) {
    let v = |x: &BigUint| if mode == Mode::Zero { Fr::zero() } else { Fr::mk(&Rr::new(x)) };
    let mut ws: Vec<W> = vec![(false, 0)];
    let mut fs: Vec<FieldAssignment<Fr>> = vec![FieldAssignment::constant(&Fr::one())];
    fn add(cs: &mut R1cs<Bn254Driver>, ws: &mut Vec<W>, fs: &mut Vec<FieldAssignment<Fr>>, public: bool, v: Fr) -> W {
        let w = if public { (false, cs.l()) } else { (true, cs.m_l_1()) };
        fs.push(if public { FieldAssignment::instance(cs, v) } else { FieldAssignment::witness(cs, v) });
        ws.push(w);
        w
    }
    for i in &p.inputs { add(cs, &mut ws, &mut fs, true, v(i)); }
    for i in &p.wits { add(cs, &mut ws, &mut fs, false, v(i)); }
    let mut defs = 0;
    for r in &p.rows {
        let t = |t: &Terms| -> Vec<(W, BigUint)> { t.iter().map(|(i, c)| (ws[*i as usize % ws.len()], c.clone())).collect() };
        let rw = |t: &[(W, BigUint)]| -> SparseRow<Fr> { row::<Bn>(t) };
        let one: Vec<(W, BigUint)> = vec![((false, 0), BigUint::one())];
        match r {
            Row::Def { a, b, c, k, public } => {
                let (a, b, mut c) = (t(a), t(b), t(c));
                let ev = |t: &Vec<(W, BigUint)>, cs: &R1cs<Bn254Driver>| t.iter().fold(Fr::zero(), |s, (w, k)| s + if w.0 { cs.w()[w.1] } else { cs.x()[w.1] } * Fr::mk(&Rr::new(k)));
                let mut w = (ev(&a, cs) * ev(&b, cs) - ev(&c, cs)) * Fr::mk(&Rr::new(k)).invert().unwrap();
                if let Mode::Wrong { at, by } = mode { if at == defs { w += Fr::from(by); } }
                defs += 1;
                let wr = add(cs, &mut ws, &mut fs, *public, w);
                c.push((wr, k.clone()));
                cs.mul_gate(&rw(&a), &rw(&b), &rw(&c));
            }
            Row::Linear(a, k) | Row::LinearLeft(a, k) => {
                let a = t(a);
                let kk = vec![((false, 0), k.clone())];
                let c: Vec<(W, BigUint)> = a.iter().map(|(w, x)| (*w, x * k)).collect();
                if let Row::Linear(..) = r { cs.mul_gate(&rw(&a), &rw(&kk), &rw(&c)) } else { cs.mul_gate(&rw(&kk), &rw(&a), &rw(&c)) }
            }
            Row::Cancel(x, k, b) => {
                let w = ws[*x as usize % ws.len()];
                let a = vec![(w, k.clone()), (w, &*R_MOD - k % &*R_MOD)];
                cs.mul_gate(&rw(&a), &rw(&t(b)), &rw(&[]));
            }
            Row::Empty(b) => cs.mul_gate(&rw(&[]), &rw(&t(b)), &rw(&[])),
            Row::GMul(a, b) => { let z = FieldAssignment::mul(cs, &fs[*a as usize % fs.len()], &fs[*b as usize % fs.len()]); fs.push(z); }
            Row::GAdd(a, b) => { let z = FieldAssignment::add(cs, &fs[*a as usize % fs.len()], &fs[*b as usize % fs.len()]); fs.push(z); }
            Row::Inputize(a) => { let f = fs[*a as usize % fs.len()].clone(); let z = FieldAssignment::inputize(cs, f); fs.push(z); }
            Row::IsNeq(a, b) => { let z = FieldAssignment::is_neq(cs, &fs[*a as usize % fs.len()], &fs[*b as usize % fs.len()]); fs.push(FieldAssignment::from(&z)); }
            Row::Bits(a, n) => { let f = fs[*a as usize % fs.len()].clone(); let b: Vec<BinaryAssignment> = FieldAssignment::to_bits(cs, &f, *n); if let Some(b) = b.last() { fs.push(FieldAssignment::from(b)); } }
            Row::Unused(public, x) => { add(cs, &mut ws, &mut fs, *public, v(x)); }
        }
        let _ = one;
    }
}
#[derive(Debug, Clone)]
struct Ci { prog: Prog, mode: i64, by: u64 }
impl Ci {
    fn new(p: &Prog, m: Mode) -> Ci { match m { Mode::Zero => Ci { prog: p.clone(), mode: -2, by: 0 }, Mode::Honest => Ci { prog: p.clone(), mode: -1, by: 0 }, Mode::Wrong { at, by } => Ci { prog: p.clone(), mode: at as i64, by } } }
    fn m(&self) -> Mode { match self.mode { -2 => Mode::Zero, -1 => Mode::Honest, at => Mode::Wrong { at: at as usize, by: self.by } } }
}
impl Default for Ci { fn default() -> Self { PROG.with(|p| { let mut p = p.borrow_mut(); p.1 += 1; Ci::new(&p.0, Mode::Zero) }) } }
impl Circuit for Ci {
    fn synthesize(&self, cs: &mut R1cs<Bn254Driver>) -> Result<(), Error> { synth(cs, &self.prog, self.m()); Ok(()) }
}
fn setup(p: &Prog, seed: u64) -> Result<(Prover, Verifier), String> {
    PROG.with(|q| *q.borrow_mut() = (p.clone(), 0));
    ZkSnark::setup::<Ci>(Rng(seed)).map_err(|e| format!("setup failed: {:?}", e))
}
fn system(p: &Prog, m: Mode) -> Sys<Fr> { let mut cs = R1cs::default(); synth(&mut cs, p, m); Sys::of(&cs) }
fn prove(pr: &mut Prover, p: &Prog, m: Mode, seed: u64) -> Result<Proof, String> { pr.create_proof(&mut Rng(seed), Ci::new(p, m)).map_err(|e| format!("proving failed: {:?}", e)) }
fn classes(s: &Sys<Fr>, case: &mut Case) {
    let m = s.rows.len();
    case.class(match m { 0 => "no constraints", 1 => "one constraint", m if m.is_power_of_two() => "power-of-two constraint count", _ => "other constraint count" });
    case.class(match s.l { 1 => "no public inputs", 2..=4 => "1-3 public inputs", _ => "4+ public inputs" });
    case.class_if(s.l == s.z.len(), "no witnesses");
    let used = |i: usize, k: usize| s.rows.iter().any(|r| r[k].iter().any(|(j, c)| *j == i && *c != Fr::zero()));
    case.class_if((1..s.l).any(|i| (0..3).all(|k| !used(i, k))), "an unused public input");
    case.class_if((1..s.l).any(|i| used(i, 1) && !used(i, 0)), "a public input on right-hand sides only");
    case.class_if((1..s.l).any(|i| used(i, 2) && !used(i, 0) && !used(i, 1)), "a public input in results only");
    case.class_if((s.l..s.z.len()).any(|i| used(i, 0) && used(i, 1) && used(i, 2)), "a witness in all three matrices");
    case.class_if(s.rows.iter().any(|r| (0..3).any(|k| r[k].len() > 2)), "a combination of 3+ wires");
}
/// Wires whose column in some matrix is non-zero.
fn constrained(s: &Sys<Fr>) -> usize { let mut u = vec![false; s.z.len()]; for r in &s.rows { for k in r { for (i, c) in k { if *c != Fr::zero() { u[*i] = true; } } } } u.iter().filter(|x| **x).count() }

pub fn c16(s: &mut Suite) {
    s.rule("a circuit counts as non-trivial when it has at least two constraints that involve at least three wires");
    s.assume("satisfaction of the generated assignment is decided by the row evaluator of the harness with the library's field arithmetic (C01)");
    let body = |(p, s1, s2): &(Prog, u64, u64), case: &mut Case| -> R {
        let sy = system(p, Mode::Honest);
        ensure!(sy.sat(&sy.z), "the generated assignment does not satisfy the recorded system (of {} rows)", sy.rows.len());
        classes(&sy, case);
        case.nontrivial_if(sy.rows.len() > 1 && constrained(&sy) > 2);
        let (mut pr, ve) = setup(p, *s1)?;
        let x = sy.z[1..sy.l].to_vec();
        for k in 0..2u64 {
            let proof = prove(&mut pr, p, Mode::Honest, s2.wrapping_add(k))?;
            ve.verify(&proof, &x).map_err(|e| format!("honest proof of a circuit with {} constraints, {} public inputs, {} witnesses rejected: {:?}", sy.rows.len(), sy.l - 1, sy.z.len() - sy.l, e))?;
        }
        // the same key proves other statements of the circuit
        let mut q = p.clone();
        for i in q.inputs.iter_mut().chain(q.wits.iter_mut()) { *i = (&*i * 5u32 + 7u32) % &*R_MOD; }
        let sq = system(&q, Mode::Honest);
        let proof = prove(&mut pr, &q, Mode::Honest, *s2)?;
        ve.verify(&proof, &sq.z[1..sq.l]).map_err(|e| format!("honest proof of a second statement rejected: {:?}", e))
    };
    s.check("complete", n(1600, 60_000).shrink(120), || (prog(), any::<u64>(), any::<u64>()), body);
    s.check("complete_large", n(24, 800).shrink(20), || (prog_of(prop_oneof![Just(1usize), 2usize..4, 60usize..70, 120usize..132].boxed(), true), any::<u64>(), any::<u64>()), body);
}

// ---------------------------------------------------------------- soundness
fn lib_g1(k: &BigUint) -> G1Affine { (G1Affine::ADDITIVE_GENERATOR * Fr::mk(&Rr::new(k))).into() }
fn lib_g2(k: &BigUint) -> G2Affine { (G2Affine::ADDITIVE_GENERATOR * Fr::mk(&Rr::new(k))).into() }
/// The verification equation from the published key, with separate pairings.
fn equation(pr: &Prover, pf: &Proof, x: &[Fr]) -> bool {
    use bn_254::{AteParing, G2PairingAffine};
    let vk = &pr.params.vk;
    if vk.ic.len() != x.len() + 1 { return false; }
    let acc = vk.ic[1..].iter().zip(x).fold(vk.ic[0].to_extended(), |s, (p, k)| s + *p * *k);
    let (a, b, c) = gv::elements(pf);
    let e = |p: G1Affine, q: G2Affine| AteParing::multi_miller_loop(&[(p, G2PairingAffine::from(q))]).final_exp();
    let right = e(vk.alpha_g1, vk.beta_g2) + e(acc.into(), vk.gamma_g2) + e(c, vk.delta_g2);
    e(a, b) == right
}
#[derive(Clone, Debug)]
struct Eq { ks: Vec<BigUint>, ic: Vec<BigUint>, x: Vec<BigUint>, solve: bool, m: u8 }

/// What is changed in an honest run.
#[derive(Clone, Debug)]
enum Mut { Input(u16, BigUint), Two(u16, u16, BigUint), Swap(u16, u16), Len(i8, BigUint), NegA, NegB, NegC, ReplA(BigUint), ReplB(BigUint), ReplC(BigUint), Exchange, ShiftIc(u16, BigUint), ShiftIcKeep(u16, BigUint), OtherProof(u8), OtherKey, Wrong(u8, u64), WrongRow(u8, u64), ZeroAll, Scale(BigUint), AddDelta(BigUint), AllZeroInputs }
fn mutation() -> BoxedStrategy<Mut> {
    let w = any::<u16>();
    let d = nzcoef;
    prop_oneof![
        4 => (w, d()).prop_map(|(i, d)| Mut::Input(i, d)),
        2 => (w, w, d()).prop_map(|(i, j, d)| Mut::Two(i, j, d)),
        2 => (w, w).prop_map(|(i, j)| Mut::Swap(i, j)),
        2 => (-3i8..4, prop_oneof![Just(BigUint::zero()), val()]).prop_map(|(k, v)| Mut::Len(if k == 0 { 1 } else { k }, v)),
        1 => Just(Mut::NegA), 1 => Just(Mut::NegB), 1 => Just(Mut::NegC),
        1 => d().prop_map(Mut::ReplA), 1 => d().prop_map(Mut::ReplB), 1 => d().prop_map(Mut::ReplC),
        1 => Just(Mut::Exchange), 2 => (w, d()).prop_map(|(i, d)| Mut::ShiftIc(i, d)), 1 => (w, d()).prop_map(|(i, d)| Mut::ShiftIcKeep(i, d)),
        2 => any::<u8>().prop_map(Mut::OtherProof), 1 => Just(Mut::OtherKey),
        5 => (any::<u8>(), 1u64..9).prop_map(|(i, d)| Mut::Wrong(i, d)),
        3 => (any::<u8>(), 1u64..9).prop_map(|(i, d)| Mut::WrongRow(i, d)),
        1 => Just(Mut::ZeroAll), 1 => d().prop_map(Mut::Scale), 1 => d().prop_map(Mut::AddDelta), 1 => Just(Mut::AllZeroInputs),
    ].boxed()
}
pub fn c17(s: &mut Suite) {
    s.rule("equation cases count as non-trivial when all key scalars are non-zero; run cases when the alteration leads to a claim that must be rejected");
    s.assume("rejection of a false claim is exact up to the negligible probability of a collision between random key elements");
    // exact: key and proof with known logarithms, accepted exactly when the scalar equation holds
    let k = || prop_oneof![6 => fr_int(), 2 => (0u64..4).prop_map(BigUint::from)];
    s.check("equation", n(1600, 40_000).shrink(60), move || (prop::collection::vec(k(), 7), prop::collection::vec(k(), 1..5), prop::collection::vec(k(), 4), any::<bool>(), 0u8..14).prop_map(|(ks, ic, x, solve, m)| Eq { ks, ic, x, solve: solve || m > 9, m }), |e: &Eq, case| {
        let md = &*R_MOD;
        let [al, be, ga, de] = [&e.ks[0], &e.ks[1], &e.ks[2], &e.ks[3]];
        let (mut a, mut b, mut c) = (e.ks[4].clone(), e.ks[5].clone(), e.ks[6].clone());
        let mut x: Vec<BigUint> = e.x[..e.ic.len() - 1].to_vec();
        let acc = |x: &[BigUint]| (&e.ic[0] + e.ic[1..].iter().zip(x).map(|(p, q)| p * q).sum::<BigUint>()) % md;
        if e.solve {
            // choose c so that the equation holds (if delta is invertible), then perhaps break it
            if let Some(di) = inv_mod(de, md) { c = (&a * &b + md * md * 2u32 - al * be % md - ga * acc(&x) % md) % md * di % md; }
            match e.m {
                0 => a = (md - &a) % md,
                1 => b = (md - &b) % md,
                2 => c = (md - &c) % md,
                3 => { a = (md - &a) % md; b = (md - &b) % md; }
                4 => c = (&c + 1u32) % md,
                5 => std::mem::swap(&mut a, &mut b),
                6 => std::mem::swap(&mut a, &mut c),
                7 => if let Some(v) = x.first_mut() { *v = (&*v + 1u32) % md },
                8 => if let Some(v) = x.last_mut() { *v = (md - &*v) % md },
                9 => x.reverse(),
                _ => {}
            }
        }
        let want = (&a * &b) % md == (al * be + ga * acc(&x) + de * &c) % md;
        let vk = gv::VerifyingKey { alpha_g1: lib_g1(al), beta_g1: lib_g1(be), beta_g2: lib_g2(be), gamma_g2: lib_g2(ga), delta_g1: lib_g1(de), delta_g2: lib_g2(de), ic: e.ic.iter().map(lib_g1).collect() };
        let ve = gv::verifier(&vk);
        let pf = gv::proof(lib_g1(&a), lib_g2(&b), lib_g1(&c));
        let xs: Vec<Fr> = x.iter().map(|v| Fr::mk(&Rr::new(v))).collect();
        case.nontrivial_if(e.ks[..4].iter().all(|k| !k.is_zero()));
        case.class(if want { "equation holds" } else { "equation fails" });
        case.class_if(a.is_zero() || b.is_zero() || c.is_zero(), "an identity element in the proof");
        let got = ve.verify(&pf, &xs);
        ensure!(got.is_ok() == want, "verification {} although the equation {} (alpha {:x}, beta {:x}, gamma {:x}, delta {:x}; a {:x}, b {:x}, c {:x}; ic {:?}; x {:?})", if got.is_ok() { "accepted" } else { "rejected" }, if want { "holds" } else { "fails" }, al, be, ga, de, a, b, c, e.ic, x);
        // wrong lengths are errors whatever the values
        let mut long = xs.clone(); long.push(Fr::zero());
        ensure!(ve.verify(&pf, &long).is_err(), "a public-input vector with one extra zero was accepted");
        if let Some((_, short)) = xs.split_last() { ensure!(ve.verify(&pf, short).is_err(), "a public-input vector one entry short was accepted"); }
        Ok(())
    });
    s.check("altered_runs", n(2600, 60_000).shrink(80), || (prog(), mutation(), any::<u64>(), any::<u64>()), |(p, mu, s1, s2): &(Prog, Mut, u64, u64), case| {
        let sy = system(p, Mode::Honest);
        let (mut pr, mut ve) = setup(p, *s1)?;
        let x = sy.z[1..sy.l].to_vec();
        let honest = prove(&mut pr, p, Mode::Honest, *s2)?;
        let (a, b, c) = gv::elements(&honest);
        let fe = |v: &BigUint| Fr::mk(&Rr::new(v));
        let pick = |i: u16| if x.is_empty() { None } else { Some(i as usize % x.len()) };
        // same claim: the change of public inputs does not touch any row
        let same_claim = |y: &[Fr]| -> bool {
            y.len() == x.len() && sy.rows.iter().all(|r| (0..3).all(|k| r[k].iter().filter(|(i, _)| *i > 0 && *i < sy.l).fold(Fr::zero(), |s, (i, c)| s + *c * (y[*i - 1] - x[*i - 1])) == Fr::zero()))
        };
        let mut y = x.clone();
        let mut pf = None;
        let mut expect: Option<bool> = None; // None: decided by the claim
        match mu {
            Mut::Input(i, d) => { if let Some(i) = pick(*i) { y[i] += fe(d); } case.class("one input changed"); }
            Mut::Two(i, j, d) => { if let (Some(i), Some(j)) = (pick(*i), pick(*j)) { y[i] += fe(d); y[j] -= fe(d); } case.class("two inputs changed"); }
            Mut::Swap(i, j) => { if let (Some(i), Some(j)) = (pick(*i), pick(*j)) { y.swap(i, j); } case.class("two inputs exchanged"); }
            Mut::AllZeroInputs => { for v in y.iter_mut() { *v = Fr::zero(); } case.class("all inputs zero"); }
            Mut::Len(k, v) => {
                if *k > 0 { for _ in 0..*k { y.push(fe(v)); } } else { for _ in 0..-*k { y.pop(); } }
                expect = Some(y.len() == x.len());
                case.class("wrong number of inputs");
            }
            Mut::NegA => { pf = Some((-a, b, c)); expect = Some(a.is_identity() || b.is_identity()); case.class("element negated"); }
            Mut::NegB => { pf = Some((a, -b, c)); expect = Some(a.is_identity() || b.is_identity()); case.class("element negated"); }
            Mut::NegC => { pf = Some((a, b, -c)); expect = Some(c.is_identity()); case.class("element negated"); }
            Mut::ReplA(d) => { let n: G1Affine = (a + lib_g1(d)).into(); expect = Some(n == a || b.is_identity()); pf = Some((n, b, c)); case.class("element replaced"); }
            Mut::ReplB(d) => { let n: G2Affine = (b + lib_g2(d)).into(); expect = Some(n == b || a.is_identity()); pf = Some((a, n, c)); case.class("element replaced"); }
            Mut::ReplC(d) => { let n: G1Affine = (c + lib_g1(d)).into(); expect = Some(n == c); pf = Some((a, b, n)); case.class("element replaced"); }
            Mut::AddDelta(d) => { let n: G1Affine = (a + pr.params.vk.delta_g1 * fe(d)).into(); expect = Some(n == a); pf = Some((n, b, c)); case.class("element replaced"); }
            Mut::Exchange => { expect = Some(a == c); pf = Some((c, b, a)); case.class("elements exchanged"); }
            Mut::Scale(d) => { let n: G1Affine = (a * fe(d)).into(); expect = Some(n == a); pf = Some((n, b, c)); case.class("element replaced"); }
            Mut::ZeroAll => { pf = Some((G1Affine::ADDITIVE_IDENTITY, G2Affine::ADDITIVE_IDENTITY, G1Affine::ADDITIVE_IDENTITY)); expect = Some(false); case.class("element replaced"); }
            Mut::ShiftIc(i, d) | Mut::ShiftIcKeep(i, d) => {
                // move a public-input contribution into C: must not pass for free
                if let Some(i) = pick(*i) {
                    let ic = pr.params.vk.ic[i + 1];
                    let n: G1Affine = (c + ic * fe(d)).into();
                    if let Mut::ShiftIc(..) = mu { y[i] -= fe(d); }
                    expect = Some(n == c && same_claim(&y));
                    pf = Some((a, b, n));
                }
                case.class("input contribution moved into C");
            }
            Mut::OtherProof(k) => {
                let mut q = p.clone();
                if *k % 2 == 0 { for v in q.inputs.iter_mut() { *v = (&*v + 1u32) % &*R_MOD; } } else { for v in q.inputs.iter_mut().chain(q.wits.iter_mut()) { *v = (&*v * 3u32 + 1u32) % &*R_MOD; } }
                let o = prove(&mut pr, &q, Mode::Honest, s2.wrapping_add(1))?;
                let so = system(&q, Mode::Honest);
                let (a2, b2, c2) = gv::elements(&o);
                let xo = &so.z[1..so.l];
                match k / 2 % 4 {
                    0 => { expect = Some(same_claim(xo)); pf = Some((a2, b2, c2)); }
                    1 => { pf = Some((a2, b, c)); expect = Some(a2 == a); }
                    2 => { pf = Some((a, b2, c)); expect = Some(b2 == b); }
                    _ => { pf = Some((a, b, c2)); expect = Some(c2 == c); }
                }
                case.class("(part of) a proof of another statement");
            }
            Mut::OtherKey => { let (p2, v2) = setup(p, s1.wrapping_add(1))?; pr = p2; ve = v2; expect = Some(false); case.class("proof made under another key"); }
            Mut::Wrong(i, by) | Mut::WrongRow(i, by) => {
                let defs: Vec<bool> = p.rows.iter().filter_map(|r| if let Row::Def { public, .. } = r { Some(*public) } else { None }).collect();
                if !defs.is_empty() {
                    let at = if let Mut::WrongRow(..) = mu { defs.len() - 1 - *i as usize % defs.len().min(2) } else { *i as usize % defs.len() };
                    let m = Mode::Wrong { at, by: *by };
                    let sw = system(p, m);
                    let ok = sw.sat(&sw.z);
                    // an error from the prover is a refusal as well
                    let o = match pr.create_proof(&mut Rng(*s2), Ci::new(p, m)) { Ok(o) => o, Err(_) => { ensure!(!ok, "proving a satisfied assignment failed"); return Ok(()); } };
                    y = sw.z[1..sw.l].to_vec();
                    pf = Some(gv::elements(&o));
                    expect = Some(ok);
                }
                case.class("unsatisfied witness");
            }
        }
        let want = expect.unwrap_or_else(|| same_claim(&y));
        case.nontrivial_if(!want);
        case.class(if want { "unchanged claim: accepted" } else { "rejected" });
        let (pa, pb, pc) = pf.unwrap_or((a, b, c));
        let pf = gv::proof(pa, pb, pc);
        let got = ve.verify(&pf, &y);
        ensure!(got.is_ok() == want, "{:?}: verification {} (circuit of {} constraints, {} public inputs), expected {}", mu, if got.is_ok() { "accepted" } else { "rejected" }, sy.rows.len(), sy.l - 1, if want { "acceptance" } else { "rejection" });
        ensure!(got.is_ok() == equation(&pr, &pf, &y), "{:?}: verification {} against the equation recomputed from the published key", mu, if got.is_ok() { "accepted" } else { "rejected" });
        Ok(())
    });
}

// ---------------------------------------------------------------- keys
struct Secrets { al: Rr, be: Rr, ga: Rr, de: Rr, ta: Rr }
fn replay(seed: u64, k: usize) -> Vec<Fr> { let mut r = Rng(seed); (0..k).map(|_| Fr::random(&mut r)).collect() }
/// Reads the secrets off the seeded random stream by matching the published points, in whatever order
/// they were drawn.
fn recover(pr: &Prover, seed: u64, nn: usize) -> Result<Option<Secrets>, String> {
    let vk = &pr.params.vk;
    let c = replay(seed, 24);
    let g1 = |k: Fr| -> G1Affine { (G1Affine::ADDITIVE_GENERATOR * k).into() };
    let g2 = |k: Fr| -> G2Affine { (G2Affine::ADDITIVE_GENERATOR * k).into() };
    let (al, be, ga, de) = match (c.iter().position(|k| g1(*k) == vk.alpha_g1), c.iter().position(|k| g1(*k) == vk.beta_g1), c.iter().position(|k| g2(*k) == vk.gamma_g2), c.iter().position(|k| g1(*k) == vk.delta_g1)) {
        (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
        _ => return Ok(None),
    };
    let di = c[de].invert().ok_or("delta is zero")?;
    let h0 = match pr.params.h.first() { Some(h) => *h, None => return Err("the key has no powers of tau".into()) };
    let ta = c.iter().position(|t| { let mut z = *t; for _ in 0..nn.trailing_zeros() { z = z.square(); } g1((z - Fr::one()) * di) == h0 });
    let ta = match ta { Some(t) => t, None => return Ok(None) };
    let i = [al, be, ga, de, ta];
    for a in 0..5 { for b in 0..a { ensure!(c[i[a]] != c[i[b]], "two of the secrets alpha, beta, gamma, delta, tau are equal (positions {} and {} of alpha..tau)", b, a); } }
    let v = |k: usize| c[k].val();
    Ok(Some(Secrets { al: v(al)?, be: v(be)?, ga: v(ga)?, de: v(de)?, ta: v(ta)? }))
}
pub fn c18(s: &mut Suite) {
    s.rule("a circuit counts as non-trivial when it has at least two constraints, a public input and a witness that occur in them");
    s.assume("the secrets are recovered by replaying the seeded random source given to setup; if they cannot be, the pairing relations that need no secrets are checked instead (class 'secrets not recovered')");
    let (e1, e2) = (Env::<G1>::new(), Env::<G2>::new());
    s.check("keys", n(1300, 30_000).shrink(60), || (prog(), any::<u64>()), move |(p, seed): &(Prog, u64), case| {
        let sy = system(p, Mode::Zero);
        classes(&sy, case);
        let (pr, _) = setup(p, *seed)?;
        let pa = &pr.params;
        let (l, w) = (sy.l, sy.z.len() - sy.l);
        let nn = sy.rows.len().max(2).next_power_of_two();
        case.nontrivial_if(sy.rows.len() > 1 && l > 1 && w > 0 && constrained(&sy) > 2);
        ensure_eq!(pa.vk.ic.len(), l, "number of input elements");
        ensure_eq!((pa.a.len(), pa.b_g1.len(), pa.b_g2.len()), (l + w, l + w, l + w), "number of per-wire elements");
        ensure_eq!(pa.l.len(), w, "number of witness elements");
        ensure!(pa.h.len() + 1 >= nn, "{} powers of the secret point for a domain of {}", pa.h.len(), nn);
        for (n, id) in [("alpha", pa.vk.alpha_g1.is_identity()), ("beta", pa.vk.beta_g1.is_identity()), ("gamma", pa.vk.gamma_g2.is_identity()), ("delta", pa.vk.delta_g1.is_identity())] { ensure!(!id, "{} is zero", n); }
        let sc = match recover(&pr, *seed, nn)? {
            Some(s) => s,
            None => {
                case.class("secrets not recovered");
                use bn_254::{AteParing, G2PairingAffine};
                let e = |p: G1Affine, q: G2Affine| AteParing::multi_miller_loop(&[(p, G2PairingAffine::from(q))]).final_exp();
                let (g, h) = (G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR);
                ensure!(e(pa.vk.beta_g1, h) == e(g, pa.vk.beta_g2) && e(pa.vk.delta_g1, h) == e(g, pa.vk.delta_g2), "the two halves of beta or delta differ");
                for i in 0..l + w { ensure!(e(pa.b_g1[i], h) == e(g, pa.b_g2[i]), "the two B elements of wire {} differ", i); }
                return Ok(());
            }
        };
        case.class("secrets recovered");
        // Lagrange values at tau from their closed form, with the root of unity of the library's domain
        let f = gv::fft::<Fr>(nn.trailing_zeros() as usize);
        let omega = gv::dft(&f, gv::Coefficients(vec![Fr::zero(), Fr::one()])).0[1].val()?;
        let nf = Rr::small(nn as u64);
        let zt = sc.ta.pow(&BigUint::from(nn as u64)).sub(&Rr::one());
        let mut wj = Rr::one();
        let lag: Vec<Rr> = (0..sy.rows.len()).map(|_| { let v = wj.mul(&zt).mul(&nf.mul(&sc.ta.sub(&wj)).inv().unwrap()); wj = wj.mul(&omega); v }).collect();
        let mut cols = vec![[Rr::zero(), Rr::zero(), Rr::zero()]; l + w];
        for (j, r) in sy.rows.iter().enumerate() { for k in 0..3 { for (i, c) in &r[k] { cols[*i][k] = cols[*i][k].add(&c.val()?.mul(&lag[j])); } } }
        let (gi, di) = (sc.ga.inv().unwrap(), sc.de.inv().unwrap());
        is_a::<G1>(pa.vk.alpha_g1, &e1.mul(&sc.al.0), "alpha in G1")?;
        is_a::<G1>(pa.vk.beta_g1, &e1.mul(&sc.be.0), "beta in G1")?;
        is_a::<G2>(pa.vk.beta_g2, &e2.mul(&sc.be.0), "beta in G2")?;
        is_a::<G2>(pa.vk.gamma_g2, &e2.mul(&sc.ga.0), "gamma in G2")?;
        is_a::<G1>(pa.vk.delta_g1, &e1.mul(&sc.de.0), "delta in G1")?;
        is_a::<G2>(pa.vk.delta_g2, &e2.mul(&sc.de.0), "delta in G2")?;
        for (i, [u, v, c]) in cols.iter().enumerate() {
            is_a::<G1>(pa.a[i], &e1.mul(&u.0), &format!("A element of wire {}", i))?;
            is_a::<G1>(pa.b_g1[i], &e1.mul(&v.0), &format!("B element of wire {} in G1", i))?;
            is_a::<G2>(pa.b_g2[i], &e2.mul(&v.0), &format!("B element of wire {} in G2", i))?;
            let k = sc.be.mul(u).add(&sc.al.mul(v)).add(c);
            if i < l { is_a::<G1>(pa.vk.ic[i], &e1.mul(&k.mul(&gi).0), &format!("input element {}", i))?; }
            else { is_a::<G1>(pa.l[i - l], &e1.mul(&k.mul(&di).0), &format!("witness element {}", i - l))?; }
        }
        let mut t = zt.mul(&di);
        for (i, h) in pa.h.iter().enumerate() { is_a::<G1>(*h, &e1.mul(&t.0), &format!("power {} of the secret point", i))?; t = t.mul(&sc.ta); }
        Ok(())
    });
    // keys from different randomness share nothing
    s.check("fresh", n(80, 2000).shrink(20), || (prog(), any::<u64>()), |(p, seed): &(Prog, u64), case| {
        let (a, _) = setup(p, *seed)?;
        let (b, _) = setup(p, seed.wrapping_add(1))?;
        case.nontrivial();
        let (a, b) = (&a.params, &b.params);
        ensure!(a.vk.alpha_g1 != b.vk.alpha_g1 && a.vk.beta_g2 != b.vk.beta_g2 && a.vk.gamma_g2 != b.vk.gamma_g2 && a.vk.delta_g1 != b.vk.delta_g1 && a.h[0] != b.h[0], "keys made from different randomness share a secret");
        Ok(())
    });
}

// ---------------------------------------------------------------- zero knowledge
pub fn c26(s: &mut Suite) {
    s.rule("every case is non-trivial: two proofs of one statement");
    s.check("blinding", n(1200, 30_000).shrink(60), || (prog(), any::<u64>(), any::<u64>(), any::<bool>()), |(p, s1, s2, shared): &(Prog, u64, u64, bool), case| {
        use bn_254::{AteParing, G2PairingAffine};
        let (mut pr, _) = setup(p, *s1)?;
        case.nontrivial();
        case.class(if *shared { "two proofs from one random source" } else { "proofs from different seeds" });
        let pf: Vec<_> = if *shared {
            let mut r = Rng(*s2);
            (0..2).map(|_| pr.create_proof(&mut r, Ci::new(p, Mode::Honest)).map(|p| gv::elements(&p))).collect::<Result<_, _>>().map_err(|e| format!("{:?}", e))?
        } else { vec![gv::elements(&prove(&mut pr, p, Mode::Honest, *s2)?), gv::elements(&prove(&mut pr, p, Mode::Honest, s2.wrapping_add(1))?)] };
        let ((a1, b1, c1), (a2, b2, c2)) = (pf[0], pf[1]);
        ensure!(a1 != a2, "the A elements of two proofs of one statement are equal: not blinded");
        ensure!(b1 != b2, "the B elements of two proofs of one statement are equal: not blinded");
        ensure!(c1 != c2, "the C elements of two proofs of one statement are equal: not blinded");
        // unblinded values: what A, B, C would be without randomness
        let pa = &pr.params;
        let sy = system(p, Mode::Honest);
        let ua = sy.z.iter().zip(&pa.a).fold(pa.vk.alpha_g1.to_extended(), |s, (z, q)| s + *q * *z);
        let ub = sy.z.iter().zip(&pa.b_g2).fold(pa.vk.beta_g2.to_extended(), |s, (z, q)| s + *q * *z);
        for (k, (a, b, _)) in pf.iter().enumerate() {
            ensure!(*a != ua.into(), "the A element of proof {} is the unblinded one", k);
            ensure!(*b != ub.into(), "the B element of proof {} is the unblinded one", k);
        }
        // the two blinding factors are not related: e(rd, d) against e(d, sd)
        let e = |p: G1Affine, q: G2Affine| AteParing::multi_miller_loop(&[(p, G2PairingAffine::from(q))]).final_exp();
        for (k, (a, b, _)) in pf.iter().enumerate() {
            let (ra, sb): (G1Affine, G2Affine) = ((a.to_extended() - ua).into(), (b.to_extended() - ub).into());
            let (x, y) = (e(ra, pa.vk.delta_g2), e(pa.vk.delta_g1, sb));
            ensure!(x != y, "proof {} blinds A and B with the same factor", k);
            ensure!(e(-ra, pa.vk.delta_g2) != y, "proof {} blinds A and B with opposite factors", k);
        }
        // ... and fresh for every proof
        let d: G1Affine = (a1.to_extended() - a2.to_extended()).into();
        let f: G2Affine = (b1.to_extended() - b2.to_extended()).into();
        ensure!(e(d, pa.vk.delta_g2) != e(pa.vk.delta_g1, f), "the blinding factors of A and B move together");
        Ok(())
    });
}
