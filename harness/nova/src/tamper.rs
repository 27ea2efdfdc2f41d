//! C24: altered recursive proofs.
use crate::fold::{ints, scs};
use crate::nv::*;
use crate::recursion::*;
use crate::sys::{Bn, Dr, Gk};
use bn_254::{Fq, Fr};
use vk::refs::*;
use vk::*;
use zknova::verif as nv;
use zkstd::common::{CurveGroup, Decode, Encode, IntGroup, PrimeField, Ring};
use zkstd::matrix::DenseVectors;

pub struct Base { pub pp: PP, pub proofs: Vec<Proof>, pub others: Vec<Proof>, pub keys: Vec<PP>, pub shapes: Vec<PP> }
fn run(pp: &PP, z: (u64, u64), k: usize) -> Vec<Proof> {
    let mut c = Chain::init(pp, DenseVectors::new(vec![Fr::from(z.0)]), DenseVectors::new(vec![Fq::from(z.1)]));
    (0..k).map(|_| c.prove_step(pp)).collect()
}
pub fn main_program() -> (Step, Step) {
    let b = |v: u64| BigUint::from(v);
    (Step::Poly(vec![b(5), b(1), b(0), b(1)]), Step::If(b(9), b(3), b(2)))
}
fn with_keys(pp: &PP, a: &[u8], b: &[u8]) -> PP { PP::decode(&mut &[pp.r1cs_shape_primary.encode(), pp.r1cs_shape_secondary.encode(), a.to_vec(), b.to_vec()].concat()[..]).expect("parameters") }
lazy_static::lazy_static! {
    pub static ref BASE: Base = {
        let (f, g) = main_program();
        program(&f, &g);
        let pp = params().expect("parameters");
        let go = |z: (u64, u64), k: usize| { let pp = &pp; let (f, g) = (&f, &g); move || { program(f, g); run(pp, z, k) } };
        let (proofs, others) = std::thread::scope(|s| {
            let h = s.spawn(go((3, 7), 3));
            let o = s.spawn(go((4, 7), 3));
            (h.join().unwrap(), o.join().unwrap())
        });
        let (a, b) = (pp.ck_primary.encode(), pp.ck_secondary.encode());
        let rev = |e: &[u8], l: usize| { let n = (e.len() - l) / crate::recursion::KEY; let mut v = e[..l].to_vec(); for c in e[l..].chunks(n).rev() { v.extend_from_slice(c); } v };
        let head = parity_scale_codec::Compact(crate::recursion::KEY as u32).encode().len();
        let keys = vec![with_keys(&pp, &rev(&a, head), &b), with_keys(&pp, &a, &rev(&b, head))];
        let shapes = [(Step::Poly(vec![BigUint::from(6u32), BigUint::one(), BigUint::zero(), BigUint::one()]), g.clone()), (f.clone(), Step::If(BigUint::from(9u32), BigUint::from(3u32), BigUint::from(1u32))), (Step::Same, Step::Half)]
            .iter().map(|(f, g)| { program(f, g); params().expect("parameters") }).collect();
        Base { pp, proofs, others, keys, shapes }
    };
}
#[derive(Clone, Debug)]
enum Pair { Single, Primary, Secondary }
#[derive(Clone, Debug)]
enum Mut {
    I(u64), Z0(bool, BigUint), Zi(bool, BigUint), ZLen(u8, bool),
    X(Pair, u8, BigUint), W(Pair, u32, BigUint), E(bool, u32, BigUint), U(bool, BigUint),
    CommitW(Pair, usize), CommitE(bool, usize), NegW(Pair), NegE(bool), SwapCommits(bool),
    /// lengthen or shorten x, w or e
    Len(Pair, u8, bool),
    /// change a witness entry (or the scalar) and make the error vector compensate; also with fresh commitments
    Compensate(bool, u32, BigUint, bool),
    /// take a part from another proof
    Mix(u8, bool, u8),
    SwapX(Pair),
}
fn pair() -> BoxedStrategy<Pair> { prop_oneof![Just(Pair::Single), Just(Pair::Primary), Just(Pair::Secondary)].boxed() }
fn muts() -> BoxedStrategy<Mut> {
    let d = || prop_oneof![2 => Just(BigUint::one()), 1 => Just(BigUint::one() << 252u32), 3 => vk::gen::int_mod(&R_MOD, 254)];
    let k = || prop_oneof![1 => 0u32..8, 4 => any::<u32>(), 1 => Just(u32::MAX)];
    let b = any::<bool>;
    prop_oneof![
        3 => prop_oneof![Just(1u64), Just(u64::MAX), any::<u64>()].prop_map(Mut::I),
        2 => (b(), d()).prop_map(|(p, d)| Mut::Z0(p, d)), 2 => (b(), d()).prop_map(|(p, d)| Mut::Zi(p, d)), 2 => (0u8..4, b()).prop_map(|(k, l)| Mut::ZLen(k, l)),
        4 => (pair(), any::<u8>(), d()).prop_map(|(p, i, d)| Mut::X(p, i, d)), 5 => (pair(), k(), d()).prop_map(|(p, i, d)| Mut::W(p, i, d)),
        4 => (b(), k(), d()).prop_map(|(p, i, d)| Mut::E(p, i, d)), 2 => (b(), d()).prop_map(|(p, d)| Mut::U(p, d)),
        3 => (pair(), pt_ix()).prop_map(|(p, i)| Mut::CommitW(p, i)), 2 => (b(), pt_ix()).prop_map(|(p, i)| Mut::CommitE(p, i)),
        1 => pair().prop_map(Mut::NegW), 1 => b().prop_map(Mut::NegE), 1 => b().prop_map(Mut::SwapCommits),
        4 => (pair(), 0u8..3, b()).prop_map(|(p, k, l)| Mut::Len(p, k, l)),
        6 => (b(), k(), d(), prop::bool::weighted(0.3)).prop_map(|(p, k, d, r)| Mut::Compensate(p, k, d, r)),
        4 => (0u8..12, b(), any::<u8>()).prop_map(|(k, o, n)| Mut::Mix(k, o, n)), 1 => pair().prop_map(Mut::SwapX),
    ].boxed()
}
fn index(k: u32, n: usize) -> usize { if k == u32::MAX { n - 1 } else { k as usize % n } }
fn bump<F: PrimeField>(v: &mut Vec<F>, k: u32, d: F) { if !v.is_empty() { let i = index(k, v.len()); v[i] += d; } }
fn resize<F: PrimeField>(v: &mut Vec<F>, longer: bool) { if longer { v.push(F::zero()) } else { v.pop(); } }
type RPair<D> = (nv::RelaxedR1csInstance<<D as Nv>::O>, nv::RelaxedR1csWitness<<D as Nv>::O>);
struct Parts<D: Nv> { cw: D::A, ce: D::A, u: D::S, x: Vec<D::S>, w: Vec<D::S>, e: Vec<D::S> }
fn parts<D: Nv>(p: &RPair<D>) -> Parts<D> { let (cw, ce, u, x) = nv::relaxed_instance_parts(&p.0); let (w, e) = nv::relaxed_witness_parts(&p.1); Parts { cw, ce, u, x, w, e } }
fn join<D: Nv>(p: Parts<D>) -> RPair<D> { (nv::relaxed_instance(p.cw, p.ce, p.u, p.x), nv::relaxed_witness(p.w, p.e)) }
macro_rules! relaxed { ($q:expr, $primary:expr, |$p:ident, $ty:ident, $shape:ident, $ck:ident| $body:expr) => {
    if $primary { type $ty = Gk; let $shape = &BASE.pp.r1cs_shape_primary; let $ck = &BASE.pp.ck_primary; let _ = ($shape, $ck); let mut $p = parts::<Gk>(&$q.range_primary); $body; $q.range_primary = join::<Gk>($p); }
    else { type $ty = Bn; let $shape = &BASE.pp.r1cs_shape_secondary; let $ck = &BASE.pp.ck_secondary; let _ = ($shape, $ck); let mut $p = parts::<Bn>(&$q.range_secondary); $body; $q.range_secondary = join::<Bn>($p); }
} }
fn apply(q: &mut nv::ProofParts<E1, E2>, m: &Mut, other: &dyn Fn(bool, u8) -> Proof) {
    let prim = |p: &Pair| matches!(p, Pair::Primary);
    let single = |q: &mut nv::ProofParts<E1, E2>, f: &dyn Fn(&mut grumpkin::Affine, &mut Vec<Fq>, &mut Vec<Fq>)| {
        let (mut c, mut x) = nv::instance_parts(&q.single_secondary.0);
        let mut w = q.single_secondary.1.w.get();
        f(&mut c, &mut x, &mut w);
        q.single_secondary = (nv::instance(c, x), nv::witness(w));
    };
    match m {
        Mut::I(d) => q.i = q.i.wrapping_add(*d),
        Mut::Z0(p, d) => if *p { bump(&mut q.z0_primary, 0, <Bn as Dr>::fe(d)) } else { bump(&mut q.z0_secondary, 0, <Gk as Dr>::fe(d)) },
        Mut::Zi(p, d) => if *p { bump(&mut q.zi_primary, 0, <Bn as Dr>::fe(d)) } else { bump(&mut q.zi_secondary, 0, <Gk as Dr>::fe(d)) },
        Mut::ZLen(k, l) => match k { 0 => resize(&mut q.z0_primary, *l), 1 => resize(&mut q.z0_secondary, *l), 2 => resize(&mut q.zi_primary, *l), _ => resize(&mut q.zi_secondary, *l) },
        Mut::X(Pair::Single, i, d) => single(q, &|_, x, _| bump(x, *i as u32, <Bn as Nv>::sc(d))),
        Mut::X(p, i, d) => relaxed!(q, prim(p), |v, D, _s, _k| bump(&mut v.x, *i as u32, <D as Nv>::sc(d))),
        Mut::W(Pair::Single, i, d) => single(q, &|_, _, w| bump(w, *i, <Bn as Nv>::sc(d))),
        Mut::W(p, i, d) => relaxed!(q, prim(p), |v, D, _s, _k| bump(&mut v.w, *i, <D as Nv>::sc(d))),
        Mut::E(p, i, d) => relaxed!(q, *p, |v, D, _s, _k| bump(&mut v.e, *i, <D as Nv>::sc(d))),
        Mut::U(p, d) => relaxed!(q, *p, |v, D, _s, _k| v.u += <D as Nv>::sc(d)),
        Mut::CommitW(Pair::Single, i) => single(q, &|c, _, _| *c = lib::<Bn>(&pt::<Bn>(*i))),
        Mut::CommitW(p, i) => relaxed!(q, prim(p), |v, D, _s, _k| v.cw = lib::<D>(&pt::<D>(*i))),
        Mut::CommitE(p, i) => relaxed!(q, *p, |v, D, _s, _k| v.ce = lib::<D>(&pt::<D>(*i))),
        Mut::NegW(Pair::Single) => single(q, &|c, _, _| *c = -*c),
        Mut::NegW(p) => relaxed!(q, prim(p), |v, D, _s, _k| { type _X = D; v.cw = -v.cw }),
        Mut::NegE(p) => relaxed!(q, *p, |v, D, _s, _k| { type _X = D; v.ce = -v.ce }),
        Mut::SwapCommits(p) => relaxed!(q, *p, |v, D, _s, _k| { type _X = D; std::mem::swap(&mut v.cw, &mut v.ce) }),
        Mut::Len(Pair::Single, k, l) => single(q, &|_, x, w| if *k == 0 { resize(x, *l) } else { resize(w, *l) }),
        Mut::Len(p, k, l) => relaxed!(q, prim(p), |v, D, _s, _k| { type _X = D; match k { 0 => resize(&mut v.x, *l), 1 => resize(&mut v.w, *l), _ => resize(&mut v.e, *l) } }),
        Mut::Compensate(p, k, d, recommit) => relaxed!(q, *p, |v, D, shape, ck| {
            if k % 16 == 3 { v.u += <D as Nv>::sc(d) } else { bump(&mut v.w, *k, <D as Nv>::sc(d)) }
            let (a, b, c) = shape.matrices();
            let z = DenseVectors::new([vec![v.u], v.x.clone(), v.w.clone()].concat());
            let f = |m: &zkstd::matrix::SparseMatrix<<D as Nv>::S>| m.prod(shape.m(), v.x.len() + 1, &z).get();
            v.e = f(&a).iter().zip(f(&b)).zip(f(&c)).map(|((a, b), c)| *a * b - c * v.u).collect();
            if *recommit { v.cw = nv::commit(ck, &v.w); v.ce = nv::commit(ck, &v.e); }
        }),
        Mut::Mix(k, o, n) => {
            let r = nv::proof_parts(&other(*o, *n));
            match k {
                0 => q.i = r.i, 1 => q.z0_primary = r.z0_primary, 2 => q.z0_secondary = r.z0_secondary, 3 => q.zi_primary = r.zi_primary, 4 => q.zi_secondary = r.zi_secondary,
                5 => q.single_secondary = r.single_secondary, 6 => q.range_primary = r.range_primary, 7 => q.range_secondary = r.range_secondary,
                8 => q.single_secondary.1 = r.single_secondary.1, 9 => q.range_primary.1 = r.range_primary.1, 10 => q.range_secondary.1 = r.range_secondary.1,
                _ => { q.range_primary = r.range_primary; q.single_secondary = r.single_secondary }
            }
        }
        Mut::SwapX(Pair::Single) => single(q, &|_, x, _| x.reverse()),
        Mut::SwapX(p) => relaxed!(q, prim(p), |v, D, _s, _k| { type _X = D; v.x.reverse() }),
    }
}
pub fn c24(s: &mut Suite) {
    s.rule("a case counts as non-trivial when the altered proof differs from the honest one; each is built from an accepted proof");
    s.assume("proofs of one to three steps of two fixed step functions; other parameters have other keys or other step functions");
    let _ = (ints::<Gk>, scs::<Gk>);
    s.check("altered_proofs", n(220, 6000).shrink(6), || (0usize..3, muts(), prop::option::weighted(0.15, muts())), |(k, m, m2), case| {
        let p = &BASE.proofs[*k];
        let mut q = nv::proof_parts(p);
        let other = |o: bool, n: u8| if o { BASE.others[n as usize % 3].clone() } else { BASE.proofs[n as usize % 3].clone() };
        apply(&mut q, m, &other);
        if let Some(m) = m2 { apply(&mut q, m, &other); }
        let q: Proof = nv::proof(q);
        if q == *p { return Ok(()); }
        // a whole proof replaced by another honest one is honest
        if BASE.proofs.iter().chain(BASE.others.iter()).any(|p| *p == q) { return Ok(()); }
        case.nontrivial();
        case.class_if(matches!(m, Mut::Compensate(..)), "compensated");
        case.class_if(matches!(m, Mut::Mix(..)), "mixed");
        case.class_if(matches!(m, Mut::Len(..) | Mut::ZLen(..)), "length changed");
        ensure!(!q.verify(&BASE.pp), "a proof of {} steps altered by {:?} {:?} is accepted", k + 1, m, m2);
        Ok(())
    });
    s.check("keys_cover_witness", n(1, 2).shrink(0), || any::<u64>(), |seed, case| {
        // every entry of a witness counts in its commitment, also with more wires than constraints
        let w = Step::Wide(75_000);
        program(&w, &w);
        let pp = PP::setup(&mut Rng(*seed));
        case.nontrivial();
        let mut last = vec![Fr::zero(); pp.r1cs_shape_primary.m_l_1() as usize];
        *last.last_mut().unwrap() = Fr::one();
        ensure!(!nv::commit(&pp.ck_primary, &last).is_identity(), "the last of {} primary witness entries does not count in the commitment", last.len());
        let mut last = vec![Fq::zero(); pp.r1cs_shape_secondary.m_l_1() as usize];
        *last.last_mut().unwrap() = Fq::one();
        ensure!(!nv::commit(&pp.ck_secondary, &last).is_identity(), "the last of {} secondary witness entries does not count in the commitment", last.len());
        Ok(())
    });
    s.check("other_parameters", n(10, 30).shrink(0), || (0usize..3, 0usize..5), |(k, j), case| {
        let p = &BASE.proofs[*k];
        ensure!(p.verify(&BASE.pp), "the honest proof of {} steps is rejected", k + 1);
        case.nontrivial();
        let (pp, what) = if *j < 2 { (&BASE.keys[*j], "another key") } else { (&BASE.shapes[*j - 2], "another step function") };
        ensure!(!p.verify(pp), "a proof of {} steps is accepted under parameters with {} ({})", k + 1, what, j);
        Ok(())
    });
}
