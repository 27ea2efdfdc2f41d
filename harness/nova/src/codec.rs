//! C25: structured encodings.
use crate::cv::*;
use crate::el::*;
use crate::fold::*;
use crate::nv::*;
use crate::recursion::*;
use crate::sys::{Bn, Dr, Gk};
use bn_254::{AteParing, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine, G2PairingAffine};
use parity_scale_codec::{Error, Input};
use std::fmt::Debug;
use vk::refs::*;
use vk::*;
use zknova::{verif as nv, PedersenCommitment, Prover, R1csShape, Verifier};
use zkstd::circuit::prelude::*;
use zkstd::common::{BNAffine, BNProjective, CurveGroup, Decode, Encode, Group, IntGroup, Ring};
use zkstd::matrix::{DenseVectors, SparseRow};
use zkstd::r1cs::verif::Wire;

/// A source that does not know how much is left.
struct Stream<'a>(&'a [u8]);
impl<'a> Input for Stream<'a> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> { Ok(None) }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.0.len() { return Err("end of stream".into()); }
        let (a, b) = self.0.split_at(into.len());
        into.copy_from_slice(a);
        self.0 = b;
        Ok(())
    }
}
/// Encodes, decodes (alone, before other bytes, from a stream, twice in a row) and truncates.
pub fn trip<T: Encode + Decode + PartialEq>(v: &T, what: &str, seed: u64, cuts: usize) -> Result<T, String> {
    let mut s = seed;
    let e = v.encode();
    ensure!(v.encode() == e, "{}: two encodings differ", what);
    ensure_eq!(v.encoded_size(), e.len(), "{}: announced size", what);
    let mut w = vec![7u8];
    v.encode_to(&mut w);
    ensure!(w[1..] == e[..], "{}: encode_to differs from encode", what);
    let tail: Vec<u8> = (0..splitmix(&mut s) % 40).map(|_| splitmix(&mut s) as u8).collect();
    let all = [&e[..], &tail[..]].concat();
    let mut i = &all[..];
    let d = T::decode(&mut i).map_err(|x| format!("{}: its own encoding is rejected: {}", what, x))?;
    ensure!(i == &tail[..], "{}: decoding {} bytes consumed {}", what, e.len(), all.len() - i.len());
    ensure!(d == *v, "{}: decoded object differs", what);
    ensure!(d.encode() == e, "{}: the decoded object encodes differently", what);
    let twice = [&e[..], &e[..]].concat();
    let mut st = Stream(&twice);
    for _ in 0..2 { let d = T::decode(&mut st).map_err(|x| format!("{}: its own encoding is rejected from a stream: {}", what, x))?; ensure!(d == *v, "{}: object decoded from a stream differs", what); }
    ensure!(st.0.is_empty(), "{}: {} bytes left in the stream", what, st.0.len());
    let at: Vec<usize> = if e.len() <= cuts { (0..e.len()).collect() } else { (0..cuts).map(|k| match k { 0 => 0, 1 => e.len() - 1, 2 => 1, _ => splitmix(&mut s) as usize % e.len() }).collect() };
    for n in at {
        ensure!(T::decode(&mut &e[..n]).is_err(), "{}: {} of {} bytes are accepted", what, n, e.len());
        ensure!(T::decode(&mut Stream(&e[..n])).is_err(), "{}: {} of {} bytes are accepted from a stream", what, n, e.len());
    }
    Ok(d)
}
fn elements<T: El + Encode + Decode>(s: &mut Suite, g: impl Fn() -> BoxedStrategy<T::Ref> + Send + Sync + 'static) where T::Ref: Clone + Debug + PartialEq {
    s.check(&format!("elements/{}", T::NAME), n(600, 60_000), move || (g(), any::<u64>()), |(v, seed), case| {
        let x = T::mk(v);
        let d = trip(&x, T::NAME, *seed, 400)?;
        ensure!(d.val()? == *v, "decoded {} denotes another element", T::NAME);
        case.nontrivial();
        let l = vec![x; (*seed % 5) as usize];
        trip(&DenseVectorsOf(l).0, "vector", *seed, 200)?;
        Ok(())
    });
}
struct DenseVectorsOf<T>(Vec<T>);
fn aff_rep<C: Cv>(p: &Pt<CRef<C>>, flip: bool) -> C::A { let a = aff::<C>(p); if p.is_none() && flip { -a } else { a } }
fn points<C: Cv>(s: &mut Suite) {
    s.check(&format!("points/{}", C::NAME), n(600, 40_000), || (ps::<C>(), any::<bool>(), scale::<C>(), any::<u64>()), |(p, flip, z, seed), case| {
        let r = point::<C>(p);
        let (a, q) = (aff_rep::<C>(&r, *flip), proj::<C>(&r, z));
        case.nontrivial_if(r.is_some());
        case.class_if(r.is_none(), "identity");
        let d = trip(&a, "affine point", *seed, 300)?;
        is_a::<C>(d, &r, "decoded affine point")?;
        is_a::<C>((d.to_extended() + d).into(), &pt_add(&r, &r), "decoded affine point doubled")?;
        let d = trip(&q, "projective point", *seed, 300)?;
        is_p::<C>(d, &r, "decoded projective point")?;
        is_a::<C>((d + q).into(), &pt_add(&r, &r), "decoded projective point doubled")
    });
}
fn wire() -> BoxedStrategy<Wire> {
    let ix = prop_oneof![3 => 0u64..70, 1 => 16_380u64..16_390, 1 => (1u64 << 30) - 2..(1 << 30) + 2, 1 => u64::from(u32::MAX) - 1..u64::from(u32::MAX) + 3, 1 => any::<u64>(), 1 => Just(u64::MAX)];
    (any::<bool>(), ix).prop_map(|(w, i)| if w { Wire::Witness(i) } else { Wire::Instance(i) }).boxed()
}
fn sample_pts(n: usize, seed: &mut u64) -> Vec<usize> { (0..n).map(|_| match splitmix(seed) % 6 { 0 => 0, k => (splitmix(seed) % (2 + 30 * k)) as usize }).collect() }
fn parts<D: Keyed>(s: &mut Suite) {
    let nm = |t: &str| format!("{}/{}", t, D::NAME);
    s.check(&nm("rows"), n(600, 40_000).shrink(60), || (prop::collection::vec((wire(), D::int()), 0..9), prop::collection::vec(D::int(), 0..70), any::<u64>()), |(t, v, seed), case| {
        for (w, _) in t { trip(w, &format!("wire {:?}", w), *seed, 20)?; }
        let r = SparseRow::<D::F>::new(t.iter().map(|(w, c)| (*w, D::fe(c))).collect());
        case.nontrivial_if(r.num_terms() > 0);
        let d = trip(&r, "row", *seed, 120)?;
        ensure_eq!(d.num_terms(), r.num_terms(), "terms of a decoded row");
        let dv = DenseVectors::new(v.iter().map(D::fe).collect::<Vec<D::F>>());
        let d = trip(&dv, "vector", *seed, 100)?;
        ensure_eq!(d.len(), v.len(), "length of a decoded vector");
        ensure!(d.iter().zip(v).all(|(a, b)| a == D::fe(b)), "entries of a decoded vector");
        Ok(())
    });
    s.check(&nm("shapes"), n(300, 12_000).shrink(60), || (prog::<D>(None, 10), prop::collection::vec(D::nint(), 0..6), any::<u64>()), |(p, inp, seed), case| {
        let mut sd = *seed;
        let c = Circ::<D::N>::of(p);
        let (x, w) = c.solve(inp);
        let cs = c.build::<D>(&x, &w);
        let shape: R1csShape<D::O> = R1csShape::from(cs.clone());
        case.nontrivial_if(!c.rows.is_empty());
        let d = trip(&shape, "circuit shape", sd, 60)?;
        ensure!(d.m() == shape.m() && d.l() == shape.l() && d.m_l_1() == shape.m_l_1(), "sizes of a decoded shape");
        let (a, b, cc) = shape.matrices();
        for (m, what) in [(&a, "first"), (&b, "second"), (&cc, "third")] { trip(m, &format!("{} matrix", what), sd, 40)?; }
        // a key, some of its points the identity
        let idx = sample_pts(20 + c.rows.len() + c.nw, &mut sd);
        let key: PedersenCommitment<D::A> = key_of::<D>(idx.iter().map(|i| lib::<D>(&pt::<D>(*i))).collect());
        let dk = trip(&key, "commitment key", sd, 40)?;
        let ws = scs::<D>(&w);
        ensure!(D::commit_with(&dk, &ws) == D::commit_with(&key, &ws), "a decoded key commits differently");
        // pairs behave alike
        let (u, wi) = nv::instance_and_witness(&cs, &shape, &key);
        let (du, dw) = (trip(&u, "instance", sd, 60)?, trip(&wi, "witness", sd, 60)?);
        ensure!(d.is_sat(&dk, &du, &dw), "decoded shape and key refuse a decoded satisfying pair");
        let mut bad = ws.clone();
        if !bad.is_empty() { let k = splitmix(&mut sd) as usize % bad.len(); bad[k] += D::S::one(); }
        let (bi, bw) = (nv::instance::<D::O>(D::commit_with(&key, &bad), scs::<D>(&x)), nv::witness::<D::O>(bad));
        ensure_eq!(d.is_sat(&dk, &bi, &bw), shape.is_sat(&key, &bi, &bw), "verdict of a decoded shape on an altered pair");
        // folding through decoded objects
        let (ru, rw) = (nv::RelaxedR1csInstance::<D::O>::from_r1cs_instance(&key, &shape, &u), nv::RelaxedR1csWitness::<D::O>::from_r1cs_witness(&shape, &wi));
        let (dru, drw) = (trip(&ru, "relaxed instance", sd, 60)?, trip(&rw, "relaxed witness", sd, 60)?);
        let _ = (Prover::new(d.clone(), dk), Verifier::<D::O>::verify);
        ensure_eq!(d.is_sat_relaxed(&dru, &drw), shape.is_sat_relaxed(&ru, &rw), "verdict of a decoded shape on a relaxed pair");
        Ok(())
    });
}
#[derive(Clone, Debug)]
struct Loose { i: u64, lens: Vec<u8>, vals: Vec<BigUint>, pts: Vec<usize>, seed: u64 }
fn loose() -> BoxedStrategy<Loose> {
    let i = prop_oneof![2 => 0u64..9, 1 => 60u64..70, 1 => (1u64 << 14) - 1..(1 << 14) + 2, 1 => (1u64 << 30) - 1..(1 << 30) + 2, 1 => u64::from(u32::MAX) - 1..u64::from(u32::MAX) + 3, 1 => any::<u64>(), 1 => Just(u64::MAX)];
    (i, prop::collection::vec(0u8..6, 12), prop::collection::vec(vk::gen::int_mod(&R_MOD, 254), 1..8), prop::collection::vec(pt_ix(), 5), any::<u64>())
        .prop_map(|(i, lens, vals, pts, seed)| Loose { i, lens, vals, pts, seed }).boxed()
}
impl Loose {
    fn v<F: El>(&self, k: usize, mk: impl Fn(&BigUint) -> F) -> Vec<F> { (0..self.lens[k] as usize).map(|j| mk(&self.vals[(j * 3 + k) % self.vals.len()])).collect() }
    fn proof(&self) -> Proof {
        let (fr, fq) = (|v: &BigUint| <Bn as Dr>::fe(v), |v: &BigUint| <Gk as Dr>::fe(v));
        let (p1, p2) = (|k: usize| lib::<Gk>(&pt::<Gk>(self.pts[k])), |k: usize| lib::<Bn>(&pt::<Bn>(self.pts[k])));
        nv::proof(nv::ProofParts::<E1, E2> {
            i: self.i, z0_primary: self.v(0, fr), z0_secondary: self.v(1, fq), zi_primary: self.v(2, fr), zi_secondary: self.v(3, fq),
            single_secondary: (nv::instance(p2(0), self.v(4, fq)), nv::witness(self.v(5, fq))),
            range_primary: (nv::relaxed_instance(p1(1), p1(2), fr(&self.vals[0]), self.v(6, fr)), nv::relaxed_witness(self.v(7, fr), self.v(8, fr))),
            range_secondary: (nv::relaxed_instance(p2(3), p2(4), fq(&self.vals[0]), self.v(9, fq)), nv::relaxed_witness(self.v(10, fq), self.v(11, fq))),
        })
    }
}
fn same_parts(a: &Proof, b: &Proof) -> R {
    let (a, b) = (nv::proof_parts(a), nv::proof_parts(b));
    ensure_eq!(b.i, a.i, "step counter of a decoded proof");
    ensure!(a.z0_primary == b.z0_primary && a.z0_secondary == b.z0_secondary, "initial states of a decoded proof");
    ensure!(a.zi_primary == b.zi_primary && a.zi_secondary == b.zi_secondary, "current states of a decoded proof");
    ensure!(a.single_secondary == b.single_secondary, "plain pair of a decoded proof");
    ensure!(a.range_primary == b.range_primary && a.range_secondary == b.range_secondary, "running pairs of a decoded proof");
    Ok(())
}
pub struct Real { pub f: (Step, Step), pub pp: PP, pub proofs: Vec<Proof> }
lazy_static::lazy_static! {
    static ref REAL: Real = {
        let f = (Step::Poly(vec![BigUint::from(3u32), BigUint::zero(), BigUint::one()]), Step::Poly(vec![BigUint::one(), BigUint::from(2u32)]));
        program(&f.0, &f.1);
        let pp = params().expect("parameters");
        let mut c = Chain::init(&pp, DenseVectors::new(vec![Fr::from(2u64)]), DenseVectors::new(vec![Fq::from(5u64)]));
        let proofs = (0..2).map(|_| c.prove_step(&pp)).collect();
        Real { f, pp, proofs }
    };
}
pub fn c25(s: &mut Suite) {
    s.rule("identities, empty rows and circuits without rows count as trivial; all other objects as non-trivial; every case truncates its encodings (everywhere when short, else at the ends and at random positions)");
    s.assume("objects built by the library or from reduced field elements; encodings that no object has (unreduced limbs, points off the curve) are outside the property");
    elements::<Fr>(s, || vk::gen::int_mod(&R_MOD, 256).prop_map(|v| rr(&v)).boxed());
    elements::<Fq>(s, || vk::gen::int_mod(&Q_MOD, 256).prop_map(|v| rq(&v)).boxed());
    let q2 = || (vk::gen::int_mod(&Q_MOD, 256), vk::gen::int_mod(&Q_MOD, 256)).prop_map(|(a, b)| Rq2(rq(&a), rq(&b)));
    elements::<Fq2>(s, move || q2().boxed());
    elements::<Fq6>(s, move || prop::collection::vec(q2(), 3).prop_map(|v| { let mut r = Rq6::zero(); for (i, x) in v.into_iter().enumerate() { r.0[i] = x; } r }).boxed());
    elements::<Fq12>(s, move || prop::collection::vec(q2(), 6).prop_map(|v| { let mut r = Rq12::zero(); for (i, x) in v.into_iter().enumerate() { r.0[i] = x; } r }).boxed());
    points::<G1>(s);
    points::<G2>(s);
    points::<crate::cv::Gk>(s);
    s.check("pairing_points", n(40, 1200).shrink(6), || (ps::<G2>(), ps::<G1>(), any::<u64>()), |(q, p, seed), case| {
        let (q, p): (G2Affine, G1Affine) = (aff_rep::<G2>(&point::<G2>(q), false), aff_rep::<G1>(&point::<G1>(p), false));
        let t = G2PairingAffine::from(q);
        case.nontrivial_if(!q.is_identity());
        let d = trip(&t, "pairing form of a point", *seed, 60)?;
        ensure!(AteParing::multi_miller_loop(&[(p, d)]) == AteParing::multi_miller_loop(&[(p, t)]), "a decoded pairing form pairs differently");
        Ok(())
    });
    parts::<Gk>(s);
    parts::<Bn>(s);
    s.check("proofs", n(500, 20_000).shrink(60), loose, |l, case| {
        let p = l.proof();
        case.nontrivial();
        case.class_if(l.i > u32::MAX as u64, "counter above 32 bits");
        case.class_if(l.pts.iter().any(|i| *i == 0), "identity commitment");
        same_parts(&p, &trip(&p, "recursive proof", l.seed, 120)?)
    });
    s.check("parameters", n(120, 5000).shrink(30), || (prog::<Gk>(None, 6), prog::<Bn>(None, 6), any::<u64>()), |(a, b, seed), case| {
        let mut sd = *seed;
        let (ca, cb) = (Circ::<MR>::of(a), Circ::<MQ>::of(b));
        let z = [BigUint::from(2u32)];
        let ((xa, wa), (xb, wb)) = (ca.solve(&z), cb.solve(&z));
        let (sa, sb): (R1csShape<E1>, R1csShape<E2>) = (R1csShape::from(ca.build::<Gk>(&xa, &wa)), R1csShape::from(cb.build::<Bn>(&xb, &wb)));
        let ka = key_of::<Gk>(sample_pts(1 + (seed % 9) as usize, &mut sd).iter().map(|i| lib::<Gk>(&pt::<Gk>(*i))).collect());
        let kb = key_of::<Bn>(sample_pts(1 + (seed % 7) as usize, &mut sd).iter().map(|i| lib::<Bn>(&pt::<Bn>(*i))).collect());
        case.nontrivial();
        let pp = PP::decode(&mut &[sa.encode(), sb.encode(), ka.encode(), kb.encode()].concat()[..]).map_err(|e| format!("parameters do not decode from their parts: {}", e))?;
        ensure!(pp.r1cs_shape_primary == sa && pp.r1cs_shape_secondary == sb && pp.ck_primary == ka && pp.ck_secondary == kb, "parameters decoded from their parts");
        let d = trip(&pp, "public parameters", sd, 80)?;
        ensure!(d.r1cs_shape_primary == sa && d.r1cs_shape_secondary == sb && d.ck_primary == ka && d.ck_secondary == kb, "parts of decoded parameters");
        Ok(())
    });
    s.check("recursion", n(3, 20).shrink(0), || (0usize..2, any::<u64>()), |(k, seed), case| {
        let r = &*REAL;
        let (p, pp) = (&r.proofs[*k], &r.pp);
        case.nontrivial();
        let (dp, dpp) = (trip(p, "recursive proof", *seed, 60)?, trip(pp, "public parameters", *seed, 6)?);
        same_parts(p, &dp)?;
        ensure!(p.verify(pp), "the honest proof is rejected");
        ensure!(dp.verify(&dpp), "a decoded proof is rejected under decoded parameters");
        let mut q = nv::proof_parts(&dp);
        q.zi_primary[0] += Fr::one();
        ensure!(!nv::proof::<E1, E2, Fun<Fr>, Fun<Fq>>(q).verify(&dpp), "an altered proof is accepted under decoded parameters");
        // a chain proved under decoded parameters gives the same proof
        if *k == 0 {
            program(&r.f.0, &r.f.1);
            let mut c = Chain::init(&dpp, DenseVectors::new(vec![Fr::from(2u64)]), DenseVectors::new(vec![Fq::from(5u64)]));
            let n = c.prove_step(&dpp);
            ensure!(n == *p, "a chain proved under decoded parameters gives another proof");
        }
        Ok(())
    });
}
