//! C21, C22: folding of relaxed instances, and the satisfaction predicates.
use crate::nv::*;
use crate::sys::*;
use std::collections::BTreeMap;
use vk::refs::*;
use vk::*;
use zknova::{verif as nv, PedersenCommitment, Prover, R1csShape, Verifier};
use zkstd::circuit::prelude::*;
use zkstd::common::{BNAffine, Decode, Encode, Group, IntGroup};

type T = Vec<(u8, BigUint)>;
/// A row of a program: it defines a new wire, a public output, repeats an earlier row or is void.
#[derive(Clone, Debug)]
pub enum Row { Def(T, T, T), Out(T, T, T), Dup(u8), Void(T, bool) }
#[derive(Clone, Debug)]
pub struct Prog { pub nx: usize, pub outs: usize, pub nin: usize, pub rows: Vec<Row> }
fn coeff<D: Nv>() -> BoxedStrategy<BigUint> { prop_oneof![4 => (0u64..3).prop_map(BigUint::from), 1 => Just(D::N::p() - 1u32), 2 => D::nint()].boxed() }
fn tm<D: Nv>() -> BoxedStrategy<T> { prop_oneof![1 => Just(vec![]), 8 => prop::collection::vec((any::<u8>(), coeff::<D>()), 1..4)].boxed() }
fn rw<D: Nv>() -> BoxedStrategy<Row> {
    prop_oneof![
        10 => (tm::<D>(), tm::<D>(), tm::<D>()).prop_map(|(a, b, c)| Row::Def(a, b, c)),
        3 => (tm::<D>(), tm::<D>(), tm::<D>()).prop_map(|(a, b, c)| Row::Out(a, b, c)),
        1 => any::<u8>().prop_map(Row::Dup),
        1 => (tm::<D>(), any::<bool>()).prop_map(|(a, s)| Row::Void(a, s)),
    ].boxed()
}
pub fn prog<D: Nv>(nx: Option<usize>, max: usize) -> BoxedStrategy<Prog> {
    let nxs = match nx { Some(n) => Just((n, 0usize)).boxed(), None => (0usize..4).prop_flat_map(|n| (Just(n), 0..=n)).boxed() };
    (nxs, 0usize..4, prop::collection::vec(rw::<D>(), 1..max)).prop_map(|((nx, outs), nin, rows)| Prog { nx, outs, nin, rows }).boxed()
}
/// The circuit of a program: rows over z = 1, x, w, and which wire each defines.
pub struct Circ<M: Modulus> { pub nx: usize, pub nw: usize, pub rows: Vec<[Vec<(usize, BigUint)>; 3]>, def: Vec<(usize, usize)>, free: usize, m: std::marker::PhantomData<M> }
impl<M: Modulus> Circ<M> {
    pub fn of(p: &Prog) -> Self {
        let mut avail: Vec<usize> = (0..=p.nx - p.outs).collect();
        for i in 0..p.nin { avail.push(1 + p.nx + i); }
        let mut nw = p.nin;
        let mut next_out = 1 + p.nx - p.outs;
        let (mut rows, mut def): (Vec<[Vec<(usize, BigUint)>; 3]>, _) = (vec![], vec![]);
        let res = |t: &T, avail: &[usize]| {
            let mut m: BTreeMap<usize, BigUint> = BTreeMap::new();
            for (i, c) in t { m.insert(avail[*i as usize % avail.len()], c % M::p()); }
            m.into_iter().filter(|x| !x.1.is_zero()).collect::<Vec<_>>()
        };
        for r in &p.rows {
            match r {
                Row::Def(a, b, c) | Row::Out(a, b, c) => {
                    let (a, b, mut c) = (res(a, &avail), res(b, &avail), res(c, &avail));
                    let t = if matches!(r, Row::Out(..)) && next_out <= p.nx { next_out += 1; next_out - 1 } else { nw += 1; p.nx + nw };
                    c.push((t, BigUint::one()));
                    def.push((rows.len(), t));
                    avail.push(t);
                    rows.push([a, b, c]);
                }
                Row::Dup(i) => if !rows.is_empty() { let k = *i as usize % rows.len(); rows.push(rows[k].clone()) },
                Row::Void(a, s) => { let a = res(a, &avail); rows.push(if *s { [a, vec![], vec![]] } else { [vec![], a, vec![]] }) }
            }
        }
        Circ { nx: p.nx, nw, rows, def, free: p.nin, m: Default::default() }
    }
    pub fn dot(t: &[(usize, BigUint)], z: &[BigUint]) -> BigUint { t.iter().map(|(i, c)| c * &z[*i]).sum::<BigUint>() % M::p() }
    pub fn prod(&self, k: usize, z: &[BigUint]) -> Vec<BigUint> { self.rows.iter().map(|r| Self::dot(&r[k], z)).collect() }
    /// full satisfying assignment from free values
    pub fn solve(&self, inputs: &[BigUint]) -> (Vec<BigUint>, Vec<BigUint>) {
        let mut z = vec![BigUint::zero(); 1 + self.nx + self.nw];
        z[0] = BigUint::one();
        let get = |i: usize| if inputs.is_empty() { BigUint::zero() } else { &inputs[i % inputs.len()] % M::p() };
        for i in 0..self.nx + self.free { z[1 + i] = get(i); }
        for (r, t) in &self.def {
            let [a, b, c] = &self.rows[*r];
            z[*t] = BigUint::zero();
            z[*t] = (Self::dot(a, &z) * Self::dot(b, &z) + M::p() - Self::dot(c, &z)) % M::p();
        }
        (z[1..=self.nx].to_vec(), z[1 + self.nx..].to_vec())
    }
    pub fn z(u: &BigUint, x: &[BigUint], w: &[BigUint]) -> Vec<BigUint> { [&[u.clone()], x, w].concat() }
    /// rows r with (Az)(Bz) != u (Cz) + e
    pub fn violated(&self, u: &BigUint, x: &[BigUint], w: &[BigUint], e: &[BigUint]) -> Vec<usize> {
        let z = Self::z(u, x, w);
        (0..self.rows.len()).filter(|r| {
            let [a, b, c] = &self.rows[*r];
            Self::dot(a, &z) * Self::dot(b, &z) % M::p() != (u * Self::dot(c, &z) + &e[*r]) % M::p()
        }).collect()
    }
    /// the error vector that makes (u, x, w) a satisfying relaxed pair
    pub fn slack(&self, u: &BigUint, x: &[BigUint], w: &[BigUint]) -> Vec<BigUint> {
        let z = Self::z(u, x, w);
        self.rows.iter().map(|[a, b, c]| (Self::dot(a, &z) * Self::dot(b, &z) + M::p() - u * Self::dot(c, &z) % M::p()) % M::p()).collect()
    }
    pub fn cross(&self, u1: &BigUint, z1: &[BigUint], z2: &[BigUint]) -> Vec<BigUint> {
        let p = M::p();
        self.rows.iter().map(|[a, b, c]| {
            (Self::dot(a, z1) * Self::dot(b, z2) + Self::dot(a, z2) * Self::dot(b, z1) + p * p + p - u1 * Self::dot(c, z2) - Self::dot(c, z1)) % p
        }).collect()
    }
    pub fn build<D: Nv<N = M>>(&self, x: &[BigUint], w: &[BigUint]) -> R1cs<D::O> {
        let mut cs: R1cs<D::O> = R1cs::default();
        for v in x { FieldAssignment::instance(&mut cs, D::sc(v)); }
        for v in w { FieldAssignment::witness(&mut cs, D::sc(v)); }
        let t = |t: &[(usize, BigUint)]| row::<D::X>(&t.iter().map(|(i, c)| (if *i <= self.nx { (false, *i) } else { (true, i - 1 - self.nx) }, c.clone())).collect::<Vec<_>>());
        for [a, b, c] in &self.rows { cs.mul_gate(&t(a), &t(b), &t(c)); }
        cs
    }
}

// ---------------------------------------------------------------- commitments with known logarithms
pub const KEY: usize = 96;
pub struct Key<D: Nv> { pub logs: Vec<BigUint>, pub ck: PedersenCommitment<D::A> }
pub fn key_of<D: Nv>(pts: Vec<D::A>) -> PedersenCommitment<D::A> { PedersenCommitment::decode(&mut &pts.encode()[..]).expect("commitment key from its points") }
pub trait Keyed: Nv + Sized { fn key() -> &'static Key<Self>; fn commit_with(k: &PedersenCommitment<Self::A>, v: &[Self::S]) -> Self::A; fn commit(v: &[Self::S]) -> Self::A { Self::commit_with(&Self::key().ck, v) } }
fn mk_key<D: Nv>() -> Key<D> {
    let mut s = 4242u64;
    let logs: Vec<BigUint> = (0..KEY).map(|_| from_limbs(&[splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)]) % D::N::p()).collect();
    let ck = key_of::<D>(logs.iter().map(|l| lib::<D>(&D::env().mul(l))).collect());
    Key { logs, ck }
}
lazy_static::lazy_static! { static ref KG: Key<Gk> = mk_key(); static ref KB: Key<Bn> = mk_key(); }
impl Keyed for Gk { fn key() -> &'static Key<Gk> { &KG } fn commit_with(k: &PedersenCommitment<bn_254::G1Affine>, v: &[bn_254::Fr]) -> bn_254::G1Affine { nv::commit(k, v) } }
impl Keyed for Bn { fn key() -> &'static Key<Bn> { &KB } fn commit_with(k: &PedersenCommitment<grumpkin::Affine>, v: &[bn_254::Fq]) -> grumpkin::Affine { nv::commit(k, v) } }
pub fn commit<D: Keyed>(v: &[BigUint]) -> Pf<D> {
    D::env().mul(&(v.iter().zip(&D::key().logs).map(|(a, b)| a * b).sum::<BigUint>() % D::N::p()))
}
pub fn add_scaled<D: Nv>(a: &Pf<D>, r: &BigUint, b: &Pf<D>) -> Pf<D> { pt_add(a, &pt_mul(b, r)) }

// ---------------------------------------------------------------- the model of folding
pub struct Run<D: Nv> { pub u: Rel<D>, pub w: Vec<BigUint>, pub e: Vec<BigUint> }
impl<D: Nv> Clone for Run<D> { fn clone(&self) -> Self { Run { u: self.u.clone(), w: self.w.clone(), e: self.e.clone() } } }
fn axpy<M: Modulus>(a: &[BigUint], r: &BigUint, b: &[BigUint]) -> Vec<BigUint> { a.iter().zip(b).map(|(a, b)| (a + r * b) % M::p()).collect() }
pub fn scs<D: Nv>(v: &[BigUint]) -> Vec<D::S> { v.iter().map(D::sc).collect() }
pub fn ints<D: Nv>(v: &[D::S]) -> Result<Vec<BigUint>, String> { v.iter().map(D::int_of_s).collect() }
impl<D: Keyed> Run<D> {
    pub fn dummy(c: &Circ<D::N>) -> Self { Run { u: Rel { w: None, e: None, u: BigUint::zero(), x: vec![BigUint::zero(); c.nx] }, w: vec![BigUint::zero(); c.nw], e: vec![BigUint::zero(); c.rows.len()] } }
    /// a satisfying relaxed pair with arbitrary scalar and assignment
    pub fn any(c: &Circ<D::N>, u: &BigUint, x: &[BigUint], w: &[BigUint]) -> Self {
        let e = c.slack(u, x, w);
        Run { u: Rel { w: commit::<D>(w), e: commit::<D>(&e), u: u.clone(), x: x.to_vec() }, w: w.to_vec(), e }
    }
    pub fn fold(&self, c: &Circ<D::N>, x2: &[BigUint], w2: &[BigUint], cw2: &Pf<D>) -> (Self, Vec<BigUint>, Pf<D>, BigUint) {
        let z1 = Circ::<D::N>::z(&self.u.u, &self.u.x, &self.w);
        let z2 = Circ::<D::N>::z(&BigUint::one(), x2, w2);
        let t = c.cross(&self.u.u, &z1, &z2);
        let ct = commit::<D>(&t);
        let r = self.u.challenge(&ct);
        let u = Rel { w: add_scaled::<D>(&self.u.w, &r, cw2), e: add_scaled::<D>(&self.u.e, &r, &ct), u: (&self.u.u + &r) % D::N::p(), x: axpy::<D::N>(&self.u.x, &r, x2) };
        (Run { u, w: axpy::<D::N>(&self.w, &r, w2), e: axpy::<D::N>(&self.e, &r, &t) }, t, ct, r)
    }
    pub fn lib(&self) -> (nv::RelaxedR1csInstance<D::O>, nv::RelaxedR1csWitness<D::O>) { (self.u.lib(), nv::relaxed_witness(scs::<D>(&self.w), scs::<D>(&self.e))) }
    pub fn of(u: &nv::RelaxedR1csInstance<D::O>, w: &nv::RelaxedR1csWitness<D::O>) -> Result<Self, String> {
        let (a, b) = nv::relaxed_witness_parts(w);
        Ok(Run { u: Rel::of(u)?, w: ints::<D>(&a)?, e: ints::<D>(&b)? })
    }
    pub fn same(&self, o: &Self, what: &str) -> R {
        ensure!(self.u.u == o.u.u, "{}: scalar {:x} instead of {:x}", what, self.u.u, o.u.u);
        ensure!(self.u.x == o.u.x, "{}: public inputs {:x?} instead of {:x?}", what, self.u.x, o.u.x);
        ensure!(self.u.w == o.u.w, "{}: witness commitment {:?} instead of {:?}", what, self.u.w, o.u.w);
        ensure!(self.u.e == o.u.e, "{}: error commitment {:?} instead of {:?}", what, self.u.e, o.u.e);
        ensure!(self.w == o.w, "{}: witness {:x?} instead of {:x?}", what, self.w, o.w);
        ensure!(self.e == o.e, "{}: error vector {:x?} instead of {:x?}", what, self.e, o.e);
        Ok(())
    }
    /// satisfied with openings, by the model
    pub fn valid(&self, c: &Circ<D::N>) -> bool {
        self.w.len() == c.nw && self.e.len() == c.rows.len() && self.u.x.len() == c.nx
            && c.violated(&self.u.u, &self.u.x, &self.w, &self.e).is_empty() && commit::<D>(&self.w) == self.u.w && commit::<D>(&self.e) == self.u.e
    }
    /// satisfied with openings, by the library
    pub fn lib_valid(&self, shape: &R1csShape<D::O>) -> Result<bool, String> {
        let (u, w) = self.lib();
        let open = |v: &[BigUint], p: &Pf<D>| -> Result<bool, String> { Ok(model::<D>(&D::commit(&scs::<D>(v)))? == *p) };
        Ok(shape.is_sat_relaxed(&u, &w) && open(&self.w, &self.u.w)? && open(&self.e, &self.u.e)?)
    }
}
/// a prover is not shareable between threads through generics, so it is made per case
pub fn prover<D: Keyed>(shape: &R1csShape<D::O>) -> Prover<D::O> { Prover::new(shape.clone(), D::key().ck.clone()) }
pub fn inputs<D: Nv>() -> BoxedStrategy<Vec<BigUint>> { prop_oneof![1 => Just(vec![]), 1 => Just(vec![BigUint::one()]), 8 => prop::collection::vec(D::nint(), 8)].boxed() }

#[derive(Clone, Debug)]
enum Start { Dummy, Plain(Vec<BigUint>), Any(BigUint, Vec<BigUint>, Vec<BigUint>) }
fn start<D: Nv>() -> BoxedStrategy<Start> {
    prop_oneof![2 => Just(Start::Dummy), 2 => inputs::<D>().prop_map(Start::Plain), 3 => (D::nint(), inputs::<D>(), prop::collection::vec(D::nint(), 4)).prop_map(|(u, i, w)| Start::Any(u, i, w))].boxed()
}
fn cyc(v: &[BigUint], n: usize) -> Vec<BigUint> { (0..n).map(|i| if v.is_empty() { BigUint::zero() } else { v[i % v.len()].clone() }).collect() }
fn begin<D: Keyed>(st: &Start, c: &Circ<D::N>, shape: &R1csShape<D::O>) -> Result<Run<D>, String> {
    Ok(match st {
        Start::Dummy => {
            let (u, w) = nv::relaxed_dummy::<D::O>(shape);
            let r = Run::<D>::of(&u, &w)?;
            r.same(&Run::dummy(c), "the empty pair")?;
            r
        }
        Start::Plain(i) => {
            let (x, w) = c.solve(i);
            let (u, wi) = nv::instance_and_witness(&c.build::<D>(&x, &w), shape, &D::key().ck);
            let ru = nv::RelaxedR1csInstance::<D::O>::from_r1cs_instance(&D::key().ck, shape, &u);
            let rw = nv::RelaxedR1csWitness::<D::O>::from_r1cs_witness(shape, &wi);
            let r = Run::<D>::of(&ru, &rw)?;
            let want = Run { u: Rel { w: commit::<D>(&w), e: None, u: BigUint::one(), x: x.clone() }, w: w.clone(), e: vec![BigUint::zero(); c.rows.len()] };
            r.same(&want, "relaxation of a plain pair")?;
            r
        }
        Start::Any(u, x, w) => Run::any(c, u, &cyc(x, c.nx), &cyc(w, c.nw)),
    })
}

fn complete<D: Keyed>(s: &mut Suite) {
    let nm = |t: &str| format!("{}/{}", t, D::NAME);
    s.check(&nm("histories"), n(220, 9000).shrink(40), || (prog::<D>(None, 9), start::<D>(), prop::collection::vec(inputs::<D>(), 1..6)), move |(p, st, ins), case| {
        let c = Circ::<D::N>::of(p);
        let (x0, w0) = c.solve(&[]);
        let shape = R1csShape::from(c.build::<D>(&x0, &w0));
        ensure!((shape.m() as usize, shape.l() as usize, shape.m_l_1() as usize) == (c.rows.len(), c.nx, c.nw), "shape dimensions {:?}", (shape.m(), shape.l(), shape.m_l_1()));
        let pr = prover::<D>(&shape);
        let mut run = begin::<D>(st, &c, &shape)?;
        ensure!(run.valid(&c), "generator: the starting pair is not valid");
        ensure!(run.lib_valid(&shape)?, "the valid starting pair is rejected");
        case.nontrivial_if(ins.len() > 1 && c.rows.len() > 1);
        case.class(match st { Start::Dummy => "from the empty pair", Start::Plain(_) => "from a plain pair", _ => "from an arbitrary relaxed pair" });
        for (k, i) in ins.iter().enumerate() {
            let (x, w) = c.solve(i);
            let cs = c.build::<D>(&x, &w);
            ensure!(R1csShape::from(cs.clone()) == shape, "the shape depends on the assignment");
            let (u2, w2) = nv::instance_and_witness(&cs, &shape, &D::key().ck);
            let cw = commit::<D>(&w);
            ensure_eq!(model::<D>(&nv::instance_parts(&u2).0)?, cw, "commitment of the witness");
            ensure_eq!(ints::<D>(&nv::instance_parts(&u2).1)?, x, "public inputs of the plain instance");
            ensure!(shape.is_sat(&D::key().ck, &u2, &w2), "a satisfying plain pair is rejected");
            let (want, t, ct, r) = run.fold(&c, &x, &w, &cw);
            let (u1, w1) = run.lib();
            ensure_eq!(ints::<D>(&nv::cross_term(&pr, &u1, &w1, &u2, &w2))?, t, "cross term of fold {}", k);
            case.class_if(t.iter().all(|v| v.is_zero()), "zero cross term");
            case.class_if(cw.is_none(), "identity commitment");
            let (u, w_, lct) = pr.prove(&u1, &w1, &u2, &w2);
            ensure_eq!(model::<D>(&lct)?, ct, "commitment of the cross term, fold {}", k);
            let got = Run::<D>::of(&u, &w_)?;
            got.same(&want, &format!("fold {} with challenge {:x}", k, r))?;
            let v = Verifier::<D::O>::verify(lct, &u1, &u2);
            ensure!(v == u, "the verifier's folded instance differs from the prover's in fold {}", k);
            // the two halves of folding, with any challenge
            ensure!(nv::fold_instance(&u1, &u2, D::sc(&r), lct) == u, "folding of instances");
            ensure!(nv::fold_witness(&w1, &w2, D::sc(&r), scs::<D>(&t)) == w_, "folding of witnesses");
            ensure!(got.valid(&c), "the folded pair {} does not satisfy the relation", k);
            ensure!(got.lib_valid(&shape)?, "the folded pair {} is rejected", k);
            run = got;
        }
        Ok(())
    });
    s.check(&nm("any_challenge"), n(300, 12_000).shrink(60), || (prog::<D>(None, 9), start::<D>(), inputs::<D>(), D::nint()), move |(p, st, i, r), case| {
        // folding with any challenge keeps validity
        let c = Circ::<D::N>::of(p);
        let (x, w) = c.solve(i);
        let cs = c.build::<D>(&x, &w);
        let shape = R1csShape::from(cs.clone());
        let run = begin::<D>(st, &c, &shape)?;
        let (u1, w1) = run.lib();
        let (u2, w2) = nv::instance_and_witness(&cs, &shape, &D::key().ck);
        let t = nv::cross_term(&prover::<D>(&shape), &u1, &w1, &u2, &w2);
        let ct = D::commit(&t);
        let got = Run::<D>::of(&nv::fold_instance(&u1, &u2, D::sc(r), ct), &nv::fold_witness(&w1, &w2, D::sc(r), t))?;
        case.nontrivial_if(!r.is_zero());
        ensure!(got.valid(&c), "folding with the challenge {:x} breaks the relation", r);
        ensure!(got.lib_valid(&shape)?, "the pair folded with the challenge {:x} is rejected", r);
        Ok(())
    });
    s.check(&nm("in_circuit"), n(26, 900).shrink(6), || (pt_ix(), pt_ix(), pt_ix(), pt_ix(), D::nint(), prop::collection::vec(D::nint(), 4)), move |(w, e, w2, t, u, x), case| {
        let run = Rel::<D> { w: pt::<D>(*w), e: pt::<D>(*e), u: low(u, 200), x: vec![x[0].clone(), x[1].clone()] };
        let (ct, cw) = (pt::<D>(*t), pt::<D>(*w2));
        let x2: Vec<BigUint> = x[2..4].iter().map(|v| low(v, nv::HASH_BITS)).collect();
        let (u1, u2) = (run.lib(), nv::instance::<D::O>(lib::<D>(&cw), scs::<D>(&x2)));
        let native = Rel::<D>::of(&Verifier::<D::O>::verify(lib::<D>(&ct), &u1, &u2))?;
        let mut cs: R1cs<D::C> = R1cs::default();
        let o = nv::nifs_circuit::<D::O, D::C, crate::recursion::Fun<D::F>>(&mut cs, &u1, &u2, lib::<D>(&ct));
        let r = run.challenge(&ct);
        case.nontrivial_if(*w2 != 0 && *t != 0);
        case.class_if(*w == 0 || *e == 0 || *w2 == 0 || *t == 0, "identity");
        ensure_eq!(D::int_of(&o.r.value(&cs))?, r, "in-circuit challenge");
        let got = wires_value::<D>(&cs, &o.folded)?;
        let want = Rel::<D> { w: add_scaled::<D>(&run.w, &r, &cw), e: add_scaled::<D>(&run.e, &r, &ct), u: &run.u + &r, x: axpy::<D::N>(&run.x, &r, &x2) };
        for (what, n) in [("in circuit", &got), ("natively", &native)] {
            ensure!(n.w == want.w && n.e == want.e, "commitments folded {} are {:?}, {:?} instead of {:?}, {:?}", what, n.w, n.e, want.w, want.e);
            ensure!(n.u == want.u && n.x == want.x, "scalar and public inputs folded {} are {:x}, {:x?} instead of {:x}, {:x?}", what, n.u, n.x, want.u, want.x);
        }
        let sy = Sys::of(&cs);
        ensure!(sy.sat(&sy.z), "the in-circuit folding of an honest input is unsatisfied");
        Ok(())
    });
}
/// Value of a relaxed instance held in wires.
pub fn wires_value<D: Nv>(cs: &R1cs<D::C>, a: &nv::RelaxedWires<D::O>) -> Result<Rel<D>, String> {
    let p = |p: &PointAssignment<D::F>| -> Result<Pf<D>, String> {
        let z = p.get_z().value(cs);
        if z == D::F::zero() { return Ok(None); }
        let zi = z.invert().unwrap();
        let (x, y) = (D::int_of(&(p.get_x().value(cs) * zi))?, D::int_of(&(p.get_y().value(cs) * zi))?);
        let q = (Fp::new(&x), Fp::new(&y));
        ensure!(on_curve(&q, &D::b()), "a folded commitment is off the curve: {:?}", q);
        Ok(Some(q))
    };
    let big = |b: &nv::BigNatAssignment<D::F>| -> Result<BigUint, String> { b.as_limbs().iter().enumerate().map(|(i, l)| Ok(D::int_of(&l.value(cs))? << (64 * i))).sum::<Result<BigUint, String>>() };
    Ok(Rel { w: p(&a.commit_w)?, e: p(&a.commit_e)?, u: D::int_of(&a.u.value(cs))?, x: vec![big(&a.x0)?, big(&a.x1)?] })
}
pub fn c21(s: &mut Suite) {
    s.effort(3);
    s.rule("histories count as non-trivial with at least two folds of a circuit of at least two rows; in-circuit folds when neither the incoming witness nor the cross term is committed to the identity");
    s.assume("in-circuit folding is compared for scalars below 2^200 and incoming public inputs below 2^252, as the recursion produces");
    complete::<Gk>(s);
    complete::<Bn>(s);
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Debug)]
enum Bad { W(u8, BigUint), X(u8, BigUint), U(BigUint), E(u8, BigUint), CommitW(usize), CommitE(usize), Comp(u8, BigUint) }
fn bad<D: Nv>() -> BoxedStrategy<Bad> {
    let d = || prop_oneof![Just(BigUint::one()), Just(D::N::p() - 1u32), D::nint()];
    prop_oneof![
        3 => (any::<u8>(), d()).prop_map(|(i, d)| Bad::W(i, d)), 2 => (any::<u8>(), d()).prop_map(|(i, d)| Bad::X(i, d)), 2 => d().prop_map(Bad::U),
        3 => (any::<u8>(), d()).prop_map(|(i, d)| Bad::E(i, d)), 1 => pt_ix().prop_map(Bad::CommitW), 1 => pt_ix().prop_map(Bad::CommitE),
        1 => (any::<u8>(), d()).prop_map(|(i, d)| Bad::Comp(i, d)),
    ].boxed()
}
fn bump<M: Modulus>(v: &mut [BigUint], i: u8, d: &BigUint) { if !v.is_empty() { let k = i as usize % v.len(); v[k] = (&v[k] + d) % M::p(); } }
fn spoil<D: Keyed>(r: &mut Run<D>, c: &Circ<D::N>, b: &Bad) {
    match b {
        Bad::W(i, d) => bump::<D::N>(&mut r.w, *i, d),
        Bad::X(i, d) => bump::<D::N>(&mut r.u.x, *i, d),
        Bad::U(d) => r.u.u = (&r.u.u + d) % D::N::p(),
        Bad::E(i, d) => bump::<D::N>(&mut r.e, *i, d),
        Bad::CommitW(i) => r.u.w = pt::<D>(*i),
        Bad::CommitE(i) => r.u.e = pt::<D>(*i),
        // change the witness and make the error vector compensate
        Bad::Comp(i, d) => { bump::<D::N>(&mut r.w, *i, d); r.e = c.slack(&r.u.u, &r.u.x, &r.w); }
    }
}
fn sound<D: Keyed>(s: &mut Suite) {
    let nm = |t: &str| format!("{}/{}", t, D::NAME);
    s.check(&nm("predicates"), n(900, 40_000).shrink(200), || (prog::<D>(None, 9), start::<D>(), inputs::<D>(), prop::collection::vec(bad::<D>(), 0..3)), move |(p, st, i, bads), case| {
        let c = Circ::<D::N>::of(p);
        let (x, w) = c.solve(i);
        let shape = R1csShape::from(c.build::<D>(&x, &w));
        let mut run = begin::<D>(st, &c, &shape)?;
        for b in bads { spoil(&mut run, &c, b); }
        let rows = c.violated(&run.u.u, &run.u.x, &run.w, &run.e);
        let (u1, w1) = run.lib();
        case.nontrivial_if(!rows.is_empty() || !bads.is_empty());
        case.class(match rows.len() { 0 => "relaxed: satisfied", 1 => "relaxed: one row violated", _ => "relaxed: several rows violated" });
        case.class_if(rows.len() == 1 && rows[0] + 1 == c.rows.len(), "relaxed: only the last row violated");
        ensure!(shape.is_sat_relaxed(&u1, &w1) == rows.is_empty(), "relaxed satisfaction is {} with violated rows {:?}", !rows.is_empty(), rows);
        // plain
        let mut pl = Run::<D> { u: Rel { w: commit::<D>(&w), e: None, u: BigUint::one(), x }, w, e: vec![BigUint::zero(); c.rows.len()] };
        for b in bads { if matches!(b, Bad::W(..) | Bad::X(..) | Bad::CommitW(_)) { spoil(&mut pl, &c, b); } }
        let recommit = bads.len() == 1;
        if recommit && matches!(bads[0], Bad::W(..)) { pl.u.w = commit::<D>(&pl.w); }
        let rows = c.violated(&BigUint::one(), &pl.u.x, &pl.w, &pl.e);
        let open = commit::<D>(&pl.w) == pl.u.w;
        case.class(match (rows.is_empty(), open) { (true, true) => "plain: holds", (true, false) => "plain: commitment does not open", (false, true) => "plain: rows violated", _ => "plain: both" });
        let got = shape.is_sat(&D::key().ck, &nv::instance::<D::O>(lib::<D>(&pl.u.w), scs::<D>(&pl.u.x)), &nv::witness(scs::<D>(&pl.w)));
        ensure!(got == (rows.is_empty() && open), "plain satisfaction is {} with violated rows {:?} and the commitment {}", got, rows, if open { "opening" } else { "not opening" });
        Ok(())
    });
    // an invalid pair on either side never folds to a valid one
    s.check(&nm("invalid_folds"), n(260, 10_000).shrink(40), || (prog::<D>(None, 9), start::<D>(), inputs::<D>(), bad::<D>(), any::<bool>(), any::<bool>()), move |(p, st, i, b, second, recommit), case| {
        let c = Circ::<D::N>::of(p);
        let (x, w) = c.solve(i);
        let shape = R1csShape::from(c.build::<D>(&x, &w));
        let mut run = begin::<D>(st, &c, &shape)?;
        let mut pl = Run::<D> { u: Rel { w: commit::<D>(&w), e: None, u: BigUint::one(), x }, w, e: vec![BigUint::zero(); c.rows.len()] };
        if *second {
            match b { Bad::W(..) | Bad::X(..) | Bad::CommitW(_) => spoil(&mut pl, &c, b), Bad::E(i, d) | Bad::Comp(i, d) => bump::<D::N>(&mut pl.w, *i, d), _ => return Ok(()) }
            if *recommit { pl.u.w = commit::<D>(&pl.w); }
        } else {
            spoil(&mut run, &c, b);
            if *recommit { run.u.w = commit::<D>(&run.w); run.u.e = commit::<D>(&run.e); }
        }
        let (ok1, ok2) = (run.valid(&c), pl.valid(&c));
        let (u1, w1) = run.lib();
        let (u2, w2) = (nv::instance::<D::O>(lib::<D>(&pl.u.w), scs::<D>(&pl.u.x)), nv::witness(scs::<D>(&pl.w)));
        let (u, w_, ct) = prover::<D>(&shape).prove(&u1, &w1, &u2, &w2);
        ensure!(Verifier::<D::O>::verify(ct, &u1, &u2) == u, "the verifier's folded instance differs from the prover's");
        let got = Run::<D>::of(&u, &w_)?;
        case.nontrivial_if(!(ok1 && ok2));
        case.class(match (ok1, ok2) { (true, true) => "both valid", (false, true) => "running pair invalid", (true, false) => "incoming pair invalid", _ => "both invalid" });
        let ok = got.lib_valid(&shape)?;
        ensure!(ok == got.valid(&c), "validity of the folded pair is {}", ok);
        ensure!(ok == (ok1 && ok2), "running pair {}, incoming pair {}, but the folded pair is {}", vi(ok1), vi(ok2), vi(ok));
        Ok(())
    });
    // a verifier that folds other instances, cross terms or challenges than the prover does not get the prover's instance
    s.check(&nm("mismatched_folds"), n(260, 10_000).shrink(40), || (prog::<D>(None, 9), start::<D>(), inputs::<D>(), 0u8..10, any::<u8>(), D::nint(), pt_ix()), move |(p, st, i, kind, k, d, q), case| {
        let c = Circ::<D::N>::of(p);
        let (x, w) = c.solve(i);
        let cs = c.build::<D>(&x, &w);
        let shape = R1csShape::from(cs.clone());
        let run = begin::<D>(st, &c, &shape)?;
        let (u1, w1) = run.lib();
        let (u2, w2) = nv::instance_and_witness(&cs, &shape, &D::key().ck);
        let pr = prover::<D>(&shape);
        let (u, w_, ct) = pr.prove(&u1, &w1, &u2, &w2);
        let r_of = |v: &nv::RelaxedR1csInstance<D::O>, base: &Rel<D>| -> Result<BigUint, String> { Ok((Rel::<D>::of(v)?.u + D::N::p() - &base.u) % D::N::p()) };
        let r = r_of(&u, &run.u)?;
        if d.is_zero() { return Ok(()); }
        let d = &(d % D::N::p());
        let mut m = run.clone();
        let mut x2 = x.clone();
        let (mut cw2, mut t2) = (commit::<D>(&w), model::<D>(&ct)?);
        let what = match kind {
            0 => { m.u.w = pt::<D>(*q); "running witness commitment" }
            1 => { m.u.e = pt::<D>(*q); "running error commitment" }
            2 => { m.u.u = (&m.u.u + d) % D::N::p(); "running scalar" }
            3 => { bump::<D::N>(&mut m.u.x, *k, d); "running public input" }
            4 => { bump::<D::N>(&mut x2, *k, d); "incoming public input" }
            5 => { cw2 = pt::<D>(*q); "incoming witness commitment" }
            6 => { t2 = pt::<D>(*q); "cross term commitment" }
            7 => { t2 = pt_neg(&t2); "negated cross term commitment" }
            8 => { std::mem::swap(&mut m.u.w, &mut m.u.e); "swapped running commitments" }
            _ => { m.u.x.reverse(); "reversed running public inputs" }
        };
        let v = Verifier::<D::O>::verify(lib::<D>(&t2), &m.u.lib(), &nv::instance::<D::O>(lib::<D>(&cw2), scs::<D>(&x2)));
        let same_running = m.u.w == run.u.w && m.u.e == run.u.e && m.u.u == run.u.u && m.u.x == run.u.x;
        let same = same_running && x2 == x && cw2 == commit::<D>(&w) && t2 == model::<D>(&ct)?;
        case.nontrivial_if(!same);
        case.class(what);
        ensure!((v == u) == same, "verifier with another {}: folded instance {}", what, if v == u { "unchanged" } else { "changed although nothing differs" });
        if same { return Ok(()); }
        let got = Run::<D>::of(&v, &w_)?;
        // the only exception: nothing of the folded instance can notice (it did differ above)
        ensure!(!(got.lib_valid(&shape)? && c.nx + c.nw > 0 && got.u.x == Run::<D>::of(&u, &w_)?.u.x && got.u.u == Run::<D>::of(&u, &w_)?.u.u), "the prover's witness satisfies the instance folded with another {}", what);
        // the challenge is bound to the cross term and to every part of the running instance
        if t2 != model::<D>(&ct)? || !same_running {
            ensure!(r_of(&v, &m.u)? != r, "the challenge does not depend on the {}", what);
        }
        // witness folded with another challenge or cross term
        let t = nv::cross_term(&pr, &u1, &w1, &u2, &w2);
        let other = Run::<D>::of(&u, &nv::fold_witness(&w1, &w2, D::sc(&((&r + d) % D::N::p())), t.clone()))?;
        let changes = t.iter().any(|v| D::int_of_s(v).map_or(true, |v| !v.is_zero())) || w.iter().any(|v| !v.is_zero());
        if changes { ensure!(!other.lib_valid(&shape)?, "a witness folded with the challenge {:x} more satisfies the folded instance", d); }
        if !t.is_empty() {
            let mut ti = ints::<D>(&t)?;
            bump::<D::N>(&mut ti, *k, d);
            let other = Run::<D>::of(&u, &nv::fold_witness(&w1, &w2, D::sc(&r), scs::<D>(&ti)))?;
            ensure!(!other.lib_valid(&shape)?, "a witness folded with a changed cross term satisfies the folded instance");
            // commitment to the changed cross term: the relation must fail
            let cti = commit::<D>(&ti);
            let u3 = Verifier::<D::O>::verify(lib::<D>(&cti), &u1, &u2);
            let r3 = r_of(&u3, &run.u)?;
            let other = Run::<D>::of(&u3, &nv::fold_witness(&w1, &w2, D::sc(&r3), scs::<D>(&ti)))?;
            ensure!(!other.lib_valid(&shape)?, "folding with a wrong but committed cross term gives a valid pair");
        }
        Ok(())
    });
    let sig = format!("challenge-ignores-plain-instance-{}", D::NAME);
    s.finding(&sig, || {
        // one row x * x = y; the cross term is fixed before the incoming witness is chosen
        let c = Circ::<D::N>::of(&Prog { nx: 0, outs: 0, nin: 1, rows: vec![Row::Def(vec![(1, BigUint::one())], vec![(1, BigUint::one())], vec![])] });
        let (x, mut w) = c.solve(&[BigUint::from(3u32)]);
        let shape = R1csShape::from(c.build::<D>(&x, &w));
        let run = Run::<D>::dummy(&c);
        let t = vec![BigUint::from(5u32)];
        let ct = commit::<D>(&t);
        let probe = nv::instance::<D::O>(lib::<D>(&commit::<D>(&w)), vec![]);
        let r = Rel::<D>::of(&Verifier::<D::O>::verify(lib::<D>(&ct), &run.u.lib(), &probe))?.u;
        // r^2 (w0^2 - w1) = r t
        let ri = r.modpow(&(D::N::p() - 2u32), D::N::p());
        w[1] = (&w[0] * &w[0] + D::N::p() - &t[0] * ri % D::N::p()) % D::N::p();
        let u2 = nv::instance::<D::O>(lib::<D>(&commit::<D>(&w)), vec![]);
        let w2 = nv::witness(scs::<D>(&w));
        let u = Verifier::<D::O>::verify(lib::<D>(&ct), &run.u.lib(), &u2);
        let (_, w1) = run.lib();
        let got = Run::<D>::of(&u, &nv::fold_witness(&w1, &w2, D::sc(&r), scs::<D>(&t)))?;
        ensure!(shape.is_sat(&D::key().ck, &u2, &w2) || !got.lib_valid(&shape)?, "x = 3, y = {:x} violates x * x = y, yet folded into the empty pair with the cross term 5 (committed before y was chosen) it gives a pair that satisfies the relaxed relation with matching commitments", w[1]);
        Ok(())
    });
}
fn vi(b: bool) -> &'static str { if b { "valid" } else { "invalid" } }
pub fn c22(s: &mut Suite) {
    s.effort(6);
    s.rule("predicate cases count as non-trivial when something was altered, folds when a side is invalid or the verifier's view differs from the prover's");
    s.assume("the dishonest prover of the generated cases chooses its cross term honestly or at random; the adaptive choice is the fixed case of the finding");
    sound::<Gk>(s);
    sound::<Bn>(s);
}
