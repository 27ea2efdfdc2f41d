//! C14: transforms and polynomial operations against their definitions.
use crate::el::*;
use bn_254::Fr;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkgroth16::verif::*;
use zkstd::common::RngCore;

fn fe(v: &BigUint) -> Fr { Fr::mk(&Rr::new(v)) }
fn fes(v: &[BigUint]) -> Vec<Fr> { v.iter().map(fe).collect() }
fn vals(v: &[Fr]) -> Result<Vec<Rr>, String> { v.iter().map(|x| x.val()).collect() }
fn rrs(v: &[BigUint]) -> Vec<Rr> { v.iter().map(Rr::new).collect() }
/// Drops leading zeros: the canonical form of a polynomial.
fn norm(mut v: Vec<Rr>) -> Vec<Rr> { while v.last().map_or(false, |c| c.is_zero()) { v.pop(); } v }
fn same(got: &[Fr], want: Vec<Rr>, what: &str) -> R {
    let (g, w) = (norm(vals(got)?), norm(want));
    if g != w {
        let i = (0..g.len().max(w.len())).find(|i| g.get(*i) != w.get(*i)).unwrap();
        return Err(format!("{}: {} against {} coefficients, first difference at {}: got {:?}, expected {:?}", what, g.len(), w.len(), i, g.get(i), w.get(i)));
    }
    Ok(())
}
fn pad(v: &[Rr], n: usize) -> Vec<Rr> { let mut v = v.to_vec(); v.resize(n, Rr::zero()); v }
/// Results built by the library's constructor carry no leading zero.
fn canonical(p: &Coefficients<Fr>, what: &str) -> R { ensure!(p.0.last().map_or(true, |c| *c != Fr::zero()), "{}: result keeps a zero leading coefficient", what); Ok(()) }

fn coef() -> BoxedStrategy<BigUint> { prop_oneof![2 => Just(BigUint::zero()), 1 => Just(BigUint::one()), 1 => Just(&*R_MOD - 1u32), 4 => fr_int()].boxed() }
fn poly(max: usize) -> BoxedStrategy<Vec<BigUint>> { (prop::collection::vec(coef(), 0..=max), 0usize..4).prop_map(move |(mut v, z)| { for _ in 0..z { if v.len() < max { v.push(BigUint::zero()); } } v }).boxed() }
/// k and a vector of at most 2^k entries; large vectors are expanded from a seed.
#[derive(Clone, Debug)]
enum V { List(Vec<BigUint>), Seeded { len: usize, seed: u64, zeros: u8, tail: usize } }
fn expand(v: &V) -> Vec<BigUint> {
    match v {
        V::List(v) => v.clone(),
        V::Seeded { len, seed, zeros, tail } => {
            let mut s = *seed;
            let mut o: Vec<BigUint> = (0..*len).map(|_| {
                let z = splitmix(&mut s);
                if z % 8 < *zeros as u64 { BigUint::zero() } else if z % 64 == 9 { &*R_MOD - 1u32 } else { from_limbs(&[z, splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)]) % &*R_MOD }
            }).collect();
            for x in o.iter_mut().rev().take(*tail) { *x = BigUint::zero(); }
            o
        }
    }
}
fn sized(lo: usize, hi: usize) -> BoxedStrategy<(usize, V)> {
    (lo..=hi).prop_flat_map(|k| {
        let n = 1usize << k;
        let len = prop_oneof![3 => Just(n), 2 => 0..=n, 1 => Just(n - 1), 1 => Just(n / 2), 1 => Just(n / 2 + 1)];
        let v = if k <= 4 { prop_oneof![len.clone().prop_flat_map(|l| prop::collection::vec(coef(), l)).prop_map(V::List)].boxed() }
            else { (len, any::<u64>(), 0u8..9, prop_oneof![2 => Just(0usize), 1 => 0..n]).prop_map(|(len, seed, zeros, tail)| V::Seeded { len, seed, zeros, tail }).boxed() };
        (Just(k), v)
    }).boxed()
}
/// The domain as the transform of X: its root of unity and the shift of the coset, checked for their order.
fn domain(k: usize, f: &Fft<Fr>) -> Result<(Rr, Rr), String> {
    let n = 1usize << k;
    let x = Coefficients(vec![Fr::zero(), Fr::one()]);
    let pts = vals(&dft(f, x.clone()).0)?;
    ensure_eq!(pts.len(), n, "number of points");
    let w = pts[1 % n].clone();
    ensure!(w.pow(&BigUint::from(n as u64 / 2)) == Rr::one().neg(), "k = {}: the domain generator {:?} does not have order 2^k", k, w);
    let c = vals(&coset_dft(f, x).0)?;
    ensure_eq!(c.len(), n, "number of coset points");
    let g = c[0].clone();
    ensure!(g.pow(&BigUint::from(n as u64)) != Rr::one(), "k = {}: the shifted domain meets the domain", k);
    Ok((w, g))
}
fn check_transform(k: usize, v: &[BigUint], probe: &mut u64) -> R {
    let n = 1usize << k;
    let f = fft::<Fr>(k);
    let (w, g) = domain(k, &f)?;
    let rv = rrs(v);
    let e = dft(&f, Coefficients(fes(v)));
    let ce = coset_dft(&f, Coefficients(fes(v)));
    ensure_eq!((e.0.len(), ce.0.len()), (n, n), "number of points");
    let idx: Vec<usize> = if n <= 64 { (0..n).collect() } else {
        let mut i = vec![0, 1, n / 2, n - 1, n / 2 + 1, n / 4];
        for _ in 0..14 { i.push(splitmix(probe) as usize % n); }
        i
    };
    for i in idx {
        let p = w.pow(&BigUint::from(i as u64));
        ensure!(e.0[i].val()? == poly_eval(&rv, &p), "forward transform, k = {}: value at root power {} is {:?}, expected {:?}", k, i, e.0[i].val()?, poly_eval(&rv, &p));
        let p = p.mul(&g);
        ensure!(ce.0[i].val()? == poly_eval(&rv, &p), "coset transform, k = {}: value at shifted root power {} is {:?}, expected {:?}", k, i, ce.0[i].val()?, poly_eval(&rv, &p));
    }
    let b = idft(&f, e);
    same(&b.0, rv.clone(), "inverse of the forward transform")?;
    canonical(&b, "inverse transform")?;
    same(&coset_idft(&f, ce).0, rv.clone(), "inverse of the coset transform")?;
    // the other way round: any list of values comes back (short lists stand for zero-padded ones)
    let b = dft(&f, idft(&f, PointsValue(fes(v))));
    ensure!(vals(&b.0)? == pad(&rv, n), "k = {}: forward transform of the inverse transform changed the values", k);
    let b = coset_dft(&f, coset_idft(&f, PointsValue(fes(v))));
    ensure!(vals(&b.0)? == pad(&rv, n), "k = {}: coset transform of its inverse changed the values", k);
    Ok(())
}

pub fn c14(s: &mut Suite) {
    s.effort(12);
    s.rule("a case counts when its vector or operand has at least two non-zero entries (transforms) or both operands are non-zero (operators)");
    s.assume("vectors no longer than the domain and domains up to 2^14; the 2-adicity bound 2^28 itself is out of memory reach");
    let nz = |v: &[BigUint]| v.iter().filter(|x| !x.is_zero()).count();
    s.check("transform-small", n(4000, 100_000), || (sized(1, 6), any::<u64>()), move |((k, v), p), c| {
        let v = expand(v);
        c.nontrivial_if(nz(&v) >= 2);
        c.class_if(v.len() < 1 << k, "short vector"); c.class_if(v.last().map_or(true, |x| x.is_zero()), "trailing zero or empty");
        check_transform(*k, &v, &mut p.clone())
    });
    s.check("transform-large", n(64, 600).shrink(10), || (sized(7, 11), any::<u64>()), move |((k, v), p), c| {
        let v = expand(v);
        c.nontrivial_if(nz(&v) >= 2);
        check_transform(*k, &v, &mut p.clone())
    });
    s.check("transform-huge", n(2, 24).shrink(2), || (sized(12, 14), any::<u64>()), move |((k, v), p), c| { let v = expand(v); c.nontrivial_if(nz(&v) >= 2); check_transform(*k, &v, &mut p.clone()) });
    // product of polynomials through the transform, and the quotient by the vanishing polynomial
    s.check("product", n(1500, 30_000), || (1usize..=6).prop_flat_map(|k| { let n = 1usize << k; (Just(k), (0..=n).prop_flat_map(move |a| (poly(a), poly(n - a)))) }), move |(k, (a, b)), c| {
        let f = fft::<Fr>(*k);
        c.nontrivial_if(nz(a) > 0 && nz(b) > 0);
        c.class_if(a.len() != b.len(), "different degrees");
        let want = if a.is_empty() || b.is_empty() { vec![] } else { poly_mul(&rrs(a), &rrs(b)) };
        let e = &dft(&f, Coefficients(fes(a))) * &dft(&f, Coefficients(fes(b)));
        same(&idft(&f, e).0, want.clone(), "product by transform")?;
        let e = &coset_dft(&f, Coefficients(fes(a))) * &coset_dft(&f, Coefficients(fes(b)));
        same(&coset_idft(&f, e).0, want, "product by coset transform")
    });
    s.check("quotient", n(1500, 30_000), || (1usize..=6).prop_flat_map(|k| { let n = 1usize << k; (Just(k), poly(n), poly(n - 1), poly(n)) }), move |(k, h, a, b), c| {
        // p = h * (x^n - 1) agrees with zero on the domain; division on the coset returns h
        let n = 1usize << k;
        let f = fft::<Fr>(*k);
        c.nontrivial_if(nz(h) > 1);
        let g = domain(*k, &f)?.1;
        let zg = g.pow(&BigUint::from(n as u64)).sub(&Rr::one());
        ensure_eq!(z_on_coset(&f).val()?, zg, "vanishing polynomial on the shifted domain");
        let pts = vals(&coset_dft(&f, Coefficients(fes(h))).0)?;
        let scaled = PointsValue(pts.iter().map(|v| Fr::mk(&v.mul(&zg))).collect());
        same(&coset_idft(&f, divide_by_z_on_coset(&f, scaled)).0, rrs(h), "quotient by the vanishing polynomial")?;
        // the quotient as the prover computes it: (A·B − C)/Z where C interpolates A·B on the domain
        let (a, b) = (rrs(a), rrs(b));
        let prod = if a.is_empty() || b.is_empty() { vec![] } else { poly_mul(&a, &b) };
        let mut rem = pad(&[], n);
        for (i, v) in prod.iter().enumerate() { rem[i % n] = rem[i % n].add(v); }
        let quo: Vec<Rr> = (n..prod.len()).map(|i| prod[i].clone()).collect(); // degree below 2n: one fold
        let pf = |v: &[Rr]| Coefficients(v.iter().map(Fr::mk).collect::<Vec<_>>());
        let h = &(&coset_dft(&f, pf(&a)) * &coset_dft(&f, pf(&b))) - &coset_dft(&f, pf(&rem));
        same(&coset_idft(&f, divide_by_z_on_coset(&f, h)).0, quo, "quotient of A·B − C")
    });
    s.check("vanishing", n(4000, 80_000), || (1usize..=12, prop_oneof![4 => fr_int().prop_map(|v| (v, None)), 2 => (fr_int(), any::<usize>().prop_map(Some))]), |(k, (t, i)), c| {
        let nn = 1u64 << k;
        let f = fft::<Fr>(*k);
        let t = match i { Some(i) => { c.class("inside the domain"); domain(*k, &f)?.0.pow(&BigUint::from(*i % nn as usize)) } None => Rr::new(t) };
        let want = t.pow(&BigUint::from(nn)).sub(&Rr::one());
        c.nontrivial();
        ensure_eq!(z(&f, &Fr::mk(&t)).val()?, want, "vanishing polynomial at a point");
        ensure_eq!(Coefficients::<Fr>::t(nn, Fr::mk(&t)).val()?, want, "t(n, tau)");
        Ok(())
    });
    s.check("t-any-exponent", n(4000, 80_000), || (prop_oneof![limb(), 0u64..9], fr_int()), |(e, t), c| {
        c.nontrivial_if(*e > 1);
        ensure_eq!(Coefficients::<Fr>::t(*e, fe(t)).val()?, Rr::new(t).pow(&BigUint::from(*e)).sub(&Rr::one()), "t(n, tau)");
        Ok(())
    });
    // the inverse transform of (1, t, t^2, ...) is the Lagrange basis at t
    s.check("lagrange", n(1500, 30_000), || (1usize..=7, prop_oneof![6 => fr_int().prop_map(|v| (v, None)), 1 => (fr_int(), any::<usize>().prop_map(Some))]), |(k, (t, i)), c| {
        let nn = 1usize << k;
        let f = fft::<Fr>(*k);
        let w = domain(*k, &f)?.0;
        let t = match i { Some(i) => { c.class("inside the domain"); w.pow(&BigUint::from(*i % nn)) } None => Rr::new(t) };
        c.nontrivial();
        let mut pw = vec![Rr::one()];
        for j in 1..nn { let x = pw[j - 1].mul(&t); pw.push(x); }
        let got = idft(&f, PointsValue(pw.iter().map(Fr::mk).collect()));
        let zt = t.pow(&BigUint::from(nn as u64)).sub(&Rr::one());
        let ninv = Rr::small(nn as u64).inv().unwrap();
        let mut wj = Rr::one();
        let mut want = vec![];
        for _ in 0..nn {
            let d = t.sub(&wj);
            // L_j(t) = w^j (t^n − 1) / (n (t − w^j)), and 1 at its own node
            want.push(match d.inv() { Some(di) => wj.mul(&zt).mul(&ninv).mul(&di), None => Rr::one() });
            wj = wj.mul(&w);
        }
        same(&got.0, want, "Lagrange basis at a point")
    });
    s.check("operators", n(20_000, 400_000), || (poly(14), poly(14), fr_int(), any::<u8>()), move |(a, b, k, form), c| {
        let (ra, rb, rk) = (rrs(a), rrs(b), Rr::new(k));
        c.nontrivial_if(nz(a) > 0 && nz(b) > 0);
        c.class_if(a.len() < b.len(), "left shorter"); c.class_if(a.len() > b.len(), "left longer"); c.class_if(a.len() == b.len(), "equal length");
        // operands as the constructor builds them, or with leading zeros kept
        let mk = |v: &[BigUint], raw: bool| if raw { Coefficients(fes(v)) } else { Coefficients::new(fes(v)) };
        let (pa, pb) = (mk(a, form & 1 == 1), mk(b, form & 2 == 2));
        let m = a.len().max(b.len());
        let (wa, wb) = (pad(&ra, m), pad(&rb, m));
        let sum: Vec<Rr> = (0..m).map(|i| wa[i].add(&wb[i])).collect();
        let dif: Vec<Rr> = (0..m).map(|i| wa[i].sub(&wb[i])).collect();
        for (p, w, what) in [(&pa + &pb, &sum, "&a + &b"), (pa.clone() + pb.clone(), &sum, "a + b"), (pa.clone() - pb.clone(), &dif, "a - b"), ([pa.clone(), pb.clone(), pa.clone()].into_iter().sum::<Coefficients<Fr>>(), &(0..m).map(|i| sum[i].add(&wa[i])).collect(), "sum")] {
            same(&p.0, w.clone(), what)?;
            canonical(&p, what)?;
        }
        let sc = &pa * &fe(k);
        same(&sc.0, ra.iter().map(|x| x.mul(&rk)).collect(), "&a * &k")?;
        canonical(&sc, "&a * &k")?;
        ensure_eq!(pa.evaluate(&fe(k)).val()?, poly_eval(&ra, &rk), "evaluate");
        // (a − a(k)) = (x − k) q
        let q = vals(&pa.divide(&fe(k)).0)?;
        let mut back = if q.is_empty() { vec![] } else { poly_mul(&q, &[rk.neg(), Rr::one()]) };
        back = pad(&back, back.len().max(1));
        back[0] = back[0].add(&poly_eval(&ra, &rk));
        ensure!(norm(back.clone()) == norm(ra.clone()), "division by x - k: q (x - k) + a(k) is {:?}, expected {:?}", back, ra);
        // values
        let (va, vb) = (PointsValue(fes(a)), PointsValue(fes(b)));
        ensure!(vals(&(&va - &vb).0)? == dif, "difference of value lists");
        ensure!(vals(&(&va * &vb).0)? == (0..m).map(|i| wa[i].mul(&wb[i])).collect::<Vec<_>>(), "product of value lists");
        same(&va.clone().format_degree().0, ra.clone(), "format_degree of values")?;
        ensure!(va.0.is_empty() || va[va.0.len() - 1] == va.0[va.0.len() - 1], "indexing of values");
        // canonical form
        let f = Coefficients::new(fes(a));
        same(&f.0, ra.clone(), "new")?;
        canonical(&f, "new")?;
        ensure!(mk(a, true).format_degree() == f, "format_degree");
        let nra = norm(ra.clone());
        ensure_eq!(f.degree(), nra.len().saturating_sub(1), "degree");
        ensure!(is_zero(&pa) == nra.is_empty(), "is_zero");
        Ok(())
    });
    // powers of the drawn point; blinding is a multiple of the vanishing polynomial
    s.check("setup-commit-blind", n(2000, 40_000), || (0usize..7, any::<u64>(), any::<u64>(), 0usize..4, 0u8..9), |(k, seed, rs, hide, zeros), c| {
        let nn = 1usize << k;
        let (t, dom) = Coefficients::<Fr>::setup(*k, Rng(*rs));
        let t = t.val()?;
        ensure_eq!(dom.len(), nn, "number of powers");
        let mut p = Rr::one();
        for d in &dom { ensure!(d.val()? == p, "powers of the drawn point"); p = p.mul(&t); }
        let v = rrs(&expand(&V::Seeded { len: nn, seed: *seed, zeros: *zeros, tail: 0 }));
        let poly = Coefficients(v.iter().map(Fr::mk).collect());
        c.nontrivial_if(v.iter().any(|x| !x.is_zero()));
        ensure_eq!(poly.commit(&dom).val()?, poly_eval(&v, &t), "commitment to a full-length polynomial");
        if *hide < nn {
            let mut b = poly.clone();
            b.blind(*hide, &mut Rng(rs.wrapping_add(1)));
            let b = vals(&b.0)?;
            ensure_eq!(b.len(), nn + hide + 1, "length of the blinded polynomial");
            let mut fold = pad(&[], nn);
            for (i, x) in b.iter().enumerate() { fold[i % nn] = fold[i % nn].add(x); }
            ensure!(fold == v, "the blinded polynomial differs on the domain");
            ensure!(b[nn..].iter().any(|x| !x.is_zero()), "blinding added nothing");
        }
        Ok(())
    });
    s.check("random-point", n(200, 2000), || any::<u64>(), |s, c| { c.nontrivial(); let (t, _) = Coefficients::<Fr>::setup(1, Rng(*s)); let (u, _) = Coefficients::<Fr>::setup(1, Rng(s ^ 1)); ensure!(t != u, "two different random streams give the same point"); Ok(()) });
}

/// Deterministic generator for the library's randomised entry points.
#[derive(Clone)]
pub struct Rng(pub u64);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 { splitmix(&mut self.0) as u32 }
    fn next_u64(&mut self) -> u64 { splitmix(&mut self.0) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = splitmix(&mut self.0).to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}

