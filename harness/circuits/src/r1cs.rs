//! C10: constraint-system satisfaction and the linear algebra below it.
use crate::el::*;
use crate::sys::*;
use std::collections::BTreeMap;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkstd::circuit::prelude::*;
use zkstd::common::{Decode, Encode, PrimeField};
use zkstd::matrix::{DenseVectors, SparseMatrix, SparseRow};

type Terms = Vec<(W, BigUint)>;
/// A linear combination as an expression tree.
#[derive(Clone, Debug)]
enum Ex {
    Leaf(Terms),
    Const(BigUint),
    One,
    Add(Box<Ex>, Box<Ex>, u8),
    Sub(Box<Ex>, Box<Ex>, u8),
    Neg(Box<Ex>, bool),
    Mul(Box<Ex>, BigUint, u8),
}
const NX: usize = 4; // public wires incl. the constant one
const NW: usize = 5;
fn wire_any() -> impl Strategy<Value = W> { prop_oneof![2 => (0usize..NX).prop_map(|i| (false, i)), 3 => (0usize..NW).prop_map(|i| (true, i))] }
fn coeff<D: Dr>() -> BoxedStrategy<BigUint> {
    prop_oneof![3 => (0u64..3).prop_map(BigUint::from), 1 => Just(D::M::p() - 1u32), 3 => D::int()].boxed()
}
fn terms<D: Dr>(dup: bool) -> BoxedStrategy<Terms> {
    prop::collection::vec((wire_any(), coeff::<D>()), 0..6).prop_map(move |t| {
        if dup { return t; }
        let mut m = BTreeMap::new();
        for (w, c) in t { m.insert(w, c); }
        m.into_iter().collect()
    }).boxed()
}
fn ex<D: Dr>(dup: bool) -> BoxedStrategy<Ex> {
    let leaf = prop_oneof![6 => terms::<D>(dup).prop_map(Ex::Leaf), 1 => coeff::<D>().prop_map(Ex::Const), 1 => Just(Ex::One)];
    leaf.prop_recursive(4, 12, 2, |i| {
        prop_oneof![
            4 => (i.clone(), i.clone(), 0u8..4).prop_map(|(a, b, f)| Ex::Add(Box::new(a), Box::new(b), f)),
            4 => (i.clone(), i.clone(), 0u8..4).prop_map(|(a, b, f)| Ex::Sub(Box::new(a), Box::new(b), f)),
            1 => (i.clone(), 0u8..4).prop_map(|(a, f)| Ex::Sub(Box::new(a.clone()), Box::new(a), f)),
            1 => (i.clone(), any::<bool>()).prop_map(|(a, f)| Ex::Neg(Box::new(a), f)),
            2 => (i, coeff::<D>(), 0u8..4).prop_map(|(a, c, f)| Ex::Mul(Box::new(a), c, f)),
        ]
    }).boxed()
}
type Lin = BTreeMap<W, BigUint>;
fn lin<D: Dr>(e: &Ex) -> Lin {
    let p = D::M::p();
    let mut m: Lin = match e {
        Ex::Leaf(t) => { let mut m = Lin::new(); for (w, c) in t { *m.entry(*w).or_default() += c; } m }
        Ex::Const(c) => [((false, 0), c.clone())].into_iter().collect(),
        Ex::One => [((false, 0), BigUint::one())].into_iter().collect(),
        Ex::Add(a, b, _) => { let mut m = lin::<D>(a); for (w, c) in lin::<D>(b) { *m.entry(w).or_default() += c; } m }
        Ex::Sub(a, b, _) => { let mut m = lin::<D>(a); for (w, c) in lin::<D>(b) { *m.entry(w).or_default() += p - c; } m }
        Ex::Neg(a, _) => lin::<D>(a).into_iter().map(|(w, c)| (w, p - c)).collect(),
        Ex::Mul(a, k, _) => lin::<D>(a).into_iter().map(|(w, c)| (w, c * k)).collect(),
    };
    for c in m.values_mut() { *c = &*c % p; }
    m.into_iter().filter(|(_, c)| !c.is_zero()).collect()
}
fn build<D: Dr>(e: &Ex) -> SparseRow<D::F> {
    match e {
        Ex::Leaf(t) => row::<D>(t),
        Ex::Const(c) => SparseRow::from(D::fe(c)),
        Ex::One => SparseRow::one(),
        Ex::Add(a, b, f) => { let (a, b) = (build::<D>(a), build::<D>(b)); match f { 0 => a + b, 1 => &a + b, 2 => a + &b, _ => &a + &b } }
        Ex::Sub(a, b, f) => { let (a, b) = (build::<D>(a), build::<D>(b)); match f { 0 => a - b, 1 => &a - b, 2 => a - &b, _ => &a - &b } }
        Ex::Neg(a, f) => { let a = build::<D>(a); if *f { -a } else { -&a } }
        Ex::Mul(a, k, f) => { let a = build::<D>(a); let k = D::fe(k); match f { 0 => a * k, 1 => &a * k, 2 => a * &k, _ => &a * &k } }
    }
}
fn val(m: &Lin, x: &[BigUint], w: &[BigUint], p: &BigUint) -> BigUint {
    m.iter().map(|((k, i), c)| c * if *k { &w[*i] } else { &x[*i] }).sum::<BigUint>() % p
}
/// public values (the constant one included) and witness values
fn assignment<D: Dr>() -> BoxedStrategy<(Vec<BigUint>, Vec<BigUint>)> {
    (prop::collection::vec(D::int(), NX - 1), prop::collection::vec(D::int(), NW)).prop_map(|(mut x, w)| { x.insert(0, BigUint::one()); (x, w) }).boxed()
}
fn dv<D: Dr>(v: &[BigUint]) -> DenseVectors<D::F> { DenseVectors::new(v.iter().map(D::fe).collect()) }

fn rows<D: Dr>(s: &mut Suite) {
    s.check(&format!("{}/rows", D::NAME), n(20000, 400000), || (any::<bool>().prop_flat_map(|d| ex::<D>(d)), assignment::<D>()), |(e, (x, w)), c| {
        let p = D::M::p();
        let r = build::<D>(e);
        let m = lin::<D>(e);
        let got = D::int_of(&r.evaluate(&dv::<D>(x), &dv::<D>(w)))?;
        ensure_eq!(got, val(&m, x, w, p), "evaluation of a linear combination");
        let sys = D::int_of(&at(&r, NX, &[x.clone(), w.clone()].concat().iter().map(D::fe).collect::<Vec<_>>()))?;
        ensure_eq!(sys, got, "re-evaluation");
        c.nontrivial_if(!m.is_empty() && !matches!(e, Ex::Leaf(_) | Ex::Const(_) | Ex::One));
        c.class_if(m.is_empty(), "zero");
        let constant = m.keys().all(|k| *k == (false, 0));
        c.class_if(constant && !m.is_empty(), "constant");
        if let Some(k) = r.as_constant() {
            ensure!(constant, "as_constant of a non-constant combination returned {:x}", D::int_of(&k)?);
            ensure_eq!(D::int_of(&k)?, m.get(&(false, 0)).cloned().unwrap_or_default(), "as_constant value");
        }
        Ok(())
    });
    // without repeated wires the representation is canonical: no zero terms, exact constant detection
    s.check(&format!("{}/rows_canonical", D::NAME), n(20000, 400000), || ex::<D>(false), |e, c| {
        let r = build::<D>(e);
        let m = lin::<D>(e);
        ensure_eq!(r.num_terms(), m.len(), "number of non-zero terms");
        let constant = m.keys().all(|k| *k == (false, 0));
        match r.as_constant() {
            Some(k) => { ensure!(constant, "as_constant returned a value for a non-constant combination"); ensure_eq!(D::int_of(&k)?, m.get(&(false, 0)).cloned().unwrap_or_default(), "as_constant value"); }
            None => ensure!(!constant, "as_constant missed the constant {:x}", m.get(&(false, 0)).cloned().unwrap_or_default()),
        }
        c.nontrivial_if(!matches!(e, Ex::Leaf(_)));
        c.class_if(constant, "constant");
        // the structured encoding is the list of (wire, coefficient) terms
        let enc = r.encode();
        let back = SparseRow::<D::F>::decode(&mut &enc[..]).map_err(|e| e.to_string())?;
        ensure!(back == r, "row changed by encode/decode");
        Ok(())
    });
}

#[derive(Clone, Debug)]
enum Gate { Mul(Ex, Ex, Ex), Add(Ex, Ex, Ex), Sub(Ex, Ex, Ex), Eq(Ex, Ex) }
/// `fix`: complete the third operand so that the gate holds
fn gate<D: Dr>() -> BoxedStrategy<(Gate, bool)> {
    let e = || any::<bool>().prop_flat_map(|d| ex::<D>(d));
    (prop_oneof![
        3 => (e(), e(), e()).prop_map(|(a, b, c)| Gate::Mul(a, b, c)),
        2 => (e(), e(), e()).prop_map(|(a, b, c)| Gate::Add(a, b, c)),
        2 => (e(), e(), e()).prop_map(|(a, b, c)| Gate::Sub(a, b, c)),
        2 => (e(), e()).prop_map(|(a, b)| Gate::Eq(a, b)),
    ], prop::bool::weighted(0.85)).boxed()
}
fn fill<D: Dr>(cs: &mut R1cs<D::C>, x: &[BigUint], w: &[BigUint]) {
    // interleave public and private allocation
    for i in 0..NX.max(NW) {
        if i + 1 < NX { FieldAssignment::instance(cs, D::fe(&x[i + 1])); }
        if i < NW { FieldAssignment::witness(cs, D::fe(&w[i])); }
    }
}
fn gates<D: Dr>(s: &mut Suite) {
    s.check(&format!("{}/gates", D::NAME), n(6000, 120000), || (prop::collection::vec(gate::<D>(), 0..7), assignment::<D>()), |(gs, (x, w)), c| {
        let p = D::M::p();
        let mut cs: R1cs<D::C> = R1cs::default();
        fill::<D>(&mut cs, x, w);
        ensure_eq!(cs.l(), NX, "number of public values");
        ensure_eq!(cs.m_l_1(), NW, "number of witness values");
        for (g, wx) in [(cs.x(), x), (cs.w(), w)] { for (a, b) in g.iter().zip(wx) { ensure_eq!(D::int_of(a)?, *b, "stored assignment"); } }
        let mut want = true;
        let mut model: Vec<[Lin; 3]> = vec![];
        let v = |e: &Lin| val(e, x, w, p);
        let one: Lin = [((false, 0), BigUint::one())].into_iter().collect();
        let addl = |a: &Lin, b: &Lin, s: &BigUint| { let mut m = a.clone(); for (w, c) in b { let e = m.entry(*w).or_default(); *e = (&*e + c * s) % p; } m };
        for (g, fix) in gs {
            // completing: c += (needed - value)
            let complete = |e: &Ex, need: BigUint| -> Ex {
                if !*fix { return e.clone(); }
                let d = (need + p - v(&lin::<D>(e))) % p;
                if d.is_zero() { e.clone() } else { Ex::Add(Box::new(e.clone()), Box::new(Ex::Const(d)), 3) }
            };
            match g {
                Gate::Mul(a, b, c3) => {
                    let (la, lb) = (lin::<D>(a), lin::<D>(b));
                    let c3 = complete(c3, v(&la) * v(&lb) % p);
                    let lc = lin::<D>(&c3);
                    want &= v(&la) * v(&lb) % p == v(&lc);
                    cs.mul_gate(&build::<D>(a), &build::<D>(b), &build::<D>(&c3));
                    model.push([la, lb, lc]);
                }
                Gate::Add(a, b, c3) => {
                    let (la, lb) = (lin::<D>(a), lin::<D>(b));
                    let c3 = complete(c3, (v(&la) + v(&lb)) % p);
                    let lc = lin::<D>(&c3);
                    want &= (v(&la) + v(&lb)) % p == v(&lc);
                    cs.add_gate(&build::<D>(a), &build::<D>(b), &build::<D>(&c3));
                    model.push([addl(&la, &lb, &BigUint::one()), one.clone(), lc]);
                }
                Gate::Sub(a, b, c3) => {
                    let (la, lb) = (lin::<D>(a), lin::<D>(b));
                    let c3 = complete(c3, (v(&la) + p - v(&lb)) % p);
                    let lc = lin::<D>(&c3);
                    want &= (v(&la) + p - v(&lb)) % p == v(&lc);
                    cs.sub_gate(&build::<D>(a), &build::<D>(b), &build::<D>(&c3));
                    model.push([addl(&la, &lb, &(p - 1u32)), one.clone(), lc]);
                }
                Gate::Eq(a, b) => {
                    let b = complete(b, v(&lin::<D>(a)));
                    let (la, lb) = (lin::<D>(a), lin::<D>(&b));
                    want &= v(&la) == v(&lb);
                    cs.equal_gate(&build::<D>(a), &build::<D>(&b));
                    model.push([la, one.clone(), lb]);
                }
            }
        }
        ensure_eq!(cs.m(), gs.len() as u64, "number of recorded constraints");
        ensure_eq!(cs.is_sat(), want, "satisfaction of {} gates", gs.len());
        c.nontrivial_if(gs.len() > 1);
        c.class(if want { "satisfied" } else { "unsatisfied" });
        // row evaluation, matrix-vector product, column view and an independent evaluator agree
        let (ea, eb, ec) = cs.evaluate();
        let (ma, mb, mc) = cs.matrices();
        let zv: Vec<D::F> = [cs.x(), cs.w()].concat();
        let z = DenseVectors::new(zv.clone());
        let cols = cs.z_vectors(cs.l(), cs.m_l_1());
        for (k, (ev, (mat, (cx, cw)))) in [(ea, (ma, (cols.0 .0, cols.1 .0))), (eb, (mb, (cols.0 .1, cols.1 .1))), (ec, (mc, (cols.0 .2, cols.1 .2)))].into_iter().enumerate() {
            ensure_eq!(ev.len(), gs.len(), "row evaluation length");
            let pr = mat.prod(cs.m(), cs.l(), &z).get();
            ensure_eq!(pr.len(), gs.len(), "matrix-vector product length");
            ensure!(cx.len() == NX && cw.len() == NW, "column view has {}+{} columns", cx.len(), cw.len());
            let mut got: Vec<Lin> = vec![Lin::new(); gs.len()];
            for (kind, cc) in [(false, &cx), (true, &cw)] {
                for (i, col) in cc.iter().enumerate() { for (co, r) in col {
                    ensure!(*r < gs.len(), "column view names row {}", r);
                    *got[*r].entry((kind, i)).or_default() += D::int_of(co)?;
                } }
            }
            for r in 0..gs.len() {
                // the row is a linear form: judged by its values, so any equivalent recording is fine
                let want = v(&model[r][k]);
                ensure_eq!(D::int_of(&pr[r])?, D::int_of(&ev[r])?, "product vs row evaluation, matrix {} row {}", k, r);
                ensure_eq!(val(&got[r], x, w, p), D::int_of(&ev[r])?, "column view vs row evaluation, matrix {} row {}", k, r);
                let _ = want;
            }
            let enc = mat.encode();
            let back = SparseMatrix::<D::F>::decode(&mut &enc[..]).map_err(|e| e.to_string())?;
            ensure!(back == mat, "matrix changed by encode/decode");
            let pr2 = back.prod(cs.m(), cs.l(), &z).get();
            ensure!(pr2 == pr, "decoded matrix multiplies differently");
        }
        let sys = Sys::of(&cs);
        ensure_eq!(sys.sat(&sys.z), want, "column view satisfied");
        Ok(())
    });
    // the recorded constraints are the gates as relations: on every other assignment they hold exactly when the gates do
    s.check(&format!("{}/gate_relations", D::NAME), n(6000, 120000), || (gate::<D>(), assignment::<D>(), assignment::<D>(), any::<u8>()), |((g, _), (x, w), (x2, w2), pick), c| {
        let p = D::M::p();
        let mut cs: R1cs<D::C> = R1cs::default();
        fill::<D>(&mut cs, x, w);
        let e: [Lin; 3] = match g {
            Gate::Mul(a, b, d) => { cs.mul_gate(&build::<D>(a), &build::<D>(b), &build::<D>(d)); [lin::<D>(a), lin::<D>(b), lin::<D>(d)] }
            Gate::Add(a, b, d) => { cs.add_gate(&build::<D>(a), &build::<D>(b), &build::<D>(d)); [lin::<D>(a), lin::<D>(b), lin::<D>(d)] }
            Gate::Sub(a, b, d) => { cs.sub_gate(&build::<D>(a), &build::<D>(b), &build::<D>(d)); [lin::<D>(a), lin::<D>(b), lin::<D>(d)] }
            Gate::Eq(a, b) => { cs.equal_gate(&build::<D>(a), &build::<D>(b)); [lin::<D>(a), Lin::new(), lin::<D>(b)] }
        };
        let holds = |x: &[BigUint], w: &[BigUint]| {
            let v: Vec<BigUint> = e.iter().map(|l| val(l, x, w, p)).collect();
            match g {
                Gate::Mul(..) => &v[0] * &v[1] % p == v[2],
                Gate::Add(..) => (&v[0] + &v[1]) % p == v[2],
                Gate::Sub(..) => (&v[0] + p - &v[1]) % p == v[2],
                Gate::Eq(..) => v[0] == v[2],
            }
        };
        let sys = Sys::of(&cs);
        let full = |x: &[BigUint], w: &[BigUint]| -> Vec<D::F> { x.iter().chain(w).map(D::fe).collect() };
        ensure_eq!(sys.sat(&full(x2, w2)), holds(x2, w2), "recorded constraints on another assignment");
        // and on an assignment solved to satisfy them
        let mut free = vec![true; NX + NW];
        free[0] = false;
        let mut seed = *pick as u64;
        if let Some(z) = sys.repair(full(x2, w2), &free, None, &mut seed, true) {
            let zi: Vec<BigUint> = z.iter().map(|f| D::int_of(f)).collect::<Result<_, _>>()?;
            ensure!(holds(&zi[..NX], &zi[NX..]), "the recorded constraints hold but the gate does not");
            c.nontrivial();
        }
        Ok(())
    });
}

fn dense<D: Dr>(s: &mut Suite) {
    s.check(&format!("{}/dense", D::NAME), n(4000, 80000), || (prop::collection::vec((D::int(), D::int()), 0..12), D::int(), D::int()), |(ab, k, extra), c| {
        let p = D::M::p();
        let (a, b): (Vec<BigUint>, Vec<BigUint>) = ab.iter().cloned().unzip();
        let (da, db, kf) = (dv::<D>(&a), dv::<D>(&b), D::fe(k));
        let is = |v: &DenseVectors<D::F>, w: Vec<BigUint>, what: &str| -> R {
            ensure_eq!(v.len(), w.len(), "{} length", what);
            ensure_eq!(v.is_empty(), w.is_empty(), "{} emptiness", what);
            let got = v.get();
            for i in 0..w.len() { ensure_eq!(D::int_of(&got[i])?, w[i], "{} element {}", what, i); ensure!(v[i] == got[i], "{} index", what); }
            ensure!(v.iter().collect::<Vec<_>>() == got, "{} iteration", what);
            Ok(())
        };
        let z = |f: &dyn Fn(&BigUint, &BigUint) -> BigUint| -> Vec<BigUint> { a.iter().zip(&b).map(|(x, y)| f(x, y) % p).collect() };
        is(&(da.clone() + db.clone()), z(&|x, y| x + y), "sum")?;
        is(&(&da + &db), z(&|x, y| x + y), "sum by reference")?;
        is(&(da.clone() - db.clone()), z(&|x, y| x + p - y), "difference")?;
        is(&(da.clone() * db.clone()), z(&|x, y| x * y), "elementwise product")?;
        is(&(da.clone() * kf), z(&|x, _| x * k), "scaling")?;
        is(&(&da * kf), z(&|x, _| x * k), "scaling by reference")?;
        is(&DenseVectors::one(a.len()), vec![BigUint::one(); a.len()], "ones")?;
        is(&DenseVectors::zero(a.len()), vec![BigUint::zero(); a.len()], "zeros")?;
        let mut d = da.clone();
        d.push(D::fe(extra));
        let mut e = a.clone();
        e.push(extra.clone());
        is(&d, e.clone(), "push")?;
        d[0] = kf;
        e[0] = k.clone();
        is(&d, e, "assignment by index")?;
        let enc = da.encode();
        ensure!(DenseVectors::<D::F>::decode(&mut &enc[..]).map_err(|e| e.to_string())? == da, "vector changed by encode/decode");
        c.nontrivial_if(a.len() > 1);
        Ok(())
    });
}
pub fn c10(s: &mut Suite) {
    s.effort(2);
    s.rule("a row case is non-trivial when the expression combines at least two rows and is not the zero form; a gate case when it has at least two gates (or, for relations, when a satisfying assignment was found); a dense case when it has at least two elements");
    rows::<Gk>(s); rows::<Bn>(s);
    gates::<Gk>(s); gates::<Bn>(s);
    dense::<Gk>(s); dense::<Bn>(s);
}
