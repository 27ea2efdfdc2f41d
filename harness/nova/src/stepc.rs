//! C27: the step circuit admits only the honest transition.
use crate::fold::add_scaled;
use crate::nv::*;
use crate::recursion::*;
use crate::sys::*;
use vk::refs::*;
use vk::*;
use zknova::verif as nv;
use zkstd::circuit::prelude::*;
use zkstd::common::{IntGroup, Ring};

type RelSpec = (usize, usize, BigUint, Vec<BigUint>);
#[derive(Clone, Debug)]
pub struct Case { f: Step, base: bool, i: u64, z0: BigUint, zi: BigUint, single: (usize, Vec<BigUint>), range: RelSpec, t: usize, seed: u64 }
fn case<D: Nv>(generic: bool) -> BoxedStrategy<Case> {
    let v = move || if generic { any::<[u64; 4]>().prop_map(|l| from_limbs(&l)).boxed() } else { D::int() };
    let s = move || if generic { any::<[u64; 4]>().prop_map(|l| low(&from_limbs(&l), 252)).boxed() } else { D::nint() };
    let p = move || if generic { (4usize..60).boxed() } else { pt_ix() };
    ((step(), any::<bool>(), 1u64..1 << 40, v(), v()), ((p(), prop::collection::vec(s(), 2)), (p(), p(), s(), prop::collection::vec(s(), 2)), p(), any::<u64>()))
        .prop_map(|((f, base, i, z0, zi), (single, mut range, t, seed))| {
            range.2 = low(&range.2, 200);
            let m = D::M::p();
            Case { f, base, i: if base { 0 } else { i }, z0: z0 % m, zi: zi % m, single, range, t, seed }
        }).boxed()
}
/// The honest inputs of a case: at a counter other than zero the incoming instance carries the hash.
fn inputs<D: Nv>(c: &Case) -> (In<D>, Rel<D>, (Pf<D>, Vec<BigUint>), BigUint) {
    let zi = if c.base { c.z0.clone() } else { c.zi.clone() };
    let range = Rel::<D> { w: pt::<D>(c.range.0), e: pt::<D>(c.range.1), u: c.range.2.clone(), x: c.range.3.iter().map(|v| v % D::N::p()).collect() };
    let mut x: Vec<BigUint> = c.single.1.iter().map(|v| low(v, 252)).collect();
    if !c.base { x[0] = range.hash(c.i, &[c.z0.clone()], &[zi.clone()]); }
    let single = (pt::<D>(c.single.0), x);
    (In { i: c.i, z0: c.z0.clone(), zi: Some(zi.clone()), single: Some(single.clone()), range: Some(range.clone()), t: Some(pt::<D>(c.t)) }, range, single, zi)
}
/// The public outputs the step must have.
fn outputs<D: Nv>(c: &Case) -> (BigUint, BigUint) {
    let (_, range, single, zi) = inputs::<D>(c);
    let next = if c.base {
        if D::NAME == "Bn254" { Rel::<D> { w: None, e: None, u: BigUint::zero(), x: vec![BigUint::zero(); 2] } } else { Rel { w: single.0.clone(), e: None, u: BigUint::one(), x: single.1.clone() } }
    } else {
        let t = pt::<D>(c.t);
        let r = range.challenge(&t);
        Rel { w: add_scaled::<D>(&range.w, &r, &single.0), e: add_scaled::<D>(&range.e, &r, &t), u: &range.u + &r, x: range.x.iter().zip(&single.1).map(|(a, b)| (a + &r * b) % D::N::p()).collect() }
    };
    (single.1[1].clone(), next.hash(c.i + 1, &[c.z0.clone()], &[c.f.next::<D::M>(&zi)]))
}
fn run<D: Nv>(c: &Case, v: &In<D>) -> Sys<D::F> {
    program(&c.f, &c.f);
    Sys::of(&synth::<D>(v).0)
}
fn pubs<D: Nv>(z: &[D::F]) -> Result<(BigUint, BigUint), String> { Ok((D::int_of(&z[1])?, D::int_of(&z[2])?)) }

/// Where the circuit keeps its inputs: wires whose value follows the input in three honest runs.
struct Map { i: usize, z0: usize, zi: Vec<usize>, single_w: Vec<usize>, x0: usize, x1: usize, rest: Vec<usize> }
fn locate<D: Nv>(c: &Case, sys: &Sys<D::F>) -> Option<Map> {
    // another run, and one with the identity for every point
    let mut b = c.clone();
    b.base = false;
    b.i = c.i + 12_345_678_901;
    let add = |v: &BigUint| (v + (BigUint::one() << 170u32) + 987_654_321u32) % D::M::p();
    b.z0 = add(&c.z0);
    b.zi = add(&c.zi);
    b.single.1 = c.single.1.iter().map(|v| low(&add(v), 252)).collect();
    b.range = (c.range.0 + 3, c.range.1 + 3, &c.range.2 + (BigUint::one() << 100u32), c.range.3.iter().map(|v| low(&(v + from_limbs(&[7 << 40, 9 << 40, 11 << 40, 1 << 40])), 250)).collect());
    b.single.0 += 3;
    b.t += 3;
    let mut d = b.clone();
    d.single.0 = 0; d.range.0 = 0; d.range.1 = 0; d.t = 0;
    let (mut ia, mut ib, mut id) = (inputs::<D>(c), inputs::<D>(&b), inputs::<D>(&d));
    // a running instance and single input that differ in every run, also in the base case
    let (za, zb, zd) = (sys.z.clone(), run::<D>(&b, &ib.0).z, run::<D>(&d, &id.0).z);
    let l = sys.l;
    if za.len() != zb.len() || za.len() != zd.len() { return None; }
    let f = |v: &BigUint| D::fe(v);
    let at = |a: &BigUint, b: &BigUint, d: &BigUint, from: usize| { let (a, b, d) = (f(a), f(b), f(d)); if a == b { return None; } (from..za.len()).find(|k| za[*k] == a && zb[*k] == b && zd[*k] == d) };
    let point = |pa: &Pf<D>, pb: &Pf<D>| -> Option<Vec<usize>> {
        let (a, b) = (pa.clone()?, pb.clone()?);
        let (zero, one) = (BigUint::zero(), BigUint::one());
        let x = at(&a.0 .0, &b.0 .0, &zero, l)?;
        let y = at(&a.1 .0, &b.1 .0, &one, l)?;
        let z = (y..za.len()).find(|k| za[*k] == D::F::one() && zb[*k] == D::F::one() && zd[*k] == D::F::zero())?;
        Some(vec![x, y, z])
    };
    let big = |a: &BigUint, b: &BigUint| -> Option<Vec<usize>> { limbs64(a).iter().zip(limbs64(b)).map(|(a, b)| at(a, &b, &b, l)).collect() };
    let (_, ra, sa, za_) = (&mut ia.0, &ia.1, &ia.2, &ia.3);
    let (_, rb, sb, zb_) = (&mut ib.0, &ib.1, &ib.2, &ib.3);
    let (_, _, sd, _) = (&mut id.0, &id.1, &id.2, &id.3);
    let mut rest = vec![];
    rest.extend(point(&ra.w, &rb.w)?);
    rest.extend(point(&ra.e, &rb.e)?);
    rest.push(at(&ra.u, &rb.u, &rb.u, l)?);
    rest.extend(big(&ra.x[0], &rb.x[0])?);
    rest.extend(big(&ra.x[1], &rb.x[1])?);
    rest.extend(point(&pt::<D>(c.t), &pt::<D>(b.t))?);
    let z0 = at(&c.z0, &b.z0, &b.z0, l)?;
    // in the base case the current state equals the initial one
    let zi = vec![(l..za.len()).find(|k| *k != z0 && za[*k] == f(za_) && zb[*k] == f(zb_) && zd[*k] == f(zb_))?];
    Some(Map { i: at(&BigUint::from(c.i), &BigUint::from(b.i), &BigUint::from(b.i), l)?, z0, zi, single_w: point(&sa.0, &sb.0)?, x0: at(&sa.1[0], &sb.1[0], &sd.1[0], l)?, x1: at(&sa.1[1], &sb.1[1], &sd.1[1], l)?, rest })
}
/// Wires that no row defines from others: inputs, hints and constants held in wires.
fn sources<F: zkstd::common::PrimeField>(s: &Sys<F>) -> Vec<usize> {
    let mut defined = vec![false; s.z.len()];
    for [a, b, c] in &s.rows {
        let m = a.iter().chain(b).chain(c).map(|t| t.0).max().unwrap_or(0);
        if a.iter().chain(b).all(|t| t.0 != m) { defined[m] = true; }
        // linear rows define their highest wire wherever it stands
        let constant = |t: &[(usize, F)]| t.iter().all(|x| x.0 == 0);
        if constant(b) || constant(a) { defined[m] = true; }
    }
    let r = s.roles();
    (s.l..s.z.len()).filter(|i| !defined[*i] && !r.boolean[*i]).collect()
}
fn attack<D: Nv>(c: &Case, quick: bool) -> Result<(bool, u64, u64), String> {
    let (v, ..) = inputs::<D>(c);
    let sys = run::<D>(c, &v);
    ensure!(sys.sat(&sys.z), "the honest step is unsatisfied");
    let want = outputs::<D>(c);
    ensure_eq!(pubs::<D>(&sys.z)?, want, "public outputs of the honest step");
    let m = match locate::<D>(c, &sys) { Some(m) => m, None => return Ok((false, 0, 0)) };
    // at counter zero only the counter, the initial state and the incoming instance (in the primary circuit
    // only its second input) determine the outputs
    let mut pins = vec![m.i, m.z0, m.x1];
    if !c.base { pins.extend(&m.zi); pins.extend(&m.rest); }
    if !c.base || D::NAME != "Bn254" { pins.extend(&m.single_w); pins.push(m.x0); }
    let mut free = vec![true; sys.z.len()];
    free[0] = false;
    for p in &pins { free[*p] = false; }
    let accept = |z: &[D::F]| pubs::<D>(z).map_or(false, |o| o == want);
    let (mut tried, mut reached) = (0, 0);
    let mut seed = c.seed;
    // 1. internal wires of runs on other inputs
    let mut others: Vec<(&str, In<D>)> = vec![];
    let bump = |v: &BigUint| (v + 1u32 + (BigUint::one() << 77u32)) % D::M::p();
    for k in 0..7 {
        let (mut w, range, single, _) = inputs::<D>(c);
        let what = match k {
            0 => { w.zi = Some(bump(w.zi.as_ref().unwrap())); "another current state" }
            1 => { w.single = Some((single.0.clone(), vec![low(&bump(&single.1[0]), 252), single.1[1].clone()])); "another first input" }
            2 => { w.single = Some((single.0.clone(), vec![single.1[0].clone(), low(&bump(&single.1[1]), 252)])); "another second input" }
            3 => { w.single = Some((pt::<D>(c.single.0 + 7), single.1.clone())); "another incoming commitment" }
            4 => { w.t = Some(pt::<D>(c.t + 7)); "another cross term" }
            5 => { w.z0 = bump(&w.z0); "another initial state" }
            _ => { let mut r = range.clone(); match c.seed % 4 { 0 => r.w = pt::<D>(c.range.0 + 7), 1 => r.e = pt::<D>(c.range.1 + 7), 2 => r.u = &r.u + 1u32, _ => r.x[0] = (&r.x[0] + 1u32) % D::N::p() } w.range = Some(r); "another running instance" }
        };
        if quick && splitmix(&mut seed) % 2 == 0 && k != 0 { continue; }
        others.push((what, w));
    }
    for (what, w) in &others {
        let o = run::<D>(c, w);
        // the run itself, judged by its outputs when its own inputs are the pinned ones
        let same_pins = pins.iter().all(|p| o.z[*p] == sys.z[*p]);
        if same_pins && o.sat(&o.z) { reached += 1; ensure!(accept(&o.z), "a step with {} satisfies all constraints with other outputs", what); }
        let st = transplant::<D>(&sys, &o.z, &free, seed, &accept).map_err(|e| format!("{}: {}", what, e))?;
        tried += st.tried; reached += st.reached;
    }
    // 2. hints and constants held in wires
    let src: Vec<usize> = sources(&sys).into_iter().filter(|i| free[*i]).collect();
    let defs = sys.definitions();
    for p in src.iter().cycle().take(src.len() * if quick { 2 } else { 8 }).cloned() {
        let mut z = sys.z.clone();
        z[p] = match splitmix(&mut seed) % 4 { 0 => z[p] + D::F::one(), 1 => D::F::zero(), 2 => -z[p], _ => D::fe(&BigUint::from(splitmix(&mut seed))) };
        if z[p] == sys.z[p] { z[p] = z[p] + D::F::one(); }
        let mut fr = free.clone();
        fr[p] = false;
        tried += 1;
        if let Some(z2) = sys.follow(z, &fr, Some(&[p]), &defs, &mut seed) {
            reached += 1;
            ensure!(accept(&z2), "wire {} set from {:x} to {:x} (the others following) satisfies all constraints with other outputs", p - sys.l, D::int_of(&sys.z[p])?, D::int_of(&z2[p])?);
        }
    }
    Ok((true, tried, reached))
}
const WRONG: [&str; 8] = ["hash", "initial state", "current state", "counter", "running witness commitment", "running error commitment", "running scalar", "running public input"];
/// Changes one input so that the incoming instance no longer carries the hash of the others.
fn wrong_input<D: Nv>(c: &Case, wrong: u8, v: &mut In<D>) {
    let (_, range, single, zi) = inputs::<D>(c);
    let p = |i: usize| pt::<D>(i + 7);
    match wrong {
        0 => v.single = Some((single.0, vec![low(&(&single.1[0] + 1u32), 252), single.1[1].clone()])),
        1 => v.z0 = (&c.z0 + 1u32) % D::M::p(),
        2 => v.zi = Some((&zi + 1u32) % D::M::p()),
        3 => v.i += 1,
        k => { let mut r = range; match k { 4 => r.w = p(c.range.0), 5 => r.e = p(c.range.1), 6 => r.u = (&r.u + 1u32) % D::N::p(), _ => { let j = c.seed as usize % 2; r.x[j] = (&r.x[j] + 1u32) % D::N::p() } } v.range = Some(r) }
    }
}
/// Inputs that do not belong together, at a counter other than zero: no choice of the other wires may satisfy
/// the constraints. Every wire near a violated row is set to other values, what it defines following.
fn mismatch<D: Nv>(c: &Case, wrong: u8) -> Result<(bool, u64), String> {
    let (v, ..) = inputs::<D>(c);
    let m = match locate::<D>(c, &run::<D>(c, &v)) { Some(m) => m, None => return Ok((false, 0)) };
    let mut w = v;
    wrong_input::<D>(c, wrong, &mut w);
    let sys = run::<D>(c, &w);
    let bad: Vec<usize> = (0..sys.rows.len()).filter(|r| !sys.holds(*r, &sys.z)).collect();
    ensure!(!bad.is_empty(), "a step is satisfied although the incoming instance does not carry the hash of its inputs (changed: {})", WRONG[wrong as usize]);
    let mut free = vec![true; sys.z.len()];
    free[0] = false;
    for p in [m.i, m.z0, m.x0, m.x1].iter().chain(&m.zi).chain(&m.rest).chain(&m.single_w) { free[*p] = false; }
    let defs = sys.definitions();
    let mut by = vec![None; sys.z.len()];
    for (r, d) in defs.0.iter().enumerate() { if let Some(d) = d { by[*d] = Some(r); } }
    // wires the violated rows are computed from, nearest first
    let mut near: Vec<usize> = vec![];
    let mut rows: std::collections::VecDeque<(usize, usize)> = bad.iter().take(4).map(|r| (*r, 0)).collect();
    let mut seen: std::collections::BTreeSet<usize> = bad.iter().cloned().collect();
    while let Some((r, depth)) = rows.pop_front() {
        if near.len() >= 30 { break; }
        for i in sys.rows[r].iter().flatten().map(|t| t.0) {
            if !free[i] || near.contains(&i) { continue; }
            near.push(i);
            // the row that defines a wire and, for a flag, the rows it is checked in
            let mut next: Vec<usize> = by[i].into_iter().collect();
            if sys.uses[i].len() <= 4 { next.extend(&sys.uses[i]); }
            if depth < 3 { for n in next { if seen.insert(n) { rows.push_back((n, depth + 1)); } } }
        }
    }
    let mut seed = c.seed;
    let mut tried = 0;
    for p in near {
        for k in 0..3 {
            let mut z = sys.z.clone();
            z[p] = match k { 0 => D::F::zero(), 1 => D::F::one(), _ => if splitmix(&mut seed) % 2 == 0 { -z[p] } else { z[p] + D::F::one() } };
            if z[p] == sys.z[p] { continue; }
            let mut fr = free.clone();
            fr[p] = false;
            tried += 1;
            let mut dirty: Vec<usize> = vec![p];
            for r in &bad { dirty.extend(sys.rows[*r].iter().flatten().map(|t| t.0).filter(|i| *i != 0).take(1)); }
            if let Some(z2) = sys.follow(z, &fr, Some(&dirty), &defs, &mut seed) {
                if !sys.sat(&z2) { continue; }
                return Err(format!("a step whose incoming instance does not carry the hash of its inputs (changed: {}) satisfies all constraints with wire {} set to {:x}", WRONG[wrong as usize], p - sys.l, D::int_of(&z2[p])?));
            }
        }
    }
    Ok((true, tried))
}
fn checks<D: Nv>(s: &mut Suite) {
    let nm = |t: &str| format!("{}/{}", t, if D::NAME == "Bn254" { "primary" } else { "secondary" });
    s.check(&nm("transition"), n(24, 600).shrink(6), || (case::<D>(false), 0u8..8), |(c, wrong), cs| {
        let (mut v, range, single, zi) = inputs::<D>(c);
        cs.class(if c.base { "counter zero" } else { "counter not zero" });
        let want = outputs::<D>(c);
        let sys = run::<D>(c, &v);
        ensure_eq!(pubs::<D>(&sys.z)?, want, "public outputs of the step at counter {}", c.i);
        ensure!(sys.sat(&sys.z), "the honest step at counter {} is unsatisfied", c.i);
        cs.nontrivial();
        // inputs that do not belong together
        if c.base {
            let other = (&zi + 1u32) % D::M::p();
            v.zi = Some(other);
            let sys = run::<D>(c, &v);
            if sys.sat(&sys.z) { ensure_eq!(pubs::<D>(&sys.z)?, want, "public outputs at counter zero with a current state other than the initial one"); }
        } else {
            wrong_input::<D>(c, *wrong, &mut v);
            let sys = run::<D>(c, &v);
            ensure!(!sys.sat(&sys.z), "a step is satisfied although the incoming instance does not carry the hash of its counter, states and running instance (changed: {})", WRONG[*wrong as usize]);
        }
        Ok(())
    });
    s.check(&nm("mismatch"), n(8, 200).shrink(1), || (case::<D>(true), 0u8..8), |(c, wrong), cs| {
        let mut c = c.clone();
        if c.base { c.base = false; c.i = 1 + c.seed % 1000; }
        let (found, tried) = mismatch::<D>(&c, *wrong)?;
        cs.nontrivial_if(found && tried > 0);
        cs.class(if found { "inputs located" } else { "inputs not located" });
        cs.class(WRONG[*wrong as usize]);
        Ok(())
    });
    s.check(&nm("dishonest"), n(8, 300).shrink(1), || case::<D>(true), |c, cs| {
        let (found, tried, reached) = attack::<D>(c, true)?;
        cs.nontrivial_if(found && tried > 0);
        cs.class(if found { "inputs located" } else { "inputs not located" });
        cs.class(if c.base { "counter zero" } else { "counter not zero" });
        cs.class_if(reached > 0, "another satisfying assignment reached");
        Ok(())
    });
}
pub fn c27(s: &mut Suite) {
    s.rule("honest transitions always count as non-trivial; attacks when the input wires were located and at least one dishonest assignment was tried");
    s.assume("running and incoming instances as the recursion produces them: scalars below 2^200, incoming public inputs below 2^252, points on the curve");
    checks::<Bn>(s);
    checks::<Gk>(s);
}
