//! Drivers, generated rows, extraction of the recorded constraint system, an independent evaluator,
//! and the search for dishonest assignments.
use crate::el::*;
use bn_254::{Fq, Fr, G1Affine, G1Projective};
use grumpkin::{Affine as GkAffine, Projective as GkProjective};
use std::collections::BTreeSet;
use vk::refs::*;
use vk::*;
use zknova::{Bn254Driver, GrumpkinDriver};
use zkstd::circuit::prelude::*;
use zkstd::common::{BNAffine, BNProjective, Decode, Encode, Group, IntGroup, PrimeField, Ring};
use zkstd::matrix::{DenseVectors, SparseRow};
use zkstd::r1cs::verif::Wire;

pub trait Dr: 'static + Send + Sync {
    const NAME: &'static str;
    type C: CircuitDriver<Scalar = Self::F> + Send + Sync;
    type M: Modulus;
    type F: El<Ref = Fp<Self::M>> + PrimeField + Encode + Decode;
    /// the curve whose coordinates live in this circuit's field
    type A: BNAffine<Base = Self::F, Extended = Self::P>;
    type P: BNProjective<Base = Self::F, Affine = Self::A>;
    fn b() -> Fp<Self::M>;
    fn int() -> BoxedStrategy<BigUint> { vk::gen::int_mod(Self::M::p(), 256) }
    fn fe(v: &BigUint) -> Self::F { <Self::F as El>::mk(&Fp::new(v)) }
    fn int_of(f: &Self::F) -> Result<BigUint, String> { Ok(f.val()?.0) }
}
pub struct Gk;
impl Dr for Gk {
    const NAME: &'static str = "Grumpkin";
    type C = GrumpkinDriver; type M = MQ; type F = Fq; type A = G1Affine; type P = G1Projective;
    fn b() -> Rq { B_G1.clone() }
}
pub struct Bn;
impl Dr for Bn {
    const NAME: &'static str = "Bn254";
    type C = Bn254Driver; type M = MR; type F = Fr; type A = GkAffine; type P = GkProjective;
    fn b() -> Rr { B_GRUMPKIN.clone() }
}

/// (is_witness, index); (false, 0) is the constant-one wire.
pub type W = (bool, usize);
pub fn wire(w: W) -> Wire { if w.0 { Wire::Witness(w.1 as u64) } else { Wire::Instance(w.1 as u64) } }
pub fn row<D: Dr>(terms: &[(W, BigUint)]) -> SparseRow<D::F> {
    SparseRow::new(terms.iter().map(|(w, c)| (wire(*w), D::fe(c))).collect())
}

/// The recorded constraint system, read through its column view.
#[derive(Clone)]
pub struct Sys<F> {
    pub l: usize,
    pub rows: Vec<[Vec<(usize, F)>; 3]>,
    pub z: Vec<F>,
    pub uses: Vec<Vec<usize>>,
    pub boolean: Vec<bool>,
    /// rows that bind distinct boolean wires to an integer: (wire, exponent) and whether they count positively
    pub deco: std::collections::BTreeMap<usize, (Vec<(usize, usize)>, bool)>,
    /// sums of powers of two times wires that are 0 or 1 in the honest assignment
    sums: std::collections::BTreeMap<usize, (Vec<(usize, usize)>, bool)>,
}
impl<F: PrimeField> Sys<F> {
    pub fn of<C: CircuitDriver<Scalar = F>>(cs: &R1cs<C>) -> Sys<F> {
        let (l, n) = (cs.l(), cs.m_l_1());
        let (x, w) = cs.z_vectors(l, n);
        let mut rows: Vec<[Vec<(usize, F)>; 3]> = vec![Default::default(); cs.m() as usize];
        let mut uses = vec![vec![]; l + n];
        for (k, cols) in [(0, &x.0), (1, &x.1), (2, &x.2)] { for (i, c) in cols.iter().enumerate() { for (v, r) in c { rows[*r][k].push((i, *v)); uses[i].push(*r); } } }
        for (k, cols) in [(0, &w.0), (1, &w.1), (2, &w.2)] { for (i, c) in cols.iter().enumerate() { for (v, r) in c { rows[*r][k].push((l + i, *v)); uses[l + i].push(*r); } } }
        for u in uses.iter_mut() { u.sort(); u.dedup(); }
        let z = [cs.x(), cs.w()].concat();
        let mut s = Sys { l, rows, z, uses, boolean: vec![], deco: Default::default(), sums: Default::default() };
        s.find_roles();
        s
    }
    fn find_roles(&mut self) {
        let n = self.z.len();
        let mut boolean = vec![false; n];
        for row in &self.rows {
            let mut w = 0;
            if row.iter().flatten().any(|(i, _)| { let d = *i != 0 && w != 0 && *i != w; if *i != 0 { w = *i; } d }) || w == 0 { continue; }
            let e = |t: &[(usize, F)], v: F| t.iter().fold(F::zero(), |s, (i, c)| if *i == 0 { s + *c } else { s + *c * v });
            let ok = |v: F| e(&row[0], v) * e(&row[1], v) == e(&row[2], v);
            if ok(F::zero()) && ok(F::one()) && !ok(F::one() + F::one()) { boolean[w] = true; }
        }
        let mut pow = vec![F::one()];
        for i in 0..255 { pow.push(pow[i] + pow[i]); }
        let index: std::collections::HashMap<Vec<u8>, usize> = pow.iter().enumerate().rev().map(|(i, p)| (p.to_raw_bytes(), i)).collect();
        for (k, row) in self.rows.iter().enumerate() {
            let [a, b, c] = row;
            let constant = |t: &[(usize, F)]| t.iter().all(|x| x.0 == 0);
            let value = |t: &[(usize, F)]| t.iter().fold(F::zero(), |s, x| s + x.1);
            let (side, f) = if constant(b) { (a, value(b)) } else if constant(a) { (b, value(a)) } else { continue };
            // the row is f * side - c = 0
            let mut co: std::collections::BTreeMap<usize, F> = Default::default();
            for (i, x) in side { let s = co.entry(*i).or_insert(F::zero()); *s += *x * f; }
            for (i, x) in c { let s = co.entry(*i).or_insert(F::zero()); *s -= *x; }
            for pos in [true, false] {
                let mut v: Vec<(usize, usize)> = co.iter().filter(|(i, _)| **i >= self.l && (self.z[**i] == F::zero() || self.z[**i] == F::one()))
                    .filter_map(|(i, x)| index.get(&(if pos { *x } else { -*x }).to_raw_bytes()).map(|e| (*i, *e))).collect();
                v.sort_by_key(|x| x.1);
                if v.len() >= 64 && v.iter().enumerate().all(|(k, x)| x.1 == k) { self.sums.insert(k, (v, pos)); break; }
            }
            let bits: Vec<(usize, F)> = co.into_iter().filter(|(i, x)| boolean[*i] && *x != F::zero()).collect();
            if bits.len() < 8 { continue; }
            for pos in [true, false] {
                let e: Vec<Option<usize>> = bits.iter().map(|(_, x)| pow.iter().position(|p| *p == if pos { *x } else { -*x })).collect();
                if e.iter().any(|x| x.is_none()) { continue; }
                let v: Vec<(usize, usize)> = bits.iter().zip(&e).map(|(b, e)| (b.0, e.unwrap())).collect();
                let mut es: Vec<usize> = v.iter().map(|x| x.1).collect();
                es.sort(); es.dedup();
                if es.len() == v.len() { self.deco.insert(k, (v, pos)); }
                break;
            }
        }
        self.boolean = boolean;
    }
    fn dot(t: &[(usize, F)], z: &[F]) -> F { t.iter().fold(F::zero(), |s, (i, c)| s + z[*i] * *c) }
    pub fn holds(&self, r: usize, z: &[F]) -> bool {
        let [a, b, c] = &self.rows[r];
        Self::dot(a, z) * Self::dot(b, z) == Self::dot(c, z)
    }
    pub fn sat(&self, z: &[F]) -> bool { (0..self.rows.len()).all(|r| self.holds(r, z)) }
    /// values of wire i that satisfy row r, all other wires as in z
    fn solve(&self, r: usize, i: usize, z: &[F]) -> Vec<F> {
        let part = |t: &[(usize, F)]| {
            let k = t.iter().filter(|(j, _)| *j == i).fold(F::zero(), |s, (_, c)| s + *c);
            (Self::dot(t, z) - z[i] * k, k)
        };
        let [a, b, c] = &self.rows[r];
        let ((a0, a1), (b0, b1), (c0, c1)) = (part(a), part(b), part(c));
        // a1 b1 t^2 + (a0 b1 + a1 b0 - c1) t + a0 b0 - c0 = 0
        let (q, l, k) = (a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0);
        if q == F::zero() {
            return if l == F::zero() { vec![] } else { vec![-k * l.invert().unwrap()] };
        }
        let mut out = vec![];
        for t in [F::zero(), F::one(), -F::one()] { if q * t * t + l * t + k == F::zero() { out.push(t); } }
        if let Some(t) = out.first() {
            let other = -l * q.invert().unwrap() - *t;
            if other != *t { out.push(other); }
        }
        out
    }
    /// Starting from an arbitrary assignment, repairs violated rows by solving for one free wire at a
    /// time. `free[i]`: the attacker may still choose wire i. Returns a satisfying assignment if reached.
    pub fn repair(&self, z: Vec<F>, free: &[bool], dirty: Option<&[usize]>, seed: &mut u64, random: bool) -> Option<Vec<F>> {
        self.repair_by(z, free, dirty, seed, random, None)
    }
    /// Rows that define their highest wire from the others, as a prover generating the witness would.
    pub fn definitions(&self) -> (Vec<Option<usize>>, Vec<bool>) {
        let mut bit = self.boolean.clone();
        for (v, _) in self.sums.values() { for (i, _) in v { bit[*i] = true; } }
        let mut seen = bit.clone();
        let defs = self.rows.iter().map(|row| {
            let m = row.iter().flatten().map(|t| t.0).max().unwrap_or(0);
            if m < self.l || seen[m] { return None; }
            let [a, b, _] = row;
            let constant = |t: &[(usize, F)]| t.iter().all(|x| x.0 == 0);
            if !(a.iter().chain(b).all(|t| t.0 != m) || constant(a) || constant(b)) { return None; }
            seen[m] = true;
            Some(m)
        }).collect();
        (defs, bit)
    }
    /// Like `repair`, but every wire that a row defines follows the wires it is defined from.
    pub fn follow(&self, z: Vec<F>, free: &[bool], dirty: Option<&[usize]>, defs: &(Vec<Option<usize>>, Vec<bool>), seed: &mut u64) -> Option<Vec<F>> {
        self.repair_by(z, free, dirty, seed, false, Some(defs))
    }
    fn repair_by(&self, mut z: Vec<F>, free: &[bool], dirty: Option<&[usize]>, seed: &mut u64, random: bool, defs: Option<&(Vec<Option<usize>>, Vec<bool>)>) -> Option<Vec<F>> {
        let mut bad: BTreeSet<usize> = match dirty {
            Some(d) => d.iter().flat_map(|i| self.uses[*i].iter().cloned()).filter(|r| !self.holds(*r, &z)).collect(),
            None => (0..self.rows.len()).filter(|r| !self.holds(*r, &z)).collect(),
        };
        let mut changes = vec![0u8; z.len()];
        let mut budget = 3 * self.rows.len() + 200;
        // a prover's order: rows are only evaluated when their turn comes
        let touch = |bad: &mut BTreeSet<usize>, i: usize, z: &[F]| for u in &self.uses[i] { if defs.is_some() || !self.holds(*u, z) { bad.insert(*u); } else { bad.remove(u); } };
        while let Some(&r) = bad.iter().next() {
            if budget == 0 { return None; }
            budget -= 1;
            if defs.is_some() && self.holds(r, &z) { bad.remove(&r); continue; }
            let mut cand: Vec<usize> = self.rows[r].iter().flatten().map(|(i, _)| *i).filter(|i| free[*i] && changes[*i] < 3).collect();
            cand.sort(); cand.dedup(); cand.reverse();
            if random && cand.len() > 1 { let k = splitmix(seed) as usize % cand.len(); cand.swap(0, k); }
            let mut done = false;
            // all bits of a decomposition follow the decomposed value
            if let Some((bits, pos)) = if defs.is_some() { self.sums.get(&r).or(self.deco.get(&r)) } else { self.deco.get(&r) } {
                if bits.iter().all(|(i, _)| free[*i] && changes[*i] < 3) {
                    let old: Vec<F> = bits.iter().map(|(i, _)| std::mem::replace(&mut z[*i], F::zero())).collect();
                    let [a, b, c] = &self.rows[r];
                    let f0 = Self::dot(a, &z) * Self::dot(b, &z) - Self::dot(c, &z);
                    for ((i, _), v) in bits.iter().zip(old) { z[*i] = v; }
                    let v = BigUint::from_bytes_le(&(if *pos { -f0 } else { f0 }).to_raw_bytes());
                    let mut left = v.clone();
                    for (_, e) in bits { if v.bit(*e as u64) { left -= BigUint::one() << *e; } }
                    if left.is_zero() {
                        for (i, e) in bits {
                            let x = if v.bit(*e as u64) { F::one() } else { F::zero() };
                            if z[*i] == x { continue; }
                            z[*i] = x;
                            changes[*i] += 1;
                            touch(&mut bad, *i, &z);
                        }
                        bad.remove(&r);
                        continue;
                    }
                }
            }
            if let Some(i) = defs.and_then(|d| d.0[r]).filter(|i| free[*i] && changes[*i] < 40) {
                if let [v, ..] = self.solve(r, i, &z)[..] {
                    z[i] = v;
                    changes[i] += 1;
                    touch(&mut bad, i, &z);
                    continue;
                }
            }
            if let Some(d) = defs {
                // a hint follows the check it was made for
                cand.retain(|i| !d.1[*i] && self.uses[*i].len() <= 6);
                budget = budget.saturating_sub(self.rows.len() / 15);
            }
            if random {
                for i in cand.into_iter().take(6) {
                    let s = self.solve(r, i, &z);
                    if s.is_empty() { continue; }
                    z[i] = s[splitmix(seed) as usize % s.len()];
                    changes[i] += 1;
                    touch(&mut bad, i, &z);
                    done = true;
                    break;
                }
            } else {
                // the change that leaves the fewest rows of its wire violated
                if cand.len() > 6 { let k = cand.len(); cand = [&cand[..3], &cand[k - 3..]].concat(); }
                let mut best: Option<(usize, usize, F)> = None;
                for i in cand {
                    let s = self.solve(r, i, &z);
                    if s.is_empty() { continue; }
                    let old = std::mem::replace(&mut z[i], s[splitmix(seed) as usize % s.len()]);
                    let cost = self.uses[i].iter().filter(|u| !self.holds(**u, &z)).count();
                    let new = std::mem::replace(&mut z[i], old);
                    if best.map_or(true, |b| cost < b.0) { best = Some((cost, i, new)); }
                    if cost == 0 { break; }
                }
                if let Some((_, i, v)) = best {
                    z[i] = v;
                    changes[i] += 1;
                    touch(&mut bad, i, &z);
                    done = true;
                }
            }
            if !done { return None; }
        }
        Some(z)
    }
}

/// Value of a row under an arbitrary assignment (through the library's own evaluation).
pub fn at<F: PrimeField>(r: &SparseRow<F>, l: usize, z: &[F]) -> F {
    r.evaluate(&DenseVectors::new(z[..l].to_vec()), &DenseVectors::new(z[l..].to_vec()))
}

pub struct Attack { pub tried: u64, pub reached: u64 }
/// Searches for an assignment of the free wires that satisfies every row but that `accept` refuses.
/// `outs`: wires the gadget's outputs mention (mutated preferentially).
pub fn search<D: Dr>(sys: &Sys<D::F>, free: &[bool], outs: &[usize], budget: usize, seed0: u64, accept: &dyn Fn(&[D::F]) -> bool) -> Result<Attack, String> {
    let mut seed = seed0;
    let fw: Vec<usize> = (0..free.len()).filter(|i| free[*i]).collect();
    let outs: Vec<usize> = outs.iter().cloned().filter(|i| free[*i]).collect();
    let mut st = Attack { tried: 0, reached: 0 };
    let judge = |z: &[D::F], how: &str, st: &mut Attack| -> R {
        st.reached += 1;
        if !accept(z) {
            let ch: Vec<String> = (0..z.len()).filter(|i| z[*i] != sys.z[*i]).take(12)
                .map(|i| format!("{}{}: {:x} -> {:x}", if i < sys.l { "x" } else { "w" }, if i < sys.l { i } else { i - sys.l }, D::int_of(&sys.z[i]).unwrap_or_default(), D::int_of(&z[i]).unwrap_or_default())).collect();
            return Err(format!("a dishonest assignment satisfies all {} constraints with a wrong result ({}): changed {}", sys.rows.len(), how, ch.join(", ")));
        }
        Ok(())
    };
    let honest_ok = sys.sat(&sys.z);
    if honest_ok { judge(&sys.z.clone(), "honest", &mut st)?; }
    if fw.is_empty() { return Ok(st); }
    if !honest_ok {
        for k in 0..4 { st.tried += 1; if let Some(z) = sys.repair(sys.z.clone(), free, None, &mut seed, k > 0) { judge(&z, "repair", &mut st)?; } }
    }
    let p = D::M::p();
    let special = |seed: &mut u64, old: D::F| -> D::F {
        match splitmix(seed) % 9 {
            0 => D::F::zero(),
            1 => D::F::one(),
            2 => -D::F::one(),
            3 => old + D::F::one(),
            4 => -old,
            5 => D::F::one() - old,
            6 => sys.z[splitmix(seed) as usize % sys.z.len()],
            7 => D::F::from(2u64),
            _ => D::fe(&from_limbs(&[splitmix(seed), splitmix(seed), splitmix(seed), splitmix(seed)])),
        }
    };
    let try_one = |mut z: Vec<D::F>, changed: Vec<usize>, pin: bool, random: bool, how: &str, seed: &mut u64, st: &mut Attack| -> R {
        st.tried += 1;
        let mut fr = free.to_vec();
        if pin { for i in &changed { fr[*i] = false; } }
        let d = if honest_ok { Some(&changed[..]) } else { None };
        if let Some(z2) = sys.repair(std::mem::take(&mut z), &fr, d, seed, random) { judge(&z2, how, st)?; }
        Ok(())
    };
    // rows that bind a decomposition: many free wires with power-of-two coefficients
    let pow: Vec<D::F> = { let mut v = vec![D::F::one()]; for i in 0..255 { v.push(v[i] + v[i]); } v };
    let mut sums: Vec<Vec<(usize, usize, bool)>> = vec![]; // (wire, exponent, negative)
    for r in &sys.rows {
        for side in r.iter() {
            if side.len() < 3 { continue; }
            let mut s = vec![];
            for (i, c) in side { if free[*i] {
                if let Some(e) = pow.iter().position(|x| x == c) { s.push((*i, e, false)); }
                else if let Some(e) = pow.iter().position(|x| -*x == *c) { s.push((*i, e, true)); }
            } }
            if s.len() >= 3 { sums.push(s); }
        }
    }
    sums.truncate(6);
    for s in &sums {
        let cur: BigUint = s.iter().map(|(i, e, _)| (D::int_of(&sys.z[*i]).unwrap_or_default() % 2u32) << *e).sum();
        let top = s.iter().map(|(_, e, _)| e + 1).max().unwrap() as u32;
        let mut alts: Vec<BigUint> = (1u32..6).map(|k| &cur + p * k).collect();
        alts.push(&cur + 1u32);
        alts.push(from_limbs(&[splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed)]) % (BigUint::one() << top));
        if cur >= *p { alts.push(&cur % p); }
        for v in alts {
            if v >= (BigUint::one() << top) { continue; }
            let mut z = sys.z.clone();
            let mut ch = vec![];
            for (i, e, _) in s { let b = if v.bit(*e as u64) { D::F::one() } else { D::F::zero() }; if z[*i] != b { z[*i] = b; ch.push(*i); } }
            for pin in [false, true] {
                let wires: Vec<usize> = if pin { s.iter().map(|(i, _, _)| *i).collect() } else { ch.clone() };
                try_one(z.clone(), wires, pin, false, "other decomposition", &mut seed, &mut st)?;
            }
        }
        for _ in 0..(budget / 4).max(6) {
            let (a, b) = (s[splitmix(&mut seed) as usize % s.len()], s[splitmix(&mut seed) as usize % s.len()]);
            if a.0 == b.0 { continue; }
            let ca = if a.2 { -pow[a.1] } else { pow[a.1] };
            let cb = if b.2 { -pow[b.1] } else { pow[b.1] };
            let mut z = sys.z.clone();
            let t = special(&mut seed, z[a.0]) - z[a.0];
            z[a.0] += t;
            z[b.0] -= t * ca * cb.invert().unwrap();
            try_one(z, vec![a.0, b.0], true, false, "balanced non-binary digits", &mut seed, &mut st)?;
        }
    }
    for k in 0..budget {
        let mut z = sys.z.clone();
        let mut ch = vec![];
        let pool = if !outs.is_empty() && k % 2 == 0 { &outs } else { &fw };
        for _ in 0..1 + splitmix(&mut seed) % 2 {
            let i = pool[splitmix(&mut seed) as usize % pool.len()];
            z[i] = special(&mut seed, z[i]);
            ch.push(i);
        }
        let random = splitmix(&mut seed) % 3 == 0;
        let pin = splitmix(&mut seed) % 4 != 0;
        try_one(z, ch, pin, random, "altered wires", &mut seed, &mut st)?;
    }
    Ok(st)
}

/// What a wire is: boolean (a row of its own forces 0/1), bounded (decomposed into boolean wires), or neither.
pub struct Roles { pub boolean: Vec<bool>, pub bounded: Vec<Option<usize>> }
impl<F: PrimeField> Sys<F> {
    pub fn roles(&self) -> Roles {
        let mut r = Roles { boolean: self.boolean.clone(), bounded: vec![None; self.z.len()] };
        for (k, row) in self.rows.iter().enumerate() {
            let bits = row.iter().flatten().filter(|t| r.boolean[t.0]).count();
            if bits < 3 { continue; }
            for t in row.iter().flatten() { if t.0 != 0 && !r.boolean[t.0] && r.bounded[t.0].is_none() { r.bounded[t.0] = Some(k); } }
        }
        r
    }
    /// Solves the rows that are linear in the unknown wires, all others as in `z`; prefers the values in `z`.
    pub fn solve_linear(&self, z: &[F], unknown: &[bool], rows: &[usize]) -> Option<Vec<F>> {
        use std::collections::BTreeMap;
        // each equation: sum coef * (change of wire) = rhs
        let mut eqs: Vec<(BTreeMap<usize, F>, F)> = vec![];
        for r in rows {
            let [a, b, c] = &self.rows[*r];
            let has = |t: &[(usize, F)]| t.iter().any(|(i, _)| unknown[*i]);
            let (va, vb, vc) = (Self::dot(a, z), Self::dot(b, z), Self::dot(c, z));
            let mut e = BTreeMap::new();
            let mut add = |t: &[(usize, F)], k: F| { for (i, x) in t { if unknown[*i] { let s: &mut F = e.entry(*i).or_insert(F::zero()); *s += *x * k; } } };
            match (has(a), has(b)) { (true, true) => return None, (true, false) => add(a, vb), (false, true) => add(b, va), _ => {} }
            add(c, -F::one());
            e.retain(|_, v| *v != F::zero());
            eqs.push((e, vc - va * vb));
        }
        let mut solved: Vec<(usize, BTreeMap<usize, F>, F)> = vec![];
        let mut at: BTreeMap<usize, usize> = BTreeMap::new(); // pivot wire -> position in solved
        for (mut e, mut rhs) in eqs {
            // eliminate known pivots
            while let Some((&p, &k)) = e.iter().rev().find(|(i, _)| at.contains_key(*i)) {
                let (_, pe, pr) = &solved[at[&p]];
                for (i, c) in pe { let s = e.entry(*i).or_insert(F::zero()); *s = *s - k * *c; }
                rhs = rhs - k * *pr;
                e.retain(|_, v| *v != F::zero());
            }
            match e.iter().next_back().map(|(i, c)| (*i, *c)) {
                None => if rhs != F::zero() { return None },
                Some((p, k)) => {
                    let ki = k.invert().unwrap();
                    for c in e.values_mut() { *c = *c * ki; }
                    at.insert(p, solved.len());
                    solved.push((p, e, rhs * ki));
                }
            }
        }
        // pivots are the highest wires of their equations: substitute upwards, non-pivots unchanged
        let mut d: BTreeMap<usize, F> = BTreeMap::new();
        for (p, k) in &at {
            let (_, e, rhs) = &solved[*k];
            let v = e.iter().filter(|(i, _)| *i != p).fold(*rhs, |s, (i, c)| match d.get(i) { Some(x) => s - *c * *x, None => s });
            d.insert(*p, v);
        }
        let mut out = z.to_vec();
        for (i, v) in d { out[i] += v; }
        Some(out)
    }
}
/// Attack on missing range checks: an altered (bounded or unbounded) output wire, all decomposed wires
/// honest, everything else solved as a linear system; then rows with boolean wires are repaired.
pub fn linear_attack<D: Dr>(sys: &Sys<D::F>, free: &[bool], outs: &[usize], tries: usize, seed0: u64, accept: &dyn Fn(&[D::F]) -> bool) -> Result<Attack, String> {
    let mut seed = seed0;
    let mut st = Attack { tried: 0, reached: 0 };
    let roles = sys.roles();
    let n = sys.z.len();
    let outs: Vec<usize> = outs.iter().cloned().filter(|i| free[*i] && !roles.boolean[*i]).collect();
    if outs.is_empty() { return Ok(st); }
    let plain: Vec<usize> = (0..sys.rows.len()).filter(|r| !sys.rows[*r].iter().flatten().any(|t| roles.boolean[t.0])).collect();
    let mut base = vec![false; n];
    for r in &plain { for t in sys.rows[*r].iter().flatten() { if free[t.0] && roles.bounded[t.0].is_none() && !roles.boolean[t.0] { base[t.0] = true; } } }
    // one side of a product of unknowns stays fixed
    for r in &plain {
        let [a, b, _] = &sys.rows[*r];
        if a.iter().any(|t| base[t.0]) && b.iter().any(|t| base[t.0]) { for t in b.iter() { base[t.0] = false; } }
    }
    for _ in 0..tries {
        st.tried += 1;
        let mut z = sys.z.clone();
        let mut unknown = base.clone();
        let mut pins = vec![];
        for _ in 0..1 + splitmix(&mut seed) % 2 {
            let o = outs[splitmix(&mut seed) as usize % outs.len()];
            let old = D::int_of(&z[o])?;
            let new = match splitmix(&mut seed) % 4 { 0 => &old ^ BigUint::one(), 1 => &old ^ (BigUint::one() << (splitmix(&mut seed) % 60)), 2 => BigUint::from(splitmix(&mut seed)), _ => BigUint::from(splitmix(&mut seed) % 3) };
            z[o] = D::fe(&new);
            unknown[o] = false;
            pins.push(o);
            if let Some(k) = roles.bounded[o] {
                // its bits follow: coefficient +-2^e
                let mut p = D::F::one();
                let mut e = vec![];
                for _ in 0..256 { e.push(p); p = p + p; }
                for t in sys.rows[k].iter().flatten() { if roles.boolean[t.0] { if let Some(i) = e.iter().position(|x| *x == t.1 || -*x == t.1) { z[t.0] = if new.bit(i as u64) { D::F::one() } else { D::F::zero() }; pins.push(t.0); } } }
            }
        }
        let z = match sys.solve_linear(&z, &unknown, &plain) { Some(z) => z, None => continue };
        let mut fr = free.to_vec();
        for i in pins { fr[i] = false; }
        if let Some(z2) = sys.repair(z, &fr, None, &mut seed, false) {
            st.reached += 1;
            if !accept(&z2) {
                let ch: Vec<String> = (0..n).filter(|i| z2[*i] != sys.z[*i]).take(12).map(|i| format!("wire {}: {:x} -> {:x}", i, D::int_of(&sys.z[i]).unwrap_or_default(), D::int_of(&z2[i]).unwrap_or_default())).collect();
                return Err(format!("a dishonest assignment satisfies all {} constraints with a wrong result (linear solution): changed {}", sys.rows.len(), ch.join(", ")));
            }
        }
    }
    Ok(st)
}
/// Attack by transplanting the internal wires of an honest run on other inputs.
pub fn transplant<D: Dr>(sys: &Sys<D::F>, other: &[D::F], free: &[bool], seed0: u64, accept: &dyn Fn(&[D::F]) -> bool) -> Result<Attack, String> {
    let mut st = Attack { tried: 0, reached: 0 };
    if other.len() != sys.z.len() { return Ok(st); }
    let roles = sys.roles();
    let z: Vec<D::F> = (0..other.len()).map(|i| if free[i] { other[i] } else { sys.z[i] }).collect();
    let mut seed = seed0;
    for k in 0..3 {
        st.tried += 1;
        // decomposed wires and their bits stay; then anything may move
        let mut fr = free.to_vec();
        if k < 2 { for i in 0..fr.len() { if roles.boolean[i] || (k == 0 && roles.bounded[i].is_some()) { fr[i] = false; } } }
        if let Some(z2) = sys.repair(z.clone(), &fr, None, &mut seed, false) {
            st.reached += 1;
            if !accept(&z2) { return Err(format!("a dishonest assignment satisfies all {} constraints with a wrong result (internal wires of a run on other inputs)", sys.rows.len())); }
        }
    }
    Ok(st)
}
