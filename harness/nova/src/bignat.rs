//! C20: non-native integers in circuits.
use crate::nv::*;
use crate::sys::*;
use vk::gen::limb;
use vk::refs::*;
use vk::*;
use zknova::verif as nv;
use zknova::verif::BigNatAssignment;
use zkstd::circuit::prelude::*;
use zkstd::common::{Group, IntGroup, Ring};

const LW: usize = 64;
const NL: usize = 4;
type Bn4<D> = BigNatAssignment<<D as Dr>::F>;

/// A natural of up to four limbs, biased to limb boundaries and the field orders.
fn nat() -> BoxedStrategy<BigUint> {
    let top = || BigUint::one() << 256u32;
    prop_oneof![
        4 => prop::collection::vec(limb(), 4).prop_map(|l| from_limbs(&l)),
        2 => prop::collection::vec(any::<u64>(), 1..5).prop_map(|l| from_limbs(&l)),
        2 => (0u64..6).prop_map(BigUint::from),
        2 => (0u32..257, 0u32..4).prop_map(move |(k, d)| ((BigUint::one() << k) + d + top() - 2u32) % top()),
        2 => (any::<bool>(), 0u32..4, 0u32..5).prop_map(|(q, d, k)| { let p = if q { &*Q_MOD } else { &*R_MOD }; let v = p * (k.max(1)) + d - 2u32; v % (BigUint::one() << 256u32) }),
        1 => vk::gen::fr_int(), 1 => vk::gen::fq_int(),
    ].boxed()
}
fn modulus() -> BoxedStrategy<BigUint> {
    prop_oneof![
        3 => Just(Q_MOD.clone()), 3 => Just(R_MOD.clone()),
        3 => nat(),
        2 => (1u64..50).prop_map(BigUint::from),
        1 => (0u32..256).prop_map(|k| BigUint::one() << k),
    ].prop_map(|m| if m.is_zero() { BigUint::one() } else { m }).boxed()
}
/// m-1, m, m+1, multiples of m, or anything.
fn operand() -> BoxedStrategy<(BigUint, u8)> { (nat(), 0u8..12).boxed() }
fn resolve(o: &(BigUint, u8), m: &BigUint) -> BigUint {
    let top = BigUint::one() << 256u32;
    match o.1 { 0 => m - 1u32, 1 => m.clone(), 2 => (m + 1u32) % top, 3 => { let k = (&top - 1u32) / m; k * m } 4 => &top - 1u32, 5 => &o.0 % m, _ => o.0.clone() }
}
fn big<D: Dr>(cs: &mut R1cs<D::C>, v: &BigUint) -> Bn4<D> { Bn4::<D>::witness_from_big_int(cs, BigInt::from(v.clone()), LW, NL) }
fn val<D: Dr>(b: &Bn4<D>, cs: &R1cs<D::C>) -> BigUint { b.value(cs).to_biguint().unwrap() }
/// The natural that the limbs denote under an assignment; None unless every limb fits its width.
fn denoted<D: Dr>(b: &Bn4<D>, l: usize, z: &[D::F]) -> Option<BigUint> {
    let mut v = BigUint::zero();
    for (i, f) in b.as_limbs().iter().enumerate() {
        let x = D::int_of(&at(f.inner(), l, z)).ok()?;
        if x.bits() as usize > LW { return None; }
        v += x << (LW * i);
    }
    Some(v)
}
fn out_wires<D: Dr>(b: &Bn4<D>, l: usize) -> Vec<usize> { b.as_limbs().iter().flat_map(|f| outs(f, l)).collect() }
/// `others`: recorded systems of honest runs on other inputs.
fn attack<D: Nv>(cs: &R1cs<D::C>, given: usize, o: &Bn4<D>, budget: usize, seed: u64, others: &[R1cs<D::C>], accept: impl Fn(&BigUint) -> bool) -> Result<Attack, String> {
    let sy = Sys::of(cs);
    let inputs: Vec<W> = (0..given).map(|i| (true, i)).collect();
    let free = free_but(sy.l, sy.z.len(), &inputs);
    let ok = |z: &[D::F]| denoted::<D>(o, sy.l, z).map_or(false, |v| accept(&v));
    let ow = out_wires::<D>(o, sy.l);
    let mut st = linear_attack::<D>(&sy, &free, &ow, 6, seed, &ok)?;
    for x in others { let t = transplant::<D>(&sy, &Sys::of(x).z, &free, seed, &ok)?; st.tried += t.tried; st.reached += t.reached; }
    let t = search::<D>(&sy, &free, &ow, budget, seed, &ok)?;
    Ok(Attack { tried: st.tried + t.tried, reached: st.reached + t.reached })
}
/// Naturals that a check modulo the circuit's field, or of the low limbs only, confuses with `a`.
fn aliases<D: Dr>(a: &BigUint, seed: u64) -> Vec<BigUint> {
    let p = D::M::p();
    let mut s = seed;
    let mut v = vec![a + p * (1 + (seed % 5) as u32), BigUint::one() ^ a, a ^ (BigUint::one() << (64 * (seed % 4) as u32)), from_limbs(&[splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])];
    if a >= p { v.push(a - p); v.push(a % p); }
    v.retain(|x| x.bits() <= 256);
    v
}
/// Claims another remainder with the quotient that makes the identity hold modulo the circuit's field only.
fn forge<D: Nv>(cs: &R1cs<D::C>, pinned: usize, out: &Bn4<D>, total: &BigUint, m: &BigUint, seed0: u64, accept: &dyn Fn(&BigUint) -> bool) -> Result<u64, String> {
    let sy = Sys::of(cs);
    let (p, q) = (D::M::p(), total / m);
    let ow = out_wires::<D>(out, sy.l);
    if ow.len() != NL { return Ok(0); }
    let fits = |v: &BigUint, k: usize| (0..k).map(|i| D::fe(&((v >> (64 * i)) & from_limbs(&[u64::MAX])))).collect::<Vec<_>>();
    // the quotient's limbs stand side by side
    let k = (1..=10usize).rev().find_map(|k| { if q.bits() > 64 * k as u64 { return None; } let want = fits(&q, k); (sy.l + pinned..sy.z.len().saturating_sub(k)).find(|i| sy.z[*i..*i + k] == want[..] && (*i..*i + k).all(|j| !ow.contains(&j))).map(|i| (i, k)) });
    let (at, k) = match k { Some(x) => x, None => return Ok(0) };
    let defs = sy.definitions();
    let mut seed = seed0;
    let mut tried = 0;
    let minv = match D::fe(m).invert() { Some(v) => v, None => return Ok(0) };
    for t in 0..4u32 {
        let r2 = match t { 0 => (total % m) ^ BigUint::one(), 1 => BigUint::zero(), _ => from_limbs(&[splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed)]) };
        let q2 = D::int_of(&((D::fe(total) - D::fe(&r2)) * minv))? + p * (splitmix(&mut seed) % 3 * (t / 2) as u64);
        if q2.bits() > 64 * k as u64 { continue; }
        let mut z = sy.z.clone();
        let mut free = free_but(sy.l, z.len(), &(0..pinned).map(|i| (true, i)).collect::<Vec<_>>());
        for (j, v) in fits(&q2, k).into_iter().enumerate() { z[at + j] = v; free[at + j] = false; }
        for (j, v) in ow.iter().zip(fits(&r2, NL)) { z[*j] = v; free[*j] = false; }
        tried += 1;
        if let Some(z) = sy.follow(z, &free, None, &defs, &mut seed) {
            let v = match denoted::<D>(out, sy.l, &z) { Some(v) => v, None => continue };
            ensure!(accept(&v), "the remainder {:x} satisfies all constraints with the quotient {:x}: the identity only holds modulo the circuit's field", v, q2);
        }
    }
    Ok(tried)
}
#[derive(Clone, Debug)]
struct Case3 { a: (BigUint, u8), b: (BigUint, u8), m: BigUint, seed: u64 }
fn case3() -> BoxedStrategy<Case3> { (operand(), operand(), modulus(), any::<u64>()).prop_map(|(a, b, m, seed)| Case3 { a, b, m, seed }).boxed() }

fn checks<D: Nv>(s: &mut Suite) {
    let nm = |t: &str| format!("{}/{}", t, D::NAME);
    let sat = |cs: &R1cs<D::C>, what: &str| -> R { let sy = Sys::of(cs); ensure!(sy.sat(&sy.z), "{}: the honest system is unsatisfied", what); Ok(()) };
    s.check(&nm("mult_mod"), n(260, 8_000).shrink(40), case3, move |c, case| {
        let (a, b) = (resolve(&c.a, &c.m), resolve(&c.b, &c.m));
        let mut cs: R1cs<D::C> = R1cs::default();
        let (x, y, m) = (big::<D>(&mut cs, &a), big::<D>(&mut cs, &b), big::<D>(&mut cs, &c.m));
        let r = x.mult_mod(&mut cs, &y, &m);
        ensure_eq!(val::<D>(&r, &cs), &a * &b % &c.m, "{:x} * {:x} mod {:x}", a, b, c.m);
        case.nontrivial_if(&a * &b >= c.m);
        case.class_if(c.m == *D::N::p(), "modulo the other field's order");
        case.class_if(a.bits() > 250 && b.bits() > 250, "full-size operands");
        sat(&cs, &format!("{:x} * {:x} mod {:x}", a, b, c.m))
    });
    s.check(&nm("red_mod"), n(400, 12_000).shrink(40), case3, move |c, case| {
        let (a, b) = (resolve(&c.a, &c.m), resolve(&c.b, &c.m));
        let mut cs: R1cs<D::C> = R1cs::default();
        let (x, y, m) = (big::<D>(&mut cs, &a), big::<D>(&mut cs, &b), big::<D>(&mut cs, &c.m));
        let sum = x.add(&y);
        ensure_eq!(val::<D>(&sum, &cs), &a + &b, "{:x} + {:x}", a, b);
        let r = x.red_mod(&mut cs, &m);
        ensure_eq!(val::<D>(&r, &cs), &a % &c.m, "{:x} mod {:x}", a, c.m);
        case.nontrivial_if(a >= c.m);
        sat(&cs, &format!("{:x} mod {:x}", a, c.m))?;
        if (&a + &b).bits() <= 256 || c.m.bits() > 194 {
            case.class_if((&a + &b).bits() > 256, "reduced sum of more than 256 bits");
            let r = sum.red_mod(&mut cs, &m);
            ensure_eq!(val::<D>(&r, &cs), (&a + &b) % &c.m, "({:x} + {:x}) mod {:x}", a, b, c.m);
            sat(&cs, &format!("({:x} + {:x}) mod {:x}", a, b, c.m))?;
        }
        Ok(())
    });
    s.check(&nm("limbs"), n(500, 15_000).shrink(40), || (nat(), nat(), D::int(), any::<bool>(), 0u8..4), move |(a, b, f, pick, k), case| {
        let mut cs: R1cs<D::C> = R1cs::default();
        let (x, y) = (big::<D>(&mut cs, a), big::<D>(&mut cs, b));
        let li = |v: &Bn4<D>, cs: &R1cs<D::C>| -> Result<Vec<BigUint>, String> { v.as_limbs().iter().map(|l| D::int_of(&l.value(cs))).collect() };
        ensure_eq!(li(&x, &cs)?, limbs64(a).to_vec(), "limbs of {:x}", a);
        ensure_eq!(val::<D>(&x, &cs), a.clone(), "value of {:x}", a);
        let bits: Vec<bool> = x.decompose(&mut cs).iter().map(|w| FieldAssignment::<D::F>::from(w).value(&cs) == D::F::one()).collect();
        let want: Vec<bool> = (0..256).rev().map(|i| a.bit(i)).collect();
        ensure_eq!(bits, want, "bits of {:x}", a);
        x.enforce_well_formed(&mut cs);
        // from a field element
        let fa = match k { 0 => FieldAssignment::witness(&mut cs, D::fe(f)), 1 => FieldAssignment::instance(&mut cs, D::fe(f)), 2 => FieldAssignment::constant(&D::fe(f)), _ => &FieldAssignment::witness(&mut cs, D::fe(f) - D::F::one()) + &FieldAssignment::constant(&D::F::one()) };
        let fb = Bn4::<D>::witness_from_field_assignment(&mut cs, &fa, LW, NL);
        ensure_eq!(val::<D>(&fb, &cs), f.clone(), "natural of the field element {:x}", f);
        // selection, equality with itself
        let c = BinaryAssignment::witness(&mut cs, *pick as u8);
        let sel = Bn4::<D>::conditional_select(&mut cs, &x, &y, &c);
        ensure_eq!(val::<D>(&sel, &cs), if *pick { a.clone() } else { b.clone() }, "selection of {} between {:x} and {:x}", pick, a, b);
        Bn4::<D>::enforce_eq(&mut cs, &sel, if *pick { &x } else { &y });
        case.nontrivial_if(a.bits() > 64);
        sat(&cs, &format!("limb operations on {:x}, {:x}, field element {:x}", a, b, f))?;
        // equality of different naturals
        let eq = a == b;
        case.class_if(!eq, "unequal naturals");
        Bn4::<D>::enforce_eq(&mut cs, &x, &y);
        let sy = Sys::of(&cs);
        ensure!(sy.sat(&sy.z) == eq, "equality of {:x} and {:x} is {}", a, b, if eq { "unsatisfied" } else { "satisfied" });
        Ok(())
    });
    // equality of differently carried representations
    s.check(&nm("carried"), n(500, 15_000).shrink(60), || (nat(), prop::collection::vec((0u8..3, 1u64..4), 0..4), prop_oneof![3 => Just(0u8), 2 => 1u8..7], nat(), 1u32..9, (any::<bool>(), any::<bool>(), any::<u64>())), move |(v, moves, change, other, extra, (regroup, swap, seed)), case| {
        // limbs of v with carries moved downwards: limb i+1 gives k, limb i gets k * 2^64
        let mut l: Vec<BigUint> = limbs64(v).to_vec();
        let two = BigUint::one() << 64u32;
        let mut moved = false;
        for (i, k) in moves { let i = *i as usize; if l[i + 1] >= BigUint::from(*k) { l[i + 1] -= *k; l[i] += &two * *k; moved = true; } }
        let mut w = v.clone();
        match change { 1 => w = other.clone(), 2 => w = (&w + 1u32) % (BigUint::one() << 256u32), 3 => w = (&w + (BigUint::one() << 64u32)) % (BigUint::one() << 256u32), 4 => w = if w >= *D::M::p() { w - D::M::p() } else { w + D::M::p() }, 5 => w += D::M::p() * (2u64 + seed % 9), 6 => w += BigUint::from(1 + (seed >> 40)) << (256 + 64 * (seed % 3) as u32), _ => {} }
        case.class_if(*change == 4 || *change == 5, "equal modulo the circuit's field only");
        case.class_if(w.bits() > 256, "different numbers of limbs");
        let max = BigInt::from(&two * (13 + extra));
        let mut cs: R1cs<D::C> = R1cs::default();
        let mk = |cs: &mut R1cs<D::C>, l: &[BigUint]| Bn4::<D>::from_poly(nv::Polynomial { coefficients: l.iter().map(|x| FieldAssignment::witness(cs, D::fe(x))).collect() }, LW, max.clone());
        let lw: Vec<BigUint> = (0..std::cmp::max(4, (w.bits() as usize + 63) / 64)).map(|i| low(&(&w >> (64 * i)), 64)).collect();
        let k = l.len() + lw.len();
        let (x, y) = (mk(&mut cs, &l), mk(&mut cs, &lw));
        let total: BigUint = l.iter().enumerate().map(|(i, x)| x << (64 * i)).sum();
        ensure_eq!(val::<D>(&x, &cs), total, "value of the moved limbs");
        let (x, y) = if *swap { (y, x) } else { (x, y) };
        if *regroup { x.enforce_equal_when_carried_regroup(&mut cs, &y) } else { x.enforce_equal_when_carried(&mut cs, &y) }
        let eq = total == w;
        case.nontrivial_if(moved);
        case.class(if eq { "equal" } else { "different" });
        let sy = Sys::of(&cs);
        ensure!(sy.sat(&sy.z) == eq, "carried equality of {:x} (limbs {:?}) and {:x} is {}", total, l, w, if eq { "unsatisfied" } else { "satisfied" });
        if !eq {
            // no other carries make them equal
            let free = free_but(sy.l, sy.z.len(), &(0..k).map(|i| (true, i)).collect::<Vec<_>>());
            let mut sd = *seed;
            let z = sy.follow(sy.z.clone(), &free, None, &sy.definitions(), &mut sd);
            ensure!(z.map_or(true, |z| !sy.sat(&z)), "carried equality of {:x} (limbs {:?}) and {:x} can be satisfied with other carries", total, l, w);
            search::<D>(&sy, &free, &[], 12, 5, &|_| false).map_err(|e| format!("carried equality of {:x} and {:x}: {}", total, w, e))?;
        }
        Ok(())
    });
    // ------------------------------------------------------------ dishonest assignments
    s.check(&nm("mult_mod_dishonest"), n(40, 1500).shrink(6), case3, move |c, case| {
        let (a, b) = (resolve(&c.a, &c.m), resolve(&c.b, &c.m));
        let build = |a: &BigUint| {
            let mut cs: R1cs<D::C> = R1cs::default();
            let (x, y, m) = (big::<D>(&mut cs, a), big::<D>(&mut cs, &b), big::<D>(&mut cs, &c.m));
            let r = x.mult_mod(&mut cs, &y, &m);
            (cs, r)
        };
        let (cs, r) = build(&a);
        let others: Vec<_> = aliases::<D>(&a, c.seed).iter().map(|a| build(a).0).collect();
        let want = &a * &b % &c.m;
        case.nontrivial();
        let st = attack::<D>(&cs, 3 * NL, &r, 40, c.seed, &others, |v| v % &c.m == want).map_err(|e| format!("{:x} * {:x} mod {:x}: {}", a, b, c.m, e))?;
        let forged = forge::<D>(&cs, 3 * NL, &r, &(&a * &b), &c.m, c.seed, &|v| v % &c.m == want).map_err(|e| format!("{:x} * {:x} mod {:x}: {}", a, b, c.m, e))?;
        case.class_if(forged > 0, "remainder claimed modulo the circuit's field");
        case.class_if(st.reached > 1, "another satisfying assignment reached");
        Ok(())
    });
    s.check(&nm("red_mod_dishonest"), n(60, 2000).shrink(6), || (case3(), any::<bool>()), move |(c, plain), case| {
        let (a, b) = (resolve(&c.a, &c.m), resolve(&c.b, &c.m));
        let build = |a: &BigUint| {
            let mut cs: R1cs<D::C> = R1cs::default();
            let (x, y, m) = (big::<D>(&mut cs, a), big::<D>(&mut cs, &b), big::<D>(&mut cs, &c.m));
            let sum = if *plain { x } else { x.add(&y) };
            let r = sum.red_mod(&mut cs, &m);
            (cs, r)
        };
        let (cs, r) = build(&a);
        let others: Vec<_> = aliases::<D>(&a, c.seed).iter().map(|a| build(a).0).collect();
        let total = if *plain { a.clone() } else { &a + &b };
        let want = &total % &c.m;
        case.nontrivial();
        let st = attack::<D>(&cs, 3 * NL, &r, 40, c.seed, &others, |v| v % &c.m == want).map_err(|e| format!("{:x} mod {:x}: {}", total, c.m, e))?;
        let forged = forge::<D>(&cs, 3 * NL, &r, &total, &c.m, c.seed, &|v| v % &c.m == want).map_err(|e| format!("{:x} mod {:x}: {}", total, c.m, e))?;
        case.class_if(forged > 0, "remainder claimed modulo the circuit's field");
        case.class_if(st.reached > 1, "another satisfying assignment reached");
        Ok(())
    });
    s.check(&nm("limbs_dishonest"), n(60, 2000).shrink(6), || (D::int(), any::<u64>()), move |(f, seed), case| {
        let mut cs: R1cs<D::C> = R1cs::default();
        let fa = FieldAssignment::witness(&mut cs, D::fe(f));
        let fb = Bn4::<D>::witness_from_field_assignment(&mut cs, &fa, LW, NL);
        case.nontrivial();
        let st = attack::<D>(&cs, 1, &fb, 60, *seed, &[], |v| v == f).map_err(|e| format!("natural of the field element {:x}: {}", f, e))?;
        case.class_if(st.reached > 1, "another satisfying assignment reached");
        Ok(())
    });
}
pub fn c20(s: &mut Suite) {
    s.rule("products and reductions count as non-trivial when the modulus is exceeded; limb operations above 64 bits; carried comparisons when a carry was moved; dishonest cases always");
    s.assume("sums above 2^256 are reduced only modulo m of at least 195 bits (the recursion's moduli have 254); the limbs given to the gadgets have their width, as every caller ensures");
    checks::<Gk>(s);
    checks::<Bn>(s);
}
