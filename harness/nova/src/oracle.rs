//! C19: the random oracle, natively and in circuits.
use crate::nv::*;
use crate::sys::*;
use vk::refs::*;
use vk::*;
use zknova::verif as nv;
use zkstd::circuit::prelude::*;
use zkstd::common::{BNAffine, CurveGroup, Group, IntGroup, Ring};
use zkstd::matrix::DenseVectors;

#[derive(Clone, Debug)]
enum Item { S(BigUint), P(usize), Vec(Vec<BigUint>) }
fn item<D: Nv>() -> BoxedStrategy<Item> { prop_oneof![4 => D::int().prop_map(Item::S), 2 => pt_ix().prop_map(Item::P), 1 => prop::collection::vec(D::int(), 0..4).prop_map(Item::Vec)].boxed() }
fn items<D: Nv>(max: usize) -> BoxedStrategy<Vec<Item>> { prop_oneof![1 => prop::collection::vec(item::<D>(), 0..2), 4 => prop::collection::vec(item::<D>(), 1..max)].boxed() }
fn nbits(max: usize) -> BoxedStrategy<usize> { prop_oneof![3 => Just(nv::CHALLENGE_BITS), 3 => Just(nv::HASH_BITS), 2 => 250usize..=max, 2 => 1usize..250, 1 => Just(0usize), 1 => Just(64usize)].boxed() }
fn flat<D: Nv>(l: &[Item]) -> Vec<BigUint> {
    let mut s = vec![];
    for i in l { match i { Item::S(v) => s.push(v.clone()), Item::P(k) => absorb_pt(&mut s, &pt::<D>(*k)), Item::Vec(v) => s.extend_from_slice(v) } }
    s
}
fn native<D: Nv>(l: &[Item], n: usize) -> Result<BigUint, String> {
    let mut o = nv::Oracle::<D::O>::default();
    for i in l {
        match i {
            Item::S(v) => o.append(D::fe(v)),
            Item::P(k) => o.append_point(lib::<D>(&pt::<D>(*k))),
            Item::Vec(v) => o.append_vec(v.iter().map(|x| D::fe(x)).collect()),
        }
    }
    let a = o.squeeze(n);
    ensure!(a == o.squeeze(n), "squeezing twice without absorbing gives different values");
    D::int_of_s(&a)
}
fn raw<D: Nv>(s: &[BigUint], n: usize) -> Result<BigUint, String> {
    let mut o = nv::Oracle::<D::O>::default();
    for v in s { o.append(D::fe(v)); }
    D::int_of_s(&o.squeeze(n))
}
/// In the circuit: wires of the absorbed elements are witnesses, inputs, constants or combinations.
fn in_circuit<D: Nv>(l: &[Item], n: usize, kinds: u64) -> (R1cs<D::C>, FieldAssignment<D::F>, Vec<W>) {
    let mut cs: R1cs<D::C> = R1cs::default();
    let mut o = nv::OracleCircuit::<D::O>::default();
    let mut k = kinds;
    let mut inputs = vec![];
    let mut wire_of = |cs: &mut R1cs<D::C>, v: &BigUint, inputs: &mut Vec<W>| {
        let (l0, w0) = (cs.l(), cs.m_l_1());
        let f = match splitmix(&mut k) % 4 {
            0 => FieldAssignment::instance(cs, D::fe(v)),
            1 => FieldAssignment::constant(&D::fe(v)),
            2 => { let c = BigUint::from(splitmix(&mut k)); &FieldAssignment::witness(cs, D::fe(v) - D::fe(&c)) + &FieldAssignment::constant(&D::fe(&c)) }
            _ => FieldAssignment::witness(cs, D::fe(v)),
        };
        for i in l0..cs.l() { inputs.push((false, i)); }
        for i in w0..cs.m_l_1() { inputs.push((true, i)); }
        f
    };
    for i in l {
        match i {
            Item::S(v) => { let w = wire_of(&mut cs, v, &mut inputs); o.append(w) }
            Item::Vec(v) => { let w = v.iter().map(|x| wire_of(&mut cs, x, &mut inputs)).collect(); o.append_vec(w) }
            Item::P(j) => {
                let (l0, w0) = (cs.l(), cs.m_l_1());
                let a = lib::<D>(&pt::<D>(*j));
                let p = if j % 2 == 0 { PointAssignment::witness(&mut cs, a.get_x(), a.get_y(), a.is_identity()) } else { PointAssignment::instance(&mut cs, a) };
                for i in l0..cs.l() { inputs.push((false, i)); }
                for i in w0..cs.m_l_1() { inputs.push((true, i)); }
                o.append_point(p)
            }
        }
    }
    let h = o.squeeze(&mut cs, n);
    (cs, h, inputs)
}

fn checks<D: Nv>(s: &mut Suite) {
    let nm = |t: &str| format!("{}/{}", t, D::NAME);
    s.check(&nm("native"), n(3500, 120_000).shrink(800), || (items::<D>(26), nbits(256)), |(l, n), case| {
        let f = flat::<D>(l);
        case.nontrivial_if(f.len() > 1);
        case.class(match f.len() { 0 => "nothing absorbed", 1..=4 => "1-4 elements", _ => "5+ elements" });
        case.class_if(l.iter().any(|i| matches!(i, Item::P(0))), "identity absorbed");
        let state = sponge::<D::M>(&f);
        ensure_eq!(native::<D>(l, *n)?, low(&state, *n) % D::N::p(), "native hash of {} elements to {} bits", f.len(), n);
        // absorbing points and vectors is absorbing their elements in order
        ensure_eq!(raw::<D>(&f, *n)?, low(&state, *n) % D::N::p(), "native hash of the flattened {} elements to {} bits", f.len(), n);
        Ok(())
    });
    s.check(&nm("cipher"), n(3000, 100_000).shrink(800), || (D::int(), D::int(), 0u64..64), |(a, b, k), case| {
        let want = cipher::<D::M>(a, b);
        case.nontrivial_if(!a.is_zero() || !b.is_zero());
        ensure_eq!(D::int_of(&nv::mimc(D::fe(a), D::fe(b)))?, want, "cipher({:x}, {:x})", a, b);
        let mut cs: R1cs<D::C> = R1cs::default();
        let mut w = |cs: &mut R1cs<D::C>, v: &BigUint, k: u64| match k % 3 { 0 => FieldAssignment::witness(cs, D::fe(v)), 1 => FieldAssignment::instance(cs, D::fe(v)), _ => FieldAssignment::constant(&D::fe(v)) };
        let (x, y) = (w(&mut cs, a, *k), w(&mut cs, b, *k / 3));
        let h = nv::mimc_circuit(&mut cs, x, y);
        ensure_eq!(D::int_of(&h.value(&cs))?, want, "in-circuit cipher({:x}, {:x})", a, b);
        ensure!(cs.is_sat(), "the in-circuit cipher of ({:x}, {:x}) is unsatisfied", a, b);
        Ok(())
    });
    s.check(&nm("circuit"), n(420, 12_000).shrink(60), || (items::<D>(6), nbits(256), any::<u64>()), |(l, n, k), case| {
        let f = flat::<D>(l);
        case.nontrivial_if(f.len() > 1);
        case.class_if(l.iter().any(|i| matches!(i, Item::P(0))), "identity absorbed");
        let (cs, h, _) = in_circuit::<D>(l, *n, *k);
        let want = low(&sponge::<D::M>(&f), *n);
        ensure_eq!(D::int_of(&h.value(&cs))?, want, "in-circuit hash of {} elements to {} bits", f.len(), n);
        let sy = Sys::of(&cs);
        ensure!(sy.sat(&sy.z), "the in-circuit hash of {} elements to {} bits is unsatisfied", f.len(), n);
        ensure_eq!(native::<D>(l, *n)?, want % D::N::p(), "native hash");
        Ok(())
    });
    s.check(&nm("circuit_dishonest"), n(48, 1500).shrink(8), || (items::<D>(3), nbits(256), any::<u64>()), |(l, n, k), case| {
        let (cs, h, inputs) = in_circuit::<D>(l, *n, *k);
        let sy = Sys::of(&cs);
        let free = free_but(sy.l, sy.z.len(), &inputs);
        let outs = outs(&h, sy.l);
        let want = low(&sponge::<D::M>(&flat::<D>(l)), *n);
        case.nontrivial();
        let st = search::<D>(&sy, &free, &outs, 40, *k, &|z| D::int_of(&at(h.inner(), sy.l, z)).map_or(false, |v| v == want))?;
        case.class_if(st.reached > 1, "another satisfying assignment reached");
        Ok(())
    });
    // ------------------------------------------------------------ binding
    s.check(&nm("binding"), n(3000, 100_000).shrink(400), || (prop::collection::vec(D::int(), 1..16), 0u8..7, any::<u16>(), any::<u16>(), D::int(), prop_oneof![2 => Just(nv::CHALLENGE_BITS), 2 => Just(nv::HASH_BITS), 1 => 96usize..=254]), |(a, m, i, j, v, n), case| {
        let mut b = a.clone();
        let (i, j) = (*i as usize % a.len(), *j as usize % a.len());
        match m {
            0 => b[i] = v.clone(),
            1 => { b.remove(i); }
            2 => b.insert(i, v.clone()),
            3 => b.push(v.clone()),
            4 => b.swap(i, j),
            5 => b[i] = (&b[i] + (BigUint::one() << (j * 17 % 254))) % D::M::p(),
            _ => { let c = b[i].clone(); b.insert(i, c); }
        }
        case.class(["changed", "dropped", "inserted", "appended", "swapped", "power of two added", "repeated"][*m as usize]);
        case.nontrivial_if(*a != b);
        if *a == b { return Ok(()); }
        ensure!(raw::<D>(a, *n)? != raw::<D>(&b, *n)?, "{:?} and {:?} have the same {}-bit hash", a, b, n);
        Ok(())
    });
    // ------------------------------------------------------------ instances
    s.check(&nm("instance"), n(900, 30_000).shrink(120), || (inst::<D>(), any::<u64>(), prop::collection::vec(D::int(), 0..3), prop::collection::vec(D::int(), 0..3), 0u8..8, D::nint(), prop::bool::weighted(0.12)), |((w, e, u, x), i, z0, zi, m, d, circ), case| {
        let rel = Rel::<D> { w: pt::<D>(*w), e: pt::<D>(*e), u: u.clone(), x: x.clone() };
        let hash = |r: &Rel<D>, i: u64, z0: &[BigUint], zi: &[BigUint]| -> Result<BigUint, String> {
            let v = |l: &[BigUint]| DenseVectors::new(l.iter().map(|v| D::fe(v)).collect());
            D::int_of_s(&r.lib().hash::<D::E>(i, &v(z0), &v(zi)))
        };
        let (z0f, zif): (Vec<_>, Vec<_>) = (z0.clone(), zi.clone());
        let h = hash(&rel, *i, &z0f, &zif)?;
        ensure_eq!(h, rel.hash(*i, &z0f, &zif), "hash of an instance with {} public inputs, states of {} and {} elements", x.len(), z0.len(), zi.len());
        case.nontrivial_if(rel.w.is_some() || rel.e.is_some());
        case.class_if(rel.w.is_none() || rel.e.is_none(), "an identity commitment");
        // challenge absorption
        let t = pt::<D>(*w + 7);
        let mut o = nv::Oracle::<D::O>::default();
        o.append_point(lib::<D>(&t));
        o.append_relaxed(&rel.lib());
        ensure_eq!(D::int_of_s(&o.squeeze(nv::CHALLENGE_BITS))?, rel.challenge(&t), "challenge of an instance");
        // every component matters
        let mut r2 = rel.clone();
        let (mut i2, mut z02, mut zi2) = (*i, z0f.clone(), zif.clone());
        let q = D::N::p();
        match m {
            0 => r2.w = pt_add(&rel.w, &pt::<D>(1)),
            1 => r2.e = pt_neg(&rel.e),
            2 => r2.u = (u + d) % q,
            3 => if let Some(v) = r2.x.first_mut() { *v = (&*v + d) % q },
            4 => if let Some(v) = r2.x.last_mut() { *v = (&*v + d) % q },
            5 => i2 = i2.wrapping_add(1 + d.iter_u64_digits().next().unwrap_or(0) % 9),
            6 => if let Some(v) = z02.last_mut() { *v = (&*v + 1u32) % D::M::p() },
            _ => if let Some(v) = zi2.first_mut() { *v = (&*v + 1u32) % D::M::p() },
        }
        let flat = |r: &Rel<D>, i: u64, a: &[BigUint], b: &[BigUint]| { let mut s = vec![BigUint::from(i)]; s.extend_from_slice(a); s.extend_from_slice(b); r.absorb(&mut s); s };
        if flat(&rel, *i, &z0f, &zif) != flat(&r2, i2, &z02, &zi2) {
            case.class(["W changed", "E negated", "u changed", "first input changed", "last input changed", "step changed", "initial state changed", "current state changed"][*m as usize]);
            ensure!(hash(&r2, i2, &z02, &zi2)? != h, "the instance hash does not depend on component {}", m);
        }
        if *circ && x.len() == 2 {
            let mut cs: R1cs<D::C> = R1cs::default();
            let wires = nv::RelaxedWires::<D::O>::witness(&mut cs, &rel.lib());
            let ia = FieldAssignment::witness(&mut cs, D::fe(&BigUint::from(*i)));
            let za: Vec<_> = z0f.iter().map(|v| FieldAssignment::witness(&mut cs, D::fe(v))).collect();
            let zb: Vec<_> = zif.iter().map(|v| FieldAssignment::witness(&mut cs, D::fe(v))).collect();
            let hc = wires.hash(&mut cs, ia, za, zb);
            ensure_eq!(D::int_of(&hc.value(&cs))?, h, "in-circuit hash of an instance");
            let sy = Sys::of(&cs);
            ensure!(sy.sat(&sy.z), "the in-circuit hash of an instance is unsatisfied");
            case.class("instance hashed in a circuit");
        }
        Ok(())
    });
    s.check(&nm("conversions"), n(6000, 300_000).shrink(400), || (D::int(), D::nint(), prop::collection::vec(vk::gen::limb(), 1..9)), |(b, v, big), case| {
        let f = nv::base_as_scalar::<D::O>(D::fe(b));
        ensure_eq!(D::int_of_s(&f)?, b % D::N::p(), "base {:x} as scalar", b);
        let g = nv::scalar_as_base::<D::O>(D::sc(v));
        ensure_eq!(D::int_of(&g)?, v % D::M::p(), "scalar {:x} as base", v);
        case.nontrivial_if(b.bits() > 64 && v.bits() > 64);
        case.class_if(b >= D::N::p() || v >= D::M::p(), "integer above the other modulus");
        let nat = nv::f_to_nat(&D::fe(b));
        ensure_eq!(nat.to_biguint(), Some(b.clone()), "natural number of {:x}", b);
        let w = from_limbs(big);
        let w = if w.bits() >= 511 { w >> 2u32 } else { w };
        ensure_eq!(D::int_of(&nv::nat_to_f::<D::F>(&BigInt::from(w.clone())))?, &w % D::M::p(), "field element of the natural {:x}", w);
        let w = w % (BigUint::one() << 256u32);
        let l: Vec<D::F> = nv::nat_to_limbs(&BigInt::from(w.clone()), 64, 4);
        let li: Vec<BigUint> = l.iter().map(D::int_of).collect::<Result<_, _>>()?;
        ensure_eq!(li, limbs64(&w).to_vec(), "limbs of {:x}", w);
        ensure_eq!(nv::limbs_to_nat(l.into_iter(), 64).to_biguint(), Some(w.clone()), "recomposed limbs of {:x}", w);
        Ok(())
    });
}
pub fn inst<D: Nv>() -> BoxedStrategy<(usize, usize, BigUint, Vec<BigUint>)> {
    (pt_ix(), pt_ix(), D::nint(), prop_oneof![4 => prop::collection::vec(D::nint(), 2), 1 => prop::collection::vec(D::nint(), 0..4)]).boxed()
}
pub fn c19(s: &mut Suite) {
    s.rule("sequences count as non-trivial when at least two field elements are absorbed; instances when a commitment is not the identity; alterations when they change the absorbed sequence");
    s.assume("two different absorbed sequences colliding on at least 96 output bits by chance is negligible; the reference cipher and sponge are written from the specification with big integers and round constants generated by an independent BLAKE2b");
    checks::<Gk>(s);
    checks::<Bn>(s);
}
