//! C05: the degree 2, 6 and 12 extensions against their quotient-ring definition.
use crate::el::*;
use crate::fields::same;
use crate::forms;
use bn_254::{Fq12, Fq2, Fq6};
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkstd::common::{Group, IntGroup, PrimeField, Ring};

pub fn rn<const K: usize>(v: &[V2]) -> RExt<K> { RExt(std::array::from_fn(|i| r2(&v[i]))) }
fn zero2() -> V2 { (BigUint::zero(), BigUint::zero()) }
fn unit(k: u8) -> V2 {
    let m1 = &*Q_MOD - 1u32;
    match k % 6 {
        0 => zero2(),
        1 => (BigUint::one(), BigUint::zero()),
        2 => (BigUint::zero(), BigUint::one()),
        3 => (m1, BigUint::zero()),
        4 => (BigUint::zero(), m1),
        _ => (BigUint::from(9u32), BigUint::one()),
    }
}
/// n coordinates over Fq2 with sparse, repeated, subfield and unit patterns.
pub fn ext(n: usize) -> BoxedStrategy<Vec<V2>> {
    let full = || proptest::collection::vec(fq2_int(), n);
    prop_oneof![
        4 => full(),
        3 => (full(), proptest::collection::vec(any::<bool>(), n)).prop_map(|(v, m)| v.into_iter().zip(m).map(|(c, k)| if k { c } else { zero2() }).collect()),
        2 => proptest::collection::vec(0u8..6, n).prop_map(|v| v.into_iter().map(unit).collect()),
        2 => (fq2_int(), 0..n).prop_map(move |(c, k)| (0..n).map(|i| if i == k { c.clone() } else { zero2() }).collect()),
        1 => fq2_int().prop_map(move |c| vec![c; n]),
        2 => (full(), 1..n + 1).prop_map(|(v, k)| v.into_iter().enumerate().map(|(i, c)| if i % k == 0 { c } else { zero2() }).collect()),
        1 => (full(), 1..n + 1).prop_map(|(v, k)| v.into_iter().enumerate().map(|(i, c)| if i % k != 0 { c } else { zero2() }).collect()),
        1 => full().prop_map(|v| v.into_iter().map(|c| (c.0, BigUint::zero())).collect()),
        1 => full().prop_map(|v| v.into_iter().map(|c| (BigUint::zero(), c.1)).collect()),
    ].boxed()
}
/// Pairs of elements with related operands.
fn ext_pair(n: usize) -> BoxedStrategy<(Vec<V2>, Vec<V2>)> {
    (ext(n), ext(n), 0u8..8, 0..n).prop_map(|(a, b, k, i)| {
        let neg = |c: &V2| ((&*Q_MOD - &c.0) % &*Q_MOD, (&*Q_MOD - &c.1) % &*Q_MOD);
        let b = match k {
            0 => a.clone(),
            1 => a.iter().map(neg).collect(),
            2 => a.iter().map(|c| (c.0.clone(), (&*Q_MOD - &c.1) % &*Q_MOD)).collect(),
            3 => { let mut c = a.clone(); c[i] = neg(&c[i]); c }
            _ => b,
        };
        (a, b)
    }).boxed()
}
fn zeros(v: &[V2]) -> usize { v.iter().filter(|c| c.0.is_zero() && c.1.is_zero()).count() }

macro_rules! tower {
    ($s:ident, $t:ident, $ref:ident, $n:expr, $mk:expr, $cases:expr) => {{
        let nm = stringify!($t);
        let k: u64 = $cases;
        $s.check(&format!("{nm}-binary-forms"), n(40_000 * k, 1_000_000 * k), || ext_pair($n), |(a, b), c| {
            let (ra, rb): ($ref, $ref) = ($mk(a), $mk(b));
            let (x, y) = ($t::mk(&ra), $t::mk(&rb));
            c.nontrivial_if(!ra.is_zero() && !rb.is_zero() && ra != rb);
            c.class_if(zeros(a) + zeros(b) > 0, "zero coordinates");
            c.class_if(ra == rb, "equal operands");
            let (s, d, m) = (ra.add(&rb), ra.sub(&rb), ra.mul(&rb));
            for (f, g) in forms!(x, y, +, +=) { same(g, &s, f).map_err(|e| format!("add {}", e))?; }
            for (f, g) in forms!(x, y, -, -=) { same(g, &d, f).map_err(|e| format!("sub {}", e))?; }
            let mut z = x; z *= y;
            let mut w = x; w *= &y;
            for (f, g) in [("owned", x * y), ("&a,&b", &x * &y), ("a,&b", x * &y), ("assign", z), ("assign &b", w)] { same(g, &m, f).map_err(|e| format!("mul {}", e))?; }
            ensure!((x == y) == (ra == rb), "equality disagrees with values");
            Ok(())
        });
        $s.check(&format!("{nm}-unary"), n(40_000 * k, 800_000 * k), || ext($n), |a, c| {
            let r: $ref = $mk(a);
            let x = $t::mk(&r);
            c.nontrivial_if(!r.is_zero());
            c.class_if(zeros(a) > 0, "zero coordinates");
            same(-x, &r.neg(), "neg")?;
            same(PrimeField::double(x), &r.add(&r), "double")?;
            same(PrimeField::square(x), &r.mul(&r), "square")?;
            let mut y = x; y.double_assign(); same(y, &r.add(&r), "double_assign")?;
            let mut y = x; y.square_assign(); same(y, &r.mul(&r), "square_assign")?;
            ensure!(PrimeField::is_zero(x) == r.is_zero(), "is_zero");
            same($t::zero() + x, &r, "zero + x")?;
            same($t::one() * x, &r, "one * x")?;
            same(<$t as Group>::ADDITIVE_IDENTITY + x, &r, "additive identity + x")?;
            same(<$t as IntGroup>::zero() + x, &r, "IntGroup zero + x")?;
            same(<$t as Ring>::MULTIPLICATIVE_IDENTITY * x, &r, "multiplicative identity * x")?;
            same(<$t as Ring>::one() * x, &r, "Ring one * x")?;
            Ok(())
        });
        $s.check(&format!("{nm}-inverse-division"), n(6_000 * k, 120_000 * k), || ext_pair($n), |(a, b), c| {
            let (ra, rb): ($ref, $ref) = ($mk(a), $mk(b));
            let (x, y) = ($t::mk(&ra), $t::mk(&rb));
            c.nontrivial_if(!rb.is_zero());
            c.class_if(rb.is_zero(), "zero divisor");
            match (Group::invert(y), rb.inv()) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    same(g, &w, "invert")?;
                    let q = ra.mul(&w);
                    same(x / y, &q, "div")?;
                    let mut z = x; z /= y; same(z, &q, "div_assign")?;
                }
                (g, w) => return Err(format!("invert({:?}) = {:?}, expected {:?}", rb, g, w)),
            }
            Ok(())
        });
    }};
}

fn one2(v: &[V2]) -> Rq2 { r2(&v[0]) }

pub fn c05(s: &mut Suite) {
    s.rule("non-trivial: operands non-zero and distinct. Classes count elements with vanishing coordinates and equal operands.");
    s.assume("reference: schoolbook multiplication in Fq[u]/(u^2+1), Fq2[v]/(v^3-9-u), Fq2[w]/(w^6-9-u); inversion by linear algebra");
    tower!(s, Fq2, Rq2, 1, one2, 8);
    tower!(s, Fq6, Rq6, 3, rn::<3>, 4);
    tower!(s, Fq12, Rq12, 6, rn::<6>, 1);

    s.check("Fq2-pow", n(6_000, 200_000), || (fq2_int(), [limb(), limb(), limb(), limb()]), |(a, e), c| {
        let r = r2(a);
        c.nontrivial_if(!r.is_zero());
        same(Fq2::mk(&r).pow_vartime(e), &r.pow(&from_limbs(e)), "pow_vartime")
    });
    s.check("nonresidue-conjugation", n(60_000, 1_000_000), || ext(6), |v, c| {
        let (a, b, d): (Rq2, Rq6, Rq12) = (r2(&v[0]), rn(v), rn(v));
        c.nontrivial_if(!b.is_zero());
        same(Fq2::mk(&a).verif_mul_by_nonres(), &a.mul(&Rq2::xi()), "Fq2 mul_by_nonres")?;
        let mut t = Rq6::zero();
        t.0[1] = Rq2::one();
        same(Fq6::mk(&b).verif_mul_by_nonres(), &b.mul(&t), "Fq6 mul_by_nonres")?;
        same(Fq2::mk(&a).verif_conjugate(), &a.conj(), "Fq2 conjugate")?;
        same(Fq12::mk(&d).conjugate(), &d.conj_odd(), "Fq12 conjugate")
    });
    s.check("sparse-products", n(40_000, 800_000), || (ext(6), ext(3)), |(v, w), c| {
        let (b, d): (Rq6, Rq12) = (rn(v), rn(v));
        let k: Vec<Rq2> = w.iter().map(r2).collect();
        c.nontrivial_if(!b.is_zero() && k.iter().all(|x| !x.is_zero()));
        c.class_if(k.iter().any(|x| x.is_zero()), "zero sparse coefficient");
        let z = Rq2::zero;
        let kk: Vec<Fq2> = k.iter().map(Fq2::mk).collect();
        same(Fq6::mk(&b).mul_by_1(kk[0]), &b.mul(&RExt([z(), k[0].clone(), z()])), "mul_by_1")?;
        same(Fq6::mk(&b).mul_by_01(kk[0], kk[1]), &b.mul(&RExt([k[0].clone(), k[1].clone(), z()])), "mul_by_01")?;
        // c0 + c3 w + c4 w v  (v = w^2)
        same(Fq12::mk(&d).mul_by_034(kk[0], kk[1], kk[2]), &d.mul(&RExt([k[0].clone(), k[1].clone(), z(), k[2].clone(), z(), z()])), "mul_by_034")
    });
    s.check("frobenius", n(10_000, 200_000), || (ext(6), 0usize..40), |(v, power), c| {
        let (mut a, mut b, mut d): (Rq2, Rq6, Rq12) = (r2(&v[0]), rn(v), rn(v));
        let (x, y, z) = (Fq2::mk(&a), Fq6::mk(&b), Fq12::mk(&d));
        c.nontrivial_if(!d.is_zero() && *power > 0);
        same(x.frobenius_map(), &a.conj(), "Fq2 frobenius_map")?;
        same(y.frobenius_map(), &b.frob_once(), "Fq6 frobenius_map")?;
        same(z.frobenius_map(), &d.frob_once(), "Fq12 frobenius_map")?;
        for _ in 0..*power % 2 { a = a.conj(); }
        for _ in 0..*power % 6 { b = b.frob_once(); }
        for _ in 0..*power % 12 { d = d.frob_once(); }
        same(x.verif_frobenius_maps(*power), &a, "Fq2 frobenius_maps")?;
        same(y.verif_frobenius_maps(*power), &b, "Fq6 frobenius_maps")?;
        same(z.verif_frobenius_maps(*power), &d, "Fq12 frobenius_maps")
    });
    // The coefficient-wise Frobenius of the reference really is x -> x^q.
    s.check("frobenius-is-power-q", n(400, 4_000), || ext(6), |v, c| {
        let (b, d): (Rq6, Rq12) = (rn(v), rn(v));
        c.nontrivial_if(!d.is_zero());
        same(Fq2::mk(&r2(&v[0])).frobenius_map(), &r2(&v[0]).pow(&Q_MOD), "Fq2 x^q")?;
        same(Fq6::mk(&b).frobenius_map(), &b.pow(&Q_MOD), "Fq6 x^q")?;
        same(Fq12::mk(&d).frobenius_map(), &d.pow(&Q_MOD), "Fq12 x^q")
    });
}
