//! C08: limb arithmetic over arbitrary moduli, user-instantiated fields, and the twisted Edwards macro.
use crate::forms;
use crate::jubjub::*;
use lazy_static::lazy_static;
use vk::gen::*;
use vk::refs::*;
use vk::*;
use zkstd::common::{CurveGroup, FftField, Group, IntGroup, Naf, PrimeField, Ring, TwistedEdwardsAffine, TwistedEdwardsCurve, TwistedEdwardsExtended};

// ------------------------------------------------------------------ moduli
pub struct Md { p: BigUint, inv: u64, r: BigUint, r2: BigUint, r3: BigUint, rinv: BigUint, bits: u32 }
fn md(p: BigUint, bits: u32) -> Md {
    let b = BigUint::one() << bits;
    let w = BigUint::one() << 64u32;
    let pin = inv_mod(&(&p % &w), &w).unwrap();
    let inv = ((&w - pin) % &w).to_u64_digits().first().cloned().unwrap_or(0);
    let r = &b % &p;
    Md { inv, r2: &r * &r % &p, r3: &r * &r * &r % &p, rinv: inv_mod(&r, &p).unwrap(), r, p, bits }
}
fn is_prime(p: &BigUint) -> bool {
    for s in [3u32, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97] { if (p % s).is_zero() { return *p == BigUint::from(s); } }
    let m1 = p - 1u32;
    let s = m1.trailing_zeros().unwrap();
    let d = &m1 >> s;
    'w: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29] {
        let mut x = BigUint::from(a).modpow(&d, p);
        if x.is_one() || x == m1 { continue; }
        for _ in 1..s { x = &x * &x % p; if x == m1 { continue 'w; } }
        return false;
    }
    true
}
fn splitmix(s: &mut u64) -> u64 { *s = s.wrapping_add(0x9e3779b97f4a7c15); let mut z = *s; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
/// Named primes plus primes next to limb-patterned integers; the seed varies the latter.
fn pool(bits: u32, named: Vec<BigUint>) -> Vec<Md> {
    let nl = (bits / 64) as usize;
    let mut s = vk::seed().wrapping_mul(0x1000193) ^ bits as u64;
    let mut v: Vec<Md> = named.into_iter().map(|p| md(p, bits)).collect();
    for i in 0..40 {
        let mut l: Vec<u64> = (0..nl).map(|_| match splitmix(&mut s) % 6 { 0 => 0, 1 | 2 => u64::MAX, 3 => 1 << (splitmix(&mut s) % 64), _ => splitmix(&mut s) }).collect();
        // keep the modulus below 2^(bits-1): sums must fit the limbs
        l[nl - 1] &= u64::MAX >> 1;
        if i % 3 != 0 { l[nl - 1] |= 1 << 62; }
        if i % 8 == 7 { let k = 1 + (splitmix(&mut s) % (nl as u64 - 1)) as usize; for x in l[k..].iter_mut() { *x = 0; } l[k - 1] |= 1 << 40; }
        let mut p = from_limbs(&l);
        p.set_bit(0, true);
        while !is_prime(&p) { p -= 2u32; }
        v.push(md(p, bits));
    }
    v
}
lazy_static! {
    static ref P25519: BigUint = (BigUint::one() << 255u32) - 19u32;
    static ref P61: BigUint = (BigUint::one() << 61u32) - 1u32;
    static ref P192: BigUint = (BigUint::one() << 192u32) - (BigUint::one() << 64u32) - 1u32;
    static ref POOL4: Vec<Md> = pool(256, vec![BLS_R.clone(), JUB_R.clone(), R_MOD.clone(), Q_MOD.clone(), P25519.clone(), P192.clone(), P61.clone()]);
    static ref POOL6: Vec<Md> = pool(384, vec![BLS_Q.clone(), BLS_Q.clone(), BLS_Q.clone()]);
}
/// Raw operands: anything int_mod produces plus limb patterns kept intact below the modulus.
fn operand(m: &'static Md) -> BoxedStrategy<BigUint> {
    let nl = (m.bits / 64) as usize;
    let top = m.p.to_u64_digits().get(nl - 1).cloned().unwrap_or(0);
    let pat = prop_oneof![4 => Just(u64::MAX), 2 => Just(0u64), 2 => Just(1u64), 1 => Just(1u64 << 63), 1 => Just(2u64), 1 => Just(u64::MAX - 1), 3 => limb()];
    prop_oneof![
        3 => int_mod(&m.p, m.bits),
        5 => proptest::collection::vec(pat, nl).prop_map(move |mut l| {
            if top == 0 { return from_limbs(&l) % &m.p; }
            if from_limbs(&l) >= m.p { l[nl - 1] %= top; }
            from_limbs(&l)
        }),
    ].boxed()
}
fn any_limbs(k: usize) -> BoxedStrategy<Vec<u64>> { proptest::collection::vec(limb(), k).boxed() }
fn pick(pool: &'static [Md]) -> BoxedStrategy<&'static Md> { (0..pool.len()).prop_map(move |i| &pool[i]).boxed() }
impl std::fmt::Debug for Md { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "modulus 0x{:x}", self.p) } }

pub struct Feed(pub Vec<u64>, pub usize);
impl rand_core::RngCore for Feed {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let v = self.0[self.1 % self.0.len()]; self.1 += 1; v }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let w = self.next_u64().to_le_bytes(); let l = c.len(); c.copy_from_slice(&w[..l]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
fn eq<const K: usize>(got: [u64; K], want: &BigUint, what: &str) -> R {
    ensure!(from_limbs(&got) == *want, "{}: got 0x{:x}, expected 0x{:x}", what, from_limbs(&got), want);
    Ok(())
}
fn naf_value(n: &[Naf]) -> BigInt {
    let mut v = BigInt::zero();
    for d in n { v = v * 2 + match d { Naf::Zero => 0, Naf::Plus => 1, Naf::Minus => -1 }; }
    v
}
macro_rules! limbs {
    ($s:ident, $nm:literal, $w:ident, $L:literal, $pool:ident) => {{
        use zkstd::arithmetic::$w as lib;
        const L: usize = $L;
        let _ = $pool.len();
        $s.check(concat!($nm, "-arithmetic"), n(450_000, 30_000_000), || pick(&$pool).prop_flat_map(|m| (Just(m), operand(m), operand(m))), |(m, a, b), c| {
            let (p, x, y) = (to_limbs::<L>(&m.p), to_limbs::<L>(a), to_limbs::<L>(b));
            c.nontrivial_if(!a.is_zero() && !b.is_zero() && a != b);
            c.class_if(a + b >= m.p, "sum wraps");
            c.class_if(m.p.bits() as u32 == m.bits - 1, "widest supported modulus");
            eq(lib::add(x, y, p), &((a + b) % &m.p), "add")?;
            eq(lib::sub(x, y, p), &((a + &m.p - b) % &m.p), "sub")?;
            eq(lib::double(x, p), &((a + a) % &m.p), "double")?;
            eq(lib::neg(x, p), &((&m.p - a) % &m.p), "neg")?;
            eq(lib::mul(x, y, p, m.inv), &(a * b % &m.p * &m.rinv % &m.p), "mul")?;
            eq(lib::square(x, p, m.inv), &(a * a % &m.p * &m.rinv % &m.p), "square")?;
            eq(lib::square(y, p, m.inv), &(b * b % &m.p * &m.rinv % &m.p), "square")
        });
        $s.check(concat!($nm, "-reduction"), n(100_000, 4_000_000), || (pick(&$pool), any_limbs(2 * L), any_limbs(L), limb()), |(m, w, v, u), c| {
            let p = to_limbs::<L>(&m.p);
            let (r2, r3) = (to_limbs::<L>(&m.r2), to_limbs::<L>(&m.r3));
            let wide = from_limbs(w);
            c.nontrivial_if(wide >= m.p);
            // every product of a reduced element and an arbitrary limb string is in range for mont
            let t = &wide % (&m.p << m.bits);
            eq(lib::mont(to_limbs::<{ 2 * L }>(&t), p, m.inv), &(&t * &m.rinv % &m.p), "mont")?;
            let mut wl = [0; 2 * L]; wl.copy_from_slice(w);
            eq(lib::from_u512(wl, r2, r3, p, m.inv), &(&wide * &m.r % &m.p), "wide reduction")?;
            let f = lib::random_limbs(Feed(w.clone(), 0), r2, r3, p, m.inv);
            ensure!(from_limbs(&f) < m.p, "random element not reduced");
            let val = from_limbs(v);
            let mut vl = [0; L]; vl.copy_from_slice(v);
            eq(lib::to_mont_form(vl, r2, p, m.inv), &(&val * &m.r % &m.p), "to_mont_form")?;
            eq(lib::from_u64(*u, r2, p, m.inv), &(BigUint::from(*u) * &m.r % &m.p), "from_u64")?;
            eq(lib::one(r2, p, m.inv), &m.r, "one")?;
            eq(lib::zero(), &BigUint::zero(), "zero")?;
            eq(lib::little_fermat(p), &(&m.p - 2u32), "little_fermat")?;
            let bits = lib::to_bits(vl);
            ensure!(bits.len() == 64 * L, "bit expansion length {}", bits.len());
            let mut acc = BigUint::zero();
            for b in bits.iter() { ensure!(*b < 2, "bit digit"); acc = (acc << 1u32) + *b as u32; }
            ensure!(acc == val, "bit expansion denotes 0x{:x}, expected 0x{:x}", acc, val);
            let red = &val % &m.p;
            let nafs = lib::to_nafs(to_limbs::<L>(&red));
            ensure!(naf_value(&nafs) == BigInt::from(red.clone()), "NAF expansion of 0x{:x} denotes {:x}", red, naf_value(&nafs));
            ensure!(nafs.windows(2).all(|w| w[0] == Naf::Zero || w[1] == Naf::Zero), "adjacent non-zero NAF digits");
            Ok(())
        });
        $s.check(concat!($nm, "-inverse-power"), n(12_000, 400_000), || pick(&$pool).prop_flat_map(|m| (Just(m), operand(m), any_limbs(L))), |(m, a, e), c| {
            let (p, x, id) = (to_limbs::<L>(&m.p), to_limbs::<L>(a), to_limbs::<L>(&m.r));
            c.nontrivial_if(!a.is_zero());
            let v = a * &m.rinv % &m.p;
            match (lib::invert(x, lib::little_fermat(p), id, p, m.inv), inv_mod(&v, &m.p)) {
                (None, None) => {}
                (Some(g), Some(w)) => eq(g, &(w * &m.r % &m.p), "invert")?,
                (g, w) => return Err(format!("invert: {:?}, expected {:?}", g, w)),
            }
            let ex = from_limbs(e);
            let mut el = [0; L]; el.copy_from_slice(e);
            eq(lib::pow(x, el, id, p, m.inv), &(v.modpow(&ex, &m.p) * &m.r % &m.p), "pow")
        });
    }};
}

// ------------------------------------------------------------------ user fields
macro_rules! user_field {
    ($s:ident, $t:ident, $p:ident) => {{
        let nm = stringify!($t);
        lazy_static! { static ref RI: BigUint = rinv(&$p); }
        fn mk(v: &BigUint) -> $t { $t(to_limbs::<4>(&(v * &*R256 % &*$p))) }
        fn same(g: $t, w: &BigUint, what: &str) -> R {
            let raw = from_limbs(&g.0);
            ensure!(raw < *$p, "{}: not in reduced form", what);
            let v = raw * &*RI % &*$p;
            ensure!(v == *w, "{}: got 0x{:x}, expected 0x{:x}", what, v, w);
            Ok(())
        }
        $s.check(&format!("{nm}-field"), n(30_000, 1_500_000), || (related_pair(&$p, 256), any::<u64>(), any_limbs(8)), |((a, b), u, w), c| {
            let p = &*$p;
            let (x, y) = (mk(a), mk(b));
            c.nontrivial_if(!a.is_zero() && !b.is_zero());
            let (sum, dif, pro) = ((a + b) % p, (a + p - b) % p, a * b % p);
            for (f, g) in forms!(x, y, +, +=) { same(g, &sum, f).map_err(|e| format!("add {}", e))?; }
            for (f, g) in forms!(x, y, -, -=) { same(g, &dif, f).map_err(|e| format!("sub {}", e))?; }
            for (f, g) in forms!(x, y, *, *=) { same(g, &pro, f).map_err(|e| format!("mul {}", e))?; }
            let neg = (p - a) % p;
            same(-x, &neg, "neg")?;
            same(-&x, &neg, "neg by reference")?;
            same(PrimeField::double(x), &((a + a) % p), "double")?;
            same(PrimeField::square(x), &(a * a % p), "square")?;
            let mut z = x; z.double_assign(); same(z, &((a + a) % p), "double_assign")?;
            let mut z = x; z.square_assign(); same(z, &(a * a % p), "square_assign")?;
            ensure!((x == y) == (a == b), "equality");
            ensure!(PrimeField::is_zero(x) == a.is_zero(), "is_zero");
            same(<$t as Group>::ADDITIVE_IDENTITY, &BigUint::zero(), "additive identity")?;
            same(<$t as IntGroup>::zero(), &BigUint::zero(), "zero")?;
            same(<$t as Ring>::MULTIPLICATIVE_IDENTITY, &BigUint::one(), "multiplicative identity")?;
            same(<$t as Ring>::one(), &BigUint::one(), "one")?;
            same($t::from(*u), &(BigUint::from(*u) % p), "From<u64>")?;
            same(FftField::pow(x, *u), &a.modpow(&BigUint::from(*u), p), "pow")?;
            same($t::pow_of_2(*u), &BigUint::from(2u32).modpow(&BigUint::from(*u), p), "pow_of_2")?;
            match (Group::invert(y), inv_mod(b, p)) {
                (None, None) => {}
                (Some(g), Some(w)) => {
                    same(g, &w, "invert")?;
                    same(x / y, &(a * &w % p), "div")?;
                    let mut z = x; z /= y; same(z, &(a * &w % p), "div_assign")?;
                }
                (g, w) => return Err(format!("invert({:x}) = {:?}, expected {:?}", b, g, w)),
            }
            let wide = from_limbs(w);
            let mut bytes = [0u8; 64];
            let le = wide.to_bytes_le(); bytes[..le.len()].copy_from_slice(&le);
            same($t::from_bytes_wide(&bytes), &(&wide % p), "from_bytes_wide")?;
            same($t::from_hash(&bytes), &(&wide % p), "from_hash")?;
            ensure_eq!(format!("{:?}", x), format!("0x{:0>64}", format!("{:x}", a)), "hex rendering");
            let mut acc = BigUint::zero();
            for b in x.to_bits().iter() { acc = (acc << 1u32) + *b as u32; }
            ensure!(acc == *a, "bit expansion denotes 0x{:x}", acc);
            ensure!(naf_value(&x.to_nafs()) == BigInt::from(a.clone()), "NAF expansion");
            ensure!(x.to_raw_bytes() == to_le32(a).to_vec(), "to_raw_bytes");
            ensure!(from_limbs(&x.reduce().0) == *a, "reduce");
            Ok(())
        });
    }};
}

// ------------------------------------------------------------------ Edwards
type F = Fp<MBlsR>;
type Ed = (F, F);
lazy_static! {
    static ref D: F = F::small(10240).mul(&F::small(10241).inv().unwrap()).neg();
    static ref ED_GEN: Ed = { let g = JubjubAffine::ADDITIVE_GENERATOR; (fval(g.get_x()).unwrap(), fval(g.get_y()).unwrap()) };
    static ref ED_TABLE: Vec<Ed> = { let mut v = vec![ed_zero()]; for i in 0..24 { let q = ed_add(&v[i], &ED_GEN); v.push(q); } v };
    /// the torsion subgroup Z/8
    static ref ED_TORSION: Vec<Ed> = {
        let (mut y, mut v) = (F::small(2), vec![]);
        // r * (random point) has order dividing 8; take one of order exactly 8
        loop {
            if let Some(p) = ed_lift(&y) {
                let t = ed_mul(&p, &JUB_R);
                let t4 = ed_add(&ed_add(&t, &t), &ed_add(&t, &t));
                if t4 != ed_zero() { let mut q = ed_zero(); for _ in 0..8 { v.push(q.clone()); q = ed_add(&q, &t); } assert!(q == ed_zero()); return v; }
            }
            y = y.add(&F::one());
        }
    };
    static ref RINV_BLS: BigUint = rinv(&BLS_R);
}
fn ed_zero() -> Ed { (F::zero(), F::one()) }
fn ed_add(p: &Ed, q: &Ed) -> Ed {
    let k = D.mul(&p.0.mul(&q.0)).mul(&p.1.mul(&q.1));
    let x = p.0.mul(&q.1).add(&q.0.mul(&p.1)).mul(&F::one().add(&k).inv().unwrap());
    let y = p.1.mul(&q.1).add(&p.0.mul(&q.0)).mul(&F::one().sub(&k).inv().unwrap());
    (x, y)
}
fn ed_neg(p: &Ed) -> Ed { (p.0.neg(), p.1.clone()) }
fn ed_on(p: &Ed) -> bool { let (x2, y2) = (p.0.sq(), p.1.sq()); y2.sub(&x2) == F::one().add(&D.mul(&x2).mul(&y2)) }
fn ed_mul(p: &Ed, k: &BigUint) -> Ed {
    let mut r = ed_zero();
    for i in (0..k.bits()).rev() { r = ed_add(&r, &r); if k.bit(i) { r = ed_add(&r, p); } }
    r
}
fn ed_lift(y: &F) -> Option<Ed> {
    let y2 = y.sq();
    let x2 = y2.sub(&F::one()).mul(&F::one().add(&D.mul(&y2)).inv()?);
    Some((fp_sqrt(&x2)?, y.clone()))
}
fn fmk(v: &F) -> BlsScalar { BlsScalar(to_limbs::<4>(&(&v.0 * &*R256 % &*BLS_R))) }
fn fval(v: BlsScalar) -> Result<F, String> {
    let raw = from_limbs(&v.0);
    ensure!(raw < *BLS_R, "coordinate not reduced");
    Ok(F::new(&(raw * &*RINV_BLS)))
}
#[derive(Clone, Debug)]
struct EdSpec { k: u8, neg: bool, lift: Option<BigUint>, tor: u8 }
fn ed_spec() -> BoxedStrategy<EdSpec> {
    (prop_oneof![1 => Just(0u8), 4 => 0u8..25], any::<bool>(), prop_oneof![1 => Just(None), 1 => int_mod(&BLS_R, 256).prop_map(Some)], prop_oneof![2 => Just(0u8), 1 => 0u8..8])
        .prop_map(|(k, neg, lift, tor)| EdSpec { k, neg, lift, tor }).boxed()
}
fn ed_point(s: &EdSpec) -> Ed {
    let mut p = match &s.lift {
        None => ED_TABLE[s.k as usize].clone(),
        Some(y) => { let mut y = F::new(y); loop { if let Some(p) = ed_lift(&y) { break p; } y = y.add(&F::one()); } }
    };
    if s.neg { p = ed_neg(&p); }
    ed_add(&p, &ED_TORSION[s.tor as usize])
}
fn ed_aff(p: &Ed) -> JubjubAffine { JubjubAffine::from_raw_unchecked(fmk(&p.0), fmk(&p.1)) }
fn ed_ext(p: &Ed, z: &F) -> JubjubExtended { JubjubExtended::new(fmk(&p.0.mul(z)), fmk(&p.1.mul(z)), fmk(&p.0.mul(&p.1).mul(z)), fmk(z)) }
fn is_ed_a(g: JubjubAffine, w: &Ed, what: &str) -> R {
    let v = (fval(g.get_x())?, fval(g.get_y())?);
    ensure!(v == *w, "{}: got {:?}, expected {:?}", what, v, w);
    Ok(())
}
fn is_ed(g: JubjubExtended, w: &Ed, what: &str) -> R {
    let (x, y, t, z) = (fval(g.get_x())?, fval(g.get_y())?, fval(g.get_t())?, fval(g.get_z())?);
    ensure!(!z.is_zero(), "{}: zero z coordinate", what);
    let zi = z.inv().unwrap();
    let v = (x.mul(&zi), y.mul(&zi));
    ensure!(v == *w, "{}: got {:?}, expected {:?}", what, v, w);
    ensure!(t.mul(&z) == x.mul(&y), "{}: t coordinate inconsistent (t*z != x*y)", what);
    is_ed_a(g.to_affine(), w, what)?;
    ensure!(g == ed_ext(w, &F::one()), "{}: equal points do not compare equal", what);
    ensure!(g.is_identity() == (*w == ed_zero()), "{}: is_identity", what);
    Ok(())
}
fn nz(v: &BigUint) -> F { let f = F::new(v); if f.is_zero() { F::one() } else { f } }
macro_rules! four { ($a:expr, $b:expr, $op:tt) => {{ let (a, b) = ($a, $b); [("owned", a $op b), ("&,&", &a $op &b), ("v,&", a $op &b), ("&,v", &a $op b)] }} }

fn z() -> BoxedStrategy<BigUint> { int_mod(&BLS_R, 256) }
fn edwards(s: &mut Suite) {
    let (_, _) = (ED_TORSION.len(), ED_TABLE.len());
    s.check("edwards-operators", n(24_000, 800_000), || (ed_spec(), ed_spec(), 0u8..8, z(), z()), |(sp, sq, rel, zp, zq), c| {
        let p = ed_point(sp);
        let q = match rel { 0 => p.clone(), 1 => ed_neg(&p), 2 => ed_add(&p, &p), 3 => ed_add(&p, &ED_TORSION[4]), _ => ed_point(sq) };
        let (a, b, e, f) = (ed_aff(&p), ed_aff(&q), ed_ext(&p, &nz(zp)), ed_ext(&q, &nz(zq)));
        c.nontrivial_if(p != ed_zero() && q != ed_zero());
        c.class_if(p == q, "equal points");
        c.class_if(p == ed_neg(&q), "opposite points");
        c.class_if(ED_TORSION.contains(&p), "small-order point");
        let (sum, dif) = (ed_add(&p, &q), ed_add(&p, &ed_neg(&q)));
        for (n, g) in four!(a, b, +) { is_ed(g, &sum, &format!("affine + affine ({})", n))?; }
        for (n, g) in four!(a, b, -) { is_ed(g, &dif, &format!("affine - affine ({})", n))?; }
        for (n, g) in four!(e, f, +) { is_ed(g, &sum, &format!("extended + extended ({})", n))?; }
        for (n, g) in four!(e, f, -) { is_ed(g, &dif, &format!("extended - extended ({})", n))?; }
        for (n, g) in four!(e, b, +) { is_ed(g, &sum, &format!("extended + affine ({})", n))?; }
        for (n, g) in four!(e, b, -) { is_ed(g, &dif, &format!("extended - affine ({})", n))?; }
        for (n, g) in four!(a, f, +) { is_ed(g, &sum, &format!("affine + extended ({})", n))?; }
        for (n, g) in four!(a, f, -) { is_ed(g, &dif, &format!("affine - extended ({})", n))?; }
        let mut r = e; r += f; is_ed(r, &sum, "extended += extended")?;
        let mut r = e; r += &f; is_ed(r, &sum, "extended += &extended")?;
        let mut r = e; r += b; is_ed(r, &sum, "extended += affine")?;
        let mut r = e; r += &b; is_ed(r, &sum, "extended += &affine")?;
        let mut r = e; r -= f; is_ed(r, &dif, "extended -= extended")?;
        let mut r = e; r -= &f; is_ed(r, &dif, "extended -= &extended")?;
        let mut r = e; r -= b; is_ed(r, &dif, "extended -= affine")?;
        let mut r = e; r -= &b; is_ed(r, &dif, "extended -= &affine")?;
        is_ed(TwistedEdwardsAffine::double(a), &ed_add(&p, &p), "affine double")?;
        is_ed(TwistedEdwardsExtended::double(e), &ed_add(&p, &p), "extended double")?;
        is_ed_a(-a, &ed_neg(&p), "affine neg")?;
        is_ed(-e, &ed_neg(&p), "extended neg")?;
        ensure!((e == f) == (p == q), "extended equality");
        ensure!((a == b) == (p == q), "affine equality");
        Ok(())
    });
    s.check("edwards-conversion-membership", n(60_000, 2_000_000), || (ed_spec(), z(), z(), z(), 0u8..6), |(sp, zp, u, v, kind), c| {
        let p = ed_point(sp);
        c.nontrivial_if(p != ed_zero());
        let (a, e) = (ed_aff(&p), ed_ext(&p, &nz(zp)));
        is_ed(a.to_extended(), &p, "to_extended")?;
        is_ed(JubjubExtended::from(a), &p, "extended from affine")?;
        is_ed_a(JubjubAffine::from(e), &p, "affine from extended")?;
        is_ed_a(JubjubAffine::from_x_and_y(a.get_x(), a.get_y()), &p, "affine from_x_and_y")?;
        is_ed(JubjubExtended::from_x_and_y(a.get_x(), a.get_y()), &p, "extended from_x_and_y")?;
        ensure!(a.is_identity() == (p == ed_zero()), "affine is_identity");
        ensure!(a.is_on_curve(), "curve point {:?} rejected (affine)", p);
        ensure!(e.is_on_curve(), "curve point {:?} rejected (extended)", p);
        is_ed_a(JubjubAffine::ADDITIVE_IDENTITY, &ed_zero(), "affine identity")?;
        is_ed(JubjubExtended::ADDITIVE_IDENTITY, &ed_zero(), "extended identity")?;
        is_ed(JubjubExtended::ADDITIVE_GENERATOR, &ED_GEN, "extended generator")?;
        is_ed_a(JubjubAffine::default(), &ed_zero(), "affine default")?;
        is_ed(JubjubExtended::default(), &ed_zero(), "extended default")?;
        // arbitrary coordinate pairs: membership is exactly the curve equation
        let (u, v) = (F::new(u), F::new(v));
        let cand = match kind { 0 => (u, v), 1 => (F::zero(), v), 2 => (u, F::zero()), 3 => (p.0.clone(), v), 4 => (u, p.1.clone()), _ => (p.0.clone(), p.1.add(&F::one())) };
        let on = ed_on(&cand);
        c.class(if on { "candidate on curve" } else { "candidate off curve" });
        ensure_eq!(ed_aff(&cand).is_on_curve(), on, "affine membership");
        ensure_eq!(ed_ext(&cand, &nz(zp)).is_on_curve(), on, "extended membership");
        // coordinates that represent no affine point: z = 0, or t inconsistent with x*y/z
        let (x, y, t, z) = (e.get_x(), e.get_y(), e.get_t(), e.get_z());
        ensure!(!JubjubExtended::new(x, y, t, fmk(&F::zero())).is_on_curve(), "extended coordinates with z = 0 accepted");
        ensure!(!JubjubExtended::new(x, y, t + fmk(&nz(zp)), z).is_on_curve(), "inconsistent t coordinate accepted");
        Ok(())
    });
    s.check("edwards-scalar", n(2_400, 80_000), || (ed_spec(), z(), prop_oneof![int_mod(&BLS_R, 256), int_mod(&JUB_R, 256), (0i64..5).prop_map(|d| &*JUB_R + 2u32 - d as u64), (0u64..9).prop_map(|k| (&*JUB_R << 2u32) + k)]), |(sp, zp, k), c| {
        let p = ed_point(sp);
        let (a, e, sc) = (ed_aff(&p), ed_ext(&p, &nz(zp)), fmk(&F::new(k)));
        c.nontrivial_if(p != ed_zero() && !k.is_zero());
        let w = ed_mul(&p, &(k % &*BLS_R));
        for (n, g) in four!(a, sc, *) { is_ed(g, &w, &format!("affine * scalar ({})", n))?; }
        for (n, g) in four!(sc, a, *) { is_ed(g, &w, &format!("scalar * affine ({})", n))?; }
        for (n, g) in four!(e, sc, *) { is_ed(g, &w, &format!("extended * scalar ({})", n))?; }
        for (n, g) in four!(sc, e, *) { is_ed(g, &w, &format!("scalar * extended ({})", n))?; }
        let mut r = e; r *= sc; is_ed(r, &w, "extended *= scalar")?;
        let mut r = e; r *= &sc; is_ed(r, &w, "extended *= &scalar")?;
        Ok(())
    });
    s.check("edwards-random", n(500, 10_000), || proptest::collection::vec(any::<u64>(), 8), |w, c| {
        c.nontrivial();
        for g in [JubjubAffine::random(&mut Feed(w.clone(), 0)).to_extended(), JubjubExtended::random(&mut Feed(w.clone(), 0))] {
            let a = g.to_affine();
            let p = (fval(a.get_x())?, fval(a.get_y())?);
            ensure!(ed_on(&p), "random point off the curve");
            ensure!(ed_mul(&p, &JUB_R) == ed_zero(), "random point outside the prime-order subgroup");
            is_ed(g, &p, "random")?;
        }
        Ok(())
    });
}

pub fn c08(s: &mut Suite) {
    s.rule("non-trivial: non-zero (and, for binary limb operations, distinct) operands; wide inputs at least the modulus; Edwards points other than the neutral element. Distinct inputs only.");
    s.assume("supported moduli: odd primes below 2^255 (four limbs) and 2^383 (six limbs), since sums of two reduced elements must fit the limbs; BLS12-381, Jubjub, BN254, 2^255-19, 2^192-2^64-1, 2^61-1 plus 40 seed-dependent limb-patterned primes per width");
    limbs!(s, "limbs256", bits_256, 4, POOL4);
    limbs!(s, "limbs384", bits_384, 6, POOL6);
    user_field!(s, BlsScalar, BLS_R);
    user_field!(s, JubScalar, JUB_R);
    user_field!(s, F25519, P25519);
    user_field!(s, F192, P192);
    user_field!(s, F61, P61);
    edwards(s);
}
