//! Reference models, written only on top of num-bigint: prime fields, the BN254 tower as quotient
//! rings, affine curve groups, naive polynomial / DFT arithmetic and an independent optimal ate pairing.
use lazy_static::lazy_static;
use num_bigint::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Zero};
use std::fmt::Debug;
use std::marker::PhantomData;

pub fn hex(s: &str) -> BigUint { BigUint::parse_bytes(s.as_bytes(), 16).unwrap() }
lazy_static! {
    pub static ref R_MOD: BigUint = hex("30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001");
    pub static ref Q_MOD: BigUint = hex("30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47");
    pub static ref BLS_Q: BigUint = hex("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab");
    pub static ref BLS_R: BigUint = hex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001");
    pub static ref JUB_R: BigUint = hex("0e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7");
    pub static ref R256: BigUint = BigUint::one() << 256u32;
    pub static ref R384: BigUint = BigUint::one() << 384u32;
}

lazy_static! {
    static ref RINV_R: BigUint = inv_mod(&(&*R256 % &*R_MOD), &R_MOD).unwrap();
    static ref RINV_Q: BigUint = inv_mod(&(&*R256 % &*Q_MOD), &Q_MOD).unwrap();
}
/// 2^-256 modulo p (p one of the two BN254 primes, cached; anything else computed).
pub fn rinv(p: &'static BigUint) -> BigUint {
    if std::ptr::eq(p, &*R_MOD) { RINV_R.clone() } else if std::ptr::eq(p, &*Q_MOD) { RINV_Q.clone() } else { inv_mod(&(&*R256 % p), p).unwrap() }
}

pub fn from_limbs(l: &[u64]) -> BigUint {
    let mut b = Vec::new();
    for x in l { b.extend_from_slice(&x.to_le_bytes()); }
    BigUint::from_bytes_le(&b)
}
pub fn to_limbs<const L: usize>(v: &BigUint) -> [u64; L] {
    let d = v.to_u64_digits();
    assert!(d.len() <= L, "value too large for {} limbs", L);
    let mut r = [0; L];
    r[..d.len()].copy_from_slice(&d);
    r
}
pub fn to_le32(v: &BigUint) -> [u8; 32] {
    let b = v.to_bytes_le();
    assert!(b.len() <= 32);
    let mut r = [0; 32];
    r[..b.len()].copy_from_slice(&b);
    r
}
pub fn inv_mod(a: &BigUint, p: &BigUint) -> Option<BigUint> {
    let (a, m) = (BigInt::from_biguint(Sign::Plus, a % p), BigInt::from_biguint(Sign::Plus, p.clone()));
    if a.is_zero() { return None; }
    let g = a.extended_gcd(&m);
    assert!(g.gcd.is_one());
    Some(g.x.mod_floor(&m).to_biguint().unwrap())
}

pub trait Modulus: Clone + Debug + PartialEq + 'static + Send + Sync { fn p() -> &'static BigUint; }
macro_rules! modulus { ($n:ident, $v:ident) => {
    #[derive(Clone, Debug, PartialEq, Eq, Copy)] pub struct $n;
    impl Modulus for $n { fn p() -> &'static BigUint { &$v } }
}}
modulus!(MR, R_MOD);
modulus!(MQ, Q_MOD);
modulus!(MBlsQ, BLS_Q);
modulus!(MBlsR, BLS_R);
modulus!(MJubR, JUB_R);

/// Reference field interface (ring with inverse).
pub trait RF: Clone + Debug + PartialEq + Send + Sync {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(&self, o: &Self) -> Self;
    fn sub(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn inv(&self) -> Option<Self>;
    fn is_zero(&self) -> bool { *self == Self::zero() }
    fn neg(&self) -> Self { Self::zero().sub(self) }
    fn sq(&self) -> Self { self.mul(self) }
    fn small(n: u64) -> Self {
        let mut r = Self::zero();
        let mut b = Self::one();
        let mut k = n;
        while k > 0 { if k & 1 == 1 { r = r.add(&b); } b = b.add(&b); k >>= 1; }
        r
    }
    fn pow(&self, e: &BigUint) -> Self {
        let mut r = Self::one();
        for i in (0..e.bits()).rev() {
            r = r.sq();
            if e.bit(i) { r = r.mul(self); }
        }
        r
    }
}

#[derive(Clone, PartialEq, Eq)]
pub struct Fp<M: Modulus>(pub BigUint, PhantomData<M>);
impl<M: Modulus> Debug for Fp<M> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "0x{:x}", self.0) } }
impl<M: Modulus> Fp<M> {
    pub fn new(v: &BigUint) -> Self { Fp(v % M::p(), PhantomData) }
    pub fn is_square(&self) -> bool {
        self.0.is_zero() || self.0.modpow(&((M::p() - 1u32) >> 1), M::p()).is_one()
    }
}
impl<M: Modulus> RF for Fp<M> {
    fn zero() -> Self { Fp(BigUint::zero(), PhantomData) }
    fn one() -> Self { Fp(BigUint::one(), PhantomData) }
    fn add(&self, o: &Self) -> Self { Fp::new(&(&self.0 + &o.0)) }
    fn sub(&self, o: &Self) -> Self { Fp::new(&(&self.0 + M::p() - &o.0)) }
    fn mul(&self, o: &Self) -> Self { Fp::new(&(&self.0 * &o.0)) }
    fn inv(&self) -> Option<Self> { inv_mod(&self.0, M::p()).map(|v| Fp(v, PhantomData)) }
    fn pow(&self, e: &BigUint) -> Self { Fp(self.0.modpow(e, M::p()), PhantomData) }
}
pub type Rq = Fp<MQ>;
pub type Rr = Fp<MR>;

/// Fq2 = Fq[u]/(u^2 + 1)
#[derive(Clone, PartialEq, Debug)]
pub struct Rq2(pub Rq, pub Rq);
impl Rq2 {
    pub fn conj(&self) -> Self { Rq2(self.0.clone(), self.1.neg()) }
    pub fn xi() -> Self { Rq2(Rq::small(9), Rq::one()) }
    pub fn norm(&self) -> Rq { self.0.sq().add(&self.1.sq()) }
    pub fn is_square(&self) -> bool { self.is_zero() || self.norm().is_square() }
}
impl RF for Rq2 {
    fn zero() -> Self { Rq2(Rq::zero(), Rq::zero()) }
    fn one() -> Self { Rq2(Rq::one(), Rq::zero()) }
    fn add(&self, o: &Self) -> Self { Rq2(self.0.add(&o.0), self.1.add(&o.1)) }
    fn sub(&self, o: &Self) -> Self { Rq2(self.0.sub(&o.0), self.1.sub(&o.1)) }
    fn mul(&self, o: &Self) -> Self {
        Rq2(self.0.mul(&o.0).sub(&self.1.mul(&o.1)), self.0.mul(&o.1).add(&self.1.mul(&o.0)))
    }
    fn inv(&self) -> Option<Self> {
        let n = self.norm().inv()?;
        Some(Rq2(self.0.mul(&n), self.1.neg().mul(&n)))
    }
}

/// Fq2[t]/(t^N - xi): N = 3 is Fq6 (t = v), N = 6 is Fq12 (t = w, v = w^2).
#[derive(Clone, PartialEq, Debug)]
pub struct RExt<const N: usize>(pub [Rq2; N]);
pub type Rq6 = RExt<3>;
pub type Rq12 = RExt<6>;
impl<const N: usize> RExt<N> {
    pub fn conj_odd(&self) -> Self {
        let mut r = self.clone();
        for i in 0..N { if i % 2 == 1 { r.0[i] = r.0[i].neg(); } }
        r
    }
    /// a -> a^(q^n) straight from the definition on coefficients: (c t^i)^q = conj(c) * t^(iq), t^N = xi.
    pub fn frob_once(&self) -> Self {
        let q = &*Q_MOD;
        let mut r = Self::zero();
        for i in 0..N {
            let e = q * i; // t^(iq) = t^(iq mod N) * xi^(iq div N)
            let (d, m) = e.div_rem(&BigUint::from(N));
            let m = m.to_u64_digits().get(0).cloned().unwrap_or(0) as usize;
            r.0[m] = r.0[m].add(&self.0[i].conj().mul(&Rq2::xi().pow(&d)));
        }
        r
    }
}
impl<const N: usize> RF for RExt<N> {
    fn zero() -> Self { RExt(std::array::from_fn(|_| Rq2::zero())) }
    fn one() -> Self { let mut r = Self::zero(); r.0[0] = Rq2::one(); r }
    fn add(&self, o: &Self) -> Self { RExt(std::array::from_fn(|i| self.0[i].add(&o.0[i]))) }
    fn sub(&self, o: &Self) -> Self { RExt(std::array::from_fn(|i| self.0[i].sub(&o.0[i]))) }
    fn mul(&self, o: &Self) -> Self {
        let mut t: Vec<Rq2> = vec![Rq2::zero(); 2 * N - 1];
        for i in 0..N {
            if self.0[i].is_zero() { continue; }
            for j in 0..N {
                if o.0[j].is_zero() { continue; }
                t[i + j] = t[i + j].add(&self.0[i].mul(&o.0[j]));
            }
        }
        for k in (N..2 * N - 1).rev() {
            let c = t[k].mul(&Rq2::xi());
            t[k - N] = t[k - N].add(&c);
        }
        RExt(std::array::from_fn(|i| t[i].clone()))
    }
    /// Linear algebra over Fq2: solve a * x = 1 by Gaussian elimination.
    fn inv(&self) -> Option<Self> {
        if self.is_zero() { return None; }
        // columns: a * t^j
        let mut m: Vec<Vec<Rq2>> = vec![vec![Rq2::zero(); N + 1]; N];
        let mut cur = self.clone();
        let mut t = Self::zero();
        t.0[1 % N] = Rq2::one();
        for j in 0..N {
            for i in 0..N { m[i][j] = cur.0[i].clone(); }
            cur = cur.mul(&t);
        }
        m[0][N] = Rq2::one();
        for c in 0..N {
            let p = (c..N).find(|r| !m[*r][c].is_zero())?;
            m.swap(c, p);
            let iv = m[c][c].inv().unwrap();
            for k in c..=N { m[c][k] = m[c][k].mul(&iv); }
            for r in 0..N {
                if r != c && !m[r][c].is_zero() {
                    let f = m[r][c].clone();
                    for k in c..=N { let s = f.mul(&m[c][k]); m[r][k] = m[r][k].sub(&s); }
                }
            }
        }
        Some(RExt(std::array::from_fn(|i| m[i][N].clone())))
    }
}

/// Affine point of y^2 = x^3 + b; None = identity.
pub type Pt<F> = Option<(F, F)>;
pub fn pt_neg<F: RF>(p: &Pt<F>) -> Pt<F> { p.as_ref().map(|(x, y)| (x.clone(), y.neg())) }
pub fn pt_double<F: RF>(p: &Pt<F>) -> Pt<F> { pt_add(p, p) }
pub fn pt_add<F: RF>(p: &Pt<F>, q: &Pt<F>) -> Pt<F> {
    let ((x1, y1), (x2, y2)) = match (p, q) { (None, _) => return q.clone(), (_, None) => return p.clone(), (Some(a), Some(b)) => (a, b) };
    let l = if x1 == x2 {
        if *y1 != *y2 || y1.is_zero() { return None; }
        let n = x1.sq().mul(&F::small(3));
        n.mul(&y1.add(y1).inv().unwrap())
    } else {
        y2.sub(y1).mul(&x2.sub(x1).inv().unwrap())
    };
    let x3 = l.sq().sub(x1).sub(x2);
    let y3 = l.mul(&x1.sub(&x3)).sub(y1);
    Some((x3, y3))
}
pub fn pt_mul<F: RF>(p: &Pt<F>, k: &BigUint) -> Pt<F> {
    // Jacobian ladder would share structure with the code under test; plain affine double-and-add.
    let mut r: Pt<F> = None;
    for i in (0..k.bits()).rev() {
        r = pt_double(&r);
        if k.bit(i) { r = pt_add(&r, p); }
    }
    r
}
pub fn on_curve<F: RF>(p: &(F, F), b: &F) -> bool { p.1.sq() == p.0.sq().mul(&p.0).add(b) }

/// Square root in a prime field by Tonelli-Shanks (reference).
pub fn fp_sqrt<M: Modulus>(a: &Fp<M>) -> Option<Fp<M>> {
    if a.is_zero() { return Some(a.clone()); }
    if !a.is_square() { return None; }
    let p = M::p();
    let pm1 = p - 1u32;
    let s = pm1.trailing_zeros().unwrap();
    let t = &pm1 >> s;
    let mut z = Fp::<M>::small(2);
    while z.is_square() { z = z.add(&Fp::one()); }
    let (mut m, mut c) = (s, z.pow(&t));
    let mut tt = a.pow(&t);
    let mut r = a.pow(&((&t + 1u32) >> 1));
    while tt != Fp::one() {
        let mut i = 0;
        let mut x = tt.clone();
        while x != Fp::one() { x = x.sq(); i += 1; }
        let mut b = c.clone();
        for _ in 0..(m - i - 1) { b = b.sq(); }
        m = i;
        c = b.sq();
        tt = tt.mul(&c);
        r = r.mul(&b);
    }
    Some(r)
}
pub fn fq2_sqrt(a: &Rq2) -> Option<Rq2> {
    if !a.is_square() { return None; }
    if a.1.is_zero() {
        if let Some(r) = fp_sqrt(&a.0) { return Some(Rq2(r, Rq::zero())); }
        return Some(Rq2(Rq::zero(), fp_sqrt(&a.0.neg()).unwrap()));
    }
    let n = fp_sqrt(&a.norm()).unwrap();
    let half = Rq::small(2).inv().unwrap();
    for s in [n.clone(), n.neg()] {
        if let Some(x) = fp_sqrt(&a.0.add(&s).mul(&half)) {
            if !x.is_zero() {
                let y = a.1.mul(&half).mul(&x.inv().unwrap());
                let r = Rq2(x, y);
                if r.sq() == *a { return Some(r); }
            }
        }
    }
    unreachable!("reference sqrt")
}

// ------------------------------------------------------------- constants
lazy_static! {
    pub static ref G1_GEN: (Rq, Rq) = (Rq::one(), Rq::small(2));
    pub static ref G2_GEN: (Rq2, Rq2) = (
        Rq2(Rq::new(&hex("1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed")), Rq::new(&hex("198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2"))),
        Rq2(Rq::new(&hex("12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa")), Rq::new(&hex("090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b"))));
    pub static ref B_G1: Rq = Rq::small(3);
    pub static ref B_G2: Rq2 = Rq2(Rq::small(3), Rq::zero()).mul(&Rq2::xi().inv().unwrap());
    /// Grumpkin: y^2 = x^3 - 17 over Fr
    pub static ref B_GRUMPKIN: Rr = Rr::small(17).neg();
    pub static ref BN_X: BigUint = BigUint::from(4965661367192848881u64);
}

// ------------------------------------------------------------- independent pairing
fn embed(a: &Rq) -> Rq12 { let mut r = Rq12::zero(); r.0[0] = Rq2(a.clone(), Rq::zero()); r }
/// untwist: E': y^2 = x^3 + 3/xi  ->  E: (x w^2, y w^3)
fn untwist(p: &(Rq2, Rq2)) -> (Rq12, Rq12) {
    let mut x = Rq12::zero();
    x.0[2] = p.0.clone();
    let mut y = Rq12::zero();
    y.0[3] = p.1.clone();
    (x, y)
}
fn line(p1: &(Rq12, Rq12), p2: &(Rq12, Rq12), t: &(Rq12, Rq12)) -> Rq12 {
    let ((x1, y1), (x2, y2), (xt, yt)) = (p1, p2, t);
    if x1 != x2 {
        let m = y2.sub(y1).mul(&x2.sub(x1).inv().unwrap());
        m.mul(&xt.sub(x1)).sub(&yt.sub(y1))
    } else if y1 == y2 {
        let m = Rq12::small(3).mul(&x1.sq()).mul(&y1.add(y1).inv().unwrap());
        m.mul(&xt.sub(x1)).sub(&yt.sub(y1))
    } else {
        xt.sub(x1)
    }
}
/// Optimal ate pairing, textbook version (affine points over Fq12, plain final exponentiation).
pub fn pairing(p: &Pt<Rq>, q: &Pt<Rq2>) -> Rq12 {
    let (p, q) = match (p, q) { (Some(p), Some(q)) => (p, q), _ => return Rq12::one() };
    let pt = (embed(&p.0), embed(&p.1));
    let qq = untwist(q);
    let loop_count = &*BN_X * 6u32 + 2u32;
    let mut r: Pt<Rq12> = Some(qq.clone());
    let mut f = Rq12::one();
    for i in (0..loop_count.bits() - 1).rev() {
        let ra = r.clone().unwrap();
        f = f.sq().mul(&line(&ra, &ra, &pt));
        r = pt_double(&r);
        if loop_count.bit(i) {
            let ra = r.clone().unwrap();
            f = f.mul(&line(&ra, &qq, &pt));
            r = pt_add(&r, &Some(qq.clone()));
        }
    }
    let q1 = (qq.0.frob_once(), qq.1.frob_once());
    let nq2 = (q1.0.frob_once(), q1.1.frob_once().neg());
    f = f.mul(&line(&r.clone().unwrap(), &q1, &pt));
    r = pt_add(&r, &Some(q1));
    f = f.mul(&line(&r.clone().unwrap(), &nq2, &pt));
    // (q^12-1)/r = (q^6-1) (q^2+1) (q^4-q^2+1)/r
    let f = f.conj_odd().mul(&f.inv().unwrap());
    let f = f.frob_once().frob_once().mul(&f);
    let q2 = &*Q_MOD * &*Q_MOD;
    f.pow(&((&q2 * &q2 - &q2 + 1u32) / &*R_MOD))
}

// ------------------------------------------------------------- polynomials over Fr
pub fn poly_eval<M: Modulus>(c: &[Fp<M>], x: &Fp<M>) -> Fp<M> {
    let mut r = Fp::zero();
    for a in c.iter().rev() { r = r.mul(x).add(a); }
    r
}
pub fn poly_mul<M: Modulus>(a: &[Fp<M>], b: &[Fp<M>]) -> Vec<Fp<M>> {
    if a.is_empty() || b.is_empty() { return vec![]; }
    let mut r = vec![BigUint::zero(); a.len() + b.len() - 1];
    for i in 0..a.len() { for j in 0..b.len() { r[i + j] += &a[i].0 * &b[j].0; } }
    r.iter().map(Fp::new).collect()
}
