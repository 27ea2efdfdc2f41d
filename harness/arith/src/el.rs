//! Adapters between the library's elements and the reference models.
use bn_254::{Fq, Fq12, Fq2, Fq6, Fr};
use parity_scale_codec::{Decode, Encode};
use vk::refs::*;
use vk::*;
use zkstd::common::*;

/// A library field element with a reference-model counterpart.
pub trait El: Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    type Ref: RF + 'static;
    fn mk(v: &Self::Ref) -> Self;
    /// Reads the element from its raw limbs; fails if it is not in reduced form.
    fn val(&self) -> Result<Self::Ref, String>;
}
macro_rules! prime_el {
    ($t:ident, $m:ident, $r:ident) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            type Ref = $r;
            fn mk(v: &$r) -> Self { $t::new_unchecked(to_limbs::<4>(&(&v.0 * &*R256 % &*$m))) }
            fn val(&self) -> Result<$r, String> {
                let raw = from_limbs(self.inner());
                ensure!(raw < *$m, "{} element is not in canonical reduced form (raw limbs 0x{:x})", Self::NAME, raw);
                Ok($r::new(&(raw * rinv(&$m))))
            }
        }
    };
}
prime_el!(Fr, R_MOD, Rr);
prime_el!(Fq, Q_MOD, Rq);

impl El for Fq2 {
    const NAME: &'static str = "Fq2";
    type Ref = Rq2;
    fn mk(v: &Rq2) -> Self { Fq2::new_unchecked([Fq::mk(&v.0), Fq::mk(&v.1)]) }
    fn val(&self) -> Result<Rq2, String> {
        // The coefficient array is crate-private; the derived SCALE encoding is the raw limbs in order.
        let b = self.encode();
        ensure!(b.len() == 64, "Fq2 encoding length {}", b.len());
        Ok(Rq2(raw_fq(&b[..32])?, raw_fq(&b[32..])?))
    }
}
fn raw_fq(b: &[u8]) -> Result<Rq, String> {
    let raw = BigUint::from_bytes_le(b);
    ensure!(raw < *Q_MOD, "coefficient not in canonical reduced form (raw limbs 0x{:x})", raw);
    Ok(Rq::new(&(raw * rinv(&Q_MOD))))
}
macro_rules! ext_el {
    ($t:ident, $r:ident, $n:literal, $ord:expr) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            type Ref = $r;
            fn mk(v: &$r) -> Self {
                let mut b = vec![];
                for i in $ord { b.extend(Fq2::mk(&v.0[i]).encode()); }
                $t::decode(&mut &b[..]).expect("decode extension element")
            }
            fn val(&self) -> Result<$r, String> {
                let b = self.encode();
                ensure!(b.len() == 64 * $n, "{} encoding length {}", Self::NAME, b.len());
                let mut r = $r::zero();
                for (k, i) in $ord.into_iter().enumerate() {
                    r.0[i] = Rq2(raw_fq(&b[64 * k..64 * k + 32])?, raw_fq(&b[64 * k + 32..64 * k + 64])?);
                }
                Ok(r)
            }
        }
    };
}
ext_el!(Fq6, Rq6, 3, [0usize, 1, 2]);
ext_el!(Fq12, Rq12, 6, [0usize, 2, 4, 1, 3, 5]);

pub fn rr(v: &BigUint) -> Rr { Rr::new(v) }
pub fn rq(v: &BigUint) -> Rq { Rq::new(v) }

/// All owned / by-reference forms of a binary operator plus both assigning forms.
#[macro_export]
macro_rules! forms {
    ($a:expr, $b:expr, $op:tt, $as:tt) => {{
        let (a, b) = ($a, $b);
        let mut c = a; c $as b;
        let mut d = a; d $as &b;
        [("owned", a $op b), ("&a,&b", &a $op &b), ("a,&b", a $op &b), ("&a,b", &a $op b), ("assign", c), ("assign &b", d)]
    }};
}

pub type V2 = (BigUint, BigUint);
pub fn r2(v: &V2) -> Rq2 { Rq2(Rq::new(&v.0), Rq::new(&v.1)) }
