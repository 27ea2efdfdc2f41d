//! C08: a user's instantiation of the field and twisted Edwards macros (Jubjub over BLS12-381's scalar field).
#![allow(clippy::all)]
use parity_scale_codec::{Decode, Encode};
use zkstd::arithmetic::bits_256::*;
use zkstd::arithmetic::edwards::*;
use zkstd::common::*;
use zkstd::macros::{curve::edwards::*, field::*};

/// A prime field over four limbs, as a user of the library defines one.
macro_rules! user_field {
    ($m:ident, $f:ident, $p:expr, $inv:expr, $r:expr, $r2:expr, $r3:expr) => {
        pub mod $m {
            use super::*;
            #[derive(Clone, Copy, Decode, Encode)]
            pub struct $f(pub [u64; 4]);
            pub const P: [u64; 4] = $p;
            pub const G: [u64; 4] = $r;
            pub const INV: u64 = $inv;
            pub const R: [u64; 4] = $r;
            pub const R2: [u64; 4] = $r2;
            pub const R3: [u64; 4] = $r3;
            pub const U: $f = $f($r);
            pub const S: usize = 1;
            impl SigUtils<32> for $f {
                fn to_bytes(self) -> [u8; 32] {
                    let mut b = [0; 32];
                    for (i, l) in self.montgomery_reduce().iter().enumerate() { b[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes()); }
                    b
                }
                fn from_bytes(_: [u8; 32]) -> Option<Self> { None }
            }
            impl $f {
                pub(crate) const fn montgomery_reduce(self) -> [u64; 4] { mont([self.0[0], self.0[1], self.0[2], self.0[3], 0, 0, 0, 0], P, INV) }
                pub const fn to_mont_form(v: [u64; 4]) -> Self { Self(to_mont_form(v, R2, P, INV)) }
                pub const fn inner(&self) -> &[u64; 4] { &self.0 }
                pub const fn new_unchecked(v: [u64; 4]) -> Self { Self(v) }
            }
            fft_field_operation!($f, P, G, U, INV, U, R, R2, R3, S);
        }
        pub use $m::$f;
    };
}
user_field!(bls_scalar, BlsScalar, [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48], 0xfffffffeffffffff, [0x00000001fffffffe, 0x5884b7fa00034802, 0x998c4fefecbc4ff5, 0x1824b159acc5056f], [0xc999e990f3f29c6d, 0x2b6cedcb87925c23, 0x05d314967254398f, 0x0748d9d99f59ff11], [0xc62c1807439b73af, 0x1b3e0d188cf06990, 0x73d13c71c7b5f418, 0x6e2a5bb9c8db33e9]);
user_field!(jub_scalar, JubScalar, [0xd0970e5ed6f72cb7, 0xa6682093ccc81082, 0x6673b0101343b00, 0xe7db4ea6533afa9], 0x1ba3a358ef788ef9, [0x25f80bb3b99607d9, 0xf315d62f66b6e750, 0x932514eeeb8814f4, 0x9a6fc6f479155c6], [0x67719aa495e57731, 0x51b0cef09ce3fc26, 0x69dab7fac026e9a5, 0x4f6547b8d127688], [0xe0d6c6563d830544, 0x323e3883598d0f85, 0xf0fea3004c2e2ba8, 0x5874f84946737ec]);
user_field!(f25519, F25519, [0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff], 0x86bca1af286bca1b, [0x26, 0x0, 0x0, 0x0], [0x5a4, 0x0, 0x0, 0x0], [0xd658, 0x0, 0x0, 0x0]);
user_field!(f61, F61, [0x1fffffffffffffff, 0x0, 0x0, 0x0], 0x2000000000000001, [0x1000, 0x0, 0x0, 0x0], [0x1000000, 0x0, 0x0, 0x0], [0x1000000000, 0x0, 0x0, 0x0]);
user_field!(f192, F192, [0xffffffffffffffff, 0xfffffffffffffffe, 0xffffffffffffffff, 0x0], 0x1, [0x0, 0x1, 0x1, 0x0], [0x2, 0x3, 0x2, 0x0], [0x5, 0x9, 0x7, 0x0]);

pub const EDWARDS_D: BlsScalar = BlsScalar::to_mont_form([0x01065fd6d6343eb1, 0x292d7f6d37579d26, 0xf5fd9207e6bd7fd4, 0x2a9318e74bfa2b48]);
const X: BlsScalar = BlsScalar::to_mont_form([0x4df7b7ffec7beaca, 0x2e3ebb21fd6c54ed, 0xf1fbf02d0fd6cce6, 0x3fd2814c43ac65a6]);
const Y: BlsScalar = BlsScalar::to_mont_form([0x12, 0, 0, 0]);
const T: BlsScalar = BlsScalar::to_mont_form([0x07b6af007a0b6822b, 0x04ebe6448d1acbcb8, 0x036ae4ae2c669cfff, 0x0697235704b95be33]);

#[derive(Clone, Copy, Debug, Encode, Decode)]
pub struct JubjubAffine {
    x: BlsScalar,
    y: BlsScalar,
}

impl Add for JubjubAffine {
    type Output = JubjubExtended;

    fn add(self, rhs: JubjubAffine) -> Self::Output {
        add_projective_point(self.to_extended(), rhs.to_extended())
    }
}

impl Neg for JubjubAffine {
    type Output = Self;

    fn neg(self) -> Self {
        Self {
            x: -self.x,
            y: self.y,
        }
    }
}

impl Sub for JubjubAffine {
    type Output = JubjubExtended;

    fn sub(self, rhs: JubjubAffine) -> Self::Output {
        add_projective_point(self.to_extended(), rhs.neg().to_extended())
    }
}

impl Mul<BlsScalar> for JubjubAffine {
    type Output = JubjubExtended;

    fn mul(self, rhs: BlsScalar) -> Self::Output {
        scalar_point(self.to_extended(), &rhs)
    }
}

impl Mul<JubjubAffine> for BlsScalar {
    type Output = JubjubExtended;

    fn mul(self, rhs: JubjubAffine) -> Self::Output {
        scalar_point(rhs.to_extended(), &self)
    }
}

#[derive(Clone, Copy, Debug, Encode, Decode)]
pub struct JubjubExtended {
    x: BlsScalar,
    y: BlsScalar,
    t: BlsScalar,
    z: BlsScalar,
}

impl Add for JubjubExtended {
    type Output = JubjubExtended;

    fn add(self, rhs: JubjubExtended) -> Self::Output {
        add_projective_point(self, rhs)
    }
}

impl Neg for JubjubExtended {
    type Output = Self;

    fn neg(self) -> Self {
        Self {
            x: -self.x,
            y: self.y,
            t: -self.t,
            z: self.z,
        }
    }
}

impl Sub for JubjubExtended {
    type Output = JubjubExtended;

    fn sub(self, rhs: JubjubExtended) -> Self::Output {
        add_projective_point(self, rhs.neg())
    }
}

impl Mul<BlsScalar> for JubjubExtended {
    type Output = JubjubExtended;

    fn mul(self, rhs: BlsScalar) -> Self::Output {
        scalar_point(self, &rhs)
    }
}

impl Mul<JubjubExtended> for BlsScalar {
    type Output = JubjubExtended;

    fn mul(self, rhs: JubjubExtended) -> Self::Output {
        scalar_point(rhs, &self)
    }
}


impl SigUtils<32> for JubjubAffine {
    fn to_bytes(self) -> [u8; 32] { self.y.to_bytes() }
    fn from_bytes(_: [u8; 32]) -> Option<Self> { None }
}
twisted_edwards_curve_operation!(BlsScalar, BlsScalar, EDWARDS_D, JubjubAffine, JubjubExtended, X, Y, T);
