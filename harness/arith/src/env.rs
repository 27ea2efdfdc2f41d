//! Points of a curve with known logarithms (shared by the harness crates).
use crate::cv::*;
use std::sync::Arc;
use vk::refs::*;
use vk::*;

/// 16-ary fixed-base table of the generator and a list of points with their logarithms.
pub struct Env<C: Cv> { win: Vec<Vec<Pt<CRef<C>>>>, pub pts: Vec<(BigUint, C::A)> }
impl<C: Cv> Env<C> {
    pub fn new() -> Arc<Self> {
        let mut win = vec![];
        let mut base = C::table()[1].clone();
        for _ in 0..64 {
            let mut row: Vec<Pt<CRef<C>>> = vec![None];
            for j in 0..15 { let n = pt_add(&row[j], &base); row.push(n); }
            base = pt_add(&row[15], &base);
            win.push(row);
        }
        let mut e = Env { win, pts: vec![] };
        let mut s = 77u64;
        let logs: Vec<BigUint> = (0..64u32).map(|k| match k {
            0..=23 => BigUint::from(k),
            24..=31 => (BigUint::one() << (30 * (k - 24) + 13)) % C::order(),
            _ => from_limbs(&[splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)]) % C::order(),
        }).collect();
        let pts: Vec<Pt<CRef<C>>> = logs.iter().map(|d| e.mul(d)).collect();
        for (d, p) in logs.iter().zip(&pts) { e.pts.push((d.clone(), aff::<C>(p))); }
        for (d, p) in logs.iter().zip(&pts) { e.pts.push(((C::order() - d) % C::order(), aff::<C>(&pt_neg(p)))); }
        Arc::new(e)
    }
    pub fn mul(&self, k: &BigUint) -> Pt<CRef<C>> {
        let b = (k % C::order()).to_bytes_le();
        let mut r: Pt<CRef<C>> = None;
        for (i, row) in self.win.iter().enumerate() {
            let d = b.get(i / 2).map_or(0, |x| if i % 2 == 0 { x & 15 } else { x >> 4 });
            r = pt_add(&r, &row[d as usize]);
        }
        r
    }
    pub fn sum(&self, l: &[(usize, BigUint)]) -> Pt<CRef<C>> {
        let s = l.iter().fold(BigUint::zero(), |s, (i, k)| s + &self.pts[*i].0 * k);
        self.mul(&s)
    }
}
