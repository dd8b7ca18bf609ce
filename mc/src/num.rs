//! Number formats, value alphabets and witness arithmetic.
use crate::exact::{self, Fmt};
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, GFloat};

/// the two float widths of the crate
pub trait Fl: GFloat + AlmostEqual + Send + Sync + std::fmt::Display + 'static {
    const FMT: Fmt;
    const NAME: &'static str;
    const EPS: f64; // 2^(1-p)
    fn f(x: f64) -> Self; // nearest
    fn d(self) -> f64; // exact
    /// position in the ordered list of floats (both zeros are 0)
    fn ord(self) -> i128;
    fn up(self) -> Self; // std::next_up
    fn down(self) -> Self;
    fn bits(self) -> u64;
}
impl Fl for f32 {
    const FMT: Fmt = exact::F32;
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn f(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn ord(self) -> i128 {
        let b = self.to_bits();
        if b >> 31 == 0 { b as i128 } else { -((b & 0x7fff_ffff) as i128) }
    }
    fn up(self) -> f32 {
        f32::next_up(self)
    }
    fn down(self) -> f32 {
        f32::next_down(self)
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Fl for f64 {
    const FMT: Fmt = exact::F64;
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn f(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn ord(self) -> i128 {
        let b = self.to_bits();
        if b >> 63 == 0 { b as i128 } else { -((b & !(1 << 63)) as i128) }
    }
    fn up(self) -> f64 {
        f64::next_up(self)
    }
    fn down(self) -> f64 {
        f64::next_down(self)
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

pub fn iv<T: Fl>(x: &Interval<T>) -> String {
    format!("[{:e}, {:e}]", x.inf.d(), x.sup.d())
}

/// sorted, deduplicated (by bits) list of signed values from magnitudes
pub fn signed<T: Fl>(mags: &[f64]) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    for &m in mags {
        for s in [1.0, -1.0] {
            let x = T::f(m * s);
            if GFloat::is_finite(x) && !v.iter().any(|y| y.bits() == x.bits()) {
                v.push(x);
            }
        }
    }
    v.sort_by(|a, b| (a.ord(), a.bits() != 0).cmp(&(b.ord(), b.bits() != 0)));
    // -0 before +0
    v.sort_by(|a, b| a.d().total_cmp(&b.d()));
    v
}

/// magnitude ladder over the whole range of the format, with neighbours of powers of two
pub fn ladder<T: Fl>(full: bool) -> Vec<f64> {
    let f = T::FMT;
    let tiny = exact::ldexp(1, f.emin);
    let minpos = exact::ldexp(1, f.emin + f.p - 1);
    let root = f.max.sqrt();
    let mut v = vec![
        0.0, tiny, 3.0 * tiny, minpos / 2.0, minpos, minpos * 1.5, minpos.sqrt(), 1.0 / root, 1e-19, 3.3e-10, 1e-6,
        1e-4, 0.1, 1.0 / 3.0, 0.5, 1.0 - T::EPS / 2.0, 1.0, 1.0 + T::EPS, 1.5, 2.0, 2.718281828, 3.0,
        3.141592653589793, 10.0, 100.25, 12345.678, 16777216.0, 1e10, 1e19, root, f.max / 3.0, f.max / 2.0, f.max,
    ];
    if full {
        v.extend([0.25, 0.7, 0.9999, 1.0001, 4.0, 5.0, 7.3, 33.0, 255.0, 1e3, 65536.5, 1e5, 123456789.0, 2e-3, 1e-2, 1e-8, 1e-30, 1e25,
                  minpos * 3.0, tiny * 5.0]);
    }
    v
}

/// all intervals over a sorted value list
pub fn intervals<T: Fl>(v: &[T]) -> Vec<(usize, usize)> {
    let mut r = vec![];
    for i in 0..v.len() {
        for j in i..v.len() {
            r.push((i, j));
        }
    }
    r
}

/// intervals given by a centre of the rich alphabet and a width relative to it: points, one and
/// two ulps, up to intervals that touch or straddle zero; and a few far wider than their centre
pub fn narrow<T: Fl>(lo: i32, hi: i32, dense: bool) -> Vec<Interval<T>> {
    let widths = [3e-7, 1e-5, 3e-4, 0.01, 0.3, 0.999, 1.0, 1.001, 3.0, 1e4];
    let mut r: Vec<(T, T)> = vec![];
    for m in crate::alpha::rich(lo, hi, dense) {
        let t = T::f(m);
        r.extend([(t, t), (t, t.up()), (t.down(), t.up())]);
        for w in &widths {
            r.push((T::f(m - m.abs() * w), T::f(m + m.abs() * w)));
        }
    }
    r.sort_by(|a, b| a.0.d().total_cmp(&b.0.d()).then(a.1.d().total_cmp(&b.1.d())));
    r.dedup_by(|a, b| a.0.bits() == b.0.bits() && a.1.bits() == b.1.bits());
    r.into_iter().map(|(a, b)| Interval::new(a, b)).collect()
}
/// intervals with a bound on a fine ladder of magnitudes (both signs)
pub fn fine<T: Fl>(lo: i32, hi: i32, per: i32) -> Vec<Interval<T>> {
    let mut r = vec![];
    for m in crate::alpha::fine(lo, hi, per) {
        let t = T::f(m);
        r.extend([(t, t), (t, t.up()), (t.down(), t)]);
        for w in [3e-4, 0.3, 3.0, 1e4] {
            r.extend([(t, T::f(m + m.abs() * w)), (T::f(m - m.abs() * w), t)]);
        }
    }
    r.into_iter().map(|(a, b)| Interval::new(a, b)).collect()
}
const FIXED: [(f64, f64); 13] = [(1.0, 1.0), (-1.0, -1.0), (0.0, 0.0), (2.0, 3.0), (-3.0, -2.0), (-1.0, 2.0), (0.0, 1.0), (1e-3, 1e-3), (1e5, 1e6), (-1e-8, 1e8), (0.1, 0.7), (-0.3, -0.3), (1e-9, 2e-9)];
const APART: [f64; 11] = [0.0, 1.2e-7, -1.2e-7, 1e-6, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3, 1e-2, -1e-2];
pub const PARTNERS: usize = 13 + 11 * 2 * 4;
/// the j-th of the intervals to combine an interval with: fixed ones, and those which share a
/// bound with it, or its opposite, almost or exactly
pub fn partner<T: Fl>(a: &Interval<T>, j: usize) -> Interval<T> {
    if j < FIXED.len() {
        return Interval::new(T::f(FIXED[j].0), T::f(FIXED[j].1));
    }
    let j = j - FIXED.len();
    let k = (1.0 + APART[j % 11]) * if j / 11 % 2 == 0 { 1.0 } else { -1.0 };
    let (l, h) = (a.inf.d() * k, a.sup.d() * k);
    let (l, h) = (l.min(h), l.max(h));
    let (x, y) = match j / 22 {
        0 => (l, h),
        1 => (l, l),
        2 => (h, h + h.abs() * 0.5),
        _ => (l - l.abs() * 0.5, l),
    };
    Interval::new(T::f(x), T::f(y))
}
/// exact range of a binary operation over two intervals (the hull of its corners), rounded outward
pub fn corners<T: Fl>(f: fn(f64, f64, Fmt) -> (f64, f64), a: &Interval<T>, b: &Interval<T>) -> (f64, f64) {
    let (p, q) = (f(a.inf.d(), b.inf.d(), T::FMT), f(a.inf.d(), b.sup.d(), T::FMT));
    let (r, s) = (f(a.sup.d(), b.inf.d(), T::FMT), f(a.sup.d(), b.sup.d(), T::FMT));
    (p.0.min(q.0).min(r.0).min(s.0), p.1.max(q.1).max(r.1).max(s.1))
}

// ---------------------------------------------------------------------------------------
/// double-double number with a rigorous absolute error bound
#[derive(Clone, Copy, Debug)]
pub struct W {
    pub hi: f64,
    pub lo: f64,
    pub err: f64,
}
const U2: f64 = 1.0 / (1u128 << 98) as f64;
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
impl W {
    pub fn new(x: f64) -> W {
        W { hi: x, lo: 0.0, err: 0.0 }
    }
    fn mk(hi: f64, lo: f64, err: f64) -> W {
        let (h, l) = two_sum(hi, lo);
        W { hi: h, lo: l, err: (err + h.abs() * U2) * 1.0000001 + 1e-300 }
    }
    pub fn ok(self) -> bool {
        self.hi.is_finite() && self.err.is_finite() && self.hi.abs() < 1e140 && (self.hi == 0.0 || self.hi.abs() > 1e-140)
    }
    pub fn neg(self) -> W {
        W { hi: -self.hi, lo: -self.lo, err: self.err }
    }
    pub fn add(self, o: W) -> W {
        let (s, e) = two_sum(self.hi, o.hi);
        let (t, f) = two_sum(self.lo, o.lo);
        let (s, e2) = two_sum(s, e + t);
        let m = (self.hi.abs() + o.hi.abs()) * U2;
        W::mk(s, e2 + f, self.err + o.err + m)
    }
    pub fn sub(self, o: W) -> W {
        self.add(o.neg())
    }
    pub fn mul(self, o: W) -> W {
        let p = self.hi * o.hi;
        let e = self.hi.mul_add(o.hi, -p);
        let e = e + (self.hi * o.lo + self.lo * o.hi);
        let m = p.abs() * U2 * 4.0;
        W::mk(p, e, self.hi.abs() * o.err + o.hi.abs() * self.err + self.err * o.err + m)
    }
    pub fn div(self, o: W) -> W {
        let q1 = self.hi / o.hi;
        let r = self.sub(o.exact().mul(W::new(q1)).exact());
        let q2 = (r.hi + r.lo) / o.hi;
        let r2 = r.sub(o.exact().mul(W::new(q2)).exact());
        let q3 = (r2.hi + r2.lo) / o.hi;
        let (s, e) = two_sum(q1, q2);
        let q = (s + (e + q3)).abs();
        let den = (o.hi.abs() - o.err).max(0.0);
        W::mk(s, e + q3, (self.err + q * o.err) / den * 1.000001 + q * U2 * 16.0)
    }
    fn exact(self) -> W {
        W { err: 0.0, ..self }
    }
    pub fn sqrt(self) -> W {
        if self.hi <= 0.0 {
            return W { hi: 0.0, lo: 0.0, err: (self.err + self.hi.abs()).sqrt() };
        }
        let s = self.hi.sqrt();
        let r = self.exact().sub(W::new(s).mul(W::new(s)));
        let c = (r.hi + r.lo) / (2.0 * s);
        let err = if self.err < self.hi { self.err / s } else { self.err.sqrt() };
        W::mk(s, c, err + s * 1e-29)
    }
    pub fn abs(self) -> W {
        if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) { self.neg() } else { self }
    }
    /// certainly below / above a float
    pub fn certainly_lt(self, b: f64) -> bool {
        if !b.is_finite() {
            return b > 0.0;
        }
        let (d, e) = two_sum(self.hi, -b);
        let d = d + (e + self.lo);
        d + self.err * 1.0001 + d.abs() * 1e-15 < 0.0
    }
    pub fn certainly_gt(self, b: f64) -> bool {
        self.neg().certainly_lt(-b)
    }
}
