//! Reference trigonometry in double-double with rigorous error bounds, any f64 argument.
use crate::num::W;

/// fractional bits of 2/pi, most significant word first
const TWO_OVER_PI: [u64; 22] = [
    0xa2f9836e4e441529,
    0xfc2757d1f534ddc0,
    0xdb6295993c439041,
    0xfe5163abdebbc561,
    0xb7246e3a424dd2e0,
    0x06492eea09d1921c,
    0xfe1deb1cb129a73e,
    0xe88235f52ebb4484,
    0xe99c7026b45f7e41,
    0x3991d639835339f4,
    0x9c845f8bbdf9283b,
    0x1ff897ffde05980f,
    0xef2f118b5a0a6d1f,
    0x6d367ecf27cb09b7,
    0x4f463f669e5fea2d,
    0x7527bac7ebe5f17b,
    0x3d0739f78a5292ea,
    0x6bfb5fb11f8d5d08,
    0x56033046fc7b6bab,
    0xf0cfbc209af4361d,
    0xa9e391615ee61b08,
    0x6599855f14a06840,
];
pub const PI_HI: f64 = 3.141592653589793;
pub const PI_LO: f64 = 1.2246467991473532e-16;

/// pi as a witness
pub fn pi() -> W {
    W { hi: PI_HI, lo: PI_LO, err: 1e-32 }
}
pub fn scale2(w: W, k: f64) -> W {
    W { hi: w.hi * k, lo: w.lo * k, err: w.err * k.abs() }
}

/// x = (n + f) * pi/2 with n = floor(x * 2/pi) (returned mod 2^32) and the remainder
/// r = x - round(x*2/pi) * pi/2 in [-pi/4, pi/4], with the rounded quadrant (mod 4).
pub struct Reduced {
    pub floor: u32,
    /// x*2/pi is an integer (only for x = 0)
    pub integral: bool,
    pub quadrant: u32,
    pub r: W,
}

pub fn reduce(x: f64) -> Reduced {
    let neg = x < 0.0;
    let a = x.abs();
    if a == 0.0 {
        return Reduced { floor: 0, integral: true, quadrant: 0, r: W::new(0.0) };
    }
    if a < 0.75 {
        return Reduced { floor: if neg { u32::MAX } else { 0 }, integral: false, quadrant: 0, r: W::new(x) };
    }
    let (_, m, e) = crate::exact::split(a);
    // product m * TWO_OVER_PI, as words p[0..23], the first being the integer part
    let mut p = [0u64; 23];
    let mut carry = 0u128;
    for i in (0..22).rev() {
        let t = m as u128 * TWO_OVER_PI[i] as u128 + carry;
        p[i + 1] = t as u64;
        carry = t >> 64;
    }
    p[0] = carry as u64;
    // bit k (k >= 0: weight 2^k before scaling; k < 0 fractional); after scaling by 2^e the
    // binary point moves
    let bit64 = |start: i32| -> u64 {
        // the 64 bits of p with weights 2^(start+63) .. 2^start
        let mut v = 0u64;
        // weight 2^w sits in word (63 - w) / 64 at bit ...
        for half in 0..2 {
            let top = start + 63 - 32 * half;
            // collect 32 bits from weight top downwards
            let mut h = 0u64;
            for k in 0..32 {
                let w = top - k;
                let pos = 63 - w; // 0 = msb of p[0]
                let b = if pos < 0 || pos as usize >= 23 * 64 { 0 } else { (p[pos as usize / 64] >> (63 - pos as usize % 64)) & 1 };
                h = (h << 1) | b;
            }
            v = (v << 32) | h;
        }
        v
    };
    let int = bit64(-e) as u32; // weights 2^-e .. -> integer part of the scaled product (low bits)
    let mut f = [bit64(-e - 64), bit64(-e - 128), bit64(-e - 192), bit64(-e - 256)];
    let fl = if neg { (!int) as u32 } else { int }; // floor(-y) = -floor(y) - 1 for non-integers
    let up = f[0] >> 63 == 1;
    let quad = int.wrapping_add(up as u32);
    let mut s = 1.0;
    if up {
        // 1 - f
        let mut c = 1u128;
        for i in (0..4).rev() {
            let t = (!f[i]) as u128 + c;
            f[i] = t as u64;
            c = t >> 64;
        }
        s = -1.0;
    }
    // normalise
    let mut sh = 0;
    while f[0] >> 63 == 0 && sh < 128 {
        for i in 0..4 {
            f[i] = (f[i] << 1) | if i < 3 { f[i + 1] >> 63 } else { 0 };
        }
        sh += 1;
    }
    let sc = 2f64.powi(-sh);
    let h1 = (f[0] >> 11) as f64 * 2f64.powi(-53);
    let rest = ((f[0] & 0x7ff) << 53) | (f[1] >> 11);
    let l1 = rest as f64 * 2f64.powi(-117);
    let y = W { hi: h1 * sc, lo: l1 * sc, err: sc * 2f64.powi(-105) };
    let y = if s < 0.0 { y.neg() } else { y };
    let y = if neg { y.neg() } else { y };
    let half_pi = scale2(pi(), 0.5);
    let quadrant = if neg { quad.wrapping_neg() } else { quad } & 3;
    Reduced { floor: fl, integral: false, quadrant, r: y.mul(half_pi) }
}

/// (sin, cos) of |r| <= ~0.8
fn kernel(r: W) -> (W, W) {
    let r2 = r.mul(r);
    // Taylor, 16 terms: the remainder is < 0.8^33/33! < 1e-39
    let mut s = W::new(0.0);
    let mut c = W::new(0.0);
    let mut ts = r;
    let mut tc = W::new(1.0);
    for k in 0..16 {
        s = s.add(ts);
        c = c.add(tc);
        let k = k as f64;
        ts = ts.mul(r2).div(W::new(-(2.0 * k + 2.0) * (2.0 * k + 3.0)));
        tc = tc.mul(r2).div(W::new(-(2.0 * k + 1.0) * (2.0 * k + 2.0)));
    }
    (s, c)
}
pub fn sin_cos(x: f64) -> (W, W) {
    if x.abs() < 1e-30 {
        // sin x = x - x^3/6: relative difference below 2^-190
        return (W { hi: x, lo: 0.0, err: x.abs() * 1e-50 }, W { hi: 1.0, lo: 0.0, err: 1e-40 });
    }
    let q = reduce(x);
    let (s, c) = kernel(q.r);
    match q.quadrant {
        0 => (s, c),
        1 => (c, s.neg()),
        2 => (s.neg(), c.neg()),
        _ => (c.neg(), s),
    }
}

/// asin on [-1, 1]
pub fn asin(x: f64) -> W {
    if x.abs() < 1e-30 {
        return W { hi: x, lo: 0.0, err: x.abs() * 1e-50 };
    }
    if x == 1.0 || x == -1.0 {
        return scale2(pi(), 0.5 * x);
    }
    let y = x.asin();
    let (s, c) = sin_cos(y);
    let d = W::new(x).sub(s).div(c);
    let e2 = d.hi * d.hi / c.hi.abs();
    let mut r = W::new(y).add(d);
    r.err += e2;
    r
}
/// acos on [-1, 1]
pub fn acos(x: f64) -> W {
    if x == 1.0 {
        return W::new(0.0);
    }
    if x == -1.0 {
        return pi();
    }
    let y = x.acos();
    let (s, c) = sin_cos(y);
    let d = c.sub(W::new(x)).div(s);
    let e2 = d.hi * d.hi / s.hi.abs();
    let mut r = W::new(y).add(d);
    r.err += e2;
    r
}
pub fn atan(x: f64) -> W {
    if x.abs() < 1e-30 {
        return W { hi: x, lo: 0.0, err: x.abs() * 1e-50 };
    }
    if x.abs() > 1e100 {
        return W { err: 1e-32, ..scale2(pi(), if x > 0.0 { 0.5 } else { -0.5 }) };
    }
    atan2(x, 1.0)
}
/// atan2 with (x, y) != (0, 0); a zero y counts as +0
pub fn atan2(y: f64, x: f64) -> W {
    if y == 0.0 {
        return if x > 0.0 { W::new(0.0) } else { pi() };
    }
    if x == 0.0 {
        return scale2(pi(), if y > 0.0 { 0.5 } else { -0.5 });
    }
    // exact power-of-two scaling to about 1
    let sc = |v: f64| -> (f64, i32) {
        let (n, m, e) = crate::exact::split(v);
        let b = 64 - m.leading_zeros() as i32;
        let f = m as f64 / 2f64.powi(b);
        (if n { -f } else { f }, e + b)
    };
    let ((ym, ye), (xm, xe)) = (sc(y), sc(x));
    let d = ye - xe;
    if d > 300 {
        let mut r = scale2(pi(), if y > 0.0 { 0.5 } else { -0.5 });
        r.err += 1e-80;
        return r;
    }
    if d < -300 {
        if x < 0.0 {
            let mut r = if y > 0.0 { pi() } else { pi().neg() };
            r.err += 1e-80;
            return r;
        }
        // y/x up to relative 2^-600
        let (lo, hi) = crate::exact::div(y, x, crate::exact::F64);
        return W { hi: lo + (hi - lo) * 0.5, lo: 0.0, err: (hi - lo).abs() };
    }
    let (ys, xs) = if d >= 0 { (ym, xm * 2f64.powi(-d)) } else { (ym * 2f64.powi(d), xm) };
    let a = ys.atan2(xs);
    let (s, c) = sin_cos(a);
    let num = W::new(ys).mul(c).sub(W::new(xs).mul(s));
    let den = W::new(xs).mul(c).add(W::new(ys).mul(s));
    let t = num.div(den);
    let mut r = W::new(a).add(t);
    r.err += (t.hi * t.hi * t.hi).abs();
    r
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn against_libm() {
        let xs = [0.1, 0.5, 0.74, 0.76, 1.0, 1.5, 1.5707963267948966, 2.0, 3.0, 3.141592653589793, 4.0, 5.0, 6.0, 6.283185307179586, 7.0,
            100.0, 355.0, 1e5, 1e10, 12345678.9, 1e16, 1e22, 1e100, 1e300, f64::MAX, 6381956970095103.0 * 2f64.powi(797)];
        for x in xs.iter().flat_map(|x| [*x, -*x]) {
            let (s, c) = sin_cos(x);
            assert!((s.hi - x.sin()).abs() <= 2e-16 * x.sin().abs() + 1e-33, "{x} {} {}", s.hi, x.sin());
            assert!((c.hi - x.cos()).abs() <= 2e-16 * x.cos().abs() + 1e-33, "{x} {} {}", c.hi, x.cos());
            assert!(s.err < 1e-26 * s.hi.abs().max(1e-10) && c.err < 1e-26 * c.hi.abs().max(1e-10), "{x} {s:?} {c:?}");
            if x.abs() < 1e9 {
                let f = (x / std::f64::consts::FRAC_PI_2).floor() as i64 as u32;
                assert!(reduce(x).floor == f || (x / std::f64::consts::FRAC_PI_2).fract().abs() < 1e-9, "{x}");
            }
            let a = atan(x);
            assert!((a.hi - x.atan()).abs() <= 2.3e-16 * x.atan().abs() && a.err < 1e-27, "{x} {a:?}");
            for y in [0.3, -2.0, 1e-20, 1e50] {
                let a = atan2(x, y);
                assert!((a.hi - x.atan2(y)).abs() <= 4.5e-16 * x.atan2(y).abs(), "{x} {y} {a:?}");
            }
        }
        for k in -64..=64 {
            let x = k as f64 / 64.0;
            assert!((asin(x).hi - x.asin()).abs() <= 2.3e-16 * x.asin().abs());
            assert!((acos(x).hi - x.acos()).abs() <= 4.5e-16 * x.acos().abs());
            assert!(asin(x).err < 1e-25 && acos(x).err < 1e-25);
        }
        // sin^2 + cos^2 = 1 far beyond double precision
        for k in 1..2000 {
            let x = k as f64 * 0.731;
            let (s, c) = sin_cos(x);
            let one = s.mul(s).add(c.mul(c));
            assert!((one.hi - 1.0 + one.lo).abs() < 1e-28, "{x} {one:?}");
        }
    }
}
