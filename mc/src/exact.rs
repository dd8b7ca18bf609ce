//! Exact reference arithmetic.  Every f32/f64 is a dyadic rational m * 2^e; one operation
//! on two of them is computed exactly (or to enough bits plus a sticky bit) on u128
//! mantissas and rounded *down* and *up* to the target format.  For a float bound L and a
//! real r:  L <= r  iff  L <= RD(r), and  r <= U  iff  RU(r) <= U, so the pair (RD, RU)
//! decides enclosure exactly.

#[derive(Clone, Copy, Debug)]
pub struct Fmt {
    pub p: i32,    // precision in bits
    pub emin: i32, // exponent of the smallest subnormal
    pub max: f64,
}
pub const F32: Fmt = Fmt { p: 24, emin: -149, max: f32::MAX as f64 };
pub const F64: Fmt = Fmt { p: 53, emin: -1074, max: f64::MAX };

/// finite f64 -> (negative, mantissa, exponent)
pub fn split(x: f64) -> (bool, u64, i32) {
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    assert!(e != 0x7ff, "not finite");
    if e == 0 { (b >> 63 == 1, m, -1074) } else { (b >> 63 == 1, m | (1 << 52), e - 1075) }
}
fn pow2(e: i32) -> f64 {
    assert!((-1074..=1023).contains(&e));
    if e >= -1022 { f64::from_bits(((e + 1023) as u64) << 52) } else { f64::from_bits(1u64 << (e + 1074)) }
}
/// m * 2^e, which must be representable or overflow
pub fn ldexp(m: u64, e: i32) -> f64 {
    let mut x = m as f64;
    let mut e = e;
    while e > 1000 {
        x *= pow2(1000);
        e -= 1000;
        if x.is_infinite() {
            return x;
        }
    }
    if e < -1000 {
        // scale in two exact steps: x * 2^(e+1000) stays normal because m has < 54 bits
        let lz = 64 - m.leading_zeros() as i32;
        let _ = lz;
        // go through bits when the result is subnormal
        if m == 0 {
            return 0.0;
        }
        let msb = 63 - m.leading_zeros() as i32 + e;
        if msb < -1022 {
            let sh = e + 1074;
            return if sh >= 0 { f64::from_bits(m << sh) } else { f64::from_bits(m >> -sh) };
        }
        return x * pow2(-1000) * pow2(e + 1000);
    }
    x * pow2(e)
}

/// rounds (-1)^neg * (m + s) * 2^e, 0 <= s < 1 (s > 0 iff sticky), down and up to `f`
pub fn round_both(neg: bool, mut m: u128, mut e: i32, sticky: bool, f: Fmt) -> (f64, f64) {
    if m == 0 && !sticky {
        return (0.0, 0.0);
    }
    let mut sticky = sticky;
    if m != 0 {
        // make room so that the quantum is never below the mantissa's lsb when sticky
        let lead = m.leading_zeros() as i32 - 1;
        if sticky {
            assert!(128 - m.leading_zeros() as i32 >= f.p + 1, "not enough bits");
        }
        let _ = lead;
    }
    let msb = 127 - m.leading_zeros() as i32 + e; // exponent of the leading bit (m != 0)
    let q = if m == 0 { f.emin.max(e) } else { (msb - (f.p - 1)).max(f.emin) };
    let sh = q - e;
    if sh > 0 {
        if sh >= 128 {
            sticky |= m != 0;
            m = 0;
        } else {
            sticky |= m & ((1u128 << sh) - 1) != 0;
            m >>= sh;
        }
        e = q;
    } else if sh < 0 {
        m <<= -sh;
        e = q;
    }
    let _ = e;
    let mag = |m: u128| -> f64 {
        let v = ldexp(m as u64, q);
        if v > f.max { f64::INFINITY } else { v }
    };
    let mut lo = mag(m);
    let hi = if sticky { mag(m + 1) } else { lo };
    let mut hi2 = hi;
    if lo.is_infinite() {
        // the exact value exceeds the format's range
        lo = f.max;
        hi2 = f64::INFINITY;
    }
    if neg { (-hi2, -lo) } else { (lo, hi2) }
}

pub fn add(x: f64, y: f64, f: Fmt) -> (f64, f64) {
    let (sx, mx, ex) = split(x);
    let (sy, my, ey) = split(y);
    if mx == 0 {
        return round_both(sy, my as u128, ey, false, f);
    }
    if my == 0 {
        return round_both(sx, mx as u128, ex, false, f);
    }
    // order by magnitude
    let (sa, ma, ea, sb, mb, eb) = if x.abs() >= y.abs() { (sx, mx, ex, sy, my, ey) } else { (sy, my, ey, sx, mx, ex) };
    // put a at the top of 126 bits, b aligned with sticky
    let up = (ma.leading_zeros() as i32) + 60; // ma << up has its msb at bit 123
    let a = (ma as u128) << up;
    let e = ea - up;
    let sh = e - eb; // b * 2^eb = (b >> sh) * 2^e
    let (b, st) = if sh <= 0 {
        ((mb as u128) << -sh, false)
    } else if sh >= 128 {
        (0, true)
    } else {
        ((mb as u128) >> sh, (mb as u128) & ((1u128 << sh) - 1) != 0)
    };
    if sa == sb {
        round_both(sa, a + b, e, st, f)
    } else if st {
        round_both(sa, a - b - 1, e, true, f)
    } else {
        round_both(sa, a - b, e, false, f)
    }
}
pub fn sub(x: f64, y: f64, f: Fmt) -> (f64, f64) {
    add(x, -y, f)
}
pub fn mul(x: f64, y: f64, f: Fmt) -> (f64, f64) {
    let (sx, mx, ex) = split(x);
    let (sy, my, ey) = split(y);
    round_both(sx != sy, mx as u128 * my as u128, ex + ey, false, f)
}
/// y != 0
pub fn div(x: f64, y: f64, f: Fmt) -> (f64, f64) {
    let (sx, mx, ex) = split(x);
    let (sy, my, ey) = split(y);
    if mx == 0 {
        return (0.0, 0.0);
    }
    let up = mx.leading_zeros() as i32 + 62;
    let n = (mx as u128) << up;
    let q = n / my as u128;
    let r = n % my as u128;
    round_both(sx != sy, q, ex - up - ey, r != 0, f)
}
/// x >= 0
pub fn sqrt(x: f64, f: Fmt) -> (f64, f64) {
    let (_, m, e) = split(x);
    if m == 0 {
        return (0.0, 0.0);
    }
    let mut up = m.leading_zeros() as i32 + 60;
    if (e - up) % 2 != 0 {
        up -= 1;
    }
    let n = (m as u128) << up;
    // integer square root
    let mut r = (n as f64).sqrt() as u128;
    while r * r > n {
        r -= 1;
    }
    while (r + 1) * (r + 1) <= n {
        r += 1;
    }
    round_both(false, r, (e - up) / 2, r * r != n, f)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn against_hardware() {
        let vals = [0.0, 5e-324, 1e-310, 2.2250738585072014e-308, 1e-200, 1e-10, 0.1, 1.0 / 3.0, 0.5, 1.0, 1.5, 3.0, 1e10, 1e150, 1e300, f64::MAX];
        let mut v: Vec<f64> = vals.iter().flat_map(|x| [*x, -*x]).collect();
        v.push(1.0 + f64::EPSILON);
        let ok = |h: f64, (lo, hi): (f64, f64)| {
            assert!(lo <= h && h <= hi, "{h:e} {lo:e} {hi:e}");
            assert!(lo == hi || lo.next_up() == hi, "{lo:e} {hi:e}");
        };
        for &x in &v {
            for &y in &v {
                ok(x + y, add(x, y, F64));
                ok(x - y, sub(x, y, F64));
                ok(x * y, mul(x, y, F64));
                if y != 0.0 {
                    ok(x / y, div(x, y, F64));
                }
                // error-free transforms decide exactness of the sum
                let s = x + y;
                if s.is_finite() {
                    let bb = s - x;
                    let err = (x - (s - bb)) + (y - bb);
                    let (lo, hi) = add(x, y, F64);
                    assert_eq!(lo == hi, err == 0.0);
                    if err > 0.0 { assert_eq!(lo, s) }
                    if err < 0.0 { assert_eq!(hi, s) }
                }
            }
            if x >= 0.0 {
                ok(x.sqrt(), sqrt(x, F64));
            }
        }
        let w: Vec<f64> = v.iter().map(|x| *x as f32 as f64).filter(|x| x.is_finite()).collect();
        for &x in &w {
            for &y in &w {
                let ok = |h: f32, (lo, hi): (f64, f64)| {
                    assert!(lo <= h as f64 && h as f64 <= hi, "{h:e} {lo:e} {hi:e}");
                    assert!(lo == hi || (lo as f32).next_up() as f64 == hi, "{lo:e} {hi:e}");
                };
                ok(x as f32 + y as f32, add(x, y, F32));
                ok(x as f32 * y as f32, mul(x, y, F32));
                if y != 0.0 {
                    ok(x as f32 / y as f32, div(x, y, F32));
                }
            }
        }
    }
}
