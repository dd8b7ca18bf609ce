//! C06 interval constants and conversions.
use mc::num::*;
use mc::trig;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar};
use scarlet::math::vector::Vector3;

fn constant<T: Fl>(name: &str, lo: T, hi: T, i: Interval<T>, k: f64) -> Res {
    let w = trig::scale2(trig::pi(), k);
    for (n, l, h) in [("lower/upper constants", lo, hi), ("interval constant", i.inf, i.sup)] {
        if !(w.certainly_gt(l.d()) && w.certainly_lt(h.d())) {
            return Err(format!("{} of {} do not bracket it: {:e} {:e}", n, name, l.d(), h.d()));
        }
        if h.ord() - l.ord() > 2 {
            return Err(format!("{} of {} are {} ulps apart", n, name, h.ord() - l.ord()));
        }
    }
    Ok(())
}
fn constants<T: Fl>(c: &mut Check) {
    c.suite(&format!("constants-{}", T::NAME), "pi, 2pi, pi/2, pi/4: lower/upper constants and interval constants against double-double pi; half, zero, one, two, limits", 5, |i, c| {
        c.step();
        c.state(Fp::new(0).u(i));
        c.note(|| format!("constant {}", i));
        match i {
            0 => constant("pi", T::pi_lower(), T::pi_upper(), Interval::<T>::pi(), 1.0),
            1 => constant("tau", T::tau_lower(), T::tau_upper(), Interval::<T>::tau(), 2.0),
            2 => constant("pi/2", T::frac_pi_2_lower(), T::frac_pi_2_upper(), Interval::<T>::frac_pi_2(), 0.5),
            3 => constant("pi/4", T::frac_pi_4_lower(), T::frac_pi_4_upper(), Interval::<T>::frac_pi_4(), 0.25),
            _ => {
                let ok = |x: Interval<T>, v: f64, w: i128| x.inf.d() <= v && v <= x.sup.d() && x.sup.ord() - x.inf.ord() <= w;
                if !(ok(Interval::zero(), 0.0, 0) && ok(Interval::one(), 1.0, 0) && ok(Interval::half(), 0.5, 2) && ok(Interval::two(), 2.0, 8)) {
                    return Err("unit constants".into());
                }
                // pi() etc. of the scalar type are the nearest floats
                for (v, k) in [(T::pi(), 1.0), (T::tau(), 2.0), (T::frac_pi_2(), 0.5), (T::frac_pi_4(), 0.25)] {
                    if (v.ord() - T::f(std::f64::consts::PI * k).ord()).abs() > 1 {
                        return Err(format!("scalar constant {:e}", v.d()));
                    }
                }
                Ok(())
            }
        }
    });
}

fn f64s(full: bool) -> Vec<f64> {
    let mut v: Vec<f64> = vec![];
    for k in -1074..1024i32 {
        let p = if k < -1022 { f64::from_bits(1u64 << (k + 1074)) } else { f64::from_bits(((k + 1023) as u64) << 52) };
        for m in [1.0, 1.0 + f64::EPSILON, 1.5, 1.9999999999999998, 1.1, 4.0 / 3.0, 1.0000000596046448, 1.00000011920928955, 1.000000059604644] {
            v.push(p * m);
        }
        if full {
            for j in 0..64 {
                v.push(p * (1.0 + j as f64 / 64.0 + 1e-9 * j as f64));
            }
        }
    }
    v.push(0.0);
    v.extend([f32::MAX as f64, (f32::MAX as f64).next_up(), f32::MAX as f64 * (1.0 + f32::EPSILON as f64 / 4.0), f64::MAX]);
    v.into_iter().filter(|x| x.is_finite()).flat_map(|x| [x, -x]).collect()
}
fn i64s(full: bool) -> Vec<i64> {
    let mut v = vec![];
    let spread = if full { 40 } else { 6 };
    for k in 0..64u32 {
        for d in -spread..=spread {
            for m in [1i64 << k, (1 << k) | (1 << (k / 2)), (1 << k) | (1 << (k * 3 / 4)), (1i64 << k).wrapping_mul(3) / 2] {
                v.push(m.wrapping_add(d));
            }
        }
    }
    for k in [10i64, 1000, 1_000_000_007, 999_999_999_999, 123_456_789_012_345_678] {
        v.push(k);
    }
    for x in 0..if full { 100_000 } else { 5000 } {
        v.push(x);
        v.push((1 << 24) + x - 2500);
        v.push((1 << 53) + x - 2500);
    }
    v.extend([i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1]);
    // sums and differences of three powers of two
    for a in 0..64u32 {
        for b in 0..a {
            for e in 0..b {
                for s in 0..4 {
                    let (x, y, z) = (1i64 << a, 1i64 << b, 1i64 << e);
                    v.push(x.wrapping_add(if s & 1 == 0 { y } else { -y }).wrapping_add(if s & 2 == 0 { z } else { -z }));
                }
            }
        }
    }
    v.into_iter().flat_map(|x| [x, x.wrapping_neg()]).collect()
}
fn encl<T: Fl>(what: &str, r: Interval<T>, lo_ok: bool, hi_ok: bool, exact: bool) -> Res {
    if !(r.inf.d() <= r.sup.d() && lo_ok && hi_ok) {
        return Err(format!("{}: {} does not contain the value", what, iv(&r)));
    }
    if exact && r.inf.ord() != r.sup.ord() {
        return Err(format!("{}: {} is not exact although the value is representable", what, iv(&r)));
    }
    if r.sup.ord() - r.inf.ord() > 4 {
        return Err(format!("{}: {} is too wide", what, iv(&r)));
    }
    Ok(())
}

fn conversions<T: Fl>(c: &mut Check) {
    let fs = f64s(true);
    c.suite(&format!("from-floats-{}", T::NAME), "every exponent of f64 (subnormals included) with several mantissas, exact and inexact in f32, both signs: from_f64, from_f32, From", fs.len() as u64, |i, c| {
        let x = fs[i as usize];
        c.note(|| format!("x = {:e}", x));
        let r = <Interval<T> as GFloat>::from_f64(x);
        encl("from_f64", r, r.inf.d() <= x, x <= r.sup.d(), T::f(x).d() == x)?;
        let y = x as f32;
        if y.is_finite() {
            let r = <Interval<T> as GFloat>::from_f32(y);
            encl("from_f32", r, r.inf.d() <= y as f64, y as f64 <= r.sup.d(), true)?;
        }
        let z = T::f(x);
        if GFloat::is_finite(z) {
            let r = Interval::from(z);
            encl("From", r, r.inf.d() == z.d(), r.sup.d() == z.d(), true)?;
            let v = Vector3::<Interval<T>>::from(Vector3::new(z, -z, T::f(1.5)));
            if v.x().inf.d() != z.d() || v.x().sup.d() != z.d() || v.y().inf.d() != -z.d() || v.z().sup.d() != 1.5 {
                return Err("vector conversion".into());
            }
        }
        c.steps(4);
        c.state(Fp::new(1).f(x));
        Ok(())
    });
    let is = i64s(true);
    c.suite(&format!("from-i64-{}", T::NAME), "64-bit integers: the extremes, powers of two with neighbours and sparse patterns, every sum and difference of three powers of two, dense ranges around 0, 2^24 and 2^53", is.len() as u64, |i, c| {
        let x = is[i as usize];
        c.note(|| format!("x = {}", x));
        let r = <Interval<T> as GFloat>::from_i64(x);
        // bounds of this size are exact integers, or fractional below 2^53: compare via floor/ceil in i128
        let le = |a: f64, x: i64| (a.ceil() as i128) <= x as i128;
        let ge = |b: f64, x: i64| (b.floor() as i128) >= x as i128;
        let exact = (T::f(x as f64).d() as i128) == x as i128 && (x as f64) as i128 == x as i128;
        encl("from_i64", r, le(r.inf.d(), x), ge(r.sup.d(), x), exact)?;
        c.step();
        c.state(Fp::new(2).u(x as u64));
        Ok(())
    });
    // collapsing
    let mut v: Vec<T> = signed(&ladder::<T>(true));
    v.extend(alpha::rich(-12, 12, true).iter().map(|x| T::f(*x)));
    for x in v.clone() {
        for y in [x.up(), x.down()] {
            if GFloat::is_finite(y) { v.push(y); }
        }
    }
    v.extend(alpha::fine(-16, 16, 32).iter().map(|x| T::f(*x)));
    v.sort_by(|a, b| a.d().total_cmp(&b.d()));
    v.dedup_by(|a, b| a.bits() == b.bits());
    let ivs = intervals(&v);
    c.suite(&format!("collapse-{}", T::NAME), "every interval over the ladder, its neighbours and a fine ladder: approx, From<Interval>, to_f32, to_f64, to_i64, next_up/next_down ordering", ivs.len() as u64, |i, c| {
        let (p, q) = ivs[i as usize];
        let a = Interval::new(v[p], v[q]);
        c.note(|| format!("a = {}", iv(&a)));
        let (l, h) = (a.inf.d(), a.sup.d());
        if !GFloat::is_finite(T::f(l) + T::f(h)) {
            c.tally("sum overflows");
        }
        let m = a.approx().d();
        if !(l <= m && m <= h) {
            return Err(format!("approx of {} is {:e}", iv(&a), m));
        }
        let m = GFloat::to_f64(a);
        if !(l <= m && m <= h) {
            return Err(format!("to_f64 of {} is {:e}", iv(&a), m));
        }
        let f = GFloat::to_f32(a);
        if !((l as f32) <= f && f <= (h as f32)) {
            return Err(format!("to_f32 of {} is {:e}", iv(&a), f));
        }
        let k = GFloat::to_i64(a);
        if !((l as i64) <= k && k <= (h as i64)) {
            return Err(format!("to_i64 of {} is {}", iv(&a), k));
        }
        c.steps(4);
        c.state(Fp::new(3).f(l).f(h));
        Ok(())
    });
}
fn into(c: &mut Check, a: &[f32], b: &[f64]) {
    c.suite("from-interval", "every interval over the magnitude ladder and a grid of sevenths: From<Interval<f32>> for f32 and From<Interval<f64>> for f64", (a.len() + 41).pow(2) as u64, |i, c| {
        let mut d = Dec(i);
        let n = a.len();
        let (p, q) = (d.take(n + 41), d.take(n + 41));
        let seventh = |k: usize| (k - n) as f64 / 7.0 - 3.0;
        let at = |k: usize| if k < n { b[k] } else { seventh(k) };
        let at32 = |k: usize| if k < n { a[k] } else { seventh(k) as f32 };
        if at(p) <= at(q) {
            let x: f64 = Interval::new(at(p), at(q)).into();
            if !(at(p) <= x && x <= at(q)) {
                return Err(format!("f64 [{:e}, {:e}] collapses to {:e}", at(p), at(q), x));
            }
        }
        if at32(p) <= at32(q) {
            let y: f32 = Interval::new(at32(p), at32(q)).into();
            if !(at32(p) <= y && y <= at32(q)) {
                return Err(format!("f32 [{:e}, {:e}] collapses to {:e}", at32(p), at32(q), y));
            }
        }
        c.steps(2);
        c.state(Fp::new(4).u(i));
        Ok(())
    });
}
fn main() {
    let mut c = Check::new("C06");
    constants::<f32>(&mut c);
    constants::<f64>(&mut c);
    conversions::<f32>(&mut c);
    conversions::<f64>(&mut c);
    into(&mut c, &signed(&ladder::<f32>(true)), &signed(&ladder::<f64>(true)));
    c.finish()
}
