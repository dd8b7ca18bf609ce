//! C08 scalar helpers.
use mc::num::*;
use mc::trig;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};

fn classify<T: Fl>(x: T) -> Res {
    let d = x.d();
    let (n, f, i) = (GFloat::is_nan(x), GFloat::is_finite(x), GFloat::is_infinite(x));
    if (n, f, i) != (d.is_nan(), d.is_finite(), d.is_infinite()) {
        return Err(format!("{:e} ({:#x}) classified nan={} finite={} infinite={}", d, x.bits(), n, f, i));
    }
    Ok(())
}
fn yes(op: &str, got: bool, want: bool) -> Res {
    if got == want { Ok(()) } else { Err(format!("{}: got {}, expected {}", op, got, want)) }
}
fn eq(op: &str, got: f64, want: f64) -> Res {
    if got == want || (got.is_nan() && want.is_nan()) { Ok(()) } else { Err(format!("{}: got {:e}, expected {:e}", op, got, want)) }
}
fn unary<T: Fl>(x: T) -> Res {
    classify(x)?;
    let d = x.d();
    if d.is_nan() {
        return Ok(());
    }
    eq("abs", SignedScalar::abs(x).d(), d.abs())?;
    eq("signum", SignedScalar::signum(x).d(), if d > 0.0 { 1.0 } else if d < 0.0 { -1.0 } else { 0.0 })?;
    yes("is_positive", SignedScalar::is_positive(x), d > 0.0)?;
    yes("is_negative", SignedScalar::is_negative(x), d < 0.0)?;
    yes("is_nonpositive", SignedScalar::is_nonpositive(x), d <= 0.0)?;
    yes("is_nonnegative", SignedScalar::is_nonnegative(x), d >= 0.0)?;
    yes("is_zero", Scalar::is_zero(x), d == 0.0)?;
    yes("is_one", Scalar::is_one(x), d == 1.0)?;
    eq("square", Scalar::square(x).d(), T::f(d * d).d()).or_else(|e| {
        // f64 square of an f32 is exact, so T::f rounds once; allow one ulp for other roundings
        if (Scalar::square(x).ord() - T::f(d * d).ord()).abs() <= 1 { Ok(()) } else { Err(e) }
    })?;
    eq("to_f64", GFloat::to_f64(x), d)?;
    eq("to_f32", GFloat::to_f32(x) as f64, d as f32 as f64)?;
    yes("to_i64", GFloat::to_i64(x) == d as i64, true)?;
    Ok(())
}
fn near<T: Fl>(op: &str, x: f64, got: T, want: W, ulps: i128) -> Res {
    if !want.ok() && want.hi != 0.0 { return Ok(()); }
    let d = (got.ord() - T::f(want.hi).ord()).abs();
    if d > ulps { Err(format!("{} of {:e}: got {:e}, expected {:e} ({} ulps)", op, x, got.d(), want.hi, d)) } else { Ok(()) }
}
fn elementary<T: Fl>(x: T, c: &mut Ctx) -> Res {
    let d = x.d();
    if !d.is_finite() { return Ok(()); }
    let (s, k) = trig::sin_cos(d);
    near("sin", d, GFloat::sin(x), s, 3)?;
    near("cos", d, GFloat::cos(x), k, 3)?;
    let (s2, k2) = GFloat::sin_cos(x);
    near("sin_cos.0", d, s2, s, 3)?;
    near("sin_cos.1", d, k2, k, 3)?;
    if d.abs() > 1e-30 && s.ok() && k.ok() { near("tan", d, GFloat::tan(x), s.div(k), 4)?; }
    near("atan", d, GFloat::atan(x), trig::atan(d), 3)?;
    if d.abs() <= 1.0 {
        near("asin", d, GFloat::asin(x), trig::asin(d), 3)?;
        near("acos", d, GFloat::acos(x), trig::acos(d), 3)?;
    }
    if d >= 0.0 {
        let (lo, hi) = mc::exact::sqrt(d, T::FMT);
        let r = GFloat::sqrt(x).d();
        if !(lo <= r && r <= hi) { return Err(format!("sqrt of {:e}: {:e}", d, r)); }
    }
    if d != 0.0 {
        let (lo, hi) = mc::exact::div(1.0, d, T::FMT);
        let r = GFloat::recip(x).d();
        if !(lo <= r && r <= hi) { return Err(format!("recip of {:e}: {:e}", d, r)); }
    }
    c.steps(10);
    Ok(())
}

fn pair<T: Scalar>(a: T, b: T, lt: bool, gt: bool, c: &mut Ctx) -> Res {
    let (mn, mx) = if lt { (a, b) } else if gt { (b, a) } else { (a, a) };
    let ok = Scalar::min(a, b) == mn && Scalar::max(a, b) == mx && {
        let (p, q) = Scalar::min_max(a, b);
        p == mn && q == mx
    };
    if !ok { return Err(format!("min/max/min_max of {:?} and {:?}: {:?} {:?} {:?}", a, b, Scalar::min(a, b), Scalar::max(a, b), Scalar::min_max(a, b))); }
    c.steps(3);
    Ok(())
}
fn triple<T: Scalar>(x: T, lo: T, hi: T, c: &mut Ctx) -> Res {
    // reference on the native ordering
    yes("in_range", Scalar::in_range(x, lo, hi), lo <= x && x <= hi).map_err(|e| format!("{:?} in [{:?}, {:?}]: {}", x, lo, hi, e))?;
    if lo <= hi {
        let r = Scalar::clamp(x, lo, hi);
        let want = if x < lo { lo } else if x > hi { hi } else { x };
        if r != want { return Err(format!("clamp({:?}, {:?}, {:?}) = {:?}", x, lo, hi, r)); }
    }
    c.steps(2);
    Ok(())
}

fn floats<T: Fl>(c: &mut Check) {
    let f = T::FMT;
    let mut v: Vec<f64> = ladder::<T>(true).iter().flat_map(|x| [*x, -*x]).collect();
    v.extend([f64::INFINITY, f64::NEG_INFINITY, 1.0 + T::EPS, -0.0]);
    let v: Vec<T> = v.into_iter().map(T::f).collect();
    let n = v.len() as u64;
    c.suite(&format!("triples-{}", T::NAME), "all triples over the ladder with infinities and both zeros: min, max, min_max, clamp, in_range", n * n * n, |i, c| {
        let mut d = Dec(i);
        let (x, y, z) = (*d.of(&v), *d.of(&v), *d.of(&v));
        c.note(|| format!("{:e} {:e} {:e}", x.d(), y.d(), z.d()));
        if d.0 == 0 && i < n * n { pair(x, y, x.d() < y.d(), x.d() > y.d(), c)?; }
        triple(x, y, z, c)?;
        c.state(Fp::new(0).f(x.d()).f(y.d()).f(z.d()));
        Ok(())
    });
    c.suite(&format!("constants-{}", T::NAME), "limits and unit constants", 1, |_, c| {
        eq("zero", T::zero().d(), 0.0)?;
        eq("one", T::one().d(), 1.0)?;
        eq("two", T::two().d(), 2.0)?;
        eq("half", T::half().d(), 0.5)?;
        eq("lowest", T::lowest().d(), -f.max)?;
        eq("highest", T::highest().d(), f.max)?;
        eq("infinity", T::infinity().d(), f64::INFINITY)?;
        eq("neg_infinity", T::neg_infinity().d(), f64::NEG_INFINITY)?;
        eq("neg_zero", T::neg_zero().d(), 0.0)?;
        yes("neg_zero is negative", T::neg_zero().d().is_sign_negative(), true)?;
        eq("min_positive_value", T::min_positive_value().d(), mc::exact::ldexp(1, f.emin + f.p - 1))?;
        yes("nan", T::nan().d().is_nan(), true)?;
        eq("pi", T::pi().d(), T::f(std::f64::consts::PI).d())?;
        eq("tau", T::tau().d(), T::f(std::f64::consts::TAU).d())?;
        eq("pi/2", T::frac_pi_2().d(), T::f(std::f64::consts::FRAC_PI_2).d())?;
        eq("pi/4", T::frac_pi_4().d(), T::f(std::f64::consts::FRAC_PI_4).d())?;
        c.steps(16);
        c.state(Fp::new(9));
        Ok(())
    });
    // classification of intervals
    let sp: Vec<T> = [f64::NEG_INFINITY, -f.max, -1.0, -0.0, 0.0, 1.0, f.max, f64::INFINITY].iter().map(|x| T::f(*x)).collect();
    let ivs = intervals(&sp);
    c.suite(&format!("interval-classes-{}", T::NAME), "all intervals over infinities, limits, zeros and NaN bounds: nan / finite / infinite", ivs.len() as u64 + 4, |i, c| {
        let a = match i as usize {
            k if k < ivs.len() => Interval { inf: sp[ivs[k].0], sup: sp[ivs[k].1] },
            k if k == ivs.len() => Interval { inf: T::nan(), sup: T::nan() },
            k if k == ivs.len() + 1 => Interval { inf: T::nan(), sup: T::one() },
            k if k == ivs.len() + 2 => Interval { inf: T::zero(), sup: T::nan() },
            _ => Interval { inf: T::neg_infinity(), sup: T::nan() },
        };
        let (l, h) = (a.inf.d(), a.sup.d());
        c.note(|| format!("[{:e}, {:e}]", l, h));
        yes("is_nan", GFloat::is_nan(a), l.is_nan() || h.is_nan())?;
        yes("is_finite", GFloat::is_finite(a), l.is_finite() && h.is_finite())?;
        yes("is_infinite", GFloat::is_infinite(a), l.is_infinite() && l == h)?;
        c.steps(3);
        c.state(Fp::new(1).f(l).f(h));
        Ok(())
    });
    c.suite(&format!("interval-constants-{}", T::NAME), "limits and special values of intervals", 1, |_, c| {
        let is = |n: &str, x: Interval<T>, v: f64| if x.inf.d() == v && x.sup.d() == v { Ok(()) } else { Err(format!("{}: {}", n, iv(&x))) };
        is("lowest", Interval::<T>::lowest(), -f.max)?;
        is("highest", Interval::<T>::highest(), f.max)?;
        is("infinity", Interval::<T>::infinity(), f64::INFINITY)?;
        is("neg_infinity", Interval::<T>::neg_infinity(), f64::NEG_INFINITY)?;
        is("neg_zero", Interval::<T>::neg_zero(), 0.0)?;
        is("min_positive_value", Interval::<T>::min_positive_value(), mc::exact::ldexp(1, f.emin + f.p - 1))?;
        c.steps(6);
        c.state(Fp::new(10));
        Ok(())
    });
}

macro_rules! int_suites {
    ($c:expr, $t:ident, $signed:expr, $vals:expr) => {{
        let v: Vec<$t> = $vals;
        let n = v.len() as u64;
        $c.suite(concat!("int-", stringify!($t)), &format!("all triples over {} values of {}: min, max, min_max, clamp, in_range; limits, square, predicates", n, stringify!($t)), n * n, |i, c| {
            let mut d = Dec(i);
            let (x, y) = (*d.of(&v), *d.of(&v));
            pair(x, y, x < y, x > y, c)?;
            for &z in &v {
                triple(x, y, z, c)?;
            }
            yes("is_zero", Scalar::is_zero(x), x == 0)?;
            yes("is_one", Scalar::is_one(x), x == 1)?;
            if let Some(s) = x.checked_mul(x) {
                yes("square", Scalar::square(x) == s, true)?;
            }
            yes("lowest", <$t as Scalar>::lowest() == $t::MIN, true)?;
            yes("highest", <$t as Scalar>::highest() == $t::MAX, true)?;
            yes("zero one two", <$t as Scalar>::zero() == 0 && <$t as Scalar>::one() == 1 && <$t as Scalar>::two() == 2, true)?;
            c.steps(6);
            c.distinct(n);
            c.note(|| format!("{} {} *", x, y));
            Ok(())
        });
    }};
}
macro_rules! sint_suites {
    ($c:expr, $t:ident, $vals:expr) => {{
        let v: Vec<$t> = $vals;
        $c.suite(concat!("sint-", stringify!($t)), "sign predicates, signum, abs", v.len() as u64, |i, c| {
            let x = v[i as usize];
            c.note(|| format!("{}", x));
            yes("is_positive", SignedScalar::is_positive(x), x > 0)?;
            yes("is_negative", SignedScalar::is_negative(x), x < 0)?;
            yes("is_nonpositive", SignedScalar::is_nonpositive(x), x <= 0)?;
            yes("is_nonnegative", SignedScalar::is_nonnegative(x), x >= 0)?;
            yes("signum", SignedScalar::signum(x) == x.signum(), true)?;
            if x != $t::MIN {
                yes("abs", SignedScalar::abs(x) == x.abs(), true)?;
            }
            c.steps(6);
            c.distinct(1);
            Ok(())
        });
    }};
}
macro_rules! lat {
    ($t:ident) => {{
        let mut v: Vec<$t> = vec![$t::MIN, $t::MIN + 1, $t::MIN / 2, $t::MAX, $t::MAX - 1, $t::MAX / 2, $t::MAX / 2 + 1];
        for k in 0..($t::BITS - 1) {
            let p = (1 as $t) << k;
            v.push(p);
            v.push(p - 1);
            v.push((0 as $t).wrapping_sub(p));
        }
        v.extend([0, 1, 2, 3, 100]);
        v.sort();
        v.dedup();
        v
    }};
}

fn main() {
    let mut c = Check::new("C08");
    c.assume("i*::MIN has no absolute value and overflowing squares are outside the property; min/max of equal values may return either.");
    c.suite("all-f32", "unary facts on all 2^32 bit patterns of f32 (classification, abs, sign, predicates, square, casts)", 1 << 16, |i, c| {
        for l in 0..1u32 << 16 {
            unary(f32::from_bits(((i as u32) << 16) | l))?;
        }
        c.steps(15 << 16);
        c.distinct(1 << 16);
        c.note(|| format!("bit patterns {:#x}0000..", i));
        Ok(())
    });
    let ms: Vec<u64> = { let mut v = vec![0u64, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2, 0x5555555555555, 1 << 51, (1 << 51) + 1, (1 << 29) - 1, 1 << 28, 1 << 29, 3 << 28];
        let n = c.by(40u64, 4000);
        for k in 0..n { v.push(k * 0x8_0123_4567 % (1 << 52)); } v };
    c.suite("f64", &format!("unary facts on all sign/exponent patterns of f64 with {} mantissas", ms.len()), 4096, |i, c| {
        for m in &ms {
            unary(f64::from_bits((i << 52) | m))?;
        }
        c.steps(15 * ms.len() as u64);
        c.distinct(ms.len() as u64);
        c.note(|| format!("sign/exponent {:#x}", i));
        Ok(())
    });
    fn elem<T: Fl>(c: &mut Check) {
        let den = c.by(512, 8192);
        let mut v: Vec<T> = ladder::<T>(true).iter().flat_map(|x| [T::f(*x), T::f(-*x)]).collect();
        for k in -4 * den..=4 * den {
            v.push(T::f(k as f64 / den as f64));
        }
        c.suite(&format!("elementary-{}", T::NAME), "sqrt, recip, sin, cos, sin_cos, tan, asin, acos, atan on the ladder and a lattice of [-4,4] against double-double / exact references", v.len() as u64, |i, c| {
            let x = v[i as usize];
            c.note(|| format!("x = {:e}", x.d()));
            elementary(x, c)?;
            c.state(Fp::new(5).f(x.d()));
            Ok(())
        });
        let w: Vec<T> = v.iter().step_by(if c.quick() { 37 } else { 61 }).copied().filter(|x| x.d() != 0.0).collect();
        let n = w.len() as u64;
        c.suite(&format!("atan2-{}", T::NAME), "atan2 on pairs", n * n, |i, c| {
            let mut d = Dec(i);
            let (y, x) = (*d.of(&w), *d.of(&w));
            c.note(|| format!("y = {:e} x = {:e}", y.d(), x.d()));
            near("atan2", y.d(), GFloat::atan2(y, x), trig::atan2(y.d(), x.d()), 3)?;
            c.step();
            c.state(Fp::new(6).f(x.d()).f(y.d()));
            Ok(())
        });
    }
    elem::<f32>(&mut c);
    elem::<f64>(&mut c);
    floats::<f32>(&mut c);
    floats::<f64>(&mut c);
    // casts from
    c.suite("from-int-bits", "from_i64 on every sum and difference of three powers of two (ties and near-ties of every rounding position, also of two roundings in a row)", 63 * 63 * 63 * 8, |i, c| {
        let mut d = Dec(i);
        let (a, b, e, s) = (d.take(63), d.take(63), d.take(63), d.take(8));
        let t = |k: usize, neg: bool| if neg { -(1i128 << k) } else { 1i128 << k };
        let x = t(a, s & 1 == 1) + t(b, s & 2 == 2) + t(e, s & 4 == 4);
        let Ok(x) = i64::try_from(x) else { return Ok(()) };
        c.note(|| format!("{}", x));
        c.steps(2);
        c.state(Fp::new(x as u64));
        yes("f32::from_i64", <f32 as GFloat>::from_i64(x) == x as f32, true)?;
        yes("f64::from_i64", <f64 as GFloat>::from_i64(x) == x as f64, true)
    });
    let is: Vec<i64> = lat!(i64).into_iter().flat_map(|x: i64| [x, x.wrapping_add(1), x.wrapping_mul(3)]).collect();
    c.suite("from-int", "from_i64 on a boundary lattice", is.len() as u64, |i, c| {
        let x = is[i as usize];
        c.note(|| format!("{}", x));
        yes("f32::from_i64", <f32 as GFloat>::from_i64(x) == x as f32, true)?;
        yes("f64::from_i64", <f64 as GFloat>::from_i64(x) == x as f64, true)?;
        c.steps(2);
        c.state(Fp::new(7).u(x as u64));
        Ok(())
    });
    let fs: Vec<f64> = { let mut v = vec![]; for e in 0..2048u64 { for m in [0u64, 1, 1 << 28, (1 << 28) + 1, (1 << 29) - 1, 1 << 29, (1 << 52) - 1] { v.push(f64::from_bits((e << 52) | m)); v.push(f64::from_bits((1 << 63) | (e << 52) | m)); } } v };
    c.suite("from-float", "from_f64 and from_f32 on every exponent incl. ties between f32 neighbours", fs.len() as u64, |i, c| {
        let x = fs[i as usize];
        c.note(|| format!("{:e}", x));
        eq("f32::from_f64", <f32 as GFloat>::from_f64(x) as f64, x as f32 as f64)?;
        eq("f64::from_f64", <f64 as GFloat>::from_f64(x), x)?;
        eq("f32::from_f32", <f32 as GFloat>::from_f32(x as f32) as f64, x as f32 as f64)?;
        eq("f64::from_f32", <f64 as GFloat>::from_f32(x as f32), x as f32 as f64)?;
        c.steps(4);
        c.state(Fp::new(8).f(x));
        Ok(())
    });
    int_suites!(c, u8, false, (0..=255u8).collect());
    int_suites!(c, i8, true, (-128..=127i8).collect());
    int_suites!(c, u16, false, lat!(u16));
    int_suites!(c, i16, true, lat!(i16));
    int_suites!(c, u32, false, lat!(u32));
    int_suites!(c, i32, true, lat!(i32));
    int_suites!(c, u64, false, lat!(u64));
    int_suites!(c, i64, true, lat!(i64));
    sint_suites!(c, i8, (-128..=127i8).collect());
    sint_suites!(c, i16, (i16::MIN..=i16::MAX).collect());
    sint_suites!(c, i32, lat!(i32));
    sint_suites!(c, i64, lat!(i64));
    c.finish()
}
