//! C05 interval comparisons and set operations.
use mc::num::*;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{Scalar, SignedScalar};
use std::cmp::Ordering;

fn mk<T: Fl>(a: f64, b: f64) -> Interval<T> {
    Interval::new(T::f(a), T::f(b))
}
fn is<T: Fl>(op: &str, r: Interval<T>, lo: f64, hi: f64) -> Res {
    if r.inf.d() == lo && r.sup.d() == hi { Ok(()) } else { Err(format!("{}: got {}, expected [{:e}, {:e}]", op, iv(&r), lo, hi)) }
}
fn yes(op: &str, got: bool, want: bool) -> Res {
    if got == want { Ok(()) } else { Err(format!("{}: got {}, expected {}", op, got, want)) }
}
/// `got` may be true only if `allowed`
fn only_if(op: &str, got: bool, allowed: bool) -> Res {
    if !got || allowed { Ok(()) } else { Err(format!("{} reported although it does not hold for all members", op)) }
}

fn vals<T: Fl>(full: bool) -> Vec<T> {
    let f = T::FMT;
    let tiny = mc::exact::ldexp(1, f.emin);
    let mut v = vec![f64::NEG_INFINITY, -f.max, -3.0, -1.0 - T::EPS, -1.0, -0.5, -tiny, -0.0, 0.0, tiny, 0.25, 1.0, 1.0 + T::EPS, 2.0, 1e10, f.max, f64::INFINITY];
    if full {
        v.extend([-1e10, -2.0, -0.25, 0.1, 0.5, 1.5, 3.0, 100.0]);
        v.extend(alpha::coarse());
        v.extend([1.0 - T::EPS / 2.0, 1.0001, 1.001, 1.01, 0.99, -1.0001, -0.999, 7.3, 33.0, -33.0]);
        v = v.into_iter().map(|x| T::f(x).d()).collect();
        v.sort_by(f64::total_cmp);
        v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    }
    v.into_iter().map(T::f).collect()
}

/// everything that is said about two intervals
fn judge<T: Fl>(a: Interval<T>, b: Interval<T>, c: &mut Ctx) -> Res {
    let (al, ah, bl, bh) = (a.inf.d(), a.sup.d(), b.inf.d(), b.sup.d());
    yes("a < b", a < b, ah < bl)?;
    yes("a > b", a > b, al > bh)?;
    let eq = al == ah && bl == bh && al == bl;
    yes("a == b", a == b, eq)?;
    yes("a != b", a != b, !eq)?;
    only_if("a <= b", a <= b, ah <= bl)?;
    only_if("a >= b", a >= b, al >= bh)?;
    yes("a <= b of equal points", !eq || (a <= b && a >= b), true)?;
    match a.partial_cmp(&b) {
        Some(Ordering::Less) => yes("partial_cmp", ah < bl, true)?,
        Some(Ordering::Greater) => yes("partial_cmp", al > bh, true)?,
        Some(Ordering::Equal) => yes("partial_cmp", eq, true)?,
        None => yes("partial_cmp", ah < bl || al > bh || eq, false)?,
    }
    yes("is_same", a.is_same(b), al == bl && ah == bh)?;
    is("union", a.union(b), al.min(bl), ah.max(bh))?;
    if al.max(bl) <= ah.min(bh) {
        is("intersect", a.intersect(b), al.max(bl), ah.min(bh))?;
        c.tally("overlapping");
    } else {
        c.tally("disjoint");
    }
    is("min", Scalar::min(a, b), al.min(bl), ah.min(bh))?;
    is("max", Scalar::max(a, b), al.max(bl), ah.max(bh))?;
    let (p, q) = Scalar::min_max(a, b);
    let enc = |r: &Interval<T>, lo: f64, hi: f64| r.inf.d() <= lo && hi <= r.sup.d();
    if !enc(&p, al.min(bl), ah.min(bh)) || !enc(&q, al.max(bl), ah.max(bh)) {
        return Err(format!("min_max: ({}, {})", iv(&p), iv(&q)));
    }
    only_if("trait in_range", Scalar::in_range(a, b, b), al >= bh && ah <= bl)?;
    c.steps(14);
    c.state(Fp::new(1).f(al).f(ah).f(bl).f(bh));
    Ok(())
}
fn run<T: Fl>(c: &mut Check) {
    let v: Vec<T> = vals(true);
    let ivs: Vec<Interval<T>> = intervals(&v).into_iter().map(|(a, b)| Interval::new(v[a], v[b])).collect();
    let n = ivs.len() as u64;
    c.suite(&format!("unary-{}", T::NAME), "every interval: sign predicates (inherent and trait), exactness, sign, emptiness of width; every scalar: membership, comparisons, range test", n * v.len() as u64 * v.len() as u64, |i, c| {
        let mut d = Dec(i);
        let a = *d.of(&ivs);
        let (k, k2) = (*d.of(&v), *d.of(&v));
        let (l, h, kd) = (a.inf.d(), a.sup.d(), k.d());
        c.note(|| format!("a = {} k = {:e} k2 = {:e}", iv(&a), kd, k2.d()));
        // sign predicates
        yes("is_positive", a.is_positive(), l > 0.0)?;
        yes("is_negative", a.is_negative(), h < 0.0)?;
        yes("is_nonpositive", a.is_nonpositive(), h <= 0.0)?;
        yes("is_nonnegative", a.is_nonnegative(), l >= 0.0)?;
        yes("SignedScalar::is_positive", SignedScalar::is_positive(a), l > 0.0)?;
        yes("SignedScalar::is_negative", SignedScalar::is_negative(a), h < 0.0)?;
        only_if("SignedScalar::is_nonpositive", SignedScalar::is_nonpositive(a), h <= 0.0)?;
        only_if("SignedScalar::is_nonnegative", SignedScalar::is_nonnegative(a), l >= 0.0)?;
        yes("is_exact", a.is_exact(), l == h)?;
        yes("is_zero", Scalar::is_zero(a), l == 0.0 && h == 0.0)?;
        yes("is_one", Scalar::is_one(a), l == 1.0 && h == 1.0)?;
        let s = SignedScalar::signum(a);
        let sg = |x: f64| if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
        if !(s.inf.d() <= sg(l) && sg(h) <= s.sup.d() && s.inf.d() >= -1.0 && s.sup.d() <= 1.0) {
            return Err(format!("signum of {}: {}", iv(&a), iv(&s)));
        }
        // against a scalar
        yes("contains", a.contains(k), l <= kd && kd <= h)?;
        yes("a < k", a < k, h < kd)?;
        yes("a > k", a > k, l > kd)?;
        yes("a == k", a == k, l == kd && h == kd)?;
        only_if("a <= k", a <= k, h <= kd)?;
        only_if("a >= k", a >= k, l >= kd)?;
        yes("in_range", a.in_range(k, k2), l >= kd && h <= k2.d())?;
        c.steps(19);
        c.state(Fp::new(0).f(l).f(h).f(kd).f(k2.d()));
        Ok(())
    });
    c.suite(&format!("pairs-{}", T::NAME), "every ordered pair of intervals: <, <=, >, >=, ==, partial_cmp, is_same, union, intersect (of overlapping ones), min, max, min_max", n * n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&ivs), *d.of(&ivs));
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        judge(a, b, c)
    });
    let nw: Vec<Interval<T>> = narrow(-9, 9, !c.quick());
    let w = nw.len() as u64;
    c.suite(&format!("centred-{}", T::NAME), "the same for every ordered pair of intervals given by centre (the rich alphabet) and width (points, ulps, relative widths up to and beyond zero)", w * w, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&nw), *d.of(&nw));
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        judge(a, b, c)
    });
    let fv: Vec<Interval<T>> = fine(-9, 9, c.by(24, 64));
    c.suite(&format!("fine-{}", T::NAME), "the same for every interval with a bound on a fine ladder of magnitudes (1e-9 to 1e9, both signs) combined in either order with fixed intervals and with those sharing a bound with it, or its opposite, exactly or apart by an ulp to a percent", fv.len() as u64 * PARTNERS as u64, |i, c| {
        let mut d = Dec(i);
        let j = d.take(PARTNERS);
        let a = *d.of(&fv);
        let b = partner(&a, j);
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        judge(a, b, c)?;
        judge(b, a, c)
    });
    // clamp to point limits, and the trait range test with point limits
    let m = v.len() as u64;
    c.suite(&format!("clamp-{}", T::NAME), "every interval with every pair of point limits lo <= hi: clamp encloses every clamped member and stays within the limits", n * m * m, |i, c| {
        let mut d = Dec(i);
        let a = *d.of(&ivs);
        let (lo, hi) = (*d.of(&v), *d.of(&v));
        if lo.d() > hi.d() { return Ok(()); }
        let r = Scalar::clamp(a, Interval::from(lo), Interval::from(hi));
        c.note(|| format!("a = {} lo = {:e} hi = {:e} -> {}", iv(&a), lo.d(), hi.d(), iv(&r)));
        let cl = |x: f64| x.max(lo.d()).min(hi.d());
        if !(r.inf.d() <= cl(a.inf.d()) && cl(a.sup.d()) <= r.sup.d()) {
            return Err(format!("clamp({}, {:e}, {:e}) = {} loses members", iv(&a), lo.d(), hi.d(), iv(&r)));
        }
        if !(r.inf.d() >= lo.d() && r.sup.d() <= hi.d()) {
            return Err(format!("clamp({}, {:e}, {:e}) = {} leaves the limits", iv(&a), lo.d(), hi.d(), iv(&r)));
        }
        only_if("trait in_range", Scalar::in_range(a, Interval::from(lo), Interval::from(hi)), a.inf.d() >= lo.d() && a.sup.d() <= hi.d())?;
        c.steps(2);
        c.state(Fp::new(2).f(a.inf.d()).f(a.sup.d()).f(lo.d()).f(hi.d()));
        Ok(())
    });
    // constructors
    c.suite(&format!("constructors-{}", T::NAME), "new, From scalar, From pair", n, |i, c| {
        let a = ivs[i as usize];
        is("new", mk::<T>(a.inf.d(), a.sup.d()), a.inf.d(), a.sup.d())?;
        is("From<(T,T)>", Interval::from((a.inf, a.sup)), a.inf.d(), a.sup.d())?;
        is("From<T>", Interval::from(a.inf), a.inf.d(), a.inf.d())?;
        c.steps(3);
        c.state(Fp::new(3).u(i));
        Ok(())
    });
}
fn main() {
    let mut c = Check::new("C05");
    run::<f32>(&mut c);
    run::<f64>(&mut c);
    c.finish()
}
