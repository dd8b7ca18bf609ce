//! C02 interval arithmetic is tight.
use mc::exact;
use mc::num::*;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};

const SLACK: i128 = 4;
type Tab = Vec<(f64, f64)>;
fn table<T: Fl>(v: &[T], f: impl Fn(f64, f64) -> (f64, f64)) -> Tab {
    let mut t = Vec::with_capacity(v.len() * v.len());
    for a in v {
        for b in v {
            t.push(f(a.d(), b.d()));
        }
    }
    t
}
/// (lo, hi): exact range rounded outward to the format
fn tight<T: Fl>(op: &str, r: &Interval<T>, lo: f64, hi: f64) -> Res {
    let dl = T::f(lo).ord() - r.inf.ord();
    let dh = r.sup.ord() - T::f(hi).ord();
    if r.inf.d().is_nan() || r.sup.d().is_nan() || dl > SLACK || dh > SLACK {
        return Err(format!("{}: {} is wider than the exact range [{:e}, {:e}] by {} below and {} above (in representable numbers)",
            op, iv(r), lo, hi, dl, dh));
    }
    Ok(())
}

fn pairs<T: Fl>(c: &mut Check) {
    let mut v: Vec<T> = signed(&ladder::<T>(true));
    if !c.quick() {
        // neighbours of every rung as well
        for x in v.clone() {
            let y = x.up();
            if GFloat::is_finite(y) && y.d() != 0.0 {
                v.push(y);
            }
        }
        v.sort_by(|a, b| a.d().total_cmp(&b.d()));
        v.dedup_by(|a, b| a.bits() == b.bits());
    }
    let n = v.len();
    let ivs = intervals(&v);
    let ta = table(&v, |a, b| exact::add(a, b, T::FMT));
    let ts = table(&v, |a, b| exact::sub(a, b, T::FMT));
    let tm = table(&v, |a, b| exact::mul(a, b, T::FMT));
    let td = table(&v, |a, b| if b == 0.0 { (f64::NAN, f64::NAN) } else { exact::div(a, b, T::FMT) });
    let hull = |t: &Tab, (a, b): (usize, usize), (c, d): (usize, usize)| -> (f64, f64) {
        let k = [t[a * n + c], t[a * n + d], t[b * n + c], t[b * n + d]];
        (k[0].0.min(k[1].0).min(k[2].0).min(k[3].0), k[0].1.max(k[1].1).max(k[2].1).max(k[3].1))
    };
    let m = ivs.len() as u64;
    c.suite(&format!("pairs-{}", T::NAME), "every ordered pair of intervals over the magnitude ladder; +, -, *, / (divisor without zero)", m * m, |i, c| {
        let mut d = Dec(i);
        let (ia, ib) = (*d.of(&ivs), *d.of(&ivs));
        let (a, b) = (Interval::new(v[ia.0], v[ia.1]), Interval::new(v[ib.0], v[ib.1]));
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        let (lo, hi) = hull(&ta, ia, ib);
        let r = a + b;
        tight("a + b", &r, lo, hi)?;
        let (lo, hi) = hull(&ts, ia, ib);
        tight("a - b", &(a - b), lo, hi)?;
        let (lo, hi) = hull(&tm, ia, ib);
        let p = a * b;
        tight("a * b", &p, lo, hi)?;
        c.steps(3);
        if !(b.inf.d() <= 0.0 && b.sup.d() >= 0.0) {
            let (lo, hi) = hull(&td, ia, ib);
            tight("a / b", &(a / b), lo, hi)?;
            c.step();
            c.tally("division");
        }
        c.state(Fp::new(0).f(r.inf.d()).f(r.sup.d()).f(p.inf.d()).f(p.sup.d()));
        Ok(())
    });
    c.suite(&format!("mixed-{}", T::NAME), "every interval with every scalar: +, -, *, /", m * n as u64, |i, c| {
        let mut d = Dec(i);
        let ia = *d.of(&ivs);
        let ik = d.take(n);
        let (a, k) = (Interval::new(v[ia.0], v[ia.1]), v[ik]);
        c.note(|| format!("a = {} k = {:e}", iv(&a), k.d()));
        let (lo, hi) = hull(&ta, ia, (ik, ik));
        tight("a + k", &(a + k), lo, hi)?;
        let (lo, hi) = hull(&ts, ia, (ik, ik));
        tight("a - k", &(a - k), lo, hi)?;
        let (lo, hi) = hull(&tm, ia, (ik, ik));
        let p = a * k;
        tight("a * k", &p, lo, hi)?;
        if k.d() != 0.0 {
            let (lo, hi) = hull(&td, ia, (ik, ik));
            tight("a / k", &(a / k), lo, hi)?;
        }
        c.steps(4);
        c.state(Fp::new(1).f(p.inf.d()).f(p.sup.d()).f(k.d()));
        Ok(())
    });
    let mut w: Vec<T> = signed(&ladder::<T>(true));
    w.extend(alpha::rich(-12, 12, true).iter().map(|x| T::f(*x)));
    for x in w.clone() {
        for y in [x.up(), x.down(), x.up().up()] {
            if GFloat::is_finite(y) {
                w.push(y);
            }
        }
    }
    w.extend(alpha::fine(-16, 16, 32).iter().map(|x| T::f(*x)));
    w.sort_by(|a, b| a.d().total_cmp(&b.d()));
    w.dedup_by(|a, b| a.bits() == b.bits());
    let ivs = intervals(&w);
    c.suite(&format!("unary-{}", T::NAME), "every interval over the ladder, its neighbouring floats and a fine ladder: neg, square, sqrt, abs, recip", ivs.len() as u64, |i, c| {
        let (p, q) = ivs[i as usize];
        let a = Interval::new(w[p], w[q]);
        c.note(|| format!("a = {}", iv(&a)));
        let (l, h) = (a.inf.d(), a.sup.d());
        let ng = -a;
        if ng.inf.d() != -h || ng.sup.d() != -l {
            return Err(format!("negation of {} is not exact: {}", iv(&a), iv(&ng)));
        }
        let (sl, sh) = (exact::mul(l, l, T::FMT), exact::mul(h, h, T::FMT));
        let zero_in = l <= 0.0 && h >= 0.0;
        let lo = if zero_in { 0.0 } else { sl.0.min(sh.0) };
        tight("square", &a.square(), lo, sl.1.max(sh.1))?;
        tight("Scalar::square", &Scalar::square(a), lo, sl.1.max(sh.1))?;
        if h >= 0.0 {
            tight("sqrt", &a.sqrt(), exact::sqrt(l.max(0.0), T::FMT).0, exact::sqrt(h, T::FMT).1)?;
        }
        if !zero_in {
            let (x, y) = (exact::div(1.0, l, T::FMT), exact::div(1.0, h, T::FMT));
            tight("recip", &GFloat::recip(a), x.0.min(y.0), x.1.max(y.1))?;
        }
        let ab = SignedScalar::abs(a);
        if !(ab.inf.d() >= 0.0 && ab.sup.d() <= l.abs().max(h.abs())) {
            return Err(format!("abs of {}: {}", iv(&a), iv(&ab)));
        }
        c.steps(5);
        c.state(Fp::new(2).f(l).f(h));
        Ok(())
    });
}

fn binary<T: Fl>(a: Interval<T>, b: Interval<T>, c: &mut Ctx) -> Res {
    let e = [corners(exact::add, &a, &b), corners(exact::sub, &a, &b), corners(exact::mul, &a, &b)];
    let (mut w, mut x, mut y, mut z) = (a, a, a, a);
    w += b;
    x -= b;
    y *= b;
    tight("a + b", &(a + b), e[0].0, e[0].1)?;
    tight("a += b", &w, e[0].0, e[0].1)?;
    tight("a - b", &(a - b), e[1].0, e[1].1)?;
    tight("a -= b", &x, e[1].0, e[1].1)?;
    tight("a * b", &(a * b), e[2].0, e[2].1)?;
    tight("a *= b", &y, e[2].0, e[2].1)?;
    c.steps(6);
    let point = b.inf.bits() == b.sup.bits();
    let k = b.inf;
    if point {
        let mut y = a;
        y *= k;
        tight("a + k", &(a + k), e[0].0, e[0].1)?;
        tight("a - k", &(a - k), e[1].0, e[1].1)?;
        tight("a * k", &(a * k), e[2].0, e[2].1)?;
        tight("a *= k", &y, e[2].0, e[2].1)?;
        c.steps(4);
    }
    if !(b.inf.d() <= 0.0 && b.sup.d() >= 0.0) {
        let e = corners(exact::div, &a, &b);
        z /= b;
        tight("a / b", &(a / b), e.0, e.1)?;
        tight("a /= b", &z, e.0, e.1)?;
        c.steps(2);
        if point {
            let mut y = a;
            y /= k;
            tight("a / k", &(a / k), e.0, e.1)?;
            tight("a /= k", &y, e.0, e.1)?;
            c.steps(2);
        }
    }
    c.state(Fp::new(4).f(w.inf.d()).f(y.inf.d()).f(y.sup.d()).f(z.sup.d()));
    Ok(())
}
fn centred<T: Fl>(c: &mut Check) {
    let dense = !c.quick();
    let v: Vec<Interval<T>> = narrow(-9, 9, dense);
    let m = v.len() as u64;
    c.suite(&format!("centred-{}", T::NAME), "every ordered pair of intervals given by centre (the rich alphabet) and width (points, ulps, relative widths up to and beyond zero): +, -, *, / (divisor without zero) plain and assigning, and against scalars when the second is a point", m * m, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&v), *d.of(&v));
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        binary(a, b, c)
    });
    let v: Vec<Interval<T>> = fine(-9, 9, c.by(24, 64));
    let m = v.len() as u64;
    c.suite(&format!("fine-{}", T::NAME), "the same for every interval with a bound on a fine ladder of magnitudes (1e-9 to 1e9, both signs) combined in either order with fixed intervals and with those sharing a bound with it, or its opposite, exactly or apart by an ulp to a percent", m * PARTNERS as u64, |i, c| {
        let mut d = Dec(i);
        let j = d.take(PARTNERS);
        let a = *d.of(&v);
        let b = partner(&a, j);
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        binary(a, b, c)?;
        binary(b, a, c)
    });
}

fn main() {
    let mut c = Check::new("C02");
    c.assume("Operands have finite bounds; the exact range of an operation over two intervals is the hull of its corner values (with zero for squares of sign-straddling intervals).");
    pairs::<f32>(&mut c);
    pairs::<f64>(&mut c);
    centred::<f32>(&mut c);
    centred::<f64>(&mut c);
    c.finish()
}
