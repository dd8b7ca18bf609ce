//! C01 interval arithmetic encloses the exact real result.
use mc::exact;
use mc::num::*;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{GFloat, Scalar, SignedScalar};

type Tab = Vec<(f64, f64)>;
fn table<T: Fl>(v: &[T], f: impl Fn(f64, f64) -> (f64, f64)) -> Tab {
    let mut t = Vec::with_capacity(v.len() * v.len());
    for a in v {
        for b in v {
            t.push(f(a.d(), b.d()));
        }
    }
    t
}
fn valid<T: Fl>(op: &str, a: &Interval<T>, r: &Interval<T>, lo: f64, hi: f64) -> Res {
    let (l, h) = (r.inf.d(), r.sup.d());
    if !(l <= h) {
        return Err(format!("{} of {}: not a valid interval: {}", op, iv(a), iv(r)));
    }
    if !(l <= lo && hi <= h) {
        return Err(format!("{} of {}: result {} does not enclose the exact range [{:e}, {:e}]", op, iv(a), iv(r), lo, hi));
    }
    Ok(())
}
fn pairs<T: Fl>(c: &mut Check) {
    let mut v: Vec<T> = signed(&ladder::<T>(true));
    if !c.quick() {
        // neighbours of every rung as well
        for x in v.clone() {
            let y = x.up();
            if GFloat::is_finite(y) && y.d() != 0.0 {
                v.push(y);
            }
        }
        v.sort_by(|a, b| a.d().total_cmp(&b.d()));
        v.dedup_by(|a, b| a.bits() == b.bits());
    }
    let n = v.len();
    let ivs = intervals(&v);
    let ta = table(&v, |a, b| exact::add(a, b, T::FMT));
    let ts = table(&v, |a, b| exact::sub(a, b, T::FMT));
    let tm = table(&v, |a, b| exact::mul(a, b, T::FMT));
    let td = table(&v, |a, b| if b == 0.0 { (f64::NAN, f64::NAN) } else { exact::div(a, b, T::FMT) });
    let hull = |t: &Tab, (a, b): (usize, usize), (c, d): (usize, usize)| -> (f64, f64) {
        let k = [t[a * n + c], t[a * n + d], t[b * n + c], t[b * n + d]];
        (k[0].0.min(k[1].0).min(k[2].0).min(k[3].0), k[0].1.max(k[1].1).max(k[2].1).max(k[3].1))
    };
    let m = ivs.len() as u64;
    c.suite(&format!("pairs-{}", T::NAME),
        "every ordered pair of intervals over the magnitude ladder (both zeros, subnormals .. MAX), every binary operator, plain and assigning", m * m, |i, c| {
        let mut d = Dec(i);
        let (ia, ib) = (*d.of(&ivs), *d.of(&ivs));
        let (a, b) = (Interval::new(v[ia.0], v[ia.1]), Interval::new(v[ib.0], v[ib.1]));
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        let (lo, hi) = hull(&ta, ia, ib);
        let add = a + b;
        valid("a + b", &a, &add, lo, hi)?;
        let mut x = a;
        x += b;
        valid("a += b", &a, &x, lo, hi)?;
        let (lo, hi) = hull(&ts, ia, ib);
        let sub = a - b;
        valid("a - b", &a, &sub, lo, hi)?;
        let mut x = a;
        x -= b;
        valid("a -= b", &a, &x, lo, hi)?;
        let (lo, hi) = hull(&tm, ia, ib);
        let mul = a * b;
        valid("a * b", &a, &mul, lo, hi)?;
        let mut x = a;
        x *= b;
        valid("a *= b", &a, &x, lo, hi)?;
        let div = a / b;
        let (lo, hi) = if b.inf.d() <= 0.0 && b.sup.d() >= 0.0 {
            c.tally("division by an interval containing zero");
            (f64::NEG_INFINITY, f64::INFINITY)
        } else {
            hull(&td, ia, ib)
        };
        valid("a / b", &a, &div, lo, hi)?;
        let mut x = a;
        x /= b;
        valid("a /= b", &a, &x, lo, hi)?;
        c.steps(8);
        c.state(Fp::new(0).f(add.inf.d()).f(sub.sup.d()).f(mul.inf.d()).f(mul.sup.d()).f(div.inf.d()));
        Ok(())
    });
    let nv = v.len() as u64;
    c.suite(&format!("mixed-{}", T::NAME), "every interval with every scalar: +, -, *, / and assigning *=, /=", m * nv, |i, c| {
        let mut d = Dec(i);
        let ia = *d.of(&ivs);
        let ik = d.take(n);
        let (a, k) = (Interval::new(v[ia.0], v[ia.1]), v[ik]);
        c.note(|| format!("a = {} k = {:e}", iv(&a), k.d()));
        let (lo, hi) = hull(&ta, ia, (ik, ik));
        let add = a + k;
        valid("a + k", &a, &add, lo, hi)?;
        let (lo, hi) = hull(&ts, ia, (ik, ik));
        valid("a - k", &a, &(a - k), lo, hi)?;
        let (lo, hi) = hull(&tm, ia, (ik, ik));
        let mul = a * k;
        valid("a * k", &a, &mul, lo, hi)?;
        let mut x = a;
        x *= k;
        valid("a *= k", &a, &x, lo, hi)?;
        let div = a / k;
        let (lo, hi) = if k.d() == 0.0 { (f64::NEG_INFINITY, f64::INFINITY) } else { hull(&td, ia, (ik, ik)) };
        valid("a / k", &a, &div, lo, hi)?;
        let mut x = a;
        x /= k;
        valid("a /= k", &a, &x, lo, hi)?;
        c.steps(6);
        c.state(Fp::new(1).f(add.inf.d()).f(mul.inf.d()).f(mul.sup.d()).f(div.sup.d()));
        Ok(())
    });
    // unary operations, on a denser alphabet
    let mut w: Vec<T> = signed(&ladder::<T>(true));
    w.extend(alpha::rich(-12, 12, true).iter().map(|x| T::f(*x)));
    for x in w.clone() {
        for y in [x.up(), x.down(), x.up().up()] {
            if GFloat::is_finite(y) {
                w.push(y);
            }
        }
    }
    w.extend(alpha::fine(-16, 16, 32).iter().map(|x| T::f(*x)));
    w.sort_by(|a, b| a.d().total_cmp(&b.d()));
    w.dedup_by(|a, b| a.bits() == b.bits());
    let ivs = intervals(&w);
    let sq: Tab = w.iter().map(|x| exact::mul(x.d(), x.d(), T::FMT)).collect();
    let rt: Tab = w.iter().map(|x| exact::sqrt(x.d().max(0.0), T::FMT)).collect();
    let rc: Tab = w.iter().map(|x| if x.d() == 0.0 { (0.0, 0.0) } else { exact::div(1.0, x.d(), T::FMT) }).collect();
    c.suite(&format!("unary-{}", T::NAME), "every interval over the ladder, its neighbouring floats and a fine ladder: neg, square, sqrt, recip, abs, through both the inherent and the trait methods", ivs.len() as u64, |i, c| {
        let (p, q) = ivs[i as usize];
        let a = Interval::new(w[p], w[q]);
        c.note(|| format!("a = {}", iv(&a)));
        let (l, h) = (a.inf.d(), a.sup.d());
        let zero_in = l <= 0.0 && h >= 0.0;
        valid("-a", &a, &-a, -h, -l)?;
        let lo = if zero_in { 0.0 } else { sq[p].0.min(sq[q].0) };
        valid("square", &a, &a.square(), lo, sq[p].1.max(sq[q].1))?;
        valid("Scalar::square", &a, &Scalar::square(a), lo, sq[p].1.max(sq[q].1))?;
        valid("abs", &a, &SignedScalar::abs(a), if zero_in { 0.0 } else { l.abs().min(h.abs()) }, l.abs().max(h.abs()))?;
        if h >= 0.0 {
            valid("sqrt", &a, &a.sqrt(), rt[p].0, rt[q].1)?;
            valid("GFloat::sqrt", &a, &GFloat::sqrt(a), rt[p].0, rt[q].1)?;
            c.tally(if l < 0.0 { "sqrt of an interval dipping below zero" } else { "sqrt" });
            c.steps(2);
        }
        let r = GFloat::recip(a);
        if zero_in {
            valid("recip", &a, &r, f64::NEG_INFINITY, f64::INFINITY)?;
        } else {
            valid("recip", &a, &r, rc[p].0.min(rc[q].0), rc[p].1.max(rc[q].1))?;
        }
        c.steps(5);
        c.state(Fp::new(2).f(l).f(h));
        Ok(())
    });
}

fn binary<T: Fl>(a: Interval<T>, b: Interval<T>, c: &mut Ctx) -> Res {
    let (add, sub, mul, div) = (a + b, a - b, a * b, a / b);
    let e = [corners(exact::add, &a, &b), corners(exact::sub, &a, &b), corners(exact::mul, &a, &b),
        if b.inf.d() <= 0.0 && b.sup.d() >= 0.0 { (f64::NEG_INFINITY, f64::INFINITY) } else { corners(exact::div, &a, &b) }];
    valid("a + b", &a, &add, e[0].0, e[0].1)?;
    valid("a - b", &a, &sub, e[1].0, e[1].1)?;
    valid("a * b", &a, &mul, e[2].0, e[2].1)?;
    valid("a / b", &a, &div, e[3].0, e[3].1)?;
    let (mut w, mut x, mut y, mut z) = (a, a, a, a);
    w += b;
    x -= b;
    y *= b;
    z /= b;
    valid("a += b", &a, &w, e[0].0, e[0].1)?;
    valid("a -= b", &a, &x, e[1].0, e[1].1)?;
    valid("a *= b", &a, &y, e[2].0, e[2].1)?;
    valid("a /= b", &a, &z, e[3].0, e[3].1)?;
    c.steps(8);
    if b.inf.bits() == b.sup.bits() {
        let k = b.inf;
        valid("a + k", &a, &(a + k), e[0].0, e[0].1)?;
        valid("a - k", &a, &(a - k), e[1].0, e[1].1)?;
        valid("a * k", &a, &(a * k), e[2].0, e[2].1)?;
        valid("a / k", &a, &(a / k), e[3].0, e[3].1)?;
        let (mut x, mut y) = (a, a);
        x *= k;
        y /= k;
        valid("a *= k", &a, &x, e[2].0, e[2].1)?;
        valid("a /= k", &a, &y, e[3].0, e[3].1)?;
        c.steps(6);
    }
    c.state(Fp::new(4).f(add.inf.d()).f(mul.inf.d()).f(mul.sup.d()).f(div.sup.d()));
    Ok(())
}
/// operands given by centre and width
fn centred<T: Fl>(c: &mut Check) {
    let dense = !c.quick();
    let v: Vec<Interval<T>> = narrow(-9, 9, dense);
    let m = v.len() as u64;
    c.suite(&format!("centred-{}", T::NAME), "every ordered pair of intervals given by centre (the rich alphabet) and width (points, ulps, relative widths up to and beyond zero): +, -, *, / plain and assigning, against scalars and scalar assignment when the second is a point", m * m, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&v), *d.of(&v));
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        binary(a, b, c)
    });
    let v: Vec<Interval<T>> = fine(-9, 9, c.by(24, 64));
    let m = v.len() as u64;
    c.suite(&format!("fine-{}", T::NAME), "the same for every interval with a bound on a fine ladder of magnitudes (1e-9 to 1e9, both signs) combined in either order with fixed intervals and with those sharing a bound with it, or its opposite, exactly or apart by an ulp to a percent", m * PARTNERS as u64, |i, c| {
        let mut d = Dec(i);
        let j = d.take(PARTNERS);
        let a = *d.of(&v);
        let b = partner(&a, j);
        c.note(|| format!("a = {} b = {}", iv(&a), iv(&b)));
        binary(a, b, c)?;
        binary(b, a, c)
    });
}

/// two-register interval machine: every program of length <= depth over the op alphabet.
fn programs<T: Fl>(c: &mut Check, depth: usize) {
    #[derive(Clone, Copy)]
    struct S<T: Fl> {
        x: Interval<T>,
        y: Interval<T>,
        wx: W,
        wy: W,
    }
    const OPS: [&str; 17] = ["x+=y", "x-=y", "x*=y", "x/=y", "x=y-x", "x=y/x", "x=-x", "x=x^2", "x=sqrt x", "x=|x|",
        "x=1/x", "swap", "x=x+0.1", "x=x*-3", "x=x/0.7", "y=y*x", "y=x*x"];
    // returns None when the history leaves the property's domain
    fn apply<T: Fl>(s: &S<T>, op: usize) -> Option<S<T>> {
        let mut r = *s;
        let zero_in = |i: &Interval<T>| i.inf.d() <= 0.0 && i.sup.d() >= 0.0;
        let k = |x: f64| T::f(x);
        let kw = |x: f64| W::new(T::f(x).d());
        match op {
            0 => { r.x += s.y; r.wx = s.wx.add(s.wy) }
            1 => { r.x -= s.y; r.wx = s.wx.sub(s.wy) }
            2 => { r.x *= s.y; r.wx = s.wx.mul(s.wy) }
            3 => { if zero_in(&s.y) { return None; } r.x /= s.y; r.wx = s.wx.div(s.wy) }
            4 => { r.x = s.y - s.x; r.wx = s.wy.sub(s.wx) }
            5 => { if zero_in(&s.x) { return None; } r.x = s.y / s.x; r.wx = s.wy.div(s.wx) }
            6 => { r.x = -s.x; r.wx = s.wx.neg() }
            7 => { r.x = s.x.square(); r.wx = s.wx.mul(s.wx) }
            8 => { if s.wx.hi < 0.0 || s.wx.certainly_lt(0.0) { return None; } r.x = s.x.sqrt(); r.wx = s.wx.sqrt() }
            9 => { r.x = SignedScalar::abs(s.x); r.wx = s.wx.abs() }
            10 => { if zero_in(&s.x) { return None; } r.x = GFloat::recip(s.x); r.wx = W::new(1.0).div(s.wx) }
            11 => { r.x = s.y; r.y = s.x; r.wx = s.wy; r.wy = s.wx }
            12 => { r.x = s.x + k(0.1); r.wx = s.wx.add(kw(0.1)) }
            13 => { r.x = s.x * k(-3.0); r.wx = s.wx.mul(kw(-3.0)) }
            14 => { r.x = s.x / k(0.7); r.wx = s.wx.div(kw(0.7)) }
            15 => { r.y = s.y * s.x; r.wy = s.wy.mul(s.wx) }
            _ => { r.y = s.x * s.x; r.wy = s.wx.mul(s.wx) }
        }
        Some(r)
    }
    let vals: Vec<T> = [-7.3, -1.0, -0.1, 0.0, 0.25, 1.0 / 3.0, 2.0, 100.25].iter().map(|x| T::f(*x)).collect();
    let ivs = intervals(&vals);
    let roots = ivs.len() * ivs.len() * 9;
    let n = roots as u64;
    c.suite(&format!("programs-{}", T::NAME),
        &format!("all programs of length <= {} over {} register operations from every pair of start intervals and every endpoint/midpoint member pair (depth-first, {} roots); a double-double witness with a rigorous error bound must stay enclosed", depth, OPS.len(), roots),
        n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&ivs), *d.of(&ivs));
        let (x, y) = (Interval::new(vals[a.0], vals[a.1]), Interval::new(vals[b.0], vals[b.1]));
        let pick = |i: &Interval<T>, k: usize| W::new(match k { 0 => i.inf.d(), 1 => i.sup.d(), _ => T::f((i.inf.d() + i.sup.d()) * 0.5).d() });
        let s = S { x, y, wx: pick(&x, d.take(3)), wy: pick(&y, d.take(3)) };
        let mut stack: Vec<(S<T>, Vec<u8>)> = vec![(s, vec![])];
        while let Some((s, word)) = stack.pop() {
            for op in 0..OPS.len() {
                let Some(r) = apply(&s, op) else { continue };
                c.step();
                let mut w = word.clone();
                w.push(op as u8);
                for (iv_, wt) in [(&r.x, r.wx), (&r.y, r.wy)] {
                    let bad = !(iv_.inf.d() <= iv_.sup.d()) || wt.certainly_lt(iv_.inf.d()) || wt.certainly_gt(iv_.sup.d());
                    if bad {
                        return Err(format!("x0={} y0={} program {:?}: witness {:e} is outside {}", iv(&x), iv(&y),
                            w.iter().map(|o| OPS[*o as usize]).collect::<Vec<_>>(), wt.hi, iv(iv_)));
                    }
                }
                let lim = T::FMT.max.sqrt().sqrt();
                let ok = |i: &Interval<T>| i.inf.d().abs() < lim && i.sup.d().abs() < lim;
                if ok(&r.x) && ok(&r.y) && r.wx.ok() && r.wy.ok() && w.len() < depth {
                    c.state(Fp::new(3).f(r.x.inf.d()).f(r.x.sup.d()).f(r.y.inf.d()).f(r.y.sup.d()).f(r.wx.hi).f(r.wy.hi));
                    stack.push((r, w));
                }
            }
        }
        c.note(|| format!("x0 = {} y0 = {}, all programs", iv(&x), iv(&y)));
        Ok(())
    });
}

fn main() {
    let mut c = Check::new("C01");
    c.assume("Member sets are represented by the endpoints of the operand intervals (corner values bound the exact range of these operations); programs use endpoint and midpoint members.");
    c.assume("Operands have finite bounds; programs stop when a bound becomes infinite or very large, or a divisor contains zero.");
    pairs::<f32>(&mut c);
    pairs::<f64>(&mut c);
    centred::<f32>(&mut c);
    centred::<f64>(&mut c);
    let d = c.by(4, 5);
    programs::<f32>(&mut c, d);
    programs::<f64>(&mut c, d);
    c.finish()
}
