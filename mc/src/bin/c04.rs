//! C04 interval asin, acos, atan, atan2.
use mc::num::*;
use mc::trig;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::GFloat;

fn encl<T: Fl>(op: &str, r: &Interval<T>, w: W) -> Res {
    if !(r.inf.d() <= r.sup.d()) {
        return Err(format!("{}: invalid interval {}", op, iv(r)));
    }
    if w.certainly_lt(r.inf.d()) || w.certainly_gt(r.sup.d()) {
        return Err(format!("{}: {} misses the value {:e} (+{:e})", op, iv(r), w.hi, w.lo));
    }
    Ok(())
}
/// at most an ulp beyond [lo, hi] (given by the nearest floats, hence 2)
fn range<T: Fl>(op: &str, r: &Interval<T>, lo: f64, hi: f64) -> Res {
    if T::f(lo).ord() - r.inf.ord() > 2 || r.sup.ord() - T::f(hi).ord() > 2 {
        return Err(format!("{}: {} leaves the principal range [{:e}, {:e}]", op, iv(r), lo, hi));
    }
    Ok(())
}
fn narrow<T: Fl>(op: &str, r: &Interval<T>, max: i128) -> Res {
    let d = r.sup.ord() - r.inf.ord();
    if d > max { Err(format!("{}: {} is {} representable numbers wide", op, iv(r), d)) } else { Ok(()) }
}
const HP: f64 = std::f64::consts::FRAC_PI_2;

fn unary<T: Fl>(c: &mut Check) {
    let q = c.quick();
    let den = if q { 512 } else { 2048 };
    let mut v: Vec<T> = vec![];
    for k in -den..=den {
        let x = T::f(k as f64 / den as f64);
        v.extend([x, x.up(), x.down()]);
    }
    for x in alpha::rich(-12, 12, true) {
        v.push(T::f(x));
        if x.abs() < 1.0 {
            v.push(T::f(x.signum() - x));
        }
    }
    v.extend(alpha::fine(-6, 6, 64).iter().map(|x| T::f(*x)));
    for m in ladder::<T>(true) {
        v.extend([T::f(m), T::f(-m)]);
    }
    for k in 1..60 {
        let x = T::f(1.0 - 2f64.powi(-k));
        let y = T::f(2f64.powi(-k) * 1.1);
        v.extend([x, -x, y, -y]);
    }
    let mut w: Vec<T> = v.iter().copied().filter(|x| GFloat::is_finite(*x)).collect();
    w.sort_by(|a, b| a.d().total_cmp(&b.d()));
    w.dedup_by(|a, b| a.bits() == b.bits());
    let u: Vec<T> = w.iter().copied().filter(|x| x.d().abs() <= 1.0).collect();
    let ps: Vec<(T, W, W)> = u.iter().map(|x| (*x, trig::asin(x.d()), trig::acos(x.d()))).collect();
    let n = ps.len() as u64;
    c.suite(&format!("asin-acos-{}", T::NAME), &format!("all intervals with endpoints among {} values of [-1,1]: multiples of 1/{} with neighbours, values approaching +-1 and 0, subnormals", n, den), n * n, |i, c| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        if a > b { return Ok(()); }
        let x = Interval::new(u[a], u[b]);
        c.note(|| format!("x = {}", iv(&x)));
        let r = GFloat::asin(x);
        encl("asin", &r, ps[a].1)?;
        encl("asin", &r, ps[b].1)?;
        range("asin", &r, -HP, HP)?;
        let k = GFloat::acos(x);
        encl("acos", &k, ps[a].2)?;
        encl("acos", &k, ps[b].2)?;
        // values just below zero arise only from the one-ulp widening of acos 1 = 0
        range("acos", &k, 0.0, std::f64::consts::PI)?;
        if a == b {
            narrow("asin of a point", &r, 8)?;
            narrow("acos of a point", &k, 8)?;
        }
        c.steps(2);
        c.state(Fp::new(0).f(r.inf.d()).f(r.sup.d()).f(k.inf.d()).f(k.sup.d()));
        Ok(())
    });
    let at: Vec<W> = w.iter().map(|x| trig::atan(x.d())).collect();
    let n = w.len() as u64;
    c.suite(&format!("atan-{}", T::NAME), &format!("all intervals with endpoints among {} values of the whole range", n), n * n, |i, c| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        if a > b { return Ok(()); }
        let x = Interval::new(w[a], w[b]);
        c.note(|| format!("x = {}", iv(&x)));
        let r = GFloat::atan(x);
        encl("atan", &r, at[a])?;
        encl("atan", &r, at[b])?;
        range("atan", &r, -HP, HP)?;
        if a == b {
            narrow("atan of a point", &r, 8)?;
        }
        c.step();
        c.state(Fp::new(1).f(r.inf.d()).f(r.sup.d()));
        Ok(())
    });
}

/// the range of atan2 over a box of which `tab` gives the values at the corners
fn judge<T: Fl>(y: &Interval<T>, x: &Interval<T>, tab: [Option<W>; 4], c: &mut Ctx) -> Res {
    let (yl, yh, xl, xh) = (y.inf.d(), y.sup.d(), x.inf.d(), x.sup.d());
    let r = GFloat::atan2(*y, *x);
    c.step();
    if !(r.inf.d() <= r.sup.d()) {
        return Err(format!("atan2: invalid interval {}", iv(&r)));
    }
    for w in tab.into_iter().flatten() {
        encl("atan2", &r, w)?;
    }
    if xl < 0.0 && yl < 0.0 && yh >= 0.0 {
        c.tally("crosses the branch cut");
        encl("atan2 at the cut", &r, trig::pi())?;
        encl("atan2 below the cut", &r, trig::pi().neg())?;
    }
    // axes inside the box (corners do not cover them when the box straddles an axis)
    if xl <= 0.0 && xh >= 0.0 {
        if yh > 0.0 { encl("atan2 on the y axis", &r, trig::scale2(trig::pi(), 0.5))?; }
        if yl < 0.0 { encl("atan2 on the -y axis", &r, trig::scale2(trig::pi(), -0.5))?; }
    }
    if yl <= 0.0 && yh >= 0.0 {
        if xh > 0.0 { encl("atan2 on the x axis", &r, W::new(0.0))?; }
        if xl < 0.0 { encl("atan2 on the -x axis", &r, trig::pi())?; }
    }
    range("atan2", &r, -std::f64::consts::PI, std::f64::consts::PI)?;
    if yl == yh && xl == xh && yl != 0.0 && xl != 0.0 {
        // relative to a result of subnormal size the quotient itself may be rounded
        narrow("atan2 of a point", &r, 12)?;
        c.tally("point operands");
    }
    c.state(Fp::new(2).f(r.inf.d()).f(r.sup.d()).f(yl).f(xh));
    Ok(())
}

fn binary<T: Fl>(c: &mut Check) {
    let q = c.quick();
    let f = T::FMT;
    let tiny = mc::exact::ldexp(1, f.emin);
    let mut mags = vec![0.0, tiny, mc::exact::ldexp(1, f.emin + f.p - 1), 1e-30, 1e-12, 1e-6, 0.1, 0.25, 0.5, 0.7, 1.0 - T::EPS / 2.0, 1.0, 1.0 + T::EPS, 1.5, 2.0, 3.0, 17.3, 1e3, 1e6, 1e15, 1e25, f.max / 2.0, f.max];
    if !q {
        mags.extend([tiny * 7.0, 1e-20, 1e-10, 1e-3, 0.25, 1.0 / 3.0, 0.7, 1.5, 5.0, 33.0, 1e3, 1e10, 1e19, 1e30, f.max / 2.0, f.max / 3.0]);
    }
    let v: Vec<T> = signed(&mags);
    let m = v.len();
    let mut tab = vec![];
    for y in &v {
        for x in &v {
            tab.push(if y.d() == 0.0 && x.d() == 0.0 { None } else { Some(trig::atan2(y.d(), x.d())) });
        }
    }
    let ivs = intervals(&v);
    let n = ivs.len() as u64;
    c.suite(&format!("atan2-{}", T::NAME), &format!("all pairs of intervals with endpoints among {} values (zero, subnormal .. MAX, both signs); exact range from double-double corner values plus the branch cut", m), n * n, |i, c| {
        let (iy, ix) = (ivs[(i / n) as usize], ivs[(i % n) as usize]);
        let (y, x) = (Interval::new(v[iy.0], v[iy.1]), Interval::new(v[ix.0], v[ix.1]));
        c.note(|| format!("y = {} x = {}", iv(&y), iv(&x)));
        let at = |a: usize, b: usize| tab[a * m + b];
        judge(&y, &x, [at(iy.0, ix.0), at(iy.0, ix.1), at(iy.1, ix.0), at(iy.1, ix.1)], c)
    });
}

/// operands given by centre and width
fn centred<T: Fl>(c: &mut Check) {
    let v: Vec<Interval<T>> = if c.quick() { mc::num::narrow(-6, 6, false) } else { mc::num::narrow(-9, 9, false) };
    let n = v.len() as u64;
    c.suite(&format!("atan2-centred-{}", T::NAME), &format!("all pairs of {} intervals given by centre (the rich alphabet) and width (points, ulps, relative widths up to and beyond zero)", n), n * n, |i, c| {
        let (y, x) = (v[(i / n) as usize], v[(i % n) as usize]);
        c.note(|| format!("y = {} x = {}", iv(&y), iv(&x)));
        let at = |a: T, b: T| if a.d() == 0.0 && b.d() == 0.0 { None } else { Some(trig::atan2(a.d(), b.d())) };
        judge(&y, &x, [at(y.inf, x.inf), at(y.inf, x.sup), at(y.sup, x.inf), at(y.sup, x.sup)], c)
    });
    let v: Vec<Interval<T>> = fine(-6, 6, c.by(16, 64));
    let m = v.len() as u64;
    c.suite(&format!("atan2-fine-{}", T::NAME), "every interval with a bound on a fine ladder of magnitudes (1e-6 to 1e6, both signs) combined in either order with fixed intervals and with those sharing a bound with it, or its opposite, exactly or apart by an ulp to a percent", m * PARTNERS as u64, |i, c| {
        let mut d = Dec(i);
        let j = d.take(PARTNERS);
        let p = *d.of(&v);
        let q = partner(&p, j);
        let at = |a: T, b: T| if a.d() == 0.0 && b.d() == 0.0 { None } else { Some(trig::atan2(a.d(), b.d())) };
        for (y, x) in [(p, q), (q, p)] {
            c.note(|| format!("y = {} x = {}", iv(&y), iv(&x)));
            judge(&y, &x, [at(y.inf, x.inf), at(y.inf, x.sup), at(y.sup, x.inf), at(y.sup, x.sup)], c)?;
        }
        Ok(())
    });
}

fn main() {
    let mut c = Check::new("C04");
    c.assume("Corner values and axis values bound the range of atan2 over a box (it is monotonic in each argument within a half plane); the same one-ulp assumption on the platform's scalar functions as C03.");
    unary::<f32>(&mut c);
    unary::<f64>(&mut c);
    binary::<f32>(&mut c);
    binary::<f64>(&mut c);
    centred::<f32>(&mut c);
    centred::<f64>(&mut c);
    c.finish()
}
