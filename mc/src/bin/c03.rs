//! C03 interval sin, cos, tan.
use mc::num::*;
use mc::trig;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::GFloat;

struct P<T: Fl> {
    x: T,
    s: W,
    c: W,
    t: W,
    floor: u32,
    integral: bool,
}
fn point<T: Fl>(x: T) -> P<T> {
    let (s, c) = trig::sin_cos(x.d());
    let r = trig::reduce(x.d());
    let t = if x.d().abs() < 1e-30 { W { hi: x.d(), lo: 0.0, err: x.d().abs() * 1e-50 } } else { s.div(c) };
    P { x, s, c, t, floor: r.floor, integral: r.integral }
}
/// does [a, b] contain a multiple k*pi/2 with k = r (mod 4)?  (b - a < 2 pi)
fn has<T: Fl>(a: &P<T>, b: &P<T>, r: u32) -> bool {
    let n = b.floor.wrapping_sub(a.floor);
    let first = if a.integral { 0 } else { 1 };
    (first..=n.min(8)).any(|k| a.floor.wrapping_add(k) & 3 == r)
}
fn encl<T: Fl>(op: &str, r: &Interval<T>, w: W, at: f64) -> Res {
    if !(r.inf.d() <= r.sup.d()) {
        return Err(format!("{}: invalid interval {}", op, iv(r)));
    }
    if w.certainly_lt(r.inf.d()) || w.certainly_gt(r.sup.d()) {
        return Err(format!("{}: {} misses the value {:e} (+{:e}) at {:e}", op, iv(r), w.hi, w.lo, at));
    }
    Ok(())
}
fn near_below<T: Fl>(op: &str, bound: T, val: f64) -> Res {
    let d = T::f(val).ord() - bound.ord();
    if d > 4 { Err(format!("{}: lower bound {:e} is {} representable numbers below {:e}", op, bound.d(), d, val)) } else { Ok(()) }
}
fn near_above<T: Fl>(op: &str, bound: T, val: f64) -> Res {
    let d = bound.ord() - T::f(val).ord();
    if d > 4 { Err(format!("{}: upper bound {:e} is {} representable numbers above {:e}", op, bound.d(), d, val)) } else { Ok(()) }
}

fn one<T: Fl>(op: &str, r: &Interval<T>, a: &P<T>, b: &P<T>, fa: W, fb: W, crest: bool, trough: bool, narrow: bool) -> Res {
    encl(op, r, fa, a.x.d())?;
    encl(op, r, fb, b.x.d())?;
    if crest && r.sup.d() < 1.0 {
        return Err(format!("{}: the interval contains a crest but the result {} misses 1", op, iv(r)));
    }
    if trough && r.inf.d() > -1.0 {
        return Err(format!("{}: the interval contains a trough but the result {} misses -1", op, iv(r)));
    }
    if r.inf.d() < T::f(-1.0).down().d() || r.sup.d() > T::f(1.0).up().d() {
        return Err(format!("{}: {} leaves [-1, 1]", op, iv(r)));
    }
    if narrow {
        near_below(op, r.inf, if trough { -1.0 } else { fa.hi.min(fb.hi) })?;
        near_above(op, r.sup, if crest { 1.0 } else { fa.hi.max(fb.hi) })?;
    }
    Ok(())
}

fn check<T: Fl>(a: &P<T>, b: &P<T>, c: &mut Ctx) -> Res {
    let x = Interval::new(a.x, b.x);
    c.note(|| format!("x = {}", iv(&x)));
    let width = b.x.d() - a.x.d();
    let wide = width >= 6.3;
    let narrow = width < 3.1415;
    let h = |r: u32| wide || has(a, b, r);
    let s = GFloat::sin(x);
    one("sin", &s, a, b, a.s, b.s, h(1), h(3), narrow)?;
    let k = GFloat::cos(x);
    one("cos", &k, a, b, a.c, b.c, h(0), h(2), narrow)?;
    let (s2, k2) = GFloat::sin_cos(x);
    one("sin of sin_cos", &s2, a, b, a.s, b.s, h(1), h(3), narrow)?;
    one("cos of sin_cos", &k2, a, b, a.c, b.c, h(0), h(2), narrow)?;
    let t = GFloat::tan(x);
    if h(1) || h(3) {
        c.tally("tan over a pole");
        if !(t.inf.d() == f64::NEG_INFINITY && t.sup.d() == f64::INFINITY) {
            return Err(format!("tan: {} does not cover all values around the pole", iv(&t)));
        }
    } else {
        encl("tan", &t, a.t, a.x.d())?;
        encl("tan", &t, b.t, b.x.d())?;
        if width == 0.0 {
            let d = t.sup.ord() - t.inf.ord();
            if d > 24 {
                return Err(format!("tan of a point: {} is {} representable numbers wide", iv(&t), d));
            }
        }
    }
    if h(1) { c.tally("contains a crest of sin"); }
    if h(2) { c.tally("contains a trough of cos"); }
    c.steps(5);
    c.state(Fp::new(1).f(a.x.d()).f(b.x.d()).f(s.inf.d()).f(k.sup.d()));
    Ok(())
}

fn lattice<T: Fl>(c: &mut Check) {
    let q = c.quick();
    let den = if q { 24 } else { 48 };
    let kmax = if q { 800 } else { 1400 };
    let mut v: Vec<T> = signed(&ladder::<T>(true));
    v.extend(alpha::rich(-9, 9, true).iter().map(|x| T::f(*x)));
    v.extend(alpha::fine(-4, 4, 32).iter().map(|x| T::f(*x)));
    let mut push = |x: f64| {
        let x = T::f(x);
        if GFloat::is_finite(x) {
            v.extend([x, x.up(), x.down()]);
        }
    };
    for k in -kmax..=kmax {
        push(k as f64 * std::f64::consts::PI / den as f64);
    }
    for base in [17.0, 1e3, 1e5, -1e5, 1e7, -3e7, 1e10] {
        let k0 = (base / std::f64::consts::FRAC_PI_4).round();
        for k in -10..=10 {
            push((k0 + k as f64) * std::f64::consts::FRAC_PI_4);
        }
    }
    v.sort_by(|a, b| a.d().total_cmp(&b.d()));
    v.dedup_by(|a, b| a.bits() == b.bits());
    let ps: Vec<P<T>> = v.iter().map(|x| point(*x)).collect();
    let n = ps.len() as u64;
    c.suite(&format!("lattice-{}", T::NAME),
        &format!("all intervals with endpoints among {} values: multiples of pi/{} up to +-{} with both neighbours, a magnitude ladder of the whole range, a fine one from 1e-4 to 1e4, clusters of multiples of pi/4 around 17..1e10; the exact range (double-double endpoint values, exact crest/trough/pole containment) must be enclosed", n, den, kmax),
        n * n, |i, c| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        if a > b { return Ok(()); }
        check(&ps[a], &ps[b], c)
    });
}

/// intervals given by position and width, in units that have nothing to do with pi
fn centred<T: Fl>(c: &mut Check) {
    let dense = !c.quick();
    let mut starts: Vec<f64> = alpha::rich(-12, 12, true);
    starts.extend(alpha::fine(-6, 5, 48));
    starts.extend((-500..500).map(|k| k as f64 / 79.0));
    for k in -96..=96 {
        starts.push(k as f64 * std::f64::consts::PI / 24.0);
        if dense {
            starts.push(k as f64 * 0.37);
        }
    }
    let mut widths: Vec<f64> = alpha::positive(&alpha::rich(-9, 3, true));
    for k in 1..=60 {
        let w = k as f64 * std::f64::consts::PI / 12.0;
        widths.extend([w, w * (1.0 - 2e-7), w * (1.0 + 2e-7), w - 1e-3, w + 1e-3]);
        widths.push(k as f64 * 0.13);
    }
    let n = (starts.len() * widths.len()) as u64;
    c.suite(&format!("centred-{}", T::NAME), &format!("all intervals given by one of {} lower bounds (the rich alphabet, a fine ladder, multiples of pi/24) and one of {} widths (the rich alphabet, multiples of pi/12 with neighbours), and their mirror images", starts.len(), widths.len()), n, |i, c| {
        let mut d = Dec(i);
        let (s, w) = (*d.of(&starts), *d.of(&widths));
        let (a, b) = (T::f(s), T::f(T::f(s).d() + w));
        let (p, q) = (point(a), point(b));
        check(&p, &q, c)?;
        let (p, q) = (point(-b), point(-a));
        check(&p, &q, c)
    });
}

/// every f32 bit pattern (or every one of a sublattice) as a point interval
fn points(c: &mut Check) {
    let low: Vec<u32> = if c.quick() { (0..4096).filter(|k| k % 128 < 2 || *k == 0xfff || *k == 0x5a5).collect() } else { (0..4096).collect() };
    c.suite("points-f32", &format!("point intervals of the f32 bit patterns with any upper 20 bits and {} low 12-bit patterns; reference: binary64 functions", low.len()), 1 << 20, |i, c| {
        for &l in &low {
            let x = f32::from_bits(((i as u32) << 12) | l);
            if !x.is_finite() { continue; }
            let r = Interval::new(x, x);
            let (s, k) = (x as f64).sin_cos();
            let w = |v: f64| W { hi: v, lo: 0.0, err: v.abs() * 2.3e-16 };
            let p = P { x, s: w(s), c: w(k), t: w(0.0), floor: 0, integral: false };
            let si = GFloat::sin(r);
            let co = GFloat::cos(r);
            one("sin", &si, &p, &p, p.s, p.s, false, false, true)?;
            one("cos", &co, &p, &p, p.c, p.c, false, false, true)?;
            let t = GFloat::tan(r);
            let tw = W { hi: s / k, lo: 0.0, err: (s / k).abs() * 1e-15 };
            encl("tan", &t, tw, x as f64)?;
            c.steps(3);
            c.distinct(1);
        }
        c.note(|| format!("x = {:e}", f32::from_bits((i as u32) << 12)));
        Ok(())
    });
}

fn main() {
    let mut c = Check::new("C03");
    c.assume("The platform's scalar sin/cos are accurate to one ulp at the explored arguments (they are what the interval code widens); the check itself would report an argument where they are not.");
    lattice::<f32>(&mut c);
    lattice::<f64>(&mut c);
    centred::<f32>(&mut c);
    centred::<f64>(&mut c);
    points(&mut c);
    c.finish()
}
