//! C11 norms, distances, normalization, cross product geometry.
use mc::num::*;
use mc::*;
use scarlet::math::vector::*;
use scarlet::math::vector::{InnerScalar, Norm};

fn near(op: &str, got: f64, want: W, tol: f64) -> Res {
    let d = W::new(got).sub(want);
    if (d.hi + d.lo).abs() <= tol + want.err { Ok(()) } else { Err(format!("{}: got {:e}, expected {:e} (+- {:e})", op, got, want.hi, tol)) }
}
fn sumsq(v: &[f64]) -> W {
    v.iter().fold(W::new(0.0), |s, x| s.add(W::new(*x).mul(W::new(*x))))
}
/// the squared length is far enough from both ends of the range
fn in_range<T: Fl>(s: f64) -> bool {
    let lo = mc::exact::ldexp(1, T::FMT.emin + 2 * T::FMT.p + 4);
    s >= lo && s <= T::FMT.max / 8.0 && s > 1e-138 && s < 1e138
}
fn mags<T: Fl>(full: bool) -> Vec<T> {
    let mut m = vec![0.0, 1.0, 0.3, 1e-7, 4096.7, 3.0, 1e-13];
    let r = T::FMT.max.sqrt().min(1e69) / 16.0;
    let q = (1.0 / T::FMT.max).sqrt().max(1e-68) * 8192.0 * 4.0;
    m.extend([r, q]);
    if full {
        m.extend([1.0 + T::EPS, 1e5, 0.7, 1e-3]);
    }
    signed::<T>(&m)
}

fn unary<T: Fl, const N: usize, U>(a: [T; N], c: &mut Ctx) -> Res
where
    GenericVector<T, N, U>: Norm + InnerScalar<ScalarType = T>,
{
    let x = GenericVector::<T, N, U>::from(a);
    let r = a.map(|v| v.d());
    let s = sumsq(&r);
    if s.hi == 0.0 {
        c.step();
        return near("norm of zero", x.norm().d(), W::new(0.0), 0.0);
    }
    if !in_range::<T>(s.hi) {
        c.skip();
        return Ok(());
    }
    let e = T::EPS;
    let n = s.sqrt();
    near("square_norm", x.square_norm().d(), s, s.hi * 6.0 * e)?;
    near("norm", x.norm().d(), n, n.hi * 5.0 * e)?;
    near("Norm::norm", Norm::norm(x).d(), n, n.hi * 5.0 * e)?;
    let u = x.normalize();
    let tiny = mc::exact::ldexp(4, T::FMT.emin);
    for k in 0..N {
        near("normalize component", u[k].d(), W::new(r[k]).div(n), r[k].abs() / n.hi * 8.0 * e + tiny)?;
    }
    near("norm of the normalized vector", u.norm().d(), W::new(1.0), 12.0 * e)?;
    c.steps(6);
    Ok(())
}
/// distances of a pair
fn binary<T: Fl, const N: usize>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    let (x, y) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let mut s = W::new(0.0);
    for k in 0..N {
        let d = W::new(a[k].d()).sub(W::new(b[k].d()));
        s = s.add(d.mul(d));
    }
    if a.iter().zip(&b).all(|(p, q)| p.d() == q.d()) {
        c.steps(2);
        near("distance of equal vectors", x.distance(y).d(), W::new(0.0), 0.0)?;
        return near("square_distance of equal vectors", x.square_distance(y).d(), W::new(0.0), 0.0);
    }
    if !in_range::<T>(s.hi) {
        c.skip();
        return Ok(());
    }
    let e = T::EPS;
    let n = s.sqrt();
    c.steps(4);
    near("square_distance", x.square_distance(y).d(), s, s.hi * 10.0 * e)?;
    near("distance", x.distance(y).d(), n, n.hi * 8.0 * e)?;
    near("distance, swapped", y.distance(x).d(), n, n.hi * 8.0 * e)?;
    near("Norm::distance", Norm::distance(x, y).d(), n, n.hi * 8.0 * e)
}
/// sweeps over K = N + 1 (components, length) and 2N parameters
fn sweeps<T: Fl, const N: usize, const K: usize, const D: usize>(c: &mut Check, units: Vec<[f64; N]>) {
    let al = alpha::rich(-12, 12, true);
    let base: Vec<[f64; K]> = units.iter().map(|u| std::array::from_fn(|k| if k < N { u[k] } else { 1.0 })).collect();
    let vals = |al: &Vec<f64>| -> [Vec<f64>; K] { std::array::from_fn(|k| if k < N { al.clone() } else { alpha::positive(al) }) };
    for (nm, sw) in [("pairs", alpha::Sweep::new(2, base.clone(), vals(&al))), ("triples", alpha::Sweep::new(3, base.clone(), vals(&alpha::coarse()))), ("near-ties", alpha::Sweep::near_ties(64, 10, base, vals(&al)))] {
        c.suite(&format!("norm-{}-{}-dim{}", nm, T::NAME, N), "around unit and other vectors, every pair (over the rich alphabet: magnitudes 1e-12 to 1e12, neighbourhoods of 0.5, 1, 2, pi/2, pi) or every three (over the coarse one) of the components and the length; each alone over a fine ladder, and every two almost equal or opposite at every magnitude", sw.n(), |i, c| {
            let q = sw.get(i);
            let a: [T; N] = std::array::from_fn(|k| T::f(q[k] * q[N]));
            c.note(|| format!("a = {:?}", a));
            c.distinct(1);
            match i % 3 {
                0 => unary::<T, N, VectorMarker>(a, c),
                1 => unary::<T, N, PointMarker>(a, c),
                _ => unary::<T, N, NormalMarker>(a, c),
            }
        });
    }
    let base: Vec<[f64; D]> = units.iter().map(|u| std::array::from_fn(|k| if k < N { u[k] } else { u[(k + 1) % N] + 0.3 })).collect();
    for (nm, sw) in [("pairs", alpha::Sweep::new(2, base.clone(), std::array::from_fn(|_| alpha::rich(-7, 7, false)))), ("near-ties", alpha::Sweep::near_ties(64, 10, base, std::array::from_fn(|_| alpha::rich(-7, 7, false))))] {
    c.suite(&format!("distance-{}-{}-dim{}", nm, T::NAME, N), "every pair of the components of two vectors takes every pair of values of the rich alphabet, or they are almost equal or opposite at every magnitude", sw.n(), |i, c| {
        let q = sw.get(i);
        let a: [T; N] = std::array::from_fn(|k| T::f(q[k]));
        let b: [T; N] = std::array::from_fn(|k| T::f(q[N + k]));
        c.note(|| format!("a = {:?} b = {:?}", a, b));
        c.distinct(1);
        binary(a, b, c)
    });
    }
}
fn suites<T: Fl, const N: usize>(c: &mut Check, v: Vec<T>, dist: Vec<T>) {
    let n = (v.len() as u64).pow(N as u32);
    c.suite(&format!("norm-{}-dim{}", T::NAME, N), "every component tuple over the signed magnitude ladder; vectors, points and normals", n, |i, c| {
        let mut d = Dec(i);
        let a: [T; N] = std::array::from_fn(|_| *d.of(&v));
        c.note(|| format!("a = {:?}", a));
        c.state(Fp::new(i));
        unary::<T, N, VectorMarker>(a, c)?;
        unary::<T, N, PointMarker>(a, c)?;
        unary::<T, N, NormalMarker>(a, c)
    });
    let n = (dist.len() as u64).pow(2 * N as u32);
    c.suite(&format!("distance-{}-dim{}", T::NAME, N), "every pair of component tuples: distance, squared distance, symmetry", n, |i, c| {
        let mut d = Dec(i);
        let a: [T; N] = std::array::from_fn(|_| *d.of(&dist));
        let b: [T; N] = std::array::from_fn(|_| *d.of(&dist));
        c.note(|| format!("a = {:?} b = {:?}", a, b));
        c.state(Fp::new(i));
        binary(a, b, c)
    });
}
fn cross<T: Fl>(c: &mut Check, v: Vec<T>) {
    let n = (v.len() as u64).pow(6);
    c.suite(&format!("cross-{}", T::NAME), "every pair of 3-tuples: cross product, antisymmetry, perpendicularity, Lagrange's identity", n, |i, c| {
        let mut d = Dec(i);
        let a: [T; 3] = std::array::from_fn(|_| *d.of(&v));
        let b: [T; 3] = std::array::from_fn(|_| *d.of(&v));
        c.note(|| format!("a = {:?} b = {:?}", a, b));
        c.state(Fp::new(i));
        c.steps(4);
        let (x, y) = (Vector3::<T>::from(a), Vector3::<T>::from(b));
        let (g, h) = (x.cross(y), y.cross(x));
        let e = T::EPS;
        let mut na = [0.0; 3];
        let (mut ns, mut gerr) = (W::new(0.0), 0.0);
        for k in 0..3 {
            let (i, j) = ((k + 1) % 3, (k + 2) % 3);
            let w = |p: usize, q: usize| W::new(a[p].d()).mul(W::new(b[q].d()));
            let m = (a[i].d() * b[j].d()).abs() + (a[j].d() * b[i].d()).abs();
            let want = w(i, j).sub(w(j, i));
            near("cross", g[k].d(), want, 4.0 * e * m)?;
            near("antisymmetry", h[k].d(), want.neg(), 4.0 * e * m)?;
            na[k] = m;
            ns = ns.add(want.mul(want));
            gerr += m * m;
        }
        // perpendicular to both operands
        for (nm, o) in [("first", a), ("second", b)] {
            let s: f64 = (0..3).map(|k| g[k].d() * o[k].d()).sum();
            let t: f64 = (0..3).map(|k| 8.0 * e * na[k] * o[k].d().abs()).sum();
            if !(s.abs() <= t) {
                return Err(format!("the cross product is not perpendicular to the {} operand: {:e}", nm, s));
            }
        }
        // Lagrange: |a x b|^2 = |a|^2 |b|^2 - (a.b)^2, all four quantities from the code
        let l = x.square_norm().d() * y.square_norm().d() - x.dot(y).d().powi(2);
        let size = x.square_norm().d() * y.square_norm().d();
        if !((g.square_norm().d() - l).abs() <= 40.0 * e * (size + gerr)) {
            return Err(format!("Lagrange's identity: |axb|^2 = {:e}, |a|^2|b|^2-(a.b)^2 = {:e}", g.square_norm().d(), l));
        }
        Ok(())
    });
}
fn run<T: Fl>(c: &mut Check) {
    sweeps::<T, 2, 3, 4>(c, vec![[0.6, 0.8], [1.0, 0.0], [-3.0, 0.5]]);
    sweeps::<T, 3, 4, 6>(c, vec![[0.48, 0.6, 0.64], [0.0, -1.0, 0.0], [2.0, -3.0, 0.1]]);
    sweeps::<T, 4, 5, 8>(c, vec![[0.5, 0.5, -0.5, 0.5], [0.0, 0.0, 0.0, 1.0], [2.0, -3.0, 0.1, 7.0]]);
    let v = mags::<T>(true);
    let small = |k: &[f64]| signed::<T>(k);
    suites::<T, 2>(c, v.clone(), v.clone());
    let d3 = c.by(small(&[0.0, 1.0, 0.3, 4096.7, 1e-7]), small(&[0.0, 1.0, 0.3, 4096.7, 1e-7, 3.0, 1e-3]));
    suites::<T, 3>(c, v.clone(), d3.clone());
    let d4 = c.by(small(&[1.0, 0.3]), small(&[0.0, 1.0, 0.3]));
    suites::<T, 4>(c, v, d4);
    cross::<T>(c, d3);
}
fn main() {
    let mut c = Check::new("C11");
    run::<f32>(&mut c);
    run::<f64>(&mut c);
    c.assume("squared lengths that overflow or come within 2*precision bits of the subnormal range are outside the property (counted as undecided)");
    c.finish();
}
