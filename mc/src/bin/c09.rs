//! C09 approximate equality.
use mc::num::*;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::{AlmostEqual, Scalar};
use scarlet::math::transform::{Matrix4x4, Transform};
use scarlet::math::vector::{GenericVector, NormalMarker, PointMarker, VectorMarker};

fn rel<T: Fl>() -> f64 {
    if T::NAME == "f32" { 1e-4 } else { 1e-6 }
}
/// Some(verdict), or None within rounding of a threshold
fn model<T: Fl>(a: T, b: T) -> Option<bool> {
    let (x, y) = (a.d(), b.d());
    // halves: the difference of two finite f64 cannot overflow
    let diff = W::new(x * 0.5).sub(W::new(y * 0.5)).abs().hi * 2.0;
    let big = x.abs().max(y.abs());
    if diff > T::FMT.max {
        return Some(false);
    }
    let mut near = false;
    for thr in [1e-6, big * rel::<T>()] {
        let m = 8.0 * T::EPS * (thr + diff) + 4.0 * mc::exact::ldexp(1, T::FMT.emin);
        if (diff - thr).abs() <= m {
            near = true;
        } else if diff < thr {
            return Some(true);
        }
    }
    if near { None } else { Some(false) }
}
fn values<T: Fl>(full: bool) -> Vec<T> {
    let mut v = signed::<T>(&ladder::<T>(full));
    for base in [0.0, 1e-6, 5e-7, 1e-3, 9.9e-3, 1e-2, 0.011, 0.5, 1.0, 3.0, 100.0, 12345.678, 1e10] {
        for tol in [1e-6, base * rel::<T>()] {
            for k in [0.3, 0.9, 0.995, 0.9999, 1.0001, 1.005, 1.1, 2.0, 10.0] {
                for s in [1.0, -1.0] {
                    for g in [1.0, -1.0] {
                        v.push(T::f(g * (base + s * k * tol)));
                    }
                }
            }
        }
    }
    v.sort_by(|a, b| a.d().total_cmp(&b.d()));
    v.dedup_by(|a, b| a.bits() == b.bits());
    v
}
fn same(what: &str, got: bool, want: bool) -> Res {
    if got == want { Ok(()) } else { Err(format!("{}: got {}, expected {}", what, got, want)) }
}

fn pairs<T: Fl>(c: &mut Check) {
    let v: Vec<T> = values(true);
    let n = v.len() as u64;
    c.suite(&format!("pairs-{}", T::NAME), "every ordered pair of the tolerance lattice: verdict of fequals/almost_eq, symmetry, reflexivity", n * n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&v), *d.of(&v));
        c.note(|| format!("a = {:e} b = {:e}", a.d(), b.d()));
        let r = a.fequals(b);
        c.steps(3);
        c.state(Fp::new(r as u64).f(a.d()).f(b.d()));
        same("almost_eq agrees with fequals", a.almost_eq(b), r)?;
        same("symmetry", b.fequals(a), r)?;
        if a.d() == b.d() && a.d() != 0.0 || a.bits() == b.bits() {
            same("reflexivity", r, true)?;
        }
        match model(a, b) {
            Some(w) => {
                c.tally(if w { "equal" } else { "different" });
                same("a ~ b", r, w)
            }
            None => {
                c.skip();
                Ok(())
            }
        }
    });
    // a lattice of (base, perturbation): each aggregate has all components `base[i]`, one or two perturbed
    let bases = [0.0, 1.0, -1.0, 100.0, -0.003, 7.5];
    let kk = [0.0, 0.5, -0.5, 0.9, 1.1, -1.1, 3.0, -50.0, 1e4];
    let pert = move |b: f64, k: f64| -> T { T::f(b + k * (1e-6f64).max(b.abs() * rel::<T>())) };
    fn vecs<T: Fl, const N: usize, U>(a: [T; N], b: [T; N]) -> (bool, bool) {
        let (x, y) = (GenericVector::<T, N, U>::from(a), GenericVector::<T, N, U>::from(b));
        (x.almost_eq(y), y.almost_eq(x))
    }
    fn check_vec<T: Fl, const N: usize>(i: u64, c: &mut Ctx, bases: &[f64], kk: &[f64], pert: &dyn Fn(f64, f64) -> T) -> Res {
        let mut d = Dec(i);
        let s = d.take(bases.len());
        let (p1, p2) = (d.take(N), d.take(N));
        let (k1, k2) = (*d.of(kk), *d.of(kk));
        let mut a = [T::f(0.0); N];
        for j in 0..N {
            a[j] = T::f(bases[(s + j) % bases.len()]);
        }
        let mut b = a;
        b[p1] = pert(a[p1].d(), k1);
        if p2 != p1 {
            b[p2] = pert(a[p2].d(), k2);
        }
        c.note(|| format!("N={} a = {:?} b = {:?}", N, a, b));
        let mut want = true;
        for j in 0..N {
            match model(a[j], b[j]) {
                None => {
                    c.skip();
                    return Ok(());
                }
                Some(w) => want &= w,
            }
        }
        c.steps(6);
        c.state(Fp::new(i));
        for (m, r) in [("vector", vecs::<T, N, VectorMarker>(a, b)), ("point", vecs::<T, N, PointMarker>(a, b)), ("normal", vecs::<T, N, NormalMarker>(a, b))] {
            same(&format!("{} almost_eq", m), r.0, want)?;
            same(&format!("{} almost_eq (swapped)", m), r.1, want)?;
        }
        Ok(())
    }
    let base_n = (bases.len() * kk.len() * kk.len()) as u64;
    c.suite(&format!("vec2-{}", T::NAME), "every one- and two-component perturbation of 2-vectors/points/normals", base_n * 4, |i, c| check_vec::<T, 2>(i, c, &bases, &kk, &pert));
    c.suite(&format!("vec3-{}", T::NAME), "every one- and two-component perturbation of 3-vectors/points/normals", base_n * 9, |i, c| check_vec::<T, 3>(i, c, &bases, &kk, &pert));
    c.suite(&format!("vec4-{}", T::NAME), "every one- and two-component perturbation of 4-vectors/points/normals", base_n * 16, |i, c| check_vec::<T, 4>(i, c, &bases, &kk, &pert));
    c.suite(&format!("matrix-{}", T::NAME), "every one- and two-entry perturbation of a matrix, and of the matrix / the stored inverse of a transform", base_n * 256, |i, c| {
        let mut d = Dec(i);
        let s = d.take(bases.len());
        let (p1, p2) = (d.take(16), d.take(16));
        let (k1, k2) = (*d.of(&kk), *d.of(&kk));
        let mut a = Matrix4x4::<T>::zero();
        for j in 0..16 {
            a.data[j / 4][j % 4] = T::f(bases[(s + j) % bases.len()]);
        }
        let mut b = a;
        b.data[p1 / 4][p1 % 4] = pert(a.data[p1 / 4][p1 % 4].d(), k1);
        if p1 != p2 {
            b.data[p2 / 4][p2 % 4] = pert(a.data[p2 / 4][p2 % 4].d(), k2);
        }
        c.note(|| format!("a = {:?} b = {:?}", a.data, b.data));
        let mut want = true;
        for j in 0..16 {
            match model(a.data[j / 4][j % 4], b.data[j / 4][j % 4]) {
                None => {
                    c.skip();
                    return Ok(());
                }
                Some(w) => want &= w,
            }
        }
        c.steps(6);
        c.state(Fp::new(i));
        same("matrix almost_eq", a.almost_eq(b), want)?;
        same("matrix almost_eq (swapped)", b.almost_eq(a), want)?;
        let t = |m, n| Transform::<T>::new(m, n);
        same("transform almost_eq, matrix differs", t(a, a).almost_eq(t(b, a)), want)?;
        same("transform almost_eq, inverse differs", t(a, a).almost_eq(t(a, b)), want)?;
        same("transform almost_eq, both differ", t(a, a).almost_eq(t(b, b)), want)?;
        same("transform almost_eq, crossed", t(a, b).almost_eq(t(b, a)), want)
    });
    // pairs of close and not so close values all over the range, at every position of an aggregate
    let mut close: Vec<(T, T)> = vec![];
    for base in alpha::rich(-12, 12, !c.quick()) {
        let b = T::f(base);
        close.push((b, -b));
        for tol in [1e-6, base.abs() * rel::<T>(), base.abs() * T::EPS] {
            for k in [0.0, 0.1, 0.5, 0.9, 0.99, 1.01, 1.1, 2.0, 10.0, 1e3] {
                close.extend([(b, T::f(base + k * tol)), (b, T::f(base - k * tol))]);
            }
        }
    }
    let nc = close.len() as u64;
    c.suite(&format!("close-{}", T::NAME), "every value of the rich alphabet against its neighbours around both tolerances: floats, one component of vectors, points and normals of every dimension at every position, one entry of a matrix at every position, both orders", nc, |i, c| {
        let (x, y) = close[i as usize];
        c.note(|| format!("a = {:e} b = {:e}", x.d(), y.d()));
        let Some(want) = model(x, y) else {
            c.skip();
            return Ok(());
        };
        c.distinct(1);
        c.tally(if want { "equal" } else { "different" });
        same("a ~ b", x.fequals(y), want)?;
        same("b ~ a", y.fequals(x), want)?;
        fn at<T: Fl, const N: usize>(x: T, y: T, want: bool, c: &mut Ctx) -> Res {
            for k in 0..N {
                for fill in [0.0, 7.5] {
                    let (mut a, mut b) = ([T::f(fill); N], [T::f(fill); N]);
                    a[k] = x;
                    b[k] = y;
                    c.steps(6);
                    for (m, r) in [("vector", vecs::<T, N, VectorMarker>(a, b)), ("point", vecs::<T, N, PointMarker>(a, b)), ("normal", vecs::<T, N, NormalMarker>(a, b))] {
                        if r.0 != want || r.1 != want {
                            return Err(format!("{} of dimension {}, component {}: got {:?}, expected {}", m, N, k, r, want));
                        }
                    }
                }
            }
            Ok(())
        }
        at::<T, 2>(x, y, want, c)?;
        at::<T, 3>(x, y, want, c)?;
        at::<T, 4>(x, y, want, c)?;
        for k in 0..16 {
            for fill in [0.0, 7.5] {
                let mut a = Matrix4x4::<T>::zero();
                a.data = [[T::f(fill); 4]; 4];
                let mut b = a;
                a.data[k / 4][k % 4] = x;
                b.data[k / 4][k % 4] = y;
                c.steps(4);
                same("matrix almost_eq", a.almost_eq(b), want)?;
                let t = |m, n| Transform::<T>::new(m, n);
                same("transform almost_eq, matrix differs", t(a, a).almost_eq(t(b, a)), want)?;
                same("transform almost_eq, inverse differs", t(a, a).almost_eq(t(a, b)), want)?;
                same("transform almost_eq, crossed", t(a, b).almost_eq(t(b, a)), want)?;
            }
        }
        let e = |a: T, b: T| Interval::new(if a.d() < b.d() { a } else { b }, if a.d() < b.d() { b } else { a });
        let (p, q) = (Interval::new(x, x), Interval::new(y, y));
        same("interval almost_eq", AlmostEqual::<Interval<T>>::almost_eq(p, q), want)?;
        same("interval almost_eq, other bound", AlmostEqual::<Interval<T>>::almost_eq(e(x, y), p), want)?;
        same("interval almost_eq, other bound", AlmostEqual::<Interval<T>>::almost_eq(q, e(x, y)), want)?;
        same("interval ~ scalar", AlmostEqual::<T>::almost_eq(e(x, y), x), want)?;
        same("interval ~ scalar", AlmostEqual::<T>::almost_eq(e(x, y), y), want)
    });
    let rich: Vec<T> = alpha::rich(-30, 30, true).iter().map(|x| T::f(*x)).collect();
    let nr = rich.len() as u64;
    c.suite(&format!("rich-pairs-{}", T::NAME), "every ordered pair of the rich alphabet", nr * nr, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&rich), *d.of(&rich));
        c.note(|| format!("a = {:e} b = {:e}", a.d(), b.d()));
        c.steps(1);
        c.distinct(1);
        match model(a, b) {
            Some(w) => same("a ~ b", a.fequals(b), w),
            None => {
                c.skip();
                Ok(())
            }
        }
    });
    // every component perturbed by the same share of its tolerance, except at one position
    c.suite(&format!("everywhere-{}", T::NAME), "all components of vectors, points, normals (all dimensions), matrices perturbed by one share of their tolerance, and one of them by another", (bases.len() * kk.len() * kk.len() * 16) as u64, |i, c| {
        let mut d = Dec(i);
        let s = d.take(bases.len());
        let (k1, k2) = (*d.of(&kk), *d.of(&kk));
        let p = d.take(16);
        c.distinct(1);
        c.note(|| format!("bases from {}, shares {} and {} (position {})", bases[s], k1, k2, p));
        fn at<T: Fl, const N: usize>(a: &[T; 16], b: &[T; 16], c: &mut Ctx) -> Res {
            let (x, y): ([T; N], [T; N]) = (std::array::from_fn(|k| a[k]), std::array::from_fn(|k| b[k]));
            let mut want = true;
            for k in 0..N {
                match model(x[k], y[k]) {
                    None => {
                        c.skip();
                        return Ok(());
                    }
                    Some(w) => want &= w,
                }
            }
            c.steps(6);
            for (m, r) in [("vector", vecs::<T, N, VectorMarker>(x, y)), ("point", vecs::<T, N, PointMarker>(x, y)), ("normal", vecs::<T, N, NormalMarker>(x, y))] {
                if r.0 != want || r.1 != want {
                    return Err(format!("{} of dimension {}: got {:?}, expected {}", m, N, r, want));
                }
            }
            if N == 4 {
                let mut want = true;
                let (mut ma, mut mb) = (Matrix4x4::<T>::zero(), Matrix4x4::<T>::zero());
                for k in 0..16 {
                    ma.data[k / 4][k % 4] = a[k];
                    mb.data[k / 4][k % 4] = b[k];
                    match model(a[k], b[k]) {
                        None => {
                            c.skip();
                            return Ok(());
                        }
                        Some(w) => want &= w,
                    }
                }
                same("matrix almost_eq", ma.almost_eq(mb), want)?;
                same("transform almost_eq", Transform::<T>::new(ma, mb).almost_eq(Transform::<T>::new(mb, ma)), want)?;
            }
            Ok(())
        }
        let a: [T; 16] = std::array::from_fn(|j| T::f(bases[(s + j) % bases.len()]));
        let b: [T; 16] = std::array::from_fn(|j| pert(a[j].d(), if j == p { k2 } else { k1 }));
        at::<T, 2>(&a, &b, c)?;
        at::<T, 3>(&a, &b, c)?;
        at::<T, 4>(&a, &b, c)
    });
    let iv: Vec<T> = {
        let mut v: Vec<T> = vec![];
        for b in [0.0, 1.0, -1.0, 2.5, 100.0] {
            for k in [0.0, 0.3, -0.3, 0.9, 1.5, -1.5, 20.0] {
                v.push(pert(b, k));
            }
        }
        v.sort_by(|a, b| a.d().total_cmp(&b.d()));
        v.dedup_by(|a, b| a.d() == b.d());
        v
    };
    let ivs = intervals(&iv);
    let (n, m) = (ivs.len() as u64, iv.len() as u64);
    c.suite(&format!("interval-{}", T::NAME), "every pair of intervals over a perturbation lattice", n * n, |i, c| {
        let mut d = Dec(i);
        let (p, q) = (*d.of(&ivs), *d.of(&ivs));
        let (a, b) = (Interval::new(iv[p.0], iv[p.1]), Interval::new(iv[q.0], iv[q.1]));
        c.note(|| format!("a = {} b = {}", mc::num::iv(&a), mc::num::iv(&b)));
        c.steps(2);
        c.state(Fp::new(i));
        match (model(a.inf, b.inf), model(a.sup, b.sup)) {
            (Some(x), Some(y)) => {
                same("interval almost_eq", AlmostEqual::<Interval<T>>::almost_eq(a, b), x && y)?;
                same("interval almost_eq (swapped)", AlmostEqual::<Interval<T>>::almost_eq(b, a), x && y)
            }
            _ => {
                c.skip();
                Ok(())
            }
        }
    });
    c.suite(&format!("interval-scalar-{}", T::NAME), "every interval against every scalar of the lattice", n * m, |i, c| {
        let mut d = Dec(i);
        let p = *d.of(&ivs);
        let a = Interval::new(iv[p.0], iv[p.1]);
        let k = *d.of(&iv);
        c.note(|| format!("a = {} k = {:e}", mc::num::iv(&a), k.d()));
        c.step();
        c.state(Fp::new(i));
        let inside = a.inf.d() <= k.d() && k.d() <= a.sup.d();
        match (model(a.inf, k), model(a.sup, k)) {
            (Some(x), Some(y)) => same("interval ~ scalar", AlmostEqual::<T>::almost_eq(a, k), x && y && inside),
            _ => {
                c.skip();
                Ok(())
            }
        }
    });
}
macro_rules! ints {
    ($c:ident, $($t:ty),*) => {$(
        let mut v: Vec<$t> = vec![0, 1, 2, 3, 5, 7, 100, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MIN, <$t>::MIN + 1];
        for k in 0..<$t>::BITS - 1 { v.push(1 << k); v.push((1 << k) + 1); v.push(<$t>::MAX - (1 << k)); }
        if <$t>::BITS == 8 { v = (<$t>::MIN..=<$t>::MAX).collect(); }
        let n = v.len() as u64;
        $c.suite(&format!("int-{}", stringify!($t)), "every ordered pair of integers of the alphabet (all of them for 8 bits)", n * n, |i, c| {
            let mut d = Dec(i);
            let (a, b) = (*d.of(&v), *d.of(&v));
            c.note(|| format!("a = {} b = {}", a, b));
            c.step();
            c.state(Fp::new(a as u64).u(b as u64));
            same("integer almost_eq", a.almost_eq(b), a == b)?;
            let z = <$t as Scalar>::zero();
            let (p, q) = (GenericVector::<$t, 3, PointMarker>::new(z, a, z), GenericVector::<$t, 3, PointMarker>::new(z, b, z));
            same("integer point almost_eq", p.almost_eq(q), a == b)
        });
    )*};
}

fn main() {
    let mut c = Check::new("C09");
    pairs::<f32>(&mut c);
    pairs::<f64>(&mut c);
    let cc = &mut c;
    ints!(cc, u8, i8, u16, i16, u32, i32, u64, i64);
    c.assume("comparisons within 8 ulps of a tolerance threshold are not judged (counted as undecided)");
    c.finish();
}
