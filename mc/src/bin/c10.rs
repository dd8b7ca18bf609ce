//! C10 vector / point / normal algebra.
use mc::any::Any;
use mc::*;
use scarlet::math::scalar::{Scalar, SignedScalar};
use scarlet::math::vector::*;
use scarlet::math::vector::{Dimension, InnerProduct, Norm};
use std::fmt::Debug;

trait Num: Scalar + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const SIGNED: bool;
    const INT: bool;
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn r(self) -> f64;
    fn alphabet() -> Vec<Self>;
    fn quot(a: f64, b: f64) -> f64 {
        if Self::INT { (a / b).trunc() } else { a / b }
    }
}
macro_rules! num {
    ($t:ty, $s:expr, $i:expr, $e:expr, $($v:expr),*) => {
        impl Num for $t {
            const NAME: &'static str = stringify!($t);
            const SIGNED: bool = $s;
            const INT: bool = $i;
            const EPS: f64 = $e;
            fn of(x: f64) -> Self { x as $t }
            fn r(self) -> f64 { self as f64 }
            fn alphabet() -> Vec<Self> { vec![$($v),*] }
        }
    };
}
num!(i32, true, true, 0.0, 0, -3, 7, 2, -1);
num!(i64, true, true, 0.0, 0, -3, 7, 2, -1);
num!(u32, false, true, 0.0, 0, 3, 7, 2, 1);
num!(f32, true, false, f32::EPSILON as f64, 0.0, -2.5, 7.0, 0.25, -1.0);
num!(f64, true, false, f64::EPSILON, 0.0, -2.5, 7.0, 0.25, -1.0);

fn eqv<T: Num, const N: usize>(op: &str, got: [T; N], want: [f64; N]) -> Res {
    for i in 0..N {
        // == so that both zeros are the same
        if !(got[i].r() == want[i]) {
            return Err(format!("{}: component {} is {:?}, expected {} (all: {:?})", op, i, got[i], want[i], got));
        }
    }
    Ok(())
}
fn nearv<T: Num, const N: usize>(op: &str, got: [T; N], want: [f64; N]) -> Res {
    for i in 0..N {
        if !((got[i].r() - want[i]).abs() <= 2.0 * T::EPS * want[i].abs()) {
            return Err(format!("{}: component {} is {:?}, expected {} (all: {:?})", op, i, got[i], want[i], got));
        }
    }
    Ok(())
}
fn eqs<T: Num>(op: &str, got: T, want: f64) -> Res {
    if got.r() == want { Ok(()) } else { Err(format!("{}: got {:?}, expected {}", op, got, want)) }
}
fn is(op: &str, ok: bool) -> Res {
    if ok { Ok(()) } else { Err(op.to_string()) }
}

/// facts common to all scalar types and markers
fn common<T: Num, const N: usize, U>(a: [T; N], b: [T; N], s: T, c: &mut Ctx) -> Res {
    type G<T, const N: usize, U> = GenericVector<T, N, U>;
    let (x, y): (G<T, N, U>, G<T, N, U>) = (G::from(a), G::from(b));
    let (ar, br) = (a.map(|v| v.r()), b.map(|v| v.r()));
    let z = |f: &dyn Fn(f64, f64) -> f64| -> [f64; N] { std::array::from_fn(|i| f(ar[i], br[i])) };
    eqv("From<[T; N]>", x.vec, ar)?;
    eqv("clone", x.clone().vec, ar)?;
    eqv("+", (x + y).vec, z(&|p, q| p + q))?;
    let mut m = x;
    m += y;
    eqv("+=", m.vec, z(&|p, q| p + q))?;
    eqv("componentwise *", (x * y).vec, z(&|p, q| p * q))?;
    eqv("min", x.min(y).vec, z(&|p, q| p.min(q)))?;
    eqv("max", x.max(y).vec, z(&|p, q| p.max(q)))?;
    let sr = s.r();
    eqv("* scalar", (x * s).vec, ar.map(|p| p * sr))?;
    if sr != 0.0 {
        nearv("/ scalar", (x / s).vec, ar.map(|p| T::quot(p, sr)))?;
    }
    if br.iter().all(|v| *v != 0.0) {
        nearv("componentwise /", (x / y).vec, z(&T::quot))?;
    }
    is("== must hold exactly for identical components", (x == y) == (ar == br))?;
    is("!= must be the negation of ==", (x != y) == (ar != br))?;
    eqv("default", G::<T, N, U>::default().vec, [0.0; N])?;
    is("DIM", <G<T, N, U> as Dimension>::DIM == N)?;
    for k in 0..N {
        eqs("index", x[k], ar[k])?;
        let mut m = x;
        m[k] = s;
        let mut w = ar;
        w[k] = sr;
        eqv("index_mut", m.vec, w)?;
        let mut m = x;
        let mut w = ar;
        w[k] = sr;
        let named = match k {
            0 => { *m.x_mut() = s; x.x() }
            1 => { *m.y_mut() = s; x.y() }
            2 => { *m.z_mut() = s; x.z() }
            _ => { *m.w_mut() = s; x.w() }
        };
        eqs("named accessor", named, ar[k])?;
        eqv("named mutable accessor", m.vec, w)?;
    }
    c.steps(10 + 4 * N as u64);
    Ok(())
}
fn signed<T: Num + SignedScalar, const N: usize, U, I, J>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    let x = GenericVector::<T, N, U>::from(a);
    let (ar, br) = (a.map(|v| v.r()), b.map(|v| v.r()));
    let dot: f64 = (0..N).map(|i| ar[i] * br[i]).sum();
    eqv("neg", (-x).vec, ar.map(|p| -p))?;
    eqs("dot, same kind", x.dot(GenericVector::<T, N, U>::from(b)), dot)?;
    eqs("dot, other kind", x.dot(GenericVector::<T, N, I>::from(b)), dot)?;
    eqs("dot, third kind", x.dot(GenericVector::<T, N, J>::from(b)), dot)?;
    eqs("InnerProduct::dot", InnerProduct::dot(x, GenericVector::<T, N, I>::from(b)), dot)?;
    eqs("square_norm", x.square_norm(), ar.iter().map(|p| p * p).sum())?;
    eqs("Norm::square_norm", Norm::square_norm(x), ar.iter().map(|p| p * p).sum())?;
    c.steps(7);
    Ok(())
}
/// subtraction, conversions, point/vector mixes (subtractions skipped where an unsigned would wrap)
fn mixed<T: Num, const N: usize>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    let (ar, br) = (a.map(|v| v.r()), b.map(|v| v.r()));
    let z = |f: &dyn Fn(f64, f64) -> f64| -> [f64; N] { std::array::from_fn(|i| f(ar[i], br[i])) };
    let (va, vb) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let (pa, pb) = (Point::<T, N>::from(a), Point::<T, N>::from(b));
    eqv("Vector from Point", Vector::<T, N>::from(pa).vec, ar)?;
    eqv("Vector from Normal", Vector::<T, N>::from(Normal::<T, N>::from(a)).vec, ar)?;
    eqv("Point from Vector", Point::<T, N>::from(va).vec, ar)?;
    eqv("Normal from Vector", Normal::<T, N>::from(va).vec, ar)?;
    let s: Point<T, N> = pa + vb;
    eqv("point + vector", s.vec, z(&|p, q| p + q))?;
    let s: Point<T, N> = va + pb;
    eqv("vector + point", s.vec, z(&|p, q| p + q))?;
    c.steps(6);
    if T::SIGNED || (0..N).all(|i| ar[i] >= br[i]) {
        eqv("vector - vector", (va - vb).vec, z(&|p, q| p - q))?;
        let mut m = va;
        m -= vb;
        eqv("-=", m.vec, z(&|p, q| p - q))?;
        let s: Vector<T, N> = pa - pb;
        eqv("point - point", s.vec, z(&|p, q| p - q))?;
        let s: Point<T, N> = pa - vb;
        eqv("point - vector", s.vec, z(&|p, q| p - q))?;
        c.steps(4);
    }
    Ok(())
}
fn dist<T: Num + SignedScalar, const N: usize>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    let (va, vb) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let want = (0..N).map(|i| (a[i].r() - b[i].r()).powi(2)).sum();
    eqs("square_distance", va.square_distance(vb), want)?;
    eqs("Norm::square_distance", Norm::square_distance(va, vb), want)?;
    c.steps(2);
    Ok(())
}
fn cross<T: Num, U>(a: [T; 3], b: [T; 3], c: &mut Ctx) -> Res {
    let (p, q) = (a.map(|v| v.r()), b.map(|v| v.r()));
    let w = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]];
    // differences of an unsigned type wrap below zero
    if !T::SIGNED && w.iter().any(|x| *x < 0.0) {
        return Ok(());
    }
    c.step();
    let g = GenericVector::<T, 3, U>::from(a).cross(GenericVector::<T, 3, U>::from(b));
    eqv("cross", g.vec, w)
}
fn pick<T: Num, const N: usize>(d: &mut Dec, al: &[T]) -> ([T; N], [T; N], T) {
    let a = std::array::from_fn(|_| *d.of(al));
    let b = std::array::from_fn(|_| *d.of(al));
    (a, b, *d.of(al))
}
fn all<T: Num, const N: usize>(c: &mut Check, alpha: &[T], more: impl Fn([T; N], [T; N], &mut Ctx) -> Res + Sync) {
    let al = alpha.to_vec();
    let n = (al.len() as u64).pow(2 * N as u32 + 1);
    c.suite(&format!("{}-dim{}", T::NAME, N), "every pair of component tuples and every scalar over the alphabet, for all three kinds", n, |i, c| {
        let (a, b, s) = pick::<T, N>(&mut Dec(i), &al);
        c.note(|| format!("a = {:?} b = {:?} s = {:?}", a, b, s));
        c.state(Fp::new(i));
        common::<T, N, VectorMarker>(a, b, s, c)?;
        common::<T, N, PointMarker>(a, b, s, c)?;
        common::<T, N, NormalMarker>(a, b, s, c)?;
        mixed::<T, N>(a, b, c)?;
        more(a, b, c)
    });
}
fn signed_all<T: Num + SignedScalar, const N: usize>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    signed::<T, N, VectorMarker, PointMarker, NormalMarker>(a, b, c)?;
    signed::<T, N, PointMarker, NormalMarker, VectorMarker>(a, b, c)?;
    signed::<T, N, NormalMarker, VectorMarker, PointMarker>(a, b, c)?;
    dist::<T, N>(a, b, c)
}
fn news<T: Num>(a: [T; 4]) -> Res {
    let r = a.map(|v| v.r());
    eqv("new/2", Vector2::new(a[0], a[1]).vec, [r[0], r[1]])?;
    eqv("new/2", Point2::new(a[0], a[1]).vec, [r[0], r[1]])?;
    eqv("new/3", Vector3::new(a[0], a[1], a[2]).vec, [r[0], r[1], r[2]])?;
    eqv("new/3", Point3::new(a[0], a[1], a[2]).vec, [r[0], r[1], r[2]])?;
    eqv("new/3", Normal3::new(a[0], a[1], a[2]).vec, [r[0], r[1], r[2]])?;
    eqv("new/4", Vector4::new(a[0], a[1], a[2], a[3]).vec, r)
}
fn unsigned_type<T: Num>(c: &mut Check) {
    let al = T::alphabet();
    let k = c.by(4, 5);
    all::<T, 2>(c, &al, |_, _, _| Ok(()));
    all::<T, 3>(c, &al, |a, b, c| cross::<T, VectorMarker>(a, b, c));
    all::<T, 4>(c, &al[..k], |a, _, _| news(a));
}
fn signed_type<T: Num + SignedScalar>(c: &mut Check) {
    let al = T::alphabet();
    let k = c.by(4, 5);
    all::<T, 2>(c, &al, signed_all);
    all::<T, 3>(c, &al, |a, b, c| {
        signed_all(a, b, c)?;
        cross::<T, VectorMarker>(a, b, c)?;
        cross::<T, PointMarker>(a, b, c)?;
        cross::<T, NormalMarker>(a, b, c)
    });
    all::<T, 4>(c, &al[..k], |a, b, c| {
        news(a)?;
        signed_all(a, b, c)
    });
}
/// rounding stays within the component: wildly different magnitudes do not mix
fn magnitudes<T: Num + SignedScalar + mc::num::Fl>(c: &mut Check) {
    let f = T::FMT;
    let tiny = mc::exact::ldexp(1, f.emin + 3);
    let al: Vec<T> = [1.0, -0.3, f.max / 4.0, 1e-30, tiny, -1e25, 1.0 / 3.0].iter().map(|x| <T as Num>::of(*x)).collect();
    let n = (al.len() as u64).pow(6);
    c.suite(&format!("magnitudes-{}", <T as Num>::NAME), "every pair of 3-tuples over a magnitude ladder (subnormal to almost largest): each component is the correctly rounded scalar operation", n, |i, c| {
        let mut d = Dec(i);
        let a: [T; 3] = std::array::from_fn(|_| *d.of(&al));
        let b: [T; 3] = std::array::from_fn(|_| *d.of(&al));
        c.note(|| format!("a = {:?} b = {:?}", a, b));
        c.state(Fp::new(i));
        c.steps(6);
        let (x, y) = (Vector3::<T>::from(a), Vector3::<T>::from(b));
        let near = |op: &str, g: T, w: T| -> Res {
            let (g, w) = (g.d(), w.d());
            let ok = g == w || (g - w).abs() <= 2.0 * <T as Num>::EPS * w.abs() + 2.0 * mc::exact::ldexp(1, f.emin);
            if ok { Ok(()) } else { Err(format!("{}: got {:e}, expected {:e}", op, g, w)) }
        };
        for k in 0..3 {
            near("+", (x + y)[k], a[k] + b[k])?;
            near("-", (x - y)[k], a[k] - b[k])?;
            near("*", (x * y)[k], a[k] * b[k])?;
            near("/", (x / y)[k], a[k] / b[k])?;
            near("* scalar", (x * b[0])[k], a[k] * b[0])?;
            near("/ scalar", (x / b[0])[k], a[k] / b[0])?;
            near("min", x.min(y)[k], if a[k] < b[k] { a[k] } else { b[k] })?;
            near("max", x.max(y)[k], if a[k] > b[k] { a[k] } else { b[k] })?;
        }
        Ok(())
    });
}

fn ok<T: Any>(op: &str, k: usize, got: T, want: T, mag: f64) -> Res {
    if got.close(want, mag) { Ok(()) } else { Err(format!("{}: component {} is {:?}, expected {:?}", op, k, got, want)) }
}
fn arith<T: Any, const N: usize, U>(a: [T; N], b: [T; N], s: T, c: &mut Ctx) -> Res {
    type G<T, const N: usize, U> = GenericVector<T, N, U>;
    let (x, y): (G<T, N, U>, G<T, N, U>) = (G::from(a), G::from(b));
    let each = |op: &str, run: &dyn Fn() -> [T; N], want: &dyn Fn(usize) -> Option<T>| -> Res {
        let mut w = [s; N];
        for k in 0..N {
            match want(k) {
                Some(v) => w[k] = v,
                None => return Ok(()),
            }
        }
        let g = run();
        for k in 0..N {
            ok(op, k, g[k], w[k], 0.0)?;
        }
        Ok(())
    };
    each("+", &|| (x + y).vec, &|k| a[k].cadd(b[k]))?;
    each("+=", &|| { let mut m = x; m += y; m.vec }, &|k| a[k].cadd(b[k]))?;
    each("componentwise *", &|| (x * y).vec, &|k| a[k].cmul(b[k]))?;
    each("componentwise /", &|| (x / y).vec, &|k| a[k].cdiv(b[k]))?;
    each("* scalar", &|| (x * s).vec, &|k| a[k].cmul(s))?;
    each("/ scalar", &|| (x / s).vec, &|k| a[k].cdiv(s))?;
    each("min", &|| x.min(y).vec, &|k| Some(if b[k].lt(a[k]) { b[k] } else { a[k] }))?;
    each("max", &|| x.max(y).vec, &|k| Some(if a[k].lt(b[k]) { b[k] } else { a[k] }))?;
    is("== must hold exactly for identical components", (x == y) == (a == b))?;
    is("!= must be the negation of ==", (x != y) == (a != b))?;
    for k in 0..N {
        let mut m = x;
        m[k] = s;
        is("index_mut", (0..N).all(|j| m[j] == if j == k { s } else { a[j] }))?;
        let mut m = x;
        match k {
            0 => *m.x_mut() = s,
            1 => *m.y_mut() = s,
            2 => *m.z_mut() = s,
            _ => *m.w_mut() = s,
        }
        let named = [m.x(), m.y(), if N > 2 { m.z() } else { s }, if N > 3 { m.w() } else { s }];
        is("named accessors", (0..N).all(|j| named[j] == if j == k { s } else { a[j] }))?;
    }
    c.steps(10);
    Ok(())
}
fn arith_mixed<T: Any, const N: usize>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    let (va, vb) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
    let (pa, pb) = (Point::<T, N>::from(a), Point::<T, N>::from(b));
    let eq = |op: &str, g: [T; N], w: &[T]| -> Res {
        for k in 0..N {
            ok(op, k, g[k], w[k], 0.0)?;
        }
        Ok(())
    };
    eq("Vector from Point", Vector::<T, N>::from(pa).vec, &a)?;
    eq("Vector from Normal", Vector::<T, N>::from(Normal::<T, N>::from(a)).vec, &a)?;
    eq("Point from Vector", Point::<T, N>::from(va).vec, &a)?;
    eq("Normal from Vector", Normal::<T, N>::from(va).vec, &a)?;
    let mut w = a;
    if (0..N).all(|k| a[k].cadd(b[k]).map(|v| w[k] = v).is_some()) {
        let s: Point<T, N> = pa + vb;
        eq("point + vector", s.vec, &w)?;
        let s: Point<T, N> = va + pb;
        eq("vector + point", s.vec, &w)?;
    }
    if (0..N).all(|k| a[k].csub(b[k]).map(|v| w[k] = v).is_some()) {
        eq("vector - vector", (va - vb).vec, &w)?;
        let mut m = va;
        m -= vb;
        eq("-=", m.vec, &w)?;
        let s: Vector<T, N> = pa - pb;
        eq("point - point", s.vec, &w)?;
        let s: Point<T, N> = pa - vb;
        eq("point - vector", s.vec, &w)?;
    }
    c.steps(10);
    Ok(())
}
fn arith_cross<T: Any, U>(a: [T; 3], b: [T; 3], c: &mut Ctx) -> Res {
    let t = |i: usize, j: usize| T::sum(&[(false, a[i], b[j]), (true, a[j], b[i])]);
    if let (Some(u), Some(v), Some(w)) = (t(1, 2), t(2, 0), t(0, 1)) {
        let g = GenericVector::<T, 3, U>::from(a).cross(GenericVector::<T, 3, U>::from(b));
        c.step();
        ok("cross", 0, g[0], u.0, u.1)?;
        ok("cross", 1, g[1], v.0, v.1)?;
        ok("cross", 2, g[2], w.0, w.1)?;
    }
    Ok(())
}
fn arith_signed<T: Any + SignedScalar, const N: usize, U, I, J>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    let x = GenericVector::<T, N, U>::from(a);
    let y = GenericVector::<T, N, U>::from(b);
    let zero = T::zero();
    let mut w = a;
    if (0..N).all(|k| zero.csub(a[k]).map(|v| w[k] = v).is_some()) {
        is("neg", (-x).vec == w)?;
    }
    let mut t = [(false, zero, zero); N];
    for k in 0..N {
        t[k] = (false, a[k], b[k]);
    }
    if let Some((w, m)) = T::sum(&t) {
        ok("dot, same kind", 0, x.dot(y), w, m)?;
        ok("dot, other kind", 0, x.dot(GenericVector::<T, N, I>::from(b)), w, m)?;
        ok("dot, third kind", 0, x.dot(GenericVector::<T, N, J>::from(b)), w, m)?;
        ok("InnerProduct::dot", 0, InnerProduct::dot(x, GenericVector::<T, N, I>::from(b)), w, m)?;
    }
    for k in 0..N {
        t[k] = (false, a[k], a[k]);
    }
    if let Some((w, m)) = T::sum(&t) {
        ok("square_norm", 0, x.square_norm(), w, m)?;
        ok("Norm::square_norm", 0, Norm::square_norm(x), w, m)?;
    }
    c.steps(7);
    Ok(())
}
fn arith_dist<T: Any + SignedScalar, const N: usize>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    let mut t = [(false, T::zero(), T::zero()); N];
    for k in 0..N {
        let Some(d) = a[k].csub(b[k]) else { return Ok(()) };
        t[k] = (false, d, d);
    }
    if let Some((w, m)) = T::sum(&t) {
        let (va, vb) = (Vector::<T, N>::from(a), Vector::<T, N>::from(b));
        ok("square_distance", 0, va.square_distance(vb), w, m)?;
        ok("Norm::square_distance", 0, Norm::square_distance(va, vb), w, m)?;
        c.steps(2);
    }
    Ok(())
}
/// every pair (rich alphabet) and every three (few values) of the components and the scalar
fn sweep<T: Any, const N: usize, const M: usize>(c: &mut Check, more: impl Fn([T; N], [T; N], &mut Ctx) -> Res + Sync) {
    assert!(M == 2 * N + 1);
    let (rich, few) = (T::rich(!c.quick()), T::few());
    let idx = |n: usize| -> [Vec<f64>; M] { std::array::from_fn(|_| (0..n).map(|k| k as f64).collect()) };
    let bases = |n: usize| -> Vec<[f64; M]> { vec![std::array::from_fn(|k| ((n / 2 + 3 * k + 1) % n) as f64), std::array::from_fn(|k| ((n / 2 + 1 + k % 2) % n) as f64)] };
    let two = alpha::Sweep::new(2, bases(rich.len()), idx(rich.len()));
    let three = alpha::Sweep::new(3, bases(few.len()), idx(few.len()));
    for (nm, al, sw) in [("pairs", &rich, &two), ("triples", &few, &three)] {
        c.suite(&format!("{}-{}-dim{}", nm, T::NAME, N), "every pair (over the rich alphabet of the type) or every three (over a few values) of the components of two vectors and a scalar varied, all three kinds; operations whose exact result is not representable are not judged", sw.n(), |i, c| {
            let q: [T; M] = sw.get(i).map(|x| al[x as usize]);
            let (a, b, s): ([T; N], [T; N], T) = (std::array::from_fn(|k| q[k]), std::array::from_fn(|k| q[N + k]), q[2 * N]);
            c.note(|| format!("a = {:?} b = {:?} s = {:?}", a, b, s));
            c.distinct(1);
            arith::<T, N, VectorMarker>(a, b, s, c)?;
            arith::<T, N, PointMarker>(a, b, s, c)?;
            arith::<T, N, NormalMarker>(a, b, s, c)?;
            arith_mixed(a, b, c)?;
            more(a, b, c)
        });
    }
}
fn arith_signed_all<T: Any + SignedScalar, const N: usize>(a: [T; N], b: [T; N], c: &mut Ctx) -> Res {
    arith_signed::<T, N, VectorMarker, PointMarker, NormalMarker>(a, b, c)?;
    arith_signed::<T, N, PointMarker, NormalMarker, VectorMarker>(a, b, c)?;
    arith_signed::<T, N, NormalMarker, VectorMarker, PointMarker>(a, b, c)?;
    arith_dist::<T, N>(a, b, c)
}
fn arith_cross_all<T: Any>(a: [T; 3], b: [T; 3], c: &mut Ctx) -> Res {
    arith_cross::<T, VectorMarker>(a, b, c)?;
    arith_cross::<T, PointMarker>(a, b, c)?;
    arith_cross::<T, NormalMarker>(a, b, c)
}
fn sweep_unsigned<T: Any>(c: &mut Check) {
    sweep::<T, 2, 5>(c, |_, _, _| Ok(()));
    sweep::<T, 3, 7>(c, arith_cross_all);
    sweep::<T, 4, 9>(c, |_, _, _| Ok(()));
}
fn sweep_signed<T: Any + SignedScalar>(c: &mut Check) {
    sweep::<T, 2, 5>(c, arith_signed_all);
    sweep::<T, 3, 7>(c, |a, b, c| {
        arith_signed_all(a, b, c)?;
        arith_cross_all(a, b, c)
    });
    sweep::<T, 4, 9>(c, arith_signed_all);
}
fn main() {
    let mut c = Check::new("C10");
    sweep_unsigned::<u8>(&mut c);
    sweep_unsigned::<u16>(&mut c);
    sweep_unsigned::<u32>(&mut c);
    sweep_unsigned::<u64>(&mut c);
    sweep_signed::<i8>(&mut c);
    sweep_signed::<i16>(&mut c);
    sweep_signed::<i32>(&mut c);
    sweep_signed::<i64>(&mut c);
    sweep_signed::<f32>(&mut c);
    sweep_signed::<f64>(&mut c);
    signed_type::<i32>(&mut c);
    unsigned_type::<u32>(&mut c);
    signed_type::<f32>(&mut c);
    signed_type::<f64>(&mut c);
    signed_type::<i64>(&mut c);
    magnitudes::<f32>(&mut c);
    magnitudes::<f64>(&mut c);
    c.assume("the scalar operations +, -, *, / of the built-in types are those of the Rust language");
    c.finish();
}
