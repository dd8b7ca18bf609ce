//! C28 interval-valued vectors, rays and transforms enclose their exact counterparts.
use mc::num::*;
use mc::refmath::*;
use mc::*;
use scarlet::geometry::ray::Ray;
use scarlet::math::interval::Interval;
use scarlet::math::vector::{Normal3, Point3, Vector3};

type I<T> = Interval<T>;
type W3 = [W; 3];

fn mem<T: Fl>(r: &I<T>, w: W) -> Res {
    let (l, h) = (r.inf.d(), r.sup.d());
    if !(l <= h) {
        return Err(format!("{} is not a valid interval", iv(r)));
    }
    if w.ok() && (w.certainly_lt(l) || w.certainly_gt(h)) {
        return Err(format!("{} does not contain {:e} (+ {:e})", iv(r), w.hi, w.lo));
    }
    Ok(())
}
fn mem3<T: Fl>(what: &str, r: &[I<T>; 3], w: W3) -> Res {
    for k in 0..3 {
        mem(&r[k], w[k]).map_err(|e| format!("{}, component {}: {}", what, k, e))?;
    }
    Ok(())
}
/// members of an interval: ends, and zero or the midpoint
fn members<T: Fl>(x: &I<T>) -> [f64; 3] {
    let (a, b) = (x.inf.d(), x.sup.d());
    let m = if a <= 0.0 && b >= 0.0 { 0.0 } else { T::f(a / 2.0 + b / 2.0).d().clamp(a, b) };
    [a, b, m]
}
fn members3<T: Fl>(v: &[I<T>; 3]) -> Vec<V> {
    let m: Vec<[f64; 3]> = v.iter().map(members).collect();
    let mut r = vec![];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                let p = [m[0][i], m[1][j], m[2][k]];
                if !r.contains(&p) {
                    r.push(p);
                }
            }
        }
    }
    r
}
fn w3(v: V) -> W3 {
    v.map(W::new)
}
fn wdot(a: W3, b: W3) -> W {
    a[0].mul(b[0]).add(a[1].mul(b[1])).add(a[2].mul(b[2]))
}
fn z3(a: W3, b: W3, f: impl Fn(W, W) -> W) -> W3 {
    [f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])]
}

fn comps<T: Fl>(full: bool) -> Vec<I<T>> {
    let t = |a: f64, b: f64| I::new(T::f(a), T::f(b));
    let mut v = vec![t(0.0, 0.0), t(1.0, 1.0), t(-0.3, -0.3), t(-1.0, 2.0), t(0.1, 0.7), t(-7.3, -3.1), t(0.0, 1e-3), t(1e5, 1.0001e5)];
    if full {
        v.extend([t(-1e-3, 0.0), t(1.0, 1.0 + T::EPS), t(-1e-20, 1e-20), t(-1e8, 3.0)]);
    }
    v
}
fn vecs<T: Fl>(c: &[I<T>], i: usize) -> [I<T>; 3] {
    let n = c.len();
    [c[i % n], c[i / n % n], c[i / n / n]]
}
fn show<T: Fl>(v: &[I<T>; 3]) -> String {
    format!("({}, {}, {})", iv(&v[0]), iv(&v[1]), iv(&v[2]))
}

fn single<T: Fl>(a: [I<T>; 3], c: &mut Ctx) -> Res {
    let v = Vector3::<I<T>>::from(a);
    let ms = members3(&a);
    let (sq, nm) = (v.square_norm(), v.norm());
    let zero = a.iter().all(|x| x.inf.d() <= 0.0 && x.sup.d() >= 0.0);
    let unit = if zero { None } else { Some(v.normalize()) };
    let nunit = if zero { None } else { Some(Normal3::<I<T>>::from(a).normalize()) };
    c.steps(4);
    for p in &ms {
        let w = w3(*p);
        let s = wdot(w, w);
        mem(&sq, s).map_err(|e| format!("squared norm of {:?}: {}", p, e))?;
        mem(&nm, s.sqrt()).map_err(|e| format!("norm of {:?}: {}", p, e))?;
        if let (Some(u), Some(nu)) = (&unit, &nunit) {
            let n = s.sqrt();
            mem3("normalized vector", &u.vec, w.map(|x| x.div(n)))?;
            mem3("normalized normal", &nu.vec, w.map(|x| x.div(n)))?;
        }
    }
    if !(nm.inf.d() >= -1e-30) {
        return Err(format!("the norm {} may be negative", iv(&nm)));
    }
    // scalars, exact and interval
    let neg = -v;
    for k in [2.0, -0.7, 3e4, 1e-3] {
        let k = T::f(k);
        let (m, d) = (v * k, v / k);
        let ki = I::new(T::f((k.d() * 0.9).min(k.d() * 1.1)), T::f((k.d() * 0.9).max(k.d() * 1.1)));
        let (mi, di) = (v * ki, v / ki);
        c.steps(4);
        for p in &ms {
            let (w, kw) = (w3(*p), W::new(k.d()));
            mem3("negated vector", &neg.vec, w.map(W::neg))?;
            mem3("vector times scalar", &m.vec, w.map(|x| x.mul(kw)))?;
            mem3("vector over scalar", &d.vec, w.map(|x| x.div(kw)))?;
            for q in members(&ki) {
                let q = W::new(q);
                mem3("vector times interval", &mi.vec, w.map(|x| x.mul(q)))?;
                mem3("vector over interval", &di.vec, w.map(|x| x.div(q)))?;
            }
        }
    }
    Ok(())
}
fn pair<T: Fl>(a: [I<T>; 3], b: [I<T>; 3], c: &mut Ctx) -> Res {
    let (x, y) = (Vector3::<I<T>>::from(a), Vector3::<I<T>>::from(b));
    let (px, py) = (Point3::<I<T>>::from(a), Point3::<I<T>>::from(b));
    let (s, d, dt, cr) = (x + y, x - y, x.dot(y), x.cross(y));
    let (pp, pa, ps) = (px - py, px + y, px - y);
    let (sd, dd) = (x.square_distance(y), x.distance(y));
    c.steps(9);
    let (ma, mb) = (members3(&a), members3(&b));
    for p in &ma {
        for q in &mb {
            let (v, w) = (w3(*p), w3(*q));
            let (ws, wd) = (z3(v, w, W::add), z3(v, w, W::sub));
            mem3("sum", &s.vec, ws)?;
            mem3("difference", &d.vec, wd)?;
            mem3("point + vector", &pa.vec, ws)?;
            mem3("point - vector", &ps.vec, wd)?;
            mem3("point - point", &pp.vec, wd)?;
            mem(&dt, wdot(v, w)).map_err(|e| format!("dot product of {:?} and {:?}: {}", p, q, e))?;
            let k = |i: usize, j: usize| v[i].mul(w[j]).sub(v[j].mul(w[i]));
            mem3("cross product", &cr.vec, [k(1, 2), k(2, 0), k(0, 1)])?;
            let e = wdot(wd, wd);
            mem(&sd, e).map_err(|e| format!("squared distance: {}", e))?;
            mem(&dd, e.sqrt()).map_err(|e| format!("distance: {}", e))?;
        }
    }
    // a ray with this origin and direction
    let r = Ray::new(px, y, I::new(T::f(0.0), T::f(10.0)));
    for t in [I::new(T::f(0.3), T::f(0.3)), I::new(T::f(0.25), T::f(1.5)), I::new(T::f(0.0), T::f(9.9))] {
        let e = r.eval(t);
        c.step();
        for p in &ma {
            for q in &mb {
                for k in members(&t) {
                    let k = W::new(k);
                    let w = z3(w3(*p), w3(*q), |a, b| a.add(b.mul(k)));
                    mem3("ray evaluation", &e.vec, w)?;
                }
            }
        }
    }
    Ok(())
}
fn mapped<T: Fl>(st: &St<T>, a: [I<T>; 3], b: [I<T>; 3], c: &mut Ctx) -> Res {
    let ms = members3(&a);
    let (f, g) = (to_m(&st.t.matrix()), to_m(&st.t.inverse_matrix()));
    let (p, v, n) = (Point3::<I<T>>::from(a), Vector3::<I<T>>::from(a), Normal3::<I<T>>::from(a));
    let row = |m: &M, i: usize, x: &V| W::new(m[i][0]).mul(W::new(x[0])).add(W::new(m[i][1]).mul(W::new(x[1]))).add(W::new(m[i][2]).mul(W::new(x[2])));
    let point = |m: &M, x: &V| -> Option<W3> {
        let h = |i: usize| row(m, i, x).add(W::new(m[i][3]));
        let w = h(3);
        if w.hi.abs() < 1e-6 {
            return None;
        }
        Some([h(0).div(w), h(1).div(w), h(2).div(w)])
    };
    for (name, m, minv, rp) in [("map", &f, &g, st.t.map(p)), ("map_inverse", &g, &f, st.t.map_inverse(p))] {
        let rp: Point3<I<T>> = rp;
        c.step();
        for x in &ms {
            if let Some(w) = point(m, x) {
                mem3("point", &rp.vec, w).map_err(|e| format!("{} of {:?}: {}", name, x, e))?;
            }
        }
        if !st.affine {
            continue;
        }
        let fw = name == "map";
        let rv: Vector3<I<T>> = if fw { st.t.map(v) } else { st.t.map_inverse(v) };
        let rn: Normal3<I<T>> = if fw { st.t.map(n) } else { st.t.map_inverse(n) };
        let ray = Ray::new(p, Vector3::<I<T>>::from(b), I::new(T::f(0.5), T::f(2.5)));
        let rr: Ray<I<T>> = if fw { st.t.map(ray) } else { st.t.map_inverse(ray) };
        c.steps(3);
        if rr.tmax.inf.d() != 0.5 || rr.tmax.sup.d() != 2.5 {
            return Err(format!("{} of a ray changes tmax to {}", name, iv(&rr.tmax)));
        }
        let mt = transpose(minv);
        for x in &ms {
            mem3("vector", &rv.vec, [row(m, 0, x), row(m, 1, x), row(m, 2, x)]).map_err(|e| format!("{} of {:?}: {}", name, x, e))?;
            mem3("normal", &rn.vec, [row(&mt, 0, x), row(&mt, 1, x), row(&mt, 2, x)]).map_err(|e| format!("{} of {:?}: {}", name, x, e))?;
            mem3("ray origin", &rr.origin.vec, point(m, x).unwrap()).map_err(|e| format!("{} of {:?}: {}", name, x, e))?;
        }
        for x in &members3(&b) {
            mem3("ray direction", &rr.direction.vec, [row(m, 0, x), row(m, 1, x), row(m, 2, x)]).map_err(|e| format!("{} of {:?}: {}", name, x, e))?;
        }
    }
    Ok(())
}
/// one component of each kind of vector in two, three and four dimensions
fn rounding<T: Fl>(c: &mut Check) {
    use scarlet::math::vector::{Normal, Point, Vector};
    let top = c.by(48usize, 120);
    let mut v: Vec<f64> = (1..=top).map(|k| k as f64).collect();
    v.extend((0..12).map(|k| 0.1 * 1.37f64.powi(k)));
    let v: Vec<T> = v.into_iter().flat_map(|x| [T::f(x), T::f(-x)]).collect();
    let n = v.len() as u64;
    fn one<T: Fl, const N: usize>(a: T, b: T, at: usize, c: &mut Ctx) -> Res {
        let put = |x: T, y: T| -> [I<T>; N] { std::array::from_fn(|k| I::from(if k == at { x } else { y })) };
        let (x, y) = (put(a, T::f(1.0)), put(b, T::f(2.0)));
        let (wa, wb) = (W::new(a.d()), W::new(b.d()));
        macro_rules! each {
            ($k:ident) => {
                let (p, q) = ($k::<I<T>, N>::from(x), $k::<I<T>, N>::from(y));
                c.steps(7);
                let mut s = p;
                s += q;
                for (nm, r, w) in [
                    ("times scalar", p * b, wa.mul(wb)),
                    ("over scalar", p / b, wa.div(wb)),
                    ("times interval", p * I::from(b), wa.mul(wb)),
                    ("over interval", p / I::from(b), wa.div(wb)),
                    ("sum", p + q, wa.add(wb)),
                    ("assigned sum", s, wa.add(wb)),
                    ("componentwise product", p * q, wa.mul(wb)),
                    ("componentwise quotient", p / q, wa.div(wb)),
                ] {
                    mem(&r.vec[at], w).map_err(|e| format!("{} {} in {} dimensions: {}", stringify!($k), nm, N, e))?;
                }
                let d = p.dot(q);
                mem(&d, wa.mul(wb).add(W::new(2.0 * (N - 1) as f64))).map_err(|e| format!("dot product in {} dimensions: {}", N, e))?;
                let s = p.square_norm();
                mem(&s, wa.mul(wa).add(W::new((N - 1) as f64))).map_err(|e| format!("squared norm in {} dimensions: {}", N, e))?;
                mem(&p.norm(), wa.mul(wa).add(W::new((N - 1) as f64)).sqrt()).map_err(|e| format!("norm in {} dimensions: {}", N, e))?;
                let u = p.normalize();
                mem(&u.vec[at], wa.div(wa.mul(wa).add(W::new((N - 1) as f64)).sqrt())).map_err(|e| format!("normalized in {} dimensions: {}", N, e))?;
            };
        }
        each!(Vector);
        each!(Point);
        each!(Normal);
        let (p, q) = (Vector::<I<T>, N>::from(x), Vector::<I<T>, N>::from(y));
        mem(&(p - q).vec[at], wa.sub(wb)).map_err(|e| format!("difference: {}", e))?;
        let mut s = p;
        s -= q;
        mem(&s.vec[at], wa.sub(wb)).map_err(|e| format!("assigned difference: {}", e))?;
        let w = wa.sub(wb);
        mem(&p.square_distance(q), w.mul(w).add(W::new((N - 1) as f64))).map_err(|e| format!("squared distance: {}", e))
    }
    c.suite(&format!("rounding-{}", T::NAME), "every pair of small integers and inexact values as the components of vectors, points and normals of exact intervals in two, three and four dimensions, at every position: every operation covers its own rounding", n * n, move |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&v), *d.of(&v));
        c.note(|| format!("{:e} and {:e}", a.d(), b.d()));
        c.distinct(1);
        for at in 0..4 {
            if at < 2 {
                one::<T, 2>(a, b, at, c)?;
            }
            if at < 3 {
                one::<T, 3>(a, b, at, c)?;
            }
            one::<T, 4>(a, b, at, c)?;
        }
        Ok(())
    });
}
fn width<T: Fl>(c: &mut Check) {
    let v = comps::<T>(true);
    let n = v.len().pow(3) as u64;
    let vr = &v;
    c.suite(&format!("single-{}", T::NAME), "every vector of three interval components (points, narrow, wide, around and touching zero, large); norms, normalization, scaling; every combination of member ends and midpoints", n, move |i, c| {
        let a = vecs(vr, i as usize);
        c.note(|| show(&a));
        c.distinct(1);
        single(a, c)
    });
    let v = if c.quick() { comps::<T>(false) } else { comps::<T>(true)[..10].to_vec() };
    let n = v.len().pow(3) as u64;
    let vr = &v;
    c.suite(&format!("pair-{}", T::NAME), "every pair of such vectors; sums, differences, dot and cross products, distances, point/vector mixes, ray evaluation", n * n, move |i, c| {
        let (a, b) = (vecs(vr, (i % n) as usize), vecs(vr, (i / n) as usize));
        c.note(|| format!("{} and {}", show(&a), show(&b)));
        c.distinct(1);
        pair(a, b, c)
    });
    rounding::<T>(c);
    let gens = generators(true);
    let depth = c.by(2, 3);
    let mut sts: Vec<St<T>> = c.prepare("transforms", || explore::<T>(&gens, depth));
    sts.extend(extremes().iter().enumerate().flat_map(|(i, g)| {
        let s = St::<T>::gen(g, format!("x{}", i));
        [s.inverse(), s]
    }));
    let sr = &sts;
    let v = comps::<T>(false);
    let n = v.len().pow(3) as u64;
    let vr = &v;
    c.suite(&format!("mapped-{}", T::NAME), "every transform word up to the depth (perspective included for points) x every interval vector, forward and inverse; points, vectors, normals, rays", n * sts.len() as u64, move |i, c| {
        let a = vecs(vr, (i % n) as usize);
        let b = vecs(vr, ((i * 97 + 31) % n) as usize);
        let st = &sr[(i / n) as usize];
        c.note(|| format!("transform {} of {}; ray direction {}", st.word, show(&a), show(&b)));
        c.distinct(1);
        mapped(st, a, b, c)
    });
    // components given by centre and width
    let few = c.by(1, 2) == 2;
    let wide: Vec<I<T>> = {
        let mut v = vec![];
        for m in alpha::coarse() {
            v.push(I::from(T::f(m)));
            for w in if few { vec![3e-7, 1e-4, 0.2, 1.0, 2.0] } else { vec![1e-4, 1.0, 2.0] } {
                v.push(I::new(T::f(m - m.abs() * w), T::f(m + m.abs() * w)));
            }
        }
        v
    };
    let wr = &wide;
    let at = |k: f64, r: f64| I::new(T::f(k * (1.0 - r * k.signum())), T::f(k * (1.0 + r * k.signum())));
    let bases = [[at(0.3, 0.0), at(-0.7, 0.0), at(1.9, 0.0)], [at(3.0, 0.1), at(40.0, 1e-5), at(-0.02, 0.5)], [at(0.0, 0.0), at(0.0, 0.0), at(1.0, 0.0)]];
    let br = &bases;
    let nw = wide.len() as u64;
    c.suite(&format!("single-centred-{}", T::NAME), "every two components of a vector over intervals given by centre and width (coarse alphabet; points, narrow, touching and straddling zero), around three base vectors", 9 * nw * nw, move |i, c| {
        let mut d = Dec(i);
        let (x, y) = (*d.of(wr), *d.of(wr));
        let skip = d.take(3);
        let mut a = *d.of(br);
        a[(skip + 1) % 3] = x;
        a[(skip + 2) % 3] = y;
        c.note(|| show(&a));
        c.distinct(1);
        single(a, c)
    });
    c.suite(&format!("pair-centred-{}", T::NAME), "every two of the six components of a pair of vectors over the same intervals, around two base pairs", if few { 30 } else { 15 } * nw * nw, move |i, c| {
        let mut d = Dec(i);
        let (x, y) = (*d.of(wr), *d.of(wr));
        let which = d.take(15);
        let base = d.take(2);
        let mut v = [br[base][0], br[base][1], br[base][2], br[1 - base][2], br[1 - base][0], br[1 - base][1]];
        let mut n = 0;
        for p in 0..6 {
            for q in p + 1..6 {
                if n == which {
                    v[p] = x;
                    v[q] = y;
                }
                n += 1;
            }
        }
        let (a, b) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
        c.note(|| format!("{} and {}", show(&a), show(&b)));
        c.distinct(1);
        pair(a, b, c)
    });
    let ct = alpha::Ctors::new(few);
    let ctr = &ct;
    c.suite(&format!("constructors-{}", T::NAME), "every constructor with every pair (over the rich alphabet) and every three (over the coarse one) of its parameters varied around base points; an exact vector and (quick: in every eighth case) a wide one", ct.n(), move |i, c| {
        let Some(g) = ctr.get(i) else { return Ok(()) };
        let st = St::<T>::gen(&g, String::new());
        c.note(|| format!("{:?}", g));
        c.distinct(1);
        // wide vectors have many members: every eighth case, or every one in the thorough tier
        if few || i % 8 == 0 {
            mapped(&st, br[1], br[1], c)?;
        }
        mapped(&st, br[0], br[2], c)
    });
    let some: Vec<usize> = (0..sts.len()).step_by((sts.len() / if few { 40 } else { 8 }).max(1)).collect();
    let somer = &some;
    c.suite(&format!("mapped-centred-{}", T::NAME), "a selection of the words (evenly spaced in exploration order) x every two components of the vector over intervals given by centre and width", some.len() as u64 * 3 * nw * nw, move |i, c| {
        let mut d = Dec(i);
        let (x, y) = (*d.of(wr), *d.of(wr));
        let skip = d.take(3);
        let st = &sr[*d.of(somer)];
        let mut a = br[0];
        a[(skip + 1) % 3] = x;
        a[(skip + 2) % 3] = y;
        c.note(|| format!("transform {} of {}", st.word, show(&a)));
        c.distinct(1);
        mapped(st, a, br[1], c)
    });
    let vals: Vec<T> = signed(&ladder::<T>(false));
    let n = vals.len() as u64;
    c.suite(&format!("conversions-{}", T::NAME), "every vector, point and normal with components from the magnitude ladder: to intervals and back", n * n * n, |i, c| {
        let mut d = Dec(i);
        let a = [*d.of(&vals), *d.of(&vals), *d.of(&vals)];
        c.note(|| format!("{:?}", a.map(|x| x.d())));
        c.distinct(1);
        c.steps(6);
        fn same<T: Fl>(what: &str, a: &[T; 3], i: &[I<T>; 3], b: &[T; 3]) -> Res {
            for k in 0..3 {
                if i[k].inf.d() != a[k].d() || i[k].sup.d() != a[k].d() {
                    return Err(format!("{}: component {} becomes {}", what, k, iv(&i[k])));
                }
                if b[k].d() != a[k].d() {
                    return Err(format!("{}: component {} comes back as {:e}", what, k, b[k].d()));
                }
            }
            Ok(())
        }
        let v = Vector3::<I<T>>::from(Vector3::<T>::from(a));
        same("vector", &a, &v.vec, &Vector3::<T>::from(v).vec)?;
        let v = Point3::<I<T>>::from(Point3::<T>::from(a));
        same("point", &a, &v.vec, &Point3::<T>::from(v).vec)?;
        let v = Normal3::<I<T>>::from(Normal3::<T>::from(a));
        same("normal", &a, &v.vec, &Normal3::<T>::from(v).vec)
    });
}

fn main() {
    let mut c = Check::new("C28");
    width::<f32>(&mut c);
    width::<f64>(&mut c);
    c.assume("the exact counterpart of mapping by a transform is the exact real image under the matrix (or inverse matrix) the transform stores; for normals the transpose of the other one; points mapped near infinity (homogeneous coordinate below 1e-6) are not judged");
    c.finish();
}
