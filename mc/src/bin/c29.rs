//! C29 ray evaluation, surface interactions.
use mc::any::Any;
use mc::refmath::*;
use mc::*;
use scarlet::geometry::primitive::SurfaceInteraction;
use scarlet::geometry::ray::Ray;
use scarlet::math::vector::{Normal3f, Point2f, Point3, Point3f, Vector3, Vector3f};

const E: f64 = f32::EPSILON as f64;

/// origin + t * direction, componentwise, for any scalar type
fn eval<T: Any>(o: [T; 3], d: [T; 3], t: T, tmax: T, c: &mut Ctx) -> Res {
    let mut want = [(t, 0.0); 3];
    for k in 0..3 {
        // a term that overflows (or an intermediate product that does) is outside the type
        let one = <T as scarlet::math::scalar::Scalar>::one();
        let (Some(_), Some(w)) = (d[k].cmul(t), T::sum(&[(false, o[k], one), (false, d[k], t)])) else { return Ok(()) };
        want[k] = w;
    }
    c.step();
    c.distinct(1);
    let p = Ray::<T>::new(Point3::<T>::from(o), Vector3::<T>::from(d), tmax).eval(t);
    for k in 0..3 {
        if !p.vec[k].close(want[k].0, want[k].1) {
            return Err(format!("Ray<{}>: component {} of the point at {:?} is {:?}, expected {:?}", T::NAME, k, t, p.vec[k], want[k].0));
        }
    }
    Ok(())
}
fn evals<T: Any>(c: &mut Check) {
    let v = T::rich(!c.quick());
    let f = T::few();
    let n = v.len() as u64;
    let bases: Vec<[T; 3]> = vec![[f[2], f[3 % f.len()], f[5 % f.len()]], [f[0], f[0], f[0]], [f[6 % f.len()], f[4 % f.len()], f[1]]];
    let (vr, fr, br) = (&v, &f, &bases);
    // any two of (a coordinate of the origin, the same coordinate of the direction, t)
    c.suite(&format!("eval-{}", T::NAME), "every pair of values of the type's alphabet as (origin, parameter), (direction, parameter) or (origin, direction) of one coordinate, three bases for the rest, three values of the maximum parameter", n * n * 27, move |i, c| {
        let mut d = Dec(i);
        let (x, y) = (*d.of(vr), *d.of(vr));
        let (k, which, b) = (d.take(3), d.take(3), d.take(3));
        let (mut o, mut dir) = (br[b], br[(b + 2) % 3]);
        let mut t = fr[(2 + b) % fr.len()];
        match which {
            0 => { o[k] = x; t = y }
            1 => { dir[k] = x; t = y }
            _ => { o[k] = x; dir[k] = y }
        }
        c.note(|| format!("origin {:?} direction {:?} t {:?}", o, dir, t));
        let tm = [fr[0], fr[2], fr[fr.len() - 1]][(i % 3) as usize];
        eval(o, dir, t, tm, c)
    });
    let m = f.len() as u64;
    c.suite(&format!("eval-few-{}", T::NAME), "origin coordinate, direction coordinate, parameter and maximum parameter all over a small alphabet, every coordinate", m * m * m * m * 3, move |i, c| {
        let mut d = Dec(i);
        let (x, y, t, tm) = (*d.of(fr), *d.of(fr), *d.of(fr), *d.of(fr));
        let k = d.take(3);
        let (mut o, mut dir) = (br[0], br[2]);
        o[k] = x;
        dir[k] = y;
        c.note(|| format!("origin {:?} direction {:?} t {:?} tmax {:?}", o, dir, t, tm));
        eval(o, dir, t, tm, c)
    });
}

#[derive(Clone, Copy, Debug)]
struct In {
    p: V,
    uv: [f64; 2],
    du: V,
    dv: V,
}
fn f3(v: V) -> Vector3f {
    v3::<f32>(v)
}
fn same(what: &str, got: V, want: V) -> Res {
    if (0..3).all(|k| got[k] == want[k]) { Ok(()) } else { Err(format!("{}: {:?}, expected {:?}", what, got, want)) }
}
/// |got - want| for unit vectors
fn near(what: &str, got: V, want: V, tol: f64) -> Res {
    let l = norm(got);
    if !((l - 1.0).abs() <= 8.0 * E) {
        return Err(format!("{}: {:?} has length {:e}", what, got, l));
    }
    if !(norm(sub(got, want)) <= tol) { Err(format!("{}: {:?}, expected {:?} (tolerance {:e})", what, got, want, tol)) } else { Ok(()) }
}
/// builds an interaction and checks it; None when the tangents are (nearly) parallel or out of range
fn built(i: &In) -> Result<Option<(SurfaceInteraction, V, f64)>, String> {
    let (du, dv, p) = (vv(f3(i.du)), vv(f3(i.dv)), pv(p3::<f32>(i.p)));
    let cr = cross(du, dv);
    let (lc, lu, lv) = (norm(cr), norm(du), norm(dv));
    let noise = [0, 1, 2].map(|k| {
        let (a, b) = ((k + 1) % 3, (k + 2) % 3);
        3.0 * E * ((du[a] * dv[b]).abs() + (du[b] * dv[a]).abs())
    });
    // squares of the cross product must neither overflow nor lose bits to underflow
    if !(lc > 1e-15 && lc < 1e15 && lu * lv < 1e15 && norm(noise) < 0.05 * lc) {
        return Ok(None);
    }
    let tol = 1.5 * norm(noise) / lc + 8.0 * E;
    let si = SurfaceInteraction::new(p3::<f32>(i.p), Point2f::new(i.uv[0] as f32, i.uv[1] as f32), f3(i.du), f3(i.dv));
    same("point", pv(si.p), p)?;
    same("dpdu", vv(si.dpdu), du)?;
    same("dpdv", vv(si.dpdv), dv)?;
    if si.uv.x() != i.uv[0] as f32 || si.uv.y() != i.uv[1] as f32 {
        return Err(format!("surface coordinates became {:?}", si.uv.vec));
    }
    let n = si.n.vec.map(|x| x as f64);
    near("normal", n, unit(cr), tol)?;
    Ok(Some((si, n, tol)))
}
/// maps the interaction (with a given normal) both ways
fn mapped(s: &St<f32>, si: &SurfaceInteraction, c: &mut Ctx) -> Res {
    let n = si.n.vec.map(|x| x as f64);
    for (name, got, m, em, w, ew) in [
        ("map", s.t.map(*si), &s.m, &s.em, &s.n, &s.en),
        ("map_inverse", s.t.map_inverse(*si), &s.n, &s.en, &s.m, &s.em),
    ] {
        let got: SurfaceInteraction = got;
        c.step();
        let e = |x: String| format!("{}: {}", name, x);
        if got.uv.x() != si.uv.x() || got.uv.y() != si.uv.y() {
            return Err(e(format!("surface coordinates became {:?}", got.uv.vec)));
        }
        if let Some(b) = bmap_point(m, em, &B::exact(pv(si.p)), E) {
            b.close("point", pv(got.p)).map_err(e)?;
        }
        bmap_vec(m, em, &B::exact(vv(si.dpdu)), E).close("dpdu", vv(got.dpdu)).map_err(e)?;
        bmap_vec(m, em, &B::exact(vv(si.dpdv)), E).close("dpdv", vv(got.dpdv)).map_err(e)?;
        let b = bmap_normal(w, ew, &B::exact(n), E);
        let l = norm(b.v);
        if !(l > 1e-15 && l < 1e15) || norm(b.e) > 0.05 * l {
            c.skip();
            continue;
        }
        near("normal", got.n.vec.map(|x| x as f64), unit(b.v), 3.0 * norm(b.e) / l + 8.0 * E).map_err(e)?;
    }
    Ok(())
}

fn interactions(c: &mut Check) {
    let q = c.quick();
    let rich = alpha::rich(-6, 6, !q);
    let co = alpha::coarse();
    let bases: Vec<[f64; 8]> = vec![[1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.25, 0.75], [0.3, -0.7, 0.5, 2.0, 0.1, -1.0, 0.0, 1.0], [0.0, 40.0, 3.0, -1e-3, 0.0, 2e-3, 0.5, 0.1], [0.0, 0.0, -1.0, 0.6, 0.8, 0.0, 0.9, 0.2]];
    let take = |x: [f64; 8]| In { p: [1.5, -0.25, 3.0], uv: [x[6], x[7]], du: [x[0], x[1], x[2]], dv: [x[3], x[4], x[5]] };
    for (name, k, v) in [("pairs", 2, &rich), ("triples", 3, &co), ("near-ties", 0, &rich)] {
        let all: [Vec<f64>; 8] = std::array::from_fn(|_| v.clone());
        let sw = if k == 0 { alpha::Sweep::near_ties(64, 10, bases.clone(), all) } else { alpha::Sweep::new(k, bases.clone(), all) };
        c.suite(&format!("built-{}", name), "interactions built from tangents: every pair (rich alphabet) or three (coarse alphabet), and all near ties, of the tangent components and surface coordinates around four bases; kept as given, normal = unit cross product", sw.n(), |i, c| {
            let x = take(sw.get(i));
            c.note(|| format!("{:?}", x));
            c.step();
            c.distinct(1);
            if built(&x)?.is_none() {
                c.skip();
            }
            Ok(())
        });
    }
    // interactions of the alphabet, all transforms
    let mut ins: Vec<SurfaceInteraction> = vec![];
    for b in &bases {
        for p in [[0.0, 0.0, 0.0], [1.5, -0.25, 3.0], [-200.0, 1e-3, 7.0]] {
            let mut x = take(*b);
            x.p = p;
            if let Ok(Some((si, ..))) = built(&x) {
                ins.push(si);
                // the other side, as a primitive may report it
                let mut f = si;
                f.n = Normal3f::from([-si.n.x(), -si.n.y(), -si.n.z()]);
                ins.push(f);
            }
        }
    }
    if ins.is_empty() {
        ins.push(SurfaceInteraction { p: Point3f::new(1.0, 2.0, 3.0), n: Normal3f::new(0.0, 0.0, 1.0), uv: Point2f::new(0.1, 0.2), dpdu: Vector3f::new(1.0, 0.0, 0.0), dpdv: Vector3f::new(0.0, 1.0, 0.0) });
    }
    let depth = c.by(3, 4);
    let gens = generators(false);
    let mut st = c.prepare("words", || explore::<f32>(&gens, depth));
    st.extend(c.prepare("extreme", extreme_states::<f32>));
    let n = st.len() as u64 * ins.len() as u64;
    c.suite("mapped", "every distinct affine word up to the depth and every extreme one x interactions with either side as normal: point, tangents, coordinates, unit normal, forward and backward", n, |i, c| {
        let mut d = Dec(i);
        let si = d.of(&ins);
        let s = d.of(&st);
        c.note(|| format!("{} of {:?}", s.word, si));
        c.distinct(1);
        mapped(s, si, c)
    });
    let ct = alpha::Ctors::new(!q);
    c.suite("constructors", "every affine constructor with every pair (rich alphabet) and every three (coarse one) of its parameters varied around base points x two interactions", ct.n(), |i, c| {
        let Some(g) = ct.get(i) else { return Ok(()) };
        if matches!(g, Gen::Persp(..)) {
            return Ok(());
        }
        let s = St::<f32>::gen(&g, String::new());
        c.note(|| format!("{:?}", g));
        c.distinct(1);
        mapped(&s, &ins[(i % ins.len() as u64) as usize], c)?;
        mapped(&s, &ins[((i / 7) % ins.len() as u64) as usize], c)
    });
    // interaction parameters swept, some transforms
    let some: Vec<&St<f32>> = st.iter().step_by((st.len() / c.by(6, 24)).max(1)).collect();
    let vals: Vec<f64> = if q { alpha::rich(-5, 5, false) } else { rich };
    let sw: alpha::Sweep<9> = alpha::Sweep::new(2, vec![[0.0, 0.6, 0.8, 1.0, 0.0, 0.0, 0.2, 0.4, -0.3], [1.0, -2.0, 3.0, 0.0, 2.0, 1.0, 5.0, -6.0, 7.0]], std::array::from_fn(|_| vals.clone()));
    let ties = alpha::Sweep::near_ties(32, c.by(2, 5), sw.bases.clone(), sw.vals.clone());
    c.suite("objects", "a selection of the words (evenly spaced in exploration order) x every pair of the components of normal, tangent and point, over the rich alphabet or almost equal or opposite", (sw.n() + ties.n()) * some.len() as u64, |i, c| {
        let mut d = Dec(i);
        let s = *d.of(&some);
        let x = if d.0 < sw.n() { sw.get(d.0) } else { ties.get(d.0 - sw.n()) };
        let n = [x[0], x[1], x[2]];
        if norm(n) == 0.0 {
            return Ok(());
        }
        let u = mulv(n, 1.0 / norm(n)).map(|k| k as f32);
        let si = SurfaceInteraction { p: p3::<f32>([x[6], x[7], x[8]]), n: Normal3f::from(u), uv: Point2f::new(x[3] as f32, x[8] as f32), dpdu: f3([x[3], x[4], x[5]]), dpdv: f3([x[8], x[6], x[4]]) };
        c.note(|| format!("{} of {:?}", s.word, si));
        c.distinct(1);
        mapped(s, &si, c)
    });
}

fn main() {
    let mut c = Check::new("C29");
    evals::<f32>(&mut c);
    evals::<f64>(&mut c);
    evals::<i8>(&mut c);
    evals::<i16>(&mut c);
    evals::<i32>(&mut c);
    evals::<i64>(&mut c);
    evals::<u8>(&mut c);
    evals::<u16>(&mut c);
    evals::<u32>(&mut c);
    evals::<u64>(&mut c);
    interactions(&mut c);
    c.assume("tangents so close to parallel, or a normal mapped so inaccurately, that rounding moves the normal by more than a twentieth are not judged (counted as undecided)");
    c.finish()
}
