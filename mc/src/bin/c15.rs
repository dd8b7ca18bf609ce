//! C15 composition maps like sequential application; rays.
use mc::num::Fl;
use mc::refmath::*;
use mc::*;
use scarlet::geometry::ray::Ray;
use scarlet::math::transform::{Invertible, Transform};
use scarlet::math::vector::{Normal3, Point3};

fn objs() -> Vec<V> {
    vec![[0., 0., 0.], [1., 0., 0.], [0., -1., 0.], [0., 0., 2.], [1.5, -2.25, 3.], [-20., 0.125, 7.], [0.1, 0.7, -0.3], [-1., -1., -5.]]
}
fn nv<T: Fl>(n: Normal3<T>) -> V {
    n.vec.map(|x| x.d())
}
/// `t` is the composition a * b; everything maps by b first, then by a
fn judge<T: Fl>(t: &St<T>, a: &St<T>, b: &St<T>, c: &mut Ctx) -> Res {
    judge_at(t, a, b, &objs(), c)
}
fn judge_at<T: Fl>(t: &St<T>, a: &St<T>, b: &St<T>, at: &[V], c: &mut Ctx) -> Res {
    let e = T::EPS;
    for p in at {
        let p = *p;
        let o = p3::<T>(p);
        let x = B::exact(pv(o));
        if let Some(w) = bmap_point(&t.m, &t.em, &x, e) {
            w.close("point by the composition", pv(t.t.map(o)))?;
            c.step();
            if let Some(w2) = bmap_point(&b.m, &b.em, &x, e).and_then(|q| bmap_point(&a.m, &a.em, &q, e)) {
                B { v: w.v, e: add(w.e, w2.e) }.close("point, one transform after the other", pv(a.t.map(b.t.map(o))))?;
                c.step();
            }
        } else {
            c.skip();
        }
        if let Some(w) = bmap_point(&t.n, &t.en, &x, e) {
            w.close("point by the inverse of the composition", pv(t.t.map_inverse(o)))?;
            c.step();
            if let Some(w2) = bmap_point(&a.n, &a.en, &x, e).and_then(|q| bmap_point(&b.n, &b.en, &q, e)) {
                B { v: w.v, e: add(w.e, w2.e) }.close("point, one inverse after the other", pv(b.t.map_inverse(a.t.map_inverse(o))))?;
                c.step();
            }
        }
        if !t.affine {
            continue;
        }
        let v = v3::<T>(pv(o));
        let w = bmap_vec(&t.m, &t.em, &x, e);
        w.close("vector by the composition", vv(t.t.map(v)))?;
        let w2 = bmap_vec(&a.m, &a.em, &bmap_vec(&b.m, &b.em, &x, e), e);
        B { v: w.v, e: add(w.e, w2.e) }.close("vector, one after the other", vv(a.t.map(b.t.map(v))))?;
        let wi = bmap_vec(&t.n, &t.en, &x, e);
        wi.close("vector by the inverse of the composition", vv(t.t.map_inverse(v)))?;
        let n = Normal3::<T>::new(o.x(), o.y(), o.z());
        let w = bmap_normal(&t.n, &t.en, &x, e);
        w.close("normal by the composition", nv(t.t.map(n)))?;
        let w2 = bmap_normal(&a.n, &a.en, &bmap_normal(&b.n, &b.en, &x, e), e);
        B { v: w.v, e: add(w.e, w2.e) }.close("normal, one after the other", nv(a.t.map(b.t.map(n))))?;
        let w = bmap_normal(&t.m, &t.em, &x, e);
        w.close("normal by the inverse of the composition", nv(t.t.map_inverse(n)))?;
        c.steps(6);
    }
    Ok(())
}
fn rays<T: Fl>(t: &St<T>, c: &mut Ctx) -> Res {
    if !t.affine {
        return Ok(());
    }
    let e = T::EPS;
    let inf = f64::INFINITY;
    let pts = [[0.5, -1.0, 2.0], [0., 0., 0.], [-7.25, 3., 0.1]];
    let dirs = [[0., 0., 1.], [1., -2., 0.5], [0., -0.25, 0.], [0., 0., 0.]];
    for o in pts {
        for d in dirs {
            for tm in [0.0, 2.5, inf, T::FMT.max] {
                let ray = Ray::new(p3::<T>(o), v3::<T>(d), T::f(tm));
                let (ob, db) = (B::exact(pv(ray.origin)), B::exact(vv(ray.direction)));
                for (nm, r, m, em) in [("map", t.t.map(ray), &t.m, &t.em), ("map_inverse", t.t.map_inverse(ray), &t.n, &t.en)] {
                    let r: Ray<T> = r;
                    let (wo, wd) = (bmap_point(m, em, &ob, e).unwrap(), bmap_vec(m, em, &db, e));
                    wo.close("ray origin", pv(r.origin)).map_err(|e| format!("by {}: {}", nm, e))?;
                    wd.close("ray direction", vv(r.direction)).map_err(|e| format!("by {}: {}", nm, e))?;
                    if r.tmax.d() != T::f(tm).d() {
                        return Err(format!("{} changes tmax from {:e} to {:e}", nm, tm, r.tmax.d()));
                    }
                    c.step();
                    for s in [0.0, 1.0, 0.3, 4.0, -2.0] {
                        let q = ray.eval(T::f(s));
                        let sr = T::f(s).d();
                        let want = add(ob.v, mulv(db.v, sr));
                        let be = B { v: want, e: add(mulv(vabs(ob.v), e), mulv(vabs(db.v), 2.0 * e * sr.abs())) };
                        be.close("ray evaluation", pv(q))?;
                        let mapped: Point3<T> = if nm == "map" { t.t.map(q) } else { t.t.map_inverse(q) };
                        let w = bmap_point(m, em, &be, e).unwrap();
                        w.close("the mapped evaluated point", pv(mapped))?;
                        let me = r.eval(T::f(s));
                        let tol = add(add(wo.e, mulv(wd.e, sr.abs())), add(w.e, mulv(add(vabs(wo.v), mulv(vabs(wd.v), sr.abs())), 2.0 * e)));
                        B { v: w.v, e: tol }.close("evaluating the mapped ray", pv(me))?;
                        c.steps(2);
                    }
                }
            }
        }
    }
    // differences of points map like vectors
    for p in objs() {
        for q in objs() {
            let (p, q) = (p3::<T>(p), p3::<T>(q));
            let d = vv(p - q);
            let w = bmap_vec(&t.m, &t.em, &B { v: d, e: mulv(vabs(d), e) }, e);
            let (wp, wq) = (bmap_point(&t.m, &t.em, &B::exact(pv(p)), e).unwrap(), bmap_point(&t.m, &t.em, &B::exact(pv(q)), e).unwrap());
            w.close("mapped difference", vv(t.t.map(p - q)))?;
            let g = t.t.map(p) - t.t.map(q);
            B { v: w.v, e: add(add(w.e, wp.e), add(wq.e, mulv(vabs(w.v), e))) }.close("difference of mapped points", vv(g))?;
            c.steps(2);
        }
    }
    Ok(())
}
fn run<T: Fl>(c: &mut Check, depth: usize) {
    let gens = generators(true);
    let (states, gs) = c.prepare(&format!("compose-{}", T::NAME), || (explore::<T>(&gens, depth), gen_states::<T>(&gens)));
    let invs: Vec<St<T>> = gs.iter().map(|g| g.inverse()).collect();
    let mut ops = gs.clone();
    ops.extend(invs);
    let n = states.len() as u64 * ops.len() as u64 * 2;
    c.suite(&format!("compose-{}", T::NAME), "every distinct word, composed on either side with every generator and inverse generator: points, vectors, normals by the composition and one after the other, forward and backward", n, |i, c| {
        let mut d = Dec(i);
        let side = d.take(2);
        let g = d.of(&ops);
        let s = d.of(&states);
        let (a, b) = if side == 0 { (s, g) } else { (g, s) };
        let t = a.compose(b);
        c.note(|| t.word.clone());
        c.state(Fp::new(i));
        t.agrees()?;
        judge(&t, a, b, c)
    });
    let n = states.len() as u64;
    c.suite(&format!("rays-{}", T::NAME), "every affine word: rays (origin, direction, tmax, evaluation) and differences of points", n, |i, c| {
        let s = &states[i as usize];
        c.note(|| s.word.clone());
        c.state(Fp::new(i));
        rays(s, c)?;
        // the identity is neutral
        let id = St::<T>::identity();
        St { t: s.t * id.t, ..s.clone() }.agrees()?;
        St { t: id.t * s.t, ..s.clone() }.agrees()?;
        let undone: Transform<T> = s.t * s.t.inverse();
        let z = s.compose(&s.inverse());
        St { t: undone, ..z }.agrees()
    });
    let ex = c.prepare(&format!("extreme-{}", T::NAME), || extreme_states::<T>());
    c.suite(&format!("extreme-rays-{}", T::NAME), "every constructor at extreme magnitudes or next to a special case, alone and composed on either side with every other one, and their inverses: rays, differences of points, single application", ex.len() as u64, |i, c| {
        let s = &ex[i as usize];
        c.note(|| s.word.clone());
        c.distinct(1);
        rays(s, c)?;
        judge(s, s, &St::identity(), c)
    });
    // a matrix that carries a common factor still keeps the ray's parameter range
    let factors = [2.0, 0.5, -1.0, 4.0, 0.125];
    c.suite(&format!("factor-{}", T::NAME), "every word with its matrix multiplied by a factor (the same map of points): points and ray origins are unchanged, tmax is kept", (states.len().min(2000) * factors.len()) as u64, |i, c| {
        let mut d = Dec(i);
        let f = *d.of(&factors);
        let s = &states[d.0 as usize];
        c.note(|| format!("{} times {}", s.word, f));
        c.distinct(1);
        let t = Transform::new(s.t.matrix() * T::f(f), s.t.inverse_matrix() * T::f(1.0 / f));
        for p in objs() {
            let o = p3::<T>(p);
            let x = B::exact(pv(o));
            for (nm, m, em) in [("map", &s.m, &s.em), ("map_inverse", &s.n, &s.en)] {
                let Some(w) = bmap_point(m, em, &x, T::EPS) else {
                    c.skip();
                    continue;
                };
                let fw = nm == "map";
                c.steps(2);
                w.close(nm, pv(if fw { t.map(o) } else { t.map_inverse(o) }))?;
                if s.affine {
                    let ray = Ray::new(o, v3::<T>([1.0, 0.5, -2.0]), T::f(6.0));
                    let r: Ray<T> = if fw { t.map(ray) } else { t.map_inverse(ray) };
                    w.close("ray origin", pv(r.origin))?;
                    if r.tmax.d() != 6.0 {
                        return Err(format!("{} changes tmax from 6 to {:e}", nm, r.tmax.d()));
                    }
                }
            }
        }
        Ok(())
    });
    let ct = alpha::Ctors::new(!c.quick());
    let id = St::<T>::identity();
    let sh = St::<T>::gen(&Gen::Rot([1.0, 2.0, -0.5], 0.7), String::new()).compose(&St::gen(&Gen::Translate([3.0, -1.0, 0.5]), String::new()));
    c.suite(&format!("constructors-{}", T::NAME), "every constructor with every pair (over the rich alphabet) and every three (over the coarse one) of its parameters varied around base points, composed on the right and on the left with a rigid motion: points, vectors, normals by the composition and one after the other", ct.n(), |i, c| {
        let Some(g) = ct.get(i) else { return Ok(()) };
        c.note(|| format!("{:?}", g));
        c.distinct(1);
        let s = St::<T>::gen(&g, String::new());
        let at = [[1.5, -2.25, 3.0]];
        judge_at(&s, &s, &id, &at, c)?;
        let (l, r) = (sh.compose(&s), s.compose(&sh));
        judge_at(&l, &sh, &s, &at, c)?;
        judge_at(&r, &s, &sh, &at, c)
    });
    let al = alpha::rich(-9, 9, !c.quick());
    let co = alpha::coarse();
    let sw = [alpha::Sweep::new(2, vec![[0.0, 0.0, 0.0], [1.0, -2.5, 3.0]], std::array::from_fn(|_| al.clone())), alpha::Sweep::new(3, vec![[0.0; 3]], std::array::from_fn(|_| co.clone())), alpha::Sweep::near_ties(32, 10, vec![[0.0, 0.0, 0.0], [1.0, -2.5, 3.0]], std::array::from_fn(|_| al.clone()))];
    let tr: Vec<St<T>> = ops.iter().cloned().chain(ops.iter().step_by(3).flat_map(|a| ops.iter().step_by(5).map(move |b| a.compose(b)))).collect();
    let n = (sw[0].n() + sw[1].n() + sw[2].n()) * tr.len() as u64;
    c.suite(&format!("objects-{}", T::NAME), "every pair (over the rich alphabet) and all three (over the coarse one), and all near ties, of the coordinates of a point, vector, normal varied, by every generator, inverse generator and a lattice of their products; every ray with that origin or direction and every tmax of the small alphabet", n, |i, c| {
        let mut d = Dec(i);
        let s = d.of(&tr);
        let p = if d.0 < sw[0].n() { sw[0].get(d.0) } else if d.0 < sw[0].n() + sw[1].n() { sw[1].get(d.0 - sw[0].n()) } else { sw[2].get(d.0 - sw[0].n() - sw[1].n()) };
        c.note(|| format!("{} at {:?}", s.word, p));
        c.distinct(1);
        judge_at(s, s, &id, &[p], c)?;
        if !s.affine {
            return Ok(());
        }
        let e = T::EPS;
        let tm = [0.0, 1e-4, 1.0, 2.5, 3e9, f64::INFINITY][(d.0 % 6) as usize];
        for (o, v) in [(p, [0.5, -1.0, 2.0]), ([0.5, -1.0, 2.0], p)] {
            let ray = Ray::new(p3::<T>(o), v3::<T>(v), T::f(tm));
            let (ob, db) = (B::exact(pv(ray.origin)), B::exact(vv(ray.direction)));
            for (nm, r, m, em) in [("map", s.t.map(ray), &s.m, &s.em), ("map_inverse", s.t.map_inverse(ray), &s.n, &s.en)] {
                let r: Ray<T> = r;
                bmap_point(m, em, &ob, e).unwrap().close("ray origin", pv(r.origin)).map_err(|e| format!("by {}: {}", nm, e))?;
                bmap_vec(m, em, &db, e).close("ray direction", vv(r.direction)).map_err(|e| format!("by {}: {}", nm, e))?;
                if r.tmax.d() != T::f(tm).d() {
                    return Err(format!("{} changes tmax from {:e} to {:e}", nm, tm, r.tmax.d()));
                }
                c.step();
            }
        }
        Ok(())
    });
    let k = ops.len() as u64;
    c.suite(&format!("associativity-{}", T::NAME), "every triple of generators and inverse generators, bracketed both ways", k * k * k, |i, c| {
        let mut d = Dec(i);
        let (x, y, z) = (d.of(&ops), d.of(&ops), d.of(&ops));
        let l = x.compose(y).compose(z);
        let r = x.compose(&y.compose(z));
        c.note(|| l.word.clone());
        c.state(Fp::new(i));
        c.steps(2);
        l.agrees()?;
        r.agrees()?;
        St { t: r.t, ..l }.agrees()
    });
}
fn main() {
    let mut c = Check::new("C15");
    let depth = c.by(3, 4);
    run::<f32>(&mut c, depth);
    run::<f64>(&mut c, depth);
    c.assume("tolerances follow from entrywise forward error bounds; points whose homogeneous coordinate is close to zero are counted as undecided");
    c.finish();
}
