//! C14 a transform carries the inverse of its own matrix: explicit-state search over words.
use mc::num::Fl;
use mc::refmath::*;
use mc::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::ray::Ray;
use scarlet::math::transform::{Invertible, Transform};
use scarlet::math::vector::{Normal3, Point3};

fn points() -> Vec<V> {
    vec![[0., 0., 0.], [1., 0., 0.], [0., -1., 0.], [0., 0., 2.], [1.5, -2.25, 3.], [-100., 0.125, 7.], [0.1, 0.7, -0.3]]
}
fn same<T: Fl>(what: &str, a: M, b: M) -> Res {
    if a == b { Ok(()) } else { Err(format!("{}: {:?} differs from {:?} ({})", what, a, b, T::NAME)) }
}
fn judge<T: Fl>(s: &St<T>, pts: &[V], c: &mut Ctx) -> Res {
    c.note(|| s.word.clone());
    let e = T::EPS;
    s.agrees()?;
    // the product of the two stored matrices
    let (m, n) = (to_m(&s.t.matrix()), to_m(&s.t.inverse_matrix()));
    let bound = |a: &M, ea: &M, b: &M, eb: &M| madd(&prod_err(a, ea, b, eb, e), &mscale(&mm(&mabs(a), &mabs(b)), 8.0 * e));
    for (side, p, b) in [("matrix * inverse", mm(&m, &n), bound(&s.m, &s.em, &s.n, &s.en)),
                         ("inverse * matrix", mm(&n, &m), bound(&s.n, &s.en, &s.m, &s.em))] {
        for i in 0..4 {
            for j in 0..4 {
                if !((p[i][j] - ID[i][j]).abs() <= 2.0 * b[i][j]) {
                    return Err(format!("{}: entry ({}, {}) = {:e} (tolerance {:e})", side, i, j, p[i][j], 2.0 * b[i][j]));
                }
            }
        }
    }
    let inv = s.t.inverse();
    same::<T>("matrix of the inverse", to_m(&inv.matrix()), n)?;
    same::<T>("inverse matrix of the inverse", to_m(&inv.inverse_matrix()), m)?;
    let twice = inv.inverse();
    same::<T>("inverting twice (matrix)", to_m(&twice.matrix()), m)?;
    same::<T>("inverting twice (inverse matrix)", to_m(&twice.inverse_matrix()), n)?;
    c.steps(6);
    // mapping forward and backward
    for p in pts {
        let p = p3::<T>(*p);
        let b = B::exact(pv(p));
        let Some(q) = bmap_point(&s.m, &s.em, &b, e) else {
            c.skip();
            continue;
        };
        let Some(mut r) = bmap_point(&s.n, &s.en, &q, e) else {
            c.skip();
            continue;
        };
        r.v = pv(p);
        r.close("point there and back", pv(s.t.map_inverse(s.t.map(p))))?;
        c.step();
        if let Some(q) = bmap_point(&s.n, &s.en, &b, e) {
            if let Some(mut r) = bmap_point(&s.m, &s.em, &q, e) {
                r.v = pv(p);
                r.close("point back and there", pv(s.t.map(s.t.map_inverse(p))))?;
            }
        }
        // normals and, for affine maps, vectors and rays
        if s.affine {
            let nn = Normal3::<T>::new(p.x(), p.y(), p.z());
            let q = bmap_normal(&s.n, &s.en, &b, e);
            let mut r = bmap_normal(&s.m, &s.em, &q, e);
            r.v = pv(p);
            let g: Normal3<T> = s.t.map_inverse(s.t.map(nn));
            r.close("normal there and back", g.vec.map(|x| x.d()))?;
            let v = v3::<T>(pv(p));
            let q = bmap_vec(&s.m, &s.em, &b, e);
            let mut r2 = bmap_vec(&s.n, &s.en, &q, e);
            r2.v = pv(p);
            r2.close("vector there and back", vv(s.t.map_inverse(s.t.map(v))))?;
            r2.close("vector by the inverse transform", vv(inv.map(s.t.map(v))))?;
            let ray = Ray::new(p, v, T::f(3.5));
            let g: Ray<T> = s.t.map_inverse(s.t.map(ray));
            let mut r3 = bmap_point(&s.n, &s.en, &bmap_point(&s.m, &s.em, &b, e).unwrap(), e).unwrap();
            r3.v = pv(p);
            r3.close("ray origin there and back", pv(g.origin))?;
            r2.close("ray direction there and back", vv(g.direction))?;
            if g.tmax.d() != 3.5 {
                return Err("ray tmax changed".into());
            }
            c.steps(4);
        }
    }
    Ok(())
}
fn boxes(t: &St<f32>, c: &mut Ctx) -> Res {
    // axis preserving: one non-zero entry in each row and column of the linear part
    let lin = |m: &M, i: usize, j: usize| m[i][j].abs() > 1e-5;
    let ok = t.affine && (0..3).all(|i| (0..3).filter(|&j| lin(&t.m, i, j)).count() == 1 && (0..3).filter(|&j| lin(&t.m, j, i)).count() == 1);
    if !ok {
        return Ok(());
    }
    c.tally("axis-preserving words");
    let al = points();
    for a in &al {
        for b in &al {
            let bx = Bbox3::new(p3(*a), p3(*b));
            let g: Bbox3 = t.t.map_inverse(t.t.map(bx));
            c.step();
            // widest error of any corner
            let mut e = [1e-30; 3];
            for k in 0..8 {
                let p = std::array::from_fn(|i| if k >> i & 1 == 0 { a[i] } else { b[i] });
                let p = p3::<f32>(p);
                if let Some(r) = bmap_point(&t.m, &t.em, &B::exact(pv(p)), f32::EPS).and_then(|q| bmap_point(&t.n, &t.en, &q, f32::EPS)) {
                    for i in 0..3 {
                        e[i] = f64::max(e[i], r.e[i]);
                    }
                }
            }
            B { v: pv(bx.pmin), e }.close("box there and back, lower corner", pv(g.pmin))?;
            B { v: pv(bx.pmax), e }.close("box there and back, upper corner", pv(g.pmax))?;
        }
    }
    Ok(())
}
fn run<T: Fl>(c: &mut Check, depth: usize) -> (Vec<St<T>>, Vec<St<T>>) {
    let pts = points();
    let gens = generators(true);
    let (states, gs) = c.prepare(&format!("words-{}", T::NAME), || (explore::<T>(&gens, depth - 1), gen_states::<T>(&gens)));
    let k = transitions(gs.len());
    let n = states.len() as u64 * k as u64;
    c.suite(&format!("words-{}", T::NAME), "explicit-state search: every transition (compose left/right with each of 16 generators, invert) out of every distinct word state below the depth bound", n, |i, c| {
        let mut d = Dec(i);
        let s = d.of(&states);
        let t = step(s, d.take(k), &gs);
        c.state(t.m.iter().chain(t.n.iter()).flatten().fold(Fp::new(1), |f, x| f.u((x * 1e6).round() as i64 as u64)));
        judge(&t, &pts, c)
    });
    let ex = c.prepare(&format!("extreme-{}", T::NAME), || extreme_states::<T>());
    c.suite(&format!("extreme-{}", T::NAME), "every constructor at extreme magnitudes or next to a special case, alone and composed on either side with every other one, and their inverses", ex.len() as u64, |i, c| {
        c.distinct(1);
        judge(&ex[i as usize], &pts, c)
    });
    let ct = alpha::Ctors::new(!c.quick());
    c.suite(&format!("constructors-{}", T::NAME), "every constructor with every pair (over the rich alphabet) and every three (over the coarse one) of its parameters varied around base points", ct.n(), |i, c| {
        let Some(g) = ct.get(i) else { return Ok(()) };
        c.note(|| format!("{:?}", g));
        c.distinct(1);
        judge(&St::<T>::gen(&g, String::new()), &pts[4..6], c)
    });
    // inverse words: the inverse distributes over composition in reverse
    let n = (gs.len() * gs.len()) as u64 * states.len().min(600) as u64;
    c.suite(&format!("reversal-{}", T::NAME), "every (word, generator, generator): the inverse of a composition equals the reversed composition of the inverses", n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (d.of(&gs), d.of(&gs));
        let s = &states[d.0 as usize];
        let w = a.compose(s).compose(b);
        c.note(|| w.word.clone());
        c.state(Fp::new(i));
        c.steps(2);
        let r: Transform<T> = b.t.inverse() * s.t.inverse() * a.t.inverse();
        St { t: r, ..w.inverse() }.agrees()?;
        St { t: (a.t * s.t * b.t).inverse(), ..w.inverse() }.agrees()
    });
    (states, gs)
}
fn main() {
    let mut c = Check::new("C14");
    let depth = c.by(5, 6);
    let (st, gs) = run::<f32>(&mut c, depth);
    run::<f64>(&mut c, depth);
    let k = transitions(gs.len());
    let n = st.len() as u64 * k as u64;
    c.suite("boxes-f32", "every axis-preserving word: every box over the corner alphabet is mapped there and back", n, |i, c| {
        let mut d = Dec(i);
        let s = d.of(&st);
        let t = step(s, d.take(k), &gs);
        c.note(|| t.word.clone());
        c.state(Fp::new(i));
        boxes(&t, c)
    });
    c.suite("identity", "the identity transform and explicit construction", 1, |_, c| {
        c.steps(2);
        let t = Transform::<f32>::identity();
        same::<f32>("identity", to_m(&t.matrix()), ID)?;
        same::<f32>("identity inverse", to_m(&t.inverse_matrix()), ID)?;
        let s = Gen::Scale([2., 4., 8.]).build::<f32>();
        let u = Transform::new(s.matrix(), s.inverse_matrix());
        same::<f32>("new keeps the matrix", to_m(&u.matrix()), to_m(&s.matrix()))?;
        same::<f32>("new keeps the inverse", to_m(&u.inverse_matrix()), to_m(&s.inverse_matrix()))?;
        let p: Point3<f32> = u.map(Point3::new(1., 1., 1.));
        B::exact([2., 4., 8.]).close("mapped point", pv(p))
    });
    c.assume("tolerances follow from entrywise forward error bounds of the reference words; points whose homogeneous coordinate is close to zero are counted as undecided");
    c.finish();
}
