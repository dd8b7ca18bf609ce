//! C17 normals stay perpendicular.
use mc::num::Fl;
use mc::refmath::*;
use mc::*;
use scarlet::math::vector::{Normal3, Vector3};

fn vecs() -> Vec<V> {
    let mut v = vec![];
    let a = [0.0, 1.0, -1.0];
    for x in a {
        for y in a {
            for z in a {
                v.push([x, y, z]);
            }
        }
    }
    v.extend([[1., 2., 3.], [-2., 0.5, 0.25], [0.3, -0.1, 0.7], [100., -0.01, 3.], [0., 1e-3, -50.]]);
    v
}
fn nv<T: Fl>(n: Normal3<T>) -> V {
    n.vec.map(|x| x.d())
}
fn judge<T: Fl>(s: &St<T>, a: V, b: V, c: &mut Ctx) -> Res {
    let e = T::EPS;
    let (n, v) = (Normal3::<T>::from(a.map(T::f)), Vector3::<T>::from(b.map(T::f)));
    let (nb, vb) = (B::exact(nv(n)), B::exact(vv(v)));
    let want = dot(nb.v, vb.v);
    c.note(|| format!("{} normal {:?} vector {:?}", s.word, a, b));
    c.steps(2);
    let fwd = (s.t.map(n), s.t.map(v), bmap_normal(&s.n, &s.en, &nb, e), bmap_vec(&s.m, &s.em, &vb, e));
    let bwd = (s.t.map_inverse(n), s.t.map_inverse(v), bmap_normal(&s.m, &s.em, &nb, e), bmap_vec(&s.n, &s.en, &vb, e));
    for (nm, (gn, gv, wn, wv)) in [("map", fwd), ("map_inverse", bwd)] {
        wn.close("normal", nv(gn)).map_err(|e| format!("by {}: {}", nm, e))?;
        let got = dot(nv(gn), vv(gv));
        let tol: f64 = (0..3).map(|k| 2.0 * (wn.v[k].abs() * wv.e[k] + wn.e[k] * wv.v[k].abs() + 2.0 * wn.e[k] * wv.e[k])).sum();
        if !((got - want).abs() <= tol + 1e-30) {
            return Err(format!("{}: inner product {:e} became {:e} (tolerance {:e})", nm, want, got, tol));
        }
    }
    Ok(())
}
fn run<T: Fl>(c: &mut Check, depth: usize) {
    let gens = generators(false);
    let st = c.prepare(&format!("words-{}", T::NAME), || explore::<T>(&gens, depth));
    let mut st = st;
    st.extend(c.prepare(&format!("extreme-{}", T::NAME), || extreme_states::<T>()));
    let vs = vecs();
    let n = st.len() as u64 * vs.len() as u64 * vs.len() as u64;
    c.suite(&format!("words-{}", T::NAME), "every distinct affine word up to the depth and every extreme one, every normal, every tangent vector: the inner product is kept, forward and backward", n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&vs), *d.of(&vs));
        let s = d.of(&st);
        c.state(Fp::new(i));
        judge(s, a, b, c)
    });
    let ct = alpha::Ctors::new(!c.quick());
    let pairs: Vec<(V, V)> = vec![([0., 0., 1.], [1., 0., 0.]), ([1., 2., 3.], [3., 0., -1.]), ([0.3, -0.1, 0.7], [-2., 0.5, 0.25]), ([1., -1., 0.], [1., 1., 0.])];
    c.suite(&format!("constructors-{}", T::NAME), "every affine constructor with every pair (over the rich alphabet) and every three (over the coarse one) of its parameters varied around base points; four pairs of normal and vector", ct.n(), |i, c| {
        let Some(g) = ct.get(i) else { return Ok(()) };
        if matches!(g, Gen::Persp(..)) {
            return Ok(());
        }
        c.distinct(1);
        c.note(|| format!("{:?}", g));
        let s = St::<T>::gen(&g, String::new());
        for (n, v) in &pairs {
            judge(&s, *n, *v, c)?;
        }
        Ok(())
    });
    let al = alpha::rich(-8, 8, !c.quick());
    let co = alpha::coarse();
    let sw = [alpha::Sweep::new(2, vec![[0., 0., 1., 1., 0., 0.], [0.3, -0.1, 0.7, -2., 0.5, 0.25]], std::array::from_fn(|_| al.clone())),
              alpha::Sweep::new(3, vec![[0., 0., 1., 1., 0., 0.]], std::array::from_fn(|_| co.clone())),
              alpha::Sweep::near_ties(32, c.by(5, 10), vec![[0., 0., 1., 1., 0., 0.], [0.3, -0.1, 0.7, -2., 0.5, 0.25]], std::array::from_fn(|_| al.clone()))];
    let gs = gen_states::<T>(&gens);
    let tr: Vec<St<T>> = gs.iter().cloned().chain(gs.iter().step_by(2).flat_map(|a| gs.iter().step_by(5).map(move |b| a.compose(b)))).collect();
    let n = (sw[0].n() + sw[1].n() + sw[2].n()) * tr.len() as u64;
    c.suite(&format!("objects-{}", T::NAME), "every pair (over the rich alphabet) and every three (over the coarse one), and all near ties, of the six coordinates of normal and vector varied, by every generator and a lattice of their products", n, |i, c| {
        let mut d = Dec(i);
        let s = d.of(&tr);
        let q = if d.0 < sw[0].n() { sw[0].get(d.0) } else if d.0 < sw[0].n() + sw[1].n() { sw[1].get(d.0 - sw[0].n()) } else { sw[2].get(d.0 - sw[0].n() - sw[1].n()) };
        c.distinct(1);
        judge(s, [q[0], q[1], q[2]], [q[3], q[4], q[5]], c)
    });
}
fn main() {
    let mut c = Check::new("C17");
    let depth = c.by(3, 4);
    run::<f32>(&mut c, depth);
    run::<f64>(&mut c, depth);
    c.assume("tolerances follow from entrywise forward error bounds of the reference words");
    c.finish();
}
