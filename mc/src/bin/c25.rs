//! C25 a transformed primitive behaves like the primitive placed in the world.
use mc::refmath::*;
use mc::scene::*;
use mc::*;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::Rayf;
use scarlet::math::vector::{Point3f, Vector3f};

const E: f64 = f32::EPSILON as f64;

fn prims() -> Vec<Prim> {
    vec![
        ball(1.0),
        Prim::Sphere(1.5, -0.75, 1.0, 2.0),
        Prim::Box([-1.0, -0.5, -2.0], [1.5, 1.0, 0.5]),
        Prim::Box([-1.0, -1.0, 0.25], [1.0, 1.0, 0.25]),
        Prim::List(vec![ball(0.5), Prim::Box([-1.5, -1.0, -1.0], [-1.0, 1.5, 1.0])]),
    ]
}
fn frnd(v: V) -> [f32; 3] {
    v.map(|x| x as f32)
}
fn ray(o: V, d: V, tmax: f32) -> Rayf {
    let (o, d) = (frnd(o), frnd(d));
    Rayf::new(Point3f::new(o[0], o[1], o[2]), Vector3f::new(d[0], d[1], d[2]), tmax)
}
fn unitb(b: &B) -> B {
    let n = norm(b.v);
    let e = 2.0 * norm(b.e) / n + 8.0 * E;
    B { v: unit(b.v), e: [e; 3] }
}
/// world is the primitive `inner` placed by the transform with reference st
fn judge<P: IntersectsRay + Bounded3>(world: &P, inner: &dyn Primitive, st: &St<f32>, oo: V, od: V, tmax: f32, c: &mut Ctx) -> Res {
    // the world ray, and where it is in object space
    let (wo, _) = map_point(&st.m, oo);
    let wd = map_vec(&st.m, od);
    let wr = ray(wo, wd, tmax);
    let (wo, wd) = (pv(wr.origin), vv(wr.direction));
    let Some(bo) = bmap_point(&st.n, &st.en, &B::exact(wo), E) else {
        c.skip();
        return Ok(());
    };
    let bd = bmap_vec(&st.n, &st.en, &B::exact(wd), E);
    if wd == [0.0; 3] || norm(bd.v) == 0.0 {
        return Ok(());
    }
    // what a primitive of about unit size makes of a ray from afar: its own rounding grows with
    // the square of the distance
    let far = norm(bo.v);
    let own = if far < 8.0 { 0.0 } else { 16.0 * E * (1.0 + far * far) };
    if own > 0.01 || norm(bo.e) > 0.01 || norm(bd.e) > 0.01 * norm(bd.v) {
        // the ray is not known well enough in object space
        c.skip();
        return Ok(());
    }
    let got = shoot(world, wr);
    c.steps(2);
    if world.do_intersect(wr) != got.is_some() {
        return Err("do_intersect disagrees with intersect".into());
    }
    // the untransformed primitive on that ray, and on rays around it
    let base = shoot(inner, ray(bo.v, bd.v, tmax));
    let mut spread = [0f64; 15];
    for k in 0..16 {
        let s = |b: usize, a: usize| if (k >> b >> a) & 1 == 0 { -1.0 } else { 1.0 };
        let o: V = std::array::from_fn(|a| bo.v[a] + s(0, a) * (4.0 * bo.e[a] + 2.0 * E * bo.v[a].abs() + own));
        let g = if k < 8 { 1.0 } else { -1.0 };
        let d: V = std::array::from_fn(|a| bd.v[a] + g * s(0, a) * (4.0 * bd.e[a] + 2.0 * E * bd.v[a].abs()));
        for tm in [tmax, tmax * (1.0 - 4.0 * f32::EPSILON), (tmax as f64 * (1.0 + 4.0 * E)) as f32] {
            match (shoot(inner, ray(o, d, tm)), &base) {
                (None, None) => {}
                (Some(h), Some(b)) => {
                    for q in 0..15 {
                        spread[q] = spread[q].max((h.0[q] as f64 - b.0[q] as f64).abs());
                    }
                }
                _ => {
                    // within rounding of a boundary: either answer is right
                    c.skip();
                    return Ok(());
                }
            }
        }
    }
    let (b, h) = match (base, got) {
        (None, None) => {
            c.tally("misses");
            return Ok(());
        }
        (None, Some(h)) => return Err(format!("hit at {:e}; in object space the ray misses", h.t())),
        (Some(b), None) => return Err(format!("no hit; in object space the ray hits at {:e}", b.t())),
        (Some(b), Some(h)) => (b, h),
    };
    // rays within rounding of it hit different faces or members: any of these hits is right
    if (1..7).any(|q| spread[q] > 0.2) || (9..15).any(|q| spread[q] > 0.2 * (norm(b.v3(9 + (q - 9) / 3 * 3)) + 1e-3)) {
        c.tally("between two faces or members");
        c.skip();
        return Ok(());
    }
    c.tally("hits");
    let tol = |q: usize| 2.0 * spread[q] + 8.0 * E * (b.0[q] as f64).abs() + if q == 0 { own / norm(bd.v) } else { own };
    let t = h.t() as f64;
    if !((t - b.t() as f64).abs() <= tol(0) + 1e-30) {
        return Err(format!("hit at {:e}; in object space at {:e} (+- {:e})", t, b.t(), tol(0)));
    }
    for q in 7..9 {
        if !((h.0[q] as f64 - b.0[q] as f64).abs() <= tol(q) + 8.0 * E) {
            return Err(format!("surface coordinate {} instead of {}", h.0[q], b.0[q]));
        }
    }
    let part = |at: usize| B { v: b.v3(at), e: [tol(at), tol(at + 1), tol(at + 2)].map(|x| x + 4.0 * E) };
    let Some(p) = bmap_point(&st.m, &st.em, &part(1), E) else {
        c.skip();
        return Ok(());
    };
    p.close("hit point", h.p())?;
    // on the world ray, as far as the point the primitive itself reports is on its ray
    let w = add(wo, mulv(wd, t));
    let far = norm(sub(b.p(), add(bo.v, mulv(bd.v, b.t() as f64))));
    if far > 1e-4 * (1.0 + norm(b.p())) {
        c.tally("hits off the object-space ray (known finding of C21)");
    }
    let size = (0..3).map(|a| norm([st.m[a][0], st.m[a][1], st.m[a][2]])).sum::<f64>();
    let e = norm(p.e) * 4.0 + tol(0) * norm(wd) + 8.0 * E * (norm(wo) + t * norm(wd)) + 2.0 * far * size;
    if !(norm(sub(w, h.p())) <= e) {
        return Err(format!("the point {:?} is not on the world ray: {:?} (+- {:e})", h.p(), w, e));
    }
    let n = bmap_normal(&st.n, &st.en, &part(4), E);
    if norm(n.e) < 0.05 * norm(n.v) {
        c.tally("normals judged");
        unitb(&n).close("normal", h.v3(4))?;
    }
    if !((norm(h.v3(4)) - 1.0).abs() <= 16.0 * E) {
        return Err(format!("the normal {:?} is not unit", h.v3(4)));
    }
    bmap_vec(&st.m, &st.em, &part(9), E).close("dpdu", h.v3(9))?;
    bmap_vec(&st.m, &st.em, &part(12), E).close("dpdv", h.v3(12))?;
    let bb = bounds(world)?;
    for a in 0..3 {
        let e = 4.0 * p.e[a] + 32.0 * E * (0..4).map(|k| st.m[a][k].abs() * 4.0).sum::<f64>();
        if !(h.p()[a] >= bb.pmin[a] as f64 - e && h.p()[a] <= bb.pmax[a] as f64 + e) {
            return Err(format!("the point {:?} is outside the bounding box {:?}", h.p(), bb));
        }
    }
    Ok(())
}
struct Shoot<'a, 'b> {
    inner: &'a Prim,
    st: &'a St<f32>,
    org: &'a [V],
    tgt: &'a [V],
    /// lengths of the object-space direction
    len: &'a [f64],
    c: &'a mut Ctx<'b>,
}
impl Use for Shoot<'_, '_> {
    type Out = Res;
    fn with<P: Primitive + 'static>(self, world: P) -> Res {
        let inner = self.inner.handle();
        for o in self.org {
            for t in self.tgt {
                let d = sub(*t, *o);
                if norm(d) == 0.0 {
                    continue;
                }
                for k in self.len {
                    let d = mulv(d, *k);
                    for tm in [f32::INFINITY, f32::MAX, (1.0 / k) as f32, (0.6 / k) as f32] {
                        judge(&world, &*inner, self.st, *o, d, tm, self.c).map_err(|e| format!("object-space ray {:?} + t {:?}, tmax {:e}: {}", o, d, tm, e))?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn main() {
    let mut c = Check::new("C25");
    let gens = generators(false);
    let depth = c.by(3, 4);
    let states: Vec<St<f32>> = c.prepare("transforms", || explore::<f32>(&gens, depth));
    let gs: Vec<St<f32>> = c.prepare("generators", || gen_states::<f32>(&gens));
    let org: Vec<V> = vec![[0.1, 0.2, 0.3], [-3.0, 0.4, 0.1], [0.3, 4.0, -0.2], [2.0, -3.0, 2.5], [0.2, -0.3, -6.0]];
    let tgt: Vec<V> = vec![[0.2, 0.1, 0.3], [-0.6, 0.5, -0.4], [0.5, -0.7, 0.6], [-1.25, 0.2, 0.3], [3.0, 2.0, 1.0], [0.9, 0.9, -1.5]];
    let ps = prims();
    let (sr, pr, or, tr) = (&states, &ps, &org, &tgt);
    let n = (states.len() * ps.len()) as u64;
    c.suite("placed", "every distinct transform word up to the depth x every primitive (sphere, clipped sphere, box, flat box, list) x rays over object-space origins (inside, outside) and targets, four tmax classes", n, move |i, c| {
        let mut d = Dec(i);
        let p = d.of(pr);
        let st = d.of(sr);
        c.note(|| format!("transform {} primitive {:?}", st.word, p));
        c.distinct(1);
        p.leaf(Wrap(st.t, Shoot { inner: p, st, org: or, tgt: tr, len: &[1.0], c }))
    });
    let xs: Vec<St<f32>> = c.prepare("extreme transforms", || extreme_states::<f32>().into_iter().filter(|s| s.m.iter().chain(&s.n).flatten().all(|x| x.abs() < 1e9)).collect());
    let xr = &xs;
    let n = (xs.len() * ps.len()) as u64;
    c.suite("extreme", "transforms at extreme magnitudes (scales from 1e-7 to 1e6, far and tiny translations, nearly trivial rotations) alone and composed x every primitive x rays whose object-space direction is a ten-thousandth to a million times the usual", n, move |i, c| {
        let mut d = Dec(i);
        let p = d.of(pr);
        let st = d.of(xr);
        c.note(|| format!("transform {} primitive {:?}", st.word, p));
        c.distinct(1);
        p.leaf(Wrap(st.t, Shoot { inner: p, st, org: or, tgt: tr, len: &[1.0, 1e-4, 1e6], c }))
    });
    // every pair and every three of the parameters of placement and ray
    let dense = !c.quick();
    let al = alpha::rich(-4, 4, dense);
    let pos = alpha::positive(&al);
    let co: Vec<f64> = vec![0.0, 1e-6, -2e-4, 0.013, -0.3, 0.5, 1.0 - 1e-6, -1.0, 1.00003, -1.7, std::f64::consts::PI, -40.0, 1e4];
    let cpos: Vec<f64> = co.iter().map(|x| x.abs()).filter(|x| *x != 0.0).collect();
    // scale, angle, translation, ray origin, point aimed at, length of the direction, tmax
    let vals = |a: &Vec<f64>, p: &Vec<f64>| -> [Vec<f64>; 15] {
        std::array::from_fn(|k| match k {
            0..=2 => a.iter().copied().filter(|x| *x != 0.0).collect(),
            13 => p.clone(),
            14 => p.iter().copied().chain([f64::INFINITY]).collect(),
            _ => a.clone(),
        })
    };
    let inf = f64::INFINITY;
    let bases = vec![
        [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, -3.0, 0.4, 0.1, 0.2, 0.1, 0.3, 1.0, inf],
        [2.0, -0.5, 1.5, 0.7, 3.0, -1.0, 0.5, 0.3, 4.0, -0.2, -0.6, 0.5, -0.4, 1.0, inf],
        [1.0, 1.0, 1.0, 1.2, 10.0, 0.0, -20.0, 2.0, -3.0, 2.5, 0.2, 0.1, 0.3, 1.0, 1.5],
    ];
    let sw = [alpha::Sweep::new(2, bases[..c.by(1, 3)].to_vec(), vals(&al, &pos)), alpha::Sweep::new(2, bases.clone(), vals(&alpha::coarse(), &alpha::positive(&alpha::coarse()))), alpha::Sweep::new(3, bases[1..c.by(2, 3)].to_vec(), vals(&co, &cpos)), alpha::Sweep::near_ties(64, c.by(2, 5), bases.clone(), vals(&alpha::rich(-4, 4, false), &alpha::positive(&alpha::rich(-4, 4, false))))];
    for (nm, sw) in [("pairs", &sw[0]), ("coarse-pairs", &sw[1]), ("triples", &sw[2]), ("near-ties", &sw[3])] {
        c.suite(nm, "every pair (over the rich and the coarse alphabet) or every three (over a small one) of scale, rotation angle, translation, ray origin, target, length of the direction and tmax varied around base cases, or each over a fine ladder of magnitudes, or every two of them almost equal or opposite, x every primitive", sw.n() * ps.len() as u64, |i, c| {
            let mut d = Dec(i);
            let p = d.of(pr);
            let q = sw.get(d.0);
            c.note(|| format!("parameters {:?} primitive {:?}", q, p));
            c.distinct(1);
            let mut st = St::<f32>::identity();
            if q[4..7] != [0.0; 3] {
                st = st.compose(&St::gen(&Gen::Translate([q[4], q[5], q[6]]), String::new()));
            }
            if q[3] != 0.0 {
                st = st.compose(&St::gen(&Gen::Rot([1.0, 2.0, -0.5], q[3]), String::new()));
            }
            if q[..3] != [1.0; 3] {
                st = st.compose(&St::gen(&Gen::Scale([q[0], q[1], q[2]]), String::new()));
            }
            let o = [q[7], q[8], q[9]];
            let dir = mulv(sub([q[10], q[11], q[12]], o), q[13]);
            if norm(dir) == 0.0 {
                return Ok(());
            }
            struct One<'a, 'b>(&'a Prim, &'a St<f32>, V, V, f32, &'a mut Ctx<'b>);
            impl Use for One<'_, '_> {
                type Out = Res;
                fn with<P: Primitive + 'static>(self, world: P) -> Res {
                    struct In<'a, 'b, P>(P, One<'a, 'b>);
                    impl<P: Primitive> Use for In<'_, '_, P> {
                        type Out = Res;
                        fn with<Q: Primitive + 'static>(self, inner: Q) -> Res {
                            let w = self.1;
                            judge(&self.0, &inner, w.1, w.2, w.3, w.4, w.5)
                        }
                    }
                    self.0.leaf(In(world, One(self.0, self.1, self.2, self.3, self.4, self.5)))
                }
            }
            p.leaf(Wrap(st.t, One(p, &st, o, dir, q[14] as f32, c)))
        });
    }
    // histories: what a placed primitive answers does not depend on what was asked before
    let ho: Vec<([f64; 3], [f64; 3], f32)> = vec![([-4.0, 0.3, 0.2], [1.0, 0.0, 0.1], f32::INFINITY), ([-4.0, 0.3, 0.2], [1.0, 0.0, 0.1], 1.25), ([-4.0, 0.3, 0.2], [-1.0, 0.2, 0.1], f32::INFINITY), ([-4.0, 0.3, 0.2], [1.0, -0.2, -0.1], f32::INFINITY),
        ([0.1, 0.2, 0.3], [1.0, 0.0, 0.1], f32::INFINITY), ([0.2, 5.0, 0.3], [0.1, -1.0, 0.0], f32::INFINITY)];
    let len = c.by(3, 4);
    let ops = 2 * (2 * ho.len() + 1);
    let n = (ops as u64).pow(len) * (gs.len() * ps.len()) as u64;
    let (hor, gr) = (&ho, &gs);
    c.suite("histories", "every sequence of this many operations (bounding box, intersect or query a ray, the rays sharing origin, direction or both) on two live placed primitives in every interleaving x every generator transform x every primitive: every answer is that of a newly placed primitive", n, |i, c| {
        struct Live<'a, 'b> {
            p: &'a Prim,
            st: &'a St<f32>,
            rays: &'a [Rayf],
            i: u64,
            len: u32,
            c: &'a mut Ctx<'b>,
        }
        impl Use for Live<'_, '_> {
            type Out = Res;
            fn with<P: Primitive + 'static>(self, world: P) -> Res {
                struct Two<'a, 'b, P>(P, Live<'a, 'b>);
                impl<P: Primitive> Use for Two<'_, '_, P> {
                    type Out = Res;
                    fn with<Q: Primitive + 'static>(self, other: Q) -> Res {
                        let (world, l) = (self.0, self.1);
                        // the second one is the same primitive moved away
                        let (second, shift) = (TransformedPrimitive::new(other, l.st.t), Gen::Translate([0.25, -0.5, 0.125]).build::<f32>());
                        let second = TransformedPrimitive::new(second, shift);
                        let live: [&dyn Primitive; 2] = [&world, &second];
                        let m = 2 * l.rays.len() + 1;
                        let mut d = Dec(l.i);
                        for step in 0..l.len {
                            let o = d.take(2 * m);
                            let (who, o) = (o % 2, o / 2);
                            // a newly placed one
                            struct Fresh;
                            impl Use for Fresh {
                                type Out = PrimitiveHandle;
                                fn with<P: Primitive + 'static>(self, p: P) -> PrimitiveHandle {
                                    alloc_primitive(p)
                                }
                            }
                            let fresh = match who {
                                0 => l.p.leaf(Wrap(l.st.t, Fresh)),
                                _ => l.p.leaf(Wrap(l.st.t, Wrap(shift, Fresh))),
                            };
                            let bad = |e: String| Err(format!("history {}, step {} (object {}): {}", l.i, step, who, e));
                            l.c.step();
                            if o == m - 1 {
                                let (a, b) = (bounds(live[who])?, bounds(&*fresh)?);
                                if (a.pmin, a.pmax) != (b.pmin, b.pmax) {
                                    return bad(format!("the bounding box is {:?} instead of {:?}", a, b));
                                }
                            } else {
                                let r = l.rays[o / 2];
                                if o % 2 == 0 {
                                    let (a, b) = (shoot(live[who], r), shoot(&*fresh, r));
                                    let same = match (&a, &b) {
                                        (None, None) => true,
                                        (Some(a), Some(b)) => a.same(b),
                                        _ => false,
                                    };
                                    if !same {
                                        return bad(format!("ray {:?} gives {:?} instead of {:?}", r, a, b));
                                    }
                                } else if live[who].do_intersect(r) != fresh.do_intersect(r) {
                                    return bad(format!("ray {:?}: the query disagrees with that of a newly placed primitive", r));
                                }
                            }
                        }
                        Ok(())
                    }
                }
                self.p.leaf(Two(world, self))
            }
        }
        let mut d = Dec(i);
        let p = d.of(pr);
        let st = d.of(gr);
        c.note(|| format!("transform {} primitive {:?}", st.word, p));
        c.distinct(1);
        let rays: Vec<Rayf> = hor.iter().map(|(o, v, t)| ray(map_point(&st.m, *o).0, map_vec(&st.m, *v), *t)).collect();
        p.leaf(Wrap(st.t, Live { p, st, rays: &rays, i: d.0, len, c }))
    });
    let g = gs.len();
    let n = (g * g * ps.len()) as u64;
    c.suite("nested", "a transformed primitive inside a transformed primitive: every pair of generators, against the composition", n, move |i, c| {
        let mut d = Dec(i);
        let p = d.of(pr);
        let (a, b) = (d.of(gr), d.of(gr));
        let st = a.compose(b);
        c.note(|| format!("outer {} inner {} primitive {:?}", a.word, b.word, p));
        c.distinct(1);
        p.leaf(Wrap(b.t, Wrap(a.t, Shoot { inner: p, st: &st, org: or, tgt: tr, len: &[1.0], c })))
    });
    let n = (g * g * g * ps.len()) as u64;
    c.suite("nested-3", "three transformed primitives inside each other: every triple of generators", n, move |i, c| {
        let mut d = Dec(i);
        let p = d.of(pr);
        let (a, b, e) = (d.of(gr), d.of(gr), d.of(gr));
        let st = a.compose(b).compose(e);
        c.note(|| format!("outer {} middle {} inner {} primitive {:?}", a.word, b.word, e.word, p));
        c.distinct(1);
        p.leaf(Wrap(e.t, Wrap(b.t, Wrap(a.t, Shoot { inner: p, st: &st, org: or, tgt: tr, len: &[1.0], c }))))
    });
    c.assume("the hit of the untransformed primitive is what it itself reports (judged by C20-C24); rays for which it answers differently within the rounding bound of the object-space ray are not judged");
    c.finish();
}
