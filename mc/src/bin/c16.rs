//! C16 transform constructors.
use mc::num::Fl;
use mc::refmath::*;
use mc::*;
use scarlet::math::vector::Normal3;
use std::f64::consts::PI;

fn near(what: &str, got: V, want: V, tol: f64) -> Res {
    for i in 0..3 {
        if !((got[i] - want[i]).abs() <= tol) {
            return Err(format!("{}: got {:?}, expected {:?} (+- {:e})", what, got, want, tol));
        }
    }
    Ok(())
}
fn r<T: Fl>(v: V) -> V {
    v.map(|x| T::f(x).d())
}
fn probe() -> Vec<V> {
    vec![[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., 0., 0.], [1., -2., 3.], [-0.3, 0.7, 0.2], [100., -0.01, 5.]]
}
/// points, vectors, normals and their inverses against the reference matrices
fn against_model<T: Fl>(g: &Gen, pr: &[V], c: &mut Ctx) -> Res {
    let s = St::<T>::gen(g, String::new());
    let e = T::EPS;
    for p in pr {
        let p = *p;
        let o = p3::<T>(p);
        let b = B::exact(pv(o));
        if let Some(q) = bmap_point(&s.m, &s.em, &b, e) {
            q.close("point", pv(s.t.map(o)))?;
        }
        if let Some(q) = bmap_point(&s.n, &s.en, &b, e) {
            q.close("point, inverse", pv(s.t.map_inverse(o)))?;
        }
        if !s.affine {
            continue;
        }
        let v = v3::<T>(p);
        bmap_vec(&s.m, &s.em, &b, e).close("vector", vv(s.t.map(v)))?;
        bmap_vec(&s.n, &s.en, &b, e).close("vector, inverse", vv(s.t.map_inverse(v)))?;
        let n = Normal3::<T>::new(o.x(), o.y(), o.z());
        let q: Normal3<T> = s.t.map(n);
        bmap_normal(&s.n, &s.en, &b, e).close("normal", q.vec.map(|x| x.d()))?;
        c.steps(5);
    }
    s.agrees()
}
fn run<T: Fl>(c: &mut Check) {
    let e = T::EPS;
    let pr = probe();
    let comp = [0.0, 1.0, -1.0, 0.3, -7.25, 1e6, 1e-5, 4e-7];
    c.suite(&format!("translate-{}", T::NAME), "every translation vector over the alphabet", 512, |i, c| {
        let mut d = Dec(i);
        let v = [*d.of(&comp), *d.of(&comp), *d.of(&comp)];
        c.note(|| format!("translate {:?}", v));
        c.state(Fp::new(i));
        let t = Gen::Translate(v).build::<T>();
        let vr = r::<T>(v);
        for p in pr.iter().copied() {
            let pr = r::<T>(p);
            near("point", pv(t.map(p3::<T>(p))), add(pr, vr), 2.0 * e * (norm(pr) + norm(vr)))?;
            near("point back", pv(t.map_inverse(p3::<T>(p))), sub(pr, vr), 2.0 * e * (norm(pr) + norm(vr)))?;
            near("vector", vv(t.map(v3::<T>(p))), pr, 0.0)?;
            near("vector back", vv(t.map_inverse(v3::<T>(p))), pr, 0.0)?;
            c.steps(4);
        }
        against_model::<T>(&Gen::Translate(v), &pr, c)
    });
    let sc = [1.0, -1.0, 0.3, -7.25, 1e4, 1e-4, 2.0, 3e-7, 1.00003, 1e9];
    c.suite(&format!("scale-{}", T::NAME), "every scale vector over the alphabet of non-zero factors", 1000, |i, c| {
        let mut d = Dec(i);
        let v = [*d.of(&sc), *d.of(&sc), *d.of(&sc)];
        c.note(|| format!("scale {:?}", v));
        c.state(Fp::new(i));
        let t = Gen::Scale(v).build::<T>();
        let vr = r::<T>(v);
        for p in pr.iter().copied() {
            let pr = r::<T>(p);
            let (w, wi): (V, V) = (std::array::from_fn(|k| pr[k] * vr[k]), std::array::from_fn(|k| pr[k] / vr[k]));
            for k in 0..3 {
                let one = |x: V| [x[k], 0.0, 0.0];
                near("point", one(pv(t.map(p3::<T>(p)))), one(w), 2.0 * e * w[k].abs())?;
                near("vector", one(vv(t.map(v3::<T>(p)))), one(w), 2.0 * e * w[k].abs())?;
                near("point back", one(pv(t.map_inverse(p3::<T>(p)))), one(wi), 4.0 * e * wi[k].abs())?;
                near("vector back", one(vv(t.map_inverse(v3::<T>(p)))), one(wi), 4.0 * e * wi[k].abs())?;
            }
            c.steps(4);
        }
        against_model::<T>(&Gen::Scale(v), &pr, c)
    });
    let mut angles: Vec<f64> = (-30..=30).map(|k| k as f64 * PI / 12.0).collect();
    angles.extend([4e-7, 6e-5, -3e-4, 1e-6, -1e-6, 1e-3, 0.1, -0.7, 1.0, 2.0, 3.0, -4.4, 5.5, 6.2, 10.0, 100.0, -33.3]);
    let n = angles.len() as u64;
    c.suite(&format!("rotate-xyz-{}", T::NAME), "every angle about each coordinate axis, also by the general constructor", n * 3, |i, c| {
        let mut d = Dec(i);
        let a = *d.of(&angles);
        let k = d.take(3);
        c.note(|| format!("axis {} angle {}", k, a));
        c.state(Fp::new(i));
        let g = [Gen::RotX(a), Gen::RotY(a), Gen::RotZ(a)][k];
        let t = g.build::<T>();
        let mut ax = [0.0; 3];
        ax[k] = 1.0;
        let u = Gen::Rot(ax, a).build::<T>();
        let (s, co) = T::f(a).d().sin_cos();
        let (p, q) = ((k + 1) % 3, (k + 2) % 3);
        let (mut ep, mut eq, mut wp, mut wq) = ([0.0; 3], [0.0; 3], [0.0; 3], [0.0; 3]);
        ep[p] = 1.0;
        eq[q] = 1.0;
        wp[p] = co;
        wp[q] = s;
        wq[p] = -s;
        wq[q] = co;
        for (nm, t) in [("own constructor", t), ("general constructor", u)] {
            near(&format!("{}: axis", nm), vv(t.map(v3::<T>(ax))), ax, 4.0 * e)?;
            near(&format!("{}: next axis turns towards the one after", nm), vv(t.map(v3::<T>(ep))), wp, 6.0 * e)?;
            near(&format!("{}: the one after turns away", nm), vv(t.map(v3::<T>(eq))), wq, 6.0 * e)?;
            c.steps(3);
        }
        against_model::<T>(&g, &pr, c)
    });
    let ac = [0.0, 1.0, -1.0, 0.3, -2.0];
    let len = [1.0, 1e-3, 1e3, 1.00004, 0.99996, 1.0000004, 1e-9, 1e9];
    let na = angles.len() as u64 * 125 * 8;
    c.suite(&format!("rotate-{}", T::NAME), "every non-zero axis over the alphabet, eight axis lengths, every angle: axis fixed, lengths kept, right-handed turn by the angle", na, |i, c| {
        let mut d = Dec(i);
        let a = *d.of(&angles);
        let l = *d.of(&len);
        let v = [*d.of(&ac) * l, *d.of(&ac) * l, *d.of(&ac) * l];
        if norm(v) == 0.0 {
            return Ok(());
        }
        c.note(|| format!("axis {:?} angle {}", v, a));
        c.state(Fp::new(i));
        let t = Gen::Rot(v, a).build::<T>();
        let u = unit(r::<T>(v));
        let (s, co) = T::f(a).d().sin_cos();
        let tol = 16.0 * e;
        near("axis", vv(t.map(v3::<T>(v))), r::<T>(v), tol * norm(v))?;
        for p in pr.iter().copied() {
            let x = r::<T>(p);
            let par = mulv(u, dot(u, x));
            let per = sub(x, par);
            let want = add(par, add(mulv(per, co), mulv(cross(u, x), s)));
            let got = vv(t.map(v3::<T>(p)));
            near("rotated vector", got, want, tol * norm(x))?;
            near("rotated point", pv(t.map(p3::<T>(p))), want, tol * norm(x))?;
            near("rotated back", vv(t.map_inverse(t.map(v3::<T>(p)))), x, 2.0 * tol * norm(x))?;
            c.steps(3);
        }
        against_model::<T>(&Gen::Rot(v, a), &pr, c)
    });
    let ct = alpha::Ctors::new(!c.quick());
    c.suite(&format!("constructors-{}", T::NAME), "every constructor with every pair (over the rich alphabet) and every three (over the coarse one) of its parameters varied around base points, against the reference matrices of the named geometry: points, vectors and normals, forward and backward", ct.n(), |i, c| {
        let Some(g) = ct.get(i) else { return Ok(()) };
        c.note(|| format!("{:?}", g));
        c.distinct(1);
        against_model::<T>(&g, &pr[4..], c)
    });
    let q = c.quick();
    let ec: Vec<f64> = if q { vec![0.0, 1.5, -3.0] } else { vec![0.0, 1.5, -3.0, 10.25] };
    let tc: Vec<f64> = if q { vec![0.0, -2.0, 4.0] } else { vec![0.0, -2.0, 4.0, 0.1] };
    let uc = [0.0, 1.0, -2.0, 0.4, 6e-7];
    let n = (ec.len() as u64).pow(3) * (tc.len() as u64).pow(3) * 125 * 5;
    let scales = [(1.0, 1.0), (1e-3, 1.0), (1e3, 1.0), (1.0, 1e-4), (0.1, 1e4)];
    c.suite(&format!("look-at-{}", T::NAME), "every eye, target and up vector over the alphabets with up not parallel to the view direction, at five scales of the scene and of the up vector", n, |i, c| {
        let mut d = Dec(i);
        let (sp, su) = *d.of(&scales);
        let eye = mulv([*d.of(&ec), *d.of(&ec), *d.of(&ec)], sp);
        let tgt = mulv([*d.of(&tc), *d.of(&tc), *d.of(&tc)], sp);
        let up = mulv([*d.of(&uc), *d.of(&uc), *d.of(&uc)], su);
        let (er, tr, ur) = (r::<T>(eye), r::<T>(tgt), r::<T>(up));
        let view = sub(tr, er);
        let si = norm(cross(view, ur)) / (norm(view) * norm(ur));
        if !(si > 0.02) {
            c.skip();
            return Ok(());
        }
        c.note(|| format!("eye {:?} target {:?} up {:?}", eye, tgt, up));
        c.state(Fp::new(i));
        let t = Gen::LookAt(eye, tgt, up).build::<T>();
        let size = norm(er) + norm(tr);
        let rel = 64.0 * e * (1.0 / si + size / norm(view));
        let tol = rel * size;
        near("eye", pv(t.map(p3::<T>(eye))), [0.0; 3], tol)?;
        near("target", pv(t.map(p3::<T>(tgt))), [0.0, 0.0, -norm(view)], tol)?;
        near("origin of the camera in the world", pv(t.map_inverse(p3::<T>([0.0; 3]))), er, tol)?;
        let un = mulv(ur, 1.0 / norm(ur));
        let g = mulv(vv(t.map(v3::<T>(up))), 1.0 / norm(ur));
        let cosv = dot(un, mulv(view, -1.0 / norm(view)));
        near("up", g, [0.0, si, cosv], rel)?;
        // rigid and right-handed
        let (x, y, z) = (vv(t.map(v3::<T>([1., 0., 0.]))), vv(t.map(v3::<T>([0., 1., 0.]))), vv(t.map(v3::<T>([0., 0., 1.]))));
        near("handedness", cross(x, y), z, rel)?;
        for (k, w) in [x, y, z].iter().enumerate() {
            if !((norm(*w) - 1.0).abs() <= rel) {
                return Err(format!("the image of axis {} has length {}", k, norm(*w)));
            }
        }
        c.steps(7);
        against_model::<T>(&Gen::LookAt(eye, tgt, up), &pr, c)
    });
    let fov: Vec<f64> = vec![1e-4, 1e-3, 0.02, 0.05, 0.3, PI / 4.0, 1.0, 1.4, PI / 2.0 - 1e-4, PI / 2.0, PI / 2.0 + 1e-4, 2.0, 2.4, 2.8, 2.95, 3.0, 3.05, 3.1, 3.13, 3.14];
    let pl: Vec<f64> = vec![1e-5, 1e-3, 1e-2, 0.1, 0.5, 0.99, 1.0, 1.01, 2.0, 3.0, 10.0, 100.0, 1000.0, 1e5];
    let n = (fov.len() * pl.len() * pl.len()) as u64;
    c.suite(&format!("perspective-{}", T::NAME), "every field of view and every near and far plane (reversed depth included): all corners, face centres and inner points of the frustum", n, |i, c| {
        let mut d = Dec(i);
        let a = *d.of(&fov);
        let (n, f) = (*d.of(&pl), *d.of(&pl));
        if n == f {
            return Ok(());
        }
        c.note(|| format!("fov {} near {} far {}", a, n, f));
        c.state(Fp::new(i));
        let g = Gen::Persp(a, n, f);
        let t = g.build::<T>();
        let (ar, nr, fr) = (T::f(a).d(), T::f(n).d(), T::f(f).d());
        let th = (ar / 2.0).tan();
        for zi in 0..=4 {
            let z = nr + (fr - nr) * zi as f64 / 4.0;
            for sx in [-1.0, -0.5, 0.0, 0.25, 1.0] {
                for sy in [-1.0, -0.3, 0.0, 1.0] {
                    let p = r::<T>([sx * th * z, sy * th * z, -z]);
                    let zz = -p[2];
                    let want = [p[0] / (th * zz), p[1] / (th * zz), fr * (zz - nr) / (zz * (fr - nr))];
                    let got = pv(t.map(p3::<T>(p)));
                    let kt = ar / ar.sin();
                    let kd = fr.max(nr) / (fr - nr).abs();
                    near("projected point", got, want, 64.0 * e * (kd + kt))?;
                    c.step();
                    // and back; the depth is recovered with a relative error growing with far/near
                    let k = 256.0 * e * (kd * (zz / nr.min(fr) + kd) + kt) * (1.0 + th);
                    if k < 0.1 {
                        let back = pv(t.map_inverse(t.map(p3::<T>(p))));
                        near("projected and back", back, p, k * zz * (1.0 + th))?;
                        c.step();
                    } else {
                        c.skip();
                    }
                }
            }
        }
        Ok(())
    });
}
fn main() {
    let mut c = Check::new("C16");
    run::<f32>(&mut c);
    run::<f64>(&mut c);
    c.assume("the platform's sin and cos are accurate to a few ulps at the enumerated angles");
    c.finish();
}
