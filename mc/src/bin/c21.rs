//! C21 surface data of a box hit.
use mc::boxes::*;
use mc::refmath::{dot, norm};
use mc::*;
use scarlet::geometry::primitive::IntersectsRay;

const INSIDE: &str = "hit-from-inside-the-box";

fn main() {
    let mut c = Check::new("C21");
    explore(&mut c, |k, c| {
        let (b, r) = (k.bbox(), k.ray());
        let got = IntersectsRay::intersect(&b, r);
        c.steps(2);
        if b.do_intersect(r) != got.is_some() {
            return Err("intersect disagrees with do_intersect".into());
        }
        // whether there should be one is C20's business
        let Some(h) = got else { return Ok(()) };
        if k.empty() {
            return Err("the empty box is hit".into());
        }
        let f = |v: [f32; 3]| v.map(|x| x as f64);
        let si = &h.surface_interaction;
        let (p, n, u, v, t) = (f(si.p.vec), f(si.n.vec), f(si.dpdu.vec), f(si.dpdv.vec), h.t_ray as f64);
        let sp = k.span();
        let e = (sp.first[1] - sp.first[0]) / 2.0;
        let far = (0..3).map(|a| k.o[a].abs() + (k.d[a] * t).abs() + k.lo[a].abs() + k.hi[a].abs()).fold(0.0, f64::max);
        if !t.is_finite() && sp.first[1] == f64::INFINITY {
            // the entry parameter overflows
            c.skip();
            return Ok(());
        }
        // how far a point may be off
        let rep = |x: f64| x as f32 as f64 == x;
        let exact = k.exact && (0..3).all(|a| rep(k.d[a] * t) && rep(k.o[a] + k.d[a] * t));
        let tol = if exact { 0.0 } else { 8.0 * f32::EPSILON as f64 * far + 4.0 * e * norm(k.d) };
        if !k.exact && (sp.last[0] - sp.first[1]).abs() * norm(k.d) <= 4.0 * tol {
            c.skip();
            return Ok(());
        }
        // frame: unit, mutually perpendicular
        let unit = |x| (norm(x) - 1.0f64).abs() <= 1e-6;
        if !(unit(n) && unit(u) && unit(v)) || dot(n, u).abs() + dot(n, v).abs() + dot(u, v).abs() > 1e-6 {
            return Err(format!("the frame is not orthonormal: n {:?} dpdu {:?} dpdv {:?}", n, u, v));
        }
        // the point is in the box, on a face whose outward normal is n
        for a in 0..3 {
            if !(p[a] >= k.lo[a] - tol && p[a] <= k.hi[a] + tol) {
                return Err(format!("the point {:?} is outside the box", p));
            }
        }
        let mut faces = 0;
        let mut of_n = None;
        for a in 0..3 {
            for (s, w) in [(-1.0, k.lo[a]), (1.0, k.hi[a])] {
                let mut nn = [0.0; 3];
                nn[a] = s;
                if (p[a] - w).abs() <= 2.0 * tol {
                    faces += 1;
                }
                if (0..3).all(|q| (n[q] - nn[q]).abs() <= 1e-6) {
                    of_n = Some((p[a] - w).abs());
                }
            }
        }
        match of_n {
            None => return Err(format!("the normal {:?} is not an outward face normal", n)),
            Some(x) if x > tol => return Err(format!("the point {:?} is not on the face of the normal {:?}", p, n)),
            _ => {}
        }
        let on_ray = (0..3).all(|a| (p[a] - (k.o[a] + t * k.d[a])).abs() <= 2.0 * tol);
        if k.inside(tol) {
            c.tally("from inside");
            if on_ray && t >= 0.0 && t <= k.tmax {
                return Ok(());
            }
            // known finding: entry parameter 0 with the origin projected to the nearest face
            let near = (0..3).map(|a| (k.o[a] - k.lo[a]).min(k.hi[a] - k.o[a])).fold(f64::MAX, f64::min);
            let moved: Vec<f64> = (0..3).map(|a| (p[a] - k.o[a]).abs()).filter(|x| *x > tol).collect();
            if t == 0.0 && moved.len() == 1 && (moved[0] - near).abs() <= 2.0 * tol {
                c.known_finding(INSIDE, || format!("{:?}: t_ray = 0, p = {:?}", k, p));
                return Ok(());
            }
            return Err(format!("from inside: t {:e}, point {:?} is not on the ray", t, p));
        }
        if !on_ray {
            return Err(format!("the point {:?} is not the ray at {:e}", p, t));
        }
        if !k.outside(tol) {
            c.tally("from the boundary");
            return Ok(());
        }
        c.tally("from outside");
        // t0 itself may be an infinity of the direction's size only in f64
        if !within(h.t_ray, sp.first) {
            return Err(format!("t_ray is {:e}, the entry parameter is {:?}", t, sp.first));
        }
        if faces == 1 {
            c.tally("from outside, single face");
            if !(dot(n, k.d) < 0.0) {
                return Err(format!("the normal {:?} does not oppose the direction", n));
            }
        }
        Ok(())
    });
    c.assume("hits closer to an edge of the box than the rounding bound are not judged for the choice of face, and hits whose parameter exceeds the range of f32 not at all");
    c.finish();
}
