//! C23 surface data of a sphere hit.
use mc::refmath::{norm, sub, unit, V};
use mc::spheres::*;
use mc::*;
use mc::scene::bounds;
use scarlet::geometry::primitive::IntersectsRay;
use std::f64::consts::PI;

const E: f64 = f32::EPSILON as f64;

fn acos(x: f64) -> f64 {
    x.clamp(-1.0, 1.0).acos()
}
/// acos(z/r) with an error bound for z off by e
fn polar(z: f64, r: f64, e: f64) -> (f64, f64) {
    let x = (z / r).clamp(-1.0, 1.0);
    let d = e / r + 4.0 * E * x.abs();
    (acos(x), (acos(x - d) - acos(x + d)).abs() + 4.0 * E)
}

fn main() {
    let mut c = Check::new("C23");
    explore(&mut c, |k, c| {
        let (s, r) = (k.s.real(), k.ray());
        c.step();
        let Some(h) = s.intersect(r) else { return Ok(()) };
        let Meet::Roots(roots) = k.meet() else {
            c.skip();
            return Ok(());
        };
        let f = |v: [f32; 3]| v.map(|x| x as f64);
        let si = &h.surface_interaction;
        let (p, n, du, dv) = (f(si.p.vec), f(si.n.vec), f(si.dpdu.vec), f(si.dpdv.vec));
        let (u, v, t) = (si.uv.x() as f64, si.uv.y() as f64, h.t_ray as f64);
        let root = if (roots[0].t - t).abs() <= (roots[1].t - t).abs() { roots[0] } else { roots[1] };
        let (ep, rad) = (root.ep, k.s.r);
        if ep > 0.01 * rad {
            c.skip();
            return Ok(());
        }
        c.tally("hits");
        let far = |a: V, b: V| norm(sub(a, b));
        if !(far(p, k.at(t)) <= 2.0 * ep) {
            return Err(format!("the point {:?} is not the ray at {:e}: {:?}", p, t, k.at(t)));
        }
        if !((norm(p) - rad).abs() <= 2.0 * ep + 4.0 * E * rad) {
            return Err(format!("the point {:?} is not on the sphere", p));
        }
        if !(far(n, unit(p)) <= 2.0 * ep / rad + 16.0 * E) || !((norm(n) - 1.0).abs() <= 16.0 * E) {
            return Err(format!("the normal {:?} is not the unit outward normal at {:?}", n, p));
        }
        let b = bounds(&s)?;
        for a in 0..3 {
            if !(p[a] >= b.pmin[a] as f64 - 2.0 * ep && p[a] <= b.pmax[a] as f64 + 2.0 * ep) {
                return Err(format!("the point {:?} is outside the bounding box {:?}", p, b));
            }
        }
        // surface coordinates, from the reported point
        let rho = p[0].hypot(p[1]);
        let (phi, ephi) = (p[1].atan2(p[0]), if rho > 4.0 * ep { 2.0 * ep / rho + 8.0 * E } else { 7.0 });
        let range = k.s.phi + PI;
        let (th, eth) = polar(p[2], rad, 2.0 * ep);
        let (t0, e0) = polar(k.s.z0, rad, 0.0);
        let (t1, e1) = polar(k.s.z1, rad, 0.0);
        let eu = ephi / range + 16.0 * E * (1.0 + PI / range);
        let ev = (eth + e0 + (e0 + e1)) / (t0 - t1) + 16.0 * E;
        let wu = (phi + PI) / range;
        let wraps = p[0] < 0.0 && p[1].abs() <= 4.0 * ep;
        // a slice so thin that its two polar angles are the same number has no v
        let thin = t0 - t1 <= 4.0 * (e0 + e1);
        if thin {
            c.tally("slice below the resolution of its polar angles");
        }
        if !(u >= -(16.0 * E) && u <= 1.0 + 16.0 * E * (1.0 + PI / range)) {
            return Err(format!("u is {}", u));
        }
        if !thin && !(v >= -ev && v <= 1.0 + ev) {
            return Err(format!("v is {} (+- {:e})", v, ev));
        }
        if !((u - wu).abs() <= eu || wraps && ((u - wu).abs() - 2.0 * PI / range).abs() <= eu) {
            return Err(format!("u is {}, azimuth {} corresponds to {} (+- {:e})", u, phi, wu, eu));
        }
        let wv = (t0 - th) / (t0 - t1);
        if !thin && !((v - wv).abs() <= ev) {
            return Err(format!("v is {}, polar angle {} corresponds to {} (+- {:e})", v, th, wv, ev));
        }
        // tangents
        let wdu = [-p[1] * range, p[0] * range, 0.0];
        // 2 E: the azimuth range itself carries the rounding of pi
        if !(far(du, wdu) <= range * (4.0 * ep + 16.0 * E * rad) + 2.0 * E * rho) {
            return Err(format!("dpdu {:?} expected {:?}", du, wdu));
        }
        let dth = t1 - t0;
        let sth = th.sin() * rad;
        let tol = (e0 + e1 + 16.0 * E * dth.abs()) * rad + dth.abs() * (4.0 * ep + rad * eth);
        if !((dv[2] + dth * sth).abs() <= tol) {
            return Err(format!("dpdv {:?}: z should be {:e}", dv, -dth * sth));
        }
        if !((dv[0].hypot(dv[1]) - (dth * p[2]).abs()).abs() <= tol) {
            return Err(format!("dpdv {:?}: horizontal length should be {:e}", dv, (dth * p[2]).abs()));
        }
        if ephi < 0.1 {
            c.tally("hits away from the axis");
            let w = [dth * p[2] * p[0] / rho, dth * p[2] * p[1] / rho];
            let d = (dv[0] - w[0]).hypot(dv[1] - w[1]);
            if !(d <= tol + (dth * p[2]).abs() * 2.0 * ephi) {
                return Err(format!("dpdv {:?}: horizontal part should be {:?}", dv, w));
            }
        }
        Ok(())
    });
    let mut sh = shapes();
    for r in [0.5, 2.0, 7.3] {
        for a in -6..6i32 {
            for b in a + 1..=6 {
                for ph in [-2.5f32, -1.0, 0.0, 0.7, 2.9, std::f32::consts::PI] {
                    let f = |x: f64| x as f32 as f64;
                    sh.push(Shape { r: f(r), z0: f(r * a as f64 / 4.0), z1: f(r * b as f64 / 4.0), phi: ph as f64 });
                }
            }
        }
    }
    // every combination over the coarse alphabet, every pair over the rich one
    let co = alpha::coarse();
    let rc = alpha::rich(-8, 8, true);
    let f = |x: f64| x as f32 as f64;
    let mut push = |r: f64, a: f64, b: f64, ph: f64| {
        if f(r * a) < f(r * b) && ph > -3.14 && ph <= PI {
            sh.push(Shape { r: f(r), z0: f(r * a), z1: f(r * b), phi: f(ph).min(std::f32::consts::PI as f64) });
        }
    };
    for r in alpha::positive(&co) {
        for a in &co {
            for b in &co {
                for p in &co {
                    push(r, *a, *b, *p);
                }
            }
        }
    }
    for r in alpha::positive(&rc) {
        for x in &rc {
            push(r, -1.0, 1.0, *x);
            push(r, *x, 0.8, 2.0);
            push(r, -0.6, *x, 2.0);
        }
    }
    for x in &rc {
        for y in &rc {
            push(1.0, *x, *y, PI);
            push(2.5, *x, 0.9, *y);
            push(0.3, -0.7, *x, *y);
        }
    }
    // each parameter over a fine ladder
    for k in -64 * 8..=64 * 8 {
        let m = 10f64.powf(k as f64 / 64.0);
        for g in [m, -m] {
            push(m, -0.6, 0.9, -2.0);
            push(1.0, g, 2.0 * m, 1.0);
            push(3.0, g, 0.9, 2.5);
            push(3.0, -0.9, g, 2.5);
            push(0.7, -0.6, 0.9, g);
        }
        push(0.7, -0.6, 0.9, -PI + m);
        push(40.0, -0.6, 0.9, PI - m);
    }
    c.suite("area and bounds", "every shape: radius x z range (inside and beyond the poles) x azimuth limit; each of them over a fine ladder of magnitudes", sh.len() as u64, |i, c| {
        let s = sh[i as usize];
        c.note(|| format!("{:?}", s));
        let real = s.real();
        c.steps(2);
        c.distinct(1);
        let (z0, z1) = (s.z0.clamp(-s.r, s.r), s.z1.clamp(-s.r, s.r));
        let want = (s.phi + PI) * s.r * (z1 - z0);
        let got = real.area() as f64;
        if !((got - want).abs() <= 16.0 * E * (2.0 * PI * s.r * (z0.abs() + z1.abs()))) {
            return Err(format!("area is {:e}, the kept surface has {:e}", got, want));
        }
        if z0 == z1 {
            return Ok(()); // nothing of the sphere is kept
        }
        // every point of the kept surface is in the bounding box
        let b = bounds(&real)?;
        for a in 0..=12 {
            for q in 0..=12 {
                let z = z0 + (z1 - z0) * a as f64 / 12.0;
                let ph = -PI + (s.phi + PI) * q as f64 / 12.0;
                let w = (s.r * s.r - z * z).max(0.0).sqrt();
                let p = [w * ph.cos(), w * ph.sin(), z];
                for k in 0..3 {
                    let e = 4.0 * E * s.r;
                    if !(p[k] >= b.pmin[k] as f64 - e && p[k] <= b.pmax[k] as f64 + e) {
                        return Err(format!("surface point {:?} is outside the bounding box {:?}", p, b));
                    }
                }
            }
        }
        Ok(())
    });
    c.assume("rays grazing the sphere within the rounding bound, and hits located to worse than 1% of the radius, are not judged");
    c.finish();
}
