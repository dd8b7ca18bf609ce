//! C27 disk sampling.
use mc::*;
use scarlet::cameras::camera::{concentric_sample_disk, uniform_sample_disk};
use scarlet::math::vector::Point2f;
use std::f64::consts::{FRAC_PI_2, FRAC_PI_4, PI, TAU};

const E: f64 = f32::EPSILON as f64;
type P = [f64; 2];

/// square [-1,1]^2 to disk; up to a reflection through the centre
fn conc(x: f64, y: f64) -> P {
    if x == 0.0 && y == 0.0 {
        return [0.0, 0.0];
    }
    let (r, th) = if x.abs() > y.abs() { (x, FRAC_PI_4 * (y / x)) } else { (y, FRAC_PI_2 - FRAC_PI_4 * (x / y)) };
    [r * th.cos(), r * th.sin()]
}
fn real_c(x: f32, y: f32) -> P {
    let p = concentric_sample_disk(Point2f::new(x, y));
    [p.x() as f64, p.y() as f64]
}
fn real_u(x: f32, y: f32) -> P {
    let p = uniform_sample_disk(Point2f::new(x, y));
    [p.x() as f64, p.y() as f64]
}
fn dist(a: P, b: P) -> f64 {
    (a[0] - b[0]).hypot(a[1] - b[1])
}
fn judge(x: f32, y: f32, sign: f64, c: &mut Ctx) -> Res {
    c.steps(2);
    let p = real_c(x, y);
    if !(p[0].hypot(p[1]) <= 1.0 + 4.0 * E) {
        return Err(format!("concentric ({:e}, {:e}) gives {:?}, outside the disk", x, y, p));
    }
    // 2x-1 is exact in f64; an f32 implementation may round it, moving the sample by E
    let (a, b) = (2.0 * x as f64 - 1.0, 2.0 * y as f64 - 1.0);
    let q = conc(a, b);
    let r = a.abs().max(b.abs());
    if !(dist(p, [sign * q[0], sign * q[1]]) <= 4.0 * E + 16.0 * E * r) {
        return Err(format!("concentric ({:e}, {:e}) gives {:?}, expected {} * {:?}", x, y, p, sign, q));
    }
    let p = real_u(x, y);
    if !(p[0].hypot(p[1]) <= 1.0 + 4.0 * E) {
        return Err(format!("polar ({:e}, {:e}) gives {:?}, outside the disk", x, y, p));
    }
    let (r, th) = ((y as f64).sqrt(), TAU * x as f64);
    if !(dist(p, [r * th.cos(), r * th.sin()]) <= r * (8.0 * E + 4.0 * E * th)) {
        return Err(format!("polar ({:e}, {:e}) gives {:?}, expected radius {} angle {}", x, y, p, r, th));
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C27");
    let sign = c.prepare("orientation", || if real_c(0.75, 0.5)[0] > 0.0 { 1.0 } else { -1.0 });
    let n: u64 = c.by(4096, 32768);
    c.suite("grid", "every sample of a uniform grid over the closed unit square, both mappings (all four edges, both diagonals and the centre included)", (n + 1) * (n + 1), |i, c| {
        let (x, y) = ((i % (n + 1)) as f32 / n as f32, (i / (n + 1)) as f32 / n as f32);
        c.note(|| format!("sample ({:e}, {:e})", x, y));
        c.distinct(1);
        judge(x, y, sign, c)
    });
    // samples a few floats away from the special lines
    let mut v: Vec<f32> = vec![];
    for base in [0.0f32, 1e-30, 1e-10, 1e-4, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.6, 0.75, 0.9, 1.0] {
        let (mut a, mut b) = (base, base);
        v.push(base);
        for _ in 0..c.by(6, 24) {
            a = a.next_up();
            b = b.next_down();
            v.extend([a, b]);
        }
        v.push(1.0 - base);
    }
    v.retain(|x| (0.0..=1.0).contains(x));
    v.sort_by(f32::total_cmp);
    v.dedup();
    let m = v.len() as u64;
    c.suite("neighbours", "every pair of coordinates from the immediate float neighbourhoods of 0, the quarters, the centre, the diagonals and 1", m * m, |i, c| {
        let mut d = Dec(i);
        let (x, y) = (*d.of(&v), *d.of(&v));
        c.note(|| format!("sample ({:e}, {:e})", x, y));
        c.state(Fp::new(1).f(x as f64).f(y as f64));
        judge(x, y, sign, c)
    });
    let w: Vec<f32> = {
        let mut w: Vec<f32> = alpha::unit_interval(true).into_iter().map(|x| x as f32).collect();
        w.extend((0..=400).map(|k| k as f32 / 400.0));
        w.sort_by(f32::total_cmp);
        w.dedup();
        w
    };
    let m = w.len() as u64;
    c.suite("rich", "every pair of coordinates from the rich alphabet of the unit interval (magnitudes from 1e-12, their mirror images, neighbourhoods of one half at every distance)", m * m, |i, c| {
        let mut d = Dec(i);
        let (x, y) = (*d.of(&w), *d.of(&w));
        c.note(|| format!("sample ({:e}, {:e})", x, y));
        c.distinct(1);
        judge(x, y, sign, c)
    });
    // near the diagonals at every distance from them
    c.suite("diagonals", "every coordinate of the rich alphabet with a second one at every small distance from it or from its mirror image", m * m * 2, |i, c| {
        let mut d = Dec(i);
        let (x, e, g) = (*d.of(&w), *d.of(&w), d.take(2));
        let b = if g == 0 { x } else { 1.0 - x };
        for y in [b + e * 0.25, b - e * 0.25] {
            if (0.0..=1.0).contains(&y) {
                c.note(|| format!("sample ({:e}, {:e})", x, y));
                c.state(Fp::new(1).f(x as f64).f(y as f64));
                judge(x, y, sign, c)?;
            }
        }
        Ok(())
    });
    // continuity of the concentric mapping across the whole square
    let k: u64 = c.by(1024, 4096);
    c.suite("continuity", "every pair of neighbouring grid samples: the images are no further apart than twice the samples (sides 2 and 2)", k * k, |i, c| {
        let h = 1.0 / k as f32;
        let (x, y) = ((i % k) as f32 * h, (i / k) as f32 * h);
        c.note(|| format!("sample ({:e}, {:e})", x, y));
        c.steps(3);
        c.distinct(1);
        let p = real_c(x, y);
        for q in [real_c(x + h, y), real_c(x, y + h)] {
            if !(dist(p, q) <= 4.0 * h as f64 + 1e-6) {
                return Err(format!("images {:?} and {:?} of neighbouring samples", p, q));
            }
        }
        Ok(())
    });
    // area: image of every cell, boundary walked in small steps
    let g: u64 = c.by(48, 96);
    let steps = 64;
    c.suite("areas", "every cell of a grid, both mappings: area of the image of the cell (its boundary walked with 64 samples per side) is pi times the area of the cell", g * g, |i, c| {
        let h = 1.0 / g as f64;
        let (x, y) = ((i % g) as f64 * h, (i / g) as f64 * h);
        c.note(|| format!("cell at ({:e}, {:e})", x, y));
        c.distinct(1);
        for (name, f) in [("concentric", &real_c as &dyn Fn(f32, f32) -> P), ("polar", &real_u)] {
            let mut pts = vec![];
            for (ax, ay, dx, dy) in [(0., 0., 1., 0.), (1., 0., 0., 1.), (1., 1., -1., 0.), (0., 1., 0., -1.)] {
                for s in 0..steps {
                    let t = s as f64 / steps as f64;
                    pts.push(f((x + h * (ax + t * dx)) as f32, (y + h * (ay + t * dy)) as f32));
                }
            }
            c.steps(pts.len() as u64);
            let a: f64 = (0..pts.len()).map(|j| {
                let (p, q) = (pts[j], pts[(j + 1) % pts.len()]);
                p[0] * q[1] - p[1] * q[0]
            }).sum::<f64>() / 2.0;
            if !((a.abs() - PI * h * h).abs() <= 0.01 * PI * h * h) {
                return Err(format!("{}: the image of the cell has area {:e}, expected {:e}", name, a.abs(), PI * h * h));
            }
        }
        Ok(())
    });
    c.assume("the concentric mapping is determined up to a reflection through the centre, which is fixed by the image of one sample");
    c.finish();
}
