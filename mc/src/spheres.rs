//! The ray/sphere lattice shared by C22 and C23, and the reference intersection.
use crate::alpha::{coarse, positive, rich, Sweep};
use crate::engine::{Check, Ctx, Dec, Fp, Res};
use crate::refmath::{add, dot, mulv, norm, V};
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::vector::{Point3f, Vector3f};

const E: f64 = f32::EPSILON as f64;

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub r: f64,
    pub z0: f64,
    pub z1: f64,
    pub phi: f64,
}
impl Shape {
    pub fn real(&self) -> Sphere {
        Sphere::new(self.r as f32, self.z0 as f32, self.z1 as f32, self.phi as f32)
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Case {
    pub s: Shape,
    pub o: V,
    pub d: V,
    pub tmax: f64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kept {
    Yes,
    No,
    Unsure,
}
use Kept::*;
impl Kept {
    fn and(self, o: Kept) -> Kept {
        match (self, o) {
            (No, _) | (_, No) => No,
            (Yes, Yes) => Yes,
            _ => Unsure,
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Root {
    pub t: f64,
    /// bound on the error of a faithful t
    pub et: f64,
    /// bound on the error of a faithful point
    pub ep: f64,
    pub kept: Kept,
}
pub enum Meet {
    Nothing,
    Grazing,
    Roots([Root; 2]),
}
impl Case {
    pub fn ray(&self) -> Rayf {
        Rayf::new(Point3f::new(self.o[0] as f32, self.o[1] as f32, self.o[2] as f32),
                  Vector3f::new(self.d[0] as f32, self.d[1] as f32, self.d[2] as f32), self.tmax as f32)
    }
    pub fn at(&self, t: f64) -> V {
        add(self.o, mulv(self.d, t))
    }
    /// geometric: closest approach and half chord (not the quadratic formula)
    pub fn meet(&self) -> Meet {
        let (o, d, r) = (self.o, self.d, self.s.r);
        let a = dot(d, d);
        let (no, nd) = (norm(o), a.sqrt());
        let tc = -dot(o, d) / a;
        let foot = add(o, mulv(d, tc));
        let h2 = r * r - dot(foot, foot);
        // error of the squared half chord when worked out in f32 from o, d, r
        let eh2 = 8.0 * E * (no * no + r * r);
        if h2 < -4.0 * eh2 {
            return Meet::Nothing;
        }
        if h2 < 4.0 * eh2 {
            return Meet::Grazing;
        }
        let h = h2.sqrt();
        let ed = 8.0 * E * no + eh2 / h;
        let root = |t: f64| {
            let et = ed / nd + 8.0 * E * t.abs();
            let ep = et * nd + 4.0 * E * (no + t.abs() * nd);
            let p = self.at(t);
            Root { t, et, ep, kept: side(t, 0.0, et).and(side(self.tmax, t, et)).and(self.s.kept(p, ep)) }
        };
        Meet::Roots([root(tc - h / nd), root(tc + h / nd)])
    }
}
/// x >= y, give or take e
fn side(x: f64, y: f64, e: f64) -> Kept {
    if x > y + e { Yes } else if x < y - e { No } else { Unsure }
}
impl Shape {
    pub fn kept(&self, p: V, e: f64) -> Kept {
        let lo = if self.z0 <= -self.r { Yes } else { side(p[2], self.z0, e) };
        let hi = if self.z1 >= self.r { Yes } else { side(self.z1, p[2], e) };
        let az = if self.phi >= std::f64::consts::PI {
            Yes
        } else {
            let rho = p[0].hypot(p[1]);
            if rho <= 4.0 * e || (p[0] < 0.0 && p[1].abs() <= 2.0 * e) {
                Unsure
            } else {
                side(self.phi, p[1].atan2(p[0]), 2.0 * e / rho + 8.0 * E)
            }
        };
        lo.and(hi).and(az)
    }
}

pub fn shapes() -> Vec<Shape> {
    let f = |x: f64| x as f32 as f64;
    let mut v = vec![];
    for r in [1.0, 3.7, 0.001, 1000.0] {
        for (a, b) in [(-1., 1.), (-2., 2.), (-1., 0.), (0., 1.), (-0.5, 0.5), (0.25, 0.75), (-3., 0.5), (-0.5, 1.5)] {
            for phi in [std::f32::consts::PI as f64, 0.0, f(1.6), f(-1.5), 3.0, -3.0] {
                v.push(Shape { r: f(r), z0: f(f(r) * a), z1: f(f(r) * b), phi });
            }
        }
    }
    v
}

pub fn explore(c: &mut Check, judge: impl Fn(&Case, &mut Ctx) -> Res + Sync) {
    let f = |x: f64| x as f32 as f64;
    let jr = &judge;
    let sh = shapes();
    let org: Vec<f64> = c.by(vec![-2.0, -0.4, 0.0, 0.7, 1.5], vec![-2.0, -1.0, -0.4, 0.0, 0.7, 1.5, 6.0]);
    let tgt: Vec<f64> = c.by(vec![-0.8, 0.0, 0.3, 0.9], vec![-2.0, -0.8, -0.5, 0.0, 0.3, 0.9]);
    let n = (sh.len() * org.len().pow(3) * tgt.len().pow(3) * 3 * 6) as u64;
    c.suite("lattice", "every shape (radius x z range x azimuth limit), every origin (outside, inside, centre, axis, near the surface), every target (axis points included), three direction lengths, tmax infinite, largest, zero, before, at and behind the target", n, move |i, c| {
        let mut d = Dec(i);
        let s = *d.of(&sh);
        let tm = d.take(6);
        let o: V = std::array::from_fn(|_| f(s.r * *d.of(&org)));
        let t: V = std::array::from_fn(|_| f(s.r * *d.of(&tgt)));
        let k = [1.0, 0.25, 40.0][d.take(3)];
        let v: V = std::array::from_fn(|a| f((t[a] - o[a]) * k));
        if v == [0.0; 3] {
            return Ok(());
        }
        let tmax = [f64::INFINITY, f32::MAX as f64, 0.0, f(0.5 / k), f(1.0 / k), f(3.0 / k)][tm];
        let cs = Case { s, o, d: v, tmax };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // rays between two points of the surface, extended: every chord meets every clip boundary
    // differently; near and far hit in all clip classes
    let sh: Vec<Shape> = shapes().into_iter().filter(|s| s.r == 1.0 || s.r > 3.0 && s.r < 4.0).collect();
    let (nt, np) = c.by((5, 8), (7, 12));
    let pts: Vec<V> = (0..nt).flat_map(|a| (0..np).map(move |b| {
        let th = std::f64::consts::PI * a as f64 / (nt - 1) as f64;
        let ph = -3.0 + std::f64::consts::TAU * b as f64 / np as f64;
        [th.sin() * ph.cos(), th.sin() * ph.sin(), th.cos()]
    })).collect();
    let ext = [-1.5, -0.25, 0.0, 0.4];
    let n = (sh.len() * pts.len() * pts.len() * ext.len() * 3) as u64;
    c.suite("chords", "every ordered pair of surface points from a latitude/longitude grid (poles included); origin before, at and between the two points; tmax unbounded, beyond the first and before the second", n, move |i, c| {
        let mut d = Dec(i);
        let s = *d.of(&sh);
        let (p, q) = (*d.of(&pts), *d.of(&pts));
        let e = *d.of(&ext);
        let tmax = [f64::INFINITY, f(0.6 - e), f(1.2 - e)][d.take(3)];
        let dd = crate::refmath::sub(q, p);
        let o: V = std::array::from_fn(|a| f(s.r * (p[a] + e * dd[a])));
        let v: V = std::array::from_fn(|a| f(s.r * dd[a]));
        if norm(v) < 1e-6 {
            return Ok(());
        }
        let cs = Case { s, o, d: v, tmax };
        c.note(|| format!("{:?}", cs));
        c.state(Fp::new(i));
        jr(&cs, c)
    });
    // whole scenes at other scales
    let mut sh = vec![];
    for (r, k) in [(2e-7, 1.0), (2e-7, 1e6), (1e-4, 3e-4), (1.0, 1e-6), (1.0, 2e6), (3e5, 1.0), (3e5, 1e-5), (3e5, 3e4)] {
        for (a, b) in [(-1., 1.), (-0.5, 0.5), (0.25, 1.5)] {
            for phi in [std::f32::consts::PI as f64, f(1.6), -2.0] {
                sh.push((Shape { r: f(r), z0: f(f(r) * a), z1: f(f(r) * b), phi }, k));
            }
        }
    }
    let org: Vec<f64> = vec![-2.0, -0.4, 0.0, 1.5];
    let tgt: Vec<f64> = vec![-0.8, 0.0, 0.3, 0.9];
    let n = (sh.len() * org.len().pow(3) * tgt.len().pow(3) * 6) as u64;
    c.suite("scaled", "radii from 2e-7 to 3e5 and directions from a millionth to a million times the scene, so that distances and parameters lie far below and above 1; every origin, target and tmax class", n, move |i, c| {
        let mut d = Dec(i);
        let (s, k) = *d.of(&sh);
        let tm = d.take(6);
        let o: V = std::array::from_fn(|_| f(s.r * *d.of(&org)));
        let t: V = std::array::from_fn(|_| f(s.r * *d.of(&tgt)));
        let v: V = std::array::from_fn(|a| f((t[a] - o[a]) * k));
        if v == [0.0; 3] {
            return Ok(());
        }
        let tmax = [f64::INFINITY, f32::MAX as f64, 0.0, f(0.5 / k), f(1.0 / k), f(3.0 / k)][tm];
        let cs = Case { s, o, d: v, tmax };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // hits a little to either side of a clip boundary, of the end and of the start of the ray
    let delta: Vec<f64> = c.by(vec![-3e-3, -2e-4, -3e-5, 3e-5, 2e-4, 3e-3], vec![-3e-3, -5e-4, -1e-4, -3e-5, -8e-6, 8e-6, 3e-5, 1e-4, 5e-4, 3e-3]);
    let from: Vec<V> = vec![[2.0, 0.5, 0.3], [-1.5, 2.0, 0.1], [-2.0, -2.5, -1.0], [0.1, 0.2, 0.3], [0.3, -0.1, 3.0]];
    let from2 = from.clone();
    let clip: Vec<f64> = vec![-0.99993, -0.97, -0.6, -4e-5, 0.0, 0.1, 0.7, 0.995, 0.99996];
    let az: Vec<f64> = vec![-3.1414, -3.135, -2.2, -std::f64::consts::FRAC_PI_2, -0.4, -3e-5, 0.0, 7e-5, 0.9, std::f64::consts::FRAC_PI_2, 2.4, 3.14, 3.1412, 3.14153];
    let rad: Vec<f64> = vec![1.0, 3.7, 0.02, 250.0];
    let nd = delta.len();
    let n = (3 * clip.len() * az.len() * nd * from.len() * rad.len() * (1 + 2 * nd)) as u64;
    c.suite("near", "rays aimed at surface points a little inside and outside the lower z limit, the upper z limit and the azimuth limit (3e-5 to 3e-3 of the radius; limits in the middle, at the equator and the half turn, next to the poles and next to the ends of the turn), ending and starting a little before and behind the hit", n, move |i, c| {
        let mut d = Dec(i);
        let r = f(*d.of(&rad));
        let (zc, ph) = (*d.of(&clip), *d.of(&az));
        let dl = *d.of(&delta);
        let kind = d.take(3);
        let w = *d.of(&from);
        let end = d.take(1 + 2 * nd);
        // the point aimed at
        let z = if kind < 2 { zc + dl } else { zc };
        let a = if kind < 2 { ph } else { ph + dl };
        let q = (1.0 - z * z).max(0.0).sqrt();
        let p = [q * a.cos(), q * a.sin(), z];
        let s = match kind {
            0 => Shape { r, z0: f(r * zc), z1: f(r * 1.0), phi: std::f32::consts::PI as f64 },
            1 => Shape { r, z0: f(r * -1.0), z1: f(r * zc), phi: std::f32::consts::PI as f64 },
            _ => Shape { r, z0: f(r * -1.0), z1: f(r * 1.0), phi: f(ph) },
        };
        let mut o: V = std::array::from_fn(|k| f(r * w[k]));
        let v: V = std::array::from_fn(|k| f(r * p[k]) - o[k]).map(f);
        let mut tmax = f64::INFINITY;
        if end >= 1 && end <= nd {
            tmax = f(1.0 + delta[end - 1]);
        } else if end > nd {
            // start next to the surface point
            o = std::array::from_fn(|k| f(r * p[k] + v[k] * delta[end - nd - 1]));
        }
        let cs = Case { s, o, d: v, tmax };
        c.note(|| format!("{:?}", cs));
        c.state(Fp::new(i));
        jr(&cs, c)
    });
    // limits everywhere, hits a little to either side of them
    let pi = std::f64::consts::PI;
    let mut az: Vec<f64> = (-600..600).map(|k| pi * (k as f64 + 0.5) / 600.0).collect();
    let mut zs: Vec<f64> = (-300..300).map(|k| (k as f64 + 0.5) / 300.0).collect();
    for k in 0..=160 {
        let e = 10f64.powf(-(k as f64) / 40.0);
        az.extend([-pi + e, pi - e, e, -e]);
        zs.extend([-1.0 + 0.9 * e, 1.0 - 0.9 * e, 0.9 * e, -0.9 * e]);
    }
    az.retain(|x| *x > -pi && *x < pi);
    let rad: Vec<f64> = vec![1.0, 0.03, 17.0];
    let dl2: &[f64] = &[-3e-2, -6e-3, -1e-3, -3e-4, 3e-4, 1e-3, 6e-3, 3e-2];
    let dl: Vec<f64> = vec![-3e-3, -3e-4, -3e-5, 3e-5, 3e-4, 3e-3];
    let na = az.len();
    let n = ((na + 2 * zs.len()) * dl.len() * from2.len() * rad.len()) as u64;
    let from = &from2;
    c.suite("limits", "azimuth limits (twelve hundred evenly spaced ones and a ladder towards 0 and both ends of the turn) and lower and upper z limits (six hundred and a ladder towards the equator and the poles): rays aimed at surface points a little to either side of the limit (3e-5 to 3e-3)", n, move |i, c| {
        let mut d = Dec(i);
        let r = f(*d.of(&rad));
        let e = *d.of(&dl);
        let w = *d.of(from);
        let k = d.0 as usize;
        let full = std::f32::consts::PI as f64;
        let (s, z, a) = if k < na {
            (Shape { r, z0: -r, z1: r, phi: f(az[k]) }, 0.2, f(az[k]) + e)
        } else if (k - na) % 2 == 0 {
            let z = zs[(k - na) / 2];
            (Shape { r, z0: f(r * z), z1: r, phi: full }, z + e, 0.7 + e)
        } else {
            let z = zs[(k - na) / 2];
            (Shape { r, z0: -r, z1: f(r * z), phi: full }, z + e, -2.1 + e)
        };
        let z: f64 = z.clamp(-1.0, 1.0);
        let q = (1.0 - z * z).sqrt();
        let p = [q * a.cos(), q * a.sin(), z];
        let o: V = std::array::from_fn(|k| f(r * w[k]));
        let v: V = std::array::from_fn(|k| f(r * p[k] - o[k]));
        let cs = Case { s, o, d: v, tmax: f64::INFINITY };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // both kinds of limits at once, on spheres of every size
    let rad: Vec<f64> = (-6..=6).map(|k| 10f64.powf(k as f64 / 3.0)).collect();
    let az: Vec<f64> = (-12..12).map(|k| pi * (k as f64 + 0.37) / 12.0).collect();
    let zs: Vec<f64> = [-1.0, -0.9, -0.6, -0.3, -0.1, -0.03, -0.01, -0.003, 0.003, 0.01, 0.03, 0.1, 0.3, 0.6, 0.9].to_vec();
    let n = (rad.len() * az.len() * zs.len() * 2 * dl2.len() * 3 * from2.len()) as u64;
    c.suite("joint limits", "spheres of thirteen sizes (0.01 to 100) with an azimuth limit (24) and a lower or upper z limit (15): rays aimed at surface points a little to either side of the azimuth limit (3e-4 to 3e-2) and of the z limit or well away from it", n, move |i, c| {
        let mut d = Dec(i);
        let r = f(*d.of(&rad));
        let (ph, z, up, e, at, w) = (f(*d.of(&az)), *d.of(&zs), d.take(2), *d.of(dl2), d.take(3), *d.of(from));
        let s = if up == 0 { Shape { r, z0: f(r * z), z1: r, phi: ph } } else { Shape { r, z0: -r, z1: f(-r * z), phi: ph } };
        let (lo, hi) = (s.z0 / r, s.z1 / r);
        let z = [lo + 0.3 * (hi - lo), if up == 0 { lo + e.abs() } else { hi - e.abs() }, lo + 0.8 * (hi - lo)][at];
        let (q, a) = ((1.0 - z * z).max(0.0).sqrt(), ph + e);
        let p = [q * a.cos(), q * a.sin(), z];
        let o: V = std::array::from_fn(|k| f(r * w[k]));
        let v: V = std::array::from_fn(|k| f(r * p[k] - o[k]));
        let cs = Case { s, o, d: v, tmax: f64::INFINITY };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // every pair and every three of the parameters over the rich alphabets
    let (inf, pi) = (f64::INFINITY, std::f32::consts::PI as f64);
    //  radius z0  z1   phi   origin          direction       length scale tmax
    let bases: Vec<[f64; 13]> = vec![
        [1., -1., 1., pi, -3., 0.1, 0.2, 1., 0.05, -0.02, 1., 1., inf],
        [1., -0.5, 0.75, 1.2, -2.5, -3.1, 0.2, 0.61, 0.79, -0.05, 1., 1., 30.],
        [1.5, -1.5, 1.5, pi, 0.3, 0.2, -0.4, 0.3, -0.6, 0.7, 1., 1., inf],
        [0.75, -0.3, 2., 2.5, 0.1, 0.2, 0.1, 0., 1., 0., 1., 1., 20.],
        [1., -1., 1., pi, 0., 0., 4., 0., 0., -1., 1., 1., inf],
        [100., -20., 60., -0.5, 150., -190., 20., -100., 140., 7., 1., 1., 1.5],
        [50., -15., 30., -2.4, -80., -21., 12., 1., 0.1, -0.1, 1., 1., inf],
    ];
    let few = bases.clone();
    let one = if c.quick() { vec![] } else { bases[..1].to_vec() };
    let vals = |al: Vec<f64>| -> [Vec<f64>; 13] {
        let pos = positive(&al);
        let mut end = pos.clone();
        end.extend([0.0, -0.0, inf, f32::MAX as f64, -1e-6, -0.5, -3.0, -1e9, -inf]);
        let phi: Vec<f64> = al.iter().copied().filter(|x| *x > -3.1 && *x <= pi).collect();
        std::array::from_fn(|k| match k {
            12 => end.clone(),
            3 => phi.clone(),
            0 | 10 | 11 => pos.clone(),
            _ => al.clone(),
        })
    };
    let pairs = Sweep::new(2, bases, vals(rich(-8, 8, true)));
    let near = Sweep::near_ties(64, 10, few.clone(), vals(rich(-6, 6, true)));
    let triples = Sweep::new(3, few, vals(coarse()));
    let deep = Sweep::new(3, one, vals(rich(-5, 5, false)));
    for (nm, rule, sw) in [("pairs", "around each base configuration (from outside, from inside, clipped, along the axis, far), every pair of the thirteen parameters (radius, z limits, azimuth limit, origin, direction, direction length, scene scale, tmax) takes every pair of values of the rich alphabet (magnitudes 1e-8 to 1e8, neighbourhoods of 0.5, 1, 2, pi/2, pi)", pairs),
                           ("near-ties", "around each base configuration: every parameter alone over a fine ladder of magnitudes (64 to the decade) and every two of them almost or exactly equal, or opposite (apart by 0 or an ulp to a percent), at ten magnitudes to the decade", near),
                           ("triples", "the same with every three of the parameters over a coarse alphabet of thirty values", triples),
                           ("deep-triples", "every three of the parameters over the rich alphabet (magnitudes 1e-5 to 1e5) around one base configuration", deep)] {
        if sw.n() == 0 {
            continue;
        }
        let sw = &sw;
        c.suite(nm, rule, sw.n(), move |i, c| {
            let q = sw.get(i);
            let (len, sc) = (q[10], q[11]);
            let v: V = std::array::from_fn(|k| f(q[7 + k] * len));
            let s = Shape { r: f(q[0] * sc), z0: f(q[1] * sc), z1: f(q[2] * sc), phi: f(q[3]) };
            // a sphere with nothing between its z limits cannot be built
            if v == [0.0; 3] || !(s.z0 < s.z1) {
                return Ok(());
            }
            let o: V = std::array::from_fn(|k| f(q[4 + k] * sc));
            let (a, b) = (dot(v, v), dot(o, o).max(s.r * s.r));
            if !(a > 1e-30 && a < 1e30 && b > 1e-30 && b < 1e30 && a * b > 1e-30 && a * b < 1e33) {
                // squares leave the range of f32
                c.skip();
                return Ok(());
            }
            let cs = Case { s, o, d: v, tmax: f(q[12]) };
            c.note(|| format!("{:?}", cs));
            c.distinct(1);
            jr(&cs, c)
        });
    }
}
