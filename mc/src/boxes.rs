//! The ray/box lattice shared by C20 and C21.
use crate::alpha::{coarse, positive, rich, Sweep};
use crate::engine::{Check, Ctx, Dec, Fp, Res};
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::ray::Rayf;
use scarlet::math::vector::{Point3f, Vector3f};

pub type A3 = [f64; 3];
#[derive(Clone, Copy, Debug)]
pub struct Case {
    pub lo: A3,
    pub hi: A3,
    pub o: A3,
    pub d: A3,
    pub tmax: f64,
    /// inputs for which every intermediate result is exactly representable
    pub exact: bool,
}
impl Case {
    pub fn bbox(&self) -> Bbox3 {
        let f = |v: A3| Point3f::new(v[0] as f32, v[1] as f32, v[2] as f32);
        // the fields are public: an inverted (empty) box can only be made this way
        Bbox3 { pmin: f(self.lo), pmax: f(self.hi) }
    }
    pub fn ray(&self) -> Rayf {
        Rayf::new(Point3f::new(self.o[0] as f32, self.o[1] as f32, self.o[2] as f32),
                  Vector3f::new(self.d[0] as f32, self.d[1] as f32, self.d[2] as f32), self.tmax as f32)
    }
    pub fn empty(&self) -> bool {
        (0..3).any(|k| self.lo[k] > self.hi[k])
    }
    pub fn inside(&self, margin: f64) -> bool {
        (0..3).all(|k| self.lo[k] + margin < self.o[k] && self.o[k] < self.hi[k] - margin)
    }
    pub fn outside(&self, margin: f64) -> bool {
        (0..3).any(|k| self.o[k] < self.lo[k] - margin || self.o[k] > self.hi[k] + margin)
    }
    /// the first and the last parameter in the box, each as a pair of bounds on a faithful
    /// result; the same when the arithmetic is exact
    pub fn span(&self) -> Span {
        let (mut a, mut b) = ([0f64; 2], [self.tmax; 2]);
        for k in 0..3 {
            let (p, q) = (self.lo[k] - self.o[k], self.hi[k] - self.o[k]);
            if self.d[k] == 0.0 {
                if p > 0.0 || q < 0.0 {
                    return Span { first: [1.0; 2], last: [0.0; 2] };
                }
                continue;
            }
            let (x, y) = (p / self.d[k], q / self.d[k]);
            let (x, y) = if x < y { (x, y) } else { (y, x) };
            let e = |t: f64| if self.exact { 0.0 } else { t.abs() * 4.0 * f32::EPSILON as f64 };
            // a parameter beyond the range of f32 is only known to be there
            let top = f32::MAX as f64;
            let range = |t: f64| if t.abs() <= top { [t - e(t), t + e(t)] } else if t > 0.0 { [top, f64::INFINITY] } else { [f64::NEG_INFINITY, -top] };
            let (x, y) = (range(x), range(y));
            a = [a[0].max(x[0]), a[1].max(x[1])];
            b = [b[0].min(y[0]), b[1].min(y[1])];
        }
        Span { first: a, last: b }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub first: [f64; 2],
    pub last: [f64; 2],
}
impl Span {
    /// whether there is a parameter in the box; None when within rounding of a boundary
    pub fn hit(&self) -> Option<bool> {
        if self.first[1] <= self.last[0] {
            Some(true)
        } else if self.first[0] > self.last[1] {
            Some(false)
        } else {
            None
        }
    }
}
/// x is within the bounds, or is what f32 makes of them
pub fn within(x: f32, b: [f64; 2]) -> bool {
    x as f64 >= b[0] && x as f64 <= b[1] || b[0] as f32 <= x && x <= b[1] as f32
}

/// All cases of the lattice.  `judge(case, ctx)` is called for each.
pub fn explore(c: &mut Check, judge: impl Fn(&Case, &mut Ctx) -> Res + Sync) {
    let inf = f64::INFINITY;
    let big = f32::MAX as f64;
    let boxes: Vec<(A3, A3)> = vec![
        ([-1., -1., -1.], [1., 1., 1.]),
        ([-1., -2., 0.], [1., 0., 4.]),
        ([-1., -1., -1.], [1., 1., -1.]),
        ([0., -1., -1.], [0., 1., 1.]),
        ([-1., 1., -2.], [1., 1., 4.]),
        ([-1., 1., 0.], [-1., 1., 4.]),
        ([1., 1., 1.], [1., 1., 1.]),
        ([-4., -1., -1.], [64., 1., 1.]),
        ([1., -1., -1.], [-1., 1., 1.]),
        ([-1., -1., 2.], [1., 1., -1.]),
        ([big; 3], [-big; 3]),
    ];
    let org: Vec<f64> = c.by(vec![-2., -1., -0.5, 0., 1., 2., 4.], vec![-4., -2., -1.5, -1., -0.5, 0., 0.5, 1., 2., 4., 64.]);
    let dir: Vec<f64> = c.by(vec![0., -0., 1., -1., 2., -0.5], vec![0., -0., 1., -1., 2., -2., 0.5, -0.25, 32.]);
    let tm: Vec<f64> = vec![inf, big, 2.0, 1.0, 0.5, 0.0, -0.0, -1.0];
    let n = (boxes.len() * org.len().pow(3) * dir.len().pow(3) * tm.len()) as u64;
    let jr = &judge;
    c.suite("dyadic", "every origin (inside, on faces, edges and corners, outside), every direction (zero of both signs, both signs, different slopes), every box (thick, flat, a point, empty), every tmax class; all arithmetic exact", n, move |i, c| {
        let mut d = Dec(i);
        let b = *d.of(&boxes);
        let tmax = *d.of(&tm);
        let o = [*d.of(&org), *d.of(&org), *d.of(&org)];
        let v = [*d.of(&dir), *d.of(&dir), *d.of(&dir)];
        if v == [0.0; 3] {
            return Ok(());
        }
        let cs = Case { lo: b.0, hi: b.1, o, d: v, tmax, exact: true };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // tiny and huge slopes: still exact powers of two
    let dir: Vec<f64> = [0, -40, -100, -127, -149, 60].iter().flat_map(|k| [2f64.powi(*k), -2f64.powi(*k)]).chain([0.0]).collect();
    let org: Vec<f64> = vec![-2., -1., 0., 4.];
    let boxes: Vec<(A3, A3)> = vec![([-1., -1., -1.], [1., 1., 1.]), ([-1., -2., 0.], [1., 0., 4.])];
    let tm: Vec<f64> = vec![inf, 1.0, 2f64.powi(90), 2f64.powi(-59)];
    let n = (boxes.len() * org.len().pow(3) * dir.len().pow(3) * tm.len()) as u64;
    c.suite("slopes", "directions with components from 2^-149 (the least subnormal) to 2^60 and zero; all arithmetic exact unless it overflows", n, move |i, c| {
        let mut d = Dec(i);
        let b = *d.of(&boxes);
        let tmax = *d.of(&tm);
        let o = [*d.of(&org), *d.of(&org), *d.of(&org)];
        let v = [*d.of(&dir), *d.of(&dir), *d.of(&dir)];
        if v == [0.0; 3] {
            return Ok(());
        }
        let cs = Case { lo: b.0, hi: b.1, o, d: v, tmax, exact: true };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // whole scenes at other scales
    let boxes: Vec<(A3, A3)> = vec![([-1., -1., -1.], [1., 1., 1.]), ([-1., -2., 0.], [1., 0., 4.]), ([-1., 1., -2.], [1., 1., 4.])];
    let org: Vec<f64> = vec![-2., -1., 0., 1., 4.];
    let dir: Vec<f64> = vec![0., 1., -0.5, 2.];
    let scale: Vec<(i32, i32)> = vec![(-22, 0), (-22, -40), (-30, 20), (-60, 0), (0, 24), (20, 24), (20, -20), (60, 0)];
    let tm: Vec<f64> = vec![inf, big, 2.0, 1.0, 0.25];
    let n = (boxes.len() * org.len().pow(3) * dir.len().pow(3) * tm.len() * scale.len()) as u64;
    c.suite("scaled", "scenes scaled by powers of two from 2^-60 to 2^60 with directions from 2^-40 to 2^60, so that distances and parameters lie far below and above 1; all arithmetic exact", n, move |i, c| {
        let mut d = Dec(i);
        let b = *d.of(&boxes);
        let tmax = *d.of(&tm);
        let o = [*d.of(&org), *d.of(&org), *d.of(&org)];
        let v = [*d.of(&dir), *d.of(&dir), *d.of(&dir)];
        let (s, q) = *d.of(&scale);
        if v == [0.0; 3] {
            return Ok(());
        }
        let (s, q) = (2f64.powi(s), 2f64.powi(q));
        let tmax = if tmax >= big { tmax } else { tmax * s / q };
        let cs = Case { lo: b.0.map(|x| x * s), hi: b.1.map(|x| x * s), o: o.map(|x| x * s), d: v.map(|x| x * q), tmax, exact: true };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // a few floats to either side of faces, edges and of the end of the ray
    let t = |k: i32| 2f64.powi(k);
    let org: Vec<f64> = vec![-2., -1. - t(-14), -1. - t(-20), -1. - t(-23), -1., -1. + t(-20), 0.5, 1. - t(-22), 1., 1. + t(-21), 2.];
    let dir: Vec<f64> = vec![0., 1., -1.];
    let tm: Vec<f64> = vec![inf, t(-20), 1. - t(-21), 1., 1. + t(-20)];
    let boxes: Vec<(A3, A3)> = vec![([-1., -1., -1.], [1., 1., 1.]), ([-1., 1., -1.], [-1. + t(-20), 1., 1. + t(-21)])];
    let n = (boxes.len() * org.len().pow(3) * dir.len().pow(3) * tm.len()) as u64;
    c.suite("near", "origins and ends of rays a few floats to either side of the faces, edges and corners of the box; boxes a few floats thick; all arithmetic exact", n, move |i, c| {
        let mut d = Dec(i);
        let b = *d.of(&boxes);
        let tmax = *d.of(&tm);
        let o = [*d.of(&org), *d.of(&org), *d.of(&org)];
        let v = [*d.of(&dir), *d.of(&dir), *d.of(&dir)];
        if v == [0.0; 3] {
            return Ok(());
        }
        let rep = |x: f64| x as f32 as f64 == x;
        let cs = Case { lo: b.0, hi: b.1, o, d: v, tmax, exact: (0..3).all(|k| rep(b.0[k] - o[k]) && rep(b.1[k] - o[k])) };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
    });
    // inexact numbers
    let r = |x: f64| x as f32 as f64;
    let boxes: Vec<(A3, A3)> = vec![
        ([-0.3, 0.1, -1.7], [0.7, 2.2, 3.3]),
        ([100.1, 200.2, -3000.7], [101.3, 210.9, -2990.3]),
        ([-0.01, -0.02, -0.03], [0.015, 0.025, 0.035]),
        ([-1000.5, -0.1, -0.1], [0.1, 1000.7, 0.3]),
    ];
    let at: Vec<f64> = c.by(vec![-1.3, -0.2, 0.3, 0.9, 1.7], vec![-8.1, -1.3, -0.2, -0.01, 0.3, 0.9, 1.02, 1.7, 5.3]);
    let n = (boxes.len() * at.len().pow(3) * at.len().pow(3) * 3 * 5) as u64;
    c.suite("inexact", "boxes with inexact bounds far from and near the origin; every origin and every target over a lattice relative to the box; three direction lengths; tmax before, at, inside and beyond the box", n, move |i, c| {
        let mut d = Dec(i);
        let b = *d.of(&boxes);
        let (lo, hi) = (b.0.map(r), b.1.map(r));
        let pos = |f: A3| -> A3 { std::array::from_fn(|k| r(lo[k] + (hi[k] - lo[k]) * f[k])) };
        let o = pos([*d.of(&at), *d.of(&at), *d.of(&at)]);
        let t = pos([*d.of(&at), *d.of(&at), *d.of(&at)]);
        let s = [1.0, 0.01, 30.0][d.take(3)];
        let v: A3 = std::array::from_fn(|k| r((t[k] - o[k]) * s));
        if v == [0.0; 3] {
            return Ok(());
        }
        let tmax = [inf, big, r(1.0 / s), r(0.35 / s), r(3.0 / s)][d.take(5)];
        let cs = Case { lo, hi, o, d: v, tmax, exact: false };
        c.note(|| format!("{:?}", cs));
        c.state(Fp::new(i));
        jr(&cs, c)
    });
    // every pair of parameters over the rich alphabet
    //            lo             hi            origin          direction       length scale tmax
    let bases: Vec<[f64; 15]> = vec![
        [-1., -0.7, -0.4, 1., 0.9, 1.3, -3., 0.1, 0.2, 1., 0.05, -0.02, 1., 1., inf],
        [-1., -0.7, -0.4, 1., 0.9, 1.3, 0.3, -2.5, 4.1, -0.1, 0.6, -0.9, 1., 1., 30.],
        [-1., -0.7, -0.4, 1., 0.9, 1.3, 0.3, 0.2, 0.1, 0.3, -0.6, 0.7, 1., 1., inf],
        [-1., 0.5, -0.4, 1., 0.5, 1.3, 0.3, 4., 0.1, 0., -1., 0., 1., 1., 20.],
        [-0.3, -0.7, 2., 1.1, 0.9, 3., 0.2, 0.1, 7., 0., 0.05, -1., 1., 1., inf],
        [100.1, 200.2, -3000.7, 101.3, 210.9, -2990.3, 90., 190., -2980., 10.5, 14., -15., 1., 1., inf],
        [-1., -1., -1., 1., 1., 1., -2., -2., -2., 1., 1., 1., 1., 1., 1.5],
        [1., 1., 1., 1., 1., 1., 3., 3., 3., -1., -1., -1., 1., 1., inf],
    ];
    let few = bases.clone();
    let one = if c.quick() { vec![] } else { bases[..1].to_vec() };
    let vals = |al: Vec<f64>| -> [Vec<f64>; 15] {
        let pos = positive(&al);
        let mut end = pos.clone();
        end.extend([0.0, -0.0, inf, big, -1e-6, -0.5, -3.0, -1e9, -inf]);
        std::array::from_fn(|k| if k == 14 { end.clone() } else if k >= 12 { pos.clone() } else { al.clone() })
    };
    let pairs = Sweep::new(2, bases, vals(rich(-9, 9, true)));
    let near = Sweep::near_ties(64, 10, few.clone(), vals(rich(-6, 6, true)));
    let triples = Sweep::new(3, few, vals(coarse()));
    let deep = Sweep::new(3, one, vals(rich(-5, 5, false)));
    for (nm, rule, sw) in [("pairs", "around each base configuration (outside, inside, flat box, point box, axis-parallel ray, corner ray), every pair of the fifteen parameters (bounds, origin, direction, direction length, scene scale, tmax) takes every pair of values of the rich alphabet (magnitudes 1e-9 to 1e9, neighbourhoods of 0.5, 1, 2, pi/2, pi)", pairs),
                           ("near-ties", "around each base configuration: every parameter alone over a fine ladder of magnitudes (64 to the decade) and every two of them almost or exactly equal, or opposite (apart by 0 or an ulp to a percent), at ten magnitudes to the decade", near),
                           ("triples", "the same with every three of the parameters over a coarse alphabet of thirty values", triples),
                           ("deep-triples", "every three of the parameters over the rich alphabet (magnitudes 1e-5 to 1e5) around one base configuration", deep)] {
      if sw.n() == 0 {
          continue;
      }
      let sw = &sw;
      c.suite(nm, rule, sw.n(), move |i, c| {
        let q = sw.get(i);
        let (len, sc) = (q[12], q[13]);
        let v: A3 = std::array::from_fn(|k| r(q[9 + k] * len));
        if v == [0.0; 3] {
            return Ok(());
        }
        let g = |j: usize| -> A3 { std::array::from_fn(|k| r(q[j + k] * sc)) };
        let cs = Case { lo: g(0), hi: g(3), o: g(6), d: v, tmax: r(q[14]), exact: false };
        c.note(|| format!("{:?}", cs));
        c.distinct(1);
        jr(&cs, c)
      });
    }
}
