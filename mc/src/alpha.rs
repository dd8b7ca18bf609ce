//! The rich one-dimensional value alphabet and the pairwise sweep: around every base point,
//! every pair of parameters takes every pair of alphabet values.
use crate::engine::Dec;

/// Signed values: a logarithmic ladder of magnitudes between 10^lo and 10^hi and the
/// neighbourhoods of the special values 0.5, 1, 2, pi/2, pi (a few ulps to a percent to either
/// side), and both zeros.  `f32_like` rounds to single precision.
pub fn rich(lo: i32, hi: i32, dense: bool) -> Vec<f64> {
    let mut m: Vec<f64> = vec![0.0];
    for k in lo..=hi {
        for q in if dense { vec![1.0, 1.7, 3.3, 6.1] } else { vec![1.0, 2.2, 4.7] } {
            m.push(q * 10f64.powi(k));
        }
    }
    for s in [0.5, 1.0, 2.0, std::f64::consts::FRAC_PI_2, std::f64::consts::PI] {
        m.push(s);
        let d: &[f64] = if dense { &[1.2e-7, 3e-7, 1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2, 3e-2] } else { &[1.2e-7, 1e-6, 1e-5, 5e-5, 1e-4, 1e-3, 1e-2] };
        for e in d {
            m.push(s * (1.0 + e));
            m.push(s * (1.0 - e));
        }
    }
    m.sort_by(f64::total_cmp);
    m.dedup();
    m.iter().flat_map(|x| [*x, -*x]).collect()
}
pub fn positive(v: &[f64]) -> Vec<f64> {
    v.iter().copied().filter(|x| *x > 0.0).collect()
}

/// values of the closed unit interval: the alphabet itself, mirrored, and around one half
pub fn unit_interval(dense: bool) -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0, 0.5, 1.0];
    for x in positive(&rich(-12, 0, dense)) {
        v.extend([x, 1.0 - x, 0.5 + x, 0.5 - x]);
    }
    v.retain(|x| (0.0..=1.0).contains(x));
    v.sort_by(f64::total_cmp);
    v.dedup();
    v
}

pub struct Sweep<const N: usize> {
    pub bases: Vec<[f64; N]>,
    /// alphabet of each parameter
    pub vals: [Vec<f64>; N],
    sets: Vec<Vec<usize>>,
    ends: Vec<u64>,
    /// single assignments of two parameters
    extra: Vec<(u8, u8, f64, f64)>,
}
/// `per` magnitudes to the decade, between the smallest and the largest of the finite values
fn ladder(v: &[f64], per: i32) -> Vec<f64> {
    let m = || v.iter().map(|x| x.abs()).filter(|x| *x > 0.0 && *x < 1e37);
    let (lo, hi) = (m().fold(f64::INFINITY, f64::min), m().fold(0.0, f64::max));
    let k = |x: f64| (x.log10() * per as f64).round() as i32;
    (k(lo)..=k(hi)).map(|k| 10f64.powf(k as f64 / per as f64).clamp(lo, hi)).collect()
}
/// both signs of `per` magnitudes to the decade from 10^lo to 10^hi
pub fn fine(lo: i32, hi: i32, per: i32) -> Vec<f64> {
    ladder(&[10f64.powi(lo), 10f64.powi(hi)], per).into_iter().flat_map(|x| [x, -x]).collect()
}
fn signs(v: &[f64]) -> Vec<f64> {
    [1.0, -1.0].into_iter().filter(|s| v.iter().any(|x| x * s > 0.0)).collect()
}
impl<const N: usize> Sweep<N> {
    /// every parameter alone over a fine ladder of magnitudes (`fine` to the decade), and every
    /// two of the parameters almost or exactly equal, or opposite, at every magnitude (`tie` to
    /// the decade), the magnitudes and signs being those of `vals`
    pub fn near_ties(fine: i32, tie: i32, bases: Vec<[f64; N]>, vals: [Vec<f64>; N]) -> Self {
        let mut extra = vec![];
        for a in 0..N {
            let sg = signs(&vals[a]);
            for m in ladder(&vals[a], fine) {
                extra.extend(sg.iter().map(|s| (a as u8, a as u8, s * m, s * m)));
            }
            // a grid for parameters of a bounded range
            let (lo, hi) = vals[a].iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
            if hi - lo < 10.0 {
                extra.extend((0..=fine * 4).map(|k| lo + (hi - lo) * k as f64 / (fine * 4) as f64).map(|x| (a as u8, a as u8, x, x)));
            }
            for b in 0..N {
                let (lo, hi) = vals[b].iter().map(|x| x.abs()).filter(|x| *x > 0.0 && *x < 1e37).fold((f64::INFINITY, 0.0f64), |(l, h), x| (l.min(x), h.max(x)));
                if a == b || tie == 0 {
                    continue;
                }
                let other = signs(&vals[b]);
                for m in ladder(&vals[a], tie) {
                    for e in [0.0, 1.2e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2] {
                        let w = m * (1.0 + e);
                        if w < lo || w > hi {
                            continue;
                        }
                        for s in &sg {
                            extra.extend(other.iter().map(|t| (a as u8, b as u8, s * m, t * w)));
                        }
                    }
                }
            }
        }
        Sweep { bases, vals, sets: vec![], ends: vec![], extra }
    }
    /// every `k` of the parameters vary together
    pub fn new(k: u32, bases: Vec<[f64; N]>, vals: [Vec<f64>; N]) -> Self {
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..k {
            sets = sets.iter().flat_map(|s| (s.last().map_or(0, |l| l + 1)..N).map(move |i| s.iter().copied().chain([i]).collect())).collect();
        }
        let mut ends = vec![];
        let mut n = 0;
        for s in &sets {
            n += s.iter().map(|i| vals[*i].len() as u64).product::<u64>();
            ends.push(n);
        }
        Sweep { bases, vals, sets, ends, extra: vec![] }
    }
    fn per(&self) -> u64 {
        self.ends.last().copied().unwrap_or(0) + self.extra.len() as u64
    }
    pub fn n(&self) -> u64 {
        self.per() * self.bases.len() as u64
    }
    pub fn get(&self, i: u64) -> [f64; N] {
        let mut p = self.bases[(i / self.per()) as usize];
        let r = i % self.per();
        let k = self.ends.partition_point(|e| *e <= r);
        if k == self.sets.len() {
            let (a, b, x, y) = self.extra[(r - self.ends.last().copied().unwrap_or(0)) as usize];
            p[a as usize] = x;
            p[b as usize] = y;
            return p;
        }
        let mut d = Dec(r - if k == 0 { 0 } else { self.ends[k - 1] });
        for a in &self.sets[k] {
            p[*a] = *d.of(&self.vals[*a]);
        }
        p
    }
}
/// about thirty values for sweeps of three parameters: a coarse ladder and the closest
/// neighbourhoods of 1
pub fn coarse() -> Vec<f64> {
    let m = [0.0, 1e-9, 1e-6, 2e-4, 0.013, 0.3, 0.5, 1.0 - 1e-6, 1.0, 1.00003, 1.7, std::f64::consts::PI, 40.0, 1e4, 1e7];
    m.iter().flat_map(|x| [*x, -*x]).collect()
}

/// Every transform constructor with its parameters swept over the alphabets.
pub struct Ctors {
    translate: [Sweep<3>; 3],
    scale: [Sweep<3>; 3],
    rotate: [Sweep<5>; 3],
    look: [Sweep<11>; 3],
    angles: Vec<f64>,
    fov: Vec<f64>,
    planes: Vec<f64>,
    /// fine ladders of angles, fields of view, planes
    fine: [Vec<f64>; 3],
    ends: Vec<u64>,
}
use crate::refmath::{cross, mulv, norm, sub, Gen};
impl Ctors {
    pub fn new(dense: bool) -> Ctors {
        let al = rich(-9, 9, dense);
        let nz: Vec<f64> = al.iter().copied().filter(|x| *x != 0.0).collect();
        let co = coarse();
        let cnz: Vec<f64> = co.iter().copied().filter(|x| *x != 0.0).collect();
        let three = |b: Vec<[f64; 3]>, r: &Vec<f64>, c: &Vec<f64>| {
            [Sweep::new(2, b.clone(), std::array::from_fn(|_| r.clone())), Sweep::new(3, b[..1].to_vec(), std::array::from_fn(|_| c.clone())), Sweep::near_ties(64, 10, b.clone(), std::array::from_fn(|_| r.clone()))]
        };
        let translate = three(vec![[0.3, -7.25, 2.0], [0.0, 0.0, 0.0]], &al, &co);
        let scale = three(vec![[0.3, -7.25, 2.0], [1.0, 1.0, 1.0], [2.5, 2.5, 2.5]], &nz, &cnz);
        let mut angles: Vec<f64> = (-48..=48).map(|k| k as f64 * std::f64::consts::PI / 12.0).collect();
        angles.extend(al.iter().copied().filter(|x| x.abs() < 200.0));
        let rv = |a: &Vec<f64>, ang: &Vec<f64>| -> [Vec<f64>; 5] {
            std::array::from_fn(|k| match k {
                3 => positive(a),
                4 => ang.clone(),
                _ => a.clone(),
            })
        };
        let bases = vec![[0.3, -0.7, 0.5, 1.0, 0.8], [0.0, 0.6, 0.8, 1.0, -2.0], [1.0, 0.0, 0.0, 1.0, 0.5], [0.0, 0.0, -2.0, 1.0, 3.0]];
        let small: Vec<f64> = co.iter().copied().filter(|x| x.abs() < 200.0).collect();
        let rotate = [Sweep::new(2, bases.clone(), rv(&al, &angles)), Sweep::new(3, bases.clone(), rv(&co, &small)), Sweep::near_ties(64, 10, bases, rv(&al, &angles))];
        let lv = |a: &Vec<f64>| -> [Vec<f64>; 11] { std::array::from_fn(|k| if k >= 9 { positive(a) } else { a.clone() }) };
        let la = rich(-7, 7, false);
        let bases = vec![[1.0, 2.0, 3.0, -2.0, 0.5, 1.0, 0.0, 1.0, 0.0, 1.0, 1.0], [0.0, 0.0, 5.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 1.0, 1.0], [0.5, -1.0, -2.0, 0.5, 3.0, -2.0, 0.3, 0.1, 1.0, 1.0, 1.0], [3.0, 1.5, -2.0, 1.0, 4.0, 2.5, 0.3, 0.9, -0.4, 1.0, 1.0]];
        let look = [Sweep::new(2, bases.clone(), lv(&la)), Sweep::new(3, bases[..1].to_vec(), lv(&co)), Sweep::near_ties(64, 10, bases, lv(&la))];
        let pi = std::f64::consts::PI;
        let mut fov: Vec<f64> = vec![1e-4, 1e-3, 5e-3, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, pi / 4.0, 1.0, 1.2, 1.4, pi / 2.0 - 1e-3, pi / 2.0, pi / 2.0 + 1e-3, 1.8, 2.0, 2.2, 2.4, 2.6, 2.8, 2.9, 2.95, 3.0, 3.05, 3.1, 3.12, 3.14];
        fov.extend(positive(&al).into_iter().filter(|x| *x > 1e-4 && *x < 3.1));
        let planes = positive(&rich(-6, 6, dense));
        let signed = |v: Vec<f64>| -> Vec<f64> { v.into_iter().flat_map(|x| [x, -x]).collect() };
        let mut fine = [signed(ladder(&[1e-9, 200.0], 64)), ladder(&[1e-4, 3.14], 64), ladder(&planes, 64)];
        fine[0].extend((-2000..=2000).map(|k| k as f64 / 2000.0 * 4.0 * pi));
        fine[1].extend((1..2000).map(|k| k as f64 / 2000.0 * pi).filter(|x| *x < 3.14));
        let mut c = Ctors { translate, scale, rotate, look, angles, fov, planes, fine, ends: vec![] };
        let mut n = 0;
        let (fine_angles, fine_fov, fine_planes) = (c.fine[0].len() as u64, c.fine[1].len() as u64, c.fine[2].len() as u64);
        for k in [c.translate[0].n(), c.translate[1].n(), c.translate[2].n(), c.scale[0].n(), c.scale[1].n(), c.scale[2].n(), c.rotate[0].n(), c.rotate[1].n(), c.rotate[2].n(), c.look[0].n(), c.look[1].n(), c.look[2].n(),
                  3 * c.angles.len() as u64, 3 * fine_angles, (c.fov.len() * c.planes.len() * c.planes.len()) as u64, fine_fov, fine_planes * 24] {
            n += k;
            c.ends.push(n);
        }
        c
    }
    pub fn n(&self) -> u64 {
        self.ends[16]
    }
    /// None for parameters outside the constructor's domain (no axis, no view direction, up
    /// along the view direction, near and far plane the same)
    pub fn get(&self, i: u64) -> Option<Gen> {
        let k = self.ends.partition_point(|e| *e <= i);
        let i = i - if k == 0 { 0 } else { self.ends[k - 1] };
        let rnd = |v: [f64; 3]| v.map(|x| x as f32 as f64);
        Some(match k {
            0..=2 => Gen::Translate(self.translate[k].get(i)),
            3..=5 => Gen::Scale(self.scale[k - 3].get(i)),
            6..=8 => {
                let q = self.rotate[k - 6].get(i);
                let v = mulv([q[0], q[1], q[2]], q[3]);
                if !(norm(v) > 1e-15 && norm(v) < 1e15) {
                    return None;
                }
                Gen::Rot(v, q[4])
            }
            9..=11 => {
                let q = self.look[k - 9].get(i);
                let (p, t, u) = (mulv([q[0], q[1], q[2]], q[9]), mulv([q[3], q[4], q[5]], q[9]), mulv([q[6], q[7], q[8]], q[10]));
                let view = sub(rnd(t), rnd(p));
                if !(norm(view) > 1e-3 * (norm(p) + norm(t))) || !(norm(cross(view, rnd(u))) > 0.01 * norm(view) * norm(u)) || norm(view) < 1e-12 || norm(u) < 1e-12 {
                    return None;
                }
                Gen::LookAt(p, t, u)
            }
            12 | 13 => {
                let a = if k == 12 { self.angles[(i / 3) as usize] } else { self.fine[0][(i / 3) as usize] };
                [Gen::RotX(a), Gen::RotY(a), Gen::RotZ(a)][(i % 3) as usize]
            }
            _ => {
                let mut d = Dec(i);
                let (a, n, f) = match k {
                    14 => (*d.of(&self.fov), *d.of(&self.planes), *d.of(&self.planes)),
                    15 => (*d.of(&self.fine[1]), 0.5, 20.0),
                    _ => {
                        // one plane fine, the other fixed or in a fixed ratio to it
                        let p = *d.of(&self.fine[2]);
                        let q = [0.013, 1.0, 40.0, p * 1.0003, p * 1.003, p * 1.03, p * 2.0, p * 300.0, p * 0.9997, p * 0.997, p * 0.97, p * 0.5][d.take(12)];
                        if d.take(2) == 0 { (0.8, p, q) } else { (2.2, q, p) }
                    }
                };
                if !((n - f).abs() > 1e-4 * n.max(f)) {
                    return None;
                }
                Gen::Persp(a, n, f)
            }
        })
    }
}
