//! C26 thin-lens camera rays.
use mc::refmath::*;
use mc::*;
use scarlet::cameras::camera::{concentric_sample_disk, Camera, CameraSample};
use scarlet::cameras::thin_lens::ThinLensCamera;
use scarlet::math::vector::Point2f;

const E: f64 = f32::EPSILON as f64;

#[derive(Clone, Copy, Debug)]
struct Par {
    dist: f32,
    fov: f32,
    len: f32,
    rad: f32,
    asp: f32,
}
fn pars(full: bool) -> Vec<Par> {
    let mut v = vec![];
    for dist in if full { vec![0.75, 4.0, 10.0, 1000.0] } else { vec![0.75, 4.0, 100.0] } {
        for fov in if full { vec![0.05, 0.5, 1.2, 2.6] } else { vec![0.5, 1.2, 2.6] } {
            for len in [0.035, 0.5] {
                for rad in [0.0, 0.1, 2.0] {
                    for asp in if full { vec![1.0, 1.7777778, 0.5, 3.0] } else { vec![1.0, 1.7777778, 0.5] } {
                        v.push(Par { dist, fov, len, rad, asp });
                    }
                }
            }
        }
    }
    // other scales; focal lengths beyond the plane of focus (the film is then in front of the lens)
    for (dist, len, rad) in [(1e-3, 1e-4, 5e-5), (2e-6, 1e-7, 3e-7), (5e5, 0.05, 2e4), (1e4, 9e3, 300.0), (0.5, 0.75, 0.1), (2.0, 500.0, 0.3)] {
        for fov in [0.02, 1.2, 3.0] {
            for asp in [0.1, 1.0, 20.0] {
                v.push(Par { dist, fov, len, rad, asp });
            }
        }
    }
    v
}
fn judge(p: &Par, view: &St<f32>, grid: &[f32], lens: &[f32], c: &mut Ctx) -> Res {
    judge_at(p, view, [grid, grid, lens, lens], c)
}
fn build(p: &Par, view: &St<f32>) -> ThinLensCamera {
    ThinLensCamera::new(view.t, p.dist, p.fov, p.len, p.rad, p.asp)
}
/// the film coordinates and the lens coordinates
fn judge_at(p: &Par, view: &St<f32>, at: [&[f32]; 4], c: &mut Ctx) -> Res {
    judge_cam(&build(p, view), p, view, at, c)
}
fn judge_cam(cam: &ThinLensCamera, p: &Par, view: &St<f32>, at: [&[f32]; 4], c: &mut Ctx) -> Res {
    let d = p.dist as f64;
    let tan = (p.fov as f64 / 2.0).tan();
    let film = (d * p.len as f64 / (d - p.len as f64)).abs(); // image distance
    let rigid = (0..3).all(|i| (0..3).all(|j| ((0..3).map(|k| view.n[k][i] * view.n[k][j]).sum::<f64>() - if i == j { 1.0 } else { 0.0 }).abs() < 1e-9));
    for fx in at[0] {
        for fy in at[1] {
            // the point of the plane of focus belonging to the film sample
            let f = [(2.0 * *fx as f64 - 1.0) * tan * d, (2.0 * *fy as f64 - 1.0) * tan / p.asp as f64 * d, -d];
            let k = 16.0 * E * (1.0 + film / d) * d;
            let ef = [k * tan, k * tan / p.asp as f64, k];
            for lx in at[2] {
                for ly in at[3] {
                    let s = concentric_sample_disk(Point2f::new(*lx, *ly));
                    let l = [s.x() as f64 * p.rad as f64, s.y() as f64 * p.rad as f64, 0.0];
                    let el = vabs(l).map(|x| 2.0 * E * x);
                    let got = cam.generate_ray(CameraSample::new(Point2f::new(*fx, *fy), Point2f::new(*lx, *ly)));
                    c.step();
                    let at = || format!("film ({}, {}) lens ({}, {})", fx, fy, lx, ly);
                    if norm(l) > p.rad as f64 * (1.0 + 8.0 * E) {
                        return Err(format!("{}: lens point {:?} outside the lens", at(), l));
                    }
                    let Some(o) = bmap_point(&view.n, &view.en, &B { v: l, e: el }, E) else {
                        c.skip();
                        continue;
                    };
                    o.close("origin", pv(got.origin)).map_err(|e| format!("{}: {}", at(), e))?;
                    let dir = sub(f, l);
                    let ed = norm(add(ef, el)) / norm(dir) * 2.0 + 16.0 * E;
                    let w = bmap_vec(&view.n, &view.en, &B { v: unit(dir), e: [ed; 3] }, E);
                    w.close("direction", vv(got.direction)).map_err(|e| format!("{}: {}", at(), e))?;
                    if !(got.tmax >= f32::MAX) {
                        return Err(format!("{}: the ray ends at {:e}", at(), got.tmax));
                    }
                    if rigid {
                        c.tally("rigid view");
                        let n = norm(vv(got.direction));
                        if !((n - 1.0).abs() <= 2.0 * norm(w.e)) {
                            return Err(format!("{}: direction of length {}", at(), n));
                        }
                    }
                    // passes through the focus point
                    let fw = map_point(&view.n, f).0;
                    let t = norm(dir);
                    let q = add(pv(got.origin), mulv(vv(got.direction), t));
                    let e = norm(w.e) * t * 4.0 + norm(o.e) * 4.0 + 1e-9 * (t + norm(fw));
                    if !(norm(sub(q, fw)) <= e) {
                        return Err(format!("{}: passes {:?}, the focus point is {:?} (+- {:e})", at(), q, fw, e));
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C26");
    let gens = generators(false);
    let depth = c.by(2, 3);
    let views: Vec<St<f32>> = c.prepare("views", || explore::<f32>(&gens, depth));
    let ps = pars(!c.quick());
    let grid: Vec<f32> = c.by(vec![0.0, 0.3, 0.5, 0.875, 1.0], vec![0.0, 0.1, 0.25, 0.3, 0.5, 0.875, 1.0]);
    let lens: Vec<f32> = c.by(vec![0.0, 0.2, 0.5, 0.75, 1.0], vec![0.0, 0.2, 0.25, 0.5, 0.65, 0.75, 1.0]);
    let n = (views.len() * ps.len()) as u64;
    let (vr, pr, gr, lr) = (&views, &ps, &grid, &lens);
    c.suite("cameras", "every view transform word up to the depth (identity, look-at, translations, rotations, scales and their products) x every combination of focal distance, field of view, focal length, lens radius and aspect ratio x every film and lens sample of the grid (corners, edges, centre included)", n, move |i, c| {
        let mut d = Dec(i);
        let v = d.of(vr);
        let p = d.of(pr);
        c.note(|| format!("view {} camera {:?}", v.word, p));
        c.distinct(1);
        judge(p, v, gr, lr, c)
    });
    // every pair and every three of the parameters
    let dense = true;
    let al = alpha::rich(-5, 5, dense);
    let pos = alpha::positive(&al);
    let ui = alpha::unit_interval(dense);
    let co = alpha::coarse();
    let cpos = alpha::positive(&co);
    let cui: Vec<f64> = vec![0.0, 1e-6, 0.013, 0.25, 0.3, 0.5 - 1e-6, 0.5, 0.5 + 3e-4, 0.7, 0.875, 1.0 - 3e-5, 1.0];
    // dist, fov, len, rad, asp, film x y, lens x y, view angle, translation
    let vals = |a: &Vec<f64>, p: &Vec<f64>, u: &Vec<f64>| -> [Vec<f64>; 13] {
        std::array::from_fn(|k| match k {
            0 | 2 | 4 => p.clone(),
            1 => p.iter().copied().filter(|x| *x > 1e-3 && *x < 3.1).chain([2.8, 2.9, 3.0, 3.05, 3.1]).collect(),
            3 => p.iter().copied().chain([0.0]).collect(),
            5..=8 => u.clone(),
            _ => a.clone(),
        })
    };
    let bases = vec![
        [4.0, 1.2, 0.035, 0.1, 1.7777778, 0.3, 0.7, 0.2, 0.65, 0.4, 1.0, -2.0, 3.0],
        [10.0, 0.8, 0.5, 2.0, 1.0, 0.9, 0.1, 0.75, 0.3, 0.0, 0.0, 0.0, 0.0],
        [4.0, 1.2, 0.035, 0.0, 0.5, 0.5, 0.5, 0.5, 0.5, -2.0, 0.0, 7.0, 0.0],
    ];
    let sw = [alpha::Sweep::new(2, bases.clone(), vals(&al, &pos, &ui)), alpha::Sweep::new(3, bases[..c.by(2, 3)].to_vec(), vals(&co, &cpos, &cui)), alpha::Sweep::near_ties(64, 10, bases.clone(), vals(&al, &pos, &ui))];
    for (nm, sw) in [("pairs", &sw[0]), ("triples", &sw[1]), ("near-ties", &sw[2])] {
        c.suite(nm, "every pair (over the rich alphabet) or every three (over the coarse one) of focal distance, field of view, focal length, lens radius, aspect ratio, film sample, lens sample, view rotation and translation varied around base cameras, or each alone over a fine ladder of magnitudes (64 to the decade) and every two of them almost or exactly equal, or opposite", sw.n(), |i, c| {
            let q = sw.get(i).map(|x| x as f32);
            if (q[0] - q[2]).abs() < 1e-3 * q[0].max(q[2]) {
                return Ok(());
            }
            let p = Par { dist: q[0], fov: q[1], len: q[2], rad: q[3], asp: q[4] };
            let (a, t) = (q[9] as f64, [q[10], q[11], q[12]].map(|x| x as f64));
            c.note(|| format!("view rotate {} translate {:?} camera {:?} film {:?} lens {:?}", a, t, p, &q[5..7], &q[7..9]));
            c.distinct(1);
            let mut v = St::identity();
            if a != 0.0 {
                v = St::gen(&Gen::Rot([1.0, 2.0, -0.5], a), String::new());
            }
            if t != [0.0; 3] {
                v = v.compose(&St::gen(&Gen::Translate(t), String::new()));
            }
            judge_at(&p, &v, [&q[5..6], &q[6..7], &q[7..8], &q[8..9]], c)
        });
    }
    // histories: what a camera answers does not depend on what it, or another one, was asked before
    let xs = [0.25f32, 0.5, 0.75];
    let ls = [[0.5f32, 0.5], [0.25, 0.75], [0.75, 0.25]];
    let samples: Vec<[f32; 4]> = (0..27).map(|k| [xs[k % 3], xs[k / 3 % 3], ls[k / 9][0], ls[k / 9][1]]).collect();
    let cams = [Par { dist: 4.0, fov: 1.2, len: 0.035, rad: 0.5, asp: 1.0 }, Par { dist: 4.0, fov: 1.2, len: 0.035, rad: 2.0, asp: 1.7777778 }, Par { dist: 10.0, fov: 0.8, len: 0.5, rad: 0.5, asp: 1.0 }];
    let len = c.by(3, 4);
    let m = samples.len() * 2;
    let hv: Vec<&St<f32>> = views.iter().step_by((views.len() / 5).max(1)).take(4).collect();
    let n = (m as u64).pow(len) * (hv.len() * cams.len()) as u64;
    let (sa, cs, hv) = (&samples, &cams, &hv);
    c.suite("histories", "every sequence of this many samples (film and lens points sharing coordinates, sums and differences) asked of two live cameras in every interleaving: every answer is the right one", n, |i, c| {
        let mut d = Dec(i);
        let k = d.take(cs.len());
        let v = *d.of(hv);
        let ps = [cs[k], cs[(k + 1) % cs.len()]];
        let live = ps.map(|p| build(&p, v));
        c.distinct(1);
        for step in 0..len {
            let j = d.take(m);
            let (who, s) = (j % 2, &sa[j / 2]);
            judge_cam(&live[who], &ps[who], v, [&s[..1], &s[1..2], &s[2..3], &s[3..]], c)
                .map_err(|e| format!("view {}, cameras {:?}, history {}, step {}: {}", v.word, ps, i, step, e))?;
        }
        Ok(())
    });
    c.assume("focal lengths different from the focal distance; the disk point of a lens sample is what concentric_sample_disk returns (judged by C27)");
    c.finish();
}
