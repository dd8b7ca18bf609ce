//! C19 transforming boxes.
use mc::num::Fl;
use mc::refmath::*;
use mc::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::{Bounded3, IntersectsRay, PrimitiveList, TransformedPrimitive};
use scarlet::geometry::ray::Rayf;
use scarlet::math::transform::{Invertible, Matrix4x4f, Transformf};

/// the mapped box has the extent of the mapped corners; returns the error bound per axis
fn extent(nm: &str, b: &Bbox3, g: Bbox3, m: &M, em: &M) -> Result<V, String> {
    let (mut lo, mut hi, mut e) = ([f64::MAX; 3], [f64::MIN; 3], [0f64; 3]);
    for k in 0..8 {
        let p = B::exact(std::array::from_fn(|a| (if k >> a & 1 == 0 { b.pmin[a] } else { b.pmax[a] }) as f64));
        let q = bmap_point(m, em, &p, f32::EPS).unwrap();
        for a in 0..3 {
            lo[a] = lo[a].min(q.v[a]);
            hi[a] = hi[a].max(q.v[a]);
            e[a] = e[a].max(q.e[a]);
        }
    }
    B { v: lo, e }.close("lower corner", pv(g.pmin)).map_err(|e| format!("{}: {}", nm, e))?;
    B { v: hi, e }.close("upper corner", pv(g.pmax)).map_err(|e| format!("{}: {}", nm, e))?;
    Ok(e)
}

fn main() {
    let mut c = Check::new("C19");
    let gens = generators(false);
    let depth = c.by(3, 4);
    let mut st: Vec<St<f32>> = c.prepare("words", || explore::<f32>(&gens, depth));
    st.extend(c.prepare("extreme", || extreme_states::<f32>()));
    // per axis intervals
    let ax: [[(f64, f64); 4]; 3] = [
        [(-1.0, 2.0), (0.5, 0.5), (3.0, 10.0), (-4.0, -0.25)],
        [(0.0, 1.0), (-3.0, -2.0), (0.0, 0.0), (-0.1, 7.0)],
        [(-2.0, -2.0), (-5.0, 1.5), (1.0, 1.25), (0.0, 100.0)],
    ];
    let n = st.len() as u64 * 64;
    c.suite("words", "every distinct affine word up to the depth and every extreme one, every box of the alphabet (flat ones included): the result has the extent of the eight mapped corners, forward and backward, and contains the image of every lattice point of the box", n, |i, c| {
        let mut d = Dec(i);
        let iv = [ax[0][d.take(4)], ax[1][d.take(4)], ax[2][d.take(4)]];
        let s = d.of(&st);
        let b = Bbox3::new(p3([iv[0].0, iv[1].0, iv[2].0]), p3([iv[0].1, iv[1].1, iv[2].1]));
        c.note(|| format!("{} on {:?}", s.word, iv));
        c.state(Fp::new(i));
        c.steps(2);
        for (nm, g, m, em) in [("map", s.t.map(b), &s.m, &s.em), ("map_inverse", s.t.map_inverse(b), &s.n, &s.en)] {
            let e = extent(nm, &b, g, m, em)?;
            // images of inner points, by the real point map
            for k in 0..27 {
                let f = [k % 3, k / 3 % 3, k / 9].map(|x| x as f64 / 2.0);
                let p = p3::<f32>(std::array::from_fn(|a| b.pmin[a] as f64 * (1.0 - f[a]) + b.pmax[a] as f64 * f[a]));
                let q = pv(if nm == "map" { s.t.map(p) } else { s.t.map_inverse(p) });
                c.step();
                for a in 0..3 {
                    if !(q[a] >= g.pmin[a] as f64 - 3.0 * e[a] && q[a] <= g.pmax[a] as f64 + 3.0 * e[a]) {
                        return Err(format!("{}: the image {:?} of {:?} is outside {:?}", nm, q, pv(p), g));
                    }
                }
            }
        }
        Ok(())
    });
    // large and small boxes against extreme entries
    let f = [1e-7, -3e-5, 0.02, 1.0, -40.0, 1e6];
    let k = [1e-6, 1.0, 1e8];
    let mats: Vec<St<f32>> = c.prepare("scaled", || {
        let r = [Gen::RotX(0.7), Gen::RotY(5e-7), Gen::Rot([1.0, 2.0, -2.0], 0.9), Gen::Translate([1e-3, 5.0, -1e5])];
        let r: Vec<St<f32>> = r.iter().enumerate().map(|(i, g)| St::gen(g, format!("r{}", i))).collect();
        let mut v = vec![];
        for i in 0..216 {
            let mut d = Dec(i);
            let g = Gen::Scale([*d.of(&f), *d.of(&f), *d.of(&f)]);
            let s = St::<f32>::gen(&g, format!("{:?}", g));
            for q in &r {
                v.push(s.compose(q));
                v.push(q.compose(&s));
            }
            v.push(s);
        }
        v
    });
    let n = mats.len() as u64 * 64 * 27;
    c.suite("scaled", "every scale over six magnitudes per axis, alone and with four other transforms on either side, every box of the alphabet at three magnitudes per axis: the result has the extent of the eight mapped corners, forward and backward", n, |i, c| {
        let mut d = Dec(i);
        let iv: [(f64, f64); 3] = std::array::from_fn(|a| {
            let (x, y) = ax[a][d.take(4)];
            let m = *d.of(&k);
            (x * m, y * m)
        });
        let s = d.of(&mats);
        let b = Bbox3::new(p3([iv[0].0, iv[1].0, iv[2].0]), p3([iv[0].1, iv[1].1, iv[2].1]));
        c.note(|| format!("{} on {:?}", s.word, iv));
        c.distinct(1);
        c.steps(2);
        for (nm, g, m, em) in [("map", s.t.map(b), &s.m, &s.em), ("map_inverse", s.t.map_inverse(b), &s.n, &s.en)] {
            extent(nm, &b, g, m, em)?;
        }
        Ok(())
    });
    // every pair and every three of the parameters over the alphabets
    //    lower corner, upper corner, scale, translation, angle of a rotation about a fixed axis
    let bases: Vec<[f64; 13]> = vec![
        [-1.0, -2.0, 0.5, 2.0, 1.5, 3.0, 1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0],
        [-1.0, -2.0, 0.5, 2.0, 1.5, 3.0, 2.0, -0.5, 3.0, 1.0, -4.0, 0.3, 0.7],
        [0.5, -3.0, 1.0, 0.5, 7.0, 1.0, -1.0, 0.3, 20.0, -5.0, 0.0, 2.0, 0.0],
        [3.0, 4.0, -2.5, 10.0, 4.25, -2.0, 0.1, 0.2, 0.3, 100.0, 50.0, -75.0, -2.0],
    ];
    let vals = |al: Vec<f64>| -> [Vec<f64>; 13] {
        let nz: Vec<f64> = al.iter().copied().filter(|x| *x != 0.0).collect();
        let ang: Vec<f64> = al.iter().copied().filter(|x| x.abs() < 100.0).collect();
        std::array::from_fn(|k| match k {
            6..=8 => nz.clone(),
            12 => ang.clone(),
            _ => al.clone(),
        })
    };
    let few = bases[1..c.by(3, 4)].to_vec();
    let pairs = alpha::Sweep::new(2, few.clone(), vals(alpha::rich(-30, 30, !c.quick())));
    let near = alpha::Sweep::near_ties(64, 10, few.clone(), vals(alpha::rich(-7, 7, false)));
    let triples = alpha::Sweep::new(3, few, vals(alpha::coarse()));
    for (nm, rule, sw) in [("pairs", "around each base configuration, every pair of the thirteen parameters (corners, scale factors, translation, rotation angle) takes every pair of values of the rich alphabet (magnitudes 1e-30 to 1e30, neighbourhoods of 0.5, 1, 2, pi/2, pi): the result has the extent of the eight mapped corners, forward and backward", pairs),
                           ("near-ties", "around each base configuration: every parameter alone over a fine ladder of magnitudes (64 to the decade) and every two of them almost or exactly equal, or opposite, at every magnitude", near),
                           ("triples", "the same with every three of the parameters over a coarse alphabet of thirty values", triples)] {
        let sw = &sw;
        c.suite(nm, rule, sw.n(), move |i, c| {
            let q = sw.get(i);
            c.note(|| format!("{:?}", q));
            let (lo, hi) = ([q[0], q[1], q[2]], [q[3], q[4], q[5]]);
            let b = Bbox3::new(p3(lo), p3(hi));
            let sc = St::<f32>::gen(&Gen::Scale([q[6], q[7], q[8]]), String::new());
            let tr = St::<f32>::gen(&Gen::Translate([q[9], q[10], q[11]]), String::new());
            let s = if q[12] == 0.0 { tr.compose(&sc) } else { tr.compose(&St::gen(&Gen::Rot([1.0, 2.0, -2.0], q[12]), String::new())).compose(&sc) };
            let big = (0..3).map(|k| lo[k].abs().max(hi[k].abs())).fold(1.0, f64::max);
            let range = |m: &M| m.iter().flatten().all(|x| x.abs() * big < 1e36);
            if !range(&s.m) || !range(&s.n) {
                c.skip();
                return Ok(());
            }
            c.distinct(1);
            c.steps(2);
            for (nm, g, m, em) in [("map", s.t.map(b), &s.m, &s.em), ("map_inverse", s.t.map_inverse(b), &s.n, &s.en)] {
                extent(nm, &b, g, m, em)?;
            }
            Ok(())
        });
    }
    // any affine matrix: rows of the matrix, lower corner, upper corner
    let bases: Vec<[f64; 18]> = vec![
        [0.7, -0.4, 2.0, 3.0, 0.2, 1.5, -0.6, -1.0, -0.9, 0.3, 0.8, 7.0, -1.0, -2.0, 0.5, 2.0, 1.5, 3.0],
        [-2.0, 5.0, 0.5, -0.3, 1.1, -3.0, 4.0, 20.0, 0.4, 6.0, -1.7, 0.0, -4.0, -3.0, -10.0, -0.25, -1.0, -0.5],
    ];
    let (al, co) = (alpha::rich(-6, 6, !c.quick()), alpha::coarse());
    let all = |v: &Vec<f64>| -> [Vec<f64>; 18] { std::array::from_fn(|_| v.clone()) };
    for (nm, rule, sw) in [("matrix-pairs", "any affine matrix: every pair of the twelve entries and the six box coordinates takes every pair of values of the rich alphabet around two base configurations", alpha::Sweep::new(2, bases.clone(), all(&al))),
                           ("matrix-triples", "the same with every three of them over a coarse alphabet", alpha::Sweep::new(3, bases[..c.by(1, 2)].to_vec(), all(&co)))] {
        let sw = &sw;
        c.suite(nm, rule, sw.n(), move |i, c| {
            let q = sw.get(i).map(|x| x as f32);
            c.note(|| format!("{:?}", q));
            let mut a = Matrix4x4f::identity();
            for k in 0..12 {
                a[k / 4][k % 4] = q[k];
            }
            let m: M = std::array::from_fn(|r| std::array::from_fn(|k| a[r][k] as f64));
            let b = Bbox3::new(p3([q[12] as f64, q[13] as f64, q[14] as f64]), p3([q[15] as f64, q[16] as f64, q[17] as f64]));
            c.distinct(1);
            c.steps(2);
            // the box map follows the matrix of its direction
            extent("map", &b, Transformf::new(a, a.inverse()).map(b), &m, &[[0.0; 4]; 4])?;
            extent("map_inverse", &b, Transformf::new(a.inverse(), a).map_inverse(b), &m, &[[0.0; 4]; 4])?;
            Ok(())
        });
    }
    let n = st.len() as u64;
    c.suite("empty", "every distinct affine word: the image of an empty box (the default one, one of an empty list, an empty intersection) contains no point and is hit by no ray", n, |i, c| {
        let s = &st[i as usize];
        c.note(|| s.word.clone());
        c.state(Fp::new(i));
        let a = Bbox3::new(p3([0., 0., 0.]), p3([1., 1., 1.]));
        let far = Bbox3::new(p3([3., 0., 0.]), p3([4., 1., 1.]));
        let all: Vec<Bbox3> = vec![
            s.t.map(Bbox3::default()),
            s.t.map_inverse(Bbox3::default()),
            TransformedPrimitive::new(PrimitiveList::new(), s.t).bbox(),
            s.t.map(a.intersect(&far)),
            s.t.map_inverse(a.intersect(&far)),
        ];
        let t: Transformf = s.t;
        let _ = t;
        for (k, g) in all.iter().enumerate() {
            for p in [[0., 0., 0.], [2., 0.5, 0.5], [-1., 7., 3.], [0.5, 0.5, 0.5], [1e6, -1e6, 1e6], [2.0, 1.0, 4.0]] {
                c.step();
                if g.inside(p3(p)) {
                    return Err(format!("image {} of an empty box contains {:?}: {:?}", k, p, g));
                }
                let r = Rayf::new(p3(p), v3([0.3, -1.0, 0.7]), f32::INFINITY);
                if g.do_intersect(r) {
                    return Err(format!("image {} of an empty box is hit by a ray: {:?}", k, g));
                }
            }
        }
        Ok(())
    });
    c.assume("tolerances follow from entrywise forward error bounds of the reference words");
    c.finish();
}
