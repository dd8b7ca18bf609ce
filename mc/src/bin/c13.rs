//! C13 matrix inverse.
use mc::num::Fl;
use mc::refmath::{mm, to_m, M};
use mc::*;
use scarlet::math::transform::{Invertible, Matrix4x4};

fn det_int(m: &[[i32; 4]; 4]) -> i32 {
    let d2 = |r: usize, s: usize, a: usize, b: usize| m[r][a] * m[s][b] - m[r][b] * m[s][a];
    // Laplace along the first two rows
    d2(0, 1, 0, 1) * d2(2, 3, 2, 3) - d2(0, 1, 0, 2) * d2(2, 3, 1, 3) + d2(0, 1, 0, 3) * d2(2, 3, 1, 2)
        + d2(0, 1, 1, 2) * d2(2, 3, 0, 3) - d2(0, 1, 1, 3) * d2(2, 3, 0, 2) + d2(0, 1, 2, 3) * d2(2, 3, 0, 1)
}
fn mk<T: Fl>(m: &M) -> Matrix4x4<T> {
    Matrix4x4::from(m.map(|r| r.map(T::f)))
}
fn ninf(m: &M) -> f64 {
    m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max)
}
/// Error bound of an inverse by cofactors, whatever the order of expansion: every cofactor
/// and the determinant are sums of products, off by at most a few eps times the sum of the
/// absolute products. None when this leaves no digit of the determinant.
fn bound<T: Fl>(a: &M, inv: &M) -> Option<M> {
    let f = a.map(|r| r.map(f64::abs));
    let det = mc::refmath::det(a).abs();
    let minor = |r: usize, q: usize| {
        let (i, j) = ([[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]][r], [[1, 2, 3], [0, 2, 3], [0, 1, 3], [0, 1, 2]][q]);
        let e = |x: usize, y: usize| f[i[x]][j[y]];
        e(0, 0) * (e(1, 1) * e(2, 2) + e(1, 2) * e(2, 1)) + e(0, 1) * (e(1, 0) * e(2, 2) + e(1, 2) * e(2, 0))
            + e(0, 2) * (e(1, 0) * e(2, 1) + e(1, 1) * e(2, 0))
    };
    let mut t: M = std::array::from_fn(|i| std::array::from_fn(|j| minor(j, i) / det));
    let k: f64 = (0..4).map(|j| f[0][j] * t[j][0]).sum();
    // and what elimination with pivoting would be off by
    let n = ninf(inv);
    let cond = n * ninf(a);
    let e = 16.0 * T::EPS;
    if !(e * k <= 0.05) {
        return None;
    }
    for i in 0..4 {
        for j in 0..4 {
            t[i][j] = e * (t[i][j] + inv[i][j].abs() * k) + e * cond * n;
        }
    }
    Some(t)
}
fn near(what: &str, x: &M, want: &M, tol: &M) -> Res {
    for i in 0..4 {
        for j in 0..4 {
            if !((x[i][j] - want[i][j]).abs() <= tol[i][j]) {
                return Err(format!("{}: entry ({}, {}) = {:e}, expected {:e} (+- {:e})", what, i, j, x[i][j], want[i][j], tol[i][j]));
            }
        }
    }
    Ok(())
}
fn close<T: Fl>(what: &str, x: &Matrix4x4<T>, want: &M, tol: f64) -> Res {
    near(what, &to_m(x), want, &[[tol; 4]; 4])
}
fn judge<T: Fl>(m: &M, c: &mut Ctx) -> Res {
    let x = mk::<T>(m);
    let mr = to_m(&x);
    let Some(want) = mc::refmath::inv(&mr) else {
        c.skip();
        return Ok(());
    };
    let cond = ninf(&mr) * ninf(&want);
    if cond > 1e-3 / T::EPS {
        c.skip();
        return Ok(());
    }
    let Some(tol) = bound::<T>(&mr, &want) else {
        c.skip();
        return Ok(());
    };
    let y = x.inverse();
    c.steps(2);
    let yr = to_m(&y);
    near("inverse", &yr, &want, &tol)?;
    let fa = mr.map(|r| r.map(f64::abs));
    let pad = |t: M| t.map(|r| r.map(|x| x + 16.0 * T::EPS));
    near("right product", &mm(&mr, &yr), &mc::refmath::ID, &pad(mm(&fa, &tol)))?;
    near("left product", &mm(&yr, &mr), &mc::refmath::ID, &pad(mm(&tol, &fa)))?;
    // the second inverse magnifies the error of the first
    let spread = mm(&fa, &tol);
    if !(ninf(&spread) <= 0.05) {
        return Ok(());
    }
    let Some(t2) = bound::<T>(&yr, &mr) else { return Ok(()) };
    c.tally("inverted twice");
    let drift = mm(&spread, &fa);
    let t: M = std::array::from_fn(|i| std::array::from_fn(|j| 1.2 * (drift[i][j] + t2[i][j])));
    near("inverse of the inverse", &to_m(&y.inverse()), &mr, &t)
}
fn full<T: Fl>(c: &mut Check) {
    c.suite(&format!("ternary-{}", T::NAME), "all 3^16 matrices with entries -1, 0, 1; every invertible one: both products with the inverse are the identity", 3u64.pow(16), |i, c| {
        let mut d = i;
        let mut m = [[0i32; 4]; 4];
        for r in 0..4 {
            for q in 0..4 {
                m[r][q] = (d % 3) as i32 - 1;
                d /= 3;
            }
        }
        if det_int(&m) == 0 {
            c.skip();
            return Ok(());
        }
        c.note(|| format!("{:?}", m));
        c.distinct(1);
        c.step();
        let f = m.map(|r| r.map(|v| v as f32));
        let x = Matrix4x4::<T>::from(m.map(|r| r.map(|v| T::f(v as f64))));
        let y = x.inverse();
        let b = to_m(&y);
        let a = f.map(|r| r.map(|v| v as f64));
        let tol = 200.0 * T::EPS;
        for (side, p) in [("right", mm(&a, &b)), ("left", mm(&b, &a))] {
            for i in 0..4 {
                for j in 0..4 {
                    if !((p[i][j] - if i == j { 1.0 } else { 0.0 }).abs() <= tol) {
                        return Err(format!("{} product has entry ({}, {}) = {:e}; inverse = {:?}", side, i, j, p[i][j], b));
                    }
                }
            }
        }
        Ok(())
    });
}
fn elementary() -> Vec<M> {
    let mut v = vec![];
    let id = mc::refmath::ID;
    for i in 0..4 {
        for j in 0..4 {
            if i != j {
                let mut m = id;
                m[i][j] = [0.5, -1.5, 0.3, 2.0][(i + 2 * j) % 4];
                v.push(m);
                if i < j {
                    let mut m = id;
                    m.swap(i, j);
                    v.push(m);
                }
            }
        }
        for s in [-1.0, 0.3, 4.0] {
            let mut m = id;
            m[i][i] = s;
            v.push(m);
        }
    }
    v
}
fn words<T: Fl>(c: &mut Check, len: u32) {
    let e = elementary();
    let scales: Vec<f64> = [-24, -10, -3, 0, 5, 10, 24].iter().map(|k| 2f64.powi(*k)).collect();
    let n = (e.len() as u64).pow(len) * scales.len() as u64;
    c.suite(&format!("words-{}", T::NAME), "every product of elementary matrices (shears, swaps, scalings) up to the length, at seven overall scales from 2^-24 to 2^24: two-sided inverse, inverse of the inverse", n, |i, c| {
        let mut d = Dec(i);
        let s = *d.of(&scales);
        let mut m = mc::refmath::ID;
        for _ in 0..len {
            m = mm(&m, d.of(&e));
        }
        let m = m.map(|r| r.map(|x| x * s));
        c.note(|| format!("{:?}", m));
        c.state(Fp::new(i));
        judge::<T>(&m, c)
    });
    // rows and columns scaled independently
    let dense: Vec<M> = vec![
        [[2., -3., 5., 7.], [11., 13., -17., 19.], [23., 29., 31., -37.], [-41., 43., 47., 53.]],
        [[0.1, 0.7, -0.3, 1.1], [-0.9, 0.2, 0.4, 0.6], [0.5, -1.3, 0.8, 0.25], [1.7, 0.35, -0.65, 0.45]],
        [[0., 1., 0.5, 0.], [2., 0., 0., 1.], [0., 3., 0., -1.], [1., 0., 1., 0.]],
        [[-1.7, 0., 0., 0.], [0., -1.7, 0., 0.], [0., 0., 1.02, 0.51], [0., 0., 1., 0.]],
        [[1., 2., 3., 4.], [0., 5., 6., 7.], [0., 0., 8., 9.], [0., 0., 0., 10.]],
        [[1., 1., 1., 1.], [1., 2., 4., 8.], [1., 3., 9., 27.], [1., 4., 16., 64.]],
    ];
    let sc: Vec<f64> = vec![1.0, 0.125, -3.0, 32.0];
    let n = dense.len() as u64 * 4u64.pow(8);
    c.suite(&format!("scaled-{}", T::NAME), "dense matrices with every combination of row and column scalings", n, |i, c| {
        let mut d = Dec(i);
        let mut m = *d.of(&dense);
        for r in 0..4 {
            let s = *d.of(&sc);
            m[r] = m[r].map(|x| x * s);
        }
        for q in 0..4 {
            let s = *d.of(&sc);
            for r in 0..4 {
                m[r][q] *= s;
            }
        }
        c.note(|| format!("{:?}", m));
        c.state(Fp::new(i));
        judge::<T>(&m, c)
    });
    let n = (e.len() as u64).pow(2) * dense.len() as u64 * 2;
    c.suite(&format!("products-{}", T::NAME), "every pair: the inverse of the product is the reversed product of the inverses", n, |i, c| {
        let mut d = Dec(i);
        let (mut a, mut b) = (mm(d.of(&e), d.of(&e)), *d.of(&dense));
        if d.take(2) == 1 {
            std::mem::swap(&mut a, &mut b);
        }
        c.note(|| format!("{:?} , {:?}", a, b));
        c.state(Fp::new(i));
        c.steps(3);
        let (x, y) = (mk::<T>(&a), mk::<T>(&b));
        let (ra, rb) = (to_m(&x), to_m(&y));
        let (Some(ia), Some(ib)) = (mc::refmath::inv(&ra), mc::refmath::inv(&rb)) else { return Ok(()) };
        let k = ninf(&ra) * ninf(&ia) * ninf(&rb) * ninf(&ib);
        if k > 1e-3 / T::EPS {
            c.skip();
            return Ok(());
        }
        let w = mm(&ib, &ia);
        let tol = 64.0 * T::EPS * k * ninf(&ia) * ninf(&ib);
        close("inverse of the product", &(x * y).inverse(), &w, tol)?;
        close("reversed product of the inverses", &(y.inverse() * x.inverse()), &w, tol)
    });
}
/// every pair (rich alphabet) and every three (small alphabet) of the sixteen entries vary
fn entries<T: Fl>(c: &mut Check) {
    let quick = c.quick();
    let flat = |m: M| -> [f64; 16] { std::array::from_fn(|k| m[k / 4][k % 4]) };
    let mut bases: Vec<M> = vec![
        mc::refmath::ID,
        [[0.1, 0.7, -0.3, 1.1], [-0.9, 0.2, 0.4, 0.6], [0.5, -1.3, 0.8, 0.25], [1.7, 0.35, -0.65, 0.45]],
        [[-1.7, 0., 0., 0.], [0., -1.7, 0., 0.], [0., 0., 1.02, 0.51], [0., 0., 1., 0.]],
        [[0.6, -0.8, 0., 3.], [0.8, 0.6, 0., -2.], [0., 0., 1., 7.], [0., 0., 0., 1.]],
    ];
    let all: [Vec<f64>; 16] = std::array::from_fn(|_| alpha::rich(-5, 5, !quick));
    let small = vec![0.0, -0.0, 1e-6, 0.013, -0.3, 0.5, 1.0, -1.0, 1.0 - 1e-6, -1.00003, 1.7, -std::f64::consts::PI, 40.0, -1e4];
    let few: [Vec<f64>; 16] = std::array::from_fn(|_| small.clone());
    let ties = alpha::Sweep::near_ties(16, c.by(2, 5), bases.iter().map(|m| flat(*m)).collect(), all.clone());
    let pairs = alpha::Sweep::new(2, bases.iter().map(|m| flat(*m)).collect(), all);
    bases.extend([
        [[2., -3., 5., 7.], [11., 13., -17., 19.], [23., 29., 31., -37.], [-41., 43., 47., 53.]],
        [[0., 1., 0.5, 0.], [2., 0., 0., 1.], [0., 3., 0., -1.], [1., 0., 1., 0.]],
    ]);
    let triples = alpha::Sweep::new(3, bases.iter().map(|m| flat(*m)).collect(), few);
    for (nm, s) in [("pairs", &pairs), ("triples", &triples), ("near-ties", &ties)] {
        if quick && T::NAME == "f64" && nm == "pairs" {
            continue;
        }
        c.suite(&format!("{}-{}", nm, T::NAME), "around the identity, rigid, projective and dense matrices, every pair (rich alphabet) or every three (small alphabet), and all near ties, of the sixteen entries varied: two-sided inverse, inverse of the inverse", s.n(), |i, c| {
            let q = s.get(i);
            let m: M = std::array::from_fn(|r| std::array::from_fn(|k| q[4 * r + k]));
            c.note(|| format!("{:?}", m));
            c.distinct(1);
            judge::<T>(&m, c)
        });
    }
}
fn main() {
    let mut c = Check::new("C13");
    full::<f32>(&mut c);
    full::<f64>(&mut c);
    entries::<f32>(&mut c);
    entries::<f64>(&mut c);
    let len = c.by(4, 5);
    words::<f32>(&mut c, len);
    words::<f64>(&mut c, len);
    c.assume("well-conditioned means an infinity-norm condition number below 1e-3/eps; others are counted as undecided, as are singular matrices");
    c.finish();
}
