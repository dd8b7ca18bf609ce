//! C12 4x4 matrix algebra.
use mc::*;
use scarlet::math::scalar::Scalar;
use scarlet::math::transform::Matrix4x4;
use std::fmt::Debug;

trait Num: Scalar + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn of(x: i64) -> Self;
    fn r(self) -> f64;
}
macro_rules! num {
    ($($t:ty),*) => {$(impl Num for $t {
        const NAME: &'static str = stringify!($t);
        fn of(x: i64) -> Self { x as $t }
        fn r(self) -> f64 { self as f64 }
    })*};
}
num!(i32, i64, f32, f64, u32);
type R = [[i64; 4]; 4];

fn mk<T: Num>(r: &R) -> Matrix4x4<T> {
    Matrix4x4::from(r.map(|x| x.map(T::of)))
}
fn eq<T: Num>(op: &str, got: &Matrix4x4<T>, want: &R) -> Res {
    for i in 0..4 {
        for j in 0..4 {
            if got.data[i][j].r() != want[i][j] as f64 {
                return Err(format!("{}: entry ({}, {}) is {:?}, expected {}", op, i, j, got.data[i][j], want[i][j]));
            }
        }
    }
    Ok(())
}
fn mul(a: &R, b: &R) -> R {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..4).map(|k| a[i][k] * b[k][j]).sum()))
}
fn tr(a: &R) -> R {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
const ID: R = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]];
/// a matrix all of whose entries differ
const DENSE: R = [[2, -3, 5, 7], [11, 13, -17, 19], [23, 29, 31, -37], [-41, 43, 47, 53]];
const DENSE2: R = [[1, 4, -6, 8], [9, -10, 12, 14], [15, 16, 18, -20], [21, 22, -24, 25]];

fn perms() -> Vec<[usize; 4]> {
    let mut v = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for c in 0..4 {
                for d in 0..4 {
                    let p = [a, b, c, d];
                    if (0..4).all(|x| p.contains(&x)) {
                        v.push(p);
                    }
                }
            }
        }
    }
    v
}
fn structured(neg: bool) -> Vec<R> {
    let mut v = vec![ID, [[0; 4]; 4]];
    for p in perms() {
        for s in [0u32, 5, 10] {
            let mut m = [[0; 4]; 4];
            for i in 0..4 {
                m[i][p[i]] = if neg && s >> i & 1 == 1 { -1 } else { 1 + i as i64 * (s as i64 % 2) };
            }
            v.push(m);
        }
    }
    for i in 0..4 {
        for j in 0..4 {
            for k in [2, -3] {
                let mut m = ID;
                m[i][j] += if neg { k } else { 2 };
                v.push(m);
            }
        }
    }
    let abs = |m: R| if neg { m } else { m.map(|r| r.map(i64::abs)) };
    v.push(abs(DENSE));
    v.push(abs(DENSE2));
    v.push(tr(&abs(DENSE)));
    v.push(tr(&abs(DENSE2)));
    v
}

fn run<T: Num>(c: &mut Check, neg: bool) {
    let abs = |m: R| if neg { m } else { m.map(|r| r.map(i64::abs)) };
    let (dense, dense2) = (abs(DENSE), abs(DENSE2));
    let st = structured(neg);
    let al: Vec<i64> = if neg { vec![0, 1, -2, 3, -5] } else { vec![0, 1, 2, 3, 5] };
    // the entry (i, j) of a product depends on row i and column j only: all of them
    let n = (al.len() as u64).pow(8) * 16;
    let k = if c.quick() { 4 } else { al.len() };
    let n = if c.quick() { (k as u64).pow(8) * 16 } else { n };
    c.suite(&format!("row-column-{}", T::NAME), "every row times every column over the alphabet, at every position, the other entries all different", n, |i, c| {
        let mut d = Dec(i);
        let (p, q) = (d.take(4), d.take(4));
        let (mut a, mut b) = (dense, dense2);
        for t in 0..4 {
            a[p][t] = al[d.take(k)];
        }
        for t in 0..4 {
            b[t][q] = al[d.take(k)];
        }
        c.note(|| format!("{:?} * {:?}", a, b));
        c.step();
        c.distinct(1);
        eq("product", &(mk::<T>(&a) * mk::<T>(&b)), &mul(&a, &b))
    });
    let n = st.len() as u64;
    c.suite(&format!("pairs-{}", T::NAME), "every pair of structured matrices (permutation, signed, shear, scaling, dense): product, transpose of the product, equality", n * n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&st), *d.of(&st));
        c.note(|| format!("{:?} * {:?}", a, b));
        let (x, y) = (mk::<T>(&a), mk::<T>(&b));
        c.steps(4);
        c.state(Fp::new(i));
        let ab = mul(&a, &b);
        eq("product", &(x * y), &ab)?;
        eq("transpose of the product", &(x * y).transpose(), &tr(&ab))?;
        eq("reversed product of the transposes", &(y.transpose() * x.transpose()), &tr(&ab))?;
        if (x == y) != (a == b) {
            return Err("matrix equality".into());
        }
        Ok(())
    });
    let tri: Vec<R> = { let l = st.len(); st.iter().step_by(3).chain(st[l - 4..].iter()).copied().collect() };
    let n = tri.len() as u64;
    c.suite(&format!("triples-{}", T::NAME), "every triple of structured matrices: associativity", n * n * n, |i, c| {
        let mut d = Dec(i);
        let (a, b, e) = (*d.of(&tri), *d.of(&tri), *d.of(&tri));
        c.note(|| format!("{:?} * {:?} * {:?}", a, b, e));
        let (x, y, z) = (mk::<T>(&a), mk::<T>(&b), mk::<T>(&e));
        let w = mul(&mul(&a, &b), &e);
        c.steps(2);
        c.state(Fp::new(i));
        if w.iter().flatten().any(|v| v.abs() > 1 << 23) {
            c.skip();
            return Ok(());
        }
        eq("(ab)c", &((x * y) * z), &w)?;
        eq("a(bc)", &(x * (y * z)), &w)
    });
    let mut one = st.clone();
    for i in 0..16 {
        for v in &al {
            let mut m = [[0; 4]; 4];
            m[i / 4][i % 4] = *v;
            one.push(m);
        }
    }
    let n = one.len() as u64 * 16 * al.len() as u64;
    c.suite(&format!("accessors-{}", T::NAME), "every structured matrix, every position, every value: reading and writing through all accessors, scaling, identity and zero", n, |i, c| {
        let mut d = Dec(i);
        let a = *d.of(&one);
        let (r, q) = (d.take(4), d.take(4));
        let k = *d.of(&al);
        c.note(|| format!("a = {:?} at ({}, {}) value {}", a, r, q, k));
        c.steps(18);
        c.state(Fp::new(i));
        let x = mk::<T>(&a);
        let got = [x[(r, q)], x[r][q], x.row(r)[q], x.col(q)[r], x.row_vec(r)[q], x.col_vec(q)[r], x.data[r][q], x.transpose()[(q, r)]];
        for (nm, g) in ["[(r, c)]", "[r][c]", "row", "col", "row_vec", "col_vec", "data", "transpose"].iter().zip(got) {
            if g.r() != a[r][q] as f64 {
                return Err(format!("{}: read {:?}, expected {}", nm, g, a[r][q]));
            }
        }
        let mut w = a;
        w[r][q] = k;
        let mut y = x;
        y[(r, q)] = T::of(k);
        eq("write by [(r, c)]", &y, &w)?;
        let mut y = x;
        y[r][q] = T::of(k);
        eq("write by [r][c]", &y, &w)?;
        let mut w = a;
        w[r] = [k, 1, 2, 3];
        let mut y = x;
        y[r] = [k, 1, 2, 3].map(T::of);
        eq("row write", &y, &w)?;
        eq("transpose", &x.transpose(), &tr(&a))?;
        eq("transpose twice", &x.transpose().transpose(), &a)?;
        eq("scaling", &(x * T::of(k)), &a.map(|l| l.map(|v| v * k)))?;
        eq("identity", &Matrix4x4::<T>::identity(), &ID)?;
        eq("new", &Matrix4x4::<T>::new(), &ID)?;
        eq("default", &Matrix4x4::<T>::default(), &ID)?;
        eq("zero", &Matrix4x4::<T>::zero(), &[[0; 4]; 4])?;
        eq("identity on the left", &(Matrix4x4::identity() * x), &a)?;
        eq("identity on the right", &(x * Matrix4x4::identity()), &a)
    });
}
/// not exactly representable entries, huge and tiny magnitudes
fn inexact<T: Num + mc::num::Fl>(c: &mut Check) {
    let vals: Vec<f64> = [0.1, -0.3, 1e8, 1e-8, 7.7, -1e-14, 3e12].iter().map(|x| <T as mc::num::Fl>::f(*x).d()).collect();
    let k = vals.len() as u64;
    c.suite(&format!("inexact-{}", <T as Num>::NAME), "every pair of matrices whose entries cycle through inexact values of different magnitudes with all offsets and strides", (k * 6 * k * 6) * 7, |i, c| {
        let mut d = Dec(i);
        let (o1, s1, o2, s2) = (d.take(vals.len()), 1 + d.take(6), d.take(vals.len()), 1 + d.take(6));
        let sc = *d.of(&vals);
        let f = |o: usize, s: usize| -> [[f64; 4]; 4] { std::array::from_fn(|i| std::array::from_fn(|j| vals[(o + s * (4 * i + j)) % vals.len()])) };
        let (a, b) = (f(o1, s1), f(o2, s2));
        let m = |a: [[f64; 4]; 4]| Matrix4x4::<T>::from(a.map(|r| r.map(|v| <T as mc::num::Fl>::f(v))));
        c.note(|| format!("{:?} * {:?}, scale {}", a, b, sc));
        c.steps(2);
        c.state(Fp::new(i));
        let p = m(a) * m(b);
        let q = m(a) * <T as mc::num::Fl>::f(sc);
        for i in 0..4 {
            for j in 0..4 {
                let mut w = mc::num::W::new(0.0);
                let mut mag = 0.0;
                for t in 0..4 {
                    w = w.add(mc::num::W::new(a[i][t]).mul(mc::num::W::new(b[t][j])));
                    mag += (a[i][t] * b[t][j]).abs();
                }
                if !((p.data[i][j].d() - w.hi).abs() <= 5.0 * T::EPS * mag) {
                    return Err(format!("product entry ({}, {}): {:e}, expected {:e}", i, j, p.data[i][j].d(), w.hi));
                }
                if !((q.data[i][j].d() - a[i][j] * sc).abs() <= T::EPS * (a[i][j] * sc).abs()) {
                    return Err(format!("scaled entry ({}, {}): {:e}, expected {:e}", i, j, q.data[i][j].d(), a[i][j] * sc));
                }
            }
        }
        Ok(())
    });
}
/// every pair of the 32 entries of two matrices and a scalar, over the rich alphabet of the type
fn sweep<T: mc::any::Any>(c: &mut Check) {
    let quick = c.quick();
    let al: Vec<T> = T::rich(false).into_iter().step_by(c.by(2, 1)).chain(T::few()).collect();
    let n = al.len();
    let vals: [Vec<f64>; 33] = std::array::from_fn(|_| (0..n).map(|k| k as f64).collect());
    // small numbers, all different; the identity and a sparse matrix
    let at = |x: T| al.iter().position(|y| *y == x).unwrap() as f64;
    let few = T::few();
    let bases = vec![std::array::from_fn(|k| at(few[(3 + 5 * k) % few.len().min(10)])), std::array::from_fn(|k| at(if k % 16 % 5 == 0 { T::one() } else if k == 18 || k == 7 { few[3] } else { T::zero() }))];
    let sw = alpha::Sweep::new(2, bases[..if quick && n > 200 { 1 } else { 2 }].to_vec(), vals);
    c.suite(&format!("entries-{}", T::NAME), "every pair of the 32 entries of two matrices and a scalar over the rich alphabet of the type: product, scaling, transposes, accessors, equality; results that are not representable are not judged", sw.n(), |i, c| {
        let q: [T; 33] = sw.get(i).map(|x| al[x as usize]);
        let m = |o: usize| -> [[T; 4]; 4] { std::array::from_fn(|r| std::array::from_fn(|k| q[o + 4 * r + k])) };
        let (a, b, s) = (m(0), m(16), q[32]);
        let (x, y) = (Matrix4x4::from(a), Matrix4x4::from(b));
        c.note(|| format!("{:?} * {:?}, scalar {:?}", a, b, s));
        c.distinct(1);
        c.steps(4);
        let mut want = [[(T::zero(), 0.0); 4]; 4];
        let mut fits = true;
        for r in 0..4 {
            for k in 0..4 {
                match T::sum(&[(false, a[r][0], b[0][k]), (false, a[r][1], b[1][k]), (false, a[r][2], b[2][k]), (false, a[r][3], b[3][k])]) {
                    Some(w) => want[r][k] = w,
                    None => fits = false,
                }
            }
        }
        if fits {
            let p = x * y;
            for r in 0..4 {
                for k in 0..4 {
                    if !p.data[r][k].close(want[r][k].0, want[r][k].1) {
                        return Err(format!("product entry ({}, {}): {:?}, expected {:?}", r, k, p.data[r][k], want[r][k].0));
                    }
                }
            }
        } else {
            c.skip();
        }
        let mut sc = a;
        if (0..16).all(|k| a[k / 4][k % 4].cmul(s).map(|v| sc[k / 4][k % 4] = v).is_some()) {
            let p = x * s;
            for k in 0..16 {
                if !p.data[k / 4][k % 4].close(sc[k / 4][k % 4], 0.0) {
                    return Err(format!("scaled entry ({}, {}): {:?}, expected {:?}", k / 4, k % 4, p.data[k / 4][k % 4], sc[k / 4][k % 4]));
                }
            }
        }
        let t = x.transpose();
        for r in 0..4 {
            for k in 0..4 {
                if [t[(k, r)], x[(r, k)], x[r][k], x.row(r)[k], x.col(k)[r], x.row_vec(r)[k], x.col_vec(k)[r], x.data[r][k]].iter().any(|v| *v != a[r][k]) {
                    return Err(format!("reading entry ({}, {})", r, k));
                }
            }
        }
        if (x == y) != (a == b) || (x != y) != (a != b) {
            return Err("matrix equality".into());
        }
        // a single differing entry
        let k = (i % 16) as usize;
        let mut z = x;
        z[(k / 4, k % 4)] = s;
        if (x == z) != (a[k / 4][k % 4] == s) {
            return Err(format!("matrix equality with entry {} replaced by {:?}", k, s));
        }
        Ok(())
    });
}
fn main() {
    let mut c = Check::new("C12");
    sweep::<f32>(&mut c);
    sweep::<f64>(&mut c);
    sweep::<i8>(&mut c);
    sweep::<i16>(&mut c);
    sweep::<i32>(&mut c);
    sweep::<i64>(&mut c);
    sweep::<u8>(&mut c);
    sweep::<u16>(&mut c);
    sweep::<u32>(&mut c);
    sweep::<u64>(&mut c);
    run::<i32>(&mut c, true);
    run::<f32>(&mut c, true);
    run::<f64>(&mut c, true);
    run::<u32>(&mut c, false);
    run::<i64>(&mut c, true);
    inexact::<f32>(&mut c);
    inexact::<f64>(&mut c);
    c.finish();
}
