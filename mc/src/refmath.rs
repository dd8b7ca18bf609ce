//! binary64 reference geometry and the transform-word state machine.
use crate::num::Fl;
use scarlet::math::transform::{Invertible, Matrix4x4, Transform};
use scarlet::math::vector::{Point3, Vector3};

pub type M = [[f64; 4]; 4];
pub type V = [f64; 3];

pub const ID: M = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]];
pub fn mm(a: &M, b: &M) -> M {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = (0..4).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
pub fn mabs(a: &M) -> M {
    a.map(|r| r.map(f64::abs))
}
pub fn madd(a: &M, b: &M) -> M {
    let mut r = *a;
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] += b[i][j];
        }
    }
    r
}
pub fn mscale(a: &M, s: f64) -> M {
    a.map(|r| r.map(|x| x * s))
}
pub fn transpose(a: &M) -> M {
    let mut r = *a;
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn mulv(a: V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn norm(a: V) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: V) -> V {
    mulv(a, 1.0 / norm(a))
}
pub fn vabs(a: V) -> V {
    a.map(f64::abs)
}
/// Gauss-Jordan inverse with partial pivoting (an algorithm different from the crate's)
/// determinant, as the product of the pivots
pub fn det(a: &M) -> f64 {
    let mut m = *a;
    let mut d = 1.0;
    for c in 0..4 {
        let p = (c..4).max_by(|&i, &j| m[i][c].abs().total_cmp(&m[j][c].abs())).unwrap();
        if p != c {
            m.swap(p, c);
            d = -d;
        }
        d *= m[c][c];
        if d == 0.0 {
            return 0.0;
        }
        for i in c + 1..4 {
            let f = m[i][c] / m[c][c];
            for j in c..4 {
                m[i][j] -= f * m[c][j];
            }
        }
    }
    d
}
pub fn inv(a: &M) -> Option<M> {
    let mut m = *a;
    let mut r = ID;
    for c in 0..4 {
        let p = (c..4).max_by(|&i, &j| m[i][c].abs().total_cmp(&m[j][c].abs())).unwrap();
        if m[p][c].abs() < 1e-300 {
            return None;
        }
        m.swap(p, c);
        r.swap(p, c);
        let d = m[c][c];
        for j in 0..4 {
            m[c][j] /= d;
            r[c][j] /= d;
        }
        for i in 0..4 {
            if i != c {
                let f = m[i][c];
                for j in 0..4 {
                    m[i][j] -= f * m[c][j];
                    r[i][j] -= f * r[c][j];
                }
            }
        }
    }
    Some(r)
}
/// (mapped point, w)
pub fn map_point(m: &M, p: V) -> (V, f64) {
    let h = |i: usize| m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3];
    let w = h(3);
    ([h(0) / w, h(1) / w, h(2) / w], w)
}
pub fn map_vec(m: &M, v: V) -> V {
    let h = |i: usize| m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    [h(0), h(1), h(2)]
}
/// by the transpose of `minv`
pub fn map_normal(minv: &M, n: V) -> V {
    let h = |j: usize| minv[0][j] * n[0] + minv[1][j] * n[1] + minv[2][j] * n[2];
    [h(0), h(1), h(2)]
}

pub fn to_m<T: Fl>(m: &Matrix4x4<T>) -> M {
    m.data.map(|r| r.map(|x| x.d()))
}
pub fn p3<T: Fl>(v: V) -> Point3<T> {
    Point3::new(T::f(v[0]), T::f(v[1]), T::f(v[2]))
}
pub fn v3<T: Fl>(v: V) -> Vector3<T> {
    Vector3::new(T::f(v[0]), T::f(v[1]), T::f(v[2]))
}
pub fn pv<T: Fl>(p: Point3<T>) -> V {
    p.vec.map(|x| x.d())
}
pub fn vv<T: Fl>(p: Vector3<T>) -> V {
    p.vec.map(|x| x.d())
}
fn rnd<T: Fl>(v: V) -> V {
    v.map(|x| T::f(x).d())
}

#[derive(Clone, Copy, Debug)]
pub enum Gen {
    Translate(V),
    Scale(V),
    RotX(f64),
    RotY(f64),
    RotZ(f64),
    Rot(V, f64),
    LookAt(V, V, V),
    Persp(f64, f64, f64),
}
pub fn rot_model(axis: V, a: f64) -> M {
    let u = unit(axis);
    let (s, c) = a.sin_cos();
    let mut m = ID;
    for i in 0..3 {
        for j in 0..3 {
            let k = (6 - i - j) % 3;
            let eps = if i == j { 0.0 } else if (i + 1) % 3 == j { -u[k] } else { u[k] };
            m[i][j] = if i == j { c } else { 0.0 } + (1.0 - c) * u[i] * u[j] + s * eps;
        }
    }
    m
}
impl Gen {
    pub fn build<T: Fl>(&self) -> Transform<T> {
        match *self {
            Gen::Translate(v) => Transform::translate(v3(v)),
            Gen::Scale(v) => Transform::scale(v3(v)),
            Gen::RotX(a) => Transform::rotate_x(T::f(a)),
            Gen::RotY(a) => Transform::rotate_y(T::f(a)),
            Gen::RotZ(a) => Transform::rotate_z(T::f(a)),
            Gen::Rot(v, a) => Transform::rotate(v3(v), T::f(a)),
            Gen::LookAt(p, t, u) => Transform::look_at(p3(p), p3(t), v3(u)),
            Gen::Persp(a, n, f) => Transform::perspective(T::f(a), T::f(n), T::f(f)),
        }
    }
    /// reference matrix, reference inverse, entrywise error bounds of a faithful
    /// implementation at precision T
    pub fn model<T: Fl>(&self) -> (M, M, M, M) {
        let e = T::EPS;
        match *self {
            Gen::Translate(v) => {
                let v = rnd::<T>(v);
                let (mut m, mut n) = (ID, ID);
                for i in 0..3 {
                    m[i][3] = v[i];
                    n[i][3] = -v[i];
                }
                let z = [[0.0; 4]; 4];
                (m, n, z, z)
            }
            Gen::Scale(v) => {
                let v = rnd::<T>(v);
                let (mut m, mut n) = (ID, ID);
                for i in 0..3 {
                    m[i][i] = v[i];
                    n[i][i] = 1.0 / v[i];
                }
                (m, n, [[0.0; 4]; 4], mscale(&mabs(&n), 2.0 * e))
            }
            Gen::RotX(a) => Self::rigid::<T>([1., 0., 0.], a),
            Gen::RotY(a) => Self::rigid::<T>([0., 1., 0.], a),
            Gen::RotZ(a) => Self::rigid::<T>([0., 0., 1.], a),
            Gen::Rot(v, a) => Self::rigid::<T>(rnd::<T>(v), a),
            Gen::LookAt(p, t, u) => {
                let (p, t, u) = (rnd::<T>(p), rnd::<T>(t), rnd::<T>(u));
                let z = unit(sub(p, t));
                let cx = cross(unit(u), z);
                let x = unit(cx);
                let y = cross(z, x);
                let cond = 1.0 / norm(cx) + (norm(p) + norm(t)) / norm(sub(p, t));
                let mut m = ID;
                let mut n = ID;
                for (i, a) in [x, y, z].iter().enumerate() {
                    for j in 0..3 {
                        m[i][j] = a[j];
                        n[j][i] = a[j];
                    }
                    m[i][3] = -dot(*a, p);
                    n[i][3] = p[i];
                }
                let mut em = [[16.0 * e * cond; 4]; 4];
                let mut en = em;
                for i in 0..3 {
                    em[i][3] *= 4.0 * norm(p) + 1.0;
                    en[i][3] = 2.0 * e * p[i].abs();
                }
                em[3] = [0.0; 4];
                en[3] = [0.0; 4];
                (m, n, em, en)
            }
            Gen::Persp(a, n, f) => {
                let (a, n, f) = (T::f(a).d(), T::f(n).d(), T::f(f).d());
                let c = 1.0 / (a / 2.0).tan();
                let mut m = [[0.0; 4]; 4];
                m[0][0] = -c;
                m[1][1] = -c;
                m[2][2] = f / (f - n);
                m[2][3] = f * n / (f - n);
                m[3][2] = 1.0;
                let mut mi = [[0.0; 4]; 4];
                mi[0][0] = -1.0 / c;
                mi[1][1] = -1.0 / c;
                mi[2][3] = 1.0;
                mi[3][2] = (f - n) / (f * n);
                mi[3][3] = -1.0 / n;
                // entrywise condition of inversion
                let cond = mm(&mm(&mabs(&mi), &mabs(&m)), &mabs(&mi));
                // the tangent of half an angle close to pi is ill-conditioned
                let k = 64.0 * e * (f.max(n) / (f - n).abs() + a / a.sin());
                (m, mi, mscale(&mabs(&m), k), mscale(&cond, k))
            }
        }
    }
    fn rigid<T: Fl>(axis: V, a: f64) -> (M, M, M, M) {
        let a = T::f(a).d();
        let m = rot_model(axis, a);
        let mut er = [[16.0 * T::EPS; 4]; 4];
        for i in 0..4 {
            er[3][i] = 0.0;
            er[i][3] = 0.0;
        }
        (m, transpose(&m), er, er)
    }
    pub fn affine(&self) -> bool {
        !matches!(self, Gen::Persp(..))
    }
}

/// a reached transform together with its reference and entrywise error bounds
#[derive(Clone)]
pub struct St<T: Fl> {
    pub t: Transform<T>,
    pub m: M,
    pub n: M,
    pub em: M,
    pub en: M,
    pub word: String,
    pub affine: bool,
    pub depth: usize,
}

pub fn prod_err(a: &M, ea: &M, b: &M, eb: &M, e: f64) -> M {
    let (aa, ab) = (mabs(a), mabs(b));
    let mut r = mm(&aa, eb);
    r = madd(&r, &mm(ea, &ab));
    r = madd(&r, &mm(ea, eb));
    madd(&r, &mscale(&mm(&aa, &ab), 4.0 * e))
}

impl<T: Fl> St<T> {
    pub fn gen(g: &Gen, name: String) -> St<T> {
        let (m, n, em, en) = g.model::<T>();
        St { t: g.build(), m, n, em, en, word: name, affine: g.affine(), depth: 1 }
    }
    pub fn identity() -> St<T> {
        let z = [[0.0; 4]; 4];
        St { t: Transform::identity(), m: ID, n: ID, em: z, en: z, word: "I".into(), affine: true, depth: 0 }
    }
    pub fn compose(&self, o: &St<T>) -> St<T> {
        St {
            t: self.t * o.t,
            m: mm(&self.m, &o.m),
            n: mm(&o.n, &self.n),
            em: prod_err(&self.m, &self.em, &o.m, &o.em, T::EPS),
            en: prod_err(&o.n, &o.en, &self.n, &self.en, T::EPS),
            word: if self.word.is_empty() && o.word.is_empty() { String::new() } else { format!("({} * {})", self.word, o.word) },
            affine: self.affine && o.affine,
            depth: self.depth + o.depth,
        }
    }
    pub fn inverse(&self) -> St<T> {
        St { t: self.t.inverse(), m: self.n, n: self.m, em: self.en, en: self.em,
             word: format!("inv{}", self.word), affine: self.affine, depth: self.depth }
    }
    /// both matrices of the real transform agree with the reference; a projective map is only
    /// determined up to a common factor
    pub fn agrees(&self) -> Result<(), String> {
        let (m, n) = (to_m(&self.t.matrix()), to_m(&self.t.inverse_matrix()));
        let mut f = 1.0;
        if !self.affine {
            let (mut bi, mut bj) = (0, 0);
            for i in 0..4 {
                for j in 0..4 {
                    if self.m[i][j].abs() > self.m[bi][bj].abs() {
                        (bi, bj) = (i, j);
                    }
                }
            }
            f = m[bi][bj] / self.m[bi][bj];
            if !(f.abs() > 1e-3 && f.abs() < 1e3) {
                return Err(format!("matrix[{}][{}] = {:e}, expected about {:e}", bi, bj, m[bi][bj], self.m[bi][bj]));
            }
            if (f - 1.0).abs() < 1e-3 {
                f = 1.0;
            }
        }
        for i in 0..4 {
            for j in 0..4 {
                let bad = |x: f64, r: f64, e: f64| !((x - r).abs() <= 2.0 * e + r.abs() * 8.0 * T::EPS);
                if bad(m[i][j] / f, self.m[i][j], self.em[i][j]) {
                    return Err(format!("matrix[{}][{}] = {:e}, expected {:e} (+- {:e}) times {}", i, j, m[i][j], self.m[i][j], self.em[i][j], f));
                }
                if bad(n[i][j] * f, self.n[i][j], self.en[i][j]) {
                    return Err(format!("inverse_matrix[{}][{}] = {:e}, expected {:e} (+- {:e}) over {}", i, j, n[i][j], self.n[i][j], self.en[i][j], f));
                }
            }
        }
        Ok(())
    }
    fn key(&self) -> [i64; 32] {
        let mut k = [0; 32];
        for i in 0..4 {
            for j in 0..4 {
                k[i * 4 + j] = (self.m[i][j] * 1e6).round() as i64;
                k[16 + i * 4 + j] = (self.n[i][j] * 1e6).round() as i64;
            }
        }
        k
    }
}

pub fn generators(persp: bool) -> Vec<(String, Gen)> {
    let mut v = vec![
        Gen::Translate([1.0, -2.0, 3.0]),
        Gen::Scale([2.0, 2.0, 2.0]),
        Gen::Scale([1.0, -2.0, 0.5]),
        Gen::RotX(std::f64::consts::FRAC_PI_2),
        Gen::RotX(0.3),
        Gen::RotY(-1.1),
        Gen::RotZ(2.5),
        Gen::Rot([1.0, 2.0, -2.0], 0.9),
        Gen::Rot([-1.0, 0.3, 0.5], -2.2),
        Gen::Translate([-0.5, 4.0, 0.25]),
        Gen::LookAt([1.0, 2.0, 3.0], [-2.0, 0.5, 1.0], [0.0, 1.0, 0.0]),
        Gen::LookAt([0.5, -1.0, -2.0], [0.5, 3.0, -2.0], [0.3, 0.1, 1.0]),
        Gen::Scale([0.1, 3.0, -7.0]),
        Gen::RotY(std::f64::consts::PI),
    ];
    if persp {
        v.push(Gen::Persp(1.2, 0.5, 20.0));
        v.push(Gen::Persp(0.7, 1.0, 3.0));
    }
    v.into_iter().enumerate().map(|(i, g)| (format!("g{}", i), g)).collect()
}

/// constructors at extreme magnitudes and next to the special cases (nearly unit axes, nearly
/// perpendicular up vectors, tiny angles, entries below every comparison tolerance)
pub fn extremes() -> Vec<Gen> {
    vec![
        Gen::Scale([1e-7, 1.0, 1e4]),
        Gen::Scale([3e-7, 3e-7, 3e-7]),
        Gen::Scale([2e5, -1e6, 7e5]),
        Gen::Scale([1.00003, 0.99997, 1.0000003]),
        Gen::Scale([1e-3, 1e-3, 1e-3]),
        Gen::Scale([-1.0, 1e-12, 1.0]),
        Gen::Translate([1e6, -3e-7, 2e5]),
        Gen::Translate([4e-7, -8e-7, 5e-7]),
        Gen::RotZ(6e-7),
        Gen::RotX(2e-4),
        Gen::RotY(std::f64::consts::PI - 3e-5),
        Gen::Rot([1.00003, 0.0, 0.0], 2.0),
        Gen::Rot([0.0, 0.6000002, 0.8], -1.3),
        Gen::Rot([1.0000004, 3e-7, 0.0], 2.6),
        Gen::Rot([1e-5, -2e-5, 1e-5], 0.8),
        Gen::Rot([3e8, 4e8, 0.0], 2.2),
        Gen::LookAt([0.0, 0.0, 1.0], [0.0, 0.0, -3.0], [0.0, 1.0, 7e-7]),
        Gen::LookAt([2.0, 1.0, 1.0], [2.0, 1.0, 1.00002], [3e-5, 1e-5, 0.0]),
        Gen::LookAt([1e5, -2e5, 0.5], [-3e5, 1e4, 2e4], [0.0, 1e-4, 1e4]),
    ]
}
/// every extreme constructor and its inverse, alone and composed on either side with every
/// ordinary and every extreme one
pub fn extreme_states<T: Fl>() -> Vec<St<T>> {
    let x: Vec<St<T>> = extremes().iter().enumerate().map(|(i, g)| St::gen(g, format!("x{}", i))).collect();
    let mut y = gen_states::<T>(&generators(false));
    y.extend(x.iter().cloned());
    let mut v: Vec<St<T>> = x.iter().flat_map(|a| [a.clone(), a.inverse()]).collect();
    for a in &x {
        for b in &y {
            for t in [a.compose(b), b.compose(a), a.inverse().compose(b), b.compose(&a.inverse())] {
                if t.m.iter().chain(t.n.iter()).flatten().all(|x| x.abs() < 1e15) {
                    v.push(t.inverse());
                    v.push(t);
                }
            }
        }
    }
    v
}

/// A bounded value: reference and error bound of a faithful computation at precision T.
#[derive(Clone, Copy, Debug)]
pub struct B {
    pub v: V,
    pub e: V,
}
impl B {
    pub fn exact(v: V) -> B {
        B { v, e: [0.0; 3] }
    }
    pub fn close(&self, what: &str, got: V) -> Result<(), String> {
        for i in 0..3 {
            if !((got[i] - self.v[i]).abs() <= 2.0 * self.e[i] + 1e-40) {
                return Err(format!("{}: got {:?}, expected {:?} (+- {:?})", what, got, self.v, self.e.map(|x| 2.0 * x)));
            }
        }
        Ok(())
    }
}
fn row(m: &M, em: &M, i: usize, p: &B, t: f64, eps: f64) -> (f64, f64) {
    let (mut s, mut e) = (m[i][3] * t, (em[i][3] + 4.0 * eps * m[i][3].abs()) * t);
    for k in 0..3 {
        s += m[i][k] * p.v[k];
        e += (em[i][k] + 4.0 * eps * m[i][k].abs()) * (p.v[k].abs() + p.e[k]) + m[i][k].abs() * p.e[k];
    }
    (s, e)
}
/// None when the homogeneous coordinate is too close to zero to say anything
pub fn bmap_point(m: &M, em: &M, p: &B, eps: f64) -> Option<B> {
    let (w, ew) = row(m, em, 3, p, 1.0, eps);
    if w.abs() <= 16.0 * ew || w.abs() < 1e-4 {
        return None;
    }
    let mut r = B::exact([0.0; 3]);
    for i in 0..3 {
        let (x, ex) = row(m, em, i, p, 1.0, eps);
        r.v[i] = x / w;
        r.e[i] = (ex + (x / w).abs() * ew) / (w.abs() - ew) + 2.0 * eps * r.v[i].abs();
    }
    Some(r)
}
pub fn bmap_vec(m: &M, em: &M, p: &B, eps: f64) -> B {
    let mut r = B::exact([0.0; 3]);
    for i in 0..3 {
        (r.v[i], r.e[i]) = row(m, em, i, p, 0.0, eps);
    }
    r
}
pub fn bmap_normal(n: &M, en: &M, p: &B, eps: f64) -> B {
    bmap_vec(&transpose(n), &transpose(en), p, eps)
}

/// Breadth-first exploration of all words over the generators, on the reference side: from
/// every reached transform compose with every generator on the left and on the right, and
/// invert.  Returns every distinct state up to `depth`; the real transform of a state is the
/// one built by the same operations.
pub fn explore<T: Fl>(gens: &[(String, Gen)], depth: usize) -> Vec<St<T>> {
    let gs = gen_states::<T>(gens);
    let mut seen = std::collections::HashSet::new();
    let id = St::identity();
    seen.insert(id.key());
    let mut all = vec![id];
    let mut from = 0;
    for _ in 0..depth {
        let to = all.len();
        for i in from..to {
            for k in 0..transitions(gs.len()) {
                let n = step(&all[i], k, &gs);
                if n.m.iter().chain(n.n.iter()).flatten().any(|x| x.abs() > 1e4) {
                    continue;
                }
                if seen.insert(n.key()) {
                    all.push(n);
                }
            }
        }
        from = to;
    }
    all
}
pub fn gen_states<T: Fl>(gens: &[(String, Gen)]) -> Vec<St<T>> {
    gens.iter().map(|(n, g)| St::gen(g, n.clone())).collect()
}
pub fn transitions(gens: usize) -> usize {
    2 * gens + 1
}
/// transition k of a state
pub fn step<T: Fl>(s: &St<T>, k: usize, gs: &[St<T>]) -> St<T> {
    if k < gs.len() {
        s.compose(&gs[k])
    } else if k < 2 * gs.len() {
        gs[k - gs.len()].compose(s)
    } else {
        s.inverse()
    }
}
