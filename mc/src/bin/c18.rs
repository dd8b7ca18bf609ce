//! C18 the lattice of axis-aligned boxes.
use mc::*;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::Bounded3;
use scarlet::math::vector::Point3f;

type P = [f32; 3];
fn pt(p: P) -> Point3f {
    Point3f::new(p[0], p[1], p[2])
}
#[derive(Clone, Copy, PartialEq, Debug)]
struct Bx {
    lo: P,
    hi: P,
}
impl Bx {
    fn has(&self, p: P) -> bool {
        (0..3).all(|k| self.lo[k] <= p[k] && p[k] <= self.hi[k])
    }
    fn volume(&self) -> bool {
        (0..3).all(|k| self.lo[k] < self.hi[k])
    }
    fn make(&self) -> Bbox3 {
        Bbox3::new(pt(self.lo), pt(self.hi))
    }
}
fn zip(a: P, b: P, f: fn(f32, f32) -> f32) -> P {
    std::array::from_fn(|k| f(a[k], b[k]))
}
fn is(what: &str, b: &Bbox3, w: &Bx) -> Res {
    if b.pmin.vec == w.lo && b.pmax.vec == w.hi { Ok(()) } else { Err(format!("{}: got {:?}..{:?}, expected {:?}..{:?}", what, b.pmin.vec, b.pmax.vec, w.lo, w.hi)) }
}
fn yes(what: &str, got: bool, want: bool) -> Res {
    if got == want { Ok(()) } else { Err(format!("{}: got {}, expected {}", what, got, want)) }
}
fn cells(v: &[f32]) -> Vec<(f32, f32)> {
    let mut r = vec![];
    for i in 0..v.len() {
        for j in i..v.len() {
            r.push((v[i], v[j]));
        }
    }
    r
}
/// the coordinates and points between and beyond them
fn finer(v: &[f32]) -> Vec<f32> {
    let mut r = vec![v[0] - 1.0];
    for i in 0..v.len() {
        r.push(v[i]);
        r.push(if i + 1 < v.len() { (v[i] + v[i + 1]) / 2.0 } else { v[i] + 1.0 });
    }
    r
}
fn every(q: [f32; 15], c: &mut Ctx) -> Res {
    let v = |k: usize| -> P { [q[k], q[k + 1], q[k + 2]] };
    let p = v(12);
    c.note(|| format!("corners {:?} {:?} and {:?} {:?} point {:?}", v(0), v(3), v(6), v(9), p));
    c.distinct(1);
    c.steps(10);
    let make = |s: P, t: P| (Bbox3::new(pt(s), pt(t)), Bx { lo: zip(s, t, f32::min), hi: zip(s, t, f32::max) });
    let ((x, a), (y, b)) = (make(v(0), v(3)), make(v(6), v(9)));
    is("new", &x, &a)?;
    is("new", &y, &b)?;
    yes("inside", x.inside(pt(p)), a.has(p))?;
    let u = Bx { lo: zip(a.lo, b.lo, f32::min), hi: zip(a.hi, b.hi, f32::max) };
    is("union", &x.union(&y), &u)?;
    is("+", &(x + y), &u)?;
    let mut z = x;
    z += y;
    is("+=", &z, &u)?;
    let common = Bx { lo: zip(a.lo, b.lo, f32::max), hi: zip(a.hi, b.hi, f32::min) };
    let w = x.intersect(&y);
    if (0..3).all(|k| common.lo[k] <= common.hi[k]) {
        is("intersect", &w, &common)?;
    }
    yes("membership in the intersection", w.inside(pt(p)), a.has(p) && b.has(p))?;
    if a.volume() && b.volume() {
        yes("overlaps", x.overlaps(&y), common.volume())?;
    }
    let ext = zip(a.hi, a.lo, |h, l| h - l);
    yes("diagonal", x.diagonal().vec == ext, true)?;
    let mid = x.center();
    for k in 0..3 {
        yes("center within an ulp", (mid[k] as f64 - (a.lo[k] as f64 + a.hi[k] as f64) / 2.0).abs() <= f32::EPSILON as f64 * (a.lo[k].abs() + a.hi[k].abs()) as f64, true)?;
    }
    let (r, ax) = x.max_extent();
    let m = ext.iter().copied().fold(0.0, f32::max);
    if ax > 2 || ext[ax as usize] != m || r != (a.lo[ax as usize], a.hi[ax as usize]) {
        return Err(format!("max_extent: {:?} axis {}, extents {:?}", r, ax, ext));
    }
    Ok(())
}
fn main() {
    let mut c = Check::new("C18");
    let mut coords: [Vec<f32>; 3] = [vec![-2.0, 0.5, 1.0, 3.0, 4.0], vec![-1.0, 0.0, 2.0, 7.25, 8.0], vec![0.25, 1.0, 1.5, 4.0, 9.0]];
    if !c.quick() {
        coords[0].push(64.0);
        coords[1].push(8.5);
        coords[2].push(10.0);
    }
    let iv: Vec<Vec<(f32, f32)>> = coords.iter().map(|v| cells(v)).collect();
    let fine: Vec<Vec<f32>> = coords.iter().map(|v| finer(v)).collect();
    let mut boxes = vec![];
    for x in &iv[0] {
        for y in &iv[1] {
            for z in &iv[2] {
                boxes.push(Bx { lo: [x.0, y.0, z.0], hi: [x.1, y.1, z.1] });
            }
        }
    }
    let mut pts = vec![];
    for x in &fine[0] {
        for y in &fine[1] {
            for z in &fine[2] {
                pts.push([*x, *y, *z]);
            }
        }
    }
    // construction from any two corners
    let k = coords[0].len();
    let corner = move |d: &mut Dec, co: &[Vec<f32>; 3]| -> P { [co[0][d.take(k)], co[1][d.take(k)], co[2][d.take(k)]] };
    let n = (k as u64).pow(6);
    c.suite("corners", "every ordered pair of corner points: bounds, membership of every lattice point, extreme coordinates, diagonal, centre, largest extent", n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (corner(&mut d, &coords), corner(&mut d, &coords));
        let w = Bx { lo: zip(a, b, f32::min), hi: zip(a, b, f32::max) };
        let g = Bbox3::new(pt(a), pt(b));
        c.note(|| format!("corners {:?} {:?}", a, b));
        c.state(Fp::new(i));
        c.steps(12 + pts.len() as u64);
        is("new", &g, &w)?;
        is("bbox()", &g.bbox(), &w)?;
        for p in &pts {
            if g.inside(pt(*p)) != w.has(*p) {
                return Err(format!("inside {:?}: expected {}", p, w.has(*p)));
            }
        }
        for (nm, x, y) in [("xmin", g.xmin(), w.lo[0]), ("ymin", g.ymin(), w.lo[1]), ("zmin", g.zmin(), w.lo[2]),
                           ("xmax", g.xmax(), w.hi[0]), ("ymax", g.ymax(), w.hi[1]), ("zmax", g.zmax(), w.hi[2])] {
            yes(nm, x == y, true)?;
        }
        let ext = zip(w.hi, w.lo, |h, l| h - l);
        yes("diagonal", g.diagonal().vec == ext, true)?;
        yes("center", g.center().vec == zip(w.hi, w.lo, |h, l| (h + l) / 2.0), true)?;
        let (r, ax) = g.max_extent();
        let m = ext.iter().copied().fold(0.0, f32::max);
        if ax > 2 || ext[ax as usize] != m || r != (w.lo[ax as usize], w.hi[ax as usize]) {
            return Err(format!("max_extent: {:?} axis {}, extents {:?}", r, ax, ext));
        }
        Ok(())
    });
    let n = boxes.len() as u64;
    let (bs, ps) = (&boxes, &pts);
    c.suite("pairs", "every pair of boxes: union, intersection (by membership of every lattice point), overlap, operators", n * n, |i, c| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(bs), *d.of(bs));
        let (x, y) = (a.make(), b.make());
        c.note(|| format!("{:?} {:?}", a, b));
        c.state(Fp::new(i));
        c.steps(6 + ps.len() as u64);
        let u = Bx { lo: zip(a.lo, b.lo, f32::min), hi: zip(a.hi, b.hi, f32::max) };
        is("union", &x.union(&y), &u)?;
        is("+", &(x + y), &u)?;
        let mut z = x;
        z += y;
        is("+=", &z, &u)?;
        let m = x.intersect(&y);
        let common = Bx { lo: zip(a.lo, b.lo, f32::max), hi: zip(a.hi, b.hi, f32::min) };
        if (0..3).all(|k| common.lo[k] <= common.hi[k]) {
            is("intersect", &m, &common)?;
            c.tally("sharing points");
        } else {
            c.tally("disjoint");
        }
        for p in ps {
            let want = a.has(*p) && b.has(*p);
            if m.inside(pt(*p)) != want {
                return Err(format!("membership of {:?} in the intersection: expected {}", p, want));
            }
        }
        if a.volume() && b.volume() {
            yes("overlaps", x.overlaps(&y), common.volume())?;
            yes("overlaps, swapped", y.overlaps(&x), common.volume())?;
            c.tally("overlap judged");
        }
        Ok(())
    });
    // the same at other scales, and with neighbouring floats as coordinates
    let t = |k: i32| 2f32.powi(k);
    let sets: Vec<(&str, [f32; 4], [f32; 4])> = vec![
        // (name, coordinates, points between and beyond them that are no coordinates)
        ("2^-24", [-1.0, 0.5, 1.0, 3.0].map(|x| x * t(-24)), [-2.0, 0.75, 2.0, 4.0].map(|x| x * t(-24))),
        ("2^-90", [-1.0, 0.5, 1.0, 3.0].map(|x| x * t(-90)), [-2.0, 0.75, 2.0, 4.0].map(|x| x * t(-90))),
        ("2^40", [-1.0, 0.5, 1.0, 3.0].map(|x| x * t(40)), [-2.0, 0.75, 2.0, 4.0].map(|x| x * t(40))),
        ("neighbours of 1", [1.0, 1.0 + t(-22), 1.0 + t(-20), 1.0 + t(-12)], [1.0 - t(-24), 1.0 + t(-23), 1.0 + t(-21), 1.0 + t(-13)]),
        ("neighbours of -1000", [-1000.0, -1000.0 + t(-13), -1000.0 + t(-10), -1000.0 + t(-4)], [-1000.0 - t(-14), -1000.0 + t(-14), -1000.0 + t(-11), -1000.0 + t(-5)]),
    ];
    for (name, co, ex) in &sets {
        let co = &co[..4];
        let cs = cells(co);
        let m = cs.len();
        let all: Vec<f32> = co.iter().chain(ex).copied().collect();
        let n = (m as u64).pow(6);
        c.suite(&format!("scaled, {}", name), "every pair of boxes over coordinates at this scale: corners, membership, union, intersection, overlap, diagonal, centre, largest extent", n, |i, c| {
            let mut d = Dec(i);
            let mut bx = || {
                let v: Vec<(f32, f32)> = (0..3).map(|_| *d.of(&cs)).collect();
                Bx { lo: [v[0].0, v[1].0, v[2].0], hi: [v[0].1, v[1].1, v[2].1] }
            };
            let (a, b) = (bx(), bx());
            let (x, y) = (a.make(), b.make());
            c.note(|| format!("{:?} {:?}", a, b));
            c.state(Fp::new(i));
            is("new, corners swapped", &Bbox3::new(pt(a.hi), pt(a.lo)), &a)?;
            let u = Bx { lo: zip(a.lo, b.lo, f32::min), hi: zip(a.hi, b.hi, f32::max) };
            is("union", &x.union(&y), &u)?;
            is("+", &(x + y), &u)?;
            let common = Bx { lo: zip(a.lo, b.lo, f32::max), hi: zip(a.hi, b.hi, f32::min) };
            let w = x.intersect(&y);
            if (0..3).all(|k| common.lo[k] <= common.hi[k]) {
                is("intersect", &w, &common)?;
            } else {
                for p in all.iter() {
                    for k in 0..3 {
                        let mut q = zip(a.lo, b.lo, f32::max);
                        q[k] = *p;
                        yes("membership in the intersection", w.inside(pt(q)), a.has(q) && b.has(q))?;
                    }
                }
            }
            if a.volume() && b.volume() {
                yes("overlaps", x.overlaps(&y), common.volume())?;
            }
            if b.lo == a.lo {
                // once per box
                for p in all.iter() {
                    for k in 0..3 {
                        let mut q = a.hi;
                        q[k] = *p;
                        yes(&format!("inside {:?}", q), x.inside(pt(q)), a.has(q))?;
                    }
                }
                let ext = zip(a.hi, a.lo, |h, l| h - l);
                yes("diagonal", x.diagonal().vec == ext, true)?;
                let mid = x.center();
                for k in 0..3 {
                    yes("center within an ulp", (mid[k] as f64 - (a.lo[k] as f64 + a.hi[k] as f64) / 2.0).abs() <= f32::EPSILON as f64 * (a.lo[k].abs() + a.hi[k].abs()) as f64, true)?;
                }
                let (r, ax) = x.max_extent();
                let m = ext.iter().copied().fold(0.0, f32::max);
                if ax > 2 || ext[ax as usize] != m || r != (a.lo[ax as usize], a.hi[ax as usize]) {
                    return Err(format!("max_extent: {:?} axis {}, extents {:?}", r, ax, ext));
                }
            }
            c.steps(8);
            Ok(())
        });
    }
    // histories of unions, with the empty box as an operand
    let al: Vec<Option<Bx>> = std::iter::once(None).chain(bs.iter().step_by(boxes.len() / c.by(24, 48)).map(|b| Some(*b))).collect();
    let n = al.len() as u64;
    c.suite("unions", "every history of three unions starting from the default box, operands from an alphabet including the empty box; plain and assigning operator", n * n * n * 2, |i, c| {
        let mut d = Dec(i);
        let form = d.take(2);
        let mut acc = Bbox3::default();
        let mut w: Option<Bx> = None;
        for _ in 0..3 {
            let o = *d.of(&al);
            let r = o.map_or(Bbox3::default(), |b| b.make());
            c.note(|| format!("union with {:?}", o));
            if form == 0 {
                acc += r;
            } else {
                acc = r + acc;
            }
            c.step();
            w = match (w, o) {
                (None, x) | (x, None) => x,
                (Some(a), Some(b)) => Some(Bx { lo: zip(a.lo, b.lo, f32::min), hi: zip(a.hi, b.hi, f32::max) }),
            };
            match w {
                Some(b) => is("union so far", &acc, &b)?,
                None => {
                    for p in ps.iter().step_by(7) {
                        yes("the empty union contains no point", acc.inside(pt(*p)), false)?;
                    }
                }
            }
        }
        c.state(Fp::new(i));
        if let Some(b) = w {
            yes("the default box overlaps nothing", Bbox3::default().overlaps(&b.make()) || b.make().overlaps(&Bbox3::default()), false)?;
        }
        Ok(())
    });
    // extreme coordinates
    let ex = [-f32::MAX, -1e30, -1.0, -1e-40, 0.0, 1e-38, 3.3, 1e30, f32::MAX];
    c.suite("extremes", "every pair of corners with one extreme coordinate per axis position: bounds, membership, emptiness of the default box", 81 * 3, |i, c| {
        let mut d = Dec(i);
        let (a, b, ax) = (*d.of(&ex), *d.of(&ex), d.take(3));
        let (mut p, mut q) = ([0.5; 3], [2.0; 3]);
        p[ax] = a;
        q[ax] = b;
        c.note(|| format!("{:?} {:?}", p, q));
        c.state(Fp::new(i));
        let w = Bx { lo: zip(p, q, f32::min), hi: zip(p, q, f32::max) };
        let g = Bbox3::new(pt(p), pt(q));
        is("new", &g, &w)?;
        is("union with the default", &(g + Bbox3::default()), &w)?;
        is("default united with it", &(Bbox3::default() + g), &w)?;
        for e in ex {
            for dlt in [e, e.next_up(), e.next_down()] {
                let mut r = [1.0; 3];
                r[ax] = dlt;
                yes(&format!("inside {:?}", r), g.inside(pt(r)), w.has(r))?;
                yes("inside the default box", Bbox3::default().inside(pt([dlt; 3])), false)?;
                c.steps(2);
            }
        }
        Ok(())
    });
    // every pair and every three of the coordinates of two boxes and a point
    let al = alpha::rich(-20, 20, !c.quick());
    let co = alpha::coarse();
    let bases = vec![
        [-1.0, -2.0, 0.5, 3.0, 1.0, 4.0, 0.0, -1.0, 1.0, 2.0, 5.0, 6.0, 0.5, 0.0, 2.0],
        [1.0, 1.0, 1.0, 2.0, 2.0, 2.0, 1.0, 1.0, 1.0, 2.0, 2.0, 2.0, 1.0, 1.5, 2.0],
        [5.0, 7.0, -3.0, -5.0, 6.0, -4.0, 5.0, 7.0, -3.0, 8.0, 9.0, 1.0, 5.0, 7.0, -3.0],
    ];
    // every coordinate can be the deciding one, whatever its magnitude
    let (w, m) = (1e8, -1e8);
    let open = [[1.0, 1.0, 1.0, w, w, w, m, m, m, 2.0, 2.0, 2.0, 3.0, 3.0, 3.0], [m, m, m, 2.0, 2.0, 2.0, 1.0, 1.0, 1.0, w, w, w, 0.0, 0.0, 0.0],
        [w, w, w, w, w, w, w, w, w, w, w, w, w, w, w], [m, m, m, m, m, m, m, m, m, m, m, m, m, m, m]];
    let sw = [alpha::Sweep::new(2, bases.clone(), std::array::from_fn(|_| al.clone())), alpha::Sweep::new(3, bases[..c.by(2, 3)].to_vec(), std::array::from_fn(|_| co.clone())), alpha::Sweep::near_ties(64, 10, bases.iter().copied().chain(open).collect(), std::array::from_fn(|_| alpha::rich(-7, 7, false)))];
    for (nm, sw) in [("sweep-2", &sw[0]), ("sweep-3", &sw[1]), ("near-ties", &sw[2])] {
        c.suite(nm, "every pair (over the rich alphabet) or every three (over the coarse one) of the fifteen coordinates of the corners of two boxes and of a point varied around base cases, or every parameter alone over a fine ladder of magnitudes (64 to the decade) and every two of them almost or exactly equal, or opposite (apart by 0 or an ulp to a percent), at ten magnitudes to the decade: every operation", sw.n(), |i, c| {
            every(sw.get(i).map(|x| x as f32), c)
        });
    }
    // one axis decides, by a tie; the others are in order, each axis having its own magnitude and sign
    let scales: Vec<f64> = (-5..=5).flat_map(|k| [1.0, -1.0].map(|s| s * 10f64.powf(k as f64 * 0.4))).collect();
    let apart = [0.0, 1.2e-7, -1.2e-7, 1e-5, -1e-5, 1e-3, -1e-3, 9e-3, -9e-3];
    //                      first box, second box, point
    let mut tied: Vec<[f64; 5]> = vec![];
    for e in apart {
        for (b, p) in [([2.0 * (1.0 + e), 3.0], 2.0 * (1.0 + e)), ([1.0 + e, 3.0], 1.0 + e), ([0.5, 1.0 + e], 1.0 + e), ([0.5, 2.0 * (1.0 + e)], 2.0 * (1.0 + e))] {
            tied.push([1.0, 2.0, b[0], b[1], p]);
            tied.push([b[0], b[1], 1.0, 2.0, p]);
        }
    }
    let plain: [[f64; 5]; 3] = [[1.0, 2.0, 1.5, 3.0, 1.7], [1.0, 3.0, 1.2, 2.0, 1.5], [-1.0, 2.0, -0.5, 3.0, 0.1]];
    let at = |s: f64, v: &[f64; 5]| -> [f32; 5] { std::array::from_fn(|k| (s * v[k]) as f32) };
    let tied: Vec<[f32; 5]> = scales.iter().flat_map(|s| tied.iter().map(move |v| at(*s, v))).collect();
    let plain: Vec<[f32; 5]> = scales.iter().flat_map(|s| plain.iter().map(move |v| at(*s, v))).collect();
    let n = 3 * (tied.len() * plain.len() * plain.len()) as u64;
    c.suite("cross-scales", "two boxes and a point whose coordinates on one axis are almost or exactly tied (every pair of bounds, nine distances up to a percent) and in order on the others, every axis at every one of eleven magnitudes (0.01 to 100) of either sign: every operation", n, |i, c| {
        let mut d = Dec(i);
        let ax = d.take(3);
        let v = [*d.of(&tied), *d.of(&plain), *d.of(&plain)];
        let on = |a: usize| &v[(a + 3 - ax) % 3];
        // corners of the first box, of the second, the point
        every(std::array::from_fn(|k| on(k % 3)[k / 3]), c)
    });
    c.finish();
}
