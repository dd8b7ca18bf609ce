//! C24 a list reports the closest hit regardless of order.
use mc::refmath::Gen;
use mc::scene::*;
use mc::*;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::Rayf;
use scarlet::math::vector::{Point3f, Vector3f};

fn menu() -> Vec<Prim> {
    let xf = |g, p| Prim::Xf(g, Box::new(p));
    vec![
        ball(1.0),
        Prim::Box([-1.0, -1.0, -1.0], [1.0, 1.0, 1.0]),
        Prim::Sphere(2.0, 0.0, 2.0, 3.0),
        xf(Gen::Translate([2.5, 0.0, 0.0]), ball(1.0)),
        Prim::Box([2.0, -1.0, -1.0], [4.0, 1.0, 1.5]),
        Prim::List(vec![xf(Gen::Translate([-2.5, 0.25, 0.0]), ball(0.75)), ball(0.5)]),
        Prim::List(vec![]),
        xf(Gen::Rot([1.0, 1.0, 0.0], 0.6), Prim::Box([-2.0, -0.5, -0.25], [2.0, 0.5, 0.25])),
        xf(Gen::Scale([0.5, 2.0, 1.0]), Prim::List(vec![ball(1.0), Prim::Box([-3.0, -1.0, 0.0], [-2.0, 1.0, 1.0])])),
        Prim::Box([-2.0, -2.0, 2.0], [2.0, 2.0, 2.0]),
        Prim::List(vec![Prim::List(vec![Prim::Box([-6.0, -6.0, -6.0], [-5.5, 6.0, 6.0]), Prim::List(vec![])]), Prim::Box([-1.0, -1.0, -1.0], [1.0, 1.0, 1.0])]),
    ]
}
/// members that are not lists themselves
fn flatten<'a>(p: &'a Prim, out: &mut Vec<&'a Prim>) {
    match p {
        Prim::List(v) => v.iter().for_each(|q| flatten(q, out)),
        _ => out.push(p),
    }
}
#[derive(Clone)]
struct Member {
    /// per ray: hits of every leaf
    hits: Vec<Vec<Hit>>,
    yes: Vec<bool>,
    lo: [f32; 3],
    hi: [f32; 3],
}
fn rays(c: &Check) -> Vec<Rayf> {
    let org: Vec<[f32; 3]> = vec![[-5.0, 0.3, 0.2], [0.0, 0.0, 0.0], [6.0, 0.1, -0.2], [0.25, 0.2, 6.0], [0.5, -4.0, 0.5], [1.5, 0.0, 0.0], [-8.0, 0.0, 0.0], [2.5, 0.0, 1.25]];
    let mut tgt: Vec<[f32; 3]> = vec![[0.0, 0.0, 0.0], [3.0, 0.0, 0.0], [-2.5, 0.25, 0.0], [0.4, 0.7, -0.3], [-1.0, 1.0, 2.0], [1.5, -1.0, 3.0], [0.0, 0.0, 1.0], [0.1, 0.1, -1.0], [20.0, 3.0, 1.0]];
    if !c.quick() {
        tgt.extend([[-3.0, -3.0, 0.5], [0.6, -0.6, 0.6], [-6.0, 2.0, 2.0]]);
    }
    let mut v = vec![];
    for o in &org {
        for t in &tgt {
            let d: [f32; 3] = std::array::from_fn(|k| t[k] - o[k]);
            if d == [0.0; 3] {
                continue;
            }
            for tm in [f32::INFINITY, f32::MAX, 1.0, 0.45, 0.0] {
                v.push(Rayf::new(Point3f::new(o[0], o[1], o[2]), Vector3f::new(d[0], d[1], d[2]), tm));
            }
        }
    }
    // parameters far below and above one
    for o in &org[..4] {
        for t in &tgt[..5] {
            for k in [3e6f32, 1e-5] {
                let d: [f32; 3] = std::array::from_fn(|q| (t[q] - o[q]) * k);
                if d == [0.0; 3] {
                    continue;
                }
                for tm in [f32::MAX, 1.0 / k] {
                    v.push(Rayf::new(Point3f::new(o[0], o[1], o[2]), Vector3f::new(d[0], d[1], d[2]), tm));
                }
            }
        }
    }
    v
}
fn cmp(want: &[&Hit], got: Option<Hit>) -> Res {
    let best = want.iter().map(|h| h.t()).fold(f32::INFINITY, f32::min);
    match got {
        None if want.is_empty() => Ok(()),
        None => Err(format!("no hit, a member is hit at {:e}", best)),
        Some(h) if want.is_empty() => Err(format!("hit at {:e}, no member is hit", h.t())),
        Some(h) if h.t() != best => Err(format!("hit at {:e}, the closest member hit is at {:e}", h.t(), best)),
        Some(h) if !want.iter().any(|w| w.t() == best && w.same(&h)) => Err(format!("the hit {:?} is not that of a closest member", h)),
        _ => Ok(()),
    }
}
fn members(mn: &[Prim], rs: &[Rayf]) -> Vec<Member> {
    mn.iter().map(|p| {
        let mut f = vec![];
        flatten(p, &mut f);
        let real: Vec<_> = f.iter().map(|q| q.handle()).collect();
        let mut m = Member { hits: vec![], yes: vec![], lo: [f32::INFINITY; 3], hi: [f32::NEG_INFINITY; 3] };
        for q in &real {
            let b = (**q).bbox();
            for k in 0..3 {
                m.lo[k] = m.lo[k].min(b.pmin[k]);
                m.hi[k] = m.hi[k].max(b.pmax[k]);
            }
        }
        for r in rs {
            m.hits.push(real.iter().filter_map(|q| shoot(&**q, *r)).collect());
            m.yes.push(real.iter().any(|q| q.do_intersect(*r)));
        }
        m
    }).collect()
}
fn judge(mnr: &[Prim], rsr: &[Rayf], mb: &[Member], seq: &[usize], i: u64, c: &mut Ctx) -> Res {
    let mut l = if i % 2 == 0 { PrimitiveList::new() } else { PrimitiveList::default() };
    for (j, k) in seq.iter().enumerate() {
        // the list is usable, and stays unchanged by queries, between insertions
        let r = (i as usize * 7 + j * 13) % rsr.len();
        let want: Vec<&Hit> = seq[..j].iter().flat_map(|k| &mb[*k].hits[r]).collect();
        cmp(&want, shoot(&l, rsr[r])).map_err(|e| format!("after {} insertions, ray {:?}: {}", j, rsr[r], e))?;
        mnr[*k].add_to(&mut l);
    }
    let mut want: Vec<&Hit> = vec![];
    for (r, ray) in rsr.iter().enumerate() {
        want.clear();
        for k in seq {
            want.extend(&mb[*k].hits[r]);
        }
        c.steps(2);
        cmp(&want, shoot(&l, *ray)).map_err(|e| format!("ray {:?}: {}", ray, e))?;
        let yes = seq.iter().any(|k| mb[*k].yes[r]);
        if l.do_intersect(*ray) != yes {
            return Err(format!("ray {:?}: do_intersect is {}, members say {}", ray, !yes, yes));
        }
    }
    let (mut lo, mut hi) = ([f32::INFINITY; 3], [f32::NEG_INFINITY; 3]);
    for k in seq {
        for a in 0..3 {
            lo[a] = lo[a].min(mb[*k].lo[a]);
            hi[a] = hi[a].max(mb[*k].hi[a]);
        }
    }
    let b = bounds(&l)?;
    if lo[0] > hi[0] {
        if !(0..3).any(|a| b.pmin[a] > b.pmax[a]) {
            return Err(format!("the bounding box of nothing is {:?}", b));
        }
    } else if b.pmin.vec != lo || b.pmax.vec != hi {
        return Err(format!("the bounding box is {:?}, the union of the members' boxes is {:?} {:?}", b, lo, hi));
    }
    // asking again changes nothing
    for r in [0, rsr.len() / 2] {
        let want: Vec<&Hit> = seq.iter().flat_map(|k| &mb[*k].hits[r]).collect();
        cmp(&want, shoot(&l, rsr[r])).map_err(|e| format!("asked again, ray {:?}: {}", rsr[r], e))?;
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C24");
    let rs = rays(&c);
    let mn = menu();
    let mem = c.prepare("members", || members(&mn, &rs));
    let judge = |seq: &[usize], i: u64, c: &mut Ctx| judge(&mn, &rs, &mem, seq, i, c);
    let mnr = &mn;
    let depth = c.by(5, 6);
    for len in 0..=depth {
        let n = (mn.len() as u64).pow(len);
        c.suite(&format!("lists-{}", len), "every insertion sequence of this length over the menu (spheres, clipped sphere, boxes, flat box, transformed primitives and lists, nested and empty lists; repetitions included) x every ray; queried before every insertion, twice after the last", n, |i, c| {
            let mut d = Dec(i);
            let seq: Vec<usize> = (0..len).map(|_| d.take(mnr.len())).collect();
            c.note(|| format!("members {:?}", seq.iter().map(|k| &mnr[*k]).collect::<Vec<_>>()));
            c.distinct(1);
            judge(&seq, i, c)
        });
    }
    let (from, to) = c.by((6, 40), (6, 150));
    let m = mn.len() as u64;
    let n = (to - from) * m * m;
    c.suite("long-lists", "long insertion sequences: every length x first member x stride through the menu, x every ray", n, |i, c| {
        let mut d = Dec(i);
        let (len, a, s) = (from as usize + d.take((to - from) as usize), d.take(m as usize), d.take(m as usize));
        let seq: Vec<usize> = (0..len).map(|k| (a + k * s) % m as usize).collect();
        c.note(|| format!("{} members, first {} stride {}", len, a, s));
        c.distinct(1);
        judge(&seq, i, c)
    });
    // histories: every sequence of operations on one list
    let hm: Vec<Prim> = vec![Prim::Box([-1.0, -1.0, -1.0], [1.0, 1.0, 1.0]), Prim::Xf(Gen::Translate([2.5, 0.0, 0.0]), Box::new(ball(1.0))), Prim::List(vec![Prim::Box([-6.0, -6.0, -6.0], [-5.5, 6.0, 6.0])])];
    let hr: Vec<Rayf> = [([-5.0, 0.25, 0.125], [1.0, 0.0, 0.0], f32::INFINITY), ([-5.0, 0.25, 0.125], [1.0, 0.0, 0.0], 4.5), ([-5.0, 0.25, 0.125], [-1.0, 0.0, 0.0], f32::INFINITY), ([5.0, 0.25, 0.125], [-1.0, 0.0, 0.0], f32::INFINITY), ([-5.0, 0.25, 0.125], [0.0, 1.0, 0.0], f32::INFINITY)]
        .iter().map(|(o, d, t): &([f32; 3], [f32; 3], f32)| Rayf::new(Point3f::new(o[0], o[1], o[2]), Vector3f::new(d[0], d[1], d[2]), *t)).collect();
    let hmem = c.prepare("history members", || members(&hm, &hr));
    let ops = hm.len() + 1 + 2 * hr.len();
    let len = c.by(5, 6);
    let n = (ops as u64).pow(len);
    c.suite("histories", "every sequence of this many operations on one list: insert one of three primitives (box, transformed sphere, list), ask for the bounding box, intersect or query one of five rays (sharing origin, direction or both with another); every answer is that of the members inserted so far", n, |i, c| {
        let mut d = Dec(i);
        let mut l = PrimitiveList::new();
        let mut seq: Vec<usize> = vec![];
        c.distinct(1);
        c.steps(len as u64);
        for step in 0..len {
            let o = d.take(ops);
            let at = |e: String| {
                let mut d = Dec(i);
                let h: Vec<String> = (0..=step).map(|_| match d.take(ops) {
                    k if k < hm.len() => format!("insert {:?}", hm[k]),
                    k if k == hm.len() => "bbox".into(),
                    k if k <= hm.len() + hr.len() => format!("intersect {:?}", hr[k - hm.len() - 1]),
                    k => format!("query {:?}", hr[k - hm.len() - 1 - hr.len()]),
                }).collect();
                format!("{}: {}", h.join("; "), e)
            };
            if o < hm.len() {
                hm[o].add_to(&mut l);
                seq.push(o);
            } else if o == hm.len() {
                let b = bounds(&l).map_err(at)?;
                let ok = if seq.is_empty() {
                    (0..3).any(|a| b.pmin[a] > b.pmax[a])
                } else {
                    (0..3).all(|a| b.pmin[a] == seq.iter().map(|k| hmem[*k].lo[a]).fold(f32::INFINITY, f32::min) && b.pmax[a] == seq.iter().map(|k| hmem[*k].hi[a]).fold(f32::NEG_INFINITY, f32::max))
                };
                if !ok {
                    return Err(at(format!("the bounding box is {:?}", b)));
                }
            } else {
                let r = (o - hm.len() - 1) % hr.len();
                if o - hm.len() - 1 < hr.len() {
                    let want: Vec<&Hit> = seq.iter().flat_map(|k| &hmem[*k].hits[r]).collect();
                    cmp(&want, shoot(&l, hr[r])).map_err(at)?;
                } else {
                    let yes = seq.iter().any(|k| hmem[*k].yes[r]);
                    if l.do_intersect(hr[r]) != yes {
                        return Err(at(format!("do_intersect is {}", !yes)));
                    }
                }
            }
        }
        Ok(())
    });
    // crowds: every member, wherever it is in the list, is found
    let sizes: Vec<usize> = c.by(vec![41, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70000],
                                 (41..=600).chain([767, 768, 769, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 70000, 131073]).collect());
    let sizes = &sizes;
    c.suite("crowds", "lists of every size around the powers of two up to 65536, inserted forwards and backwards: each member (beyond 1100 members: those at both ends and around every power of two) is shot at alone and as the closest of all behind it; rays between the members hit nothing", sizes.len() as u64 * 2, |i, c| {
        let mut d = Dec(i);
        let (n, back) = (*d.of(sizes), d.take(2) == 1);
        let at = |k: usize| if back { n - 1 - k } else { k } as f32 * 4.0;
        let mut l = PrimitiveList::new();
        for k in 0..n {
            l.add_primitive(bx([at(k), 0.0, 0.0], [at(k) + 2.0, 2.0, 2.0]));
        }
        c.note(|| format!("{} boxes, {}", n, if back { "backwards" } else { "forwards" }));
        c.distinct(1);
        let b = bounds(&l)?;
        if b.pmin.vec != [0.0; 3] || b.pmax.vec != [(n - 1) as f32 * 4.0 + 2.0, 2.0, 2.0] {
            return Err(format!("the bounding box is {:?}", b));
        }
        let near = |k: usize| n <= 1100 || k < 2 || n - k <= 3 || (4..18).any(|e| (k + 2..k + 5).contains(&((1usize << e) + 2)));
        for k in (0..n).filter(|k| near(*k)) {
            c.steps(6);
            let x = at(k);
            for (what, o, v, want) in [("alone", [x + 1.0, -3.0, 1.0], [0.0, 1.0, 0.0], Some((3.0, [x + 1.0, 0.0, 1.0]))),
                                       ("first of all behind it", [x - 1.0, 1.0, 1.0], [1.0, 0.0, 0.0], Some((1.0, [x, 1.0, 1.0]))),
                                       ("passed by", [x + 3.0, -3.0, 1.0], [0.0, 1.0, 0.0], None)] {
                let ray = Rayf::new(Point3f::new(o[0], o[1], o[2]), Vector3f::new(v[0], v[1], v[2]), f32::MAX);
                let got = l.intersect(ray).map(|h| (h.t_ray, h.surface_interaction.p.vec));
                if got != want || l.do_intersect(ray) != want.is_some() {
                    return Err(format!("member {} of {}, {}: {:?} and {}, expected {:?}", k, n, what, got, l.do_intersect(ray), want));
                }
            }
        }
        Ok(())
    });
    // members hit at nearly the same parameter, at every magnitude
    let wall = |x: f64| Prim::Box([x as f32, -1.0, -1.0], [x as f32, 1.0, 1.0]);
    let orb = |r: f64| ball(r as f32);
    let along = |d: [f32; 3], tm: f32| Rayf::new(Point3f::new(0.0, 0.0, 0.0), Vector3f::new(d[0], d[1], d[2]), tm);
    let al = alpha::rich(-6, 6, !c.quick());
    let tied: Vec<Prim> = al.iter().map(|x| wall(*x)).chain(alpha::positive(&al).iter().map(|x| orb(*x))).collect();
    let few: Vec<Prim> = [1.0, 1.0 + 1.2e-7, 1.0 - 6e-8, 1.000001, 1.00001, 1.0001, 1.01, 0.99999, 0.999, 1e-6, 3e-4, 40.0, 1e5, -1.0, 0.0].iter().flat_map(|x| if *x > 0.0 { vec![wall(*x), orb(*x)] } else { vec![wall(*x)] }).collect();
    let trays = vec![along([1.0, 0.0, 0.0], f32::INFINITY), along([1.0, 1e-7, -1e-7], f32::MAX), along([3e-5, 1e-9, 0.0], f32::INFINITY), along([7e4, 0.0, 0.3], f32::INFINITY),
        along([1.0, 0.0, 0.0], 1.0), along([1.0, 0.0, 0.0], 1.00002), along([-1.0, 0.0, 0.0], f32::INFINITY),
        Rayf::new(Point3f::new(-7.0, 0.25, 0.125), Vector3f::new(1.0, 0.0, 0.0), f32::INFINITY), Rayf::new(Point3f::new(0.5, 0.0, 0.0), Vector3f::new(0.1, 1e-3, 0.0), 6.0)];
    for (len, menu) in [(2, &tied), (3, &few), (4, &few)] {
        let mb = c.prepare(&format!("tied members-{}", len), || members(menu, &trays));
        let n = (menu.len() as u64).pow(len);
        c.suite(&format!("ties-{}", len), "every insertion sequence of this length over flat boxes and spheres whose hits are at every magnitude and at a few ulps to a percent from each other", n, |i, c| {
            let mut d = Dec(i);
            let seq: Vec<usize> = (0..len).map(|_| d.take(menu.len())).collect();
            c.note(|| format!("members {:?}", seq.iter().map(|k| &menu[*k]).collect::<Vec<_>>()));
            c.distinct(1);
            crate::judge(menu, &trays, &mb, &seq, i, c)
        });
    }
    // two and three members hit almost together, magnitudes on a fine ladder
    let ds: Vec<f64> = vec![0.0, 1.2e-7, -1.2e-7, 1e-6, 1e-5, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3, 2e-3, 1e-2, -1e-2];
    let per = c.by(12, 32);
    let n = (12 * per + 1) as u64 * (ds.len() * ds.len()) as u64 * 8;
    c.suite("fine-ties", "three members at every magnitude of a fine ladder (1e-6 to 1e6), apart by every two of thirteen relative distances (0, an ulp to a percent), every choice of flat box or sphere", n, |i, c| {
        let mut d = Dec(i);
        let (a, b, kind) = (*d.of(&ds), *d.of(&ds), d.take(8));
        let v = 10f64.powf(d.0 as f64 / per as f64 - 6.0);
        let pos = [v, v * (1.0 + a), v * (1.0 + b)];
        let menu: Vec<Prim> = (0..3).map(|k| if kind >> k & 1 == 0 { wall(pos[k]) } else { orb(pos[k]) }).collect();
        let rays = [along([1.0, 0.0, 0.0], f32::INFINITY), along([0.3, 1e-8, 0.0], f32::MAX), along([40.0, 0.0, 0.0], (v * 1.0003 / 40.0) as f32)];
        let mb = members(&menu, &rays);
        c.note(|| format!("members {:?}", menu));
        c.distinct(1);
        crate::judge(&menu, &rays, &mb, &[0, 1, 2], i, c)
    });
    // two members hit almost together by rays from everywhere, in every direction
    let al = alpha::fine(-2, 2, c.by(3, 6));
    let pos = alpha::positive(&al);
    //           origin        direction      parameter of the hits
    let base = vec![[0.3, -2.0, 1.5, 1.0, 0.4, -0.7, 3.0], [-6.0, 0.0, 0.0, 0.5, 0.0, 0.0, 8.0]];
    let sw = alpha::Sweep::new(2, base, std::array::from_fn(|k| if k == 6 { pos.clone() } else { al.clone() }));
    let gap = [1e-5, 1e-3, 5e-3, 3e-2];
    c.suite("directions", "two spheres hit almost together (by 1e-5 to 3 percent of the way), in either order, by rays every two of whose components (origin, direction, distance) take every pair of values of a ladder of magnitudes (0.01 to 100, either sign)", sw.n() * 8, |i, c| {
        let mut d = Dec(i);
        let (e, swap) = (*d.of(&gap), d.take(2));
        let q = sw.get(d.0);
        let far = q[6] * (q[3] * q[3] + q[4] * q[4] + q[5] * q[5]).sqrt();
        let one = |t: f64| Prim::Xf(Gen::Translate(std::array::from_fn(|k| q[k] + q[3 + k] * t)), Box::new(ball((far * 0.3) as f32)));
        let mut menu = vec![one(q[6] * 1.3), one(q[6] * (1.3 + e))];
        if swap == 1 {
            menu.swap(0, 1);
        }
        let f = |k: usize| q[k] as f32;
        let rays = [Rayf::new(Point3f::new(f(0), f(1), f(2)), Vector3f::new(f(3), f(4), f(5)), f32::INFINITY)];
        let mb = members(&menu, &rays);
        c.note(|| format!("members {:?}, ray {:?}", menu, rays[0]));
        c.distinct(1);
        crate::judge(&menu, &rays, &mb, &[0, 1], i, c)
    });
    c.assume("the hit of a single primitive is what that primitive itself reports for the ray; it is judged by C20-C23 and C25");
    c.finish();
}
