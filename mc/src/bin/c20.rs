//! C20 ray/box intersection.
use mc::boxes::*;
use mc::*;
use scarlet::geometry::primitive::IntersectsRay;

fn main() {
    let mut c = Check::new("C20");
    explore(&mut c, |k, c| {
        let (b, r) = (k.bbox(), k.ray());
        let got = b.intersect_ray(r);
        c.steps(2);
        if b.do_intersect(r) != got.is_some() {
            return Err(format!("do_intersect disagrees with intersect_ray: {:?}", got));
        }
        if k.empty() {
            c.tally("empty box");
            return match got {
                None => Ok(()),
                Some(g) => Err(format!("the empty box is hit at {:?}", g)),
            };
        }
        let sp = k.span();
        let Some(hit) = sp.hit() else {
            c.skip();
            return Ok(());
        };
        c.tally(if hit { "hit" } else { "miss" });
        match got {
            None if hit => Err(format!("missed although there are parameters in the box: {:?}", sp)),
            Some(g) if !hit => Err(format!("hit at {:?} although no parameter is in the box: {:?}", g, sp)),
            Some((a, b)) if !within(a, sp.first) || !within(b, sp.last) => Err(format!("reported {:e}..{:e}, expected {:?}", a, b, sp)),
            _ => Ok(()),
        }
    });
    c.assume("in the inexact and pairs suites, rays whose first and last parameter differ by less than the rounding bound are counted as undecided");
    c.finish();
}
