//! C22 ray/sphere intersection returns the first kept hit.
use mc::spheres::*;
use mc::*;
use scarlet::geometry::primitive::IntersectsRay;

fn main() {
    let mut c = Check::new("C22");
    explore(&mut c, |k, c| {
        let (s, r) = (k.s.real(), k.ray());
        let got = s.intersect(r);
        c.steps(2);
        if s.do_intersect(r) != got.is_some() {
            return Err("do_intersect disagrees with intersect".into());
        }
        if let Some(h) = &got {
            if !(h.t_ray >= 0.0 && h.t_ray <= r.tmax) {
                return Err(format!("hit at {:e} outside [0, {:e}]", h.t_ray, r.tmax));
            }
        }
        let roots = match k.meet() {
            Meet::Grazing => {
                c.skip();
                return Ok(());
            }
            Meet::Nothing => {
                c.tally("misses the sphere");
                return match got {
                    None => Ok(()),
                    Some(h) => Err(format!("hit at {:e} although the ray misses the sphere", h.t_ray)),
                };
            }
            Meet::Roots(x) => x,
        };
        c.tally(match (roots[0].kept, roots[1].kept) {
            (Kept::Yes, Kept::Yes) => "both kept",
            (Kept::Yes, _) => "near kept",
            (Kept::No, Kept::Yes) => "only far kept",
            (Kept::No, Kept::No) => "none kept",
            _ => "on a boundary",
        });
        let near = |h: f64, x: &Root| (h - x.t).abs() <= 2.0 * x.et;
        let mut must = false;
        for x in &roots {
            match x.kept {
                Kept::No => continue,
                Kept::Unsure => {}
                Kept::Yes => must = true,
            }
            if let Some(h) = &got {
                if near(h.t_ray as f64, x) {
                    return Ok(());
                }
            }
            if must {
                break;
            }
        }
        match got {
            None if !must => Ok(()),
            None => Err(format!("no hit; intersections {:?}", roots)),
            Some(h) => Err(format!("hit at {:e}; intersections {:?}", h.t_ray, roots)),
        }
    });
    c.assume("rays grazing the sphere within the rounding bound are not judged; intersections within the rounding bound of the parameter range or of a clip boundary may or may not be reported");
    c.finish();
}
