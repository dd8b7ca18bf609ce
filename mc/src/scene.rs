//! Scenes described as plain data, built into real (non-Send) primitives where needed.
use crate::refmath::Gen;
use scarlet::geometry::bbox::Bbox3;
use scarlet::geometry::primitive::*;
use scarlet::geometry::ray::Rayf;
use scarlet::geometry::sphere::Sphere;
use scarlet::math::transform::Transformf;
use scarlet::math::vector::Point3f;

#[derive(Clone, Debug)]
pub enum Prim {
    Sphere(f32, f32, f32, f32),
    Box([f32; 3], [f32; 3]),
    List(Vec<Prim>),
    Xf(Gen, Box<Prim>),
    Xf2(Gen, Gen, Box<Prim>),
}
pub const PI: f32 = std::f32::consts::PI;

pub fn ball(r: f32) -> Prim {
    Prim::Sphere(r, -r, r, PI)
}
pub fn sphere(r: f32, a: f32, b: f32, p: f32) -> Sphere {
    Sphere::new(r, a, b, p)
}
pub fn bx(a: [f32; 3], b: [f32; 3]) -> Bbox3 {
    Bbox3::new(Point3f::new(a[0], a[1], a[2]), Point3f::new(b[0], b[1], b[2]))
}
pub fn list(v: &[Prim]) -> PrimitiveList {
    let mut l = PrimitiveList::new();
    for p in v {
        p.add_to(&mut l);
    }
    l
}
/// what is done with a concrete primitive
pub trait Use {
    type Out;
    fn with<P: Primitive + 'static>(self, p: P) -> Self::Out;
}
impl Prim {
    pub fn with<U: Use>(&self, u: U) -> U::Out {
        match self {
            Prim::Sphere(r, a, b, p) => u.with(sphere(*r, *a, *b, *p)),
            Prim::Box(a, b) => u.with(bx(*a, *b)),
            Prim::List(v) => u.with(list(v)),
            Prim::Xf(g, p) => p.leaf(Wrap(g.build(), u)),
            Prim::Xf2(g, h, p) => p.leaf(Wrap(h.build(), Wrap(g.build(), u))),
        }
    }
    /// like `with`, for untransformed primitives only (keeps the set of types finite)
    pub fn leaf<U: Use>(&self, u: U) -> U::Out {
        match self {
            Prim::Sphere(r, a, b, p) => u.with(sphere(*r, *a, *b, *p)),
            Prim::Box(a, b) => u.with(bx(*a, *b)),
            Prim::List(v) => u.with(list(v)),
            _ => panic!("not a leaf"),
        }
    }
    pub fn add_to(&self, l: &mut PrimitiveList) {
        struct A<'a>(&'a mut PrimitiveList);
        impl Use for A<'_> {
            type Out = ();
            fn with<P: Primitive + 'static>(self, p: P) {
                self.0.add_primitive(p)
            }
        }
        self.with(A(l))
    }
    pub fn handle(&self) -> PrimitiveHandle {
        struct H;
        impl Use for H {
            type Out = PrimitiveHandle;
            fn with<P: Primitive + 'static>(self, p: P) -> PrimitiveHandle {
                alloc_primitive(p)
            }
        }
        self.with(H)
    }
}
/// wraps the primitive in a transform before using it
pub struct Wrap<U>(pub Transformf, pub U);
impl<U: Use> Use for Wrap<U> {
    type Out = U::Out;
    fn with<P: Primitive + 'static>(self, p: P) -> U::Out {
        self.1.with(TransformedPrimitive::new(p, self.0))
    }
}

/// a hit as plain numbers: t, p, n, uv, dpdu, dpdv
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Hit(pub [f32; 15]);
impl Hit {
    pub fn of(r: &IntersectionResult) -> Hit {
        let s = &r.surface_interaction;
        let mut v = [0.0; 15];
        v[0] = r.t_ray;
        v[1..4].copy_from_slice(&s.p.vec);
        v[4..7].copy_from_slice(&s.n.vec);
        v[7..9].copy_from_slice(&s.uv.vec);
        v[9..12].copy_from_slice(&s.dpdu.vec);
        v[12..15].copy_from_slice(&s.dpdv.vec);
        Hit(v)
    }
    pub fn t(&self) -> f32 {
        self.0[0]
    }
    pub fn v3(&self, at: usize) -> [f64; 3] {
        [self.0[at] as f64, self.0[at + 1] as f64, self.0[at + 2] as f64]
    }
    pub fn p(&self) -> [f64; 3] {
        self.v3(1)
    }
    /// equal, a NaN being equal to itself
    pub fn same(&self, o: &Hit) -> bool {
        self.0.iter().zip(&o.0).all(|(a, b)| a == b || a.is_nan() && b.is_nan())
    }
}
pub fn shoot<P: IntersectsRay + ?Sized>(p: &P, r: Rayf) -> Option<Hit> {
    p.intersect(r).map(|h| Hit::of(&h))
}
/// the bounding box of an object; its extreme coordinates asked one by one have to describe
/// the same box
pub fn bounds<P: Bounded3 + ?Sized>(p: &P) -> Result<Bbox3, String> {
    let b = p.bbox();
    for (nm, x, y) in [("xmin", p.xmin(), b.pmin[0]), ("ymin", p.ymin(), b.pmin[1]), ("zmin", p.zmin(), b.pmin[2]),
                       ("xmax", p.xmax(), b.pmax[0]), ("ymax", p.ymax(), b.pmax[1]), ("zmax", p.zmax(), b.pmax[2])] {
        if x != y && !(x.is_nan() && y.is_nan()) {
            return Err(format!("{} is {:e}, the bounding box {:?} has {:e}", nm, x, b, y));
        }
    }
    Ok(b)
}
