//! Every scalar type of the crate with a reference for its arithmetic.
use crate::alpha;
use scarlet::math::scalar::Scalar;
use std::fmt::Debug;

/// a scalar type with its own arithmetic as reference, where nothing overflows
pub trait Any: Scalar + Debug + Send + Sync + PartialEq + 'static {
    const NAME: &'static str;
    fn rich(dense: bool) -> Vec<Self>;
    fn few() -> Vec<Self>;
    /// None when the result is not representable or an error bound makes no sense
    fn cadd(self, o: Self) -> Option<Self>;
    fn csub(self, o: Self) -> Option<Self>;
    fn cmul(self, o: Self) -> Option<Self>;
    fn cdiv(self, o: Self) -> Option<Self>;
    /// the sum and the sum of the magnitudes, of products with signs
    fn sum(t: &[(bool, Self, Self)]) -> Option<(Self, f64)>;
    fn close(self, want: Self, mag: f64) -> bool;
    fn lt(self, o: Self) -> bool {
        self < o
    }
}
macro_rules! any_int {
    ($($t:ty),*) => {$(impl Any for $t {
        const NAME: &'static str = stringify!($t);
        fn rich(_: bool) -> Vec<$t> {
            let mut v: Vec<i128> = vec![];
            for k in 0..64 {
                v.extend([(1i128 << k) - 1, 1 << k, (1 << k) + 1]);
            }
            v.extend([3, 5, 7, 10, 11, 100, 181, 1000, 12345, 46340, 1_000_003, 123_456_789, 3_037_000_499, 999_999_999_989]);
            v.push(<$t>::MAX as i128);
            v.push(<$t>::MAX as i128 - 1);
            v.push(-(<$t>::MIN as i128));
            let mut v: Vec<i128> = v.iter().flat_map(|x| [*x, -*x]).filter(|x| *x >= <$t>::MIN as i128 && *x <= <$t>::MAX as i128).collect();
            v.sort();
            v.dedup();
            v.iter().map(|x| *x as $t).collect()
        }
        fn few() -> Vec<$t> {
            let v: Vec<i128> = vec![0, 1, 2, 3, 5, 11, 15, 16, 127, 181, 255, 1023, 4097, 46340, 65535, 16_777_217, 2_000_000_011, 9_007_199_254_740_993];
            v.iter().flat_map(|x| [*x, -*x]).filter(|x| *x >= <$t>::MIN as i128 && *x <= <$t>::MAX as i128).map(|x| x as $t).collect()
        }
        fn cadd(self, o: $t) -> Option<$t> { self.checked_add(o) }
        fn csub(self, o: $t) -> Option<$t> { self.checked_sub(o) }
        fn cmul(self, o: $t) -> Option<$t> { self.checked_mul(o) }
        fn cdiv(self, o: $t) -> Option<$t> { self.checked_div(o) }
        fn sum(t: &[(bool, $t, $t)]) -> Option<($t, f64)> {
            let mut s = 0i128;
            let mut m = 0i128;
            for (neg, a, b) in t {
                if (*a as f64 * *b as f64).abs() > 1e30 {
                    return None;
                }
                let p = *a as i128 * *b as i128;
                s += if *neg { -p } else { p };
                m += p.abs();
            }
            if m > <$t>::MAX as i128 || s < <$t>::MIN as i128 { None } else { Some((s as $t, 0.0)) }
        }
        fn close(self, want: $t, _: f64) -> bool { self == want }
    })*};
}
any_int!(i8, i16, i32, i64, u8, u16, u32, u64);
macro_rules! any_float {
    ($($t:ty, $hi:expr);*) => {$(impl Any for $t {
        const NAME: &'static str = stringify!($t);
        fn rich(dense: bool) -> Vec<$t> { alpha::rich(-18, 18, dense).iter().map(|x| *x as $t).collect() }
        fn few() -> Vec<$t> { alpha::coarse().iter().map(|x| *x as $t).collect() }
        fn cadd(self, o: $t) -> Option<$t> { Some(self + o) }
        fn csub(self, o: $t) -> Option<$t> { Some(self - o) }
        fn cmul(self, o: $t) -> Option<$t> { Some(self * o) }
        fn cdiv(self, o: $t) -> Option<$t> { if o == 0.0 { None } else { Some(self / o) } }
        fn sum(t: &[(bool, $t, $t)]) -> Option<($t, f64)> {
            let mut w = crate::num::W::new(0.0);
            let mut m = 0.0;
            for (neg, a, b) in t {
                let p = crate::num::W::new(if *neg { -*a as f64 } else { *a as f64 }).mul(crate::num::W::new(*b as f64));
                w = w.add(p);
                m += p.hi.abs();
            }
            Some((w.hi as $t, m))
        }
        fn close(self, want: $t, mag: f64) -> bool {
            let e = <$t>::EPSILON as f64;
            self == want || (self as f64 - want as f64).abs() <= 2.0 * e * (want.abs() as f64) + 5.0 * e * mag + $hi
        }
    })*};
}
any_float!(f32, 1e-44; f64, 1e-322);
