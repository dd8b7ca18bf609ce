//! C07 next_up / next_down.
use mc::num::*;
use mc::*;
use scarlet::math::interval::Interval;
use scarlet::math::scalar::GFloat;

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn one<T: Fl>(x: T) -> Res {
    let (u, d) = (GFloat::next_up(x), GFloat::next_down(x));
    // the neighbours, from the definition on the ordered list of bit patterns
    let (eu, ed) = (x.up(), x.down());
    if !same(u.d(), eu.d()) {
        return Err(format!("next_up({:e} = {:#x}) = {:e} ({:#x}), expected {:e}", x.d(), x.bits(), u.d(), u.bits(), eu.d()));
    }
    if !same(d.d(), ed.d()) {
        return Err(format!("next_down({:e} = {:#x}) = {:e} ({:#x}), expected {:e}", x.d(), x.bits(), d.d(), d.bits(), ed.d()));
    }
    Ok(())
}
fn f64_mantissas(full: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let n = if full { 16384 } else { 2048 };
    for k in 0..n {
        v.push(k);
        v.push((1 << 52) - 1 - k);
    }
    for k in 0..52 {
        for d in [0u64, 1, 2] {
            v.push((1 << k) + d);
            v.push((1u64 << k).wrapping_sub(d) & ((1 << 52) - 1));
        }
    }
    v.extend([0x5555555555555, 0xaaaaaaaaaaaaa, 0x123456789abcd]);
    v.sort();
    v.dedup();
    v.retain(|m| *m < 1 << 52);
    v
}
fn main() {
    let mut c = Check::new("C07");
    c.suite("all-f32", "all 2^32 bit patterns of f32 (2^16 per case)", 1 << 16, |i, c| {
        for l in 0..1u32 << 16 {
            one(f32::from_bits(((i as u32) << 16) | l))?;
        }
        c.steps(2 << 16);
        c.distinct(1 << 16);
        c.note(|| format!("bit patterns {:#x}0000..", i));
        Ok(())
    });
    let ms = f64_mantissas(!c.quick());
    c.suite("f64", &format!("all 4096 sign/exponent combinations of f64 with {} mantissas: both ends, powers of two with neighbours, patterns", ms.len()), 4096, |i, c| {
        for m in &ms {
            one(f64::from_bits((i << 52) | m))?;
        }
        c.steps(2 * ms.len() as u64);
        c.distinct(ms.len() as u64);
        c.note(|| format!("sign/exponent {:#x}", i));
        Ok(())
    });
    fn ivals<T: Fl>(c: &mut Check) {
        let mut v: Vec<T> = signed(&ladder::<T>(true));
        v.push(T::infinity());
        v.insert(0, T::neg_infinity());
        let ivs = intervals(&v);
        c.suite(&format!("interval-{}", T::NAME), "every interval over the ladder incl. infinities: both bounds step", ivs.len() as u64, |i, c| {
            let (p, q) = ivs[i as usize];
            let a = Interval::new(v[p], v[q]);
            c.note(|| format!("a = {}", iv(&a)));
            let (u, d) = (GFloat::next_up(a), GFloat::next_down(a));
            let ok = same(u.inf.d(), a.inf.up().d()) && same(u.sup.d(), a.sup.up().d()) && same(d.inf.d(), a.inf.down().d()) && same(d.sup.d(), a.sup.down().d());
            if !ok {
                return Err(format!("stepping {}: {} {}", iv(&a), iv(&u), iv(&d)));
            }
            c.steps(2);
            c.state(Fp::new(1).f(a.inf.d()).f(a.sup.d()));
            Ok(())
        });
    }
    ivals::<f32>(&mut c);
    ivals::<f64>(&mut c);
    c.finish()
}
