//! C08: built-in number types behave as their native arithmetic through the traits.
use pbt::prelude::*;

/// The traits a ring of machine numbers supplies, used generically.
fn generic<T: Ring>(a: &T, b: &T) -> (T, T, T) {
    (T::zero(), T::one(), a.mul_refs(b))
}

macro_rules! int {
    ($c:ident, $t:ident, $from_i8:tt, $conj:tt, $ring:tt) => {{
        const LO: i128 = if $t::MIN == 0 { 0 } else { i128::MIN };
        let vals = || prop_oneof![
            3 => any::<$t>(),
            2 => (-12i128..=12).prop_map(|x| x.max(LO) as $t),
            1 => (0u8..8).prop_map(|d| $t::MAX - d as $t),
            1 => (0u8..8).prop_map(|d| $t::MIN + d as $t),
            1 => (0u32..$t::BITS).prop_map(|s| (1 as $t) << s),
        ];
        $c.sub(concat!("integers ", stringify!($t)), 6000, (vals(), vals()).prop_map(|(a, b)| (a as u128 as u64, (a as u128 >> 64) as u64, b as u128 as u64, (b as u128 >> 64) as u64)), |case, ctx| {
            let a = (case.0 as u128 | (case.1 as u128) << 64) as $t;
            let b = (case.2 as u128 | (case.3 as u128) << 64) as $t;
            let n = stringify!($t);
            ctx.nontrivial(a != 0 && b != 0 && a != 1 && b != 1);
            ctx.class("product representable", a.checked_mul(b).is_some());
            ctx.class("extreme value", a == $t::MIN || a == $t::MAX || b == $t::MIN || b == $t::MAX);
            if let Some(p) = a.checked_mul(b) {
                ensure_eq!(a.mul_refs(&b), p, "{n} mul_refs of {a} and {b}");
            }
            if let Some(q) = a.checked_div(b) {
                ensure_eq!(a.div_refs(&b), q, "{n} div_refs of {a} and {b}");
            }
            int!(@zero $from_i8 $t n);
            int!(@conj $conj n a);
            int!(@ring $ring $t n a b);
            Ok(())
        });
    }};
    (@zero yes $t:ident $n:ident) => {
        ensure_eq!(<$t as Zero>::zero(), 0, "{} zero", $n);
        ensure_eq!(<$t as One>::one(), 1, "{} one", $n);
    };
    (@zero no $t:ident $n:ident) => {};
    (@conj yes $n:ident $a:ident) => { ensure_eq!($a.conj(), $a, "{} conj", $n); };
    (@conj no $n:ident $a:ident) => {};
    (@ring yes $t:ident $n:ident $a:ident $b:ident) => {
        if let Some(p) = $a.checked_mul($b) {
            ensure_eq!(generic::<$t>(&$a, &$b), (0, 1, p), "{} through the Ring trait", $n);
        }
    };
    (@ring no $t:ident $n:ident $a:ident $b:ident) => {};
}

fn same<F: Fl>(a: F, b: F) -> bool {
    (a.is_nan_() && b.is_nan_()) || (a.ord() == b.ord() && a.sign_neg() == b.sign_neg())
}

fn floats<F: Fl + Field + Conj>(case: &(u64, u64), ctx: &mut Ctx) -> Res {
    let (a, b) = (F::from_raw(case.0), F::from_raw(case.1));
    let n = F::NAME;
    ctx.nontrivial(a.f().is_finite() && b.f().is_finite() && a.f() != 0.0 && b.f() != 0.0);
    ctx.class("special value", !a.f().is_finite() || !b.f().is_finite());
    ensure!(same(a.conj(), a), "{n} conj of {a:?}: {:?}", a.conj());
    ensure!(same(a.mul_refs(&b), a * b), "{n} mul_refs of {a:?} and {b:?}: {:?}", a.mul_refs(&b));
    ensure!(same(a.div_refs(&b), a / b), "{n} div_refs of {a:?} and {b:?}: {:?}", a.div_refs(&b));
    ensure!(F::zero().f() == 0.0 && !F::zero().sign_neg(), "{n} zero");
    ensure!(F::one().f() == 1.0, "{n} one");
    Ok(())
}

fn main() {
    let mut c = Check::start("C08");
    int!(c, i8, yes, yes, yes);
    int!(c, i16, yes, yes, yes);
    int!(c, i32, yes, yes, yes);
    int!(c, i64, yes, yes, yes);
    int!(c, i128, yes, yes, yes);
    int!(c, isize, yes, no, yes);
    int!(c, u8, no, yes, no);
    int!(c, u16, no, yes, no);
    int!(c, u32, no, yes, no);
    int!(c, u64, no, yes, no);
    int!(c, u128, no, yes, no);
    int!(c, usize, no, no, no);
    // every pair of 8-bit numbers
    c.sweep("all pairs of 8-bit integers", 1, (0u64..256).map(|a| Just(a)), |a, ctx| {
        ctx.nontrivial(true);
        let (x, y) = (*a as u8 as i8, *a as u8);
        ensure_eq!(x.conj(), x, "i8 conj");
        ensure_eq!(y.conj(), y, "u8 conj");
        for b in 0..=255u8 {
            if let Some(p) = x.checked_mul(b as i8) { ensure_eq!(x.mul_refs(&(b as i8)), p, "i8 mul_refs of {x} and {}", b as i8); }
            if let Some(p) = x.checked_div(b as i8) { ensure_eq!(x.div_refs(&(b as i8)), p, "i8 div_refs of {x} and {}", b as i8); }
            if let Some(p) = y.checked_mul(b) { ensure_eq!(y.mul_refs(&b), p, "u8 mul_refs of {y} and {b}"); }
            if let Some(p) = y.checked_div(b) { ensure_eq!(y.div_refs(&b), p, "u8 div_refs of {y} and {b}"); }
        }
        Ok(())
    });
    let f32s = || prop_oneof![2 => any::<u32>().prop_map(|b| b as u64), 2 => part(30).prop_map(|x| (x as f32).to_bits() as u64), 1 => (0u8..6).prop_map(|k| [0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE][k as usize].to_bits() as u64)];
    let f64s = || prop_oneof![2 => any::<u64>(), 2 => part(200).prop_map(|x| x.to_bits()), 1 => (0u8..6).prop_map(|k| [0.0f64, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE][k as usize].to_bits())];
    c.sub("floats f32", 30000, (f32s(), f32s()), floats::<f32>);
    c.sub("floats f64", 30000, (f64s(), f64s()), floats::<f64>);
    c.finish("pairs of values of every built-in number type over the whole range with extra weight on extremes and special values; non-trivial: both operands differ from 0 and 1 (floats: finite and non-zero)");
}
