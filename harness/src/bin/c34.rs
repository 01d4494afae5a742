//! C34: results depend on the operands only: not on what was computed before,
//! not on repetition, and not on what other threads compute at the same time.
use magnesia::functions::*;
use magnesia::optimize::test_functions::ackley;
use pbt::calls::*;
use pbt::prelude::*;
use std::sync::{Arc, Barrier};

fn same(what: &str, calls: &[Call], order: &[usize], got: &[Vec<u64>], want: &[Vec<u64>]) -> Res {
    for (k, i) in order.iter().enumerate() {
        ensure!(got[k] == want[*i], "{what}: call {:?} gave {:x?} at first and {:x?} now", calls[*i], want[*i], got[k]);
    }
    Ok(())
}

/// The same calls twice, then in another order, then mixed with others.
fn order(c: &(Vec<Call>, u64), ctx: &mut Ctx) -> Res {
    let calls = &c.0;
    let want: Vec<Vec<u64>> = calls.iter().map(call).collect();
    ctx.nontrivial(calls.len() > 1);
    ctx.class("the same function on different operands", calls.iter().enumerate().any(|(i, a)| calls[..i].iter().any(|b| a.0 % CALLS == b.0 % CALLS && a.1 % 6 != b.1 % 6)));
    let mut order: Vec<usize> = (0..calls.len()).collect();
    let exec = |o: &[usize]| o.iter().map(|i| call(&calls[*i])).collect::<Vec<_>>();
    same("again", calls, &order, &exec(&order), &want)?;
    order.reverse();
    same("in reverse order", calls, &order, &exec(&order), &want)?;
    let mut s = c.1;
    for i in (1..order.len()).rev() {
        order.swap(i, splitmix(&mut s) as usize % (i + 1));
    }
    same("shuffled", calls, &order, &exec(&order), &want)?;
    // each call right after itself on other operands
    for (i, c1) in calls.iter().enumerate() {
        let other = (c1.0, c1.1 + 1 + c.1 % 5, c1.2);
        call(&other);
        same("after the same call on other operands", calls, &[i], &[call(c1)], &want)?;
    }
    Ok(())
}

/// The same calls on several threads at once.
fn threads(c: &(Vec<Call>, u8), ctx: &mut Ctx) -> Res {
    let calls = Arc::new(c.0.clone());
    let want: Vec<Vec<u64>> = calls.iter().map(call).collect();
    let t = c.1 as usize % 3 + 2;
    ctx.nontrivial(!calls.is_empty());
    ctx.class("four threads", t == 4);
    let gate = Arc::new(Barrier::new(t));
    let hs: Vec<_> = (0..t)
        .map(|k| {
            let (calls, gate) = (calls.clone(), gate.clone());
            std::thread::spawn(move || {
                gate.wait();
                let mut out = vec![];
                for round in 0..40 {
                    for i in 0..calls.len() {
                        let i = (i + k * 3 + round) % calls.len();
                        out.push((i, call(&calls[i])));
                    }
                }
                out
            })
        })
        .collect();
    let mut bad = Ok(());
    for h in hs {
        match h.join() {
            Err(_) => bad = Err("a call panicked on a thread".to_string()),
            Ok(out) => for (i, got) in out {
                if bad.is_ok() {
                    bad = same(&format!("with {t} threads"), &calls, &[i], &[got], &want);
                }
            },
        }
    }
    bad
}

/// A function of two floats given by their bits.
fn near_call(op: u8, a: u64, b: u64) -> Vec<u64> {
    let mut o = Bits(vec![]);
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    let (p, q) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
    let z = Complex::new(x, y);
    let w = Complex::new(p, q);
    match op % NEAR {
        0 => [Atan2::atan2(x, y), Abs::abs(x), Asin::asin(x), Sinh::sinh(x), Cosh::cosh(x)].out(&mut o),
        1 => [Sin::sin(x), Cos::cos(x), Exp::exp(x), Ln::ln(x), Sqrt::sqrt(&x), Tan::tan(x)].out(&mut o),
        2 => [Atan2::atan2(p, q), Sin::sin(p), Cos::cos(p), Exp::exp(p), Ln::ln(p), Sqrt::sqrt(&p), Tan::tan(p), Sinh::sinh(p), Cosh::cosh(p), Asin::asin(p), Abs::abs(p)].out(&mut o),
        3 => ackley(p, q).out(&mut o),
        4 => { z.exp().out(&mut o); z.ln().out(&mut o); z.sqrt().out(&mut o) }
        5 => { z.sin().out(&mut o); z.cos().out(&mut o); z.sinh().out(&mut o); z.cosh().out(&mut o) }
        6 => { w.exp().out(&mut o); w.ln().out(&mut o); w.sqrt().out(&mut o); w.tan().out(&mut o) }
        7 => { [z.abs(), z.arg(), z.sqr_norm()].out(&mut o); [w.abs(), w.arg(), w.sqr_norm()].out(&mut o) }
        8 => { let i = Complex::new(y, -x); (z * i).out(&mut o); (z / i).out(&mut o); (z / y).out(&mut o) }
        9 => { let f = Polynomial::from_coefficients(vec![1.0, x, 0.5, y]); f.eval(x).out(&mut o); (&f * &f).eval(y).out(&mut o) }
        10 => { let u = SVector::from([x, y, 1.0]); (u * SVector::from([y, x, 2.0])).out(&mut o); (u * x - u).out(&mut o) }
        11 => { let m = [[x, y], [y, 1.0]].eval(); (&m * &m).eval().out(&mut o); (&m - m.t()).eval().out(&mut o) }
        12 => { let v = dv(&[x, y, x]); (&v * &v).out(&mut o); v.diag().eval().out(&mut o) }
        _ => { let m = SMatrix::from([[x, y], [y, 1.0]]); (&(m * m) * &SVector::from([y, x])).out(&mut o) }
    }
    o.0
}
const NEAR: u8 = 14;

/// Operands that are easily mistaken for each other: signs of zeros, single
/// bits, exchanged or shifted parts.
fn near_operands(c: &(u8, u64, u64, u8, u8, u8), ctx: &mut Ctx) -> Res {
    let (op, a, b, how, i, j) = *c;
    let (f32s, w) = if matches!(op % NEAR, 2 | 3 | 6) { (true, 32) } else { (false, 64) };
    let m = if f32s { 0xffff_ffff } else { u64::MAX };
    let top = 1u64 << (w - 1);
    let bit = |k: u8| 1u64 << (k as u32 % w);
    let (a2, b2) = match how % 10 {
        0 => (a ^ top, b),
        1 => (a, b ^ top),
        2 => (a ^ top, b ^ top),
        3 => (b, a),
        4 => (a ^ bit(i), b),
        5 => (a, b ^ bit(j)),
        6 => (a ^ bit(i), b ^ bit(j)),
        7 => (a ^ bit(i), b ^ bit(i.wrapping_add(j % 4 * 8))),
        8 => (a.wrapping_add(bit(i)) & m, b.wrapping_sub(bit(i)) & m),
        _ => (a ^ bit(i), b ^ bit(i)),
    };
    ctx.nontrivial((a, b) != (a2, b2));
    ctx.class("zeros of different sign", (a | b | a2 | b2) & !top == 0 || (a ^ a2 == top && a & !top == 0) || (b ^ b2 == top && b & !top == 0));
    ctx.class("one bit each", matches!(how % 10, 6 | 7 | 9));
    let f = |(x, y)| near_call(op, x, y);
    let (one, two, other) = ((a, b), (a2, b2), (0x3fe8_1234_3f41_9999, 0xbfd3_3333_3e99_999a));
    // something unrelated, then one of them, then the other
    f(other);
    let x = f(one);
    f(other);
    let y = f(two);
    f(other);
    for (name, first, second, want) in [("second after first", one, two, &y), ("first after second", two, one, &x)] {
        f(first);
        let got = f(second);
        ensure!(got == *want, "function {}, {name}, {first:x?} and {second:x?}: {got:x?}, on its own {want:x?}", op % NEAR);
    }
    Ok(())
}

fn main() {
    let mut c = Check::start("C34");
    let call = || (0u8..CALLS, 0u64..6, 0u8..6);
    c.sub("order of calls", 6000, (vec(call(), 1..10), any::<u64>()), order);
    // one function alone, all operands
    c.sweep("every function, order", 30, (0..CALLS).map(|op| (vec((Just(op), 0u64..6, 0u8..6), 2..8), any::<u64>())), order);
    let bits = |op: u8| {
        let (f32s, raw) = (matches!(op % NEAR, 2 | 3 | 6), any::<u64>());
        let f = move |x: f64| if f32s { (x as f32).to_bits() as u64 } else { x.to_bits() };
        prop_oneof![4 => part(4).prop_map(f), 1 => raw.prop_map(move |x| if f32s { x & 0xffff_ffff } else { x })]
    };
    c.sweep("operands easily mistaken for each other", 3000, (0..NEAR).map(|op| (Just(op), bits(op), bits(op), any::<u8>(), any::<u8>(), any::<u8>())), near_operands);
    c.sub("threads", 2000, (vec(call(), 1..10), any::<u8>()), threads);
    c.sweep("every function, threads", 30, (0..CALLS).map(|op| (vec((Just(op), 0u64..6, 0u8..6), 2..8), any::<u8>())), threads);
    c.finish("sequences of calls of all parts of the library, made twice, in other orders, after the same function on other operands, and on two to four threads at once: the results are the same to the bit (NaNs alike); non-trivial: more than one call, or several threads");
}
