//! Model of polynomials: plain coefficient lists.

use crate::rings::ModelRing;
use magnesia::algebra::{Polynomial, Ring};

pub fn trim<T: ModelRing>(mut a: Vec<T>) -> Vec<T> {
    while a.last() == Some(&T::m_zero()) {
        a.pop();
    }
    a
}
fn at<T: ModelRing>(a: &[T], i: usize) -> T {
    a.get(i).cloned().unwrap_or_else(T::m_zero)
}
pub fn add<T: ModelRing>(a: &[T], b: &[T]) -> Vec<T> {
    (0..a.len().max(b.len())).map(|i| at(a, i).m_add(&at(b, i))).collect()
}
pub fn sub<T: ModelRing>(a: &[T], b: &[T]) -> Vec<T> {
    (0..a.len().max(b.len())).map(|i| at(a, i).m_sub(&at(b, i))).collect()
}
pub fn neg<T: ModelRing>(a: &[T]) -> Vec<T> {
    a.iter().map(|x| x.m_neg()).collect()
}
pub fn mul<T: ModelRing>(a: &[T], b: &[T]) -> Vec<T> {
    let mut r = vec![T::m_zero(); (a.len() + b.len()).saturating_sub(1)];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j].m_add(&x.m_mul(y));
        }
    }
    r
}
/// The sum of a_i x^i.
pub fn eval<T: ModelRing>(a: &[T], x: &T) -> T {
    let (mut s, mut p) = (T::m_zero(), T::m_one());
    for c in a {
        s = s.m_add(&c.m_mul(&p));
        p = p.m_mul(x);
    }
    s
}

/// The polynomial with these coefficients. How much room its list has to grow
/// depends on the length, so that operands with and without room meet.
pub fn pl<T: Ring>(a: &[T]) -> Polynomial<T> {
    let room = match a.len() % 7 {
        0 | 3 => 0,
        1 => 1,
        2 => a.len(),
        4 => 3 * a.len() + 5,
        5 => 64,
        _ => 1000,
    };
    with_room(a, room)
}
pub fn with_room<T: Ring>(a: &[T], room: usize) -> Polynomial<T> {
    let mut v = Vec::with_capacity(a.len() + room);
    v.extend_from_slice(a);
    Polynomial::from_coefficients(v)
}
