//! A tiny self-contained codec for generated cases, so that a shrunk failure
//! can be stored as a plain list of numbers and replayed without proptest.

pub trait Wire: Sized {
    fn put(&self, out: &mut Vec<u64>);
    fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self>;
}

macro_rules! wire_int {
    ($($t:ty),*) => {$(
        impl Wire for $t {
            fn put(&self, out: &mut Vec<u64>) { out.push(*self as i64 as u64); }
            fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self> {
                inp.next().map(|x| *x as i64 as $t)
            }
        }
    )*};
}
wire_int!(i8, i16, i32, i64, u8, u16, u32, u64, isize, usize);

macro_rules! wire_wide {
    ($($t:ty),*) => {$(
        impl Wire for $t {
            fn put(&self, out: &mut Vec<u64>) {
                out.push(*self as u64);
                out.push((*self as u128 >> 64) as u64);
            }
            fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self> {
                let lo = *inp.next()? as u128;
                let hi = *inp.next()? as u128;
                Some((lo | hi << 64) as $t)
            }
        }
    )*};
}
wire_wide!(i128, u128);

impl Wire for bool {
    fn put(&self, out: &mut Vec<u64>) {
        out.push(*self as u64);
    }
    fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self> {
        inp.next().map(|x| *x != 0)
    }
}
impl Wire for f64 {
    fn put(&self, out: &mut Vec<u64>) {
        out.push(self.to_bits());
    }
    fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self> {
        inp.next().map(|x| f64::from_bits(*x))
    }
}
impl Wire for f32 {
    fn put(&self, out: &mut Vec<u64>) {
        out.push(self.to_bits() as u64);
    }
    fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self> {
        inp.next().map(|x| f32::from_bits(*x as u32))
    }
}
impl<T: Wire> Wire for Vec<T> {
    fn put(&self, out: &mut Vec<u64>) {
        out.push(self.len() as u64);
        self.iter().for_each(|x| x.put(out));
    }
    fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self> {
        let n = *inp.next()? as usize;
        (0..n).map(|_| T::get(inp)).collect()
    }
}
macro_rules! wire_tuple {
    ($($n:ident)*) => {
        #[allow(non_snake_case)]
        impl<$($n: Wire),*> Wire for ($($n,)*) {
            fn put(&self, out: &mut Vec<u64>) { let ($($n,)*) = self; $($n.put(out);)* }
            fn get(inp: &mut std::slice::Iter<u64>) -> Option<Self> { Some(($($n::get(inp)?,)*)) }
        }
    };
}
wire_tuple!(A);
wire_tuple!(A B);
wire_tuple!(A B C);
wire_tuple!(A B C D);
wire_tuple!(A B C D E);
wire_tuple!(A B C D E F);
wire_tuple!(A B C D E F G);
wire_tuple!(A B C D E F G H);
wire_tuple!(A B C D E F G H I);
