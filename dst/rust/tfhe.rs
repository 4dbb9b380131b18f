//! Stand-in for the tfhe crate: ciphertexts carry a fingerprint of the expression that made them.
#![allow(warnings)]

pub fn h(tag: u64, parts: &[u64]) -> u64 {
    let mut x: u64 = 0xcbf29ce484222325 ^ tag;
    for p in parts {
        x = (x ^ p).wrapping_mul(0x100000001b3);
        x ^= x >> 29;
    }
    x
}

fn sym(tag: u64, a: u64, b: u64) -> u64 {
    if a < b { h(tag, &[a, b]) } else { h(tag, &[b, a]) }
}

pub mod shortint {
    use super::{h, sym};
    pub use server_key::ServerKey;

    #[derive(Clone, Debug)]
    pub struct Ciphertext(pub u64);

    pub mod server_key {
        use super::*;
        pub struct ServerKey(pub u64);

        #[derive(Clone)]
        pub struct LookupTableOwned(pub u64);

        impl ServerKey {
            pub fn unchecked_add(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(1, a.0, b.0))
            }
            pub fn scalar_left_shift(&self, a: &Ciphertext, s: u8) -> Ciphertext {
                Ciphertext(h(2, &[a.0, s as u64]))
            }
            pub fn apply_lookup_table(&self, a: &Ciphertext, t: &LookupTableOwned) -> Ciphertext {
                Ciphertext(h(3, &[a.0, t.0]))
            }
            pub fn generate_lookup_table<F: Fn(u64) -> u64>(&self, f: F) -> LookupTableOwned {
                let mut t = 0;
                for x in 0..8 {
                    t |= (f(x) & 1) << x;
                }
                LookupTableOwned(t)
            }
            pub fn create_trivial(&self, v: u64) -> Ciphertext {
                Ciphertext(h(4, &[v]))
            }
            pub fn bitand(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(5, a.0, b.0))
            }
        }
    }
}

pub mod boolean {
    pub mod prelude {
        use crate::{h, sym};

        #[derive(Clone, Debug)]
        pub struct Ciphertext(pub u64);
        pub struct ServerKey(pub u64);

        impl ServerKey {
            pub fn and(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(11, a.0, b.0))
            }
            pub fn nand(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(12, a.0, b.0))
            }
            pub fn or(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(13, a.0, b.0))
            }
            pub fn nor(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(14, a.0, b.0))
            }
            pub fn xor(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(15, a.0, b.0))
            }
            pub fn xnor(&self, a: &Ciphertext, b: &Ciphertext) -> Ciphertext {
                Ciphertext(sym(16, a.0, b.0))
            }
            pub fn not(&self, a: &Ciphertext) -> Ciphertext {
                Ciphertext(h(17, &[a.0]))
            }
            pub fn trivial_encrypt(&self, v: bool) -> Ciphertext {
                Ciphertext(h(18, &[v as u64]))
            }
        }
    }
}

/// The high-level API.
pub struct Id<const W: usize>;
pub struct FheUint<I>(pub u64, pub std::marker::PhantomData<I>);
impl<I> Clone for FheUint<I> {
    fn clone(&self) -> Self {
        fhe(self.0)
    }
}
pub fn fhe<I>(v: u64) -> FheUint<I> {
    FheUint(v, std::marker::PhantomData)
}
pub type FheUint2Id = Id<2>;
pub type FheUint4Id = Id<4>;
pub type FheUint8Id = Id<8>;
pub type FheUint10Id = Id<10>;
pub type FheUint12Id = Id<12>;
pub type FheUint14Id = Id<14>;
pub type FheUint16Id = Id<16>;
pub type FheUint32Id = Id<32>;
pub type FheUint64Id = Id<64>;
pub type FheUint128Id = Id<128>;
pub type FheUint256Id = Id<256>;
pub type FheUint4 = FheUint<FheUint4Id>;
pub type FheUint8 = FheUint<FheUint8Id>;
pub type FheUint16 = FheUint<FheUint16Id>;
pub type FheUint32 = FheUint<FheUint32Id>;
pub type FheUint64 = FheUint<FheUint64Id>;

macro_rules! op {
    ($t:ident, $f:ident, $g:expr, $($s:ty : $w:literal),*) => {
        impl<I> std::ops::$t<FheUint<I>> for FheUint<I> {
            type Output = FheUint<I>;
            fn $f(self, o: FheUint<I>) -> FheUint<I> { fhe($g(self.0, o.0)) }
        }
        impl<'a, I> std::ops::$t<&'a FheUint<I>> for FheUint<I> {
            type Output = FheUint<I>;
            fn $f(self, o: &'a FheUint<I>) -> FheUint<I> { fhe($g(self.0, o.0)) }
        }
        impl<'a, I> std::ops::$t<FheUint<I>> for &'a FheUint<I> {
            type Output = FheUint<I>;
            fn $f(self, o: FheUint<I>) -> FheUint<I> { fhe($g(self.0, o.0)) }
        }
        impl<'a, 'b, I> std::ops::$t<&'b FheUint<I>> for &'a FheUint<I> {
            type Output = FheUint<I>;
            fn $f(self, o: &'b FheUint<I>) -> FheUint<I> { fhe($g(self.0, o.0)) }
        }
        $(
        impl std::ops::$t<$s> for FheUint<Id<$w>> {
            type Output = Self;
            fn $f(self, o: $s) -> Self { fhe($g(self.0, h(30, &[o as u64]))) }
        }
        impl<'a> std::ops::$t<$s> for &'a FheUint<Id<$w>> {
            type Output = FheUint<Id<$w>>;
            fn $f(self, o: $s) -> FheUint<Id<$w>> { fhe($g(self.0, h(30, &[o as u64]))) }
        }
        )*
    };
}
op!(Add, add, |a, b| sym(21, a, b), u8: 8, u16: 16, u32: 32, u64: 64, u128: 128);
op!(Sub, sub, |a, b| h(22, &[a, b]), u8: 8, u16: 16, u32: 32, u64: 64, u128: 128);
op!(Mul, mul, |a, b| sym(23, a, b), u8: 8, u16: 16, u32: 32, u64: 64, u128: 128);
op!(BitAnd, bitand, |a, b| sym(24, a, b), u8: 8, u16: 16, u32: 32, u64: 64, u128: 128);
op!(BitOr, bitor, |a, b| sym(25, a, b), u8: 8, u16: 16, u32: 32, u64: 64, u128: 128);
op!(BitXor, bitxor, |a, b| sym(26, a, b), u8: 8, u16: 16, u32: 32, u64: 64, u128: 128);

macro_rules! shr {
    ($($s:ty),*) => {$(
        impl<I> std::ops::Shr<$s> for FheUint<I> {
            type Output = FheUint<I>;
            fn shr(self, o: $s) -> FheUint<I> { fhe(h(27, &[self.0, o as u64])) }
        }
        impl<'a, I> std::ops::Shr<$s> for &'a FheUint<I> {
            type Output = FheUint<I>;
            fn shr(self, o: $s) -> FheUint<I> { fhe(h(27, &[self.0, o as u64])) }
        }
    )*};
}
shr!(u8, u16, u32, u64);

pub mod prelude {
    use super::*;
    pub trait FheTryTrivialEncrypt<T>: Sized {
        fn try_encrypt_trivial(v: T) -> Result<Self, String>;
    }
    macro_rules! triv {
        ($($s:ty),*) => {$(
            impl<I> FheTryTrivialEncrypt<$s> for FheUint<I> {
                fn try_encrypt_trivial(v: $s) -> Result<Self, String> { Ok(fhe(h(28, &[v as u64]))) }
            }
        )*};
    }
    triv!(u8, u16, u32, u64, u128);
    pub trait CastFrom<T> {
        fn cast_from(v: T) -> Self;
    }
    impl<const A: usize, const B: usize> CastFrom<FheUint<Id<A>>> for FheUint<Id<B>> {
        fn cast_from(v: FheUint<Id<A>>) -> Self { fhe(h(29, &[v.0, B as u64])) }
    }
}

/// What a function returned, flattened.
pub trait Show {
    fn show(&self, out: &mut Vec<u64>);
}
impl Show for shortint::Ciphertext {
    fn show(&self, out: &mut Vec<u64>) {
        out.push(self.0)
    }
}
impl Show for boolean::prelude::Ciphertext {
    fn show(&self, out: &mut Vec<u64>) {
        out.push(self.0)
    }
}
impl<I> Show for FheUint<I> {
    fn show(&self, out: &mut Vec<u64>) {
        out.push(self.0)
    }
}
impl<T: Show, const N: usize> Show for [T; N] {
    fn show(&self, out: &mut Vec<u64>) {
        self.iter().for_each(|x| x.show(out))
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self, out: &mut Vec<u64>) {
        self.iter().for_each(|x| x.show(out))
    }
}
impl Show for () {
    fn show(&self, out: &mut Vec<u64>) {}
}
impl<A: Show, B: Show> Show for (A, B) {
    fn show(&self, out: &mut Vec<u64>) {
        self.0.show(out);
        self.1.show(out)
    }
}
impl<A: Show, B: Show, C: Show> Show for (A, B, C) {
    fn show(&self, out: &mut Vec<u64>) {
        self.0.show(out);
        self.1.show(out);
        self.2.show(out)
    }
}

pub fn call<F: FnOnce() -> R + std::panic::UnwindSafe, R: Show>(label: &str, f: F) {
    match std::panic::catch_unwind(f) {
        Ok(r) => {
            let mut v = vec![];
            r.show(&mut v);
            println!("{} {}", label, v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" "));
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("{} panic {}", label, m.replace("\n", " "));
        }
    }
}
