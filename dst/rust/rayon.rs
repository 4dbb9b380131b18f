//! Stand-in for rayon: the tasks of a parallel iterator run in an order drawn from a seed.
#![allow(warnings)]
use std::cell::Cell;

thread_local! {
    static S: Cell<u64> = Cell::new(1);
    static N: Cell<u64> = Cell::new(0);
    static M: Cell<u64> = Cell::new(0);
}

pub fn seed(s: u64) {
    S.with(|c| c.set(s.wrapping_mul(0x9e3779b97f4a7c15) | 1));
}

/// (tasks run, tasks run out of order)
pub fn stats() -> (u64, u64) {
    (N.with(|c| c.get()), M.with(|c| c.get()))
}

fn next(n: u64) -> u64 {
    S.with(|c| {
        let mut x = c.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        (x >> 11) % n
    })
}

pub mod iter {
    use super::*;

    pub struct Par<T>(Vec<T>);
    pub struct Map<T, F>(Vec<T>, F);

    pub trait IntoParallelIterator {
        type Item;
        fn into_par_iter(self) -> Par<Self::Item>;
    }
    impl<'a, T> IntoParallelIterator for &'a [T] {
        type Item = &'a T;
        fn into_par_iter(self) -> Par<&'a T> {
            Par(self.iter().collect())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> {
        type Item = &'a T;
        fn into_par_iter(self) -> Par<&'a T> {
            Par(self.iter().collect())
        }
    }

    pub trait ParallelIterator: Sized {
        type Item;
        fn run<G: FnMut(usize, Self::Item)>(self, g: G);
        fn len_(&self) -> usize;
        fn map<F: Fn(Self::Item) -> R + Sync + Send, R>(self, f: F) -> Map<Self, F> {
            Map(vec![self], f)
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            self.run(|_, x| f(x));
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            let n = self.len_();
            let mut out: Vec<Option<Self::Item>> = (0..n).map(|_| None).collect();
            self.run(|i, x| out[i] = Some(x));
            out.into_iter().map(|x| x.unwrap()).collect()
        }
    }
    impl<T> ParallelIterator for Par<T> {
        type Item = T;
        fn len_(&self) -> usize {
            self.0.len()
        }
        fn run<G: FnMut(usize, T)>(self, mut g: G) {
            let mut left: Vec<(usize, T)> = self.0.into_iter().enumerate().collect();
            let mut k = 0;
            while !left.is_empty() {
                let (i, x) = left.swap_remove(next(left.len() as u64) as usize);
                N.with(|c| c.set(c.get() + 1));
                if i != k {
                    M.with(|c| c.set(c.get() + 1));
                }
                k += 1;
                g(i, x);
            }
        }
    }
    impl<P: ParallelIterator, F: Fn(P::Item) -> R, R> ParallelIterator for Map<P, F> {
        type Item = R;
        fn len_(&self) -> usize {
            self.0[0].len_()
        }
        fn run<G: FnMut(usize, R)>(mut self, mut g: G) {
            let f = self.1;
            self.0.pop().unwrap().run(|i, x| g(i, f(x)));
        }
    }
}
