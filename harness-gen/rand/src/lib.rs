//! Stands in for the crate of the same name: every number in [0, 1) that is asked for is the next
//! one of the list in the environment variable CHOICES (numbers of 1/2^20), again and again.
use std::cell::RefCell;
use std::ops::Range;

thread_local! {
    static LIST: RefCell<(Vec<u32>, usize)> = RefCell::new((
        std::env::var("CHOICES").expect("CHOICES").split(',').map(|x| x.trim().parse().expect("a number")).collect(),
        0,
    ));
}

fn next() -> u32 {
    LIST.with(|l| {
        let mut l = l.borrow_mut();
        let i = l.1;
        l.1 += 1;
        l.0[i % l.0.len()] & 0xfffff
    })
}

pub trait Chosen {
    fn chosen() -> Self;
}
impl Chosen for f64 {
    fn chosen() -> f64 {
        next() as f64 / 1048576.0
    }
}
impl Chosen for f32 {
    fn chosen() -> f32 {
        next() as f32 / 1048576.0
    }
}
impl Chosen for u32 {
    fn chosen() -> u32 {
        next() << 12
    }
}
impl Chosen for bool {
    fn chosen() -> bool {
        next() >= 524288
    }
}

pub fn random<T: Chosen>() -> T {
    T::chosen()
}

pub trait Within {
    type Item;
    fn within(self) -> Self::Item;
}
impl Within for Range<f64> {
    type Item = f64;
    fn within(self) -> f64 {
        self.start + f64::chosen() * (self.end - self.start)
    }
}
impl Within for std::ops::RangeInclusive<f64> {
    type Item = f64;
    fn within(self) -> f64 {
        self.start() + f64::chosen() * (self.end() - self.start())
    }
}

pub trait Rng {
    fn gen<T: Chosen>(&mut self) -> T {
        T::chosen()
    }
    fn gen_range<R: Within>(&mut self, r: R) -> R::Item {
        r.within()
    }
}

pub struct ThreadRng;
impl Rng for ThreadRng {}

pub fn thread_rng() -> ThreadRng {
    ThreadRng
}

pub mod rngs {
    pub use super::ThreadRng;
}

pub mod prelude {
    pub use super::{random, thread_rng, Rng};
}
