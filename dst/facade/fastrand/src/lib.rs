//! `fastrand` whose unseeded generators draw their seed from the simulation.
#![allow(clippy::all)]
pub use real::*;

use dam_sim_core as sim;
use std::ops::{Deref, DerefMut, RangeBounds};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rng(real::Rng);
impl Rng {
    pub fn new() -> Self {
        Rng(real::Rng::with_seed(sim::env_random()))
    }
    pub fn with_seed(s: u64) -> Self {
        Rng(real::Rng::with_seed(s))
    }
    pub fn fork(&mut self) -> Self {
        Rng(self.0.fork())
    }
}
impl Default for Rng {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for Rng {
    type Target = real::Rng;
    fn deref(&self) -> &real::Rng {
        &self.0
    }
}
impl DerefMut for Rng {
    fn deref_mut(&mut self) -> &mut real::Rng {
        &mut self.0
    }
}
macro_rules! global {
    ($($n:ident)*) => { $(
        pub fn $n(r: impl RangeBounds<$n>) -> $n { Rng::new().0.$n(r) }
    )* };
}
global!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
pub fn bool() -> bool {
    Rng::new().0.bool()
}
pub fn f32() -> f32 {
    Rng::new().0.f32()
}
pub fn f64() -> f64 {
    Rng::new().0.f64()
}
pub fn shuffle<T>(s: &mut [T]) {
    Rng::new().0.shuffle(s)
}
pub fn seed(_: u64) {}
pub fn get_seed() -> u64 {
    0
}
