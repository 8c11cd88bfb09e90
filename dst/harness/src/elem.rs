//! What travels through the channels: a number, whose size (which the DRAM's transfer times depend on) follows
//! from its value, and is what the library's own types say for types of that size.
use crate::case::bits;
use dam::types::DAMType;
use num_traits::{Num, One, Zero};
use std::fmt;
use std::ops::*;

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct El(pub usize);

impl DAMType for El {
    fn dam_size(&self) -> usize {
        match bits(self.0) {
            0 => ().dam_size(),
            1 => (self.0 > 0).dam_size(),
            8 => 1i8.dam_size(),
            33 => (1u32, (true, ())).dam_size(),
            64 => self.0.dam_size(),
            128 => (1u64, (1i16, (1u16, 1f32))).dam_size(),
            _ => (1f64, (1i64, (1u64, 1u8))).dam_size(),
        }
    }
}
impl fmt::Debug for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl fmt::Display for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl From<usize> for El {
    fn from(x: usize) -> Self {
        El(x)
    }
}
impl From<El> for usize {
    fn from(x: El) -> Self {
        x.0
    }
}
macro_rules! op {
    ($($t:ident $f:ident $o:tt),*) => { $(
        impl $t for El {
            type Output = El;
            fn $f(self, o: El) -> El {
                El(self.0 $o o.0)
            }
        }
    )* };
}
op!(Add add +, Sub sub -, Mul mul *, Div div /, Rem rem %);
impl Zero for El {
    fn zero() -> Self {
        El(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for El {
    fn one() -> Self {
        El(1)
    }
}
impl Num for El {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        usize::from_str_radix(s, r).map(El)
    }
}
