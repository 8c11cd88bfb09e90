pub use ::std::sync::atomic::{compiler_fence, Ordering};

use dam_sim_core::raw::{self, Atom, Ord as O};

fn o(x: Ordering) -> O {
    match x {
        Ordering::Relaxed => O::Relaxed,
        Ordering::Acquire => O::Acquire,
        Ordering::Release => O::Release,
        Ordering::AcqRel => O::AcqRel,
        _ => O::SeqCst,
    }
}
pub fn fence(_: Ordering) {
    raw::fence()
}
pub fn spin_loop_hint() {
    crate::hint::spin_loop()
}

macro_rules! atomic {
    ($name:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $name(Atom<$t>);
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(Atom::new(v))
            }
            pub fn load(&self, x: Ordering) -> $t {
                assert!(!matches!(x, Ordering::Release | Ordering::AcqRel), "invalid ordering for a load");
                self.0.load(o(x))
            }
            pub fn store(&self, v: $t, x: Ordering) {
                assert!(!matches!(x, Ordering::Acquire | Ordering::AcqRel), "invalid ordering for a store");
                self.0.store(v, o(x))
            }
            pub fn swap(&self, v: $t, x: Ordering) -> $t {
                self.0.rmw(o(x), |_| v)
            }
            pub fn compare_and_swap(&self, c: $t, n: $t, x: Ordering) -> $t {
                match self.0.cas(c, n, o(x), O::Relaxed, false) {
                    Ok(v) | Err(v) => v,
                }
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.0.cas(c, n, o(s), o(f), false)
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                self.0.cas(c, n, o(s), o(f), true)
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                s: Ordering,
                f: Ordering,
                mut g: F,
            ) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
        }
        impl ::std::fmt::Debug for $name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                ::std::fmt::Debug::fmt(&self.0.peek(), f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl ::std::panic::RefUnwindSafe for $name {}
    };
}
macro_rules! atomic_int {
    ($($name:ident $t:ty),* $(,)?) => { $(
        atomic!($name, $t);
        impl Default for $name { fn default() -> Self { Self::new(0) } }
        impl $name {
            pub fn fetch_add(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| a.wrapping_add(v)) }
            pub fn fetch_sub(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| a.wrapping_sub(v)) }
            pub fn fetch_and(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| a & v) }
            pub fn fetch_nand(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| !(a & v)) }
            pub fn fetch_or(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| a | v) }
            pub fn fetch_xor(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| a ^ v) }
            pub fn fetch_max(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| a.max(v)) }
            pub fn fetch_min(&self, v: $t, x: Ordering) -> $t { self.0.rmw(o(x), |a| a.min(v)) }
        }
    )* };
}
atomic_int!(
    AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
    AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize,
);
atomic!(AtomicBool, bool);
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, x: Ordering) -> bool {
        self.0.rmw(o(x), |a| a & v)
    }
    pub fn fetch_nand(&self, v: bool, x: Ordering) -> bool {
        self.0.rmw(o(x), |a| !(a & v))
    }
    pub fn fetch_or(&self, v: bool, x: Ordering) -> bool {
        self.0.rmw(o(x), |a| a | v)
    }
    pub fn fetch_xor(&self, v: bool, x: Ordering) -> bool {
        self.0.rmw(o(x), |a| a ^ v)
    }
    pub fn fetch_not(&self, x: Ordering) -> bool {
        self.0.rmw(o(x), |a| !a)
    }
}

pub struct AtomicPtr<T: 'static>(Atom<*mut T>);
impl<T> AtomicPtr<T> {
    pub const fn new(p: *mut T) -> Self {
        AtomicPtr(Atom::new(p))
    }
    pub fn load(&self, x: Ordering) -> *mut T {
        self.0.load(o(x))
    }
    pub fn store(&self, v: *mut T, x: Ordering) {
        self.0.store(v, o(x))
    }
    pub fn swap(&self, v: *mut T, x: Ordering) -> *mut T {
        self.0.rmw(o(x), |_| v)
    }
    pub fn compare_exchange(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        self.0.cas(c, n, o(s), o(f), false)
    }
    pub fn compare_exchange_weak(
        &self,
        c: *mut T,
        n: *mut T,
        s: Ordering,
        f: Ordering,
    ) -> Result<*mut T, *mut T> {
        self.0.cas(c, n, o(s), o(f), true)
    }
}
impl<T> AtomicPtr<T> {
    pub fn fetch_update<F: FnMut(*mut T) -> Option<*mut T>>(
        &self,
        s: Ordering,
        f: Ordering,
        mut g: F,
    ) -> Result<*mut T, *mut T> {
        let mut prev = self.load(f);
        while let Some(next) = g(prev) {
            match self.compare_exchange_weak(prev, next, s, f) {
                x @ Ok(_) => return x,
                Err(p) => prev = p,
            }
        }
        Err(prev)
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> *mut T {
        self.0.into_inner()
    }
}
unsafe impl<T> Send for AtomicPtr<T> {}
unsafe impl<T> Sync for AtomicPtr<T> {}
impl<T> ::std::panic::RefUnwindSafe for AtomicPtr<T> {}
impl<T> ::std::fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        ::std::fmt::Debug::fmt(&self.0.peek(), f)
    }
}
impl<T> From<*mut T> for AtomicPtr<T> {
    fn from(p: *mut T) -> Self {
        Self::new(p)
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(::std::ptr::null_mut())
    }
}
