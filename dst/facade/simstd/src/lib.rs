//! `std` with every source of nondeterminism behind the simulator. The code under test is compiled with
//! `extern crate dam_sim_std as std`, so that `std::sync::Mutex` is the one below.
#![allow(clippy::all)]

#[doc(hidden)]
pub use dam_sim_core as __core;
pub use ::std::*;

pub mod sync;
pub mod thread;
pub mod time;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        dam_sim_core::yield_point(dam_sim_core::Op::Spin)
    }
}

pub mod panic {
    pub use ::std::panic::*;
    pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> crate::thread::Result<R> {
        dam_sim_core::catch(f)
    }
    pub fn resume_unwind(payload: Box<dyn ::std::any::Any + Send>) -> ! {
        dam_sim_core::resume(payload)
    }
}

#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block; $($rest:tt)*) => {
        $crate::thread_local!(@one [$(#[$a])*] $v $n $t, $e); $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = const $e:block) => {
        $crate::thread_local!(@one [$(#[$a])*] $v $n $t, $e);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        $crate::thread_local!(@one [$(#[$a])*] $v $n $t, $e); $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $v:vis static $n:ident : $t:ty = $e:expr) => {
        $crate::thread_local!(@one [$(#[$a])*] $v $n $t, $e);
    };
    (@one [$(#[$a:meta])*] $v:vis $n:ident $t:ty, $e:expr) => {
        $(#[$a])* $v static $n: $crate::thread::LocalKey<$t> = {
            fn __init() -> $t { $e }
            static __ID: u8 = 0;
            $crate::thread::LocalKey::__new(__init, &__ID)
        };
    };
}

#[macro_export]
macro_rules! print { ($($a:tt)*) => { $crate::__core::print(&$crate::format!($($a)*)) }; }
#[macro_export]
macro_rules! println {
    () => { $crate::__core::print("\n") };
    ($($a:tt)*) => { $crate::__core::print(&($crate::format!($($a)*) + "\n")) };
}
#[macro_export]
macro_rules! eprint { ($($a:tt)*) => { { let _ = $crate::format!($($a)*); } }; }
#[macro_export]
macro_rules! eprintln { () => {}; ($($a:tt)*) => { { let _ = $crate::format!($($a)*); } }; }
#[macro_export]
macro_rules! dbg {
    () => {};
    ($v:expr $(,)?) => { match $v { t => { let _ = $crate::format!("{:?}", &t); t } } };
    ($($v:expr),+ $(,)?) => { ($($crate::dbg!($v)),+,) };
}
