//! The only randomness the standard library takes from the system: the keys of its hash maps.
use std::sync::atomic::{AtomicU64, Ordering};

static STATE: AtomicU64 = AtomicU64::new(1);

pub fn seed(s: u64) {
    STATE.store(s, Ordering::Relaxed);
}

fn next() -> u64 {
    let z = STATE.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::Relaxed);
    let z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Takes the place of libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut i = 0;
    while i < len {
        let x = next().to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(x.as_ptr(), buf.add(i), n);
        i += n;
    }
    len as isize
}
