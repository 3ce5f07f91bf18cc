//! The generators the harness hands to the library.
use rand_core::{CryptoRng, Error, RngCore};

/// Delivers a fixed byte stream and fails when it is exhausted or at `fail_at`; with `once`
/// the failure there is passing.
#[derive(Clone)]
pub struct Scripted {
    pub data: Vec<u8>,
    pub pos: usize,
    pub fail_at: Option<usize>,
    pub once: bool,
    pub calls: u32,
    pub failed: u32,
}

impl Scripted {
    pub fn new(data: Vec<u8>, fail_at: Option<usize>, once: bool) -> Self {
        Self { data, pos: 0, fail_at, once, calls: 0, failed: 0 }
    }
    fn limit(&self) -> usize {
        self.fail_at.unwrap_or(self.data.len()).min(self.data.len())
    }
    /// What the request could deliver is delivered even when it fails.
    fn take(&mut self, dest: &mut [u8]) -> bool {
        self.calls += 1;
        let n = dest.len().min(self.limit().saturating_sub(self.pos));
        dest[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if n < dest.len() {
            self.failed += 1;
            if self.once {
                self.fail_at = None;
            }
        }
        n == dest.len()
    }
}

pub const RNG_PANIC: &str = "scripted generator failed";

impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if !self.take(dest) {
            panic!("{}", RNG_PANIC);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        if self.take(dest) {
            Ok(())
        } else {
            // a different reason at each position: custom and internal codes, EINTR, EAGAIN, EIO, ENOSYS
            let codes = [Error::CUSTOM_START + 7, 4, 11, 5, Error::INTERNAL_START + 2, 38, Error::CUSTOM_START];
            Err(Error::from(core::num::NonZeroU32::new(codes[(self.pos + self.data.len()) % codes.len()]).unwrap()))
        }
    }
}
impl CryptoRng for Scripted {}

/// splitmix64, for bulk runs
#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

/// The operating system's generator, replaced by a scripted one while `with_os` runs:
/// getrandom asks for bytes with libc's `syscall`, and this definition comes before libc's.
#[cfg(feature = "xw-os")]
pub mod os {
    use super::Scripted;
    use std::cell::RefCell;
    thread_local!(static OS: RefCell<Option<Scripted>> = const { RefCell::new(None) });
    extern "C" {
        fn __errno_location() -> *mut i32;
    }

    /// runs `f` with `r` in the place of the operating system's generator
    pub fn with_os<T>(r: &mut Scripted, f: impl FnOnce() -> T) -> T {
        OS.with(|o| *o.borrow_mut() = Some(r.clone()));
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *r = OS.with(|o| o.borrow_mut().take()).expect("harness: os generator");
        x.unwrap_or_else(|p| std::panic::resume_unwind(p))
    }

    #[cfg(target_arch = "x86_64")]
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
        const GETRANDOM: i64 = 318;
        if n == GETRANDOM && b > 0 {
            let got = OS.try_with(|o| {
                o.borrow_mut().as_mut().map(|r| r.take(core::slice::from_raw_parts_mut(a as *mut u8, b)))
            });
            match got {
                Ok(Some(true)) => return b as i64,
                Ok(Some(false)) => {
                    *__errno_location() = 5;
                    return -1;
                }
                _ => {}
            }
        }
        let r: i64;
        core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
        if (-4095..0).contains(&r) {
            *__errno_location() = -r as i32;
            return -1;
        }
        r
    }
}
