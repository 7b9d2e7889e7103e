//! Interposes the operating system's random source. The crates under test reach it through libc's
//! `syscall(SYS_getrandom, ..)`; the definition below takes precedence over libc's. A thread without
//! a controller gets the real system call. A thread with one gets a deterministic, logged and, on
//! request, faulty or bit-flipped stream.
use rand_chacha::ChaCha20Rng;
use rand_core::{RngCore, SeedableRng};
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    /// Faithful source
    None,
    /// Call `n` (0-based) fails once with this errno
    FailOnce(usize, i32),
    /// Every call from `n` on fails with this errno
    FailFrom(usize, i32),
    /// Deliver at most this many bytes per call
    Short(usize),
    /// Deliver pseudorandomly short reads and EINTRs, from this seed
    Flaky(u64),
    /// Every k-th call is interrupted
    Eintr(usize),
}

pub struct Ctl {
    rng: ChaCha20Rng,
    /// Every byte delivered, in order
    pub log: Vec<u8>,
    /// (offset, length) of every successful delivery
    pub reads: Vec<(usize, usize)>,
    pub calls: usize,
    pub faults: usize,
    pub fault: Fault,
    /// Bits of the stream to flip (bit index)
    pub flip: Option<usize>,
    /// Bytes delivered before those of the generator
    pub feed: Vec<u8>,
    flaky: u64,
    pending_eintr: bool,
}

thread_local! {
    static CTL: Cell<*mut Ctl> = const { Cell::new(std::ptr::null_mut()) };
}

/// One source of randomness, to be attached to the thread that works for its owner
pub struct Source(*mut Ctl);
unsafe impl Send for Source {}
impl Source {
    pub fn new(seed: [u8; 32]) -> Source {
        Source(fresh(seed))
    }
    /// Runs `f` with this source attached
    pub fn enter<T>(&self, f: impl FnOnce() -> T) -> T {
        struct Back(*mut Ctl);
        impl Drop for Back {
            fn drop(&mut self) {
                CTL.with(|x| x.set(self.0))
            }
        }
        let _b = Back(CTL.with(|x| x.replace(self.0)));
        f()
    }
}
impl Drop for Source {
    fn drop(&mut self) {
        unsafe { drop(Box::from_raw(self.0)) }
    }
}

thread_local! {
    static JITTER: Cell<u64> = const { Cell::new(0) };
}
/// Makes this thread give up its processor now and then, at allocations and requests for randomness
pub fn set_jitter(seed: u64) {
    JITTER.with(|j| j.set(seed))
}
pub fn jitter() {
    let _ = JITTER.try_with(|j| {
        let s = j.get();
        if s == 0 {
            return;
        }
        let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        j.set(s);
        match (s >> 33) % 64 {
            0 => unsafe {
                libc::usleep(((s >> 40) % 60) as u32);
            },
            1..=6 => unsafe {
                libc::sched_yield();
            },
            _ => {}
        }
    });
}

/// The same after an atomic operation, once in `often` of them and for longer
#[cfg(harness_jolts)]
pub fn jolt(often: u64) {
    let _ = JITTER.try_with(|j| {
        let s = j.get();
        if s == 0 {
            return;
        }
        let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
        j.set(s);
        if (s >> 33) % often == 0 {
            JOLTS.with(|n| n.set(n.get() + 1));
            unsafe {
                libc::usleep([1, 30, 150, 500][(s >> 50) as usize & 3]);
            }
        }
    });
}
thread_local! {
    static JOLTS: Cell<u64> = const { Cell::new(0) };
}
/// How often this thread was delayed so
pub fn jolts() -> u64 {
    JOLTS.with(|n| n.get())
}

pub struct Guard(*mut Ctl, *mut Ctl);

fn fresh(seed: [u8; 32]) -> *mut Ctl {
    Box::into_raw(Box::new(Ctl {
        rng: ChaCha20Rng::from_seed(seed),
        log: Vec::new(),
        reads: Vec::new(),
        calls: 0,
        faults: 0,
        fault: Fault::None,
        flip: None,
        feed: Vec::new(),
        flaky: 0,
        pending_eintr: false,
    }))
}

impl Guard {
    pub fn new(seed: [u8; 32]) -> Guard {
        let c = fresh(seed);
        let old = CTL.with(|x| x.replace(c));
        Guard(c, old)
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        CTL.with(|x| x.set(self.1));
        unsafe { drop(Box::from_raw(self.0)) }
    }
}

/// Runs `f` on this thread's controller
pub fn with<T>(f: impl FnOnce(&mut Ctl) -> T) -> T {
    CTL.with(|x| {
        let p = x.get();
        assert!(!p.is_null(), "no entropy controller on this thread");
        f(unsafe { &mut *p })
    })
}

/// Length of the log so far
pub fn mark() -> usize {
    with(|c| c.log.len())
}

pub fn since(m: usize) -> Vec<u8> {
    with(|c| c.log[m..].to_vec())
}

impl Ctl {
    pub fn set_fault(&mut self, f: Fault) {
        self.calls = 0;
        self.faults = 0;
        self.pending_eintr = false;
        if let Fault::Flaky(s) = f {
            self.flaky = s;
        }
        self.fault = f;
    }
    fn flaky_next(&mut self) -> u64 {
        // splitmix64
        self.flaky = self.flaky.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.flaky;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    unsafe fn serve(&mut self, buf: *mut u8, len: usize) -> Result<usize, i32> {
        let call = self.calls;
        self.calls += 1;
        let mut n = len;
        match self.fault.clone() {
            Fault::None => {}
            Fault::FailOnce(k, e) => {
                if call == k {
                    self.faults += 1;
                    return Err(e);
                }
            }
            Fault::FailFrom(k, e) => {
                if call >= k {
                    self.faults += 1;
                    return Err(e);
                }
            }
            Fault::Short(m) => {
                if n > m {
                    self.faults += 1;
                    n = m
                }
            }
            Fault::Flaky(_) => {
                let r = self.flaky_next();
                if r % 3 == 0 {
                    self.faults += 1;
                    return Err(libc::EINTR);
                }
                if n > 1 && r % 3 == 1 {
                    self.faults += 1;
                    n = 1 + ((r >> 8) as usize) % (n - 1);
                }
            }
            Fault::Eintr(k) => {
                if k > 0 && !self.pending_eintr && call % k == k - 1 {
                    self.pending_eintr = true;
                    self.faults += 1;
                    return Err(libc::EINTR);
                }
                self.pending_eintr = false;
            }
        }
        let out = std::slice::from_raw_parts_mut(buf, n);
        self.rng.fill_bytes_exact(out);
        let fed = self.feed.len().min(n);
        for (o, f) in out.iter_mut().zip(self.feed.drain(..fed)) {
            *o = f
        }
        if let Some(bit) = self.flip {
            let off = self.log.len();
            if bit / 8 >= off && bit / 8 < off + n {
                out[bit / 8 - off] ^= 1 << (bit % 8);
            }
        }
        self.reads.push((self.log.len(), n));
        self.log.extend_from_slice(out);
        Ok(n)
    }
}

trait FillExact {
    fn fill_bytes_exact(&mut self, out: &mut [u8]);
}
/// Byte-granular: the stream does not depend on how it is split over calls
impl FillExact for ChaCha20Rng {
    fn fill_bytes_exact(&mut self, out: &mut [u8]) {
        // ChaCha20Rng discards the rest of a 32-bit word after fill_bytes; one word per byte keeps
        // the stream independent of the chunking
        for b in out {
            *b = self.next_u32() as u8;
        }
    }
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    num: libc::c_long,
    a1: libc::c_long,
    a2: libc::c_long,
    a3: libc::c_long,
    a4: libc::c_long,
    a5: libc::c_long,
    a6: libc::c_long,
) -> libc::c_long {
    if num == libc::SYS_getrandom {
        let p = CTL.try_with(|x| x.get()).unwrap_or(std::ptr::null_mut());
        if !p.is_null() {
            jitter();
            return match (*p).serve(a1 as *mut u8, a2 as usize) {
                Ok(n) => n as libc::c_long,
                Err(e) => {
                    *libc::__errno_location() = e;
                    -1
                }
            };
        }
    }
    let ret: libc::c_long;
    core::arch::asm!(
        "syscall",
        inlateout("rax") num => ret,
        in("rdi") a1, in("rsi") a2, in("rdx") a3,
        in("r10") a4, in("r8") a5, in("r9") a6,
        out("rcx") _, out("r11") _,
        options(nostack)
    );
    if ret < 0 && ret > -4096 {
        *libc::__errno_location() = -ret as i32;
        return -1;
    }
    ret
}

/// Also the libc wrapper, in case code under test is changed to call it
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    syscall(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0) as isize
}

/// Whether the fallback devices work on a thread whose controller is faulty
pub static DEVICES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// While the controller of a thread is faulty, the fallback devices are not there either
unsafe fn open_at(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    let p = CTL.try_with(|x| x.get()).unwrap_or(std::ptr::null_mut());
    if !p.is_null() && !path.is_null() {
        let s = std::ffi::CStr::from_ptr(path).to_bytes();
        if (s == b"/dev/urandom" || s == b"/dev/random") && (*p).fault != Fault::None
            && !DEVICES.load(std::sync::atomic::Ordering::Relaxed)
        {
            (*p).faults += 1;
            *libc::__errno_location() = libc::ENOENT;
            return -1;
        }
    }
    syscall(libc::SYS_openat, dir as i64, path as i64, flags as i64, mode as i64, 0, 0) as libc::c_int
}
// (compilers check the signature of `open`, which is variadic; a jump has none)
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
core::arch::global_asm!(".globl open", ".type open, @function", "open:", "jmp verif_open");
#[no_mangle]
pub unsafe extern "C" fn verif_open(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    open_at(libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    open_at(d, path, flags, mode)
}

/// The caller-supplied generator handed to the protocols: deterministic, logged, bit-flippable
#[derive(Clone)]
pub struct HRng {
    inner: ChaCha20Rng,
    pub log: Vec<u8>,
    pub flip: Option<usize>,
}
impl HRng {
    pub fn new(seed: u64) -> HRng {
        HRng { inner: ChaCha20Rng::seed_from_u64(seed), log: Vec::new(), flip: None }
    }
}
impl RngCore for HRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, out: &mut [u8]) {
        jitter();
        let off = self.log.len();
        self.inner.fill_bytes_exact(out);
        if let Some(bit) = self.flip {
            if bit / 8 >= off && bit / 8 < off + out.len() {
                out[bit / 8 - off] ^= 1 << (bit % 8);
            }
        }
        self.log.extend_from_slice(out);
    }
    fn try_fill_bytes(&mut self, out: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(out);
        Ok(())
    }
}
impl rand_core::CryptoRng for HRng {}
