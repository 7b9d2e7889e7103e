//! Buffers with inaccessible memory right next to them, and a heap made of such buffers. Native and
//! optimised code is watched at full speed: the first byte beyond a buffer faults.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const PAGE: usize = 4096;
const CANARY: u8 = 0xC3;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    /// The last byte is the last one before inaccessible memory
    End,
    /// The first byte is the first one after inaccessible memory
    Start,
    /// Ends this many bytes before the inaccessible memory
    Before(usize),
    /// Starts this many bytes after the inaccessible memory
    After(usize),
}

pub struct GBuf {
    map: *mut u8,
    total: usize,
    pub ptr: *mut u8,
    pub len: usize,
}

impl GBuf {
    pub fn new(len: usize, place: Place) -> GBuf {
        let slack = match place {
            Place::Before(n) | Place::After(n) => n,
            _ => 0,
        };
        let data = (len + slack).max(1).next_multiple_of(PAGE);
        let total = data + 2 * PAGE;
        unsafe {
            let map = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(map as isize != -1, "no memory for a guarded buffer");
            let lo = map.add(PAGE);
            assert_eq!(libc::mprotect(lo as *mut _, data, libc::PROT_READ | libc::PROT_WRITE), 0);
            std::ptr::write_bytes(lo, CANARY, data);
            let off = match place {
                Place::End => data - len,
                Place::Start => 0,
                Place::Before(n) => data - len - n,
                Place::After(n) => n,
            };
            GBuf { map, total, ptr: lo.add(off), len }
        }
    }
    /// Filled and read-only from now on
    pub fn input(bytes: &[u8], place: Place) -> GBuf {
        let g = GBuf::new(bytes.len(), place);
        unsafe {
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), g.ptr, bytes.len());
            assert_eq!(libc::mprotect(g.map.add(PAGE) as *mut _, g.total - 2 * PAGE, libc::PROT_READ), 0);
        }
        g
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    /// Nothing beside the buffer was written
    pub fn intact(&self) -> bool {
        unsafe {
            let lo = self.map.add(PAGE);
            let n = self.total - 2 * PAGE;
            let all = std::slice::from_raw_parts(lo, n);
            let a = self.ptr as usize - lo as usize;
            all[..a].iter().chain(&all[a + self.len..]).all(|b| *b == CANARY)
        }
    }
}
impl Drop for GBuf {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut _, self.total);
        }
    }
}

// The guarded heap: a huge inaccessible region, handed out page-wise and never twice
const REGION: usize = 1 << 40;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static SERVED: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    /// 0: off, 1: blocks end at inaccessible memory, 2: blocks start after it
    static MODE: Cell<u8> = const { Cell::new(0) };
}

/// Reserves the region; without it the guarded heap stays off
pub fn heap_init() -> bool {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(), REGION, libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0,
        );
        if p == libc::MAP_FAILED {
            return false;
        }
        NEXT.store(0, Ordering::SeqCst);
        BASE.store(p as usize, Ordering::SeqCst);
        true
    }
}
pub fn heap_owns(p: *mut u8) -> bool {
    let base = BASE.load(Ordering::Relaxed);
    base != 0 && (p as usize) >= base && (p as usize) < base + REGION
}
pub fn heap_on() -> bool {
    MODE.try_with(|m| m.get()).unwrap_or(0) != 0
}
pub fn heap_served() -> usize {
    SERVED.load(Ordering::Relaxed)
}
/// Runs `f` with every allocation of this thread in the guarded heap
pub fn guarded<T>(mode: u8, f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            let _ = MODE.try_with(|m| m.set(0));
        }
    }
    let _off = Off;
    MODE.with(|m| m.set(if BASE.load(Ordering::Relaxed) != 0 { mode } else { 0 }));
    f()
}
pub fn heap_alloc(size: usize, align: usize) -> Option<*mut u8> {
    let base = BASE.load(Ordering::Relaxed);
    if base == 0 || align > PAGE {
        return None;
    }
    let mode = MODE.try_with(|m| m.get()).unwrap_or(0);
    if mode == 0 {
        return None;
    }
    let data = size.max(1).next_multiple_of(PAGE);
    let at = NEXT.fetch_add(data + PAGE, Ordering::Relaxed);
    if at + data + 2 * PAGE > REGION {
        return None;
    }
    let lo = base + at + PAGE;
    unsafe {
        if libc::mprotect(lo as *mut _, data, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            return None;
        }
        SERVED.fetch_add(1, Ordering::Relaxed);
        let off = if mode == 1 { (data - size) / align * align } else { 0 };
        // what is not written must not be relied upon
        std::ptr::write_bytes(lo as *mut u8, 0xD7, data);
        Some((lo + off) as *mut u8)
    }
}
/// Takes a block back, if it came from here; it stays inaccessible for good
pub fn heap_free(p: *mut u8, size: usize) -> bool {
    let base = BASE.load(Ordering::Relaxed);
    let a = p as usize;
    if base == 0 || a < base || a >= base + REGION {
        return false;
    }
    let lo = a / PAGE * PAGE;
    let data = size.max(1).next_multiple_of(PAGE);
    unsafe {
        libc::madvise(lo as *mut _, data, libc::MADV_DONTNEED);
        libc::mprotect(lo as *mut _, data, libc::PROT_NONE);
    }
    true
}
