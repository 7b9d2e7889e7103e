//! A global allocator that can list what a piece of code allocated and left alive, so that a check
//! can look at everything a value consists of.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

const MAX: usize = 256;
struct Table {
    n: usize,
    v: [(usize, usize); MAX],
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: UnsafeCell<Table> = const { UnsafeCell::new(Table { n: 0, v: [(0, 0); MAX] }) };
}

pub struct Tracking;
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::entropy::jitter();
        let p = crate::gbuf::heap_alloc(l.size(), l.align()).unwrap_or_else(|| System.alloc(l));
        add(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = match crate::gbuf::heap_alloc(l.size(), l.align()) {
            Some(p) => {
                std::ptr::write_bytes(p, 0, l.size());
                p
            }
            None => System.alloc_zeroed(l),
        };
        add(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        remove(p);
        if !crate::gbuf::heap_free(p, l.size()) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        remove(p);
        let q = if crate::gbuf::heap_owns(p) || crate::gbuf::heap_on() {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            remove(q);
            q
        } else {
            System.realloc(p, l, n)
        };
        add(q, n);
        q
    }
}
fn add(p: *mut u8, n: usize) {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let _ = LIVE.try_with(|t| unsafe {
            let t = &mut *t.get();
            if t.n < MAX {
                t.v[t.n] = (p as usize, n);
                t.n += 1
            }
        });
    }
}
fn remove(p: *mut u8) {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let _ = LIVE.try_with(|t| unsafe {
            let t = &mut *t.get();
            if let Some(i) = t.v[..t.n].iter().position(|e| e.0 == p as usize) {
                t.n -= 1;
                t.v[i] = t.v[t.n];
            }
        });
    }
}

/// Makes a value and returns it with the bytes of everything it consists of
pub fn image<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    LIVE.with(|t| unsafe { (*t.get()).n = 0 });
    ON.with(|o| o.set(true));
    let v = f();
    ON.with(|o| o.set(false));
    let mut b = bytes_of(&v);
    LIVE.with(|t| unsafe {
        let t = &*t.get();
        for (p, n) in &t.v[..t.n] {
            b.extend(read(*p as *const u8, *n))
        }
    });
    (v, b)
}
pub fn bytes_of<T>(v: &T) -> Vec<u8> {
    unsafe { read(v as *const T as *const u8, std::mem::size_of::<T>()) }
}
unsafe fn read(p: *const u8, n: usize) -> Vec<u8> {
    (0..n).map(|i| p.add(i).read_volatile()).collect()
}

#[inline(never)]
fn paint(p: u8) {
    let mut a = [0u8; 1 << 16];
    for b in a.iter_mut() {
        unsafe { (b as *mut u8).write_volatile(p) }
    }
    std::hint::black_box(&a);
}
#[inline(never)]
fn clone_into<T: Clone>(v: &T, slot: *mut T) {
    unsafe { slot.write(v.clone()) }
}
/// The bytes that make up a value: a clone made over memory of a known pattern, once for each of two
/// patterns, so that padding (whatever happened to be in memory) drops out as zeros
pub fn clean_image<T: Clone>(v: &T) -> Vec<u8> {
    let mut imgs = vec![];
    for p in [0xa5u8, 0x5a] {
        let mut slot: Box<std::mem::MaybeUninit<T>> = Box::new(std::mem::MaybeUninit::uninit());
        let s = slot.as_mut_ptr();
        unsafe { std::ptr::write_bytes(s as *mut u8, p, std::mem::size_of::<T>()) };
        paint(p);
        let ((), heap) = image(|| clone_into(v, s));
        let mut b = unsafe { read(s as *const u8, std::mem::size_of::<T>()) };
        b.extend(heap);
        unsafe { std::ptr::drop_in_place(s) };
        imgs.push(b);
    }
    if imgs[0].len() != imgs[1].len() {
        return vec![];
    }
    imgs[0].iter().zip(&imgs[1]).map(|(a, b)| if a == b { *a } else { 0 }).collect()
}
