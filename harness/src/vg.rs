//! Requests to valgrind (no-ops outside it).
use std::arch::asm;

#[inline(never)]
pub fn request(code: usize, a: usize, b: usize, default: usize) -> usize {
    let args: [usize; 6] = [code, a, b, 0, 0, 0];
    let mut r = default;
    unsafe {
        asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, options(nostack)
        );
    }
    r
}
pub fn running() -> bool {
    request(0x1001, 0, 0, 0) != 0
}
/// Errors reported so far, repetitions included
pub fn errors() -> usize {
    request(0x1201, 0, 0, 0)
}
const MC: usize = 0x4d430000;
pub fn undefined(b: &[u8]) {
    request(MC + 1, b.as_ptr() as usize, b.len(), 0);
}
pub fn defined(b: &[u8]) {
    request(MC + 2, b.as_ptr() as usize, b.len(), 0);
}
/// Whether every byte is initialised, as the checker knows it (true outside it)
pub fn is_defined(b: &[u8]) -> bool {
    request(MC + 5, b.as_ptr() as usize, b.len(), 0) == 0
}
/// Quietly: the definedness bits of the bytes (0 means defined)
pub fn vbits(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0u8; b.len()];
    let args: [usize; 6] = [MC + 8, b.as_ptr() as usize, v.as_mut_ptr() as usize, b.len(), 0, 0];
    let mut r = 0usize;
    unsafe {
        asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r, options(nostack)
        );
    }
    let _ = r;
    v
}
