//! Delays at atomic operations, for the build under the race detector: it calls its runtime for each of them, and the
//! linker sends those calls here (-Wl,--wrap, see check.sh). What sits between two atomic operations, such as the
//! release and the next acquisition of a lock, becomes as long for the other threads as a whole operation.
use std::ffi::c_int;

macro_rules! wraps {
    ($($t:ty: $load:ident $store:ident $cmpval:ident $strong:ident $weak:ident [$($rmw:ident)*] real $rload:ident $rstore:ident $rcmpval:ident $rstrong:ident $rweak:ident [$($rrmw:ident)*];)*) => {$(
        extern "C" {
            fn $rload(p: *const $t, o: c_int) -> $t;
            fn $rstore(p: *mut $t, v: $t, o: c_int);
            fn $rcmpval(p: *mut $t, c: $t, v: $t, o: c_int, f: c_int) -> $t;
            fn $rstrong(p: *mut $t, c: *mut $t, v: $t, o: c_int, f: c_int) -> c_int;
            fn $rweak(p: *mut $t, c: *mut $t, v: $t, o: c_int, f: c_int) -> c_int;
            $(fn $rrmw(p: *mut $t, v: $t, o: c_int) -> $t;)*
        }
        #[no_mangle]
        unsafe extern "C" fn $load(p: *const $t, o: c_int) -> $t {
            let r = $rload(p, o);
            crate::entropy::jolt(256);
            r
        }
        #[no_mangle]
        unsafe extern "C" fn $store(p: *mut $t, v: $t, o: c_int) {
            $rstore(p, v, o);
            crate::entropy::jolt(16);
        }
        #[no_mangle]
        unsafe extern "C" fn $cmpval(p: *mut $t, c: $t, v: $t, o: c_int, f: c_int) -> $t {
            let r = $rcmpval(p, c, v, o, f);
            crate::entropy::jolt(32);
            r
        }
        #[no_mangle]
        unsafe extern "C" fn $strong(p: *mut $t, c: *mut $t, v: $t, o: c_int, f: c_int) -> c_int {
            let r = $rstrong(p, c, v, o, f);
            crate::entropy::jolt(32);
            r
        }
        #[no_mangle]
        unsafe extern "C" fn $weak(p: *mut $t, c: *mut $t, v: $t, o: c_int, f: c_int) -> c_int {
            let r = $rweak(p, c, v, o, f);
            crate::entropy::jolt(32);
            r
        }
        $(#[no_mangle]
        unsafe extern "C" fn $rmw(p: *mut $t, v: $t, o: c_int) -> $t {
            let r = $rrmw(p, v, o);
            crate::entropy::jolt(16);
            r
        })*
    )*};
}
wraps! {
    u8: __wrap___tsan_atomic8_load __wrap___tsan_atomic8_store __wrap___tsan_atomic8_compare_exchange_val __wrap___tsan_atomic8_compare_exchange_strong __wrap___tsan_atomic8_compare_exchange_weak
        [__wrap___tsan_atomic8_exchange __wrap___tsan_atomic8_fetch_add __wrap___tsan_atomic8_fetch_sub __wrap___tsan_atomic8_fetch_and __wrap___tsan_atomic8_fetch_or __wrap___tsan_atomic8_fetch_xor]
        real __real___tsan_atomic8_load __real___tsan_atomic8_store __real___tsan_atomic8_compare_exchange_val __real___tsan_atomic8_compare_exchange_strong __real___tsan_atomic8_compare_exchange_weak
        [__real___tsan_atomic8_exchange __real___tsan_atomic8_fetch_add __real___tsan_atomic8_fetch_sub __real___tsan_atomic8_fetch_and __real___tsan_atomic8_fetch_or __real___tsan_atomic8_fetch_xor];
    u16: __wrap___tsan_atomic16_load __wrap___tsan_atomic16_store __wrap___tsan_atomic16_compare_exchange_val __wrap___tsan_atomic16_compare_exchange_strong __wrap___tsan_atomic16_compare_exchange_weak
        [__wrap___tsan_atomic16_exchange __wrap___tsan_atomic16_fetch_add __wrap___tsan_atomic16_fetch_sub __wrap___tsan_atomic16_fetch_and __wrap___tsan_atomic16_fetch_or __wrap___tsan_atomic16_fetch_xor]
        real __real___tsan_atomic16_load __real___tsan_atomic16_store __real___tsan_atomic16_compare_exchange_val __real___tsan_atomic16_compare_exchange_strong __real___tsan_atomic16_compare_exchange_weak
        [__real___tsan_atomic16_exchange __real___tsan_atomic16_fetch_add __real___tsan_atomic16_fetch_sub __real___tsan_atomic16_fetch_and __real___tsan_atomic16_fetch_or __real___tsan_atomic16_fetch_xor];
    u32: __wrap___tsan_atomic32_load __wrap___tsan_atomic32_store __wrap___tsan_atomic32_compare_exchange_val __wrap___tsan_atomic32_compare_exchange_strong __wrap___tsan_atomic32_compare_exchange_weak
        [__wrap___tsan_atomic32_exchange __wrap___tsan_atomic32_fetch_add __wrap___tsan_atomic32_fetch_sub __wrap___tsan_atomic32_fetch_and __wrap___tsan_atomic32_fetch_or __wrap___tsan_atomic32_fetch_xor]
        real __real___tsan_atomic32_load __real___tsan_atomic32_store __real___tsan_atomic32_compare_exchange_val __real___tsan_atomic32_compare_exchange_strong __real___tsan_atomic32_compare_exchange_weak
        [__real___tsan_atomic32_exchange __real___tsan_atomic32_fetch_add __real___tsan_atomic32_fetch_sub __real___tsan_atomic32_fetch_and __real___tsan_atomic32_fetch_or __real___tsan_atomic32_fetch_xor];
    u64: __wrap___tsan_atomic64_load __wrap___tsan_atomic64_store __wrap___tsan_atomic64_compare_exchange_val __wrap___tsan_atomic64_compare_exchange_strong __wrap___tsan_atomic64_compare_exchange_weak
        [__wrap___tsan_atomic64_exchange __wrap___tsan_atomic64_fetch_add __wrap___tsan_atomic64_fetch_sub __wrap___tsan_atomic64_fetch_and __wrap___tsan_atomic64_fetch_or __wrap___tsan_atomic64_fetch_xor]
        real __real___tsan_atomic64_load __real___tsan_atomic64_store __real___tsan_atomic64_compare_exchange_val __real___tsan_atomic64_compare_exchange_strong __real___tsan_atomic64_compare_exchange_weak
        [__real___tsan_atomic64_exchange __real___tsan_atomic64_fetch_add __real___tsan_atomic64_fetch_sub __real___tsan_atomic64_fetch_and __real___tsan_atomic64_fetch_or __real___tsan_atomic64_fetch_xor];
}
