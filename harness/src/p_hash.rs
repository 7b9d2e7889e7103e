//! C26: the bundled hash, XOF and stream code, both copies, against the standards.
use crate::core::*;
use crate::refs::{aes, keccak};
use crate::util::hex;
use libc::c_void;
use sha2::Digest;

type Ctx = *mut c_void;
type CCtx = *const c_void;

macro_rules! api {
    ($($f:ident ( $($t:ty),* ) -> $r:ty;)*) => {
        mod sys {
            use super::{Ctx, CCtx};
            #[link(name = "pqclean_common")]
            extern "C" { $(pub fn $f($(_: $t),*) -> $r;)* }
        }
        #[allow(non_snake_case)]
        pub struct Api { pub name: &'static str, $(pub $f: unsafe extern "C" fn($($t),*) -> $r,)* }
        impl Api {
            fn linked() -> Api {
                Api { name: "pqcrypto-internals", $($f: sys::$f,)* }
            }
            unsafe fn loaded(name: &'static str, h: *mut c_void) -> Result<Api, String> {
                Ok(Api { name, $($f: {
                    let p = libc::dlsym(h, concat!(stringify!($f), "\0").as_ptr().cast());
                    if p.is_null() {
                        return Err(format!("no symbol {}", stringify!($f)));
                    }
                    std::mem::transmute::<*mut c_void, unsafe extern "C" fn($($t),*) -> $r>(p)
                },)* })
            }
        }
    };
}
api! {
    shake128(*mut u8, usize, *const u8, usize) -> ();
    shake256(*mut u8, usize, *const u8, usize) -> ();
    sha3_256(*mut u8, *const u8, usize) -> ();
    sha3_384(*mut u8, *const u8, usize) -> ();
    sha3_512(*mut u8, *const u8, usize) -> ();
    shake128_absorb(Ctx, *const u8, usize) -> ();
    shake128_squeezeblocks(*mut u8, usize, Ctx) -> ();
    shake128_ctx_release(Ctx) -> ();
    shake128_ctx_clone(Ctx, CCtx) -> ();
    shake256_absorb(Ctx, *const u8, usize) -> ();
    shake256_squeezeblocks(*mut u8, usize, Ctx) -> ();
    shake256_ctx_release(Ctx) -> ();
    shake256_ctx_clone(Ctx, CCtx) -> ();
    shake128_inc_init(Ctx) -> ();
    shake128_inc_absorb(Ctx, *const u8, usize) -> ();
    shake128_inc_finalize(Ctx) -> ();
    shake128_inc_squeeze(*mut u8, usize, Ctx) -> ();
    shake128_inc_ctx_clone(Ctx, CCtx) -> ();
    shake128_inc_ctx_release(Ctx) -> ();
    shake256_inc_init(Ctx) -> ();
    shake256_inc_absorb(Ctx, *const u8, usize) -> ();
    shake256_inc_finalize(Ctx) -> ();
    shake256_inc_squeeze(*mut u8, usize, Ctx) -> ();
    shake256_inc_ctx_clone(Ctx, CCtx) -> ();
    shake256_inc_ctx_release(Ctx) -> ();
    sha3_256_inc_init(Ctx) -> ();
    sha3_256_inc_absorb(Ctx, *const u8, usize) -> ();
    sha3_256_inc_finalize(*mut u8, Ctx) -> ();
    sha3_256_inc_ctx_clone(Ctx, CCtx) -> ();
    sha3_256_inc_ctx_release(Ctx) -> ();
    sha3_384_inc_init(Ctx) -> ();
    sha3_384_inc_absorb(Ctx, *const u8, usize) -> ();
    sha3_384_inc_finalize(*mut u8, Ctx) -> ();
    sha3_384_inc_ctx_clone(Ctx, CCtx) -> ();
    sha3_384_inc_ctx_release(Ctx) -> ();
    sha3_512_inc_init(Ctx) -> ();
    sha3_512_inc_absorb(Ctx, *const u8, usize) -> ();
    sha3_512_inc_finalize(*mut u8, Ctx) -> ();
    sha3_512_inc_ctx_clone(Ctx, CCtx) -> ();
    sha3_512_inc_ctx_release(Ctx) -> ();
    cshake128_inc_init(Ctx, *const u8, usize, *const u8, usize) -> ();
    cshake128_inc_absorb(Ctx, *const u8, usize) -> ();
    cshake128_inc_finalize(Ctx) -> ();
    cshake128_inc_squeeze(*mut u8, usize, Ctx) -> ();
    cshake128_inc_ctx_release(Ctx) -> ();
    cshake128_inc_ctx_clone(Ctx, CCtx) -> ();
    cshake128(*mut u8, usize, *const u8, usize, *const u8, usize, *const u8, usize) -> ();
    cshake256_inc_init(Ctx, *const u8, usize, *const u8, usize) -> ();
    cshake256_inc_absorb(Ctx, *const u8, usize) -> ();
    cshake256_inc_finalize(Ctx) -> ();
    cshake256_inc_squeeze(*mut u8, usize, Ctx) -> ();
    cshake256_inc_ctx_release(Ctx) -> ();
    cshake256_inc_ctx_clone(Ctx, CCtx) -> ();
    cshake256(*mut u8, usize, *const u8, usize, *const u8, usize, *const u8, usize) -> ();
    sha224(*mut u8, *const u8, usize) -> ();
    sha224_inc_init(Ctx) -> ();
    sha224_inc_blocks(Ctx, *const u8, usize) -> ();
    sha224_inc_finalize(*mut u8, Ctx, *const u8, usize) -> ();
    sha224_inc_ctx_clone(Ctx, CCtx) -> ();
    sha224_inc_ctx_release(Ctx) -> ();
    sha256(*mut u8, *const u8, usize) -> ();
    sha256_inc_init(Ctx) -> ();
    sha256_inc_blocks(Ctx, *const u8, usize) -> ();
    sha256_inc_finalize(*mut u8, Ctx, *const u8, usize) -> ();
    sha256_inc_ctx_clone(Ctx, CCtx) -> ();
    sha256_inc_ctx_release(Ctx) -> ();
    sha384(*mut u8, *const u8, usize) -> ();
    sha384_inc_init(Ctx) -> ();
    sha384_inc_blocks(Ctx, *const u8, usize) -> ();
    sha384_inc_finalize(*mut u8, Ctx, *const u8, usize) -> ();
    sha384_inc_ctx_clone(Ctx, CCtx) -> ();
    sha384_inc_ctx_release(Ctx) -> ();
    sha512(*mut u8, *const u8, usize) -> ();
    sha512_inc_init(Ctx) -> ();
    sha512_inc_blocks(Ctx, *const u8, usize) -> ();
    sha512_inc_finalize(*mut u8, Ctx, *const u8, usize) -> ();
    sha512_inc_ctx_clone(Ctx, CCtx) -> ();
    sha512_inc_ctx_release(Ctx) -> ();
    aes128_ecb_keyexp(Ctx, *const u8) -> ();
    aes128_ctr_keyexp(Ctx, *const u8) -> ();
    aes128_ecb(*mut u8, *const u8, usize, CCtx) -> ();
    aes128_ctr(*mut u8, usize, *const u8, CCtx) -> ();
    aes128_ctx_release(Ctx) -> ();
    aes192_ecb_keyexp(Ctx, *const u8) -> ();
    aes192_ctr_keyexp(Ctx, *const u8) -> ();
    aes192_ecb(*mut u8, *const u8, usize, CCtx) -> ();
    aes192_ctr(*mut u8, usize, *const u8, CCtx) -> ();
    aes192_ctx_release(Ctx) -> ();
    aes256_ecb_keyexp(Ctx, *const u8) -> ();
    aes256_ctr_keyexp(Ctx, *const u8) -> ();
    aes256_ecb(*mut u8, *const u8, usize, CCtx) -> ();
    aes256_ctr(*mut u8, usize, *const u8, CCtx) -> ();
    aes256_ctx_release(Ctx) -> ();
    seedexpander_init(Ctx, *const u8, *const u8, usize) -> i32;
    seedexpander(Ctx, *mut u8, usize) -> i32;
    KeccakP1600times4_InitializeAll(Ctx) -> ();
    KeccakP1600times4_AddBytes(Ctx, u32, *const u8, u32, u32) -> ();
    KeccakP1600times4_AddLanesAll(Ctx, *const u8, u32, u32) -> ();
    KeccakP1600times4_OverwriteBytes(Ctx, u32, *const u8, u32, u32) -> ();
    KeccakP1600times4_OverwriteLanesAll(Ctx, *const u8, u32, u32) -> ();
    KeccakP1600times4_OverwriteWithZeroes(Ctx, u32, u32) -> ();
    KeccakP1600times4_PermuteAll_12rounds(Ctx) -> ();
    KeccakP1600times4_PermuteAll_24rounds(Ctx) -> ();
    KeccakP1600times4_ExtractBytes(CCtx, u32, *mut u8, u32, u32) -> ();
    KeccakP1600times4_ExtractLanesAll(CCtx, *mut u8, u32, u32) -> ();
    KeccakP1600times4_ExtractAndAddBytes(CCtx, u32, *const u8, *mut u8, u32, u32) -> ();
    KeccakP1600times4_ExtractAndAddLanesAll(CCtx, *const u8, *mut u8, u32, u32) -> ();
    KeccakF1600times4_FastLoop_Absorb(Ctx, u32, u32, u32, *const u8, usize) -> usize;
    KeccakP1600times4_12rounds_FastLoop_Absorb(Ctx, u32, u32, u32, *const u8, usize) -> usize;
}
#[link(name = "keccak4x")]
extern "C" {}

/// The linked copy and the one that check.sh built from pqclean/common
fn apis() -> &'static [Api] {
    static A: std::sync::OnceLock<Vec<Api>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut v = vec![Api::linked()];
        if let Ok(p) = std::env::var("HARNESS_HASH_COPY") {
            let p = std::ffi::CString::new(p).unwrap();
            unsafe {
                let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
                if h.is_null() {
                    eprintln!("cannot load {:?}: {:?}", p, std::ffi::CStr::from_ptr(libc::dlerror()));
                    std::process::exit(2);
                }
                match Api::loaded("pqclean/common", h) {
                    Ok(a) => v.push(a),
                    Err(e) => {
                        eprintln!("{:?}: {}", p, e);
                        std::process::exit(2);
                    }
                }
            }
        }
        v
    })
}

/// A context of unknown layout, large enough for any of them and surrounded by canaries
#[repr(C, align(64))]
struct Space {
    body: [u64; 160],
    guard: [u64; 8],
}
impl Space {
    fn new() -> Box<Space> {
        Box::new(Space { body: [0xC3C3C3C3C3C3C3C3; 160], guard: [0xC3C3C3C3C3C3C3C3; 8] })
    }
    fn p(&mut self) -> Ctx {
        self.body.as_mut_ptr().cast()
    }
    fn c(&self) -> CCtx {
        self.body.as_ptr().cast()
    }
}

/// An output buffer with canaries
struct Out(Vec<u8>, usize);
impl Out {
    fn new(n: usize) -> Out {
        let mut v = vec![0xC3; n + 32];
        v[..n].fill(0x3C);
        Out(v, n)
    }
    fn p(&mut self) -> *mut u8 {
        self.0.as_mut_ptr()
    }
    fn take(mut self) -> Vec<u8> {
        assert!(self.0[self.1..].iter().all(|b| *b == 0xC3), "output written beyond its length");
        self.0.truncate(self.1);
        self.0
    }
}

#[derive(Clone, Copy)]
struct Fun {
    name: &'static str,
    rate: usize,
    /// Fixed output length, 0 for XOFs
    out: usize,
    kind: Kind,
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Shake,
    Cshake,
    Sha3,
    Sha2,
}
const FUNS: [Fun; 11] = [
    Fun { name: "shake128", rate: 168, out: 0, kind: Kind::Shake },
    Fun { name: "shake256", rate: 136, out: 0, kind: Kind::Shake },
    Fun { name: "cshake128", rate: 168, out: 0, kind: Kind::Cshake },
    Fun { name: "cshake256", rate: 136, out: 0, kind: Kind::Cshake },
    Fun { name: "sha3_256", rate: 136, out: 32, kind: Kind::Sha3 },
    Fun { name: "sha3_384", rate: 104, out: 48, kind: Kind::Sha3 },
    Fun { name: "sha3_512", rate: 72, out: 64, kind: Kind::Sha3 },
    Fun { name: "sha224", rate: 64, out: 28, kind: Kind::Sha2 },
    Fun { name: "sha256", rate: 64, out: 32, kind: Kind::Sha2 },
    Fun { name: "sha384", rate: 128, out: 48, kind: Kind::Sha2 },
    Fun { name: "sha512", rate: 128, out: 64, kind: Kind::Sha2 },
];

fn left_encode(v: usize) -> Vec<u8> {
    let b: Vec<u8> = v.to_be_bytes().into_iter().skip_while(|b| *b == 0).collect();
    let b = if b.is_empty() { vec![0] } else { b };
    [vec![b.len() as u8], b].concat()
}
/// bytepad(encode_string(N) || encode_string(S), rate)
fn cshake_prefix(rate: usize, n: &[u8], s: &[u8]) -> Vec<u8> {
    let mut v = [left_encode(rate), left_encode(8 * n.len()), n.to_vec(), left_encode(8 * s.len()), s.to_vec()].concat();
    while v.len() % rate != 0 {
        v.push(0)
    }
    v
}
fn standard(f: &Fun, n: &[u8], s: &[u8], m: &[u8], out: usize) -> Vec<u8> {
    match f.kind {
        Kind::Shake => keccak::sponge(f.rate, 0x1f, m, out),
        Kind::Cshake => keccak::sponge(f.rate, 0x04, &[&cshake_prefix(f.rate, n, s), m].concat(), out),
        Kind::Sha3 => keccak::sponge(f.rate, 0x06, m, f.out),
        Kind::Sha2 => match f.out {
            28 => sha2::Sha224::digest(m).to_vec(),
            32 => sha2::Sha256::digest(m).to_vec(),
            48 => sha2::Sha384::digest(m).to_vec(),
            _ => sha2::Sha512::digest(m).to_vec(),
        },
    }
}
fn once(a: &Api, f: &Fun, n: &[u8], s: &[u8], m: &[u8], out: usize) -> Vec<u8> {
    let mut o = Out::new(if f.out > 0 { f.out } else { out });
    let (p, l) = (m.as_ptr(), m.len());
    unsafe {
        match f.name {
            "shake128" => (a.shake128)(o.p(), out, p, l),
            "shake256" => (a.shake256)(o.p(), out, p, l),
            "cshake128" => (a.cshake128)(o.p(), out, n.as_ptr(), n.len(), s.as_ptr(), s.len(), p, l),
            "cshake256" => (a.cshake256)(o.p(), out, n.as_ptr(), n.len(), s.as_ptr(), s.len(), p, l),
            "sha3_256" => (a.sha3_256)(o.p(), p, l),
            "sha3_384" => (a.sha3_384)(o.p(), p, l),
            "sha3_512" => (a.sha3_512)(o.p(), p, l),
            "sha224" => (a.sha224)(o.p(), p, l),
            "sha256" => (a.sha256)(o.p(), p, l),
            "sha384" => (a.sha384)(o.p(), p, l),
            _ => (a.sha512)(o.p(), p, l),
        }
    }
    o.take()
}

/// The incremental interface of one function, one state
struct Inc<'a> {
    a: &'a Api,
    f: Fun,
    s: Box<Space>,
    /// What the state has absorbed, and what it still has to be given at the end (SHA-2 takes whole blocks)
    fed: Vec<u8>,
    at: usize,
    squeezed: Option<Vec<u8>>,
    n: Vec<u8>,
    c: Vec<u8>,
}
macro_rules! by_name {
    ($s:expr, $suffix:ident, $($x:expr),*) => {
        paste_call!($s, $suffix, [$($x),*])
    };
}
macro_rules! paste_call {
    ($s:expr, inc_init, [$($x:expr),*]) => { match $s.f.name {
        "shake128" => ($s.a.shake128_inc_init)($($x),*), "shake256" => ($s.a.shake256_inc_init)($($x),*),
        "sha3_256" => ($s.a.sha3_256_inc_init)($($x),*), "sha3_384" => ($s.a.sha3_384_inc_init)($($x),*), "sha3_512" => ($s.a.sha3_512_inc_init)($($x),*),
        "sha224" => ($s.a.sha224_inc_init)($($x),*), "sha256" => ($s.a.sha256_inc_init)($($x),*), "sha384" => ($s.a.sha384_inc_init)($($x),*), "sha512" => ($s.a.sha512_inc_init)($($x),*),
        _ => unreachable!() } };
    ($s:expr, absorb, [$($x:expr),*]) => { match $s.f.name {
        "shake128" => ($s.a.shake128_inc_absorb)($($x),*), "shake256" => ($s.a.shake256_inc_absorb)($($x),*),
        "cshake128" => ($s.a.cshake128_inc_absorb)($($x),*), "cshake256" => ($s.a.cshake256_inc_absorb)($($x),*),
        "sha3_256" => ($s.a.sha3_256_inc_absorb)($($x),*), "sha3_384" => ($s.a.sha3_384_inc_absorb)($($x),*), "sha3_512" => ($s.a.sha3_512_inc_absorb)($($x),*),
        "sha224" => ($s.a.sha224_inc_blocks)($($x),*), "sha256" => ($s.a.sha256_inc_blocks)($($x),*), "sha384" => ($s.a.sha384_inc_blocks)($($x),*), "sha512" => ($s.a.sha512_inc_blocks)($($x),*),
        _ => unreachable!() } };
    ($s:expr, clone, [$($x:expr),*]) => { match $s.f.name {
        "shake128" => ($s.a.shake128_inc_ctx_clone)($($x),*), "shake256" => ($s.a.shake256_inc_ctx_clone)($($x),*),
        "cshake128" => ($s.a.cshake128_inc_ctx_clone)($($x),*), "cshake256" => ($s.a.cshake256_inc_ctx_clone)($($x),*),
        "sha3_256" => ($s.a.sha3_256_inc_ctx_clone)($($x),*), "sha3_384" => ($s.a.sha3_384_inc_ctx_clone)($($x),*), "sha3_512" => ($s.a.sha3_512_inc_ctx_clone)($($x),*),
        "sha224" => ($s.a.sha224_inc_ctx_clone)($($x),*), "sha256" => ($s.a.sha256_inc_ctx_clone)($($x),*), "sha384" => ($s.a.sha384_inc_ctx_clone)($($x),*), "sha512" => ($s.a.sha512_inc_ctx_clone)($($x),*),
        _ => unreachable!() } };
    ($s:expr, release, [$($x:expr),*]) => { match $s.f.name {
        "shake128" => ($s.a.shake128_inc_ctx_release)($($x),*), "shake256" => ($s.a.shake256_inc_ctx_release)($($x),*),
        "cshake128" => ($s.a.cshake128_inc_ctx_release)($($x),*), "cshake256" => ($s.a.cshake256_inc_ctx_release)($($x),*),
        "sha3_256" => ($s.a.sha3_256_inc_ctx_release)($($x),*), "sha3_384" => ($s.a.sha3_384_inc_ctx_release)($($x),*), "sha3_512" => ($s.a.sha3_512_inc_ctx_release)($($x),*),
        "sha224" => ($s.a.sha224_inc_ctx_release)($($x),*), "sha256" => ($s.a.sha256_inc_ctx_release)($($x),*), "sha384" => ($s.a.sha384_inc_ctx_release)($($x),*), "sha512" => ($s.a.sha512_inc_ctx_release)($($x),*),
        _ => unreachable!() } };
    ($s:expr, squeeze, [$($x:expr),*]) => { match $s.f.name {
        "shake128" => ($s.a.shake128_inc_squeeze)($($x),*), "shake256" => ($s.a.shake256_inc_squeeze)($($x),*),
        "cshake128" => ($s.a.cshake128_inc_squeeze)($($x),*), "cshake256" => ($s.a.cshake256_inc_squeeze)($($x),*),
        _ => unreachable!() } };
}
impl<'a> Inc<'a> {
    fn new(a: &'a Api, f: Fun, n: &[u8], c: &[u8]) -> Inc<'a> {
        let mut s = Space::new();
        unsafe {
            match f.name {
                "cshake128" => (a.cshake128_inc_init)(s.p(), n.as_ptr(), n.len(), c.as_ptr(), c.len()),
                "cshake256" => (a.cshake256_inc_init)(s.p(), n.as_ptr(), n.len(), c.as_ptr(), c.len()),
                _ => {
                    let x = Inc { a, f, s: Space::new(), fed: vec![], at: 0, squeezed: None, n: vec![], c: vec![] };
                    by_name!(x, inc_init, s.p());
                }
            }
        }
        Inc { a, f, s, fed: vec![], at: 0, squeezed: None, n: n.to_vec(), c: c.to_vec() }
    }
    fn absorb(&mut self, m: &[u8]) {
        assert!(self.squeezed.is_none());
        self.fed.extend(m);
        unsafe {
            if self.f.kind == Kind::Sha2 {
                let blocks = (self.fed.len() - self.at) / self.f.rate;
                if blocks > 0 || m.is_empty() {
                    let p = self.fed[self.at..].as_ptr();
                    by_name!(self, absorb, self.s.p(), p, blocks);
                    self.at += blocks * self.f.rate;
                }
            } else {
                by_name!(self, absorb, self.s.p(), m.as_ptr(), m.len());
            }
        }
    }
    fn fork(&self) -> Inc<'a> {
        let mut s = Space::new();
        unsafe { by_name!(self, clone, s.p(), self.s.c()) }
        Inc { s, fed: self.fed.clone(), squeezed: self.squeezed.clone(), n: self.n.clone(), c: self.c.clone(), ..*self }
    }
    fn release(mut self) {
        unsafe { by_name!(self, release, self.s.p()) }
        assert!(self.s.guard == [0xC3C3C3C3C3C3C3C3; 8]);
    }
    /// Ends absorbing. Fixed-length functions give their digest and are released.
    fn finish(mut self) -> Result<Inc<'a>, (Vec<u8>, Vec<u8>)> {
        unsafe {
            match self.f.name {
                "shake128" => (self.a.shake128_inc_finalize)(self.s.p()),
                "shake256" => (self.a.shake256_inc_finalize)(self.s.p()),
                "cshake128" => (self.a.cshake128_inc_finalize)(self.s.p()),
                "cshake256" => (self.a.cshake256_inc_finalize)(self.s.p()),
                n => {
                    let mut o = Out::new(self.f.out);
                    let rest = self.fed[self.at..].to_vec();
                    let (p, l) = (rest.as_ptr(), rest.len());
                    match n {
                        "sha3_256" => (self.a.sha3_256_inc_finalize)(o.p(), self.s.p()),
                        "sha3_384" => (self.a.sha3_384_inc_finalize)(o.p(), self.s.p()),
                        "sha3_512" => (self.a.sha3_512_inc_finalize)(o.p(), self.s.p()),
                        "sha224" => (self.a.sha224_inc_finalize)(o.p(), self.s.p(), p, l),
                        "sha256" => (self.a.sha256_inc_finalize)(o.p(), self.s.p(), p, l),
                        "sha384" => (self.a.sha384_inc_finalize)(o.p(), self.s.p(), p, l),
                        _ => (self.a.sha512_inc_finalize)(o.p(), self.s.p(), p, l),
                    }
                    return Err((o.take(), self.fed));
                }
            }
        }
        self.squeezed = Some(vec![]);
        Ok(self)
    }
    fn squeeze(&mut self, n: usize) {
        let mut o = Out::new(n);
        unsafe { by_name!(self, squeeze, o.p(), n, self.s.p()) }
        self.squeezed.as_mut().unwrap().extend(o.take());
    }
}

fn input(c: &mut Case, n: usize) -> Vec<u8> {
    match c.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => c.vec(n),
    }
}
/// Chunk sizes around multiples of the rate and small ones
fn chunk(c: &mut Case, rate: usize) -> usize {
    match c.below(7) {
        0 => 0,
        1 => 1,
        2 => c.below(9),
        3 => rate + c.below(3) - 1,
        4 => rate * (1 + c.below(3)) + c.below(3) - 1,
        5 => c.below(2 * rate),
        _ => c.below(rate),
    }
}
fn strings(c: &mut Case, f: &Fun) -> (Vec<u8>, Vec<u8>) {
    if f.kind != Kind::Cshake {
        return (vec![], vec![]);
    }
    let l = |c: &mut Case| match c.below(5) {
        0 => 0,
        1 => c.below(8),
        2 => 31 + c.below(3),
        // makes the padded prefix end exactly at, or just around, a block boundary
        3 => f.rate - 6 + c.below(6),
        _ => c.below(9000),
    };
    let n = if c.chance(1, 2) { 0 } else { l(c) };
    let s = l(c).max(1);
    let n = input(c, n);
    (n, input(c, s))
}

pub fn c26(th: bool) -> Plan {
    let x = move |q: usize, t: usize| if th { t } else { q };
    let mut groups = vec![];
    for f in FUNS {
        groups.push(group(format!("lengths {}", f.name), x(700, 4000), move |c| {
            let i = c.idx;
            let len = if i < 600 { i } else { c.below(20000) };
            let m = input(c, len);
            let (n, s) = strings(c, &f);
            let out = if f.out > 0 {
                f.out
            } else {
                match c.below(4) {
                    0 => i % 600,
                    1 => f.rate * c.below(5) + c.below(3),
                    _ => c.below(800),
                }
            };
            let want = standard(&f, &n, &s, &m, out);
            c.nontrivial(&[f.name.as_bytes(), &want].concat());
            for a in apis() {
                c.eval();
                c.count("one-shot values compared");
                let g = guard(|| once(a, &f, &n, &s, &m, out));
                c.check(g.as_ref() == Ok(&want), "a one-shot value is not the standard's", || {
                    format!("{} {}: input of {} bytes {}, name {} custom {}, output of {}: {:?} instead of {}", a.name, f.name, len, hex(&m), hex(&n), hex(&s), out, g.as_ref().map(|x| hex(x)), hex(&want))
                });
            }
            if i == 3 {
                c.sample(|| format!("{}({}) = {}", f.name, hex(&m), hex(&want)));
            }
        }));
        groups.push(group(format!("incremental {}", f.name), x(500, 8000), move |c| {
            for a in apis() {
                let (n, s) = strings(c, &f);
                // a tree of states that fork while absorbing and while squeezing
                let mut live = vec![Inc::new(a, f, &n, &s)];
                let mut done: Vec<Inc> = vec![];
                let mut digests = vec![];
                let steps = 3 + c.below(14);
                for _ in 0..steps {
                    if live.is_empty() {
                        break;
                    }
                    let k = c.below(live.len());
                    match c.below(8) {
                        0 if live.len() < 5 => {
                            let y = live[k].fork();
                            live.push(y);
                            c.count("states cloned while absorbing");
                        }
                        1 => {
                            let y = live.swap_remove(k);
                            match y.finish() {
                                Ok(d) => done.push(d),
                                Err(d) => digests.push(d),
                            }
                        }
                        2 if live.len() > 1 => {
                            live.swap_remove(k).release();
                            c.count("states released early");
                        }
                        _ => {
                            let l = chunk(c, f.rate);
                            let m = input(c, l);
                            live[k].absorb(&m);
                        }
                    }
                }
                for y in live {
                    match y.finish() {
                        Ok(d) => done.push(d),
                        Err(d) => digests.push(d),
                    }
                }
                for _ in 0..steps {
                    if done.is_empty() {
                        break;
                    }
                    let k = c.below(done.len());
                    if c.chance(1, 6) && done.len() < 8 {
                        let y = done[k].fork();
                        done.push(y);
                        c.count("states cloned while squeezing");
                    } else {
                        let l = chunk(c, f.rate);
                        done[k].squeeze(l);
                    }
                }
                for (d, fed) in digests {
                    c.eval();
                    c.count("incremental values compared");
                    let want = standard(&f, &n, &s, &fed, f.out);
                    c.nontrivial(&[f.name.as_bytes(), &want].concat());
                    c.check(d == want, "an incremental value is not the standard's", || format!("{} {} of {} bytes {}: {} instead of {}", a.name, f.name, fed.len(), hex(&fed), hex(&d), hex(&want)));
                }
                for y in done {
                    let got = y.squeezed.clone().unwrap();
                    c.eval();
                    c.count("incremental values compared");
                    let want = standard(&f, &n, &s, &y.fed, got.len());
                    c.nontrivial(&[f.name.as_bytes(), &want, &y.fed].concat());
                    c.check(got == want, "an incremental value is not the standard's", || {
                        format!("{} {} of {} bytes {}, name {} custom {}, output of {}: {} instead of {}", a.name, f.name, y.fed.len(), hex(&y.fed), hex(&n), hex(&s), got.len(), hex(&got), hex(&want))
                    });
                    y.release();
                }
            }
        }));
    }
    for (rate, name) in [(168usize, "shake128"), (136, "shake256")] {
        groups.push(group(format!("blocks {}", name), x(400, 6000), move |c| {
            let l = if c.idx < 350 { c.idx } else { c.below(3000) };
            let m = input(c, l);
            for a in apis() {
                let (abs, sq, rel, cl) = if rate == 168 {
                    (a.shake128_absorb, a.shake128_squeezeblocks, a.shake128_ctx_release, a.shake128_ctx_clone)
                } else {
                    (a.shake256_absorb, a.shake256_squeezeblocks, a.shake256_ctx_release, a.shake256_ctx_clone)
                };
                let (mut s, mut t) = (Space::new(), Space::new());
                unsafe {
                    abs(s.p(), m.as_ptr(), m.len());
                    let mut got = vec![];
                    for _ in 0..c.below(4) {
                        let n = c.below(4);
                        let mut o = Out::new(n * rate);
                        sq(o.p(), n, s.p());
                        got.extend(o.take());
                    }
                    cl(t.p(), s.c());
                    let mut got2 = got.clone();
                    for (g, st) in [(&mut got, &mut s), (&mut got2, &mut t)] {
                        let n = 1 + c.below(3);
                        let mut o = Out::new(n * rate);
                        sq(o.p(), n, st.p());
                        g.extend(o.take());
                    }
                    rel(s.p());
                    let mut o = Out::new(rate);
                    sq(o.p(), 1, t.p());
                    got2.extend(o.take());
                    rel(t.p());
                    for g in [got, got2] {
                        c.eval();
                        c.count("block values compared");
                        let want = keccak::sponge(rate, 0x1f, &m, g.len());
                        c.nontrivial(&[name.as_bytes(), &want[..]].concat());
                        c.check(g == want, "a block-wise value is not the standard's", || format!("{} {} of {}: {} bytes {} instead of {}", a.name, name, hex(&m), g.len(), hex(&g), hex(&want)));
                    }
                }
            }
        }));
    }
    groups.push(group("aes", x(600, 10000), move |c| {
        for a in apis() {
            for (kl, exp_e, exp_c, ecb, ctr, rel) in [
                (16, a.aes128_ecb_keyexp, a.aes128_ctr_keyexp, a.aes128_ecb, a.aes128_ctr, a.aes128_ctx_release),
                (24, a.aes192_ecb_keyexp, a.aes192_ctr_keyexp, a.aes192_ecb, a.aes192_ctr, a.aes192_ctx_release),
                (32, a.aes256_ecb_keyexp, a.aes256_ctr_keyexp, a.aes256_ecb, a.aes256_ctr, a.aes256_ctx_release),
            ] {
                let key = input(c, kl);
                let r = aes::Aes::new(&key);
                let nb = c.idx % 20;
                let m = input(c, nb * 16);
                let (mut s, mut t) = (Space::new(), Space::new());
                unsafe {
                    exp_e(s.p(), key.as_ptr());
                    exp_c(t.p(), key.as_ptr());
                    let mut o = Out::new(m.len());
                    ecb(o.p(), m.as_ptr(), nb, s.c());
                    let got = o.take();
                    let want: Vec<u8> = m.chunks(16).flat_map(|b| r.block(b.try_into().unwrap())).collect();
                    c.eval();
                    c.count("AES values compared");
                    c.nontrivial(&[&key[..], &want].concat());
                    c.check(got == want, "AES-ECB is not the standard's", || format!("{} AES-{} key {} input {}: {} instead of {}", a.name, 8 * kl, hex(&key), hex(&m), hex(&got), hex(&want)));
                    // long streams carry into the second and third byte of the counter
                    let n = match c.idx {
                        0 => 64 * 65536 / 4 + 40,
                        i if i < 8 => 16 * 255 + c.below(64),
                        _ => c.below(700),
                    };
                    let iv: [u8; 12] = input(c, 12).try_into().unwrap();
                    let mut o = Out::new(n);
                    ctr(o.p(), n, iv.as_ptr(), t.c());
                    let got = o.take();
                    let want = r.ctr(&iv, n);
                    c.eval();
                    c.count("AES values compared");
                    c.check(got == want, "AES-CTR is not the standard's", || {
                        let d = got.iter().zip(&want).position(|(x, y)| x != y);
                        format!("{} AES-{} key {} iv {}: {} bytes, first difference at {:?}", a.name, 8 * kl, hex(&key), hex(&iv), n, d)
                    });
                    // the same schedule again, shorter
                    let k = c.below(n + 1);
                    let mut o = Out::new(k);
                    ctr(o.p(), k, iv.as_ptr(), t.c());
                    c.check(o.take() == want[..k], "AES-CTR is not the standard's", || format!("{} AES-{} again with {} bytes", a.name, 8 * kl, k));
                    rel(s.p());
                    rel(t.p());
                }
                c.check(s.guard == [0xC3C3C3C3C3C3C3C3; 8] && t.guard == s.guard, "an AES state is written beyond its size", || a.name.into());
            }
        }
    }));
    groups.push(group("seed expander", x(400, 8000), move |c| {
        for a in apis() {
            let (seed, div) = (c.bytes32(), c.u64().to_le_bytes());
            let max = match c.below(4) {
                0 => c.below(300),
                1 => 65536 + c.below(100),
                2 => 0xffff_ffff,
                _ => c.below(5000),
            };
            let mut s = Space::new();
            let r = unsafe { (a.seedexpander_init)(s.p(), seed.as_ptr(), div.as_ptr(), max) };
            c.check(r == 0, "the seed expander does not start", || format!("{} {}", a.name, r));
            let key = aes::Aes::new(&seed);
            let mut left = max;
            let mut got = vec![];
            for _ in 0..12 {
                let n = match c.below(6) {
                    0 => 0,
                    1 => 16,
                    2 => left.min(3000),
                    3 => left.saturating_sub(1).min(3000),
                    4 => left.saturating_add(1 + c.below(5)),
                    _ => c.below(100),
                };
                let cap = n.min(5000);
                let mut o = Out::new(cap);
                let ok = n < left;
                if n > cap && ok {
                    continue;
                }
                let r = unsafe { (a.seedexpander)(s.p(), o.p(), n) };
                let o = o.take();
                c.eval();
                c.count("seed expander calls");
                c.check(r == if ok { 0 } else { -3 }, "the seed expander misjudges its remaining length", || format!("{} max {} left {} asked {}: {}", a.name, max, left, n, r));
                if ok {
                    got.extend(o);
                    left -= n;
                } else {
                    c.check(o.iter().all(|b| *b == 0x3C), "a refused request is answered", || a.name.into());
                }
                if c.chance(1, 5) {
                    let r = unsafe { (a.seedexpander)(s.p(), std::ptr::null_mut(), n) };
                    c.check(r == -2, "the seed expander accepts no buffer", || format!("{} {}", a.name, r));
                }
            }
            let mut want = vec![];
            let mut i = 0u32;
            while want.len() < got.len() {
                let mut b = [0; 16];
                b[..8].copy_from_slice(&div);
                b[8..12].copy_from_slice(&(max as u32).to_be_bytes());
                b[12..].copy_from_slice(&i.to_be_bytes());
                want.extend(key.block(&b));
                i += 1;
            }
            want.truncate(got.len());
            c.nontrivial(&[&seed[..], &got].concat());
            c.check(got == want, "the seed expander's stream is not the specification's", || format!("{} seed {} div {} max {}: {} instead of {}", a.name, hex(&seed), hex(&div), max, hex(&got), hex(&want)));
        }
        if c.idx < 3 {
            // counters beyond one and two bytes
            for a in apis() {
                let seed = c.bytes32();
                let n = 16 * (70000 + c.below(10));
                let mut s = Space::new();
                let mut o = Out::new(n);
                let r = unsafe {
                    (a.seedexpander_init)(s.p(), seed.as_ptr(), [7u8; 8].as_ptr(), n + 1);
                    (a.seedexpander)(s.p(), o.p(), n)
                };
                let key = aes::Aes::new(&seed);
                let got = o.take();
                let bad = (0..n / 16).find(|i| {
                    let mut b = [7; 16];
                    b[8..12].copy_from_slice(&((n + 1) as u32).to_be_bytes());
                    b[12..].copy_from_slice(&(*i as u32).to_be_bytes());
                    key.block(&b) != got[16 * i..16 * i + 16]
                });
                c.eval();
                c.check(r == 0 && bad.is_none(), "the seed expander's stream is not the specification's", || format!("{} at block {:?}", a.name, bad));
            }
        }
    }));
    groups.push(group("seed expander counter", 1, move |c| {
        // the counter carries over three of its bytes; only the blocks around the carry are compared
        let a = &apis()[c.idx % apis().len()];
        let seed = c.bytes32();
        let mut s = Space::new();
        let piece = 16 << 12;
        let mut o = vec![0u8; piece];
        let key = aes::Aes::new(&seed);
        unsafe { (a.seedexpander_init)(s.p(), seed.as_ptr(), [9u8; 8].as_ptr(), 0xffff_ffff) };
        for n in 0..(1u32 << 12) + 2 {
            let r = unsafe { (a.seedexpander)(s.p(), o.as_mut_ptr(), piece) };
            if n % 256 < 255 && n % 256 > 1 {
                continue;
            }
            c.eval();
            let bad = (0..1u32 << 12).step_by(if n & 0xfff == 0xfff || n & 0xfff < 2 { 1 } else { 97 }).find(|i| {
                let mut b = [9; 16];
                b[8..12].fill(0xff);
                b[12..].copy_from_slice(&((n << 12) + i).to_be_bytes());
                key.block(&b) != o[16 * *i as usize..][..16]
            });
            c.check(r == 0 && bad.is_none(), "the seed expander's stream is not the specification's", || format!("{} at block {:?} of piece {}", a.name, bad, n));
        }
        c.nontrivial(&o);
    }));
    if crate::kem::have_avx2() {
        groups.push(group("4-way state", x(1500, 30000), move |c| {
            for a in apis() {
                four_way(c, a)
            }
        }));
        groups.push(group("4-way shake", x(700, 10000), four_shake));
    }
    groups.push(group("huge", 4 * x(1, 2), move |c| {
        // the bit count needs more than 32 bits
        let f = [FUNS[8], FUNS[10], FUNS[7], FUNS[9]][c.idx % 4];
        let a = &apis()[(c.idx / 4) % apis().len()];
        let block = c.vec(1 << 22);
        let tail = c.below(300);
        let times = 129;
        let mut s = Space::new();
        let mut o = Out::new(f.out);
        let y = Inc { a, f, s: Space::new(), fed: vec![], at: 0, squeezed: None, n: vec![], c: vec![] };
        unsafe {
            by_name!(y, inc_init, s.p());
            for _ in 0..times {
                by_name!(y, absorb, s.p(), block.as_ptr(), block.len() / f.rate);
            }
            let (p, l) = (block.as_ptr(), tail);
            match f.out {
                28 => (a.sha224_inc_finalize)(o.p(), s.p(), p, l),
                32 => (a.sha256_inc_finalize)(o.p(), s.p(), p, l),
                48 => (a.sha384_inc_finalize)(o.p(), s.p(), p, l),
                _ => (a.sha512_inc_finalize)(o.p(), s.p(), p, l),
            }
        }
        macro_rules! want {
            ($t:ty) => {{
                let mut h = <$t>::new();
                for _ in 0..times {
                    h.update(&block)
                }
                h.update(&block[..tail]);
                h.finalize().to_vec()
            }};
        }
        let want = match f.out {
            28 => want!(sha2::Sha224),
            32 => want!(sha2::Sha256),
            48 => want!(sha2::Sha384),
            _ => want!(sha2::Sha512),
        };
        let got = o.take();
        c.eval();
        c.count("inputs beyond 2^32 bits");
        c.check(got == want, "a value of a huge input is not the standard's", || format!("{} {}: {} instead of {}", a.name, f.name, hex(&got), hex(&want)));
    }));
    Plan {
        groups,
        rule: "one value computed by the bundled code, by function and value",
        need: vec![
            ("one-shot values compared", 10000),
            ("incremental values compared", 10000),
            ("block values compared", 1000),
            ("AES values compared", 5000),
            ("seed expander calls", 5000),
            ("states cloned while absorbing", 1000),
            ("states cloned while squeezing", 500),
            ("inputs beyond 2^32 bits", 4),
        ],
        assumptions: vec!["the sha2 crate stands for the SHA-2 standard", "cSHAKE is used with a non-empty customization string, as its documentation requires"],
    }
}

fn rounds(s: &mut [u64; 25], n: usize) {
    if n == 24 {
        keccak::f1600(s)
    } else {
        keccak::p1600(s, n)
    }
}

/// Random operations on four interleaved states against four plain ones
fn four_way(c: &mut Case, a: &Api) {
    let mut s = Space::new();
    let mut m = [[0u8; 200]; 4];
    let permute = |m: &mut [[u8; 200]; 4], n: usize| {
        for x in m {
            let mut l: [u64; 25] = std::array::from_fn(|i| u64::from_le_bytes(x[8 * i..8 * i + 8].try_into().unwrap()));
            rounds(&mut l, n);
            for i in 0..25 {
                x[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes())
            }
        }
    };
    unsafe { (a.KeccakP1600times4_InitializeAll)(s.p()) }
    for _ in 0..12 {
        let i = c.below(4);
        let off = c.below(201);
        let len = c.below(201 - off);
        let lanes = c.below(26);
        let stride = lanes + c.below(4);
        let all = c.vec(8 * (3 * stride + lanes) + 8);
        let d = c.vec(len);
        // the bytes of lane l of instance k in the interleaved arrays
        let at = |k: usize, l: usize| 8 * (k * stride + l);
        unsafe {
            let op = c.below(10);
            c.count("4-way operations");
            c.eval();
            match op {
                0 => {
                    (a.KeccakP1600times4_AddBytes)(s.p(), i as u32, d.as_ptr(), off as u32, len as u32);
                    for k in 0..len {
                        m[i][off + k] ^= d[k]
                    }
                }
                1 => {
                    (a.KeccakP1600times4_OverwriteBytes)(s.p(), i as u32, d.as_ptr(), off as u32, len as u32);
                    m[i][off..off + len].copy_from_slice(&d);
                }
                2 => {
                    (a.KeccakP1600times4_OverwriteWithZeroes)(s.p(), i as u32, len as u32);
                    m[i][..len].fill(0);
                }
                3 => {
                    (a.KeccakP1600times4_AddLanesAll)(s.p(), all.as_ptr(), lanes as u32, stride as u32);
                    for k in 0..4 {
                        for b in 0..8 * lanes {
                            m[k][b] ^= all[at(k, 0) + b]
                        }
                    }
                }
                4 => {
                    (a.KeccakP1600times4_OverwriteLanesAll)(s.p(), all.as_ptr(), lanes as u32, stride as u32);
                    for k in 0..4 {
                        m[k][..8 * lanes].copy_from_slice(&all[at(k, 0)..at(k, lanes)])
                    }
                }
                5 => {
                    (a.KeccakP1600times4_PermuteAll_24rounds)(s.p());
                    permute(&mut m, 24)
                }
                6 => {
                    (a.KeccakP1600times4_PermuteAll_12rounds)(s.p());
                    permute(&mut m, 12)
                }
                7 => {
                    let mut o = Out::new(len);
                    (a.KeccakP1600times4_ExtractAndAddBytes)(s.c(), i as u32, d.as_ptr(), o.p(), off as u32, len as u32);
                    let want: Vec<u8> = (0..len).map(|k| d[k] ^ m[i][off + k]).collect();
                    let o = o.take();
                    c.check(o == want, "a 4-way extraction is wrong", || format!("{} add bytes at {} {}", a.name, off, len));
                }
                8 => {
                    let mut o = vec![0x3C; all.len()];
                    let mut o2 = o.clone();
                    (a.KeccakP1600times4_ExtractLanesAll)(s.c(), o.as_mut_ptr(), lanes as u32, stride as u32);
                    (a.KeccakP1600times4_ExtractAndAddLanesAll)(s.c(), all.as_ptr(), o2.as_mut_ptr(), lanes as u32, stride as u32);
                    let mut w = vec![0x3C; all.len()];
                    let mut w2 = w.clone();
                    for k in 0..4 {
                        for b in 0..8 * lanes {
                            w[at(k, 0) + b] = m[k][b];
                            w2[at(k, 0) + b] = m[k][b] ^ all[at(k, 0) + b];
                        }
                    }
                    c.check(o == w && o2 == w2, "a 4-way extraction is wrong", || format!("{} lanes {} stride {}", a.name, lanes, stride));
                }
                _ => {
                    // absorb whole strides of four blocks
                    let lanes = [21, 17, 1 + c.below(25)][c.below(3)];
                    let par = lanes + c.below(3);
                    let ser = [lanes, 3 * par + lanes, 1 + c.below(3 * par + lanes)][c.below(3)];
                    let data = {
                        let n = c.below(8 * 4 * par * 5);
                        c.vec(n)
                    };
                    let twelve = c.chance(1, 2);
                    let f = if twelve { a.KeccakP1600times4_12rounds_FastLoop_Absorb } else { a.KeccakF1600times4_FastLoop_Absorb };
                    let used = f(s.p(), lanes as u32, par as u32, ser as u32, data.as_ptr(), data.len());
                    let mut pos = 0;
                    while data.len() - pos >= (par * 3 + lanes) * 8 {
                        for k in 0..4 {
                            for b in 0..8 * lanes {
                                m[k][b] ^= data[pos + 8 * k * par + b]
                            }
                        }
                        permute(&mut m, if twelve { 12 } else { 24 });
                        pos += ser * 8;
                        if pos > data.len() {
                            break;
                        }
                    }
                    let lim = pos.min(data.len());
                    c.check(used == pos || used == lim, "a 4-way absorb loop consumes a wrong length", || format!("{} lanes {} par {} ser {} data {}: {} instead of {}", a.name, lanes, par, ser, data.len(), used, pos));
                }
            }
            for k in 0..4 {
                let mut o = Out::new(len);
                (a.KeccakP1600times4_ExtractBytes)(s.c(), k as u32, o.p(), off as u32, len as u32);
                let o = o.take();
                c.check(o == m[k][off..off + len], "a 4-way state is wrong", || format!("{} instance {} after operation {}", a.name, k, op));
                let mut o = Out::new(200);
                (a.KeccakP1600times4_ExtractBytes)(s.c(), k as u32, o.p(), 0, 200);
                let o = o.take();
                if !c.check(o == m[k], "a 4-way state is wrong", || format!("{} instance {} after operation {}", a.name, k, op)) {
                    return;
                }
            }
        }
    }
    c.nontrivial(&m.concat());
    c.check(s.guard == [0xC3C3C3C3C3C3C3C3; 8], "a 4-way state is written beyond its size", || a.name.into());
}

type X4 = unsafe extern "C" fn(*mut u8, *mut u8, *mut u8, *mut u8, usize, *const u8, *const u8, *const u8, *const u8, usize);
type Abs4 = unsafe extern "C" fn(Ctx, *const u8, *const u8, *const u8, *const u8, usize);
type Sq4 = unsafe extern "C" fn(*mut u8, *mut u8, *mut u8, *mut u8, usize, Ctx);
macro_rules! x4 {
    ($($one:ident $two:ident $a1:ident $a2:ident $s1:ident $s2:ident;)*) => {{
        extern "C" { $(
            fn $one(a: *mut u8, b: *mut u8, c: *mut u8, d: *mut u8, n: usize, e: *const u8, f: *const u8, g: *const u8, h: *const u8, l: usize);
            fn $two(a: *mut u8, b: *mut u8, c: *mut u8, d: *mut u8, n: usize, e: *const u8, f: *const u8, g: *const u8, h: *const u8, l: usize);
            fn $a1(s: Ctx, e: *const u8, f: *const u8, g: *const u8, h: *const u8, l: usize);
            fn $a2(s: Ctx, e: *const u8, f: *const u8, g: *const u8, h: *const u8, l: usize);
            fn $s1(a: *mut u8, b: *mut u8, c: *mut u8, d: *mut u8, n: usize, s: Ctx);
            fn $s2(a: *mut u8, b: *mut u8, c: *mut u8, d: *mut u8, n: usize, s: Ctx);
        )* }
        [$(($one as X4, $a1 as Abs4, $s1 as Sq4, 168usize), ($two as X4, $a2 as Abs4, $s2 as Sq4, 136usize),)*]
    }};
}

/// The 4-way SHAKE of the three vectorised signature implementations
fn four_shake(c: &mut Case) {
    let all = x4! {
        PQCLEAN_DILITHIUM2_AVX2_shake128x4 PQCLEAN_DILITHIUM2_AVX2_shake256x4 PQCLEAN_DILITHIUM2_AVX2_shake128x4_absorb_once PQCLEAN_DILITHIUM2_AVX2_shake256x4_absorb_once PQCLEAN_DILITHIUM2_AVX2_shake128x4_squeezeblocks PQCLEAN_DILITHIUM2_AVX2_shake256x4_squeezeblocks;
        PQCLEAN_DILITHIUM3_AVX2_shake128x4 PQCLEAN_DILITHIUM3_AVX2_shake256x4 PQCLEAN_DILITHIUM3_AVX2_shake128x4_absorb_once PQCLEAN_DILITHIUM3_AVX2_shake256x4_absorb_once PQCLEAN_DILITHIUM3_AVX2_shake128x4_squeezeblocks PQCLEAN_DILITHIUM3_AVX2_shake256x4_squeezeblocks;
        PQCLEAN_DILITHIUM5_AVX2_shake128x4 PQCLEAN_DILITHIUM5_AVX2_shake256x4 PQCLEAN_DILITHIUM5_AVX2_shake128x4_absorb_once PQCLEAN_DILITHIUM5_AVX2_shake256x4_absorb_once PQCLEAN_DILITHIUM5_AVX2_shake128x4_squeezeblocks PQCLEAN_DILITHIUM5_AVX2_shake256x4_squeezeblocks;
    };
    for (k, (f, abs, sq, rate)) in all.into_iter().enumerate() {
        // the code may read up to 7 bytes behind an input and ignores them: give it different ones
        let l = if c.idx < 500 { c.idx } else { c.below(2000) };
        let m: Vec<Vec<u8>> = (0..4).map(|_| c.vec(l + 8)).collect();
        let n = c.below(700);
        let mut o: Vec<Out> = (0..4).map(|_| Out::new(n)).collect();
        let mut b: Vec<Out> = (0..4).map(|_| Out::new(3 * rate)).collect();
        let mut s = Space::new();
        unsafe {
            f(o[0].p(), o[1].p(), o[2].p(), o[3].p(), n, m[0].as_ptr(), m[1].as_ptr(), m[2].as_ptr(), m[3].as_ptr(), l);
            abs(s.p(), m[0].as_ptr(), m[1].as_ptr(), m[2].as_ptr(), m[3].as_ptr(), l);
            sq(b[0].p(), b[1].p(), b[2].p(), b[3].p(), 1, s.p());
            sq(b[0].p().add(rate), b[1].p().add(rate), b[2].p().add(rate), b[3].p().add(rate), 2, s.p());
        }
        for (i, (o, b)) in o.into_iter().zip(b).enumerate() {
            let want = keccak::sponge(rate, 0x1f, &m[i][..l], n.max(3 * rate));
            c.eval();
            c.count("4-way SHAKE values compared");
            c.nontrivial(&want[..32]);
            let (o, b) = (o.take(), b.take());
            c.check(o == want[..n] && b == want[..3 * rate], "a 4-way SHAKE value is not the standard's", || format!("implementation {} rate {} instance {} input {}", k / 2, rate, i, hex(&m[i][..l])));
        }
    }
}

/// A mixture of calls on the linked copy, for other properties' workloads
pub fn workload(seed: [u8; 32]) -> Vec<u8> {
    let mut case = Case::from_seed(seed);
    let c = &mut case;
    let a = Api::linked();
    let mut o = vec![];
    for _ in 0..3 {
        let f = FUNS[c.below(FUNS.len())];
        let (n, s) = strings(c, &f);
        let l = c.below(700);
        let m = input(c, l);
        o.extend(once(&a, &f, &n, &s, &m, c.below(400)));
        let mut x = Inc::new(&a, f, &n, &s);
        for _ in 0..1 + c.below(6) {
            let k = chunk(c, f.rate);
            let m = input(c, k);
            x.absorb(&m);
        }
        let y = x.fork();
        for x in [x, y] {
            match x.finish() {
                Ok(mut x) => {
                    for _ in 0..c.below(4) {
                        x.squeeze(chunk(c, f.rate));
                    }
                    o.extend(x.squeezed.as_ref().unwrap());
                    x.release();
                }
                Err((d, _)) => o.extend(d),
            }
        }
    }
    o
}
