//! The bundled C source of randomness (pqclean/common/randombytes.c), built by check.sh once for each
//! way in which it can reach the kernel, its system calls answered by a script.
use crate::core::{group, Case, Group};
use rand_core::RngCore;
use std::cell::RefCell;
use std::collections::HashSet;
use std::ffi::{c_int, c_long, c_void, CString};

type Hook = extern "C" fn(c_int, *mut c_void, usize) -> c_long;
type Fun = unsafe extern "C" fn(*mut u8, usize) -> c_int;

const GETRANDOM: c_int = 0;
const OPEN: c_int = 1;
const IOCTL: c_int = 2;
const POLL: c_int = 3;
const READ: c_int = 4;
const CLOSE: c_int = 5;
const FOPEN: c_int = 6;
const FSCANF: c_int = 7;

const MODES: [&str; 3] = ["getrandom", "system call", "device"];

fn libs() -> &'static [Fun] {
    static L: std::sync::OnceLock<Vec<Fun>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let dir = match std::env::var("HARNESS_RB") {
            Ok(d) => d,
            Err(_) => return vec![],
        };
        (0..MODES.len())
            .map(|m| unsafe {
                let p = CString::new(format!("{}/librb{}.so", dir, m)).unwrap();
                let h = libc::dlopen(p.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
                let get = |n: &str| {
                    let s = CString::new(n).unwrap();
                    let a = if h.is_null() { std::ptr::null_mut() } else { libc::dlsym(h, s.as_ptr()) };
                    if a.is_null() {
                        eprintln!("{:?}: {:?}", p, std::ffi::CStr::from_ptr(libc::dlerror()));
                        std::process::exit(2);
                    }
                    a
                };
                *(get("vp_hook") as *mut Option<Hook>) = Some(hook);
                std::mem::transmute::<*mut c_void, Fun>(get("PQCLEAN_randombytes"))
            })
            .collect()
    })
}

/// What the kernel does next, over and over from the seed
#[derive(Clone)]
struct Kernel {
    /// Decides the faults
    faults: rand_chacha::ChaCha20Rng,
    /// The random bytes
    bytes: rand_chacha::ChaCha20Rng,
    /// Chances out of 256
    eintr: u64,
    short: u64,
    zero: u64,
    /// The call that fails, and how
    hard: Option<(usize, i32)>,
    /// The device cannot tell how much entropy it has
    no_ioctl: bool,
    /// How many more times it is found short of entropy
    low: usize,
    // what was seen
    calls: usize,
    last: c_int,
    soft: u64,
    delivered: usize,
    seeded: bool,
    early: bool,
    /// Something other than an interruption or a short read happened
    failed: bool,
}
thread_local!(static K: RefCell<Option<Kernel>> = const { RefCell::new(None) });

extern "C" fn hook(op: c_int, p: *mut c_void, n: usize) -> c_long {
    K.with(|k| {
        let mut k = k.borrow_mut();
        let k = k.as_mut().expect("called outside a case");
        let i = k.calls;
        k.calls += 1;
        k.last = op;
        if let Some((at, e)) = k.hard {
            // a null stream would only be a crash
            if i == at && op != FOPEN {
                k.failed = true;
                return -(e as c_long);
            }
        }
        let x = k.faults.next_u32() as u64;
        if op != IOCTL && op != FOPEN && x & 255 < k.eintr {
            k.soft += 1;
            return -(libc::EINTR as c_long);
        }
        if (op == READ || op == POLL) && (x >> 8) & 255 < k.eintr / 2 {
            k.soft += 1;
            return -(libc::EAGAIN as c_long);
        }
        let entropy = |k: &mut Kernel| {
            let v: c_int = if k.low > 0 {
                k.low -= 1;
                [0, 1, 64, 127][(x >> 16) as usize & 3]
            } else {
                k.seeded = true;
                [128, 129, 256, 4096][(x >> 16) as usize & 3]
            };
            unsafe { *(p as *mut c_int) = v };
        };
        match op {
            GETRANDOM | READ => {
                if op == READ && !k.seeded {
                    k.early = true
                }
                let mut n = if op == GETRANDOM { n.min(33554431) } else { n.min(isize::MAX as usize) };
                if (x >> 8) & 255 < k.zero {
                    k.failed = true;
                    return 0;
                }
                if n > 1 && (x >> 16) & 255 < k.short {
                    k.soft += 1;
                    n = 1 + (k.faults.next_u64() % (n as u64 - 1)) as usize
                }
                // (the generator would drop what is left of a word)
                k.bytes.set_word_pos(k.delivered as u128 / 4);
                let mut first = [0; 4];
                k.bytes.fill_bytes(&mut first);
                let out = unsafe { std::slice::from_raw_parts_mut(p as *mut u8, n) };
                let head = n.min(4 - k.delivered % 4);
                out[..head].copy_from_slice(&first[k.delivered % 4..][..head]);
                k.bytes.fill_bytes(&mut out[head..]);
                k.delivered += n;
                n as c_long
            }
            OPEN => 100 + i as c_long,
            IOCTL => {
                if k.no_ioctl {
                    return -(if x & 1 == 0 { libc::ENOTTY } else { libc::ENOSYS } as c_long);
                }
                entropy(k);
                0
            }
            POLL => 1,
            FOPEN => 4096,
            FSCANF => {
                entropy(k);
                1
            }
            _ => 0,
        }
    })
}

struct Seen {
    ret: c_int,
    out: Vec<u8>,
    guard: bool,
    k: Kernel,
}
fn call(f: Fun, n: usize, fill: u8, k: &Kernel) -> Seen {
    const G: usize = 64;
    let mut v = vec![!fill; n + 2 * G];
    v[G..G + n].fill(fill);
    K.with(|s| *s.borrow_mut() = Some(k.clone()));
    let ret = unsafe { f(v.as_mut_ptr().add(G), n) };
    let k = K.with(|s| s.borrow_mut().take().unwrap());
    let guard = v[..G].iter().chain(&v[G + n..]).all(|b| *b == !fill);
    Seen { ret, out: v[G..G + n].to_vec(), guard, k }
}

fn one(c: &mut Case, mode: usize, n: usize, k: Kernel) {
    let f = libs()[mode];
    let what = format!("randombytes by {}", MODES[mode]);
    let fill = c.u64() as u8;
    let a = call(f, n, fill, &k);
    let mut other = k.clone();
    other.bytes = rand_core::SeedableRng::from_seed(c.bytes32());
    let b = call(f, n, fill, &other);
    let z = call(f, n, !fill, &k);
    c.eval();
    c.add("evaluations", 2);
    c.add("calls of the bundled C source", 3);
    c.add("system calls it made", (a.k.calls + b.k.calls + z.k.calls) as u64);
    c.add("interruptions and short reads injected", a.k.soft + b.k.soft + z.k.soft);
    if k.hard.is_some() && a.k.failed {
        c.add("failures injected", 3);
        c.seen("system calls that failed", format!("{} {}", mode, a.k.last).as_bytes());
    }
    let detail = || {
        format!(
            "{} bytes; eintr {} short {} zero {} of 256, hard {:?}, no_ioctl {}, low {}: returned {}, {} bytes delivered in {} calls",
            n, k.eintr, k.short, k.zero, k.hard, k.no_ioctl, k.low, a.ret, a.k.delivered, a.k.calls
        )
    };
    for s in [&a, &b, &z] {
        c.check(s.guard, &format!("{} writes outside the buffer", what), detail);
        c.check(!s.k.early, &format!("{} reads a device that is not seeded", what), detail);
        if !s.k.failed {
            c.check(s.ret == 0, &format!("{} fails on interruptions or short reads alone", what), detail);
        }
    }
    if a.ret != 0 {
        c.count("aborts after a failure");
        return;
    }
    if a.k.failed {
        c.count("finished in spite of a failure");
    }
    c.check(a.out == z.out, &format!("{} succeeds with bytes that the kernel did not give", what), detail);
    if b.ret == 0 && n >= 8 {
        let same = (0..n - 7).find(|i| a.out[*i..*i + 8] == b.out[*i..*i + 8]);
        c.check(same.is_none(), &format!("{} succeeds with predictable bytes", what), || format!("at {:?}: {}", same, detail()));
    }
    if (16..=8192).contains(&n) {
        let mut s = HashSet::new();
        let twice = (0..n - 15).find(|i| !s.insert(&a.out[*i..*i + 16]));
        c.check(twice.is_none(), &format!("{} repeats bytes", what), || format!("at {:?}: {}", twice, detail()));
    }
    // without a failure, how the bytes come in pieces does not matter
    if !a.k.failed {
        let calm = Kernel { eintr: 0, short: 0, zero: 0, hard: None, ..k.clone() };
        let d = call(f, n, fill, &calm);
        c.check(d.ret == 0 && d.out == a.out, &format!("{}: interruptions and short reads change the bytes", what), detail);
    }
    c.nontrivial(format!("{} {} {:?} {} {} {}", mode, n, k.hard, a.k.calls, a.k.soft, a.ret).as_bytes());
}

pub fn groups(th: bool) -> Vec<Group> {
    if libs().is_empty() {
        return vec![];
    }
    let mut v = vec![];
    for mode in 0..MODES.len() {
        v.push(group(format!("bundled C source by {}", MODES[mode]), if th { 6000 } else { 600 }, move |c| {
            let n = match c.below(6) {
                0 => c.below(4),
                1 => [32, 48, 64, 128][c.below(4)],
                2 => c.below(300),
                3 => c.below(5000),
                4 => 255 + c.below(3),
                _ => 1 + c.below(64),
            };
            let k = Kernel {
                faults: rand_core::SeedableRng::from_seed(c.bytes32()),
                bytes: rand_core::SeedableRng::from_seed(c.bytes32()),
                eintr: [0, 30, 100, 200][c.below(4)],
                short: [0, 60, 160, 255][c.below(4)],
                zero: [0, 0, 0, 20][c.below(4)],
                hard: None,
                no_ioctl: c.chance(1, 2),
                low: [0, 0, 1, 3][c.below(4)],
                calls: 0,
                last: 0,
                soft: 0,
                delivered: 0,
                seeded: false,
                early: false,
                failed: false,
            };
            // once without a failure, then with one at each of the calls it made
            one(c, mode, n, k.clone());
            let calls = call(libs()[mode], n, 0, &k).k.calls;
            for _ in 0..6 {
                let e = [libc::EIO, libc::ENOSYS, libc::EPERM, libc::EFAULT, libc::EINVAL, libc::EBADF, libc::ENFILE][c.below(7)];
                let at = if c.chance(1, 3) { calls.saturating_sub(1 + c.below(3)) } else { c.below(calls.max(1)) };
                one(c, mode, n, Kernel { hard: Some((at, e)), ..k.clone() });
            }
        }));
        // more than the kernel gives in one call
        v.push(group(format!("bundled C source by {}, large", MODES[mode]), 1, move |c| {
            let n = 33554431 + [1, 5000][c.below(2)];
            let k = Kernel {
                faults: rand_core::SeedableRng::from_seed(c.bytes32()),
                bytes: rand_core::SeedableRng::from_seed(c.bytes32()),
                eintr: 100,
                short: 30,
                zero: 0,
                hard: None,
                no_ioctl: false,
                low: 0,
                calls: 0,
                last: 0,
                soft: 0,
                delivered: 0,
                seeded: false,
                early: false,
                failed: false,
            };
            one(c, mode, n, k.clone());
            one(c, mode, n, Kernel { hard: Some((3, libc::EIO)), ..k });
        }));
    }
    v
}
