//! C23: operations running at the same time, or one after another, do not influence one another.
//! Run at full speed and under ThreadSanitizer.
use crate::core::*;
use crate::entropy::{self, Source};
use crate::kem::*;
use crate::party::*;
use crate::util::*;
use std::time::Instant;

type Run = Box<dyn Fn([u8; 32]) -> Vec<u8> + Send + Sync>;
pub struct Op {
    pub name: String,
    /// Whether the operation draws only on the source attached to the thread and the caller's
    /// generator (not on a generator the thread keeps)
    pub exact: bool,
    pub cost: usize,
    pub run: Run,
}

fn outcome(i: &dyn Party, r: &dyn Party, t: &Trace) -> Vec<u8> {
    format!("{:?} {:?} {:?} {:?} {:?} {}", i.done(), r.done(), i.fin(), r.fin(), t.rej, t.stuck).into_bytes()
}

fn ops() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    for p in protos() {
        let exact = p.ibke != "sigdh";
        let q = p.clone();
        v.push(Op {
            name: format!("session {}", p.name),
            exact,
            cost: 2 + p.cost,
            run: Box::new(move |s| {
                let mut c = Case::from_seed(s);
                let pr = pair(&mut c, &q);
                let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
                let t = faithful(&mut *i, &mut *r, q.msgs.len() + 4);
                [t.bytes(), outcome(&*i, &*r, &t)].concat()
            }),
        });
        let q = p.clone();
        v.push(Op {
            name: format!("disturbed session {}", p.name),
            exact,
            cost: 2 + p.cost,
            run: Box::new(move |s| {
                let mut c = Case::from_seed(s);
                let mut pr = pair(&mut c, &q);
                pr.r.secret.push(b'x');
                let (slot, pos) = (c.below(q.msgs.len()), c.below(4000));
                let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
                let t = drive(&mut *i, &mut *r, q.msgs.len() + 4, &mut |k, m| {
                    let mut m = m.to_vec();
                    if k == slot && !m.is_empty() {
                        let n = m.len();
                        m[pos % n] ^= 1
                    }
                    m
                });
                [t.bytes(), outcome(&*i, &*r, &t)].concat()
            }),
        });
    }
    for k in &KEMS {
        let op = |n: &str, run: Run| Op { name: format!("{} {}", k.name, n), exact: true, cost: 2, run };
        v.push(op("keygen", Box::new(|_| (k.keygen)())));
        v.push(op("kem", Box::new(|s| {
            let sk = (k.keygen)();
            let pk = (k.pk_of)(&sk).unwrap();
            let (ss, ct) = (k.encaps)(&pk).unwrap();
            let mut bad = ct.clone();
            let n = bad.len();
            bad[s[0] as usize % n] ^= 4;
            [&sk[..], &ss, &ct, &(k.decaps)(&ct, &sk).unwrap(), &(k.decaps)(&bad, &sk).unwrap()].concat()
        })));
        v.push(op("typed kem", Box::new(|_| {
            let t = (k.typed)();
            [t.0, t.1, t.2, t.3, t.4].concat()
        })));
        v.push(op("plain", Box::new(|s| {
            let t = (k.plain)(s[0] & 1 == 0);
            [t.pk, t.ct, t.ss, t.ss2, t.other].concat()
        })));
        v.push(op("codec", Box::new(|s| {
            let mut c = Case::from_seed(s);
            let sk = (k.keygen)();
            let n = c.below(sk.len() + 10);
            let b = c.vec(n);
            format!("{:?} {:?} {:?} {:?}", (k.sk_round)(&sk), (k.sk_round)(&b), (k.pk_round)(&b), (k.ct_round)(&b)).into_bytes()
        })));
    }
    for d in &DILS {
        let op = |n: &str, cost: usize, run: Run| Op { name: format!("{} {}", d.name, n), exact: true, cost, run };
        v.push(op("keypair", 2, Box::new(|_| {
            let (p, s) = (d.keypair)();
            [p, s].concat()
        })));
        v.push(op("keypair_det", 2, Box::new(|s| {
            let (p, s) = (d.keypair_det)(&s);
            [p, s].concat()
        })));
        let signing = |detached: bool| {
            move |s: [u8; 32]| -> Vec<u8> {
                let mut c = Case::from_seed(s);
                let (pk, sk) = (d.keypair_det)(&s);
                let n = c.below(300);
                let m = c.vec(n);
                let mut o = vec![];
                if detached {
                    let sig = (d.detached)(&m, &sk).unwrap_or_default();
                    o.extend_from_slice(&sig);
                    o.extend(format!("{:?}", (d.verify)(&sig, &m, &pk)).bytes());
                    let mut bad = sig.clone();
                    if !bad.is_empty() {
                        let i = c.below(bad.len());
                        bad[i] ^= 1;
                    }
                    o.extend(format!("{:?}", (d.verify)(&bad, &m, &pk)).bytes());
                } else {
                    let sm = (d.sign)(&m, &sk).unwrap_or_default();
                    o.extend_from_slice(&sm);
                    o.extend(format!("{:?}", (d.open)(&sm, &pk)).bytes());
                    let mut bad = sm.clone();
                    if !bad.is_empty() {
                        let i = c.below(bad.len());
                        bad[i] ^= 1;
                    }
                    o.extend(format!("{:?}", (d.open)(&bad, &pk)).bytes());
                }
                o
            }
        };
        v.push(op("detached", 4, Box::new(signing(true))));
        v.push(op("signed message", 4, Box::new(signing(false))));
        for n in [&d.clean, &d.avx2] {
            if n.name == "avx2" && !have_avx2() {
                continue;
            }
            v.push(op(&format!("{} code", n.name), 6, Box::new(move |s| {
                let mut c = Case::from_seed(s);
                let (pkl, skl, sl) = (d.sizes)();
                let (mut pk, mut sk, mut sig) = (vec![0; pkl], vec![0; skl], vec![0; sl]);
                let l = c.below(500);
                let m = c.vec(l);
                let mut n1 = 0;
                let (mut sm, mut back) = (vec![0; sl + l], vec![0; sl + l]);
                let (mut n2, mut n3) = (0, 0);
                unsafe {
                    (n.keypair)(pk.as_mut_ptr(), sk.as_mut_ptr());
                    (n.signature)(sig.as_mut_ptr(), &mut n1, m.as_ptr(), l, sk.as_ptr());
                    let r = (n.verify)(sig.as_ptr(), n1, m.as_ptr(), l, pk.as_ptr());
                    (n.sign)(sm.as_mut_ptr(), &mut n2, m.as_ptr(), l, sk.as_ptr());
                    let r2 = (n.open)(back.as_mut_ptr(), &mut n3, sm.as_ptr(), n2, pk.as_ptr());
                    [pk, sk, sig, sm, back, vec![r as u8, r2 as u8, n1 as u8, n2 as u8, n3 as u8]].concat()
                }
            })));
        }
    }
    v.push(Op { name: "hashes".into(), exact: true, cost: 1, run: Box::new(crate::p_hash::workload) });
    v
}

pub fn all_ops() -> &'static [Op] {
    static O: std::sync::OnceLock<Vec<Op>> = std::sync::OnceLock::new();
    O.get_or_init(ops)
}

type Job = (usize, [u8; 32]);
/// What one execution gave, and when it ran
struct Done {
    out: u64,
    full: Vec<u8>,
    from: Instant,
    to: Instant,
}

/// One operation on the current thread, with its own source of randomness
fn exec(op: &Op, seed: [u8; 32]) -> Done {
    let from = Instant::now();
    let src = Source::new(seed);
    let full = src.enter(|| match guard(|| (op.run)(seed)) {
        Ok(v) => v,
        Err(p) => format!("panic: {}", p).into_bytes(),
    });
    Done { out: h64(&full), full, from, to: Instant::now() }
}

struct Barrier(Box<std::cell::UnsafeCell<libc::pthread_barrier_t>>);
unsafe impl Sync for Barrier {}
unsafe impl Send for Barrier {}

/// Preemption at arbitrary instructions: each thread has a timer of its own whose signal makes it sleep
static PREEMPTING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static PREEMPTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
extern "C" fn preempt(_: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    let x = PREEMPTED.fetch_add(1, std::sync::atomic::Ordering::Relaxed).wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
    unsafe {
        let errno = *libc::__errno_location();
        let ns = [1, 20_000, 100_000, 300_000][(x >> 62) as usize];
        libc::nanosleep(&libc::timespec { tv_sec: 0, tv_nsec: ns }, std::ptr::null_mut());
        // the next one comes only after the thread has run for a while
        let t = (*info).si_value().sival_ptr as *const Timer;
        if !t.is_null() {
            libc::timer_settime((*t).id, 0, &(*t).after, std::ptr::null_mut());
        }
        *libc::__errno_location() = errno;
    }
}
struct Timer {
    id: libc::timer_t,
    after: libc::itimerspec,
}
struct Preempting(Box<Timer>);
impl Preempting {
    fn new(seed: u64) -> Option<Preempting> {
        if seed & 6 == 0 || !PREEMPTING.load(std::sync::atomic::Ordering::Relaxed) {
            return None;
        }
        unsafe {
            static HANDLER: std::sync::Once = std::sync::Once::new();
            HANDLER.call_once(|| {
                let mut a: libc::sigaction = std::mem::zeroed();
                a.sa_sigaction = preempt as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
                a.sa_flags = libc::SA_RESTART | libc::SA_SIGINFO;
                libc::sigaction(libc::SIGRTMIN() + 4, &a, std::ptr::null_mut());
            });
            libc::prctl(libc::PR_SET_TIMERSLACK, 1u64);
            let mut e: libc::sigevent = std::mem::zeroed();
            e.sigev_notify = libc::SIGEV_THREAD_ID;
            e.sigev_signo = libc::SIGRTMIN() + 4;
            e.sigev_notify_thread_id = libc::syscall(libc::SYS_gettid) as i32;
            let first = libc::timespec { tv_sec: 0, tv_nsec: [30_000, 70_000, 150_000, 400_000][(seed >> 3) as usize & 3] + (seed >> 16 & 0x3fff) as i64 };
            let after = libc::itimerspec { it_interval: std::mem::zeroed(), it_value: first };
            let mut t = Box::new(Timer { id: std::mem::zeroed(), after });
            e.sigev_value.sival_ptr = &mut *t as *mut Timer as *mut libc::c_void;
            if libc::timer_create(libc::CLOCK_MONOTONIC, &mut e, &mut t.id) != 0 {
                return None;
            }
            libc::timer_settime(t.id, 0, &t.after, std::ptr::null_mut());
            Some(Preempting(t))
        }
    }
}
impl Drop for Preempting {
    fn drop(&mut self) {
        unsafe {
            libc::timer_delete(self.0.id);
        }
    }
}

struct Start<'a> {
    f: Box<dyn FnOnce() + Send + 'a>,
    cur: (usize, usize, usize),
    barrier: *mut libc::pthread_barrier_t,
    jitter: u64,
}
extern "C" fn entry(p: *mut libc::c_void) -> *mut libc::c_void {
    let s = unsafe { Box::from_raw(p as *mut Start<'static>) };
    set_current(s.cur);
    // the standard library's hash keys come from the same source, once per thread
    std::hint::black_box(std::hash::RandomState::new());
    let f = s.f;
    unsafe {
        libc::pthread_barrier_wait(s.barrier);
    }
    entropy::set_jitter(s.jitter);
    let preempting = Preempting::new(s.jitter);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    drop(preempting);
    entropy::set_jitter(0);
    std::ptr::null_mut()
}
/// Runs the closures on fresh threads that start together. Only POSIX primitives, before and after.
fn together<'a>(fs: Vec<Box<dyn FnOnce() + Send + 'a>>, jitter: u64) {
    unsafe {
        let mut b: Box<std::mem::MaybeUninit<libc::pthread_barrier_t>> = Box::new(std::mem::MaybeUninit::zeroed());
        assert_eq!(libc::pthread_barrier_init(b.as_mut_ptr(), std::ptr::null(), fs.len() as u32), 0);
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut at);
        libc::pthread_attr_setstacksize(&mut at, 32 << 20);
        let mut ts = vec![];
        for (k, f) in fs.into_iter().enumerate() {
            let j = if jitter == 0 { 0 } else { jitter.wrapping_add(0x9E37 * (k as u64 + 1)) | 1 };
            let s = Box::into_raw(Box::new(Start { f, cur: current(), barrier: b.as_mut_ptr(), jitter: j }));
            let mut t: libc::pthread_t = std::mem::zeroed();
            let r = libc::pthread_create(&mut t, &at, entry, s as *mut libc::c_void);
            assert_eq!(r, 0, "pthread_create");
            ts.push(t);
        }
        libc::pthread_attr_destroy(&mut at);
        for t in ts {
            libc::pthread_join(t, std::ptr::null_mut());
        }
        libc::pthread_barrier_destroy(b.as_mut_ptr());
    }
}
/// Runs scripts at the same time, one thread each
fn run_scripts(scripts: &[Vec<Job>], jitter: u64) -> Vec<Vec<Done>> {
    let ops = all_ops();
    let mut outs: Vec<Vec<Done>> = scripts.iter().map(|_| vec![]).collect();
    let fs = scripts
        .iter()
        .zip(outs.iter_mut())
        .map(|(s, o)| {
            Box::new(move || {
                for (k, seed) in s {
                    o.push(exec(&ops[*k], *seed));
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    together(fs, jitter);
    outs
}
fn alone(s: &[Job]) -> Vec<Done> {
    run_scripts(&[s.to_vec()], 0).pop().unwrap()
}

/// A first difference, for the report
fn differ(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |x: &[u8]| hex(&x[i.min(x.len())..(i + 24).min(x.len())]);
    format!("first difference at byte {} of {}/{}: {} against {}", i, a.len(), b.len(), cut(a), cut(b))
}

fn compare(c: &mut Case, sig: &str, scripts: &[Vec<Job>], a: &[Vec<Done>], b: &[Vec<Done>]) {
    let ops = all_ops();
    for (t, s) in scripts.iter().enumerate() {
        if a[t].len() != s.len() || b[t].len() != s.len() {
            c.fail(sig, format!("thread {} ended early: {} and {} of {}", t, a[t].len(), b[t].len(), s.len()));
            continue;
        }
        for (k, (op, seed)) in s.iter().enumerate() {
            c.eval();
            c.count("executions compared");
            c.seen("operations", ops[*op].name.as_bytes());
            c.nontrivial(&b[t][k].full);
            let (x, y) = (&a[t][k], &b[t][k]);
            if x.out != y.out {
                c.fail(sig, format!("{} with seed {} (thread {} of {}, operation {}): {}", ops[*op].name, hex(seed), t, scripts.len(), k, differ(&x.full, &y.full)));
            }
        }
    }
}
/// What overlapped in time
fn overlaps(c: &mut Case, scripts: &[Vec<Job>], r: &[Vec<Done>]) {
    let ops = all_ops();
    let mut n = 0;
    for (t, s) in scripts.iter().enumerate() {
        for (u, z) in scripts.iter().enumerate().skip(t + 1) {
            for (x, (a, _)) in r[t].iter().zip(s) {
                for (y, (b, _)) in r[u].iter().zip(z) {
                    if x.from < y.to && y.from < x.to {
                        n += 1;
                        let (a, b) = (a.min(b), a.max(b));
                        c.seen("overlapping pairs of operations", format!("{} {}", ops[*a].name, ops[*b].name).as_bytes());
                    }
                }
            }
        }
    }
    c.add("overlapping executions", n);
}

fn pick(c: &mut Case, only: Option<&str>) -> usize {
    let ops = all_ops();
    loop {
        let k = c.below(ops.len());
        if let Some(o) = only {
            if !ops[k].name.contains(o) {
                continue;
            }
        }
        // expensive ones less often
        if c.chance(2, 1 + ops[k].cost.min(20)) || only.is_some() {
            return k;
        }
    }
}
const FAMILIES: [&str; 14] = [
    "dilithium2", "dilithium3", "dilithium5", "lightsaber", "saber", "firesaber", "hashes", "sigma", "hmqv", "fg",
    "cake", "cpace", "kcspake2", "chip",
];
fn scripts(c: &mut Case, threads: usize, len: usize) -> Vec<Vec<Job>> {
    let mode = c.below(4);
    let fam = FAMILIES[c.below(FAMILIES.len())];
    let narrow = if c.chance(1, 2) { Some(fam) } else { None };
    let one = pick(c, narrow);
    let shared = c.bytes32();
    (0..threads)
        .map(|_| {
            (0..len)
                .map(|_| match mode {
                    // one operation, different inputs
                    0 => (one, c.bytes32()),
                    // one operation, same inputs
                    1 => (one, shared),
                    // one family
                    2 => (pick(c, Some(fam)), c.bytes32()),
                    _ => (pick(c, None), c.bytes32()),
                })
                .collect()
        })
        .collect()
}

fn parallel(c: &mut Case) {
    let threads = [2, 3, 4, 8, 8, 8, 12, 16][c.below(8)];
    let len = 1 + c.below(3);
    let s = scripts(c, threads, len);
    let before = c.chance(1, 2);
    let base: Option<Vec<_>> = before.then(|| s.iter().map(|x| alone(x)).collect());
    let j = if c.chance(2, 3) { c.u64() | 1 } else { 0 };
    let r = run_scripts(&s, j);
    let r2 = run_scripts(&s, c.u64() | 1);
    let base = base.unwrap_or_else(|| s.iter().map(|x| alone(x)).collect());
    compare(c, "an operation gives something else while others run", &s, &r, &base);
    compare(c, "an operation gives something else while others run", &s, &r2, &base);
    overlaps(c, &s, &r);
    overlaps(c, &s, &r2);
    c.seen("thread counts", &threads.to_le_bytes());
    c.sample(|| {
        let ops = all_ops();
        format!("{} threads at once, as alone: {:?}", threads, s.iter().map(|x| x.iter().map(|j| &ops[j.0].name).collect::<Vec<_>>()).collect::<Vec<_>>())
    });
}

/// One operation on many threads, preempted anywhere
fn preempted(c: &mut Case) {
    use std::sync::atomic::Ordering::Relaxed;
    let op = c.idx % all_ops().len();
    let cost = all_ops()[op].cost;
    let (threads, len) = ([8, 12, 16][c.below(3)], (12 / cost.max(1)).clamp(2, 8));
    let s: Vec<Vec<Job>> = (0..threads).map(|_| (0..len).map(|_| (op, c.bytes32())).collect()).collect();
    let n = PREEMPTED.load(Relaxed);
    let r = run_scripts(&s, c.u64() | 7);
    c.add("preemptions", PREEMPTED.load(Relaxed) - n);
    let base: Vec<_> = s.iter().map(|x| alone(x)).collect();
    compare(c, "an operation gives something else while others run", &s, &r, &base);
    overlaps(c, &s, &r);
    c.seen("operations preempted", all_ops()[op].name.as_bytes());
}

/// A, others, A again, on one thread
fn history(c: &mut Case) {
    let ops = all_ops();
    let (mut s, mut at): (Vec<Job>, Vec<usize>) = (vec![], vec![]);
    let probes: Vec<Job> = (0..3).map(|_| (pick(c, None), c.bytes32())).filter(|j| ops[j.0].exact).collect();
    let fam = if c.chance(1, 2) { Some(FAMILIES[c.below(FAMILIES.len())]) } else { None };
    for _ in 0..3 {
        for p in &probes {
            at.push(s.len());
            s.push(*p);
        }
        for _ in 0..1 + c.below(4) {
            s.push((pick(c, fam), c.bytes32()));
        }
    }
    let r = alone(&s);
    for p in &probes {
        let base = alone(&[*p]).pop().unwrap();
        for k in at.iter().filter(|k| s[**k] == *p) {
            c.eval();
            c.count("repetitions compared");
            c.nontrivial(&base.full);
            if r.len() != s.len() {
                c.fail("an operation gives something else after others", "the thread ended early");
                return;
            }
            c.check(r[*k].out == base.out, &format!("{} gives something else after other operations", ops[p.0].name), || {
                format!("{} with seed {} after {:?}: {}", ops[p.0].name, hex(&p.1), s[..*k].iter().map(|j| &ops[j.0].name).collect::<Vec<_>>(), differ(&r[*k].full, &base.full))
            });
        }
    }
}

struct Sess {
    p: Proto,
    pr: Pair,
    seed: [u8; 32],
    src: Source,
    parts: Option<(Box<dyn Party>, Box<dyn Party>)>,
    cur: Vec<u8>,
    k: usize,
    log: Vec<u8>,
    over: bool,
}
/// Sessions are stepped by one thread at a time
struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

impl Sess {
    fn new(p: &Proto, pr: Pair, seed: [u8; 32]) -> Sess {
        Sess { p: p.clone(), pr, seed, src: Source::new(seed), parts: None, cur: vec![], k: 0, log: vec![], over: false }
    }
    fn again(&self) -> Sess {
        Sess::new(&self.p, Pair { i: self.pr.i.clone(), r: self.pr.r.clone() }, self.seed)
    }
    fn step(&mut self) {
        let Sess { p, pr, src, parts, cur, k, log, over, .. } = self;
        src.enter(|| {
            if parts.is_none() {
                *parts = Some(((p.mk)(&pr.i), (p.mk)(&pr.r)));
                return;
            }
            let (i, r) = parts.as_mut().unwrap();
            let x: &mut Box<dyn Party> = if *k % 2 == 0 { i } else { r };
            if x.done() || *k > p.msgs.len() + 4 {
                *over = true;
                return;
            }
            let out = x.step(cur);
            log.extend(format!("{:?}", out).bytes());
            *k += 1;
            match out {
                Out::Msg(m) => *cur = m,
                Out::Nothing => cur.clear(),
                Out::Reject(_) => *over = true,
            }
        });
    }
    fn result(&self) -> Vec<u8> {
        let (i, r) = self.parts.as_ref().unwrap();
        [self.log.clone(), format!("{} {} {:?} {:?}", i.done(), r.done(), i.fin(), r.fin()).into_bytes()].concat()
    }
    fn good(&self) -> bool {
        let (i, r) = self.parts.as_ref().unwrap();
        match (accepted(&**i), accepted(&**r)) {
            (Some(a), Some(b)) => a.key == b.key,
            _ => false,
        }
    }
}

/// Sessions whose steps are interleaved on one thread, or that wander from thread to thread
fn interleaved(c: &mut Case, wander: bool) {
    let all = protos();
    let n = 2 + c.below(4);
    let same = c.chance(1, 3);
    let first = c.below(all.len());
    let mut v: Vec<Sess> = vec![];
    for _ in 0..n {
        let mut k = c.below(all.len());
        while all[k].cost > 6 && c.chance(3, 4) {
            k = c.below(all.len())
        }
        let p = if same { &all[first] } else { &all[k] };
        let pr = pair(c, p);
        v.push(Sess::new(p, pr, c.bytes32()));
    }
    let base: Vec<Sess> = v.iter().map(|s| s.again()).collect();
    let mut schedule = vec![];
    let (order, j) = (c.u64(), c.u64() | 1);
    let mut o = order;
    while v.iter().any(|s| !s.over) {
        o = o.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let k = (o >> 33) as usize % v.len();
        if v[k].over {
            continue;
        }
        schedule.push(k as u8);
        if wander {
            // two different sessions at once on two fresh threads
            let k2 = (k + 1) % v.len();
            let (mut a, mut rest): (Vec<&mut Sess>, Vec<&mut Sess>) = (vec![], vec![]);
            for (x, s) in v.iter_mut().enumerate() {
                if x == k {
                    a.push(s)
                } else if x == k2 && !s.over {
                    rest.push(s)
                }
            }
            let fs = a
                .into_iter()
                .chain(rest)
                .map(|s| {
                    let m = Moved(s);
                    Box::new(move || {
                        let m = m;
                        m.0.step()
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            together(fs, j);
        } else {
            v[k].step();
        }
    }
    c.seen("schedules of session steps", &schedule);
    for (s, mut b) in v.iter().zip(base) {
        // on a thread of its own
        let r = std::cell::RefCell::new(&mut b);
        let m = Moved(&r);
        together(
            vec![Box::new(move || {
                let m = m;
                let mut b = m.0.borrow_mut();
                while !b.over {
                    b.step()
                }
            })],
            0,
        );
        c.eval();
        c.count("interleaved sessions compared");
        c.seen("interleaved protocols", s.p.name.as_bytes());
        c.nontrivial(&s.log);
        c.check(s.good(), "an interleaved session does not complete", || format!("{} among {} sessions: {}", s.p.name, n, show_pair(&s.pr)));
        if s.p.ibke != "sigdh" {
            c.check(s.result() == b.result(), "an interleaved session differs from the same session alone", || {
                format!("{} among {} sessions (schedule {}): {}; {}", s.p.name, n, hex(&schedule), differ(&s.result(), &b.result()), show_pair(&s.pr))
            });
        }
    }
}

/// The same keys used by all threads
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
fn shared_saber(c: &mut Case) {
    macro_rules! go {
        ($m:ident) => {{
            let seed = c.bytes32();
            let sk = Shared(Source::new(seed).enter(|| saber::$m::keygen()));
            let (s, ct) = Source::new(c.bytes32()).enter(|| saber::$m::encapsulate(sk.0.public_key()));
            let want = s.as_slice().to_vec();
            let ct = Shared(ct);
            let threads = 2 + c.below(10);
            let seeds: Vec<[u8; 32]> = (0..threads).map(|_| c.bytes32()).collect();
            let mut outs: Vec<Vec<Vec<u8>>> = vec![vec![]; threads];
            let (skr, ctr) = (&sk, &ct);
            let work = |seed: [u8; 32]| -> Vec<Vec<u8>> {
                Source::new(seed).enter(|| {
                    let mut o = vec![];
                    for _ in 0..3 {
                        o.push(saber::$m::decapsulate(&ctr.0, &skr.0).as_slice().to_vec());
                        let (a, b) = saber::$m::encapsulate(skr.0.public_key());
                        let d = saber::$m::decapsulate(&b, &skr.0);
                        o.push(a.as_slice().to_vec());
                        o.push(b.as_slice().to_vec());
                        o.push(d.as_slice().to_vec());
                        o.push(skr.0.to_bytes().as_slice().to_vec());
                    }
                    o
                })
            };
            {
                let w = Shared(&work);
                let w = &w;
                let fs = outs
                    .iter_mut()
                    .zip(&seeds)
                    .map(|(o, s)| {
                        let m = Moved((o, w));
                        let s = *s;
                        Box::new(move || {
                            let m = m;
                            *m.0 .0 = (m.0 .1 .0)(s)
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                together(fs, c.u64() | 1);
            }
            for (o, s) in outs.iter().zip(&seeds) {
                c.eval();
                c.count("uses of shared keys compared");
                let base = work(*s);
                c.nontrivial(&base.concat());
                c.check(*o == base, "a shared key gives something else while others use it", || format!("{} key from {}", stringify!($m), hex(&seed)));
                c.check(o.first() == Some(&want), "a shared key decapsulates differently", || format!("{} key from {}", stringify!($m), hex(&seed)));
            }
        }};
    }
    match c.idx % 3 {
        0 => go!(lightsaber),
        1 => go!(saber),
        _ => go!(firesaber),
    }
}
fn shared_dilithium(c: &mut Case) {
    let d = &DILS[c.idx % 3];
    let (pk, sk) = (d.keypair_det)(&c.bytes32());
    let threads = 2 + c.below(10);
    let m: Vec<Vec<u8>> = (0..threads).map(|_| { let n = c.below(400); c.vec(n) }).collect();
    let same = c.chance(1, 2);
    let work = |k: usize| -> Vec<Vec<u8>> {
        let m = if same { &m[0] } else { &m[k] };
        let mut o = vec![];
        for _ in 0..2 {
            let s = (d.detached)(m, &sk).unwrap_or_default();
            o.push(format!("{:?}", (d.verify)(&s, m, &pk)).into_bytes());
            o.push(format!("{:?}", (d.verify)(&s, &m[..m.len() / 2], &pk)).into_bytes());
            o.push(s);
            let sm = (d.sign)(m, &sk).unwrap_or_default();
            o.push(format!("{:?}", (d.open)(&sm, &pk)).into_bytes());
            o.push(sm);
        }
        o
    };
    let mut outs: Vec<Vec<Vec<u8>>> = vec![vec![]; threads];
    {
        let w = &work;
        let fs = outs
            .iter_mut()
            .enumerate()
            .map(|(k, o)| Box::new(move || *o = w(k)) as Box<dyn FnOnce() + Send>)
            .collect();
        together(fs, c.u64() | 1);
    }
    for (k, o) in outs.iter().enumerate() {
        c.eval();
        c.count("uses of shared keys compared");
        let base = work(k);
        c.nontrivial(&base.concat());
        c.check(*o == base, "a shared key gives something else while others use it", || format!("{} message {} key {}", d.name, hex(&m[k]), hex(&pk)));
    }
}
/// One password file, many sessions at once
fn shared_pwfile(c: &mut Case) {
    use latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sigma_r::IdSigmaREd25519};
    use latke::pake::{cpace::Cpace, kc_spake2::KcSpake2};
    macro_rules! go {
        ($i:ty, $k:ty, $name:expr) => {{
            let all = latkes();
            let p = all.iter().find(|p| p.name == $name).unwrap();
            let pr = pair(c, p);
            let fi = Shared(latke_pwfile::<$i, $k>(&pr.i.secret, &pr.i.id, pr.i.user_seed));
            let fr = Shared(latke_pwfile::<$i, $k>(&pr.r.secret, &pr.r.id, pr.r.user_seed));
            let threads = 2 + c.below(7);
            let seeds: Vec<[u8; 32]> = (0..threads).map(|_| c.bytes32()).collect();
            let mut outs: Vec<(Vec<u8>, bool)> = vec![Default::default(); threads];
            let (fi, fr, n) = (&fi, &fr, p.msgs.len());
            let (ci, cr) = (&pr.i, &pr.r);
            let work = move |seed: [u8; 32]| -> (Vec<u8>, bool) {
                Source::new(seed).enter(|| {
                    let (mut a, mut b) = (ci.clone(), cr.clone());
                    a.rng_seed = h64(&seed);
                    b.rng_seed = h64(&seed) ^ 1;
                    let mut i = LatkeParty::<$i, $k>::with_pwfile(&a, fi.0.clone());
                    let mut r = LatkeParty::<$i, $k>::with_pwfile(&b, fr.0.clone());
                    let t = faithful(&mut i, &mut r, n + 4);
                    let ok = match (accepted(&i), accepted(&r)) {
                        (Some(x), Some(y)) => x.key == y.key && x.id == Some(b.id) && y.id == Some(a.id),
                        _ => false,
                    };
                    ([t.bytes(), outcome(&i, &r, &t)].concat(), ok)
                })
            };
            let w = &work;
            let fs = outs
                .iter_mut()
                .zip(&seeds)
                .map(|(o, s)| {
                    let s = *s;
                    let m = Moved((o, Shared(w)));
                    Box::new(move || {
                        let m = m;
                        let Moved((o, w)) = m;
                        *o = (w.0)(s)
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            together(fs, c.u64() | 1);
            for (o, s) in outs.iter().zip(&seeds) {
                c.eval();
                c.count("sessions from one password file");
                let base = work(*s);
                c.nontrivial(&base.0);
                c.check(o.1, "a session from a shared password file does not complete", || format!("{} {}", $name, show_pair(&pr)));
                c.check(o.0 == base.0, "a session from a shared password file differs from the same one alone", || format!("{}: {}; {}", $name, differ(&o.0, &base.0), show_pair(&pr)));
            }
        }};
    }
    match c.idx % 3 {
        0 => go!(FgIbkeC, KcSpake2, "latke-pre/fg/kcspake2"),
        1 => go!(IdHmqvC, Cpace, "latke-post/hmqv/cpace"),
        _ => go!(IdSigmaREd25519, Cpace, "latke-post/sigma-ed25519/cpace"),
    }
}

/// Everything at once as the first thing a process does, and alone as the first thing
fn cold(c: &mut Case) {
    let ops = all_ops();
    let threads = 2 + c.below(7);
    let s = if c.chance(1, 3) { (0..threads).map(|_| vec![(pick(c, None), c.bytes32())]).collect() } else { scripts(c, threads, 1) };
    let base: Vec<Vec<Done>> = s.iter().map(|x| alone(x)).collect();
    let single = c.chance(1, 3);
    let take: Vec<&Vec<Job>> = if single { vec![&s[0]] } else { s.iter().collect() };
    let mut text = format!("{}\n", c.u64() | 1);
    for t in &take {
        text += &format!("{} {}\n", t[0].0, t[0].1.iter().map(|b| format!("{:02x}", b)).collect::<String>());
    }
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.arg("--worker-conc")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped());
    let mut ch = cmd.spawn().expect("worker");
    std::io::Write::write_all(&mut ch.stdin.take().unwrap(), text.as_bytes()).unwrap();
    let out = ch.wait_with_output().expect("worker");
    let names: Vec<&String> = take.iter().map(|t| &ops[t[0].0].name).collect();
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr);
        let o = String::from_utf8_lossy(&out.stdout);
        if out.status.code() == Some(9) {
            c.count("workers that could not run");
            return;
        }
        c.fail("a fresh process breaks down", format!("{:?} running {:?}: {} {}", out.status, names, o.chars().take(500).collect::<String>(), e.chars().take(3000).collect::<String>()));
        return;
    }
    let o = String::from_utf8_lossy(&out.stdout);
    let got: Vec<u64> = o.lines().filter_map(|l| u64::from_str_radix(l.strip_prefix("OUT ")?, 16).ok()).collect();
    for (k, t) in take.iter().enumerate() {
        c.eval();
        c.count(if single { "first operations of a process compared" } else { "simultaneous first operations compared" });
        c.nontrivial(&base[k][0].full);
        c.check(got.get(k) == Some(&base[k][0].out), "an operation gives something else in a fresh process", || format!("{} with seed {} among {:?}", names[k], hex(&t[0].1), names));
    }
}
pub fn worker() -> i32 {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    install_panic_hook();
    let mut l = s.lines();
    let j = l.next().unwrap().parse().unwrap();
    let scripts: Vec<Vec<Job>> = l
        .map(|l| {
            let (k, h) = l.split_once(' ').unwrap();
            let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            vec![(k.parse().unwrap(), b.try_into().unwrap())]
        })
        .collect();
    let _ = all_ops();
    for r in run_scripts(&scripts, j) {
        println!("OUT {:x}", r[0].out);
    }
    0
}

pub fn c23(th: bool, variant: &str) -> Plan {
    let tsan = variant == "tsan";
    let f = |n: usize, m: usize| {
        let n = if tsan { m } else { n };
        if th { n * 10 } else { n }
    };
    // (a sanitizer holds signals back)
    let signals = variant == "release" || variant.is_empty();
    PREEMPTING.store(signals, std::sync::atomic::Ordering::Relaxed);
    let mut groups = vec![
        group("parallel", f(800, 200), parallel),
        group("history", f(400, 30), history),
        group("interleaved", f(250, 30), |c| interleaved(c, false)),
        group("wandering", f(120, 40), |c| interleaved(c, true)),
        group("shared Saber keys", f(120, 36), shared_saber),
        group("shared Dilithium keys", f(120, 36), shared_dilithium),
        group("shared password files", f(48, 18), shared_pwfile),
        group("fresh processes", f(200, 60), cold),
    ];
    if signals {
        groups.push(group("preempted", f(6 * all_ops().len(), 0), preempted));
    }
    Plan {
        groups,
        rule: "one operation run among others, compared with the same operation alone on a fresh thread",
        need: vec![("executions compared", 500), ("operations", 60), ("overlapping pairs of operations", 100), ("repetitions compared", 20), ("interleaved sessions compared", 20), ("uses of shared keys compared", 40), ("simultaneous first operations compared", 10)],
        assumptions: vec![
            "schedules are those of the operating system, varied with yields and sleeps at allocations and random requests",
            "the ephemeral keys of the signed Diffie-Hellman exchange come from a per-thread generator, so its messages are compared only between equal histories of a thread",
        ],
    }
}
