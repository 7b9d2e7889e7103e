//! The executor: runs the cases of a property on all cores, each on a fresh thread with its own
//! deterministic entropy, collects what the monitors observed, prints verdicts, writes evidence.
use crate::entropy;
use blake2::{Blake2b512, Digest};
use rand_chacha::ChaCha20Rng;
use rand_core::{RngCore, SeedableRng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Case {
    pub rng: ChaCha20Rng,
    pub idx: usize,
    pub seed: [u8; 32],
    pub thorough: bool,
    stats: BTreeMap<String, u64>,
    sets: HashMap<String, HashSet<u64>>,
    samples: Vec<String>,
    viol: Vec<(String, String)>,
}

pub fn h64(b: &[u8]) -> u64 {
    u64::from_le_bytes(Blake2b512::digest(b)[..8].try_into().unwrap())
}

/// Attribution of crashes, to be handed to threads that work for a case
pub fn current() -> (usize, usize, usize) {
    let (p, n, i) = CUR.with(|c| c.get());
    (p as usize, n, i)
}
pub fn set_current(c: (usize, usize, usize)) {
    CUR.with(|x| x.set((c.0 as *const u8, c.1, c.2)))
}

impl Case {
    /// A case outside the executor
    pub fn from_seed(seed: [u8; 32]) -> Case {
        Case {
            rng: ChaCha20Rng::from_seed(seed),
            idx: usize::MAX,
            seed,
            thorough: false,
            stats: Default::default(),
            sets: Default::default(),
            samples: vec![],
            viol: vec![],
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_default() += n
    }
    /// One more execution of the code under test was observed and judged
    pub fn eval(&mut self) {
        self.add("evaluations", 1)
    }
    /// Records a distinct observation under a name
    pub fn seen(&mut self, set: &str, b: &[u8]) {
        self.sets.entry(set.to_string()).or_default().insert(h64(b));
    }
    /// Records a distinct non-trivial case
    pub fn nontrivial(&mut self, b: &[u8]) {
        self.seen("nontrivial", b)
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 && self.idx < 3 {
            let mut s = s();
            if s.len() > 700 {
                let mut n = 700;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n)
            }
            self.samples.push(s)
        }
    }
    /// A violation. `sig` is a short stable signature, `detail` the witness.
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.viol.len() < 20 {
            self.viol.push((sig.into(), detail.into()))
        }
    }
    /// Forgets the violations recorded so far (of a borrowed workload)
    pub fn drop_verdicts(&mut self) {
        self.viol.clear();
        self.samples.clear();
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.fail(sig, d)
        }
        ok
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0; 32];
        self.rng.fill_bytes(&mut b);
        b
    }
    pub fn u64(&mut self) -> u64 {
        self.rng.next_u64()
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.rng.next_u64() % (n as u64).max(1)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn vec(&mut self, n: usize) -> Vec<u8> {
        let mut b = vec![0; n];
        self.rng.fill_bytes(&mut b);
        b
    }
}

pub struct Group {
    pub name: String,
    pub n: usize,
    pub f: Box<dyn Fn(&mut Case) + Sync + Send>,
}

pub fn group(
    name: impl Into<String>,
    n: usize,
    f: impl Fn(&mut Case) + Sync + Send + 'static,
) -> Group {
    Group { name: name.into(), n, f: Box::new(f) }
}

pub struct Plan {
    pub groups: Vec<Group>,
    pub rule: &'static str,
    /// Counters that must reach these minima, or the run is inconclusive
    pub need: Vec<(&'static str, u64)>,
    pub assumptions: Vec<&'static str>,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub budget: Duration,
    pub only: Option<(String, usize)>,
    pub root: String,
    /// Name of the build variant, kept in the evidence
    pub variant: String,
    /// Where to write the evidence
    pub evidence: String,
    pub scale: f64,
    /// Part i of n of the cases: what was observed is then judged over all parts together
    pub shard: Option<(usize, usize)>,
    /// Distinguishes the replay files of several runs of one check
    pub tag: String,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CUR: Cell<(*const u8, usize, usize)> = const { Cell::new((std::ptr::null(), 0, 0)) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs code under test; a panic is returned as its message
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

static mut CRASH_PREFIX: [u8; 512] = [0; 512];
static mut CRASH_PREFIX_LEN: usize = 0;

extern "C" fn on_crash(sig: libc::c_int) {
    unsafe {
        // async-signal-safe reporting: "CRASH sig=.. case=group:idx", picked up by the runner
        let (p, n, idx) = CUR.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0, 0));
        let mut buf = [0u8; 1024];
        let mut k = 0;
        let mut put = |s: &[u8]| {
            for &b in s {
                if k < buf.len() {
                    buf[k] = b;
                    k += 1
                }
            }
        };
        fn num(mut v: usize, out: &mut [u8; 24]) -> usize {
            let mut t = [0u8; 24];
            let mut i = 0;
            loop {
                t[i] = b'0' + (v % 10) as u8;
                v /= 10;
                i += 1;
                if v == 0 {
                    break;
                }
            }
            for j in 0..i {
                out[j] = t[i - 1 - j]
            }
            i
        }
        let mut d = [0u8; 24];
        put(b"CRASH sig=");
        let l = num(sig as usize, &mut d);
        put(&d[..l]);
        put(b" case=");
        if !p.is_null() {
            put(std::slice::from_raw_parts(p, n));
        }
        put(b":");
        let l = num(idx, &mut d);
        put(&d[..l]);
        put(b"\n");
        // straight to the kernel: the sanitizers wrap write and _exit, and ThreadSanitizer would wait
        // there for locks that it holds while it dies of a report
        libc::syscall(libc::SYS_write, 1, buf.as_ptr(), k);
        libc::syscall(libc::SYS_exit_group, 77);
    }
}

pub fn install_crash_handler() {
    if std::env::var_os("HARNESS_NO_CRASH_HANDLER").is_some() {
        return;
    }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_crash as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

#[derive(Default)]
struct Total {
    stats: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    samples: BTreeMap<String, Vec<String>>,
    groups: BTreeMap<String, u64>,
    viol: Vec<(String, usize, String, String)>,
}

pub fn case_seed(seed: u64, prop: &str, group: &str, idx: usize) -> [u8; 32] {
    let mut h = Blake2b512::new();
    h.update(seed.to_le_bytes());
    h.update(prop.as_bytes());
    h.update([0]);
    h.update(group.as_bytes());
    h.update([0]);
    h.update((idx as u64).to_le_bytes());
    h.finalize()[..32].try_into().unwrap()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The libraries remember process-wide whether the random source works: they learn it here, before
/// any injected fault
fn warm_up() {
    let mut b = [0; 32];
    rand::RngCore::fill_bytes(&mut rand::rngs::OsRng, &mut b);
    let _ = saber::lightsaber::keygen();
    let _ = pqcrypto_dilithium::dilithium2::keypair();
}

/// Why this process does not get on: a thread that has computed for 100 s (each case has threads of its own, and none
/// needs more than a few seconds of processor time), or nothing but threads that wait for each other
fn stuck() -> Option<String> {
    // (clock ticks per second: 100 on every Linux)
    let look = || -> Vec<(String, char, u64)> {
        let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
        let mut r = vec![];
        for t in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
            let id = t.file_name().to_string_lossy().into_owned();
            let Ok(x) = std::fs::read_to_string(t.path().join("stat")) else { continue };
            let f: Vec<&str> = x.rsplit(')').next().unwrap_or("").split_whitespace().collect();
            if f.len() > 12 && id != me {
                r.push((id, f[0].chars().next().unwrap_or('R'), f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)));
            }
        }
        r
    };
    let a = look();
    if let Some((_, _, n)) = a.iter().find(|t| t.2 >= 100 * 100) {
        return Some(format!("one of its threads has computed for {} s", n / 100));
    }
    let children = || {
        std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten().any(|t| {
            std::fs::read_to_string(t.path().join("children")).map_or(true, |c| !c.trim().is_empty())
        })
    };
    for _ in 0..20 {
        std::thread::sleep(Duration::from_millis(500));
        if look() != a || children() {
            return None;
        }
    }
    (!a.is_empty() && a.iter().all(|t| t.1 == 'S')).then(|| format!("its {} threads wait, and nothing happens", a.len()))
}

/// Returns the process exit code
pub fn run(plan: Plan, o: &Opts) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    install_crash_handler();
    warm_up();
    let mut jobs: Vec<(f64, usize, usize)> = Vec::new();
    for (gi, g) in plan.groups.iter().enumerate() {
        match &o.only {
            Some((name, idx)) => {
                if &g.name == name {
                    jobs.push((0.0, gi, *idx))
                }
            }
            None => {
                let n = ((g.n as f64) * o.scale).ceil() as usize;
                for i in 0..n {
                    jobs.push((i as f64 / n as f64, gi, i))
                }
            }
        }
    }
    if jobs.is_empty() {
        println!("INCONCLUSIVE property={} no cases selected", o.prop);
        return 2;
    }
    jobs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if let (Some((i, n)), None) = (o.shard, &o.only) {
        let mut k = 0;
        jobs.retain(|_| {
            k += 1;
            (k - 1) % n == i
        });
    }
    // (not where the cases are processes or races, or too slow)
    let again = !["C13", "C22", "C23", "C24", "C25"].contains(&o.prop.as_str());
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Total::default());
    let stop = AtomicBool::new(false);
    let done_threads = AtomicUsize::new(0);
    let running: Vec<Mutex<Option<(Instant, String)>>> =
        (0..o.threads).map(|_| Mutex::new(None)).collect();
    let truncated = AtomicUsize::new(0);
    let mut hang = None;
    std::thread::scope(|s| {
        for t in 0..o.threads {
            let (next, total, jobs, plan, running, stop, done_threads, truncated) = (
                &next, &total, &jobs, &plan, &running, &stop, &done_threads, &truncated,
            );
            s.spawn(move || {
                loop {
                    let j = next.fetch_add(1, Ordering::Relaxed);
                    if j >= jobs.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if t0.elapsed() > o.budget {
                        truncated.fetch_add(1, Ordering::Relaxed);
                        continue;
                    }
                    let (_, gi, idx) = jobs[j];
                    let g = &plan.groups[gi];
                    *running[t].lock().unwrap() = Some((Instant::now(), format!("{}:{}", g.name, idx)));
                    let seed = case_seed(o.seed, &o.prop, &g.name, idx);
                    let case = run_case(g, idx, seed, o.thorough, again);
                    *running[t].lock().unwrap() = None;
                    let mut tot = total.lock().unwrap();
                    *tot.groups.entry(g.name.clone()).or_default() += 1;
                    for (k, v) in case.stats {
                        *tot.stats.entry(k).or_default() += v
                    }
                    for (k, v) in case.sets {
                        tot.sets.entry(k).or_default().extend(v)
                    }
                    let sm = tot.samples.entry(g.name.clone()).or_default();
                    if sm.len() < 2 {
                        sm.extend(case.samples)
                    }
                    for (sig, d) in case.viol {
                        tot.viol.push((g.name.clone(), idx, sig, d))
                    }
                    if tot.viol.len() > 200 {
                        stop.store(true, Ordering::Relaxed)
                    }
                }
                done_threads.fetch_add(1, Ordering::Relaxed);
            });
        }
        // Watchdog: a stuck case is a violation only when it computes for ever or waits for nothing, whatever else
        // the machine does; otherwise it gives no answer
        let slow_build = !["release", ""].contains(&o.variant.as_str());
        let mut next_look = t0;
        loop {
            std::thread::sleep(Duration::from_millis(20));
            if done_threads.load(Ordering::Relaxed) == o.threads {
                break;
            }
            for r in &running {
                if let Some((st, name)) = &*r.lock().unwrap() {
                    if st.elapsed() > Duration::from_secs(if slow_build { 240 } else { 480 }) {
                        hang = Some(name.clone());
                    }
                    if !slow_build && st.elapsed() > Duration::from_secs(120) && next_look < Instant::now() {
                        next_look = Instant::now() + Duration::from_secs(5);
                        if let Some(how) = stuck() {
                            let (g, idx) = name.rsplit_once(':').unwrap();
                            total.lock().unwrap().viol.push((g.into(), idx.parse().unwrap(), "a case never ends".into(), format!("{name}: {how}")));
                            hang = Some(name.clone());
                        }
                    }
                }
            }
            if let Some(h) = &hang {
                let tot = total.lock().unwrap();
                if tot.viol.is_empty() {
                    println!("INCONCLUSIVE property={} case {} did not finish", o.prop, h);
                    std::process::exit(2);
                }
                // violations were observed elsewhere: report them
                let code = report(&plan, o, &tot, t0, &truncated);
                std::process::exit(code);
            }
        }
    });
    let tot = total.lock().unwrap();
    report(&plan, o, &tot, t0, &truncated)
}

fn run_case(g: &Group, idx: usize, seed: [u8; 32], thorough: bool, again: bool) -> Case {
    let name = g.name.clone();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(s, move || {
                CUR.with(|c| c.set((name.as_ptr(), name.len(), idx)));
                let mut rs = seed;
                rs[0] ^= 0x5a;
                let once = || {
                    let _e = entropy::Guard::new(seed);
                    let mut case = Case {
                        rng: ChaCha20Rng::from_seed(rs),
                        idx,
                        seed,
                        thorough,
                        stats: Default::default(),
                        sets: Default::default(),
                        samples: vec![],
                        viol: vec![],
                    };
                    let r = catch_unwind(AssertUnwindSafe(|| (g.f)(&mut case)));
                    if r.is_err() {
                        let p = last_panic();
                        case.fail("unexpected panic", format!("unexpected panic: {}", p));
                    }
                    case
                };
                let mut case = once();
                // everything again on the same thread: what was refused once is refused again
                if again && seed[1] & 3 == 0 && case.viol.is_empty() {
                    case.viol = once().viol.into_iter().map(|(a, b)| (a, format!("(the second time) {}", b))).collect();
                    case.count("cases run twice on one thread");
                }
                CUR.with(|c| c.set((std::ptr::null(), 0, 0)));
                case
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn known(o: &Opts) -> Vec<(String, String)> {
    // lines "finding: property=<id> key=<group>|<signature> <text>"
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", o.root)) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let pre = format!("property={} key=", o.prop);
                if let Some(r) = r.strip_prefix(&pre) {
                    let mut it = r.splitn(2, " :: ");
                    let key = it.next().unwrap_or("").to_string();
                    v.push((key, it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}

fn report(plan: &Plan, o: &Opts, tot: &Total, t0: Instant, truncated: &AtomicUsize) -> i32 {
    let kn = known(o);
    let mut kn_hit: BTreeSet<usize> = BTreeSet::new();
    let mut fresh: Vec<&(String, usize, String, String)> = vec![];
    for v in &tot.viol {
        let key = format!("{}|{}", v.0, v.2);
        match kn.iter().position(|k| k.0 == key) {
            Some(i) => {
                kn_hit.insert(i);
            }
            None => fresh.push(v),
        }
    }
    for (k, text) in &kn {
        println!("KNOWN-FINDING: property={} {} {}", o.prop, k, text);
    }
    let evals = *tot.stats.get("evaluations").unwrap_or(&0);
    let nontriv = tot.sets.get("nontrivial").map(|s| s.len()).unwrap_or(0);
    let mut short = vec![];
    if o.only.is_none() && o.shard.is_none() {
        for (k, min) in &plan.need {
            let have = tot
                .stats
                .get(*k)
                .copied()
                .unwrap_or(0)
                .max(tot.sets.get(*k).map(|s| s.len() as u64).unwrap_or(0));
            if have < *min {
                short.push(format!("{} {} < {}", k, have, min))
            }
        }
        if evals == 0 || nontriv == 0 {
            short.push(format!("evaluations {} nontrivial {}", evals, nontriv))
        }
    }
    let mut code = 0;
    if !fresh.is_empty() {
        code = 1;
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let mut seen = HashSet::new();
        let mut shown = 0;
        for v in &fresh {
            if !seen.insert((&v.0, &v.2)) {
                continue;
            }
            let path = format!("{}/{}-{}{}.json", dir, o.prop, o.tag, shown);
            let body = format!(
                "{{\"property\": {}, \"group\": {}, \"case\": {}, \"seed\": {}, \"tier\": {}, \"variant\": {}, \"signature\": {}, \"detail\": {}, \"replay\": {}}}\n",
                js(&o.prop), js(&v.0), v.1, o.seed,
                js(if o.thorough { "thorough" } else { "quick" }),
                js(&o.variant), js(&v.2), js(&v.3),
                js(&format!("cd /verif && ./check.sh {} --replay {}", o.prop, path)),
            );
            let _ = std::fs::write(&path, body);
            println!("VIOLATION property={} replay={}", o.prop, path);
            println!("  [{}:{}] {}: {}", v.0, v.1, v.2, v.3);
            shown += 1;
            if shown >= 10 {
                break;
            }
        }
        println!("{} violating observations in all", fresh.len());
    } else if !short.is_empty() {
        println!("INCONCLUSIVE property={} too little observed: {}", o.prop, short.join(", "));
        code = 2;
    }
    let mut counters: Vec<String> = tot
        .stats
        .iter()
        .filter(|(k, _)| *k != "evaluations")
        .map(|(k, v)| format!("{}: {}", js(k), v))
        .collect();
    for (k, v) in &tot.sets {
        if k != "nontrivial" {
            counters.push(format!("{}: {}", js(&format!("distinct {}", k)), v.len()))
        }
    }
    let groups: Vec<String> = tot.groups.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let mut samples: Vec<String> = vec![];
    let per = if tot.samples.len() > 12 { 1 } else { 2 };
    for (g, ss) in &tot.samples {
        for s in ss.iter().take(per) {
            if samples.len() < 24 {
                samples.push(js(&format!("{}: {}", g, s)))
            }
        }
    }
    let need = match o.shard {
        None => String::new(),
        Some(_) => format!(
            "  \"need\": {{{}}},\n",
            plan.need.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        ),
    };
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"observed\": {{{}}},\n  \"cases_per_group\": {{{}}},\n  \"build\": {},\n{}  \"cases_skipped_for_time\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(&o.prop), js(if o.thorough { "thorough" } else { "quick" }), o.seed,
        evals, nontriv, js(plan.rule), counters.join(", "), groups.join(", "), js(&o.variant), need,
        truncated.load(Ordering::Relaxed), samples.join(",\n   "),
        plan.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(), fresh.len()
    );
    if o.only.is_none() {
        if let Ok(mut f) = std::fs::File::create(&o.evidence) {
            let _ = f.write_all(ev.as_bytes());
        }
        if o.shard.is_some() {
            let mut t = String::new();
            for (k, v) in &tot.sets {
                for h in v {
                    t += &format!("{:016x} {}\n", h, k)
                }
            }
            let _ = std::fs::write(format!("{}.sets", o.evidence), t);
        }
    }
    println!(
        "{} property={} evaluations={} distinct={} skipped={} wall={:.1}s",
        match code { 0 => "HELD", 1 => "BROKEN", _ => "INCONCLUSIVE" },
        o.prop, evals, nontriv, truncated.load(Ordering::Relaxed), t0.elapsed().as_secs_f64()
    );
    code
}
