//! Dilithium as vendored (the FIPS 204 draft: 64-byte tr, deterministic signing), written from the
//! specification; the signer can be told to stop obeying one of the rejection rules.
use super::keccak::{shake128, shake256};

pub const Q: i64 = 8380417;
const D: u32 = 13;
pub const N: usize = 256;
pub type Poly = [i64; N];

#[derive(Clone, Copy, Debug)]
pub struct P {
    pub name: &'static str,
    pub k: usize,
    pub l: usize,
    pub eta: i64,
    pub tau: usize,
    pub beta: i64,
    pub g1: i64,
    pub g2: i64,
    pub omega: usize,
    pub ctilde: usize,
}
pub const D2: P = P { name: "dilithium2", k: 4, l: 4, eta: 2, tau: 39, beta: 78, g1: 1 << 17, g2: (Q - 1) / 88, omega: 80, ctilde: 32 };
pub const D3: P = P { name: "dilithium3", k: 6, l: 5, eta: 4, tau: 49, beta: 196, g1: 1 << 19, g2: (Q - 1) / 32, omega: 55, ctilde: 48 };
pub const D5: P = P { name: "dilithium5", k: 8, l: 7, eta: 2, tau: 60, beta: 120, g1: 1 << 19, g2: (Q - 1) / 32, omega: 75, ctilde: 64 };

impl P {
    pub fn pk_len(&self) -> usize {
        32 + self.k * 320
    }
    fn eta_bits(&self) -> u32 {
        if self.eta == 2 {
            3
        } else {
            4
        }
    }
    fn z_bits(&self) -> u32 {
        if self.g1 == 1 << 17 {
            18
        } else {
            20
        }
    }
    fn w1_bits(&self) -> u32 {
        if self.g2 == (Q - 1) / 88 {
            6
        } else {
            4
        }
    }
    pub fn sk_len(&self) -> usize {
        128 + (self.k + self.l) * 32 * self.eta_bits() as usize + self.k * 416
    }
    pub fn z_len(&self) -> usize {
        self.l * 32 * self.z_bits() as usize
    }
    pub fn sig_len(&self) -> usize {
        self.ctilde + self.z_len() + self.omega + self.k
    }
}

fn bits_pack(c: impl Iterator<Item = i64>, n: u32) -> Vec<u8> {
    let (mut acc, mut have, mut out) = (0u64, 0, vec![]);
    for v in c {
        assert!(v >= 0 && v < 1 << n, "value {} does not fit in {} bits", v, n);
        acc |= (v as u64) << have;
        have += n;
        while have >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            have -= 8;
        }
    }
    assert_eq!(have, 0);
    out
}
fn bits_unpack(b: &[u8], n: u32) -> Poly {
    let mut p = [0; N];
    for (i, c) in p.iter_mut().enumerate() {
        for j in 0..n as usize {
            let k = i * n as usize + j;
            *c |= ((b[k / 8] >> (k % 8) & 1) as i64) << j;
        }
    }
    p
}

fn zetas() -> &'static [i64; N] {
    static Z: std::sync::OnceLock<[i64; N]> = std::sync::OnceLock::new();
    Z.get_or_init(|| {
        let mut pow = [1i64; N];
        for i in 1..N {
            pow[i] = pow[i - 1] * 1753 % Q
        }
        std::array::from_fn(|i| pow[(i as u8).reverse_bits() as usize])
    })
}
fn ntt(a: &Poly) -> Poly {
    let (z, mut a, mut k, mut len) = (zetas(), *a, 0, 128);
    while len > 0 {
        let mut s = 0;
        while s < N {
            k += 1;
            for j in s..s + len {
                let t = (z[k] * a[j + len]).rem_euclid(Q);
                a[j + len] = (a[j] - t).rem_euclid(Q);
                a[j] = (a[j] + t).rem_euclid(Q);
            }
            s += 2 * len;
        }
        len /= 2;
    }
    a
}
fn intt(a: &Poly) -> Poly {
    let (z, mut a, mut k, mut len) = (zetas(), *a, N, 1);
    while len < N {
        let mut s = 0;
        while s < N {
            k -= 1;
            for j in s..s + len {
                let t = a[j];
                a[j] = (t + a[j + len]).rem_euclid(Q);
                a[j + len] = (-z[k] * (t - a[j + len])).rem_euclid(Q);
            }
            s += 2 * len;
        }
        len *= 2;
    }
    let inv = 8347681; // 256^-1
    a.map(|x| x * inv % Q)
}
fn mulp(a: &Poly, b: &Poly) -> Poly {
    std::array::from_fn(|i| a[i] * b[i] % Q)
}
fn add(a: &Poly, b: &Poly) -> Poly {
    std::array::from_fn(|i| (a[i] + b[i]).rem_euclid(Q))
}
fn sub(a: &Poly, b: &Poly) -> Poly {
    std::array::from_fn(|i| (a[i] - b[i]).rem_euclid(Q))
}
/// Representative in (-Q/2, Q/2]
pub fn centre(x: i64) -> i64 {
    let x = x.rem_euclid(Q);
    if x > (Q - 1) / 2 {
        x - Q
    } else {
        x
    }
}
fn norm(v: &[Poly]) -> i64 {
    v.iter().flatten().map(|x| centre(*x).abs()).max().unwrap()
}

fn matrix(p: &P, rho: &[u8]) -> Vec<Vec<Poly>> {
    (0..p.k)
        .map(|i| {
            (0..p.l)
                .map(|j| {
                    let s = shake128(&[rho, &[j as u8, i as u8]].concat(), 168 * 12);
                    let mut it = s.chunks(3).map(|c| (c[0] as i64 | (c[1] as i64) << 8 | (c[2] as i64) << 16) & 0x7fffff).filter(|v| *v < Q);
                    std::array::from_fn(|_| it.next().expect("more SHAKE output needed"))
                })
                .collect()
        })
        .collect()
}
fn small(p: &P, seed: &[u8], nonce: u16) -> Poly {
    let s = shake256(&[seed, &nonce.to_le_bytes()].concat(), 136 * 8);
    let mut it = s.iter().flat_map(|b| [b & 15, b >> 4]).filter_map(|t| {
        if p.eta == 2 {
            (t < 15).then(|| 2 - (t % 5) as i64)
        } else {
            (t < 9).then(|| 4 - t as i64)
        }
    });
    std::array::from_fn(|_| it.next().expect("more SHAKE output needed"))
}
fn mat_vec(a: &[Vec<Poly>], v: &[Poly]) -> Vec<Poly> {
    a.iter()
        .map(|row| {
            let mut s = [0; N];
            for (x, y) in row.iter().zip(v) {
                s = add(&s, &mulp(x, y))
            }
            intt(&s)
        })
        .collect()
}
fn ntts(v: &[Poly]) -> Vec<Poly> {
    v.iter().map(ntt).collect()
}

/// The secret polynomials made from 32 coin bytes: (rho, K, s1, s2)
pub fn secrets(p: &P, coins: &[u8; 32]) -> ([u8; 32], [u8; 32], Vec<Poly>, Vec<Poly>) {
    let s = shake256(coins, 128);
    let (rho, rp, key) = (&s[..32], &s[32..96], &s[96..]);
    let s1: Vec<Poly> = (0..p.l).map(|i| small(p, rp, i as u16)).collect();
    let s2: Vec<Poly> = (0..p.k).map(|i| small(p, rp, (p.l + i) as u16)).collect();
    (rho.try_into().unwrap(), key.try_into().unwrap(), s1, s2)
}
/// The most SHAKE256 blocks that sampling any secret polynomial takes
pub fn sampling_blocks(p: &P, coins: &[u8; 32]) -> usize {
    let s = shake256(coins, 128);
    (0..p.l + p.k)
        .map(|n| {
            let s = shake256(&[&s[32..96], &(n as u16).to_le_bytes()].concat(), 136 * 8);
            let mut have = 0;
            for (i, t) in s.iter().flat_map(|b| [b & 15, b >> 4]).enumerate() {
                have += (t < if p.eta == 2 { 15 } else { 9 }) as usize;
                if have == N {
                    return i / 2 / 136 + 1;
                }
            }
            unreachable!()
        })
        .max()
        .unwrap()
}
pub fn keygen(p: &P, coins: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    let (rho, key, s1, s2) = secrets(p, coins);
    keygen_from(p, &rho, &key, &s1, &s2)
}
pub fn keygen_from(p: &P, rho: &[u8; 32], key: &[u8; 32], s1: &[Poly], s2: &[Poly]) -> (Vec<u8>, Vec<u8>) {
    let a = matrix(p, rho);
    let t: Vec<Poly> = mat_vec(&a, &ntts(s1)).iter().zip(s2).map(|(x, y)| add(x, y)).collect();
    let mut pk = rho.to_vec();
    let mut low = vec![];
    for poly in &t {
        // t = t1 2^13 + t0 with t0 in (-2^12, 2^12]
        let t1 = poly.map(|c| (c + (1 << (D - 1)) - 1) >> D);
        pk.extend(bits_pack(t1.into_iter(), 10));
        let t0: Poly = std::array::from_fn(|i| poly[i] - (t1[i] << D));
        low.extend(bits_pack(t0.iter().map(|c| (1 << (D - 1)) - c), 13));
    }
    let mut sk = [&rho[..], key, &shake256(&pk, 64)].concat();
    for v in s1.iter().chain(s2) {
        sk.extend(bits_pack(v.iter().map(|c| p.eta - c), p.eta_bits()));
    }
    sk.extend(low);
    (pk, sk)
}
/// A secret key whose t0 part is replaced (signatures made with it need not verify)
pub fn with_t0(p: &P, sk: &[u8], t0: &[Poly]) -> Vec<u8> {
    let mut sk = sk[..sk.len() - p.k * 416].to_vec();
    for v in t0 {
        sk.extend(bits_pack(v.iter().map(|c| (1 << (D - 1)) - c), 13));
    }
    sk
}

fn decompose(p: &P, r: i64) -> (i64, i64) {
    let r = r.rem_euclid(Q);
    let m = 2 * p.g2;
    let mut r0 = r % m;
    if r0 > p.g2 {
        r0 -= m
    }
    if r - r0 == Q - 1 {
        (0, r0 - 1)
    } else {
        ((r - r0) / m, r0)
    }
}
fn use_hint(p: &P, h: bool, r: i64) -> i64 {
    let m = (Q - 1) / (2 * p.g2);
    let (r1, r0) = decompose(p, r);
    match (h, r0 > 0) {
        (false, _) => r1,
        (true, true) => (r1 + 1).rem_euclid(m),
        (true, false) => (r1 - 1).rem_euclid(m),
    }
}
pub fn challenge(p: &P, ct: &[u8]) -> Poly {
    let s = shake256(&ct[..32], 136 * 4);
    let signs = u64::from_le_bytes(s[..8].try_into().unwrap());
    let mut it = s[8..].iter().map(|b| *b as usize);
    let mut c = [0; N];
    for (n, i) in (N - p.tau..N).enumerate() {
        let j = it.by_ref().find(|j| *j <= i).expect("more SHAKE output needed");
        c[i] = c[j];
        c[j] = 1 - 2 * (signs >> n & 1) as i64;
    }
    c
}
fn commitment(p: &P, mu: &[u8], w1: &[Poly]) -> Vec<u8> {
    let mut b = mu.to_vec();
    for w in w1 {
        b.extend(bits_pack(w.iter().copied(), p.w1_bits()))
    }
    shake256(&b, p.ctilde)
}

/// A rejection rule the signer obeys in the opposite sense: the signature returned breaks it and
/// obeys the others, so that only that check of a verifier can reject it
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Break {
    Nothing,
    /// The norm of z is at least gamma1 - beta
    Z,
    /// The norm of w0 - c s2 is at least gamma2 - beta (verifies all the same, as the hint repairs it)
    W0,
    /// Exactly at the bound gamma1 - beta
    ZExact,
    /// One below the bound: valid
    ZBelow,
}

pub struct Signed {
    pub sig: Vec<u8>,
    pub attempts: usize,
    /// Attempts refused by the norms of z, w0 - c s2, c t0 and the number of hints
    pub refused: [usize; 4],
    pub z: Vec<Poly>,
    pub hint: Vec<Vec<usize>>,
    pub ctilde: Vec<u8>,
}

pub fn pack_sig(p: &P, ct: &[u8], z: &[Poly], hint: &[Vec<usize>]) -> Vec<u8> {
    let mut sig = ct.to_vec();
    for v in z {
        sig.extend(bits_pack(v.iter().map(|c| p.g1 - centre(*c)), p.z_bits()));
    }
    let mut h = vec![0; p.omega + p.k];
    let mut n = 0;
    for (i, v) in hint.iter().enumerate() {
        for x in v {
            h[n] = *x as u8;
            n += 1
        }
        h[p.omega + i] = n as u8
    }
    sig.extend(h);
    sig
}

pub fn sign(p: &P, sk: &[u8], msg: &[u8]) -> Signed {
    sign_with(p, sk, msg, Break::Nothing, usize::MAX).unwrap()
}
/// `None` when no attempt among the first `max` qualifies
pub fn sign_with(p: &P, sk: &[u8], msg: &[u8], brk: Break, max: usize) -> Option<Signed> {
    assert_eq!(sk.len(), p.sk_len());
    let (rho, key, tr) = (&sk[..32], &sk[32..64], &sk[64..128]);
    let e = 32 * p.eta_bits() as usize;
    let secret = |i: usize| bits_unpack(&sk[128 + i * e..], p.eta_bits()).map(|c| p.eta - c);
    let s1: Vec<Poly> = (0..p.l).map(|i| ntt(&secret(i))).collect();
    let s2: Vec<Poly> = (0..p.k).map(|i| ntt(&secret(p.l + i))).collect();
    let o = 128 + (p.k + p.l) * e;
    let t0: Vec<Poly> = (0..p.k).map(|i| ntt(&bits_unpack(&sk[o + i * 416..], 13).map(|c| (1 << (D - 1)) - c))).collect();
    let a = matrix(p, rho);
    let mu = shake256(&[tr, msg].concat(), 64);
    let rp = shake256(&[key, &[0; 32], &mu].concat(), 64);
    let mut refused = [0; 4];
    for n in 0..max {
        let y: Vec<Poly> = (0..p.l)
            .map(|i| {
                let s = shake256(&[&rp[..], &((p.l * n + i) as u16).to_le_bytes()].concat(), 32 * p.z_bits() as usize);
                bits_unpack(&s, p.z_bits()).map(|c| p.g1 - c)
            })
            .collect();
        let w = mat_vec(&a, &ntts(&y));
        let w1: Vec<Poly> = w.iter().map(|v| v.map(|c| decompose(p, c).0)).collect();
        let w0: Vec<Poly> = w.iter().map(|v| v.map(|c| decompose(p, c).1)).collect();
        let ct = commitment(p, &mu, &w1);
        let c = ntt(&challenge(p, &ct));
        let z: Vec<Poly> = y.iter().zip(&s1).map(|(y, s)| add(y, &intt(&mulp(&c, s)))).collect();
        let nz = norm(&z);
        let z_ok = match brk {
            Break::Z => nz >= p.g1 - p.beta && nz < p.g1,
            Break::ZExact => nz == p.g1 - p.beta,
            Break::ZBelow => nz == p.g1 - p.beta - 1,
            _ => nz < p.g1 - p.beta,
        };
        if !z_ok {
            refused[0] += 1;
            continue;
        }
        let low: Vec<Poly> = w0.iter().zip(&s2).map(|(w, s)| sub(w, &intt(&mulp(&c, s)))).collect();
        if (norm(&low) >= p.g2 - p.beta) != (brk == Break::W0) {
            refused[1] += 1;
            continue;
        }
        let ct0: Vec<Poly> = t0.iter().map(|t| intt(&mulp(&c, t))).collect();
        if norm(&ct0) >= p.g2 {
            refused[2] += 1;
            continue;
        }
        // the hint tells where adding c t0 changes the high part of w - c s2
        let mut hint = vec![];
        for i in 0..p.k {
            let cs2 = intt(&mulp(&c, &s2[i]));
            hint.push(
                (0..N)
                    .filter(|j| {
                        let r = w[i][*j] - cs2[*j];
                        decompose(p, r + ct0[i][*j]).0 != w1[i][*j]
                    })
                    .collect::<Vec<_>>(),
            );
        }
        if hint.iter().map(|v| v.len()).sum::<usize>() > p.omega {
            refused[3] += 1;
            continue;
        }
        return Some(Signed { sig: pack_sig(p, &ct, &z, &hint), attempts: n + 1, refused, z, hint, ctilde: ct });
    }
    None
}

pub fn parse_hint(p: &P, b: &[u8]) -> Option<Vec<Vec<usize>>> {
    let (mut out, mut at) = (vec![], 0);
    for i in 0..p.k {
        let end = b[p.omega + i] as usize;
        if end < at || end > p.omega {
            return None;
        }
        let v: Vec<usize> = b[at..end].iter().map(|x| *x as usize).collect();
        if v.windows(2).any(|w| w[0] >= w[1]) {
            return None;
        }
        out.push(v);
        at = end;
    }
    b[at..p.omega].iter().all(|x| *x == 0).then_some(out)
}

/// A public key for which anyone can sign: with t1 = 0 the commitment does not depend on the challenge
pub fn open_key(p: &P, rho: &[u8; 32]) -> Vec<u8> {
    let mut pk = rho.to_vec();
    pk.resize(p.pk_len(), 0);
    pk
}
/// A signature for such a key with any z and any bytes for the hint. Its commitment is right for a
/// reader who checks nothing about them (and for `keep`, whose place in the list never goes back).
pub fn forge(p: &P, pk: &[u8], msg: &[u8], z: &[Poly], hint: &[u8], keep: bool) -> Vec<u8> {
    let (mut h, mut at) = (vec![[false; N]; p.k], 0);
    for i in 0..p.k {
        let end = hint[p.omega + i] as usize;
        for j in at..end.min(hint.len()) {
            h[i][hint[j] as usize] = true
        }
        at = if keep { at.max(end) } else { end };
    }
    let mu = shake256(&[&shake256(pk, 64)[..], msg].concat(), 64);
    let az = mat_vec(&matrix(p, &pk[..32]), &ntts(z));
    let w1: Vec<Poly> = (0..p.k).map(|i| std::array::from_fn(|j| use_hint(p, h[i][j], az[i][j]))).collect();
    let mut sig = commitment(p, &mu, &w1);
    for v in z {
        sig.extend(bits_pack(v.iter().map(|c| p.g1 - centre(*c)), p.z_bits()));
    }
    sig.extend(hint);
    sig
}

pub fn verify(p: &P, pk: &[u8], msg: &[u8], sig: &[u8]) -> Result<(), &'static str> {
    assert_eq!(pk.len(), p.pk_len());
    if sig.len() != p.sig_len() {
        return Err("length");
    }
    let ct = &sig[..p.ctilde];
    let zb = 32 * p.z_bits() as usize;
    let z: Vec<Poly> = (0..p.l).map(|i| bits_unpack(&sig[p.ctilde + i * zb..], p.z_bits()).map(|c| p.g1 - c)).collect();
    let hint = parse_hint(p, &sig[p.ctilde + p.l * zb..]).ok_or("hint")?;
    if norm(&z) >= p.g1 - p.beta {
        return Err("norm of z");
    }
    let mu = shake256(&[&shake256(pk, 64)[..], msg].concat(), 64);
    let c = ntt(&challenge(p, ct));
    let a = matrix(p, &pk[..32]);
    let az = mat_vec(&a, &ntts(&z));
    let w1: Vec<Poly> = (0..p.k)
        .map(|i| {
            let t1 = bits_unpack(&pk[32 + 320 * i..], 10).map(|c| c << D);
            let r = sub(&az[i], &intt(&mulp(&c, &ntt(&t1))));
            std::array::from_fn(|j| use_hint(p, hint[i].contains(&j), r[j]))
        })
        .collect();
    if commitment(p, &mu, &w1) == ct {
        Ok(())
    } else {
        Err("commitment")
    }
}
