//! Saber (round-1 style reconciliation, as in the reference code this repository ports)
use super::keccak::*;

#[derive(Clone, Copy, Debug)]
pub struct P {
    pub name: &'static str,
    pub k: usize,
    pub mu: usize,
    pub recon: usize,
}
pub const LIGHT: P = P { name: "lightsaber", k: 2, mu: 10, recon: 2 };
pub const SABER: P = P { name: "saber", k: 3, mu: 8, recon: 3 };
pub const FIRE: P = P { name: "firesaber", k: 4, mu: 6, recon: 5 };
pub const ALL: [P; 3] = [LIGHT, SABER, FIRE];

impl P {
    pub fn pk_len(&self) -> usize {
        self.k * 320 + 32
    }
    pub fn sk_cpa_len(&self) -> usize {
        self.k * 416
    }
    pub fn sk_len(&self) -> usize {
        self.sk_cpa_len() + self.pk_len() + 64
    }
    pub fn ct_len(&self) -> usize {
        self.k * 320 + (self.recon + 1) * 32
    }
}

type Poly = Vec<i64>;

fn bits_of(b: &[u8]) -> impl Fn(usize) -> i64 + '_ {
    move |i| ((b[i / 8] >> (i % 8)) & 1) as i64
}
pub fn unpack(b: &[u8], w: usize) -> Poly {
    let bit = bits_of(b);
    (0..256).map(|i| (0..w).map(|j| bit(i * w + j) << j).sum()).collect()
}
pub fn pack(p: &[i64], w: usize) -> Vec<u8> {
    let mut out = vec![0u8; 32 * w];
    for (i, c) in p.iter().enumerate() {
        for j in 0..w {
            if (c >> j) & 1 == 1 {
                out[(i * w + j) / 8] |= 1 << ((i * w + j) % 8)
            }
        }
    }
    out
}

fn mul(a: &[i64], b: &[i64]) -> Poly {
    let mut c = vec![0i64; 512];
    for i in 0..256 {
        if a[i] == 0 {
            continue;
        }
        for j in 0..256 {
            c[i + j] += a[i] * b[j]
        }
    }
    (0..256).map(|i| c[i] - c[i + 256]).collect()
}
fn add(a: &[i64], b: &[i64]) -> Poly {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}

pub fn gen_matrix(p: &P, seed: &[u8]) -> Vec<Vec<Poly>> {
    let buf = shake128(seed, p.k * p.k * 416);
    (0..p.k).map(|i| (0..p.k).map(|j| unpack(&buf[(i * p.k + j) * 416..][..416], 13)).collect()).collect()
}
pub fn gen_secret(p: &P, seed: &[u8]) -> Vec<Poly> {
    let buf = shake128(seed, p.k * p.mu * 32);
    let bit = bits_of(&buf);
    let h = p.mu / 2;
    (0..p.k)
        .map(|i| {
            (0..256)
                .map(|j| {
                    let o = (i * 256 + j) * p.mu;
                    (0..h).map(|t| bit(o + t) - bit(o + h + t)).sum()
                })
                .collect()
        })
        .collect()
}
fn round(v: &[i64]) -> Poly {
    v.iter().map(|x| ((x + 4).rem_euclid(8192)) >> 3).collect()
}

/// (public key, plain secret key)
pub fn keypair_cpa(p: &P, seed: &[u8], noise: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let a = gen_matrix(p, seed);
    let s = gen_secret(p, noise);
    let mut pk = vec![];
    for i in 0..p.k {
        let mut acc = vec![0; 256];
        for j in 0..p.k {
            acc = add(&acc, &mul(&s[j], &a[i][j]))
        }
        pk.extend(pack(&round(&acc), 10))
    }
    pk.extend_from_slice(seed);
    let sk = s.iter().flat_map(|x| pack(&x.iter().map(|c| c.rem_euclid(8192)).collect::<Vec<_>>(), 13)).collect();
    (pk, sk)
}

pub fn enc_cpa(p: &P, pk: &[u8], m: &[u8], noise: &[u8]) -> Vec<u8> {
    let a = gen_matrix(p, &pk[p.k * 320..]);
    let s = gen_secret(p, noise);
    let mut ct = vec![];
    for i in 0..p.k {
        let mut acc = vec![0; 256];
        for j in 0..p.k {
            acc = add(&acc, &mul(&s[j], &a[j][i]))
        }
        ct.extend(pack(&round(&acc), 10))
    }
    let mut v = vec![0; 256];
    for i in 0..p.k {
        v = add(&v, &mul(&s[i], &unpack(&pk[i * 320..][..320], 10)))
    }
    let bit = bits_of(m);
    let rec: Poly = (0..256)
        .map(|i| (v[i] + (bit(i) << 9)).rem_euclid(1024) >> (10 - p.recon - 1))
        .collect();
    ct.extend(pack(&rec, p.recon + 1));
    ct
}

pub fn dec_cpa(p: &P, sk: &[u8], ct: &[u8]) -> [u8; 32] {
    let mut v = vec![0; 256];
    for i in 0..p.k {
        let s: Poly = unpack(&sk[i * 416..][..416], 13);
        v = add(&v, &mul(&unpack(&ct[i * 320..][..320], 10), &s))
    }
    let rec = unpack(&ct[p.k * 320..], p.recon + 1);
    let h = (1i64 << 8) - (1 << (8 - p.recon));
    let mut m = [0u8; 32];
    for i in 0..256 {
        let t = (v[i] - (rec[i] << (10 - p.recon - 1)) + h).rem_euclid(1024);
        m[i / 8] |= ((t >> 9) as u8) << (i % 8)
    }
    m
}

/// The full secret key
pub fn keypair(p: &P, seed: &[u8], noise: &[u8], z: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let (pk, s) = keypair_cpa(p, seed, noise);
    let h = sha3_256(&pk);
    let sk = [&s[..], &pk, &h, z].concat();
    (pk, sk)
}

pub fn encaps(p: &P, pk: &[u8], m: &[u8]) -> ([u8; 32], Vec<u8>) {
    let kr = sha3_512(&[&sha3_256(pk)[..], m].concat());
    let ct = enc_cpa(p, pk, m, &kr[..32]);
    (sha3_256(&[&sha3_256(&ct)[..], &kr[32..]].concat()), ct)
}

/// (shared secret, whether the ciphertext was accepted)
pub fn decaps(p: &P, sk: &[u8], ct: &[u8]) -> ([u8; 32], bool) {
    let (s, rest) = sk.split_at(p.sk_cpa_len());
    let (pk, rest) = rest.split_at(p.pk_len());
    let (h, z) = rest.split_at(32);
    let m = dec_cpa(p, s, ct);
    let kr = sha3_512(&[h, &m[..]].concat());
    let ct2 = enc_cpa(p, pk, &m, &kr[..32]);
    let ok = ct2 == ct;
    let first = if ok { sha3_256(&ct2) } else { z.try_into().unwrap() };
    (sha3_256(&[&first[..], &kr[32..]].concat()), ok)
}

/// What the noise of encapsulations to a key is made of, to look for the heaviest
pub struct Noise<'a> {
    p: &'a P,
    a: Vec<Vec<Vec<i32>>>,
    b: Vec<Vec<i32>>,
    s: Vec<Vec<i32>>,
    h: [u8; 32],
}
fn small(p: &[i64]) -> Vec<i32> {
    p.iter().map(|x| *x as i32).collect()
}
/// acc += a * b, all small enough for 32 bits to wrap harmlessly (moduli are powers of two)
fn mac(acc: &mut [i32; 256], a: &[i32], b: &[i32]) {
    let mut c = [0i32; 512];
    for i in 0..256 {
        for j in 0..256 {
            c[i + j] = c[i + j].wrapping_add(a[i].wrapping_mul(b[j]))
        }
    }
    for i in 0..256 {
        acc[i] = acc[i].wrapping_add(c[i]).wrapping_sub(c[i + 256])
    }
}
impl<'a> Noise<'a> {
    /// From an encoded key pair
    pub fn new(p: &'a P, pk: &[u8], sk: &[u8]) -> Noise<'a> {
        Noise {
            p,
            a: gen_matrix(p, &pk[p.k * 320..]).iter().map(|r| r.iter().map(|x| small(x)).collect()).collect(),
            b: (0..p.k).map(|i| small(&unpack(&pk[i * 320..][..320], 10))).collect(),
            s: (0..p.k).map(|i| small(&unpack(&sk[i * 416..][..416], 13))).collect(),
            h: sha3_256(pk),
        }
    }
    /// The noise secret of an encapsulation of `m`
    pub fn secret(&self, m: &[u8]) -> Vec<Poly> {
        gen_secret(self.p, &sha3_512(&[&self.h[..], m].concat())[..32])
    }
    /// How far the two ends' common value differs at most
    pub fn of(&self, secret: &[Poly]) -> i32 {
        let t: Vec<Vec<i32>> = secret.iter().map(|x| small(x)).collect();
        let mut d = [0i32; 256];
        for i in 0..self.p.k {
            let mut u = [0i32; 256];
            for j in 0..self.p.k {
                mac(&mut u, &t[j], &self.a[j][i])
            }
            let u: Vec<i32> = u.iter().map(|x| (x.wrapping_add(4) & 8191) >> 3).collect();
            mac(&mut d, &self.s[i], &u);
            let minus: Vec<i32> = t[i].iter().map(|x| -x).collect();
            mac(&mut d, &minus, &self.b[i]);
        }
        d.iter().map(|x| (((x + 512) & 1023) - 512).abs()).max().unwrap()
    }
}
pub fn weight(s: &[Poly]) -> i64 {
    s.iter().flatten().map(|x| x * x).sum()
}
