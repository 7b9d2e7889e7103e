//! BLAKE2b-256, HMAC and HKDF over it, and the authenticated encryption of LATKE
use blake2::{digest::consts::U32, Blake2b, Blake2b512, Digest};
use chacha20::cipher::{KeyIvInit, StreamCipher};

pub fn h256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Blake2b::<U32>::new();
    for p in parts {
        h.update(p)
    }
    h.finalize().into()
}
pub fn h512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Blake2b512::new();
    for p in parts {
        h.update(p)
    }
    h.finalize().into()
}
pub fn scalar(parts: &[&[u8]]) -> curve25519_dalek::Scalar {
    curve25519_dalek::Scalar::from_bytes_mod_order_wide(&h512(parts))
}
/// HMAC (RFC 2104) with the 128-byte block of BLAKE2b
pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 128];
    if key.len() > 128 {
        k[..32].copy_from_slice(&h256(&[key]))
    } else {
        k[..key.len()].copy_from_slice(key)
    }
    let ip: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let op: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut inner = vec![&ip[..]];
    inner.extend_from_slice(parts);
    let i = h256(&inner);
    h256(&[&op, &i])
}
pub fn extract(salt: &[u8], ikm: &[u8]) -> [u8; 32] {
    hmac(salt, &[ikm])
}
/// HKDF-Expand (RFC 5869)
pub fn expand(prk: &[u8], info: &[&[u8]], n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 1u8;
    while out.len() < n {
        let mut p: Vec<&[u8]> = vec![&t];
        p.extend_from_slice(info);
        let c = [i];
        p.push(&c);
        let r = hmac(prk, &p);
        t = r.to_vec();
        out.extend_from_slice(&t);
        i += 1;
    }
    out.truncate(n);
    out
}
pub fn expand32(prk: &[u8], info: &[&[u8]]) -> [u8; 32] {
    expand(prk, info, 32).try_into().unwrap()
}

pub fn seal(key: &[u8], nonce: &[u8; 12], msg: &[u8]) -> Vec<u8> {
    let mut b = msg.to_vec();
    chacha20::ChaCha20::new(key[..32].into(), nonce.into()).apply_keystream(&mut b);
    b.extend_from_slice(nonce);
    let m = hmac(&key[32..64], &[&b]);
    b.extend_from_slice(&m);
    b
}
pub fn open(key: &[u8], sealed: &[u8]) -> Option<Vec<u8>> {
    if sealed.len() < 44 {
        return None;
    }
    let (cn, mac) = sealed.split_at(sealed.len() - 32);
    if hmac(&key[32..64], &[cn])[..] != *mac {
        return None;
    }
    let (c, n) = cn.split_at(cn.len() - 12);
    let mut b = c.to_vec();
    chacha20::ChaCha20::new(key[..32].into(), n.into()).apply_keystream(&mut b);
    Some(b)
}
