//! Input generators shared by the checks.
use crate::core::Case;
use crate::party::*;
use latke::{Id, PartyRole, Ssid};

const LENS: &[usize] = &[
    1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 95, 96, 111, 112, 119, 120,
    127, 128, 129, 135, 136, 137, 143, 144, 167, 168, 169, 191, 192, 200, 255, 256, 257, 383, 384, 511,
    512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097,
];

/// Passwords that normalisation, decoding or cutting anywhere would confuse
pub const CONFUSABLE: &[(&[u8], &[u8], &str)] = &[
    (b"two  spaces", b"two spaces", "runs of spaces"),
    (b"tab\tbed", b"tab bed", "tab or space"),
    (b"line\r\nline", b"line\nline", "line ends"),
    (b"password\t", b"password", "trailing tab"),
    (b"password\r", b"password", "trailing carriage return"),
    (b"password\x0b", b"password", "trailing vertical tab"),
    (b"password\x80", b"password", "trailing padding byte"),
    (b"password\x01", b"password", "trailing padding byte"),
    (b"password\x1f", b"password", "trailing control byte"),
    (b"\x7fpassword", b"password", "control byte"),
    ("password\u{a0}".as_bytes(), b"password", "trailing no-break space"),
    ("password\u{3000}".as_bytes(), b"password", "trailing wide space"),
    ("pass\u{a0}word".as_bytes(), b"pass word", "no-break space"),
    ("pass\u{200b}word".as_bytes(), b"password", "zero-width space"),
    ("pass\u{ad}word".as_bytes(), b"password", "soft hyphen"),
    ("\u{feff}password".as_bytes(), b"password", "byte order mark"),
    ("caf\u{e9}".as_bytes(), "cafe\u{301}".as_bytes(), "composed or not"),
    ("caf\u{e9}".as_bytes(), b"cafe", "accent"),
    ("caf\u{e9}".as_bytes(), b"caf\xe9", "Latin-1 or UTF-8"),
    ("\u{fb01}sh".as_bytes(), b"fish", "ligature"),
    ("\u{ff21}bc".as_bytes(), b"Abc", "wide letter"),
    ("\u{ff21}bc".as_bytes(), "\u{ff41}bc".as_bytes(), "wide case"),
    ("stra\u{df}e".as_bytes(), b"strasse", "sharp s"),
    ("\u{212a}elvin".as_bytes(), b"Kelvin", "Kelvin sign"),
    ("\u{3a3}\u{3c2}".as_bytes(), "\u{3a3}\u{3c3}".as_bytes(), "final sigma"),
    ("\u{416}".as_bytes(), "\u{436}".as_bytes(), "case outside ASCII"),
    ("\u{430}bc".as_bytes(), b"abc", "Cyrillic lookalike"),
    ("it\u{2019}s".as_bytes(), b"it's", "quotes"),
    ("a\u{2013}b".as_bytes(), b"a-b", "dashes"),
    (b"0123", b"123", "leading zero"),
    (b"1.0", b"1", "numbers"),
    (b"0x10", b"16", "numbers"),
    (b"pw=", b"pw", "padding sign"),
    (b"pw==", b"pw=", "padding sign"),
    (b"a+b", b"a b", "form encoding"),
    (b"a%20b", b"a b", "percent encoding"),
    (b"%41", b"A", "percent encoding"),
    (b"a&amp;b", b"a&b", "entities"),
    (b"a\\nb", b"a\nb", "escapes"),
    (b"\"pw\"", b"pw", "quoted"),
    (b"pw\0a", b"pw\0b", "after a NUL"),
    (b"pw\0a", b"pw", "after a NUL"),
    (b"\0", b"", "only a NUL"),
    (b"\0a", b"\0b", "after a leading NUL"),
    (b"pw\na", b"pw\nb", "after a newline"),
    (b"\xff\xfe", b"\xfe\xff", "not UTF-8"),
    (b"\xc0\x80", b"\0", "overlong form"),
    (b"\xed\xa0\x80", b"\xed\xa0\x81", "surrogates"),
    (b"pw\xff", "pw\u{fffd}".as_bytes(), "replacement character"),
    (b"pw\xff", b"pw\xfe", "not UTF-8"),
    (b"pw\xff", b"pw", "not UTF-8"),
    (b"abc/+", b"abc_-", "base64 alphabets"),
    (b"cGFzc3dvcmQ=", b"password", "base64 of the other"),
    (b"a,b", b"ab", "punctuation"),
    (b"a:b", b"a", "after a colon"),
    (b"a b", b"b a", "order of words"),
    (b"aab", b"ab", "repeated letter"),
    (b"user:password", b"password", "after a colon"),
];

/// Passwords of all shapes; the first cases of a group walk through the categories
pub fn password(c: &mut Case) -> Vec<u8> {
    let k = if c.idx < 13 { c.idx } else { c.below(13) };
    match k {
        0 => vec![],
        1 => b"password".to_vec(),
        2 => {
            let n = LENS[c.below(LENS.len())];
            c.vec(n)
        }
        3 => "pässwörd \u{1F511} ключ 密码".as_bytes().to_vec(),
        4 => vec![0; 1 + c.below(70)],
        5 => vec![0xff; 1 + c.below(70)],
        6 => {
            let n = 4096 + c.below(62000);
            c.vec(n)
        }
        7 => {
            let mut p = b"pass\0word\0".to_vec();
            let n = c.below(5);
            p.extend(vec![0u8; n]);
            p
        }
        8 => {
            let n = 1 + c.below(40);
            (0..n).map(|_| 0x80 | c.below(128) as u8).collect()
        }
        9 => vec![c.below(256) as u8],
        10 => {
            let n = 1 + c.below(300);
            (0..n).map(|_| 32 + c.below(95) as u8).collect()
        }
        11 => {
            let (x, y, _) = CONFUSABLE[c.below(CONFUSABLE.len())];
            if c.chance(1, 2) { x.to_vec() } else { y.to_vec() }
        }
        _ => {
            let n = 1 + c.below(64);
            c.vec(n)
        }
    }
}

pub fn any32(c: &mut Case) -> [u8; 32] {
    match c.below(10) {
        0 => [0; 32],
        1 => [0xff; 32],
        2 => {
            let mut b = [0; 32];
            let k = c.below(256);
            b[k / 8] = 1 << (k % 8);
            b
        }
        3 => {
            let mut b = [b' '; 32];
            b[..5].copy_from_slice(b"alice");
            b
        }
        4 => {
            let mut b = [0; 32];
            b[..3].copy_from_slice(b"bob");
            b
        }
        5 => text32(c),
        _ => c.bytes32(),
    }
}

/// A readable name, padded
pub fn text32(c: &mut Case) -> [u8; 32] {
    let mut b = [[0, b' ', b'0', 0xff][c.below(4)]; 32];
    let name: &[u8] = [&b"Alice@Example.org"[..], b"user-0042", b"BOB", "Z\u{fc}rich-\u{c4}rger".as_bytes(), b"0001", b"a,b", b"Carol Smith "][c.below(7)];
    let at = [0, 0, 32 - name.len()][c.below(3)];
    b[at..at + name.len()].copy_from_slice(name);
    b
}

/// Another value that sloppy comparison would take for the same
pub fn near32(c: &mut Case, a: &[u8; 32]) -> [u8; 32] {
    let mut o = *a;
    match c.below(14) {
        0 => o = o.map(|x| if x.is_ascii_alphabetic() { x ^ 0x20 } else { x }),
        1 => o = o.map(|x| x.to_ascii_lowercase()),
        2 => {
            // only the padding differs
            let pad = o[31];
            let n = o.iter().rev().take_while(|x| **x == pad).count();
            o[32 - n..].fill([0, b' ', 0xff][c.below(3)]);
        }
        3 => {
            // the same up to some point
            let n = [1, 4, 8, 16, 20, 24, 28, 30, 31][c.below(9)];
            let r = c.bytes32();
            o[n..].copy_from_slice(&r[n..]);
        }
        4 => {
            // the same from some point on
            let n = [1, 2, 4, 8, 12, 16, 24, 28, 31][c.below(9)];
            let r = c.bytes32();
            o[..n].copy_from_slice(&r[..n]);
        }
        5 => o.reverse(),
        6 => o.rotate_left([1, 4, 8, 16][c.below(4)]),
        7 => {
            let (x, y) = (c.below(32), c.below(32));
            o.swap(x, y);
        }
        8 => {
            // the same sum and parity
            let (x, y) = (c.below(32), c.below(32));
            let d = 1 + c.below(255) as u8;
            o[x] ^= d;
            o[y] ^= d;
        }
        9 => {
            let x = c.below(32);
            o[x] = o[x].wrapping_add(1 + c.below(255) as u8);
        }
        10 => {
            // after a NUL, or after the last letter
            let n = o.iter().position(|x| *x == 0).unwrap_or(31);
            let r = c.bytes32();
            o[(n + 1).min(31)..].copy_from_slice(&r[(n + 1).min(31)..]);
        }
        _ => o = flip32(c, a),
    }
    if o == *a {
        o = flip32(c, a);
    }
    o
}

/// Flips one bit, anywhere
pub fn flip32(c: &mut Case, b: &[u8; 32]) -> [u8; 32] {
    let mut o = *b;
    let k = match c.below(4) {
        0 => 255,
        1 => 0,
        _ => c.below(256),
    };
    o[k / 8] ^= 1 << (k % 8);
    o
}

/// Two different identities, often close to one another
pub fn two_ids(c: &mut Case) -> (Id, Id) {
    let a = any32(c);
    loop {
        let b = if c.chance(1, 3) { near32(c, &a) } else { any32(c) };
        if a != b {
            return (a, b);
        }
    }
}

#[derive(Clone)]
pub struct Pair {
    pub i: Cfg,
    pub r: Cfg,
}

/// A matched, honest pair of configurations
pub fn pair(c: &mut Case, p: &Proto) -> Pair {
    let secret = password(c);
    pair_with(c, p, secret)
}
pub fn pair_with(c: &mut Case, p: &Proto, secret: Vec<u8>) -> Pair {
    let (a, b) = two_ids(c);
    let ssid: Ssid = any32(c);
    pair_all(c, p, secret, a, b, ssid)
}
pub fn pair_all(c: &mut Case, p: &Proto, secret: Vec<u8>, a: Id, b: Id, ssid: Ssid) -> Pair {
    let mk = |c: &mut Case, role, id: Id, peer: Id| Cfg {
        role,
        ssid,
        secret: secret.clone(),
        id,
        peer: if p.wants_peer() { Some(peer) } else { None },
        user_seed: c.u64(),
        rng_seed: c.u64(),
        flip: None,
        user_flip: None,
    };
    Pair { i: mk(c, PartyRole::Initiator, a, b), r: mk(c, PartyRole::Responder, b, a) }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(80) {
        s += &format!("{:02x}", x)
    }
    if b.len() > 80 {
        s += &format!("..({} bytes)", b.len())
    }
    s
}

pub fn show(c: &Cfg) -> String {
    format!(
        "{:?} ssid={} secret={} id={} peer={} seeds={:x}/{:x}",
        c.role,
        hex(&c.ssid),
        hex(&c.secret),
        hex(&c.id),
        c.peer.map(|p| hex(&p)).unwrap_or("-".into()),
        c.user_seed,
        c.rng_seed
    )
}

pub fn show_pair(p: &Pair) -> String {
    format!("initiator [{}] responder [{}]", show(&p.i), show(&p.r))
}

/// Cost-weighted number of cases: `base` for the cheapest protocols
pub fn cases(p: &Proto, base: usize, thorough: bool) -> usize {
    let b = if thorough { base * 12 } else { base };
    (b / p.cost).max(if thorough { 12 } else { 2 }).max(1)
}
