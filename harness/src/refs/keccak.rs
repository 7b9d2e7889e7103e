//! Keccak-f[1600] and the sponge functions of FIPS 202 / SP 800-185, bit for bit from the standard
pub fn f1600(s: &mut [u64; 25]) {
    p1600(s, 24)
}
/// The last `n` rounds
pub fn p1600(s: &mut [u64; 25], n: usize) {
    let mut lfsr: u8 = 1;
    let mut rc_bit = || {
        let b = lfsr & 1;
        lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
        b
    };
    for round in 0..24 {
        if round < 24 - n {
            (0..7).for_each(|_| {
                rc_bit();
            });
            continue;
        }
        // theta
        let mut c = [0u64; 5];
        for x in 0..5 {
            for y in 0..5 {
                c[x] ^= s[x + 5 * y]
            }
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                s[x + 5 * y] ^= d
            }
        }
        // rho and pi
        let (mut x, mut y) = (1, 0);
        let mut cur = s[x + 5 * y];
        for t in 0..24u32 {
            let (nx, ny) = (y, (2 * x + 3 * y) % 5);
            x = nx;
            y = ny;
            let k = s[x + 5 * y];
            s[x + 5 * y] = cur.rotate_left(((t + 1) * (t + 2) / 2) % 64);
            cur = k;
        }
        // chi
        for y in 0..5 {
            let row: [u64; 5] = std::array::from_fn(|x| s[x + 5 * y]);
            for x in 0..5 {
                s[x + 5 * y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5])
            }
        }
        // iota
        for j in 0..7 {
            if rc_bit() == 1 {
                s[0] ^= 1u64 << ((1u32 << j) - 1)
            }
        }
    }
}

pub fn sponge(rate: usize, suffix: u8, input: &[u8], outlen: usize) -> Vec<u8> {
    let mut s = [0u64; 25];
    let mut m = input.to_vec();
    m.push(suffix);
    while m.len() % rate != 0 {
        m.push(0)
    }
    let l = m.len();
    m[l - 1] ^= 0x80;
    for block in m.chunks(rate) {
        for (i, b) in block.iter().enumerate() {
            s[i / 8] ^= (*b as u64) << (8 * (i % 8))
        }
        f1600(&mut s);
    }
    let mut out = vec![];
    loop {
        for i in 0..rate {
            if out.len() == outlen {
                return out;
            }
            out.push((s[i / 8] >> (8 * (i % 8))) as u8)
        }
        f1600(&mut s);
    }
}

pub fn shake128(m: &[u8], n: usize) -> Vec<u8> {
    sponge(168, 0x1f, m, n)
}
pub fn shake256(m: &[u8], n: usize) -> Vec<u8> {
    sponge(136, 0x1f, m, n)
}
pub fn sha3_256(m: &[u8]) -> [u8; 32] {
    sponge(136, 0x06, m, 32).try_into().unwrap()
}
pub fn sha3_512(m: &[u8]) -> [u8; 64] {
    sponge(72, 0x06, m, 64).try_into().unwrap()
}
