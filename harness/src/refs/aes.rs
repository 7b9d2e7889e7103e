//! FIPS 197, straight from the standard
fn xt(b: u8) -> u8 {
    (b << 1) ^ if b & 0x80 != 0 { 0x1b } else { 0 }
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a
        }
        a = xt(a);
        b >>= 1
    }
    r
}
fn sbox() -> &'static [u8; 256] {
    static S: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        std::array::from_fn(|x| {
            let x = x as u8;
            let inv = (1..=255u8).find(|y| mul(x, *y) == 1).unwrap_or(0);
            (0..5).fold(0x63, |a, i| a ^ inv.rotate_left(i))
        })
    })
}
pub struct Aes {
    keys: Vec<[u8; 16]>,
}
impl Aes {
    /// 16, 24 or 32 bytes
    pub fn new(key: &[u8]) -> Aes {
        let s = sbox();
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1;
        for i in nk..4 * (rounds + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t.rotate_left(1);
                t = t.map(|b| s[b as usize]);
                t[0] ^= rcon;
                rcon = xt(rcon);
            } else if nk > 6 && i % nk == 4 {
                t = t.map(|b| s[b as usize]);
            }
            w.push(std::array::from_fn(|j| w[i - nk][j] ^ t[j]));
        }
        Aes { keys: w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect() }
    }
    pub fn block(&self, b: &[u8; 16]) -> [u8; 16] {
        let s = sbox();
        let n = self.keys.len() - 1;
        let mut x: [u8; 16] = std::array::from_fn(|i| b[i] ^ self.keys[0][i]);
        for r in 1..=n {
            // SubBytes and ShiftRows: row i of column c comes from column c + i
            let y: [u8; 16] = std::array::from_fn(|k| s[x[(4 * (k / 4 + k % 4) + k % 4) % 16] as usize]);
            x = if r == n {
                y
            } else {
                std::array::from_fn(|k| {
                    let (c, i) = (4 * (k / 4), k % 4);
                    xt(y[c + i]) ^ xt(y[c + (i + 1) % 4]) ^ y[c + (i + 1) % 4] ^ y[c + (i + 2) % 4] ^ y[c + (i + 3) % 4]
                })
            };
            for k in 0..16 {
                x[k] ^= self.keys[r][k]
            }
        }
        x
    }
    /// Counter mode from block 0 of a 12-byte nonce
    pub fn ctr(&self, iv: &[u8; 12], n: usize) -> Vec<u8> {
        let mut out = vec![];
        let mut i = 0u32;
        while out.len() < n {
            let mut b = [0; 16];
            b[..12].copy_from_slice(iv);
            b[12..].copy_from_slice(&i.to_be_bytes());
            out.extend(self.block(&b));
            i += 1;
        }
        out.truncate(n);
        out
    }
}
