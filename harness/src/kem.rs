//! Byte-level, monitored access to the KEM and the signature scheme under test.
use crate::core::guard;
use crate::refs::{dilithium, saber as rs};

pub struct Kem {
    pub name: &'static str,
    pub p: &'static rs::P,
    /// Full secret key
    pub keygen: fn() -> Vec<u8>,
    /// The public key inside a secret key, encoded
    pub pk_of: fn(&[u8]) -> Result<Vec<u8>, String>,
    /// (shared secret, ciphertext)
    pub encaps: fn(&[u8]) -> Result<(Vec<u8>, Vec<u8>), String>,
    /// From (ciphertext, secret key)
    pub decaps: fn(&[u8], &[u8]) -> Result<Vec<u8>, String>,
    pub sk_round: fn(&[u8]) -> Result<Vec<u8>, String>,
    pub pk_round: fn(&[u8]) -> Result<Vec<u8>, String>,
    pub ct_round: fn(&[u8]) -> Result<Vec<u8>, String>,
    /// Generates, encapsulates and decapsulates without any encoding: (ss, ct, ss at decapsulation, pk, sk)
    pub typed: fn() -> (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>),
    /// Plain variant: (pk, ct, ss, ss at decapsulation, pk and ct used as bytes again: ss)
    pub plain: fn(bool) -> Plain,
    /// Plain encapsulation to an encoded key
    pub plain_enc: fn(&[u8]) -> Result<(Vec<u8>, Vec<u8>), String>,
}
pub struct Plain {
    pub pk: Vec<u8>,
    pub ct: Vec<u8>,
    pub ss: Vec<u8>,
    pub ss2: Vec<u8>,
    /// Shared secret an unrelated plain secret key gets from the ciphertext
    pub other: Vec<u8>,
}

fn flat<T, E: std::fmt::Debug>(r: Result<Result<T, E>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {:?}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}

macro_rules! kem {
    ($name:expr, $m:ident, $p:expr) => {
        Kem {
            name: $name,
            p: &$p,
            keygen: || saber::$m::keygen().to_bytes().as_slice().to_vec(),
            pk_of: |sk| {
                flat(guard(|| saber::$m::SecretKey::from_bytes(sk).map(|s| s.public_key().to_bytes().as_slice().to_vec())))
            },
            encaps: |pk| {
                flat(guard(|| {
                    saber::$m::PublicKey::from_bytes(pk).map(|pk| {
                        let (s, c) = saber::$m::encapsulate(&pk);
                        (s.as_slice().to_vec(), c.as_slice().to_vec())
                    })
                }))
            },
            decaps: |ct, sk| {
                flat(guard(|| -> Result<Vec<u8>, saber::Error> {
                    let ct = saber::$m::Ciphertext::from_bytes(ct)?;
                    let sk = saber::$m::SecretKey::from_bytes(sk)?;
                    Ok(saber::$m::decapsulate(&ct, &sk).as_slice().to_vec())
                }))
            },
            sk_round: |b| flat(guard(|| saber::$m::SecretKey::from_bytes(b).map(|k| k.to_bytes().as_slice().to_vec()))),
            pk_round: |b| flat(guard(|| saber::$m::PublicKey::from_bytes(b).map(|k| k.to_bytes().as_slice().to_vec()))),
            ct_round: |b| flat(guard(|| saber::$m::Ciphertext::from_bytes(b).map(|k| k.as_slice().to_vec()))),
            typed: || {
                let sk = saber::$m::keygen();
                let (s, c) = saber::$m::encapsulate(sk.public_key());
                let s2 = saber::$m::decapsulate(&c, &sk);
                (
                    s.as_slice().to_vec(),
                    c.as_slice().to_vec(),
                    s2.as_slice().to_vec(),
                    sk.public_key().to_bytes().as_slice().to_vec(),
                    sk.to_bytes().as_slice().to_vec(),
                )
            },
            plain: |coded| {
                let (pk, sk) = saber::$m::keygen_ind_cpa();
                let (_, other) = saber::$m::keygen_ind_cpa();
                let pkb = pk.to_bytes().as_slice().to_vec();
                let pk = if coded { saber::$m::INDCPAPublicKey::from_bytes(&pkb) } else { pk };
                let (ss, ct) = saber::$m::encapsulate_ind_cpa(&pk);
                let ct = if coded { saber::$m::Ciphertext::from_bytes(ct.as_slice()).unwrap() } else { ct };
                let ss2 = saber::$m::decapsulate_ind_cpa(&ct, &sk);
                let o = saber::$m::decapsulate_ind_cpa(&ct, &other);
                Plain {
                    pk: pkb,
                    ct: ct.as_slice().to_vec(),
                    ss: ss.as_slice().to_vec(),
                    ss2: ss2.as_slice().to_vec(),
                    other: o.as_slice().to_vec(),
                }
            },
            plain_enc: |pk| {
                guard(|| {
                    let (s, c) = saber::$m::encapsulate_ind_cpa(&saber::$m::INDCPAPublicKey::from_bytes(pk));
                    (s.as_slice().to_vec(), c.as_slice().to_vec())
                })
                .map_err(|p| format!("panic: {}", p))
            },
        }
    };
}

pub static KEMS: [Kem; 3] =
    [kem!("lightsaber", lightsaber, rs::LIGHT), kem!("saber", saber, rs::SABER), kem!("firesaber", firesaber, rs::FIRE)];

type C1 = unsafe extern "C" fn(*mut u8, *mut u8) -> i32;
type CDet = unsafe extern "C" fn(*const u8, *mut u8, *mut u8) -> i32;
type CSig = unsafe extern "C" fn(*mut u8, *mut usize, *const u8, usize, *const u8) -> i32;
type CVer = unsafe extern "C" fn(*const u8, usize, *const u8, usize, *const u8) -> i32;
type COpen = unsafe extern "C" fn(*mut u8, *mut usize, *const u8, usize, *const u8) -> i32;

/// One native implementation
pub struct Native {
    pub name: &'static str,
    pub keypair: C1,
    pub signature: CSig,
    pub verify: CVer,
    pub sign: CSig,
    pub open: COpen,
}

pub struct Dil {
    pub name: &'static str,
    pub p: &'static dilithium::P,
    pub keypair: fn() -> (Vec<u8>, Vec<u8>),
    pub keypair_det: fn(&[u8; 32]) -> (Vec<u8>, Vec<u8>),
    pub sign: fn(&[u8], &[u8]) -> Result<Vec<u8>, String>,
    pub detached: fn(&[u8], &[u8]) -> Result<Vec<u8>, String>,
    /// (signed message, pk)
    pub open: fn(&[u8], &[u8]) -> Result<Vec<u8>, String>,
    /// (signature, message, pk)
    pub verify: fn(&[u8], &[u8], &[u8]) -> Result<(), String>,
    pub pk_round: fn(&[u8]) -> Result<Vec<u8>, pqcrypto_traits::Error>,
    pub sk_round: fn(&[u8]) -> Result<Vec<u8>, pqcrypto_traits::Error>,
    pub sig_round: fn(&[u8]) -> Result<Vec<u8>, pqcrypto_traits::Error>,
    pub sm_round: fn(&[u8]) -> Result<Vec<u8>, pqcrypto_traits::Error>,
    /// public_key_bytes, secret_key_bytes, signature_bytes
    pub sizes: fn() -> (usize, usize, usize),
    pub det: CDet,
    pub clean: Native,
    pub avx2: Native,
}

pub fn have_avx2() -> bool {
    std::is_x86_feature_detected!("avx2")
}

macro_rules! native {
    ($name:expr, $kp:ident, $sig:ident, $ver:ident, $sign:ident, $open:ident) => {{
        extern "C" {
            fn $kp(pk: *mut u8, sk: *mut u8) -> i32;
            fn $sig(sig: *mut u8, siglen: *mut usize, m: *const u8, mlen: usize, sk: *const u8) -> i32;
            fn $ver(sig: *const u8, siglen: usize, m: *const u8, mlen: usize, pk: *const u8) -> i32;
            fn $sign(sm: *mut u8, smlen: *mut usize, m: *const u8, mlen: usize, sk: *const u8) -> i32;
            fn $open(m: *mut u8, mlen: *mut usize, sm: *const u8, smlen: usize, pk: *const u8) -> i32;
        }
        Native { name: $name, keypair: $kp, signature: $sig, verify: $ver, sign: $sign, open: $open }
    }};
}

macro_rules! dil {
    ($name:expr, $m:ident, $p:expr, $det:ident, $clean:expr, $avx2:expr) => {{
        use pqcrypto_traits::sign::{DetachedSignature, PublicKey, SecretKey, SignedMessage};
        extern "C" {
            fn $det(coins: *const u8, pk: *mut u8, sk: *mut u8) -> i32;
        }
        Dil {
            name: $name,
            p: &$p,
            keypair: || {
                let (p, s) = pqcrypto_dilithium::$m::keypair();
                (p.as_bytes().to_vec(), s.as_bytes().to_vec())
            },
            keypair_det: |c| {
                let (p, s) = pqcrypto_dilithium::$m::keypair_det(*c);
                (p.as_bytes().to_vec(), s.as_bytes().to_vec())
            },
            sign: |m, sk| {
                flat(guard(|| {
                    pqcrypto_dilithium::$m::SecretKey::from_bytes(sk)
                        .map(|s| pqcrypto_dilithium::$m::sign(m, &s).as_bytes().to_vec())
                }))
            },
            detached: |m, sk| {
                flat(guard(|| {
                    pqcrypto_dilithium::$m::SecretKey::from_bytes(sk)
                        .map(|s| pqcrypto_dilithium::$m::detached_sign(m, &s).as_bytes().to_vec())
                }))
            },
            open: |sm, pk| {
                let pk = pqcrypto_dilithium::$m::PublicKey::from_bytes(pk).map_err(|e| format!("{:?}", e))?;
                let sm = pqcrypto_dilithium::$m::SignedMessage::from_bytes(sm).map_err(|e| format!("{:?}", e))?;
                flat(guard(|| pqcrypto_dilithium::$m::open(&sm, &pk)))
            },
            verify: |sig, m, pk| {
                let pk = pqcrypto_dilithium::$m::PublicKey::from_bytes(pk).map_err(|e| format!("{:?}", e))?;
                let sig = pqcrypto_dilithium::$m::DetachedSignature::from_bytes(sig).map_err(|e| format!("{:?}", e))?;
                flat(guard(|| pqcrypto_dilithium::$m::verify_detached_signature(&sig, m, &pk)))
            },
            pk_round: |b| pqcrypto_dilithium::$m::PublicKey::from_bytes(b).map(|k| k.as_bytes().to_vec()),
            sk_round: |b| pqcrypto_dilithium::$m::SecretKey::from_bytes(b).map(|k| k.as_bytes().to_vec()),
            sig_round: |b| pqcrypto_dilithium::$m::DetachedSignature::from_bytes(b).map(|k| k.as_bytes().to_vec()),
            sm_round: |b| pqcrypto_dilithium::$m::SignedMessage::from_bytes(b).map(|k| k.as_bytes().to_vec()),
            sizes: || {
                (
                    pqcrypto_dilithium::$m::public_key_bytes(),
                    pqcrypto_dilithium::$m::secret_key_bytes(),
                    pqcrypto_dilithium::$m::signature_bytes(),
                )
            },
            det: $det,
            clean: $clean,
            avx2: $avx2,
        }
    }};
}

pub static DILS: [Dil; 3] = [
    dil!(
        "dilithium2", dilithium2, dilithium::D2, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_det,
        native!("clean", PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature,
            PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign, PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_open),
        native!("avx2", PQCLEAN_DILITHIUM2_AVX2_crypto_sign_keypair, PQCLEAN_DILITHIUM2_AVX2_crypto_sign_signature,
            PQCLEAN_DILITHIUM2_AVX2_crypto_sign_verify, PQCLEAN_DILITHIUM2_AVX2_crypto_sign, PQCLEAN_DILITHIUM2_AVX2_crypto_sign_open)
    ),
    dil!(
        "dilithium3", dilithium3, dilithium::D3, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_keypair_det,
        native!("clean", PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_keypair, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_signature,
            PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_verify, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign, PQCLEAN_DILITHIUM3_CLEAN_crypto_sign_open),
        native!("avx2", PQCLEAN_DILITHIUM3_AVX2_crypto_sign_keypair, PQCLEAN_DILITHIUM3_AVX2_crypto_sign_signature,
            PQCLEAN_DILITHIUM3_AVX2_crypto_sign_verify, PQCLEAN_DILITHIUM3_AVX2_crypto_sign, PQCLEAN_DILITHIUM3_AVX2_crypto_sign_open)
    ),
    dil!(
        "dilithium5", dilithium5, dilithium::D5, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_keypair_det,
        native!("clean", PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_keypair, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_signature,
            PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_verify, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign, PQCLEAN_DILITHIUM5_CLEAN_crypto_sign_open),
        native!("avx2", PQCLEAN_DILITHIUM5_AVX2_crypto_sign_keypair, PQCLEAN_DILITHIUM5_AVX2_crypto_sign_signature,
            PQCLEAN_DILITHIUM5_AVX2_crypto_sign_verify, PQCLEAN_DILITHIUM5_AVX2_crypto_sign, PQCLEAN_DILITHIUM5_AVX2_crypto_sign_open)
    ),
];
