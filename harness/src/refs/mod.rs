//! Independent implementations, written from the specifications, of everything the checks compare
//! the code under test with. Trusted: the dalek, blake2, chacha20, deck-farfalle, spake2, pake-cpace
//! crates.
pub mod aes;
pub mod dilithium;
pub mod ibke;
pub mod kdf;
pub mod keccak;
pub mod pake;
pub mod saber;
pub mod stack;
