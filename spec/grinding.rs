//! The proof-of-work predicate: trailing zero bits of the first eight bytes of
//! keccak256(challenge || nonce in little endian), and the smallest nonce satisfying it.
use sha3::{Digest, Keccak256};

pub fn work(challenge: &[u8; 32], nonce: u64) -> u8 {
    let mut data = Vec::new();
    data.extend_from_slice(challenge);
    data.extend_from_slice(&nonce.to_le_bytes());
    let digest = Keccak256::digest(data);
    u64::from_be_bytes(digest[..8].try_into().unwrap()).trailing_zeros() as u8
}

pub fn search(challenge: &[u8; 32], factor: u8) -> Option<u64> {
    (0..u64::MAX).find(|n| factor <= work(challenge, *n))
}
