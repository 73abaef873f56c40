// Stands in for common/crypto, whose git dependencies are not available here.
use bytes::Bytes;
use hasher::{Hasher, HasherKeccak};
use std::convert::TryFrom;

#[derive(Debug)]
pub struct CryptoError;

impl std::fmt::Display for CryptoError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "crypto")
    }
}

impl std::error::Error for CryptoError {}

pub trait Crypto {
    fn verify_signature(hash: &[u8], sig: &[u8], pub_key: &[u8]) -> Result<(), CryptoError>;
}

pub trait PrivateKey {
    type PublicKey;

    fn pub_key(&self) -> Self::PublicKey;

    fn to_bytes(&self) -> Bytes;

    fn sign_message(&self, hash: &HashValue) -> Secp256k1Signature;
}

pub trait PublicKey {
    fn to_bytes(&self) -> Bytes;
}

pub trait Signature {
    fn to_bytes(&self) -> Bytes;
}

/// 32 bytes; its public key is a 2 and the digest of them, a signature two digests of hash and key.
#[derive(Clone, Debug)]
pub struct Secp256k1PrivateKey(pub Vec<u8>);

#[derive(Clone, Debug)]
pub struct Secp256k1PublicKey(pub Vec<u8>);

#[derive(Clone, Debug)]
pub struct Secp256k1Signature(pub Vec<u8>);

fn digest(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    HasherKeccak::new().digest(&v)
}

fn pub_of(key: &[u8]) -> Vec<u8> {
    let mut v = vec![2];
    v.extend_from_slice(&digest(&[key]));
    v
}

fn sig_of(hash: &[u8], pub_key: &[u8]) -> Vec<u8> {
    let mut v = digest(&[hash, pub_key, b"r"]);
    v.extend_from_slice(&digest(&[hash, pub_key, b"s"]));
    v
}

impl PrivateKey for Secp256k1PrivateKey {
    type PublicKey = Secp256k1PublicKey;

    fn pub_key(&self) -> Secp256k1PublicKey {
        Secp256k1PublicKey(pub_of(&self.0))
    }

    fn to_bytes(&self) -> Bytes {
        Bytes::from(self.0.clone())
    }

    fn sign_message(&self, hash: &HashValue) -> Secp256k1Signature {
        Secp256k1Signature(sig_of(&hash.0, &pub_of(&self.0)))
    }
}

/// 32 bytes, and not all zero.
impl<'a> TryFrom<&'a [u8]> for Secp256k1PrivateKey {
    type Error = CryptoError;

    fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> {
        if b.len() == 32 && b.iter().any(|x| *x != 0) {
            Ok(Secp256k1PrivateKey(b.to_vec()))
        } else {
            Err(CryptoError)
        }
    }
}

#[derive(Clone, Debug)]
pub struct HashValue(pub Vec<u8>);

impl<'a> TryFrom<&'a [u8]> for HashValue {
    type Error = CryptoError;

    fn try_from(b: &'a [u8]) -> Result<Self, CryptoError> {
        if b.len() == 32 {
            Ok(HashValue(b.to_vec()))
        } else {
            Err(CryptoError)
        }
    }
}

impl PublicKey for Secp256k1PublicKey {
    fn to_bytes(&self) -> Bytes {
        Bytes::from(self.0.clone())
    }
}

impl Signature for Secp256k1Signature {
    fn to_bytes(&self) -> Bytes {
        Bytes::from(self.0.clone())
    }
}

pub struct Secp256k1;

impl Secp256k1 {
    pub fn sign_message(hash: &[u8], key: &[u8]) -> Result<Secp256k1Signature, CryptoError> {
        Ok(Secp256k1Signature(sig_of(hash, &pub_of(key))))
    }
}

impl Crypto for Secp256k1 {
    fn verify_signature(hash: &[u8], sig: &[u8], pub_key: &[u8]) -> Result<(), CryptoError> {
        if sig == &sig_of(hash, pub_key)[..] {
            Ok(())
        } else {
            Err(CryptoError)
        }
    }
}
