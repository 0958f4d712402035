//! Reference cryptography: the same algorithms used directly, and identifiers derived from them.

use crate::codec::matter_text;
use crate::json::J;

pub fn digest(code: &str, b: &[u8]) -> Vec<u8> {
    use blake2::digest::consts::U32;
    use sha2::Digest as _;
    match code {
        "E" => blake3::hash(b).as_bytes().to_vec(),
        "F" => blake2::Blake2b::<U32>::digest(b).to_vec(),
        "G" => blake2::Blake2s256::digest(b).to_vec(),
        "H" => sha3::Sha3_256::digest(b).to_vec(),
        "I" => sha2::Sha256::digest(b).to_vec(),
        "0D" => {
            let mut out = vec![0; 64];
            let mut h = blake3::Hasher::new();
            h.update(b);
            h.finalize_xof().fill(&mut out);
            out
        }
        "0E" => blake2::Blake2b512::digest(b).to_vec(),
        "0F" => sha3::Sha3_512::digest(b).to_vec(),
        "0G" => sha2::Sha512::digest(b).to_vec(),
        _ => panic!("no digest {code}"),
    }
}

pub fn dig_text(code: &str, b: &[u8]) -> String {
    matter_text(code, &digest(code, b)).1
}

pub fn dig_len(code: &str) -> usize {
    if code.len() == 1 {
        44
    } else {
        88
    }
}

/// code of the verification key of a seed
pub fn ver_code(seed_code: &str, transferable: bool) -> &'static str {
    match (seed_code, transferable) {
        ("A", true) => "D",
        ("A", false) => "B",
        ("J", true) => "1AAB",
        ("J", false) => "1AAA",
        ("Q", true) => "1AAJ",
        ("Q", false) => "1AAI",
        _ => panic!("no suite {seed_code}"),
    }
}
pub fn sig_code(seed_code: &str) -> &'static str {
    match seed_code {
        "A" => "0B",
        "J" => "0C",
        _ => "0I",
    }
}
pub fn suite_of(ver_code: &str) -> &'static str {
    match ver_code {
        "B" | "D" => "A",
        "1AAA" | "1AAB" => "J",
        _ => "Q",
    }
}

pub fn public(seed_code: &str, seed: &[u8]) -> Vec<u8> {
    match seed_code {
        "A" => {
            let s: [u8; 32] = seed.try_into().unwrap();
            ed25519_dalek::SigningKey::from_bytes(&s).verifying_key().to_bytes().to_vec()
        }
        "J" => k256::ecdsa::SigningKey::from_slice(seed).unwrap().verifying_key().to_sec1_bytes().to_vec(),
        _ => p256::ecdsa::SigningKey::from_slice(seed).unwrap().verifying_key().to_encoded_point(true).as_bytes().to_vec(),
    }
}

pub fn verify(ver_code: &str, key: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    match suite_of(ver_code) {
        "A" => {
            let k: [u8; 32] = match key.try_into() {
                Ok(k) => k,
                Err(_) => return false,
            };
            match (ed25519_dalek::VerifyingKey::from_bytes(&k), ed25519_dalek::Signature::from_slice(sig)) {
                (Ok(k), Ok(s)) => k.verify_strict(msg, &s).is_ok(),
                _ => false,
            }
        }
        "J" => {
            use k256::ecdsa::signature::Verifier;
            match (k256::ecdsa::VerifyingKey::from_sec1_bytes(key), k256::ecdsa::Signature::from_slice(sig)) {
                (Ok(k), Ok(s)) => k.verify(msg, &s).is_ok(),
                _ => false,
            }
        }
        _ => {
            use p256::ecdsa::signature::Verifier;
            match (p256::ecdsa::VerifyingKey::from_sec1_bytes(key), p256::ecdsa::Signature::from_slice(sig)) {
                (Ok(k), Ok(s)) => k.verify(msg, &s).is_ok(),
                _ => false,
            }
        }
    }
}

pub fn sign(seed_code: &str, seed: &[u8], msg: &[u8]) -> Vec<u8> {
    match seed_code {
        "A" => {
            use ed25519_dalek::Signer;
            let s: [u8; 32] = seed.try_into().unwrap();
            ed25519_dalek::SigningKey::from_bytes(&s).sign(msg).to_bytes().to_vec()
        }
        "J" => {
            use k256::ecdsa::signature::Signer;
            let s: k256::ecdsa::Signature = k256::ecdsa::SigningKey::from_slice(seed).unwrap().sign(msg);
            s.to_bytes().to_vec()
        }
        _ => {
            use p256::ecdsa::signature::Signer;
            let s: p256::ecdsa::Signature = p256::ecdsa::SigningKey::from_slice(seed).unwrap().sign(msg);
            s.to_bytes().to_vec()
        }
    }
}

/// argon2id as documented: parallelism 1, memory in KiB and passes by tier
pub fn stretch(pass: &[u8], salt: &[u8], size: usize, tier: &str) -> Vec<u8> {
    let (m, t) = match tier {
        "min" => (8, 1),
        "low" => (65536, 2),
        "med" => (262144, 3),
        _ => (1048576, 4),
    };
    let mut out = vec![0; size];
    argon2::Argon2::new(
        argon2::Algorithm::Argon2id,
        argon2::Version::V0x13,
        argon2::Params::new(m, t, 1, Some(size)).unwrap(),
    )
    .hash_password_into(pass, salt, &mut out)
    .unwrap();
    out
}

/// Fill in version string and self-addressing identifiers: (content, bytes, said)
pub fn seal(mut j: J, ident: &str, code: &str, labels: &[&str]) -> (J, Vec<u8>, String) {
    for l in labels {
        j.set(l, J::Str("#".repeat(dig_len(code))));
    }
    if j.get("v").is_some() {
        j.set("v", J::Str(format!("{ident}10JSON000000_")));
        let n = j.text().len();
        j.set("v", J::Str(format!("{ident}10JSON{n:06x}_")));
    }
    let said = dig_text(code, j.text().as_bytes());
    for l in labels {
        j.set(l, J::Str(said.clone()));
    }
    let b = j.text().into_bytes();
    (j, b, said)
}

/// Set the version string to the size of what the content serializes to
pub fn resize(j: &mut J, ident: &str) {
    j.set("v", J::Str(format!("{ident}10JSON000000_")));
    let n = j.text().len();
    j.set("v", J::Str(format!("{ident}10JSON{n:06x}_")));
}
