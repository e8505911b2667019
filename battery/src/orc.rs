//! Oracles: the published formats, written independently of the code under test.
use aead::{Aead, KeyInit, Payload};
use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
use corecrypto::primitives::{Algorithm, Mode};
use corecrypto::protected::Protected;

pub const MIB: usize = 1 << 20;
pub const ALGS: [Algorithm; 3] = [Algorithm::Aes256Gcm, Algorithm::XChaCha20Poly1305, Algorithm::DeoxysII256];
pub fn an(a: Algorithm) -> &'static str { match a { Algorithm::Aes256Gcm => "AES-256-GCM", Algorithm::XChaCha20Poly1305 => "XChaCha20-Poly1305", Algorithm::DeoxysII256 => "Deoxys-II-256" } }
pub fn vn(v: HeaderVersion) -> &'static str { match v { HeaderVersion::V1 => "V1", HeaderVersion::V2 => "V2", HeaderVersion::V3 => "V3", HeaderVersion::V4 => "V4", HeaderVersion::V5 => "V5" } }
pub fn hn(h: HashingAlgorithm) -> String { match h { HashingAlgorithm::Argon2id(i) => format!("Argon2id({})", i), HashingAlgorithm::Blake3Balloon(i) => format!("Blake3Balloon({})", i) } }
pub fn full_nonce(a: Algorithm) -> usize { match a { Algorithm::Aes256Gcm => 12, Algorithm::XChaCha20Poly1305 => 24, Algorithm::DeoxysII256 => 15 } }
pub fn nlen(a: Algorithm, stream: bool) -> usize { full_nonce(a) - if stream { 4 } else { 0 } }
pub fn seal(a: Algorithm, key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    let p = Payload { msg, aad };
    match a {
        Algorithm::Aes256Gcm => aes_gcm::Aes256Gcm::new_from_slice(key).unwrap().encrypt(nonce.into(), p).unwrap(),
        Algorithm::XChaCha20Poly1305 => chacha20poly1305::XChaCha20Poly1305::new_from_slice(key).unwrap().encrypt(nonce.into(), p).unwrap(),
        Algorithm::DeoxysII256 => deoxys::DeoxysII256::new_from_slice(key).unwrap().encrypt(nonce.into(), p).unwrap(),
    }
}
pub fn open(a: Algorithm, key: &[u8], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
    let p = Payload { msg, aad };
    match a {
        Algorithm::Aes256Gcm => aes_gcm::Aes256Gcm::new_from_slice(key).unwrap().decrypt(nonce.into(), p).ok(),
        Algorithm::XChaCha20Poly1305 => chacha20poly1305::XChaCha20Poly1305::new_from_slice(key).unwrap().decrypt(nonce.into(), p).ok(),
        Algorithm::DeoxysII256 => deoxys::DeoxysII256::new_from_slice(key).unwrap().decrypt(nonce.into(), p).ok(),
    }
}
pub fn snonce(prefix: &[u8], ctr: u32, last: bool) -> Vec<u8> {
    let mut n = prefix.to_vec();
    n.extend_from_slice(&(ctr | if last { 1 << 31 } else { 0 }).to_le_bytes());
    n
}
/// blocks of 1 MiB, the last one shorter
pub fn enc_blocks(a: Algorithm, key: &[u8], prefix: &[u8], aad: &[u8], pt: &[u8]) -> Vec<Vec<u8>> {
    let n = pt.len() / MIB;
    let mut out = vec![];
    for i in 0..n { out.push(seal(a, key, &snonce(prefix, i as u32, false), aad, &pt[i * MIB..(i + 1) * MIB])); }
    out.push(seal(a, key, &snonce(prefix, n as u32, true), aad, &pt[n * MIB..]));
    out
}
pub fn enc_body(a: Algorithm, key: &[u8], prefix: &[u8], aad: &[u8], pt: &[u8]) -> Vec<u8> { enc_blocks(a, key, prefix, aad, pt).concat() }
pub fn kdf(h: HashingAlgorithm, pw: &[u8], salt: &[u8]) -> Option<[u8; 32]> {
    let mut out = [0u8; 32];
    match h {
        HashingAlgorithm::Argon2id(i) => {
            let (m, t) = match i { 1 => (8192, 8), 2 => (262_144, 8), 3 => (262_144, 10), _ => return None };
            argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, argon2::Params::new(m, t, 4, Some(32)).unwrap()).hash_password_into(pw, salt, &mut out).ok()?;
        }
        HashingAlgorithm::Blake3Balloon(i) => {
            let s = match i { 4 => 262_144, 5 => 278_528, _ => return None };
            balloon_hash::Balloon::<blake3::Hasher>::new(balloon_hash::Algorithm::Balloon, balloon_hash::Params::new(s, 1, 1).unwrap(), None).hash_into(pw, salt, &mut out).ok()?;
        }
    }
    Some(out)
}
pub fn hsize(v: HeaderVersion) -> usize { match v { HeaderVersion::V4 => 128, HeaderVersion::V5 => 416, _ => 64 } }
pub fn tags(v: HeaderVersion, a: Algorithm, stream: bool) -> Vec<u8> {
    let v = match v { HeaderVersion::V1 => 1, HeaderVersion::V2 => 2, HeaderVersion::V3 => 3, HeaderVersion::V4 => 4, HeaderVersion::V5 => 5 };
    let a = match a { Algorithm::XChaCha20Poly1305 => 1, Algorithm::Aes256Gcm => 2, Algorithm::DeoxysII256 => 3 };
    vec![0xDE, v, 0x0E, a, 0x0C, if stream { 1 } else { 2 }]
}
pub fn slot_tag(h: HashingAlgorithm) -> [u8; 2] {
    match h { HashingAlgorithm::Argon2id(i) => [0xDF, 0xA0 + i as u8], HashingAlgorithm::Blake3Balloon(i) => [0xDF, 0xB0 + i as u8] }
}
fn z(n: usize) -> Vec<u8> { vec![0; n] }
pub fn is_stream(m: &Mode) -> bool { matches!(m, Mode::StreamMode) }
pub fn ser_slot(a: Algorithm, k: &Keyslot) -> Vec<u8> {
    [slot_tag(k.hash_algorithm).to_vec(), k.encrypted_key.to_vec(), k.nonce.clone(), z(24 - full_nonce(a)), k.salt.to_vec(), z(6)].concat()
}
pub fn ser(h: &Header) -> Vec<u8> {
    let t = &h.header_type; let a = t.algorithm;
    let tg = tags(t.version, a, is_stream(&t.mode));
    let pad = z(26 - h.nonce.len());
    match t.version {
        HeaderVersion::V3 => [tg, h.salt.unwrap().to_vec(), z(16), h.nonce.clone(), pad].concat(),
        HeaderVersion::V4 => { let k = &h.keyslots.as_ref().unwrap()[0];
            [tg, h.salt.unwrap_or(k.salt).to_vec(), h.nonce.clone(), pad, k.encrypted_key.to_vec(), k.nonce.clone(), z(32 - full_nonce(a))].concat() }
        HeaderVersion::V5 => { let ks = h.keyslots.as_ref().unwrap();
            let mut o = [tg, h.nonce.clone(), pad].concat();
            for k in ks { o.extend(ser_slot(a, k)); }
            o.extend(z(96 * (4 - ks.len()))); o }
        _ => vec![],
    }
}
pub fn aad(h: &Header) -> Vec<u8> {
    let t = &h.header_type;
    let s = ser(h);
    match t.version { HeaderVersion::V3 => s, HeaderVersion::V4 => [s[..48].to_vec(), s[96 + full_nonce(t.algorithm)..].to_vec()].concat(), HeaderVersion::V5 => s[..32].to_vec(), _ => vec![] }
}
pub fn same_slot(a: &Keyslot, b: &Keyslot) -> bool { a.hash_algorithm == b.hash_algorithm && a.encrypted_key == b.encrypted_key && a.nonce == b.nonce && a.salt == b.salt }
/// what the bytes say; None: not a header
pub struct P { pub v: HeaderVersion, pub a: Algorithm, pub stream: bool, pub nonce: Vec<u8>, pub salt: [u8; 16], pub slots: Option<Vec<Keyslot>>, pub aad: Vec<u8> }
fn sl16(b: &[u8]) -> [u8; 16] { let mut a = [0; 16]; a.copy_from_slice(b); a }
fn sl48(b: &[u8]) -> [u8; 48] { let mut a = [0; 48]; a.copy_from_slice(b); a }
pub fn parse(b: &[u8]) -> Option<P> {
    if b.len() < 2 || b[0] != 0xDE { return None; }
    let v = match b[1] { 1 => HeaderVersion::V1, 2 => HeaderVersion::V2, 3 => HeaderVersion::V3, 4 => HeaderVersion::V4, 5 => HeaderVersion::V5, _ => return None };
    let n = hsize(v);
    if b.len() < n { return None; }
    let b = &b[..n];
    if b[2] != 0x0E || b[4] != 0x0C { return None; }
    let a = match b[3] { 1 => Algorithm::XChaCha20Poly1305, 2 => Algorithm::Aes256Gcm, 3 => Algorithm::DeoxysII256, _ => return None };
    let stream = match b[5] { 1 => true, 2 => false, _ => return None };
    let nl = nlen(a, stream); let fl = full_nonce(a);
    let (salt, nonce, slots, aad) = match v {
        HeaderVersion::V1 | HeaderVersion::V3 => (sl16(&b[6..22]), b[38..38 + nl].to_vec(), None, if v == HeaderVersion::V3 { b.to_vec() } else { vec![] }),
        HeaderVersion::V2 => (sl16(&b[6..22]), b[22..22 + nl].to_vec(), None, vec![]),
        HeaderVersion::V4 => (sl16(&b[6..22]), b[22..22 + nl].to_vec(),
            Some(vec![Keyslot { hash_algorithm: HashingAlgorithm::Blake3Balloon(4), encrypted_key: sl48(&b[48..96]), nonce: b[96..96 + fl].to_vec(), salt: sl16(&b[6..22]) }]),
            [b[..48].to_vec(), b[96 + fl..].to_vec()].concat()),
        HeaderVersion::V5 => {
            let mut ks = vec![];
            for i in 0..4 {
                let s = &b[32 + 96 * i..32 + 96 * (i + 1)];
                if s[0] != 0xDF { continue; }
                let h = match s[1] { 0xA1 => HashingAlgorithm::Argon2id(1), 0xA2 => HashingAlgorithm::Argon2id(2), 0xA3 => HashingAlgorithm::Argon2id(3), 0xB4 => HashingAlgorithm::Blake3Balloon(4), 0xB5 => HashingAlgorithm::Blake3Balloon(5), _ => return None };
                ks.push(Keyslot { hash_algorithm: h, encrypted_key: sl48(&s[2..50]), nonce: s[50..50 + fl].to_vec(), salt: sl16(&s[74..90]) });
            }
            ([0; 16], b[6..6 + nl].to_vec(), Some(ks), b[..32].to_vec())
        }
    };
    Some(P { v, a, stream, nonce, salt, slots, aad })
}
pub fn agrees(p: &P, h: &Header) -> Result<(), String> {
    let t = &h.header_type;
    if t.version != p.v { return Err("version differs".into()); }
    if t.algorithm != p.a { return Err("algorithm differs".into()); }
    if is_stream(&t.mode) != p.stream { return Err("mode differs".into()); }
    if h.nonce != p.nonce { return Err(format!("nonce differs: {} instead of {}", crate::hex(&h.nonce), crate::hex(&p.nonce))); }
    if h.salt != Some(p.salt) { return Err(format!("salt differs: {:?} instead of {:?}", h.salt, p.salt)); }
    match (&h.keyslots, &p.slots) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            if a.len() != b.len() { return Err(format!("{} keyslots instead of {}", a.len(), b.len())); }
            for i in 0..a.len() { if !same_slot(&a[i], &b[i]) { return Err(format!("keyslot {} differs", i)); } }
            Ok(())
        }
        _ => Err("keyslots present or absent wrongly".into()),
    }
}
/// a keyslot sealing mk under pw
pub fn slot(a: Algorithm, h: HashingAlgorithm, pw: &[u8], mk: &[u8; 32], rng: &mut crate::Rng) -> Keyslot {
    let salt: [u8; 16] = rng.arr(); let nonce = rng.bytes(full_nonce(a));
    slot_with(a, h, pw, mk, salt, nonce)
}
pub fn slot_with(a: Algorithm, h: HashingAlgorithm, pw: &[u8], mk: &[u8; 32], salt: [u8; 16], nonce: Vec<u8>) -> Keyslot {
    let k = kdf(h, pw, &salt).unwrap();
    Keyslot { hash_algorithm: h, encrypted_key: sl48(&seal(a, &k, &nonce, b"", mk)), nonce, salt }
}
pub fn slot_opens(a: Algorithm, k: &Keyslot, pw: &[u8]) -> Option<Vec<u8>> { open(a, &kdf(k.hash_algorithm, pw, &k.salt)?, &k.nonce, b"", &k.encrypted_key) }
pub fn v5(a: Algorithm, stream: bool, nonce: Vec<u8>, slots: Vec<Keyslot>) -> Header {
    Header { header_type: HeaderType { version: HeaderVersion::V5, algorithm: a, mode: if stream { Mode::StreamMode } else { Mode::MemoryMode } }, nonce, salt: None, keyslots: Some(slots) }
}
pub fn key(pw: &[u8]) -> Protected<Vec<u8>> { Protected::new(pw.to_vec()) }
pub const ARGON1: HashingAlgorithm = HashingAlgorithm::Argon2id(1);
pub const ALL_HASHES: [HashingAlgorithm; 5] = [HashingAlgorithm::Argon2id(1), HashingAlgorithm::Argon2id(2), HashingAlgorithm::Argon2id(3), HashingAlgorithm::Blake3Balloon(4), HashingAlgorithm::Blake3Balloon(5)];

pub fn crc(b: &[u8]) -> u32 { let mut c = !0u32; for x in b { c ^= *x as u32; for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; } } !c }
/// a zip file with any names at all
pub fn raw_zip(entries: &[(Vec<u8>, Vec<u8>, u32)]) -> Vec<u8> {
    let (mut o, mut cd) = (vec![], vec![]);
    for (name, data, mode) in entries {
        let at = o.len() as u32;
        let common = [&20u16.to_le_bytes()[..], &0u16.to_le_bytes(), &0u16.to_le_bytes(), &0u16.to_le_bytes(), &33u16.to_le_bytes(), &crc(data).to_le_bytes(), &(data.len() as u32).to_le_bytes(), &(data.len() as u32).to_le_bytes(), &(name.len() as u16).to_le_bytes(), &0u16.to_le_bytes()].concat();
        o.extend(b"PK\x03\x04"); o.extend(&common); o.extend(name); o.extend(data);
        cd.extend(b"PK\x01\x02"); cd.extend([20u8, 3]); cd.extend(&common); cd.extend([0u8; 6]); cd.extend((mode << 16).to_le_bytes()); cd.extend(at.to_le_bytes()); cd.extend(name);
    }
    let at = o.len() as u32; let n = entries.len() as u16; o.extend(&cd);
    o.extend(b"PK\x05\x06\0\0\0\0"); o.extend(n.to_le_bytes()); o.extend(n.to_le_bytes()); o.extend((cd.len() as u32).to_le_bytes()); o.extend(at.to_le_bytes()); o.extend([0, 0]); o
}
