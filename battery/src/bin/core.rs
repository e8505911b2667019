use battery::{ck, hex, main_with, orc::*, short, Chunk, Ctx, Sim, R};
use corecrypto::cipher::Ciphers;
use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
use corecrypto::key::{argon2id_hash, balloon_hash, decrypt_master_key, generate_passphrase, vec_to_arr};
use corecrypto::primitives::{gen_master_key, gen_nonce, gen_salt, get_nonce_len, Algorithm, Mode};
use corecrypto::protected::Protected;
use corecrypto::stream::{DecryptionStreams, EncryptionStreams};
use corecrypto::Payload;
use std::collections::HashSet;

const B: usize = MIB;
fn real_enc(a: Algorithm, key: &[u8; 32], nonce: &[u8], aad: &[u8], r: &mut Sim, w: &mut Sim) -> Result<(), String> {
    let s = EncryptionStreams::initialize(Protected::new(*key), nonce, &a).map_err(|e| format!("initialize: {}", e))?;
    s.encrypt_file(r, w, aad).map_err(|e| format!("encrypt_file: {}", e))
}
fn real_dec(a: Algorithm, key: &[u8; 32], nonce: &[u8], aad: &[u8], r: &mut Sim, w: &mut Sim) -> Result<(), String> {
    let s = DecryptionStreams::initialize(Protected::new(*key), nonce, &a).map_err(|e| format!("initialize: {}", e))?;
    s.decrypt_file(r, w, aad).map_err(|e| format!("decrypt_file: {}", e))
}
fn lens(t: bool) -> Vec<usize> {
    let mut v = vec![0, 1, 15, 16, 17, 4095, 70_000, B - 17, B - 16, B - 1, B, B + 1, B + 15, B + 16, B + 17, 2 * B - 16, 2 * B - 1, 2 * B, 2 * B + 1, 2 * B + 32, 3 * B];
    if t { v.extend([3 * B + 5, 4 * B, 5 * B - 1, 8 * B, 16 * B + 1, 31, 32, 33, 511, 512, 513]); }
    v
}
const CHUNKS: [Chunk; 5] = [Chunk::Full, Chunk::Max(65_536), Chunk::Rand(900_000), Chunk::Max(B - 1), Chunk::Max(B + 7)];

fn streams(c: &mut Ctx, fmt: bool) {
    let mut rng = c.rng.clone();
    for a in ALGS {
        for n in lens(c.thorough) {
            let pt = rng.bytes(n);
            let key: [u8; 32] = rng.arr();
            let nonce = rng.bytes(nlen(a, true));
            let al = *rng.pick(&[0usize, 1, 32, 64, 116, 300]);
            let aad = rng.bytes(al);
            let mut picks = vec![(Chunk::Full, Chunk::Full)];
            picks.push((*rng.pick(&CHUNKS), *rng.pick(&CHUNKS)));
            if n <= 70_000 { picks.push((Chunk::One, Chunk::One)); } else { picks.push((Chunk::Rand(400_000), Chunk::Rand(300_000))); }
            let want = enc_body(a, &key, &nonce, &aad, &pt);
            for (rc, wc) in picks {
                let at = *rng.pick(&[0usize, 5, 416]);
                let input = format!("{} content of {} bytes, aad of {} bytes, reader {:?}, writer {:?}, both starting at {}", an(a), n, al, rc, wc, at);
                let mut pre = rng.bytes(at); pre.extend_from_slice(&pt);
                let base = rng.bytes(at);
                let (pt2, aad2, nonce2, want2) = (&pt, &aad, &nonce, &want);
                c.case(if fmt { "stream-format" } else { "stream-encrypt" }, &input, || {
                    let mut r = Sim::new(pre).at(at as u64).r(rc); r.keep = false;
                    let mut w = Sim::new(base.clone()).at(at as u64).w(wc);
                    real_enc(a, &key, nonce2, aad2, &mut r, &mut w)?;
                    ck!(w.data.len() >= at && w.data[..at] == base[..], "bytes before the start of the output were changed");
                    ck!(w.data[at..] == want2[..], "encrypted body is {} instead of {}", short(&w.data[at..]), short(want2));
                    ck!(r.pos as usize == at + pt2.len(), "the reader stopped at {} of {}", r.pos, at + pt2.len());
                    let mut p = at as u64;
                    for (q, b) in w.written() { ck!(q == p, "output written at {} while the next byte is {}", q, p); p += b.len() as u64; }
                    ck!(w.flushed_last(), "output not flushed after the last write");
                    Ok(())
                });
                let mut pre = rng.bytes(at); pre.extend_from_slice(&want);
                let base = rng.bytes(at);
                c.case(if fmt { "stream-format-dec" } else { "stream-decrypt" }, &input, || {
                    let mut r = Sim::new(pre).at(at as u64).r(rc); r.keep = false;
                    let mut w = Sim::new(base.clone()).at(at as u64).w(wc);
                    real_dec(a, &key, nonce2, aad2, &mut r, &mut w)?;
                    ck!(w.data[..at] == base[..] && w.data[at..] == pt2[..], "decrypted content is {} instead of {}", short(&w.data[at..]), short(pt2));
                    ck!(w.flushed_last(), "output not flushed after the last write");
                    Ok(())
                });
            }
        }
    }
    c.rng = rng;
}
/// fails or succeeds correctly under faults
fn stream_faults(c: &mut Ctx, test: &str) {
    let mut rng = c.rng.clone();
    for a in ALGS {
        for n in [0usize, 10, B, B + 100] {
            let pt = rng.bytes(n); let key: [u8; 32] = rng.arr(); let nonce = rng.bytes(nlen(a, true)); let aad = rng.bytes(32);
            let ct = enc_body(a, &key, &nonce, &aad, &pt);
            for dec in [false, true] {
                let (src, full) = if dec { (&ct, &pt) } else { (&pt, &ct) };
                for k in 0..4usize { for kind in 0..3 {
                    let input = format!("{} {} of {} bytes, {} call number {} fails", an(a), if dec { "decryption" } else { "encryption" }, n, ["read", "write", "flush"][kind], k);
                    let (nonce, aad) = (&nonce, &aad);
                    c.case(test, &input, || {
                        let mut r = Sim::new(src.clone()); let mut w = Sim::new(vec![]);
                        match kind { 0 => r.fail_read = Some(k), 1 => w.fail_write = Some(k), _ => w.fail_flush = Some(k) }
                        let res = if dec { real_dec(a, &key, nonce, aad, &mut r, &mut w) } else { real_enc(a, &key, nonce, aad, &mut r, &mut w) };
                        let hit = match kind { 0 => r.reads > k, 1 => w.writes > k, _ => w.flushes > k };
                        ck!(full.starts_with(&w.data), "output {} is not a prefix of the genuine one", short(&w.data));
                        if hit { ck!(res.is_err(), "reported success although the call failed"); }
                        else { ck!(res.is_ok(), "failed without any fault: {}", res.unwrap_err()); ck!(&w.data == full, "wrong output"); }
                        Ok(())
                    });
                } }
            }
        }
    }
    c.rng = rng;
}
fn nonce_lengths(c: &mut Ctx) {
    for a in ALGS { for n in 0..40usize {
        c.case("nonce-length", &format!("{} encryption stream with a nonce of {} bytes", an(a), n), || {
            let ok = EncryptionStreams::initialize(Protected::new([3u8; 32]), &vec![1u8; n], &a).is_ok();
            ck!(ok == (n == nlen(a, true)), "initialize {} for {} bytes while {} are needed", if ok { "succeeded" } else { "failed" }, n, nlen(a, true)); Ok(())
        });
    }
    c.case("nonce-length-dec", an(a), || {
        ck!(DecryptionStreams::initialize(Protected::new([3u8; 32]), &vec![1u8; nlen(a, true)], &a).is_ok(), "refused a nonce of the right length"); Ok(())
    }); }
}
fn counters(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let n = if c.thorough { 70_000usize } else { 1_100 };
    for a in ALGS {
        let key: [u8; 32] = rng.arr(); let nonce = rng.bytes(nlen(a, true)); let aad = rng.bytes(16);
        c.case("block-counter", &format!("{} {} small blocks through encrypt_next/decrypt_next", an(a), n), || {
            let mut e = EncryptionStreams::initialize(Protected::new(key), &nonce, &a).map_err(|e| e.to_string())?;
            let mut d = DecryptionStreams::initialize(Protected::new(key), &nonce, &a).map_err(|e| e.to_string())?;
            for i in 0..n {
                let m = (i as u32).to_le_bytes();
                let x = e.encrypt_next(Payload { msg: &m, aad: &aad }).map_err(|_| format!("encrypt_next {} failed", i))?;
                ck!(x == seal(a, &key, &snonce(&nonce, i as u32, false), &aad, &m), "block {} is not sealed with its own counter nonce", i);
                let y = d.decrypt_next(Payload { msg: &x, aad: &aad }).map_err(|_| format!("decrypt_next {} failed", i))?;
                ck!(y == m, "block {} decrypts to something else", i);
            }
            let x = e.encrypt_last(Payload { msg: b"end", aad: &aad }).map_err(|_| "encrypt_last failed".to_string())?;
            ck!(x == seal(a, &key, &snonce(&nonce, n as u32, true), &aad, b"end"), "last block is not sealed as the last");
            ck!(d.decrypt_last(Payload { msg: &x, aad: &aad }).map_err(|_| "decrypt_last failed".to_string())? == b"end", "last block decrypts to something else");
            Ok(())
        });
        // the message kinds accepted without associated data
        c.case("payload-kinds", an(a), || {
            let mut e = EncryptionStreams::initialize(Protected::new(key), &nonce, &a).map_err(|e| e.to_string())?;
            let x = e.encrypt_next(b"abc".as_slice()).map_err(|_| "failed".to_string())?;
            ck!(x == seal(a, &key, &snonce(&nonce, 0, false), b"", b"abc"), "wrong seal without associated data"); Ok(())
        });
    }
    if c.thorough {
        let a = Algorithm::Aes256Gcm;
        let pt = rng.bytes(260 * B + 3); let key: [u8; 32] = rng.arr(); let nonce = rng.bytes(8);
        c.case("long-stream", "AES-256-GCM content of 260 MiB and 3 bytes", || {
            let want = enc_body(a, &key, &nonce, b"x", &pt);
            let mut r = Sim::new(pt.clone()); r.keep = false; let mut w = Sim::new(vec![]); w.keep = false;
            real_enc(a, &key, &nonce, b"x", &mut r, &mut w)?;
            ck!(w.data == want, "encrypted body differs");
            let mut r = Sim::new(want); r.keep = false; let mut w = Sim::new(vec![]); w.keep = false;
            real_dec(a, &key, &nonce, b"x", &mut r, &mut w)?;
            ck!(w.data == pt, "decrypted content differs"); Ok(())
        });
    }
    c.rng = rng;
}
/// changed bodies are refused, and nothing but a genuine prefix comes out
fn tampering(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let sizes: &[usize] = if c.thorough { &[0, 1, 40, B - 1, B, B + 1, 2 * B, 2 * B + 33, 3 * B + 1] } else { &[0, 1, 40, B, B + 1, 2 * B + 33] };
    for a in ALGS { for &n in sizes {
        if !c.thorough && a == Algorithm::DeoxysII256 && n > B + 1 { continue; }
        let pt = rng.bytes(n); let key: [u8; 32] = rng.arr(); let nonce = rng.bytes(nlen(a, true)); let aad = rng.bytes(32);
        let bl = enc_blocks(a, &key, &nonce, &aad, &pt); let body = bl.concat();
        let mut muts: Vec<(String, Vec<u8>)> = vec![];
        let mut pos = vec![0, body.len() - 1, body.len().saturating_sub(16), body.len() / 2];
        for k in 1..=n / B { pos.extend([k * (B + 16) - 17, k * (B + 16) - 16, k * (B + 16) - 1, (k * (B + 16)).min(body.len() - 1)]); }
        for _ in 0..3 { pos.push(rng.below(body.len())); }
        for p in pos { let mut b = body.clone(); let bit = rng.below(8); b[p] ^= 1 << bit; muts.push((format!("bit {} of byte {} flipped", bit, p), b)); }
        let mut cuts = vec![0, 1, 15, 16, body.len() - 1, body.len().saturating_sub(15), body.len().saturating_sub(16), body.len().saturating_sub(17)];
        for k in 1..=n / B { for d in [-17i64, -16, -1, 0, 1, 15, 16, 17] { cuts.push((k as i64 * (B as i64 + 16) + d) as usize); } }
        for k in cuts { if k < body.len() { muts.push((format!("cut to {} bytes", k), body[..k].to_vec())); } }
        for k in [1usize, 15, 16, 17, 100] { let mut b = body.clone(); b.extend(rng.bytes(k)); muts.push((format!("{} bytes appended", k), b)); }
        muts.push(("a zero byte appended".into(), [body.clone(), vec![0]].concat()));
        muts.push(("body appended to itself".into(), [body.clone(), body.clone()].concat()));
        muts.push(("last block duplicated".into(), [body.clone(), bl.last().unwrap().clone()].concat()));
        if bl.len() > 1 {
            for i in 0..bl.len() { let mut v = bl.clone(); v.remove(i); muts.push((format!("block {} dropped", i), v.concat())); let mut v = bl.clone(); v.insert(i, bl[i].clone()); muts.push((format!("block {} duplicated", i), v.concat())); }
            let mut v = bl.clone(); v.swap(0, 1); muts.push(("blocks 0 and 1 swapped".into(), v.concat()));
            muts.push(("first byte removed".into(), body[1..].to_vec()));
        }
        for (what, b) in muts {
            if b == body { continue; }
            let rc = *rng.pick(&CHUNKS);
            let (nonce, aad, pt) = (&nonce, &aad, &pt);
            c.case("tampered-body", &format!("{} content of {} bytes, {}, reader {:?}", an(a), n, what, rc), || {
                let mut r = Sim::new(b).r(rc); let mut w = Sim::new(vec![]);
                let res = real_dec(a, &key, nonce, aad, &mut r, &mut w);
                ck!(res.is_err(), "decryption reported success");
                ck!(pt.starts_with(&w.data), "wrote {} which is not a prefix of the content", short(&w.data)); Ok(())
            });
        }
        // other key, nonce, associated data
        for (what, k2, n2, d2) in [("another key", { let mut k = key; k[31] ^= 1; k }, nonce.clone(), aad.clone()), ("another nonce", key, { let mut x = nonce.clone(); let i = x.len() - 1; x[i] ^= 0x80; x }, aad.clone()),
            ("a changed last byte of the associated data", key, nonce.clone(), { let mut x = aad.clone(); x[31] ^= 1; x }), ("a changed first byte of the associated data", key, nonce.clone(), { let mut x = aad.clone(); x[0] ^= 1; x }), ("shorter associated data", key, nonce.clone(), aad[..31].to_vec()), ("no associated data", key, nonce.clone(), vec![])] {
            let body = body.clone();
            c.case("tampered-context", &format!("{} content of {} bytes under {}", an(a), n, what), || {
                let mut r = Sim::new(body); let mut w = Sim::new(vec![]);
                ck!(real_dec(a, &k2, &n2, &d2, &mut r, &mut w).is_err(), "decryption reported success");
                ck!(w.data.is_empty(), "wrote {}", short(&w.data)); Ok(())
            });
        }
    } }
    c.rng = rng;
}
fn ciphers(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for a in ALGS { for n in [0usize, 1, 15, 16, 17, 32, 1000, B, B + 1] { for m in [0usize, 1, 32, 500] {
        let key: [u8; 32] = rng.arr(); let nonce = rng.bytes(full_nonce(a)); let msg = rng.bytes(n); let aad = rng.bytes(m);
        let i0 = rng.below(n + 16);
        c.case("cipher", &format!("{} message of {} bytes, associated data of {} bytes", an(a), n, m), || {
            let ci = Ciphers::initialize(Protected::new(key), &a).map_err(|e| e.to_string())?;
            let want = seal(a, &key, &nonce, &aad, &msg);
            let x = ci.encrypt(&nonce, Payload { msg: &msg, aad: &aad }).map_err(|_| "encrypt failed".to_string())?;
            ck!(x == want, "ciphertext {} instead of {}", short(&x), short(&want));
            let y = ci.decrypt(&nonce, Payload { msg: &x, aad: &aad }).map_err(|_| "decrypt failed".to_string())?;
            ck!(y == msg, "decrypts to {} instead of {}", short(&y), short(&msg));
            let mut b = msg.clone();
            ci.encrypt_in_place(&nonce, &aad, &mut b).map_err(|_| "encrypt_in_place failed".to_string())?;
            ck!(b == want, "encrypt_in_place gives {} instead of {}", short(&b), short(&want));
            let x0 = ci.encrypt(&nonce, msg.as_slice()).map_err(|_| "encrypt failed".to_string())?;
            ck!(x0 == seal(a, &key, &nonce, b"", &msg), "ciphertext without associated data differs");
            let mut t = x.clone(); t[i0] ^= 4;
            ck!(ci.decrypt(&nonce, Payload { msg: &t, aad: &aad }).is_err(), "accepted a ciphertext with byte {} changed", i0);
            if m > 0 { let mut d = aad.clone(); d[m - 1] ^= 1; ck!(ci.decrypt(&nonce, Payload { msg: &x, aad: &d }).is_err(), "accepted changed associated data"); }
            ck!(ci.decrypt(&nonce, Payload { msg: &x[..x.len() - 1], aad: &aad }).is_err(), "accepted a truncated ciphertext");
            Ok(())
        });
    } } }
    c.rng = rng;
}

// ------------------------------------------------------------------ headers
fn rand_header(rng: &mut battery::Rng, v: HeaderVersion, a: Algorithm, stream: bool, ns: usize) -> Header {
    let mut slots = vec![];
    for _ in 0..ns {
        let h = if v == HeaderVersion::V4 { HashingAlgorithm::Blake3Balloon(4) } else { *rng.pick(&ALL_HASHES) };
        slots.push(Keyslot { hash_algorithm: h, encrypted_key: rng.arr(), nonce: rng.bytes(full_nonce(a)), salt: rng.arr() });
    }
    let salt = match v { HeaderVersion::V5 => None, HeaderVersion::V4 => if rng.below(2) == 0 { None } else { Some(slots[0].salt) }, _ => Some(rng.arr()) };
    Header { header_type: HeaderType { version: v, algorithm: a, mode: if stream { Mode::StreamMode } else { Mode::MemoryMode } }, nonce: rng.bytes(nlen(a, stream)), salt,
        keyslots: if matches!(v, HeaderVersion::V4 | HeaderVersion::V5) { Some(slots) } else { None } }
}
fn each_header(c: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, &str, Header, &mut battery::Rng)) {
    let mut rng = c.rng.clone();
    let reps = if c.thorough { 40 } else { 6 };
    for v in [HeaderVersion::V3, HeaderVersion::V4, HeaderVersion::V5] { for a in ALGS { for stream in [true, false] {
        for ns in match v { HeaderVersion::V3 => 0..=0, HeaderVersion::V4 => 1..=1, _ => 0..=4usize } { for i in 0..reps {
            if v == HeaderVersion::V4 && !stream && full_nonce(a) > 26 { continue; }
            let h = rand_header(&mut rng, v, a, stream, ns);
            let d = format!("{} {} {} header with {} keyslots ({}), nonce {}, case {}", vn(v), an(a), if stream { "stream" } else { "memory" }, ns,
                h.keyslots.as_ref().map_or(String::new(), |k| k.iter().map(|k| hn(k.hash_algorithm)).collect::<Vec<_>>().join(" ")), hex(&h.nonce), i);
            f(c, &d, h, &mut rng);
        } }
    } } }
    c.rng = rng;
}
fn headers(c: &mut Ctx) {
    each_header(c, &mut |c, d, h, rng| {
        let want = ser(&h); let tl = *rng.pick(&[0usize, 1, 1000]); let tail = rng.bytes(tl); let at = *rng.pick(&[0usize, 0, 7]);
        let wc = *rng.pick(&[Chunk::Full, Chunk::One, Chunk::Max(3), Chunk::Rand(100)]); let rc = *rng.pick(&[Chunk::Full, Chunk::One, Chunk::Rand(50)]);
        let pre = rng.bytes(at);
        c.case("header-roundtrip", &format!("{}, writer {:?}, reader {:?}, at offset {}", d, wc, rc, at), || {
            ck!(h.get_size() == want.len() as u64, "advertised size {} instead of {}", h.get_size(), want.len());
            let s = h.serialize().map_err(|e| e.to_string())?;
            ck!(s == want, "serialized to {} instead of {}", hex(&s), hex(&want));
            let mut w = Sim::new([pre.clone(), vec![0xEE; want.len() + 9]].concat()).at(at as u64).w(wc);
            h.write(&mut w).map_err(|e| e.to_string())?;
            ck!(w.data[..at] == pre[..] && w.data[at..at + want.len()] == want[..], "written as {} instead of {}", hex(&w.data[at..at + want.len()]), hex(&want));
            ck!(w.data[at + want.len()..].iter().all(|b| *b == 0xEE), "bytes after the header were changed");
            let mut r = Sim::new([pre.clone(), want.clone(), tail.clone()].concat()).at(at as u64).r(rc);
            let (g, aad) = Header::deserialize(&mut r).map_err(|e| format!("cannot be read back: {}", e))?;
            ck!(r.pos as usize == at + want.len(), "reader is at {} after a header of {} bytes", r.pos, want.len());
            let p = parse(&want).ok_or("oracle")?;
            agrees(&p, &g)?;
            if let Some(k) = &h.keyslots { let q = g.keyslots.as_ref().ok_or("keyslots lost")?; ck!(k.len() == q.len() && k.iter().zip(q).all(|(x, y)| same_slot(x, y)), "keyslots changed"); }
            ck!(g.nonce == h.nonce && g.header_type.version == h.header_type.version && g.header_type.algorithm == h.header_type.algorithm && g.header_type.mode == h.header_type.mode, "read back differently");
            if let Some(s) = h.salt { ck!(g.salt == Some(s), "salt changed"); }
            ck!(aad == p.aad, "associated data differs");
            Ok(())
        });
        let k = rng.below(want.len());
        let h2 = &h;
        c.case("header-write-fault", &format!("{}, write call number {} fails", d, k), || {
            let mut w = Sim::new(vec![]).w(Chunk::Max(1)); w.fail_write = Some(k);
            ck!(h2.write(&mut w).is_err(), "reported success although a write failed"); Ok(())
        });
    });
    // V5 files with holes in the keyslot table
    let mut rng = c.rng.clone();
    for a in ALGS { for mask in 0..16u32 {
        let mut b = [tags(HeaderVersion::V5, a, true), rng.bytes(nlen(a, true))].concat(); b.resize(32, 0);
        for i in 0..4 { if mask & (1 << i) != 0 { let s = Keyslot { hash_algorithm: *rng.pick(&ALL_HASHES), encrypted_key: rng.arr(), nonce: rng.bytes(full_nonce(a)), salt: rng.arr() }; b.extend(ser_slot(a, &s)); } else { b.extend(vec![0; 96]); } }
        c.case("keyslot-table", &format!("V5 {} keyslots in places {:04b}", an(a), mask), || {
            let mut r = Sim::new(b.clone());
            let (g, _) = Header::deserialize(&mut r).map_err(|e| e.to_string())?;
            agrees(&parse(&b).ok_or("oracle")?, &g)?; ck!(r.pos == 416, "reader at {}", r.pos); Ok(())
        });
    } }
    c.case("header-old-versions", "V1 and V2 headers", || {
        for v in [HeaderVersion::V1, HeaderVersion::V2] {
            let h = Header { header_type: HeaderType { version: v, algorithm: Algorithm::Aes256Gcm, mode: Mode::StreamMode }, nonce: vec![1; 8], salt: Some([2; 16]), keyslots: None };
            ck!(h.serialize().is_err(), "{} can be written", vn(v)); ck!(h.create_aad().is_err(), "{} has associated data", vn(v));
            let mut w = Sim::new(vec![]); ck!(h.write(&mut w).is_err() && w.data.is_empty(), "{} can be written", vn(v));
            ck!(h.get_size() == 64, "size of {}", vn(v));
        } Ok(())
    });
    c.rng = rng;
}
fn aads(c: &mut Ctx) {
    each_header(c, &mut |c, d, h, rng| {
        let tail = rng.bytes(40);
        let mut other = h.keyslots.clone();
        if h.header_type.version == HeaderVersion::V5 { let n = rng.below(5); other = rand_header(rng, HeaderVersion::V5, h.header_type.algorithm, true, n).keyslots; }
        c.case("associated-data", d, || {
            let a1 = h.create_aad().map_err(|e| e.to_string())?;
            ck!(a1 == aad(&h), "associated data when encrypting is {} instead of {}", hex(&a1), hex(&aad(&h)));
            let b = [h.serialize().map_err(|e| e.to_string())?, tail.clone()].concat();
            let (g, a2) = Header::deserialize(&mut Sim::new(b.clone())).map_err(|e| e.to_string())?;
            ck!(a1 == a2, "associated data when decrypting is {}, when encrypting {}", hex(&a2), hex(&a1));
            let a3 = g.create_aad().map_err(|e| e.to_string())?;
            ck!(a3 == a1, "associated data of the header read back is {} instead of {}", hex(&a3), hex(&a1));
            if h.header_type.version == HeaderVersion::V5 {
                ck!(a1 == b[..32], "not the first 32 header bytes");
                let h2 = Header { header_type: g.header_type, nonce: h.nonce.clone(), salt: None, keyslots: other };
                ck!(h2.create_aad().map_err(|e| e.to_string())? == a1, "depends on the keyslots");
            }
            Ok(())
        });
    });
    // stored bytes decide: changing a byte inside the authenticated part changes the associated data
    let mut rng = c.rng.clone();
    for v in [HeaderVersion::V1, HeaderVersion::V2, HeaderVersion::V3, HeaderVersion::V4, HeaderVersion::V5] { for a in ALGS { for s in [true, false] { for i in 0..8 {
        let mut b = tags(v, a, s); b.extend(rng.bytes(hsize(v) - 6));
        if v == HeaderVersion::V5 { for j in 0..4 { let o = 32 + 96 * j; let t = slot_tag(*rng.pick(&ALL_HASHES)); b[o..o + 2].copy_from_slice(&t); } }
        c.case("associated-data-stored", &format!("{} {} case {}: {}", vn(v), an(a), i, short(&b)), || {
            let (_, x) = Header::deserialize(&mut Sim::new(b.clone())).map_err(|e| e.to_string())?;
            let p = parse(&b).ok_or("oracle")?;
            ck!(x == p.aad, "associated data {} instead of {}", hex(&x), hex(&p.aad)); Ok(())
        });
    } } } }
    c.rng = rng;
}
fn parse_case(c: &mut Ctx, test: &str, what: &str, b: &[u8], at: usize, rc: Chunk) {
    c.case(test, &format!("{}, reader {:?} at {}: {}", what, rc, at, short(b)), || {
        let mut r = Sim::new(b.to_vec()).at(at as u64).r(rc);
        let from = if at <= b.len() { &b[at..] } else { &[][..] };
        match (parse(from), Header::deserialize(&mut r)) {
            (None, Ok(_)) => Err("accepted".into()),
            (Some(_), Err(e)) => Err(format!("rejected: {}", e)),
            (None, Err(_)) => { ck!(r.data == b, "input modified"); Ok(()) }
            (Some(p), Ok((h, aad))) => {
                agrees(&p, &h)?;
                ck!(aad == p.aad, "associated data {} instead of {}", hex(&aad), hex(&p.aad));
                ck!(r.pos as usize == at + hsize(p.v), "reader advanced to {} instead of {}", r.pos, at + hsize(p.v));
                ck!(r.data == b && !r.log.iter().any(|o| matches!(o, battery::Op::Write(..))), "input modified"); Ok(())
            }
        }
    });
}
fn parsing(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    // every identifying tag
    for v in 0..=255u8 { let mut b = vec![0u8; 420]; b[..6].copy_from_slice(&[0xDE, v, 0x0E, 1, 0x0C, 1]); parse_case(c, "tags", "version byte", &b, 0, Chunk::Full); }
    for i in 0..6usize { for x in 0..=255u8 { for v in [3u8, 4, 5] { let mut b = vec![0u8; 420]; b[..6].copy_from_slice(&[0xDE, v, 0x0E, 2, 0x0C, 2]); b[i] = x; parse_case(c, "tags", &format!("tag byte {} is {:02x}", i, x), &b, 0, Chunk::Full); } } }
    for s in 0..4usize { for x in 0..=255u8 { for y in [0xDFu8, 0xDE, 0x00] {
        let mut b = vec![0u8; 416]; b[..6].copy_from_slice(&[0xDE, 5, 0x0E, 3, 0x0C, 1]);
        for k in 0..4 { b[32 + 96 * k] = 0xDF; b[33 + 96 * k] = 0xA1 + (k as u8 % 3); }
        b[32 + 96 * s] = y; b[33 + 96 * s] = x; parse_case(c, "keyslot-tags", &format!("keyslot {} starts {:02x}{:02x}", s, y, x), &b, 0, Chunk::Full);
    } } }
    // every length
    for v in 1..=5u8 { for alg in 1..=3u8 { for n in 0..=430usize {
        let mut b = rng.bytes(n.max(6)); b[..6].copy_from_slice(&[0xDE, v, 0x0E, alg, 0x0C, 1 + (n % 2) as u8]); b.truncate(n);
        for k in 0..4 { if b.len() > 33 + 96 * k && v == 5 { if rng.below(4) > 0 { b[32 + 96 * k] = 0xDF; let t = slot_tag(*rng.pick(&ALL_HASHES)); b[33 + 96 * k] = t[1]; } } }
        parse_case(c, "lengths", &format!("{} bytes", n), &b, 0, *[Chunk::Full, Chunk::One, Chunk::Rand(60)].get(n % 3).unwrap());
    } } }
    // at an offset, beyond the end, arbitrary bytes
    for i in 0..if c.thorough { 40_000 } else { 3_000 } {
        let n = rng.below(900); let mut b = rng.bytes(n); let at = if rng.below(3) == 0 { rng.below(n + 20) } else { 0 };
        if rng.below(10) > 0 && at + 6 <= n { let t = [0xDE, 1 + rng.below(5) as u8, 0x0E, 1 + rng.below(3) as u8, 0x0C, 1 + rng.below(2) as u8]; b[at..at + 6].copy_from_slice(&t); if rng.below(4) == 0 { let k = rng.below(6); b[at + k] ^= 1 << rng.below(8); } }
        for k in 0..4 { let o = at + 32 + 96 * k; if o + 2 <= b.len() && rng.below(3) > 0 { b[o] = 0xDF; b[o + 1] = *rng.pick(&[0xA1, 0xA2, 0xA3, 0xB4, 0xB5, 0xA1, 0xB5, 0xA4, 0xB3]); } }
        parse_case(c, "arbitrary", &format!("case {}", i), &b, at, *rng.pick(&[Chunk::Full, Chunk::One, Chunk::Rand(100)]));
    }
    // faults
    for k in 0..8 { for v in 1..=5u8 { for kind in 0..2 {
        let mut b = vec![0u8; 420]; b[..6].copy_from_slice(&[0xDE, v, 0x0E, 2, 0x0C, 1]);
        c.case("read-fault", &format!("V{} header, {} call number {} fails", v, ["read", "seek"][kind], k), || {
            let mut r = Sim::new(b); if kind == 0 { r.fail_read = Some(k) } else { r.fail_seek = Some(k) }
            let x = Header::deserialize(&mut r); let hit = if kind == 0 { r.reads > k } else { r.seeks > k };
            ck!(x.is_err() == hit, "{}", if hit { "succeeded although a call failed" } else { "failed without a fault" }); Ok(())
        });
    } } }
    c.rng = rng;
}

// ------------------------------------------------------------------ keys
fn p2(r: anyhow_result::Res) -> Option<[u8; 32]> { r }
mod anyhow_result { pub type Res = Option<[u8; 32]>; }
fn hashes(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let pws: Vec<Vec<u8>> = { let mut v = vec![b"".to_vec(), b"a".to_vec(), b"correct horse".to_vec(), vec![0], vec![0, 0], vec![0xff; 200], b"trailing newline\n".to_vec(), rng.bytes(64), rng.bytes(65)]; if c.thorough { v.push(rng.bytes(5000)); for _ in 0..4 { let n = rng.below(300); v.push(rng.bytes(n)); } } v };
    for (i, h) in ALL_HASHES.iter().enumerate() {
        let heavy = !matches!(h, HashingAlgorithm::Argon2id(1));
        for (j, pw) in pws.iter().enumerate() {
            if heavy && !c.thorough && j % 4 != i % 4 { continue; }
            let salt: [u8; 16] = if j == 0 { [0; 16] } else { rng.arr() };
            let (h, pw) = (*h, pw.clone());
            c.later("key-hash", &format!("{} key {} salt {}", hn(h), short(&pw), hex(&salt)), move || {
                let (h, pw) = (&h, &pw);
                let want = kdf(*h, pw, &salt);
                let got = p2(h.hash(key(pw), &salt).ok().map(|k| *k.expose()));
                ck!(got == want, "hash is {:?} instead of {:?}", got.map(|k| hex(&k)), want.map(|k| hex(&k)));
                let other = match h { HashingAlgorithm::Argon2id(k) => argon2id_hash(key(pw), &salt, &[HeaderVersion::V1, HeaderVersion::V2, HeaderVersion::V3][*k as usize - 1]), HashingAlgorithm::Blake3Balloon(k) => balloon_hash(key(pw), &salt, &[HeaderVersion::V4, HeaderVersion::V5][*k as usize - 4]) };
                if !heavy || j < 2 { ck!(other.ok().map(|k| *k.expose()) == want, "the versioned function differs"); }
                Ok(())
            });
        }
    }
    // long keys, cut nowhere
    for n in [127usize, 128, 129, 1023, 1024, 1025, 4097, 65_537, (1 << 20) + 1, 3 << 20] { for flip in [false, true] {
        let mut pw = rng.bytes(n); if flip { pw[n - 1] ^= 1; } let salt: [u8; 16] = rng.arr();
        c.later("key-hash-long", &format!("Argon2id(1) key {}", short(&pw)), move || { let want = kdf(ARGON1, &pw, &salt); let got = ARGON1.hash(key(&pw), &salt).ok().map(|k| *k.expose()); ck!(got == want, "hash is {:?} instead of {:?}", got.map(|k| hex(&k)), want.map(|k| hex(&k))); Ok(()) });
    } }
    { let pw = rng.bytes((1 << 20) + 17); let salt: [u8; 16] = rng.arr(); c.later("key-hash-long", &format!("Blake3Balloon(5) key {}", short(&pw)), move || { let h = HashingAlgorithm::Blake3Balloon(5); let want = kdf(h, &pw, &salt); let got = h.hash(key(&pw), &salt).ok().map(|k| *k.expose()); ck!(got == want, "differs"); Ok(()) }); }
    for i in (-3..40).chain([i32::MIN, i32::MAX, 256, 257, 260, 1 << 16, (1 << 16) + 4]) {
        let s = [7u8; 16];
        if !(1..=3).contains(&i) { c.case("unknown-identifier", &format!("Argon2id({})", i), || { ck!(HashingAlgorithm::Argon2id(i).hash(key(b"pw"), &s).is_err(), "accepted"); Ok(()) }); }
        if !(4..=5).contains(&i) { c.case("unknown-identifier", &format!("Blake3Balloon({})", i), || { ck!(HashingAlgorithm::Blake3Balloon(i).hash(key(b"pw"), &s).is_err(), "accepted"); Ok(()) }); }
    }
    for (n, v) in [HeaderVersion::V4, HeaderVersion::V5].iter().enumerate() { c.case("wrong-version", &format!("argon2id V{}", n + 4), || { ck!(argon2id_hash(key(b"pw"), &[1; 16], v).is_err(), "accepted"); Ok(()) }); }
    for (n, v) in [HeaderVersion::V1, HeaderVersion::V2, HeaderVersion::V3].iter().enumerate() { c.case("wrong-version", &format!("balloon V{}", n + 1), || { ck!(balloon_hash(key(b"pw"), &[1; 16], v).is_err(), "accepted"); Ok(()) }); }
    for h in ALL_HASHES { c.case("identifier-bytes", &hn(h), || {
        let k = Keyslot { hash_algorithm: h, encrypted_key: [0; 48], nonce: vec![0; 12], salt: [0; 16] };
        ck!(k.serialize() == slot_tag(h), "stored as {}", hex(&k.serialize())); Ok(()) }); }
    c.rng = rng;
}
fn unlocking(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for a in ALGS {
        let mks: Vec<[u8; 32]> = vec![[0; 32], rng.arr(), [0xff; 32], rng.arr()];
        let pws: Vec<Vec<u8>> = vec![b"one".to_vec(), b"two".to_vec(), b"one".to_vec(), b"".to_vec()];
        let slots: Vec<Keyslot> = (0..4).map(|i| slot(a, ARGON1, &pws[i], &mks[i], &mut rng)).collect();
        let orders: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 2], vec![2, 0], vec![1, 2, 0], vec![3, 1, 0, 2], vec![0, 1, 2, 3], vec![1, 1, 1, 0], vec![3], vec![1, 3, 3, 3]];
        for o in orders { for pw in [&b"one"[..], b"two", b"", b"three", b"One", b"one\0"] {
            let hs: Vec<Keyslot> = o.iter().map(|i| slots[*i].clone()).collect();
            let want = o.iter().find(|i| pws[**i] == pw).map(|i| mks[*i]);
            let pw = pw.to_vec();
            c.later("keyslot-choice", &format!("V5 {} keyslots of keys {:?}, key {:?}", an(a), o.iter().map(|i| String::from_utf8_lossy(&pws[*i]).into_owned()).collect::<Vec<_>>(), String::from_utf8_lossy(&pw)), move || {
                let pw = &pw[..];
                let h = v5(a, true, vec![0; nlen(a, true)], hs);
                let got = decrypt_master_key(key(pw), &h).ok().map(|k| *k.expose());
                ck!(got == want, "gives {:?} instead of {:?}", got.map(|k| hex(&k)), want.map(|k| hex(&k))); Ok(())
            });
        } }
        // damaged slots do not open
        for i in 0..12 { let mut s = slots[1].clone(); let what = i % 4; match what { 0 => s.encrypted_key[rng.below(48)] ^= 1, 1 => { let k = rng.below(s.nonce.len()); s.nonce[k] ^= 0x10 }, 2 => s.salt[rng.below(16)] ^= 0x40, _ => s.encrypted_key[47] ^= 0x80 }
            let good = slots[0].clone(); let b = i >= 8;
            c.later("damaged-keyslot", &format!("{} case {} {}", an(a), i, ["key", "nonce", "salt", "tag"][what]), move || {
                let h = v5(a, true, vec![0; nlen(a, true)], if b { vec![s, good] } else { vec![s] });
                ck!(decrypt_master_key(key(b"two"), &h).is_err(), "opened");
                if b { ck!(decrypt_master_key(key(b"one"), &h).map(|k| *k.expose()).ok() == Some([0; 32]), "the slot behind it does not open"); }
                Ok(())
            });
        }
        // other hashing algorithms, several in one header
        let hs: Vec<HashingAlgorithm> = if c.thorough { ALL_HASHES.to_vec() } else { vec![*rng.pick(&ALL_HASHES[1..3]), *rng.pick(&ALL_HASHES[3..])] };
        for h in hs { let mk: [u8; 32] = rng.arr(); let s0 = slots[0].clone(); let mut r2 = rng.clone(); rng.next();
            c.later("keyslot-hash", &format!("{} {}", an(a), hn(h)), move || {
                let s = slot(a, h, b"pass", &mk, &mut r2);
                let hd = v5(a, true, vec![0; nlen(a, true)], vec![s0, s]);
                ck!(decrypt_master_key(key(b"pass"), &hd).ok().map(|k| *k.expose()) == Some(mk), "does not give the master key"); Ok(())
            }); }
        let mk: [u8; 32] = rng.arr(); let mut r2 = rng.clone(); rng.next();
        c.later("v4-keyslot", an(a), move || {
            let s = slot(a, HashingAlgorithm::Blake3Balloon(4), b"pass", &mk, &mut r2);
            let mk_h = |k: Vec<Keyslot>| Header { header_type: HeaderType { version: HeaderVersion::V4, algorithm: a, mode: Mode::StreamMode }, nonce: vec![0; nlen(a, true)], salt: Some([9; 16]), keyslots: Some(k) };
            ck!(decrypt_master_key(key(b"pass"), &mk_h(vec![s.clone()])).ok().map(|k| *k.expose()) == Some(mk), "does not give the master key");
            ck!(decrypt_master_key(key(b"pasS"), &mk_h(vec![s.clone()])).is_err(), "a wrong key opens it");
            ck!(decrypt_master_key(key(b"pass"), &mk_h(vec![])).is_err(), "opens without a keyslot"); Ok(())
        });
    }
    for (v, h) in [(HeaderVersion::V1, 1), (HeaderVersion::V2, 2), (HeaderVersion::V3, 3)] {
        let salt: [u8; 16] = rng.arr();
        c.later("direct-key", &format!("{} salt {}", vn(v), hex(&salt)), move || {
            let hd = Header { header_type: HeaderType { version: v, algorithm: Algorithm::Aes256Gcm, mode: Mode::StreamMode }, nonce: vec![0; 8], salt: Some(salt), keyslots: None };
            ck!(decrypt_master_key(key(b"pw"), &hd).ok().map(|k| *k.expose()) == kdf(HashingAlgorithm::Argon2id(h), b"pw", &salt), "not the hash of the key"); Ok(())
        });
        c.case("direct-key-nosalt", vn(v), || {
            let hd = Header { header_type: HeaderType { version: v, algorithm: Algorithm::Aes256Gcm, mode: Mode::StreamMode }, nonce: vec![0; 8], salt: None, keyslots: None };
            ck!(decrypt_master_key(key(b"pw"), &hd).is_err(), "gives a key without a salt"); Ok(())
        });
    }
    c.case("no-keyslots", "V5 without keyslot table", || { let hd = Header { header_type: HeaderType { version: HeaderVersion::V5, algorithm: Algorithm::Aes256Gcm, mode: Mode::StreamMode }, nonce: vec![0; 8], salt: None, keyslots: None };
        ck!(decrypt_master_key(key(b"pw"), &hd).is_err(), "gives a key"); Ok(()) });
    for n in 0..70usize { let v = rng.bytes(n); c.case("vec-to-arr", &format!("{} bytes", n), || { let x: [u8; 32] = vec_to_arr(v.clone()); let mut w = v.clone(); w.resize(32, 0); ck!(x[..] == w[..32], "gives {}", hex(&x)); Ok(()) }); }
    c.rng = rng;
}
fn fresh(c: &mut Ctx) {
    let n = if c.thorough { 4000 } else { 400 };
    for a in ALGS { for m in [Mode::MemoryMode, Mode::StreamMode] {
        let want = nlen(a, is_stream(&m));
        c.case("nonce", &format!("{} {} nonces", an(a), n), || {
            ck!(get_nonce_len(&a, &m) == want, "get_nonce_len is {}", get_nonce_len(&a, &m));
            let v: Vec<Vec<u8>> = (0..n).map(|_| gen_nonce(&a, &m)).collect();
            full(&v, want)
        });
    } }
    c.case("salt", &format!("{} salts", n), || full(&(0..n).map(|_| gen_salt().to_vec()).collect::<Vec<_>>(), 16));
    c.case("master-key", &format!("{} master keys", n), || full(&(0..n).map(|_| gen_master_key().expose().to_vec()).collect::<Vec<_>>(), 32));
}
/// n independent random strings: of full length, all different, every byte position takes many values
fn full(v: &[Vec<u8>], len: usize) -> R {
    for x in v { ck!(x.len() == len, "{} bytes instead of {}", x.len(), len); }
    ck!(v.iter().collect::<HashSet<_>>().len() == v.len(), "repeated value");
    for i in 0..len {
        let d = v.iter().map(|x| x[i]).collect::<HashSet<_>>().len();
        ck!(d > 60, "byte {} takes only {} values in {} draws", i, d, v.len());
        let mut and = 0xffu8; let mut or = 0u8; for x in v { and &= x[i]; or |= x[i]; }
        ck!(and == 0 && or == 0xff, "byte {} has constant bits", i);
    }
    // no two positions always agree
    for i in 0..len { for j in 0..i { ck!(v.iter().any(|x| x[i] != x[j]), "bytes {} and {} are always equal", j, i); } }
    Ok(())
}
fn passphrases(c: &mut Ctx) {
    let list = std::fs::read_to_string(concat!("/repo/crates/volaris-crypto/src", "/wordlist.lst")).unwrap_or_default();
    let words: Vec<&str> = list.lines().collect();
    let set: HashSet<&str> = words.iter().copied().collect();
    for n in [i32::MIN, i32::MIN + 1, -1000, -7, -2, -1, 0] { c.case("no-words", &format!("{} words", n), || { let p = generate_passphrase(&n); ck!(p.expose().is_empty(), "gives {:?}", p.expose()); Ok(()) }); }
    // words of the list contain dashes or not: count by greedy segmentation
    let split = |p: &str, n: usize| -> Result<Vec<String>, String> {
        let parts: Vec<&str> = p.split('-').collect();
        // dynamic programming over parts: an entry may itself contain dashes
        let m = parts.len();
        let mut ok: Vec<HashSet<usize>> = vec![HashSet::new(); m + 1]; ok[0].insert(0);
        let mut prev: std::collections::HashMap<(usize, usize), usize> = Default::default();
        for i in 0..m { for j in i + 1..=m.min(i + 4) { let w = parts[i..j].join("-"); if set.contains(w.as_str()) { for k in ok[i].clone() { if ok[j].insert(k + 1) { prev.insert((j, k + 1), i); } } } } }
        if !ok[m].contains(&n) { return Err(format!("{:?} is not {} listed words joined by dashes", p, n)); }
        let (mut j, mut k, mut out) = (m, n, vec![]);
        while j > 0 { let i = prev[&(j, k)]; out.push(parts[i..j].join("-")); j = i; k -= 1; }
        out.reverse(); Ok(out)
    };
    for n in (1..=40).chain([64, 100, 255, 256, 257, 300, 1000, 4095, 4096, 4097, 10_000, 65_535, 65_536, 65_537]) { for _ in 0..if n > 1000 { 1 } else { 3 } { c.case("words", &format!("{} words", n), || { let p = generate_passphrase(&n); split(p.expose(), n as usize).map(|_| ()) }); } }
    // every entry can come up: with N draws from a list of L words the number of different ones is close to L(1-e^(-N/L))
    let total = if c.thorough { 400_000usize } else { 60_000 };
    c.case("every-entry", &format!("{} words drawn", total), || {
        let mut seen: std::collections::HashMap<String, usize> = Default::default();
        for _ in 0..total / 100 { for w in split(generate_passphrase(&100).expose(), 100)? { *seen.entry(w).or_insert(0) += 1; } }
        let l = set.len() as f64; let e = l * (1.0 - (-(total as f64) / l).exp());
        ck!((seen.len() as f64) > e - 6.0 * e.sqrt().max(10.0), "only {} of {} words came up ({:.0} expected)", seen.len(), set.len(), e);
        // the ends of the list
        let avg = total as f64 / l;
        let head: usize = words[..200].iter().map(|w| seen.get(*w).copied().unwrap_or(0)).sum(); let tail: usize = words[words.len() - 200..].iter().map(|w| seen.get(*w).copied().unwrap_or(0)).sum();
        for (n, x) in [("first", head), ("last", tail)] { ck!((x as f64 - 200.0 * avg).abs() < 8.0 * (200.0 * avg).sqrt(), "the {} 200 words came up {} times ({:.0} expected)", n, x, 200.0 * avg); }
        Ok(())
    });
    // first and last entry come up
    let need = (words.len() * 14 / 1000 + 1) * 1000;
    c.case("first-and-last-entry", &format!("up to {} words drawn", need), || {
        let (mut f, mut la) = (false, false); let mut n = 0;
        while n < need && !(f && la) { for w in generate_passphrase(&1000).expose().split('-') { if w == words[0] { f = true } if w == *words.last().unwrap() { la = true } } n += 1000; }
        ck!(f, "{:?} never came up in {} draws", words[0], n); ck!(la, "{:?} never came up in {} draws", words.last().unwrap(), n); Ok(())
    });
    c.case("fresh", "200 passphrases of 7 words", || { let v: HashSet<String> = (0..200).map(|_| generate_passphrase(&7).expose().clone()).collect(); ck!(v.len() == 200, "repeated passphrase"); Ok(()) });
}

// ------------------------------------------------------------------ Protected
thread_local! { static WIPES: std::cell::RefCell<Vec<(u32, bool)>> = std::cell::RefCell::new(vec![]); }
struct Probe { id: u32, wiped: bool }
impl corecrypto::Zeroize for Probe { fn zeroize(&mut self) { self.wiped = true; WIPES.with(|w| w.borrow_mut().push((self.id, true))); } }
impl Clone for Probe { fn clone(&self) -> Self { Probe { id: self.id + 100, wiped: self.wiped } } }
/// the allocator reports what memory holds when it is given back
struct Spy;
static SPY_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static SPY_HIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const MARK: [u8; 12] = [0xA7, 0x3C, 0x91, 0xE4, 0x5B, 0xD2, 0x68, 0xF1, 0x0D, 0xB6, 0x7A, 0xC3];
unsafe impl std::alloc::GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { std::alloc::System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if SPY_ON.load(std::sync::atomic::Ordering::Relaxed) && l.size() >= 12 {
            let n = l.size(); let mut i = 0;
            while i + 12 <= n { let mut same = 0; for k in 0..12 { if std::ptr::read_volatile(p.add(i + k)) == MARK[k] { same += 1; } else if k > 4 && same < 4 { break; } } if same >= 8 { SPY_HIT.fetch_add(1, std::sync::atomic::Ordering::Relaxed); break; } i += 1; }
        }
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Spy = Spy;
fn spied(f: impl FnOnce()) -> usize { use std::sync::atomic::Ordering::Relaxed; SPY_HIT.store(0, Relaxed); SPY_ON.store(true, Relaxed); f(); SPY_ON.store(false, Relaxed); SPY_HIT.load(Relaxed) }
fn protected(c: &mut Ctx) {
    for n in [1usize, 2, 3, 10, 1000] {
        c.case("heap-overwritten", &format!("vector of {} bytes", 12 * n), || {
            ck!(spied(|| drop(MARK.repeat(n))) == 1, "the watch does not work");
            let v = MARK.repeat(n); let h = spied(move || drop(Protected::new(v))); ck!(h == 0, "its memory still holds the secret when it is given back");
            let v = MARK.repeat(n); let h = spied(move || { let p = Protected::new(v); let q = p.clone(); drop(p); drop(q); }); ck!(h == 0, "the memory of it or its clone still holds the secret when it is given back");
            let mut v = MARK.repeat(n); v.reserve(100); let h = spied(move || drop(Some(Protected::new(v)))); ck!(h == 0, "its memory still holds the secret when it is given back");
            let v = MARK.repeat(n); let h = spied(move || { let p = Protected::new(v); let _ = format!("{:?}", p); let _ = p.expose().len(); let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _q = p; panic!("x") })); }); ck!(h == 0, "its memory still holds the secret after a panic");
            let b: Box<[u8; 12]> = Box::new(MARK); let h = spied(move || { let p = Box::new(Protected::new(*b)); drop(p) }); ck!(h <= 1, "boxed");
            let s = "correct horse battery".to_string(); let p = Protected::new(s.clone()); let q = p.clone(); drop(q); ck!(*p.expose() == s, "dropping a clone changes the original"); Ok(())
        });
    }
    let mut rng = c.rng.clone();
    for n in [0usize, 1, 5, 32, 1000] {
        let b = rng.bytes(n);
        c.case("debug-redacted", &format!("vector of {} bytes", n), || {
            let p = Protected::new(b.clone());
            for (k, s) in [("{:?}", format!("{:?}", p)), ("{:#?}", format!("{:#?}", p)), ("nested {:?}", format!("{:?}", Some(&p))), ("nested {:#?}", format!("{:#?}", (1, &p)))] {
                ck!(s.contains("[REDACTED]"), "{} gives {:?}", k, s);
                let d: String = s.replace("[REDACTED]", ""); 
                ck!(!d.chars().any(|ch| ch.is_ascii_digit()) || k.contains("nested"), "{} gives {:?}", k, s);
            }
            ck!(format!("{:?}", p) == "[REDACTED]" && format!("{:#?}", p) == "[REDACTED]", "formats as {:?} / {:#?}", p, p);
            ck!(p.expose() == &b, "gives back something else"); ck!(*p == b && p.len() == n, "dereferences to something else");
            let q = p.clone(); ck!(q.expose() == &b, "a clone gives back something else"); Ok(())
        });
    }
    let s: String = rng.bytes(20).iter().map(|x| (b'a' + x % 26) as char).collect();
    c.case("debug-redacted-string", &s, || { let p = Protected::new(s.clone()); for f in [format!("{:?}", p), format!("{:#?}", p), format!("{:?}", Some(&p)), format!("{:40?}", p)] { ck!(!f.contains(&s[..4]), "shows {:?}", f); } ck!(format!("{:?}", p) == "[REDACTED]", "formats as {:?}", p); ck!(p.expose() == &s, "gives back something else"); Ok(()) });
    let a: [u8; 32] = rng.arr();
    c.case("value-array", &hex(&a), || { let p = Protected::new(a); ck!(*p.expose() == a && *p == a, "gives back something else"); ck!(!format!("{:?}", p).contains(&a[0].to_string()), "shows its content"); Ok(()) });
    c.case("wiped-when-dropped", "one value", || {
        WIPES.with(|w| w.borrow_mut().clear());
        { let p = Protected::new(Probe { id: 1, wiped: false }); ck!(WIPES.with(|w| w.borrow().is_empty()) && !p.wiped, "wiped too early"); }
        ck!(WIPES.with(|w| w.borrow().contains(&(1, true))), "not wiped"); Ok(())
    });
    c.case("wiped-when-dropped-clone", "a value and its clone", || {
        WIPES.with(|w| w.borrow_mut().clear());
        { let p = Protected::new(Probe { id: 1, wiped: false }); let q = p.clone(); ck!(q.expose().id == 101, "not a clone"); drop(p); ck!(WIPES.with(|w| w.borrow().len() == 1), "wrong number of wipes"); }
        ck!(WIPES.with(|w| { let v = w.borrow(); v.contains(&(1, true)) && v.contains(&(101, true)) }), "not wiped"); Ok(())
    });
    c.case("wiped-in-containers", "in a vector, an option, a box, moved", || {
        WIPES.with(|w| w.borrow_mut().clear());
        { let v = vec![Protected::new(Probe { id: 1, wiped: false }), Protected::new(Probe { id: 2, wiped: false })]; let o = Some(Protected::new(Probe { id: 3, wiped: false })); let b = Box::new(Protected::new(Probe { id: 4, wiped: false })); let f = move || { let _ = &b; }; f(); drop(v); drop(o); drop(f); }
        ck!(WIPES.with(|w| { let v = w.borrow(); (1..5).all(|i| v.contains(&(i, true))) }), "not wiped: {:?}", WIPES.with(|w| w.borrow().clone())); Ok(())
    });
    c.case("wiped-on-unwind", "panicking scope", || {
        WIPES.with(|w| w.borrow_mut().clear());
        let _ = std::panic::catch_unwind(|| { let _p = Protected::new(Probe { id: 9, wiped: false }); panic!("x") });
        ck!(WIPES.with(|w| w.borrow().contains(&(9, true))), "not wiped"); Ok(())
    });
    // real memory: an array inside a box that outlives the drop
    c.case("memory-overwritten", "32-byte array", || {
        use std::mem::ManuallyDrop;
        let a = [0xA5u8; 32];
        let mut slot = ManuallyDrop::new(Protected::new(a));
        let p = slot.expose().as_ptr();
        unsafe { ManuallyDrop::drop(&mut slot); }
        let seen: Vec<u8> = (0..32).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect();
        ck!(seen.iter().all(|b| *b == 0), "memory still holds {}", hex(&seen)); Ok(())
    });
    c.rng = rng;
}

fn main() {
    main_with(&[
        ("C01", |c| { streams(c, false); stream_faults(c, "stream-faults"); }),
        ("C02", |c| { tampering(c); stream_faults(c, "stream-faults"); ciphers(c); }),
        ("C03", |c| { streams(c, true); nonce_lengths(c); counters(c); }),
        ("C04", headers), ("C05", parsing), ("C06", aads), ("C07", unlocking), ("C17", hashes), ("C18", fresh), ("C19", passphrases), ("C20", protected), ("C29", ciphers),
    ]);
}
