use battery::{ck, hex, main_with, orc::*, short, Chunk, Ctx, Op, Rng, Sim, R};
use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
use corecrypto::primitives::{Algorithm, Mode};
use std::cell::RefCell;
use std::fs;
use std::io::{Read, Seek, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use tools::storage::{Entry, Error as SErr, FileStorage, Storage};

const B: usize = MIB;
const BALLOON5: HashingAlgorithm = HashingAlgorithm::Blake3Balloon(5);
fn ht(v: HeaderVersion, a: Algorithm, m: Mode) -> HeaderType { HeaderType { version: v, algorithm: a, mode: m } }
/// a complete encrypted file, made by the oracle
struct Made { head: Vec<u8>, body: Vec<u8>, mk: [u8; 32], slots: Vec<Keyslot> }
fn make(rng: &mut Rng, a: Algorithm, stream: bool, pws: &[(&[u8], HashingAlgorithm)], content: &[u8]) -> Made {
    let mk: [u8; 32] = rng.arr();
    let nonce = rng.bytes(nlen(a, stream));
    let slots: Vec<Keyslot> = pws.iter().map(|(p, h)| slot(a, *h, p, &mk, rng)).collect();
    let h = v5(a, stream, nonce.clone(), slots.clone());
    let d = aad(&h);
    let body = if stream { enc_body(a, &mk, &nonce, &d, content) } else { seal(a, &mk, &nonce, &d, content) };
    Made { head: ser(&h), body, mk, slots }
}
fn raw_slot(a: Algorithm, b: &[u8], i: usize) -> Option<Keyslot> { parse(b)?.slots?.into_iter().nth(i).map(|k| { let _ = a; k }) }
fn enc(r: &RefCell<Sim>, w: &RefCell<Sim>, hw: Option<&RefCell<Sim>>, pw: &[u8], t: HeaderType, h: HashingAlgorithm) -> Result<(), String> {
    tools::encrypt::execute(tools::encrypt::Request { reader: r, writer: w, header_writer: hw, raw_key: key(pw), header_type: t, hashing_algorithm: h }).map_err(|e| format!("encrypt: {}", e))
}
fn dec(r: &RefCell<Sim>, hr: Option<&RefCell<Sim>>, w: &RefCell<Sim>, pw: &[u8]) -> Result<(), String> {
    tools::decrypt::execute(tools::decrypt::Request { header_reader: hr, reader: r, writer: w, raw_key: key(pw), on_decrypted_header: None }).map_err(|e| format!("decrypt: {}", e))
}
fn rc(s: Sim) -> RefCell<Sim> { RefCell::new(s) }
fn quiet(mut s: Sim) -> Sim { s.keep = false; s }

/// encrypt, look at the file with the oracle, decrypt again in every layout
fn roundtrip(pt: &[u8], a: Algorithm, v: HeaderVersion, h: HashingAlgorithm, pw: &[u8], detached: bool, rch: Chunk, wch: Chunk, at: u64) -> R {
    let r = rc(quiet(Sim::new(pt.to_vec()).at(at.min(pt.len() as u64)).r(rch)));
    let w = rc(quiet(Sim::new(vec![]).w(wch))); let hw = rc(Sim::new(vec![]).w(wch));
    enc(&r, &w, if detached { Some(&hw) } else { None }, pw, ht(v, a, Mode::StreamMode), h)?;
    ck!(r.borrow().data == pt, "the input was modified");
    let hs = hsize(v);
    let (head, body) = if detached { (hw.borrow().data.clone(), w.borrow().data.clone()) } else { let d = &w.borrow().data; ck!(d.len() >= hs, "output of {} bytes", d.len()); (d[..hs].to_vec(), d[hs..].to_vec()) };
    ck!(head.len() == hs, "header of {} bytes", head.len());
    let p = parse(&head).ok_or("the header written cannot be parsed")?;
    ck!(p.v == v && p.a == a && p.stream, "the header names another algorithm, version or mode");
    let sl = p.slots.as_ref().ok_or("no keyslots")?;
    ck!(sl.len() == 1 && sl[0].hash_algorithm == h, "keyslots written wrongly");
    let mk = slot_opens(a, &sl[0], pw).ok_or("the keyslot written does not open with the key")?;
    let want = enc_body(a, &mk, &p.nonce, &p.aad, pt);
    ck!(body == want, "encrypted body is {} instead of {}", short(&body), short(&want));
    // attached
    let att = [head.clone(), body.clone()].concat();
    let o = rc(quiet(Sim::new(vec![]).w(wch)));
    dec(&rc(quiet(Sim::new(att.clone()).r(rch))), None, &o, pw)?;
    ck!(o.borrow().data == pt, "attached: decrypts to {} instead of {}", short(&o.borrow().data), short(pt));
    // header elsewhere, body alone
    let o = rc(quiet(Sim::new(vec![]).w(wch)));
    dec(&rc(quiet(Sim::new(body.clone()).r(rch))), Some(&rc(Sim::new(head.clone()).r(rch))), &o, pw)?;
    ck!(o.borrow().data == pt, "detached: decrypts to {} instead of {}", short(&o.borrow().data), short(pt));
    // header elsewhere, stripped file
    let o = rc(quiet(Sim::new(vec![]).w(wch)));
    dec(&rc(quiet(Sim::new([vec![0; hs], body].concat()).r(rch))), Some(&rc(Sim::new(head).r(rch))), &o, pw)?;
    ck!(o.borrow().data == pt, "stripped: decrypts to {} instead of {}", short(&o.borrow().data), short(pt));
    // a wrong key
    let o = rc(Sim::new(vec![])); let mut bad = pw.to_vec(); bad.push(b'x');
    ck!(dec(&rc(Sim::new(att)), None, &o, &bad).is_err() && o.borrow().data.is_empty(), "a wrong key decrypts");
    Ok(())
}
fn files(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let chunks = [Chunk::Full, Chunk::Max(65_536), Chunk::Rand(900_000), Chunk::Max(B - 1), Chunk::Max(100)];
    let mut sizes = vec![0usize, 1, 16, 400, 399, 401, 5000, B - 16, B - 1, B, B + 1, 2 * B, 2 * B + 7];
    if c.thorough { sizes.extend([127, 128, 129, 415, 416, 417, 2 * B - 416, 3 * B, 5 * B + 5]); }
    for a in ALGS { for n in &sizes { for d in [false, true] {
        let pt = rng.bytes(*n); let at = if rng.below(3) == 0 { rng.below(n + 1) as u64 } else { 0 };
        let (r, w) = (*rng.pick(&chunks), *rng.pick(&chunks));
        let pl = *rng.pick(&[1usize, 8, 40, 200]); let pw = rng.bytes(pl);
        c.later("file-roundtrip", &format!("V5 {} Argon2id(1) content of {} bytes, {} header, reader {:?} starting at {}, writer {:?}, key {}", an(a), n, if d { "detached" } else { "attached" }, r, at, w, short(&pw)),
            move || roundtrip(&pt, a, HeaderVersion::V5, ARGON1, &pw, d, r, w, at));
    } } }
    // contents a format could confuse with something else
    for (what, pt) in [("zeros, 416 bytes", vec![0u8; 416]), ("zeros, 500 bytes", vec![0; 500]), ("zeros, 1 MiB", vec![0; B]), ("0xff", vec![0xff; 1000]), ("an encrypted file", make(&mut rng, Algorithm::Aes256Gcm, true, &[(b"x", ARGON1)], b"y").head)] { for d in [false, true] {
        c.later("file-content", &format!("{}, {} header", what, if d { "detached" } else { "attached" }), { let pt = pt.clone(); move || roundtrip(&pt, Algorithm::XChaCha20Poly1305, HeaderVersion::V5, ARGON1, b"pw", d, Chunk::Full, Chunk::Full, 0) });
    } }
    for a in ALGS { for h in [BALLOON5, HashingAlgorithm::Blake3Balloon(4), HashingAlgorithm::Argon2id(2), HashingAlgorithm::Argon2id(3)] { for d in [false, true] {
        if !c.thorough && (d == (a == Algorithm::Aes256Gcm) || h != match a { Algorithm::Aes256Gcm => BALLOON5, Algorithm::XChaCha20Poly1305 => HashingAlgorithm::Argon2id(2), _ => HashingAlgorithm::Argon2id(3) }) { continue; }
        let pt = rng.bytes(777);
        c.later("file-hash", &format!("V5 {} {} {} header", an(a), hn(h), if d { "detached" } else { "attached" }), move || roundtrip(&pt, a, HeaderVersion::V5, h, b"some key", d, Chunk::Full, Chunk::Full, 0));
    } }
        let pt = rng.bytes(50); let d = rng.below(2) == 0;
        c.later("file-v4", &format!("V4 {} {} header", an(a), if d { "detached" } else { "attached" }), move || roundtrip(&pt, a, HeaderVersion::V4, HashingAlgorithm::Blake3Balloon(4), b"some key", d, Chunk::Full, Chunk::Full, 0));
    }
    // files made by the oracle, with several keys
    for a in ALGS {
        let pt = rng.bytes(3000);
        let m = make(&mut rng, a, true, &[(b"k0", ARGON1), (b"k1", ARGON1), (b"k2", ARGON1), (b"k3", ARGON1)], &pt);
        for i in 0..4 { let f = [m.head.clone(), m.body.clone()].concat(); let pt = pt.clone(); c.later("any-keyslot", &format!("V5 {} with four keys, decrypted with key {}", an(a), i), move || { let o = rc(Sim::new(vec![])); dec(&rc(Sim::new(f)), None, &o, format!("k{}", i).as_bytes())?; ck!(o.borrow().data == pt, "decrypts to {}", short(&o.borrow().data)); Ok(()) }); }
        // old versions
        for (v, i) in [(HeaderVersion::V1, 1), (HeaderVersion::V2, 2), (HeaderVersion::V3, 3)] {
            if !c.thorough && a == Algorithm::DeoxysII256 && i > 1 { continue; }
            let mut b = tags(v, a, true); b.extend(rng.bytes(58));
            let pt = rng.bytes(100 + i as usize);
            c.later("old-version", &format!("{} {}", vn(v), an(a)), move || {
                let p = parse(&b).ok_or("oracle")?;
                let mk = kdf(HashingAlgorithm::Argon2id(i), b"pw", &p.salt).ok_or("oracle")?;
                let f = [b, enc_body(a, &mk, &p.nonce, &p.aad, &pt)].concat();
                let o = rc(Sim::new(vec![])); dec(&rc(Sim::new(f)), None, &o, b"pw")?; ck!(o.borrow().data == pt, "decrypts to {}", short(&o.borrow().data)); Ok(())
            });
        }
    }
    // faults while encrypting or decrypting a file
    for k in 0..6usize { for kind in 0..4 { for d in [false, true] {
        let pt = rng.bytes(1000);
        c.later("file-fault", &format!("encrypting 1000 bytes with {} header, {} call number {} fails", if d { "detached" } else { "attached" }, ["read", "write", "seek", "flush"][kind], k), move || {
            let (mut r, mut w) = (Sim::new(pt), Sim::new(vec![]).w(Chunk::Max(500)));
            match kind { 0 => r.fail_read = Some(k), 1 => w.fail_write = Some(k), 2 => w.fail_seek = Some(k), _ => w.fail_flush = Some(k) }
            let (r, w, hw) = (rc(r), rc(w), rc(Sim::new(vec![])));
            let res = enc(&r, &w, if d { Some(&hw) } else { None }, b"pw", ht(HeaderVersion::V5, Algorithm::Aes256Gcm, Mode::StreamMode), ARGON1);
            let hit = match kind { 0 => r.borrow().reads > k, 1 => w.borrow().writes > k, 2 => w.borrow().seeks > k, _ => w.borrow().flushes > k };
            ck!(res.is_err() == hit, "{:?} although {}", res, if hit { "a call failed" } else { "nothing failed" }); Ok(())
        });
    } } }
    for k in 0..420usize { if k % 13 != 0 && k > 8 { continue; } c.later("file-fault", &format!("detached header taken one byte at a time, write call number {} fails", k), move || {
        let mut hw = Sim::new(vec![]).w(Chunk::One); hw.fail_write = Some(k);
        let hw = rc(hw); let res = enc(&rc(Sim::new(vec![1])), &rc(Sim::new(vec![])), Some(&hw), b"pw", ht(HeaderVersion::V5, Algorithm::Aes256Gcm, Mode::StreamMode), ARGON1);
        ck!(res.is_err() == (hw.borrow().writes > k), "{:?}", res); Ok(())
    }); }
    c.rng = rng;
}
/// C02 on whole files
fn file_tampering(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for a in ALGS { for n in [0usize, 700, B + 3] {
        if a == Algorithm::DeoxysII256 && n > B && !c.thorough { continue; }
        let pt = rng.bytes(n);
        let m = make(&mut rng, a, true, &[(b"k0", ARGON1), (b"k1", ARGON1)], &pt);
        let full = [m.head.clone(), m.body.clone()].concat();
        // the authenticated part of the header: all of its first 32 bytes
        for i in 0..32usize { let bit = rng.below(8); let mut b = full.clone(); b[i] ^= 1 << bit; let pt = pt.clone(); let det = rng.below(3) == 0;
            c.later("tampered-header", &format!("{} content of {} bytes, bit {} of header byte {} flipped, {}", an(a), n, bit, i, if det { "detached" } else { "attached" }), move || {
                let o = rc(Sim::new(vec![]));
                let res = if det { dec(&rc(Sim::new(b[416..].to_vec())), Some(&rc(Sim::new(b[..416].to_vec()))), &o, b"k1") } else { dec(&rc(Sim::new(b)), None, &o, b"k1") };
                ck!(res.is_err(), "decryption reported success");
                ck!(pt.starts_with(&o.borrow().data), "wrote {}", short(&o.borrow().data)); Ok(())
            }); }
        for j in 0..14usize {
            let mut b = m.body.clone();
            let what = match j { 0 => { b.truncate(b.len() - 1); "last byte cut".to_string() } 1 => { b.clear(); "no body".into() } 2 => { b.push(0); "a zero byte appended".into() }
                3 => { if b.len() <= 16 { continue; } b.truncate(b.len() - 16); "last 16 bytes cut".into() } 4 => { let x = b.clone(); b.extend(x); "body repeated".into() }
                5 => { b.extend(vec![0; 416]); "416 zero bytes appended".into() } 6 => { b.insert(0, 0); "a zero byte in front of the body".into() }
                7 => { if n < B { continue; } b.truncate(B + 16); "cut after the first block".into() } 8 => { if n < B { continue; } b.drain(..B + 16); "first block dropped".into() }
                _ => { let i = rng.below(b.len()); let bit = rng.below(8); b[i] ^= 1 << bit; format!("bit {} of body byte {} flipped", bit, i) } };
            let (pt, head) = (pt.clone(), m.head.clone()); let det = j % 2 == 1;
            c.later("tampered-file", &format!("{} content of {} bytes, {}, {}", an(a), n, what, if det { "detached header" } else { "attached header" }), move || {
                let o = rc(Sim::new(vec![]));
                let res = if det { dec(&rc(Sim::new(b)), Some(&rc(Sim::new(head))), &o, b"k0") } else { dec(&rc(Sim::new([head, b].concat())), None, &o, b"k0") };
                ck!(res.is_err(), "decryption reported success");
                ck!(pt.starts_with(&o.borrow().data), "wrote {}", short(&o.borrow().data)); Ok(())
            });
        }
        // a keyslot of another file, sealing another master key
        let other = make(&mut rng, a, true, &[(b"k0", ARGON1)], b"other content");
        let mut b = full; b[32..128].copy_from_slice(&other.head[32..128]);
        c.later("foreign-keyslot", &format!("{} content of {} bytes", an(a), n), move || { let o = rc(Sim::new(vec![])); ck!(dec(&rc(Sim::new(b)), None, &o, b"k0").is_err() && o.borrow().data.is_empty(), "decrypts under a foreign master key"); Ok(()) });
    } }
    c.rng = rng;
}
/// C29
fn memory_mode(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for a in ALGS { for n in [0usize, 1, 16, 1000, B, B + 1, 2 * B + 9] {
        let pt = rng.bytes(n);
        let m = make(&mut rng, a, false, &[(b"k0", ARGON1), (b"k1", ARGON1)], &pt);
        for det in 0..3usize { let (head, body, pt) = (m.head.clone(), m.body.clone(), pt.clone()); let ch = *rng.pick(&[Chunk::Full, Chunk::Max(1000), Chunk::Rand(70_000)]);
            c.later("memory-file", &format!("{} content of {} bytes, {}, reader {:?}", an(a), n, ["attached header", "detached header", "stripped file"][det], ch), move || {
                let o = rc(Sim::new(vec![]).w(ch));
                match det { 0 => dec(&rc(Sim::new([head, body].concat()).r(ch)), None, &o, b"k1")?, 1 => dec(&rc(Sim::new(body).r(ch)), Some(&rc(Sim::new(head))), &o, b"k1")?, _ => dec(&rc(Sim::new([vec![0; 416], body].concat()).r(ch)), Some(&rc(Sim::new(head))), &o, b"k1")? }
                ck!(o.borrow().data == pt, "decrypts to {} instead of {}", short(&o.borrow().data), short(&pt)); Ok(())
            }); }
        for j in 0..12usize {
            let mut b = [m.head.clone(), m.body.clone()].concat(); let l = b.len();
            let what = match j { 0 => { b.truncate(l - 1); "last byte cut".into() } 1 => { b.push(0); "a byte appended".into() } 2 => { b.truncate(416); "no body".into() } 3 => { b.truncate(416 + 15); "15 bytes of body".into() }
                4 => { b[5] = 1; "mode changed".into() } 5 => { b[6] ^= 1; "nonce changed".into() } 6 => { b[31] ^= 1; "padding changed".into() } 7 => { b[l - 1] ^= 0x80; "last byte changed".into() }
                _ => { let i = 416 + rng.below(l - 416); b[i] ^= 4; format!("byte {} changed", i) } };
            c.later("memory-tampered", &format!("{} content of {} bytes, {}", an(a), n, what), move || { let o = rc(Sim::new(vec![])); ck!(dec(&rc(Sim::new(b)), None, &o, b"k0").is_err(), "decryption reported success"); ck!(o.borrow().data.is_empty(), "wrote {}", short(&o.borrow().data)); Ok(()) });
        }
        let f = [m.head, m.body].concat();
        c.later("memory-wrong-key", &format!("{} content of {} bytes", an(a), n), move || { let o = rc(Sim::new(vec![])); ck!(dec(&rc(Sim::new(f)), None, &o, b"k2").is_err() && o.borrow().data.is_empty(), "a wrong key decrypts"); Ok(()) });
    } }
    c.rng = rng;
}

// ------------------------------------------------------------------ key operations
#[derive(Clone, Copy, PartialEq, Debug)]
enum KeyOp { Add, Change, Delete, Verify }
fn key_ops(c: &mut Ctx, op: KeyOp) {
    let mut rng = c.rng.clone();
    let pool: [&'static [u8]; 4] = [b"alpha", b"beta", b"gamma", b""];
    for a in ALGS { for stream in [true, false] { for ns in 0..=4usize { for old in [&b"alpha"[..], b"beta", b"gamma", b"", b"nobody", b"alpha\0"] {
        if !c.thorough && !stream && ns % 2 == 0 { continue; }
        // the keys of the slots; now and then one key twice
        let mut pws: Vec<(&'static [u8], HashingAlgorithm)> = (0..ns).map(|i| (pool[i], ARGON1)).collect();
        if ns > 1 && rng.below(4) == 0 { let (i, j) = (rng.below(ns), rng.below(ns)); pws[i] = pws[j]; }
        if ns > 0 && rng.below(2) == 0 { let k = rng.below(ns); pws.rotate_left(k); }
        let mut r2 = Rng(rng.next());
        let rch = *rng.pick(&[Chunk::Full, Chunk::One, Chunk::Rand(100)]); let wch = *rng.pick(&[Chunk::Full, Chunk::One, Chunk::Rand(100)]);
        let zero_mk = rng.below(5) == 0; let holes = ns > 0 && ns < 4 && rng.below(4) == 0;
        // now and then all slots under one key; a new key that opens one of them already
        if ns > 1 && rng.below(6) == 0 { let p = pws[0]; for q in &mut pws { *q = p; } }
        let new: &'static [u8] = if ns > 0 && rng.below(4) == 0 { pws[rng.below(ns)].0 } else { *rng.pick(&[&b"delta"[..], b"epsilon", b"x"]) }; let tail = *rng.pick(&[0usize, 1, 100, 5000]);
        let input = format!("V5 {} {} file of keys {:?}{}{}, {} bytes of body, {:?} with key {:?} and new key {:?}, reader {:?}, writer {:?}", an(a), if stream { "stream" } else { "memory" }, pws.iter().map(|p| String::from_utf8_lossy(p.0).into_owned()).collect::<Vec<_>>(),
            if zero_mk { ", all-zero master key" } else { "" }, if holes { ", empty keyslots in front" } else { "" }, tail, op, String::from_utf8_lossy(old), String::from_utf8_lossy(new), rch, wch);
        let old = old.to_vec();
        c.later("key-operation", &input, move || {
            let rng = &mut r2;
            let mk: [u8; 32] = if zero_mk { [0; 32] } else { rng.arr() };
            let slots: Vec<Keyslot> = pws.iter().map(|(p, h)| slot(a, *h, p, &mk, rng)).collect();
            let h = v5(a, stream, rng.bytes(nlen(a, stream)), slots.clone());
            let mut f = ser(&h);
            if holes { let k = 96 * (4 - ns); let body = f[32..32 + 96 * ns].to_vec(); for x in &mut f[32..32 + k] { *x = 0; } f[32 + k..].copy_from_slice(&body); }
            f.extend(rng.bytes(tail));
            let dev = rc(Sim::new(f.clone()).r(rch).w(wch));
            let res = match op {
                KeyOp::Add => tools::key::add::execute(tools::key::add::Request { handle: &dev, raw_key_old: key(&old), raw_key_new: key(new), hash_algorithm: ARGON1 }),
                KeyOp::Change => tools::key::change::execute(tools::key::change::Request { handle: &dev, raw_key_old: key(&old), raw_key_new: key(new), hash_algorithm: ARGON1 }),
                KeyOp::Delete => tools::key::delete::execute(tools::key::delete::Request { handle: &dev, raw_key_old: key(&old) }),
                KeyOp::Verify => tools::key::verify::execute(tools::key::verify::Request { handle: &dev, raw_key: key(&old) }),
            };
            let first = pws.iter().position(|p| p.0 == &old[..]);
            let may = first.is_some() && !(op == KeyOp::Add && ns == 4);
            let d = dev.borrow();
            if !may {
                ck!(res.is_err(), "reported success");
                ck!(d.data == f && d.written().is_empty(), "the file was modified");
                return Ok(());
            }
            if let Err(e) = res { return Err(format!("failed: {}", e)); }
            let i = first.unwrap();
            if op == KeyOp::Verify { ck!(d.data == f && d.written().is_empty(), "the file was modified"); return Ok(()); }
            ck!(d.data.len() == f.len() && d.data[416..] == f[416..], "the body was modified");
            ck!(d.data[..32] == f[..32], "the tags or the nonce were modified: {} instead of {}", hex(&d.data[..32]), hex(&f[..32]));
            let now = parse(&d.data).ok_or("the header cannot be parsed any more")?.slots.unwrap();
            let mut want = slots.clone();
            match op {
                KeyOp::Add => {
                    ck!(now.len() == ns + 1, "{} keyslots instead of {}", now.len(), ns + 1);
                    let k = now[ns].clone();
                    ck!(slot_opens(a, &k, new).as_deref() == Some(&mk[..]), "the new keyslot does not give the master key");
                    ck!(k.hash_algorithm == ARGON1, "the new keyslot names another key hash");
                    ck!(slots.iter().all(|s| s.salt != k.salt && s.nonce != k.nonce), "salt or nonce reused"); want.push(k);
                }
                KeyOp::Change => {
                    ck!(now.len() == ns, "{} keyslots instead of {}", now.len(), ns);
                    let k = now[i].clone();
                    ck!(slot_opens(a, &k, new).as_deref() == Some(&mk[..]), "the changed keyslot does not give the master key");
                    ck!(new == &old[..] || slot_opens(a, &k, &old).is_none(), "the changed keyslot still opens under the old key");
                    ck!(slots.iter().all(|s| s.salt != k.salt && s.nonce != k.nonce), "salt or nonce reused"); want[i] = k;
                }
                _ => { want.remove(i); ck!(now.len() == ns - 1, "{} keyslots instead of {}", now.len(), ns - 1); }
            }
            for j in 0..want.len() { ck!(same_slot(&want[j], &now[j]), "keyslot {} changed", j); }
            ck!(d.data[32 + 96 * want.len()..416].iter().all(|b| *b == 0), "unused keyslots are not empty");
            Ok(())
        });
    } } } }
    // other hashing algorithms
    if matches!(op, KeyOp::Add | KeyOp::Change) { for h in ALL_HASHES { if h == ARGON1 { continue; }
        let a = *rng.pick(&ALGS); let mut r2 = Rng(rng.next());
        c.later("key-operation-hash", &format!("V5 {} {:?} with {}", an(a), op, hn(h)), move || {
            let m = make(&mut r2, a, true, &[(b"k", ARGON1), (b"l", h)], b"abc");
            let dev = rc(Sim::new([m.head.clone(), m.body.clone()].concat()));
            let i = if op == KeyOp::Add { 2 } else { 1 };
            (if op == KeyOp::Add { tools::key::add::execute(tools::key::add::Request { handle: &dev, raw_key_old: key(b"l"), raw_key_new: key(b"new"), hash_algorithm: h }) } else { tools::key::change::execute(tools::key::change::Request { handle: &dev, raw_key_old: key(b"l"), raw_key_new: key(b"new"), hash_algorithm: h }) }).map_err(|e| e.to_string())?;
            let k = raw_slot(a, &dev.borrow().data, i).ok_or("no keyslot")?;
            ck!(k.hash_algorithm == h, "keyslot of {}", hn(k.hash_algorithm)); ck!(slot_opens(a, &k, b"new").as_deref() == Some(&m.mk[..]), "the new keyslot does not give the master key");
            ck!(same_slot(&raw_slot(a, &dev.borrow().data, 0).ok_or("no keyslot")?, &m.slots[0]), "keyslot 0 changed"); Ok(())
        });
    } }
    // versions without a keyslot table, things that are no header, slots that are damaged, faults
    for v in [HeaderVersion::V1, HeaderVersion::V2, HeaderVersion::V3, HeaderVersion::V4] { for a in ALGS { let mut f = tags(v, a, true); f.extend(rng.bytes(200));
        c.later("no-keyslot-table", &format!("{} {} {:?}", vn(v), an(a), op), move || { let dev = rc(Sim::new(f.clone())); ck!(run_op(op, &dev, b"alpha").is_err(), "reported success"); ck!(dev.borrow().data == f && dev.borrow().written().is_empty(), "the file was modified"); Ok(()) }); } }
    for n in [0usize, 1, 6, 31, 32, 415, 416, 900] { for good in [false, true] { let mut f = rng.bytes(n); if good { let t = tags(HeaderVersion::V5, Algorithm::Aes256Gcm, true); let k = n.min(6); f[..k].copy_from_slice(&t[..k]); }
        c.later("not-a-header", &format!("{} arbitrary bytes{} {:?}", n, if good { " behind V5 tags" } else { "" }, op), move || { let dev = rc(Sim::new(f.clone())); ck!(run_op(op, &dev, b"alpha").is_err(), "reported success"); ck!(dev.borrow().data == f && dev.borrow().written().is_empty(), "the file was modified"); Ok(()) }); } }
    for j in 0..8 { let mut r2 = Rng(rng.next()); let a = *rng.pick(&ALGS);
        c.later("damaged-keyslots", &format!("V5 {} case {} {:?}", an(a), j, op), move || {
            let m = make(&mut r2, a, true, &[(b"alpha", ARGON1), (b"beta", ARGON1)], b"abc");
            let mut f = [m.head, m.body].concat(); let o = 32 + 96 * (j % 2);
            match j / 2 { 0 => f[o + 3] ^= 1, 1 => f[o + 51] ^= 2, 2 => f[o + 75] ^= 4, _ => f[o + 49] ^= 8 }
            let dev = rc(Sim::new(f.clone())); let (bad, good): (&[u8], &[u8]) = if j % 2 == 0 { (b"alpha", b"beta") } else { (b"beta", b"alpha") };
            ck!(run_op(op, &dev, bad).is_err(), "a damaged keyslot opens"); ck!(dev.borrow().data == f, "the file was modified");
            let dev = rc(Sim::new(f.clone())); ck!(run_op(op, &dev, good).is_ok(), "the other keyslot does not open any more");
            ck!(dev.borrow().data[416..] == f[416..] && dev.borrow().data[..32] == f[..32], "body, tags or nonce modified"); Ok(())
        }); }
    for kind in 0..3usize { for k in 0..7usize { let mut r2 = Rng(rng.next());
        c.later("key-operation-fault", &format!("{:?}, {} call number {} fails", op, ["read", "write", "seek"][kind], k), move || {
            let m = make(&mut r2, Algorithm::Aes256Gcm, true, &[(b"alpha", ARGON1), (b"beta", ARGON1)], b"abc");
            let mut s = Sim::new([m.head, m.body].concat()).w(Chunk::Max(100)); match kind { 0 => s.fail_read = Some(k), 1 => s.fail_write = Some(k), _ => s.fail_seek = Some(k) }
            let dev = rc(s); let res = run_op(op, &dev, b"beta"); let d = dev.borrow();
            let hit = match kind { 0 => d.reads > k, 1 => d.writes > k, _ => d.seeks > k };
            ck!(res.is_err() == hit, "{} although {}", if res.is_ok() { "reported success" } else { "failed" }, if hit { "a call failed" } else { "none failed" }); Ok(())
        }); } }
    c.rng = rng;
}
fn run_op(op: KeyOp, dev: &RefCell<Sim>, old: &[u8]) -> Result<(), tools::key::Error> {
    match op {
        KeyOp::Add => tools::key::add::execute(tools::key::add::Request { handle: dev, raw_key_old: key(old), raw_key_new: key(b"new"), hash_algorithm: ARGON1 }),
        KeyOp::Change => tools::key::change::execute(tools::key::change::Request { handle: dev, raw_key_old: key(old), raw_key_new: key(b"new"), hash_algorithm: ARGON1 }),
        KeyOp::Delete => tools::key::delete::execute(tools::key::delete::Request { handle: dev, raw_key_old: key(old) }),
        KeyOp::Verify => tools::key::verify::execute(tools::key::verify::Request { handle: dev, raw_key: key(old) }),
    }
}
/// values drawn for different purposes have nothing in common
fn apart(v: &[(&str, &[u8])]) -> R {
    for i in 0..v.len() { for j in 0..i { for w in v[i].1.windows(6) { ck!(!v[j].1.windows(6).any(|x| x == w), "the {} and the {} have bytes in common", v[j].0, v[i].0); } } }
    Ok(())
}
/// C18 where the values are used
fn fresh_in_use(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let full = |v: &[Vec<u8>], what: &str| -> R {
        for i in 0..v[0].len() { let d = v.iter().map(|x| x[i]).collect::<std::collections::HashSet<_>>().len(); ck!(d > v.len() / 3, "byte {} of the {} takes only {} values in {} runs", i, what, d, v.len()); }
        ck!(v.iter().collect::<std::collections::HashSet<_>>().len() == v.len(), "{} repeated", what); Ok(())
    };
    for a in ALGS { for n in [0usize, 40] { let pt = rng.bytes(n); let full = full.clone();
        c.later("fresh-encryptions", &format!("24 encryptions of the same {} bytes with the same key, {}", n, an(a)), move || {
            let (mut no, mut kn, mut sa, mut mks) = (vec![], vec![], vec![], vec![]);
            let apart = apart;
            for _ in 0..24 { let w = rc(Sim::new(vec![])); enc(&rc(Sim::new(pt.clone())), &w, None, b"pw", ht(HeaderVersion::V5, a, Mode::StreamMode), ARGON1)?;
                let p = parse(&w.borrow().data).ok_or("no header")?; let s = p.slots.unwrap()[0].clone(); mks.push(slot_opens(a, &s, b"pw").ok_or("does not open")?); apart(&[("stream nonce", &p.nonce), ("keyslot nonce", &s.nonce), ("salt", &s.salt), ("master key", mks.last().unwrap())])?; no.push(p.nonce); kn.push(s.nonce); sa.push(s.salt.to_vec()); }
            full(&no, "stream nonces")?; full(&kn, "keyslot nonces")?; full(&sa, "salts")?; full(&mks, "master keys") }); }
        for op in [KeyOp::Add, KeyOp::Change] { let mut r2 = Rng(rng.next()); let full = full.clone();
            c.later("fresh-key-operations", &format!("24 times the same {:?}, {}", op, an(a)), move || {
                let m = make(&mut r2, a, true, &[(b"alpha", ARGON1)], b"abc"); let f = [m.head, m.body].concat(); let (mut kn, mut sa) = (vec![], vec![]);
                for _ in 0..24 { let dev = rc(Sim::new(f.clone())); run_op(op, &dev, b"alpha").map_err(|e| e.to_string())?; let s = raw_slot(a, &dev.borrow().data, if op == KeyOp::Add { 1 } else { 0 }).ok_or("no keyslot")?; let hp = parse(&dev.borrow().data).ok_or("no header")?; apart(&[("stream nonce", &hp.nonce), ("new keyslot nonce", &s.nonce), ("new salt", &s.salt), ("old keyslot nonce", &m.slots[0].nonce), ("old salt", &m.slots[0].salt), ("master key", &m.mk)])?; kn.push(s.nonce); sa.push(s.salt.to_vec()); }
                kn.push(m.slots[0].nonce.clone()); sa.push(m.slots[0].salt.to_vec());
                full(&kn, "keyslot nonces")?; full(&sa, "salts") }); } }
    c.rng = rng;
}

// ------------------------------------------------------------------ header dump, strip, restore
fn header_ops(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for v in [HeaderVersion::V1, HeaderVersion::V2, HeaderVersion::V3, HeaderVersion::V4, HeaderVersion::V5] { for a in ALGS { for stream in [true, false] { for rep in 0..if c.thorough { 30 } else { 6 } {
        let hs = hsize(v);
        let bl = *rng.pick(&[0usize, 1, 16, 500, 3000]);
        // a header as the program writes it, followed by any body
        let head = match v {
            HeaderVersion::V5 => { let ns = rng.below(5); let ks = (0..ns).map(|_| Keyslot { hash_algorithm: *rng.pick(&ALL_HASHES), encrypted_key: rng.arr(), nonce: rng.bytes(full_nonce(a)), salt: rng.arr() }).collect(); ser(&v5(a, stream, rng.bytes(nlen(a, stream)), ks)) }
            HeaderVersion::V4 => { if !stream && nlen(a, false) > 26 { continue; } let k = Keyslot { hash_algorithm: HashingAlgorithm::Blake3Balloon(4), encrypted_key: rng.arr(), nonce: rng.bytes(full_nonce(a)), salt: rng.arr() }; ser(&Header { header_type: ht(v, a, if stream { Mode::StreamMode } else { Mode::MemoryMode }), nonce: rng.bytes(nlen(a, stream)), salt: None, keyslots: Some(vec![k]) }) }
            HeaderVersion::V3 => ser(&Header { header_type: ht(v, a, if stream { Mode::StreamMode } else { Mode::MemoryMode }), nonce: rng.bytes(nlen(a, stream)), salt: Some(rng.arr()), keyslots: None }),
            _ => { let mut b = tags(v, a, stream); b.extend(rng.bytes(58)); b }
        };
        let writable = !matches!(v, HeaderVersion::V1 | HeaderVersion::V2);
        let f = [head.clone(), rng.bytes(bl)].concat();
        let ch = *rng.pick(&[Chunk::Full, Chunk::One, Chunk::Rand(90)]); let wch = *rng.pick(&[Chunk::Full, Chunk::One, Chunk::Rand(90)]);
        let k = rng.below(hs); let wk = rng.below(4); let pre = rng.below(3) == 0;
        c.case("dump-strip-restore", &format!("{} {} {} header and {} bytes of body, case {}, reader {:?}, writer {:?}", vn(v), an(a), if stream { "stream" } else { "memory" }, bl, rep, ch, wch), || {
            let r = rc(Sim::new(f.clone()).r(ch)); let w = rc(Sim::new(if pre { vec![7; 600] } else { vec![] }).w(wch));
            let res = tools::header::dump::execute(tools::header::dump::Request { reader: &r, writer: &w });
            ck!(res.is_ok() == writable, "dump: {:?}", res.map_err(|e| e.to_string()));
            ck!(r.borrow().data == f && r.borrow().written().is_empty(), "dumping modified the file");
            if writable { let d = &w.borrow().data; let n = d.len(); ck!(d[..hs] == head[..], "dumped {} instead of {}", hex(&d[..hs.min(n)]), hex(&head)); ck!(if pre { d[hs..] == vec![7u8; 600 - hs][..] } else { n == hs }, "dumped more than the header"); } else { ck!(w.borrow().written().is_empty(), "wrote something"); }
            let s = rc(Sim::new(f.clone()).r(ch).w(wch));
            tools::header::strip::execute(tools::header::strip::Request { handle: &s }).map_err(|e| format!("strip: {}", e))?;
            let stripped = s.borrow().data.clone();
            ck!(stripped.len() == f.len() && stripped[..hs].iter().all(|b| *b == 0), "the header region is not zero"); ck!(stripped[hs..] == f[hs..], "stripping changed the body");
            let t = rc(Sim::new(stripped.clone()).r(ch).w(wch)); let h = rc(Sim::new(head.clone()).r(ch));
            let res = tools::header::restore::execute(tools::header::restore::Request { reader: &h, writer: &t });
            ck!(res.is_ok() == writable, "restore: {:?}", res.map_err(|e| e.to_string()));
            if writable { ck!(t.borrow().data == f, "restoring does not give back the file"); }
            // refused targets
            let mut bad = stripped.clone(); bad[k] = 1;
            let short_t = stripped[..k].to_vec();
            for (what, x) in [("a byte that is not zero", bad), ("a short target", short_t), ("an intact file", f.clone())] {
                let t = rc(Sim::new(x.clone()).r(ch).w(wch)); let h = rc(Sim::new(head.clone()));
                ck!(tools::header::restore::execute(tools::header::restore::Request { reader: &h, writer: &t }).is_err(), "restored onto {}", what);
                ck!(t.borrow().data == x && t.borrow().written().is_empty(), "a refused target ({}) was modified", what);
            }
            // faults
            let mut s = Sim::new(f.clone()).w(Chunk::Max(40)); s.fail_write = Some(wk); let s = rc(s);
            let e = tools::header::strip::execute(tools::header::strip::Request { handle: &s }).is_err(); ck!(e == (s.borrow().writes > wk), "strip: failing write not reported");
            if writable { let mut s = Sim::new(vec![]).w(Chunk::Max(40)); s.fail_write = Some(wk); let s = rc(s);
                let e = tools::header::dump::execute(tools::header::dump::Request { reader: &rc(Sim::new(f.clone())), writer: &s }).is_err(); ck!(e == (s.borrow().writes > wk), "dump: failing write not reported");
                let mut s = Sim::new(stripped).w(Chunk::Max(40)); s.fail_write = Some(wk); let s = rc(s);
                let e = tools::header::restore::execute(tools::header::restore::Request { reader: &rc(Sim::new(head)), writer: &s }).is_err(); ck!(e == (s.borrow().writes > wk), "restore: failing write not reported"); }
            Ok(())
        });
        // something that is no header
        let mut g = f.clone(); let what = match rep % 4 { 0 => { g.truncate(k); "truncated" } 1 => { g[0] ^= 1; "first tag byte changed" } 2 => { g[1] = 9; "unknown version" } _ => { g[3] = 0; "unknown algorithm" } };
        c.case("not-a-header", &format!("{} {} case {} {}", vn(v), an(a), rep, what), || {
            let s = rc(Sim::new(g.clone())); ck!(tools::header::strip::execute(tools::header::strip::Request { handle: &s }).is_err() && s.borrow().data == g && s.borrow().written().is_empty(), "strip");
            let (r, w) = (rc(Sim::new(g.clone())), rc(Sim::new(vec![]))); ck!(tools::header::dump::execute(tools::header::dump::Request { reader: &r, writer: &w }).is_err() && r.borrow().data == g && w.borrow().written().is_empty(), "dump");
            let (r, w) = (rc(Sim::new(g.clone())), rc(Sim::new(vec![0; 600]))); ck!(tools::header::restore::execute(tools::header::restore::Request { reader: &r, writer: &w }).is_err() && w.borrow().written().is_empty(), "restore"); Ok(())
        });
    } } } }
    c.rng = rng;
}

// ------------------------------------------------------------------ overwriting, hashing, hex
fn overwriting(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let mut sizes: Vec<usize> = (0..20).chain([100, 511, 512, 513, 515, 1023, 1024, 1025, 5000, 51_200, 51_201, 70_000]).collect();
    if c.thorough { sizes.extend(20..600); sizes.extend([B - 1, B, B + 1, 3 * B + 7]); }
    for n in sizes { for p in [0i32, 1, 2, 3, 7] { for ch in [Chunk::Full, Chunk::Max(100), Chunk::Rand(700)] {
        if n > 1000 && p > 3 { continue; }
        let extra = *rng.pick(&[0usize, 1, 600]); let at = rng.below(n + extra + 1) as u64;
        let f = rng.bytes(n + extra);
        let o = f.clone();
        let ok = c.case("overwrite", &format!("{} bytes of {}, {} passes, position {}, writer {:?}", n, n + extra, p, at, ch), || {
            let w = rc(Sim::new(f).at(at).w(ch));
            tools::overwrite::execute(tools::overwrite::Request { writer: &w, buf_capacity: n, passes: p }).map_err(|e| e.to_string())?;
            let w = w.borrow();
            ck!(w.data.len() == o.len() && w.data[..n].iter().all(|b| *b == 0), "the region is not zero");
            ck!(w.data[n..] == o[n..], "bytes beyond the region changed");
            // the passes
            let mut pass: Vec<Vec<u8>> = vec![vec![]]; let mut fl = 0;
            for op in &w.log { match op {
                Op::Write(q, b) => { let np = pass.len(); let cur = pass.last_mut().unwrap(); if b.is_empty() { continue; } ck!(*q as usize == cur.len(), "pass {} writes at {} after {} bytes", np, q, cur.len()); cur.extend_from_slice(b); }
                Op::Flush => { fl += 1; pass.push(vec![]); } _ => {} } }
            ck!(pass.last().unwrap().is_empty(), "the last write was not flushed"); pass.pop();
            ck!(fl == p as usize + 1, "{} flushes for {} passes", fl, p);
            for (i, x) in pass.iter().enumerate() {
                ck!(x.len() == n, "pass {} writes {} bytes instead of {}", i, x.len(), n);
                if i < p as usize { if n >= 64 { let d = x.iter().collect::<std::collections::HashSet<_>>().len(); ck!(d > 20, "pass {} is not random: {}", i, short(x)); for j in 0..i { ck!(&pass[j] != x, "passes {} and {} are the same", j, i); }
                    for (k, w) in x.chunks(32).enumerate() { if w.len() == 32 { ck!(!x[..k * 32].chunks(32).any(|v| v == w) || n > 60_000, "pass {} repeats itself", i); ck!(w.iter().any(|b| *b != w[0]), "pass {} is not random at {}", i, k * 32); } } } }
                else { ck!(x.iter().all(|b| *b == 0), "the last pass is not zero"); }
            }
            Ok(())
        });
        if !ok { break; }
    } } }
    // what is written differs from run to run, and takes every value
    for n in [40usize, 512, 513, 3000, 60_000] {
        c.case("overwrite-fresh", &format!("{} bytes, 2 passes, 6 times", n), || {
            let mut seen: Vec<Vec<u8>> = vec![]; let mut used = [0usize; 256];
            for _ in 0..6 { let w = rc(Sim::new(vec![1; n])); tools::overwrite::execute(tools::overwrite::Request { writer: &w, buf_capacity: n, passes: 2 }).map_err(|e| e.to_string())?;
                let mut all: Vec<u8> = vec![]; for (_, b) in w.borrow().written() { all.extend(b); } ck!(all.len() == 3 * n, "{} bytes written", all.len());
                for k in 0..2 { let x = all[k * n..(k + 1) * n].to_vec(); ck!(!seen.contains(&x), "the same bytes are written again"); for y in &seen { for (u, v) in x.chunks(16).zip(y.chunks(16)) { ck!(u.len() < 16 || u != v, "parts of what is written are the same again"); } } for b in &x { used[*b as usize] += 1; } seen.push(x); } }
            let total = 12 * n; if total >= 6000 { for (b, k) in used.iter().enumerate() { let e = total as f64 / 256.0; ck!((*k as f64 - e).abs() < 8.0 * e.sqrt() + 8.0, "byte value {} is written {} times, {:.0} expected", b, k, e); } }
            Ok(())
        });
    }
    for n in [1usize, 100, 512, 700, 1500] { for p in [0i32, 1, 2] { for kind in 0..3 { for k in 0..12 {
        c.case("overwrite-fault", &format!("{} bytes, {} passes, {} call number {} fails", n, p, ["write", "flush", "seek"][kind], k), || {
            let mut s = Sim::new(vec![9; n]).w(Chunk::Max(300)); match kind { 0 => s.fail_write = Some(k), 1 => s.fail_flush = Some(k), _ => s.fail_seek = Some(k) } let w = rc(s);
            let e = tools::overwrite::execute(tools::overwrite::Request { writer: &w, buf_capacity: n, passes: p }).is_err(); let w = w.borrow();
            let hit = match kind { 0 => w.writes > k, 1 => w.flushes > k, _ => w.seeks > k };
            ck!(e == hit, "{}", if hit { "reported success although a call failed" } else { "failed without a fault" }); Ok(())
        });
    } } } }
    c.rng = rng;
}
fn hashing(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let mut sizes: Vec<usize> = (0..70).chain([1023, 1024, 1025, 65_536, B - 1, B, B + 1, 2 * B, 2 * B + 5]).collect();
    if c.thorough { sizes.extend([3 * B, 5 * B - 1, 17 * B + 3]); }
    for n in sizes { for (i, ch) in [Chunk::Full, Chunk::Max(1000), Chunk::Rand(200_000), Chunk::One].into_iter().enumerate() {
        if i == 3 && n > 70_000 { continue; }
        let f = rng.bytes(n); let at = if i == 0 { 0 } else { rng.below(n + 3) as u64 };
        c.case("hash", &format!("content of {} bytes, reader {:?} at {}", n, ch, at), || {
            let want = blake3::hash(&f).to_hex().to_string();
            let mut s = quiet(Sim::new(f.clone()).at(at).r(ch));
            let got = tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(&mut s) }).map_err(|e| e.to_string())?;
            ck!(got == want, "hash is {} instead of {}", got, want); ck!(s.data == f, "the input was modified"); Ok(())
        });
    } }
    for n in [0usize, 10, B + 5, 2 * B] { for k in 0..5 { let f = rng.bytes(n); let seek = k == 4;
        c.case("hash-fault", &format!("content of {} bytes, {} fails", n, if seek { "rewinding".into() } else { format!("read call number {}", k) }), || {
            let mut s = quiet(Sim::new(f)); if seek { s.fail_seek = Some(0) } else { s.fail_read = Some(k) }
            let e = tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(&mut s) }).is_err();
            let hit = if seek { s.seeks > 0 } else { s.reads > k };
            ck!(e == hit, "{}", if hit { "a hash was reported although a call failed" } else { "failed without a fault" }); Ok(())
        }); } }
    c.rng = rng;
}
fn hexes(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for b in 0..=255u8 { c.case("hex-byte", &format!("byte {}", b), || { let x = tools::utils::hex_encode(&[b]); let d = b"0123456789abcdef"; ck!(x.as_bytes() == [d[b as usize / 16], d[b as usize % 16]], "gives {:?}", x); Ok(()) }); }
    for n in (0..80).chain([1000, 70_000]) { let v = rng.bytes(n); c.case("hex", &short(&v), || { let x = tools::utils::hex_encode(&v); ck!(x == hex(&v), "gives {:?}", &x[..x.len().min(60)]); Ok(()) }); }
    c.rng = rng;
}

// ------------------------------------------------------------------ files
/// wait for threads that were left running to end
fn settle() { for _ in 0..2000 { match fs::read_dir("/proc/self/task") { Ok(d) => if d.count() <= 1 { return; }, Err(_) => return } std::thread::sleep(std::time::Duration::from_millis(2)); } }
/// bytes written by this process so far
fn wchar() -> Option<u64> { settle(); fs::read_to_string("/proc/self/io").ok()?.lines().find_map(|l| l.strip_prefix("wchar: ").and_then(|x| x.trim().parse().ok())) }
#[derive(Clone, Debug, PartialEq)]
enum Ev { Create(PathBuf), Open(PathBuf), Remove(PathBuf, Vec<u8>), RemoveDir(PathBuf), MkDir(PathBuf) }
/// the real file storage, watched, confined to a scratch directory, and with faults
struct Watch { root: PathBuf, log: Arc<Mutex<Vec<Ev>>>, tmp: PathBuf, ro_update: bool, no_open: Option<PathBuf>, no_len: bool, no_remove: bool, no_temp: bool, no_create: bool }
impl Watch {
    fn new(root: &Path) -> Self { let tmp = root.join("the-temp"); fs::create_dir_all(&tmp).unwrap(); Watch { root: root.into(), log: Arc::new(Mutex::new(vec![])), tmp, ro_update: false, no_open: None, no_len: false, no_remove: false, no_temp: false, no_create: false } }
    fn ev(&self, e: Ev) { self.log.lock().unwrap().push(e) }
    fn inside(&self, p: &Path) -> bool { match p.strip_prefix(&self.root) { Err(_) => false, Ok(r) => { let mut d = 0i32; r.components().all(|c| { match c { std::path::Component::ParentDir => d -= 1, std::path::Component::Normal(_) => d += 1, _ => {} } d >= 0 }) } } }
}
impl Storage<fs::File> for Watch {
    fn create_temp_file(&self) -> Result<Entry<fs::File>, SErr> { if self.no_temp { return Err(SErr::CreateFile); } let p = self.tmp.join(format!("t{}", self.log.lock().unwrap().len())); self.ev(Ev::Create(p.clone())); FileStorage.create_file(p) }
    fn create_dir_all<P: AsRef<Path>>(&self, p: P) -> Result<(), SErr> { self.ev(Ev::MkDir(p.as_ref().into())); if !self.inside(p.as_ref()) { return Err(SErr::CreateDir); } FileStorage.create_dir_all(p) }
    fn create_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<fs::File>, SErr> { self.ev(Ev::Create(p.as_ref().into())); if self.no_create || !self.inside(p.as_ref()) { return Err(SErr::CreateFile); } FileStorage.create_file(p) }
    fn read_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<fs::File>, SErr> { FileStorage.read_file(p) }
    fn write_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<fs::File>, SErr> { self.ev(Ev::Open(p.as_ref().into())); if self.no_create || !self.inside(p.as_ref()) || self.no_open.as_deref() == Some(p.as_ref()) { return Err(SErr::OpenFile(tools::storage::FileMode::Write)); } FileStorage.write_file(p) }
    fn update_file<P: AsRef<Path>>(&self, p: P) -> Result<Entry<fs::File>, SErr> { self.ev(Ev::Open(p.as_ref().into())); if !self.inside(p.as_ref()) || self.no_open.as_deref() == Some(p.as_ref()) { return Err(SErr::OpenFile(tools::storage::FileMode::Write)); } if self.ro_update { FileStorage.read_file(p) } else { FileStorage.update_file(p) } }
    fn flush_file(&self, f: &Entry<fs::File>) -> Result<(), SErr> { FileStorage.flush_file(f) }
    fn file_len(&self, f: &Entry<fs::File>) -> Result<usize, SErr> { if self.no_len { return Err(SErr::FileLen); } FileStorage.file_len(f) }
    fn remove_file(&self, f: Entry<fs::File>) -> Result<(), SErr> { let p = f.path().to_path_buf(); self.ev(Ev::Remove(p.clone(), fs::read(&p).unwrap_or_default())); if self.no_remove || !self.inside(&p) { return Err(SErr::RemoveFile); } FileStorage.remove_file(f) }
    fn remove_dir_all(&self, f: Entry<fs::File>) -> Result<(), SErr> { let p = f.path().to_path_buf(); self.ev(Ev::RemoveDir(p.clone())); if self.no_remove || !self.inside(&p) { return Err(SErr::RemoveDir); } FileStorage.remove_dir_all(f) }
    fn read_dir(&self, f: &Entry<fs::File>) -> Result<Vec<Entry<fs::File>>, SErr> { FileStorage.read_dir(f) }
}
fn erasing(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for n in [0usize, 1, 100, 511, 512, 513, 5000, 70_000, B, B + 3] { for p in [0i32, 1, 2, 5] {
        let d = c.dir("erase"); let f = d.join("file.bin"); let other = d.join("file.bin2");
        let body = rng.bytes(n);
        c.case("erase", &format!("file of {} bytes, {} passes", n, p), || {
            fs::write(&f, &body).map_err(|e| e.to_string())?; fs::write(&other, b"keep").map_err(|e| e.to_string())?;
            let st = Watch::new(&d); let log = st.log.clone();
            let w0 = wchar();
            let r = tools::erase::execute(Arc::new(st), tools::erase::Request { path: &f, passes: p });
            let w1 = wchar();
            ck!(r.is_ok(), "failed: {}", r.unwrap_err());
            ck!(!f.exists(), "the file is still there"); ck!(fs::read(&other).ok().as_deref() == Some(b"keep"), "another file was touched");
            let l = log.lock().unwrap();
            let rm: Vec<_> = l.iter().filter_map(|e| if let Ev::Remove(q, b) = e { Some((q, b)) } else { None }).collect();
            ck!(rm.len() == 1 && rm[0].0 == &f, "removals: {:?}", rm.iter().map(|x| x.0).collect::<Vec<_>>());
            ck!(rm[0].1.len() == n && rm[0].1.iter().all(|b| *b == 0), "when removed the file held {}", short(rm[0].1));
            if let (Some(a), Some(b)) = (w0, w1) { ck!(b - a == (n as u64) * (p as u64 + 1), "{} bytes were written for {} passes over {} bytes and the final zeros", b - a, p, n); }
            Ok(())
        });
        c.case("erase-real-storage", &format!("file of {} bytes, {} passes", n, p), || {
            fs::write(&f, &body).map_err(|e| e.to_string())?;
            // a second name keeps the content readable after the removal
            let keep = d.join("second-name"); let _ = fs::remove_file(&keep);
            fs::hard_link(&f, &keep).map_err(|e| e.to_string())?;
            let w0 = wchar();
            let r = tools::erase::execute(Arc::new(FileStorage), tools::erase::Request { path: &f, passes: p });
            let w1 = wchar();
            ck!(r.is_ok() && !f.exists() && keep.exists(), "not removed");
            let left = fs::read(&keep).map_err(|e| e.to_string())?;
            ck!(left.iter().all(|b| *b == 0), "content left: {}", short(&left));
            if let (Some(a), Some(b)) = (w0, w1) { ck!(b - a == (n as u64) * (p as u64 + 1), "{} bytes were written for {} passes over {} bytes and the final zeros", b - a, p, n); }
            Ok(())
        });
        for what in 0..5 { if p > 1 { continue; }
            let d = c.dir("erase-fail"); let f = d.join("file.bin");
            c.case("erase-fault", &format!("file of {} bytes, {} passes, {} fails", n, p, ["opening", "measuring", "writing", "removing", "opening (no such file)"][what]), || {
                fs::write(&f, &body).map_err(|e| e.to_string())?;
                let mut st = Watch::new(&d); let log = st.log.clone();
                match what { 0 => st.no_open = Some(f.clone()), 1 => st.no_len = true, 2 => st.ro_update = true, 3 => st.no_remove = true, _ => {} }
                let path = if what == 4 { d.join("missing") } else { f.clone() };
                let r = tools::erase::execute(Arc::new(st), tools::erase::Request { path: &path, passes: p });
                if what == 2 && n == 0 { return Ok(()); }
                ck!(r.is_err(), "reported success"); ck!(f.exists(), "the file is gone");
                if what != 3 { ck!(!log.lock().unwrap().iter().any(|e| matches!(e, Ev::Remove(..))), "the file was removed"); ck!(fs::read(&f).ok().as_deref() == Some(&body), "the file was modified"); }
                Ok(())
            }); }
    } }
    c.rng = rng;
}
fn tree(d: &Path, rng: &mut Rng, shape: usize) -> Vec<(PathBuf, Vec<u8>)> {
    let mut v: Vec<(&str, usize)> = vec![("a.txt", 5), ("sub/b.bin", 3000), ("sub/deep/er/c", 1), (".hidden", 10), (".dot/.x", 7), ("empty", 0), ("with space/ö.txt", 20)];
    match shape { 0 => v.clear(), 1 => v.truncate(1), 2 => v.truncate(3), _ => {} }
    fs::create_dir_all(d).unwrap(); if shape >= 2 { fs::create_dir_all(d.join("emptydir/inner")).unwrap(); }
    v.into_iter().map(|(p, n)| { let p = d.join(p); fs::create_dir_all(p.parent().unwrap()).unwrap(); let b = rng.bytes(n); fs::write(&p, &b).unwrap(); (p, b) }).collect()
}
/// directories within directories until the path is too long to be opened by name
fn too_deep(at: &Path) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let n = std::ffi::CString::new(vec![b'n'; 200]).unwrap(); let p = std::ffi::CString::new(at.as_os_str().as_bytes()).unwrap();
    unsafe {
        let mut fd = libc::open(p.as_ptr(), libc::O_DIRECTORY | libc::O_RDONLY); if fd < 0 { return false; }
        for _ in 0..24 { if libc::mkdirat(fd, n.as_ptr(), 0o755) != 0 { libc::close(fd); return false; } let g = libc::openat(fd, n.as_ptr(), libc::O_DIRECTORY | libc::O_RDONLY); libc::close(fd); if g < 0 { return false; } fd = g; }
        let f = libc::openat(fd, b"hidden-file\0".as_ptr() as *const _, libc::O_CREAT | libc::O_WRONLY, 0o644); libc::close(fd); if f >= 0 { libc::close(f); } f >= 0
    }
}
fn erasing_dirs(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for shape in 0..4usize { for p in [0i32, 1, 3] {
        let d = c.dir("erasedir"); let t = d.join("tree"); let out = d.join("outside");
        let fs_ = tree(&t, &mut rng, shape); let ofs = tree(&out, &mut rng, 2);
        if shape >= 1 { std::os::unix::fs::symlink(out.join("a.txt"), t.join("link-to-file")).unwrap(); std::os::unix::fs::symlink(&out, t.join("link-to-dir")).unwrap(); std::os::unix::fs::symlink("/nonexistent/nowhere", t.join("dangling")).ok(); if shape == 3 { let _ = fs::remove_file(t.join("dangling")); } else { let _ = fs::remove_file(t.join("dangling")); } }
        let total: usize = fs_.iter().map(|f| f.1.len()).sum();
        c.case("erase-dir", &format!("tree of {} files ({} bytes) with links to outside, {} passes", fs_.len(), total, p), || {
            let st = Watch::new(&d); let log = st.log.clone(); let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?;
            let w0 = wchar();
            tools::erase_dir::execute(Arc::new(st), tools::erase_dir::Request { entry: e, passes: p }).map_err(|e| e.to_string())?;
            let w1 = wchar();
            ck!(!t.exists(), "the tree is still there");
            for (f, b) in &ofs { ck!(fs::read(f).ok().as_ref() == Some(b), "{} outside of the tree was touched", f.display()); }
            let l = log.lock().unwrap();
            for (f, b) in &fs_ { let x = l.iter().find_map(|e| if let Ev::Remove(q, c) = e { if q == f { Some(c) } else { None } } else { None }); match x { None => return Err(format!("{} was not erased on its own", f.display())), Some(x) => { ck!(x.len() == b.len() && x.iter().all(|z| *z == 0), "{} held {} when removed", f.display(), short(x)); } } }
            ck!(l.iter().filter(|e| matches!(e, Ev::Remove(..))).count() == fs_.len(), "something else was removed");
            match l.last() { Some(Ev::RemoveDir(q)) if *q == t => {} x => return Err(format!("the last step is {:?}", x)) }
            if let (Some(a), Some(b)) = (w0, w1) { ck!(b - a == (total as u64) * (p as u64 + 1), "{} bytes were written for {} passes over {} bytes and the final zeros", b - a, p, total); }
            Ok(())
        });
        for k in 0..fs_.len().min(7) { let d = c.dir("erasedir-fail"); let t = d.join("tree"); let fs_ = tree(&t, &mut rng, shape); let bad = fs_[k].0.clone();
            c.case("erase-dir-fault", &format!("tree of {} files, {} cannot be opened, {} passes", fs_.len(), bad.strip_prefix(&d).unwrap().display(), p), || {
                let mut st = Watch::new(&d); st.no_open = Some(bad.clone()); let log = st.log.clone(); let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?;
                ck!(tools::erase_dir::execute(Arc::new(st), tools::erase_dir::Request { entry: e, passes: p }).is_err(), "reported success"); settle();
                ck!(t.is_dir() && bad.exists(), "the tree was removed"); ck!(!log.lock().unwrap().iter().any(|e| matches!(e, Ev::RemoveDir(..))), "removal of the tree was attempted");
                ck!(fs::read(&bad).ok().as_ref() == Some(&fs_[k].1), "the file that could not be opened was modified"); Ok(())
            }); }
    } }
    // many files, some of which cannot be opened
    for (n, dirs, bad) in [(300usize, 1usize, vec![]), (120, 30, vec![]), (100, 1, vec![0usize]), (100, 1, vec![99]), (100, 10, vec![50]), (70, 1, vec![31, 32]), (257, 7, vec![3]), (65, 1, vec![64])] {
        let d = c.dir("erasedir-many"); let t = d.join("tree"); let mut fs_ = vec![]; for i in 0..n { let p = t.join(format!("d{}", i % dirs)).join(format!("f{:04}", i)); fs::create_dir_all(p.parent().unwrap()).unwrap(); let k = 1 + rng.below(40); let b: Vec<u8> = rng.bytes(k).iter().map(|x| x | 1).collect(); fs::write(&p, &b).unwrap(); fs_.push((p, b)); }
        let mut order: Vec<PathBuf> = FileStorage.read_dir(&FileStorage.read_file(&t).unwrap()).unwrap().into_iter().filter(|e| !e.is_dir()).map(|e| e.path().to_path_buf()).collect(); if order.len() != n { order = fs_.iter().map(|f| f.0.clone()).collect(); }
        c.case("erase-dir-many", &format!("{} files in {} directories, those listed at {:?} cannot be opened", n, dirs, bad), || {
            let mut st = Watch::new(&d); if let Some(k) = bad.first() { st.no_open = Some(order[*k].clone()); } let log = st.log.clone();
            let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?; let res = tools::erase_dir::execute(Arc::new(st), tools::erase_dir::Request { entry: e, passes: 1 }); settle();
            let l = log.lock().unwrap();
            for e in l.iter() { if let Ev::Remove(q, x) = e { ck!(x.iter().all(|z| *z == 0) && fs_.iter().any(|f| f.0 == *q && f.1.len() == x.len()), "{} held {} when removed", q.display(), short(x)); } }
            let rmdir = l.iter().position(|e| matches!(e, Ev::RemoveDir(..)));
            if bad.is_empty() { ck!(res.is_ok() && !t.exists(), "not erased: {:?}", res.map_err(|e| e.to_string())); ck!(l.iter().filter(|e| matches!(e, Ev::Remove(..))).count() == n, "not every file was erased on its own"); ck!(rmdir == Some(l.len() - 1), "removing the tree was not the last step"); }
            else { ck!(res.is_err(), "reported success"); ck!(rmdir.is_none() && t.is_dir(), "the tree was removed although a file could not be erased"); ck!(fs::read(&order[bad[0]]).map_or(false, |b| fs_.iter().any(|f| f.0 == order[bad[0]] && f.1 == b)), "the file that could not be erased is gone"); }
            Ok(())
        });
    }
    // a path too long to be listed: nothing may be removed
    { let d = c.dir("erasedir-long"); let t = d.join("tree"); tree(&t, &mut rng, 2); if too_deep(&t) {
        c.case("erase-dir-unlistable", "a tree in which a directory cannot be listed", || {
            let st = Watch::new(&d); let log = st.log.clone(); let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?;
            ck!(tools::erase_dir::execute(Arc::new(st), tools::erase_dir::Request { entry: e, passes: 1 }).is_err(), "reported success"); settle(); ck!(t.is_dir() && !log.lock().unwrap().iter().any(|e| matches!(e, Ev::RemoveDir(..))), "the tree was removed although not everything in it could be listed"); Ok(()) }); } }
    for shape in 1..3 { let d = c.dir("erasedir-file"); let t = d.join("tree"); let f = tree(&t, &mut rng, shape);
        c.case("not-a-dir", &format!("a file, case {}", shape), || { let st = Watch::new(&d); let log = st.log.clone(); let e = FileStorage.read_file(&f[0].0).map_err(|e| e.to_string())?;
            ck!(tools::erase_dir::execute(Arc::new(st), tools::erase_dir::Request { entry: e, passes: 1 }).is_err(), "accepted"); ck!(log.lock().unwrap().is_empty() && fs::read(&f[0].0).ok().as_ref() == Some(&f[0].1), "touched it"); Ok(()) }); }
    c.rng = rng;
}
fn storage(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for n in [0usize, 1, 100, 5000] { let d = c.dir("storage"); let f = d.join("x"); let body = rng.bytes(n);
        c.case("create-existing", &format!("file of {} bytes", n), || { fs::write(&f, &body).unwrap(); ck!(FileStorage.create_file(&f).is_err(), "creating over an existing file succeeded"); ck!(fs::read(&f).unwrap() == body, "content altered");
            let l = d.join("link"); let _ = fs::remove_file(&l); std::os::unix::fs::symlink(&f, &l).unwrap(); ck!(FileStorage.create_file(&l).is_err() && fs::read(&f).unwrap() == body, "creating over a link altered its target");
            let l2 = d.join("dangling"); let _ = fs::remove_file(&l2); std::os::unix::fs::symlink(d.join("later"), &l2).unwrap(); ck!(FileStorage.create_file(&l2).is_err() && !d.join("later").exists(), "created through a dangling link");
            ck!(FileStorage.create_file(&d).is_err() && d.is_dir(), "creating over a directory"); Ok(()) });
        c.case("open-keeps", &format!("file of {} bytes", n), || { fs::write(&f, &body).unwrap();
            for upd in [false, true] { let e = if upd { FileStorage.update_file(&f) } else { FileStorage.read_file(&f) }.map_err(|e| e.to_string())?;
                ck!(fs::read(&f).unwrap() == body, "opening altered the content"); ck!(!e.is_dir() && e.path() == f, "wrong entry"); ck!(FileStorage.file_len(&e).map_err(|e| e.to_string())? == n, "wrong length");
                let mut v = vec![]; e.try_reader().map_err(|e| e.to_string())?.borrow_mut().read_to_end(&mut v).map_err(|e| e.to_string())?; ck!(v == body, "reads {}", short(&v)); }
            let e = FileStorage.update_file(&f).map_err(|e| e.to_string())?; { let mut w = e.try_writer().map_err(|e| e.to_string())?.borrow_mut(); w.rewind().unwrap(); w.write_all(b"Q").map_err(|e| e.to_string())?; } FileStorage.flush_file(&e).map_err(|e| e.to_string())?;
            let mut want = body.clone(); if n == 0 { want.push(b'Q') } else { want[0] = b'Q' } ck!(fs::read(&f).unwrap() == want, "updating wrote something else"); Ok(()) });
        c.case("create-new", &format!("then {} bytes", n), || { let g = d.join("new"); let _ = fs::remove_file(&g); let e = FileStorage.create_file(&g).map_err(|e| e.to_string())?; ck!(fs::read(&g).unwrap().is_empty(), "not empty");
            e.try_writer().map_err(|e| e.to_string())?.borrow_mut().write_all(&body).unwrap(); FileStorage.flush_file(&e).map_err(|e| e.to_string())?; ck!(fs::read(&g).unwrap() == body, "content"); ck!(FileStorage.file_len(&e).unwrap() == n, "length");
            { let mut r = e.try_reader().map_err(|e| e.to_string())?.borrow_mut(); r.rewind().unwrap(); let mut v = vec![]; r.read_to_end(&mut v).map_err(|e| e.to_string())?; ck!(v == body, "cannot be read back"); }
            let e = FileStorage.write_file(&g).map_err(|e| e.to_string())?; e.try_writer().unwrap().borrow_mut().write_all(b"z").unwrap(); drop(e); ck!(fs::read(&g).unwrap() == b"z", "opening for writing keeps old content behind the new one: {}", short(&fs::read(&g).unwrap())); Ok(()) });
        c.case("missing", &format!("case {}", n), || { let g = d.join("missing"); ck!(FileStorage.read_file(&g).is_err() && FileStorage.write_file(&g).is_err() && FileStorage.update_file(&g).is_err() && !g.exists(), "opened or created a missing file"); Ok(()) });
        c.case("remove", &format!("file of {} bytes", n), || { fs::write(&f, &body).unwrap(); fs::write(d.join("xx"), b"keep").unwrap(); fs::create_dir_all(d.join("x.d")).unwrap(); fs::write(d.join("x.d/x"), b"keep").unwrap();
            FileStorage.remove_file(FileStorage.update_file(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?; ck!(!f.exists(), "still there"); ck!(fs::read(d.join("xx")).unwrap() == b"keep" && fs::read(d.join("x.d/x")).unwrap() == b"keep", "something else was removed"); Ok(()) });
    }
    for shape in 0..4 { let d = c.dir("storage-dir"); let t = d.join("tree"); let files = tree(&t, &mut rng, shape); let near = tree(&d.join("tree2"), &mut rng, 2);
        c.case("list", &format!("tree of {} files", files.len()), || {
            let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?; ck!(e.is_dir() && e.path() == t, "not a directory entry");
            let mut got: Vec<(PathBuf, bool)> = FileStorage.read_dir(&e).map_err(|e| e.to_string())?.into_iter().map(|e| (e.path().to_path_buf(), e.is_dir())).collect(); got.sort();
            let mut want: Vec<(PathBuf, bool)> = vec![]; let mut todo = vec![t.clone()]; while let Some(p) = todo.pop() { want.push((p.clone(), p.is_dir())); if p.is_dir() { for x in fs::read_dir(&p).unwrap() { todo.push(x.unwrap().path()); } } } want.sort();
            ck!(got == want, "lists {:?} instead of {:?}", got, want);
            for x in FileStorage.read_dir(&e).map_err(|e| e.to_string())? { if !x.is_dir() { let mut v = vec![]; x.try_reader().map_err(|e| e.to_string())?.borrow_mut().read_to_end(&mut v).map_err(|e| e.to_string())?; ck!(files.iter().any(|f| f.0 == x.path() && f.1 == v), "{} reads wrongly", x.path().display()); } else { ck!(x.try_reader().is_err() && x.try_writer().is_err() && FileStorage.file_len(&x).is_err() && FileStorage.flush_file(&x).is_err(), "a directory can be read or written"); } }
            if let Some(f) = files.first() { let e = FileStorage.read_file(&f.0).map_err(|e| e.to_string())?; ck!(FileStorage.read_dir(&e).is_err(), "a file can be listed"); ck!(FileStorage.remove_dir_all(e).is_err() && f.0.exists(), "a file can be removed as a directory"); }
            Ok(()) });
        c.case("remove-tree", &format!("tree of {} files", files.len()), || { FileStorage.remove_dir_all(FileStorage.read_file(&t).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?; ck!(!t.exists(), "still there"); for f in &near { ck!(fs::read(&f.0).ok().as_ref() == Some(&f.1), "{} was touched", f.0.display()); } Ok(()) });
        c.case("make-dirs", &format!("case {}", shape), || { let p = d.join("p/q/r"); FileStorage.create_dir_all(&p).map_err(|e| e.to_string())?; ck!(p.is_dir(), "not made"); fs::write(p.join("k"), b"k").unwrap(); FileStorage.create_dir_all(&p).map_err(|e| e.to_string())?; ck!(fs::read(p.join("k")).unwrap() == b"k", "content lost"); ck!(FileStorage.create_dir_all(p.join("k/z")).is_err() && fs::read(p.join("k")).unwrap() == b"k", "made below a file"); Ok(()) });
    }
    // a wide and a deep tree, a tree that cannot be listed completely
    for (n, depth) in [(400usize, 1usize), (1, 40), (3, 70), (1, 130)] { let d = c.dir("storage-big"); let t = d.join("tree"); let mut want = vec![t.clone()]; let mut p = t.clone(); fs::create_dir_all(&t).unwrap();
        for i in 0..depth { if i > 0 { p = p.join(format!("l{}", i % 7)); want.push(p.clone()); } fs::create_dir_all(&p).unwrap(); for k in 0..n { let f = p.join(if k % 5 == 0 { format!(".h{}", k) } else { format!("f{}", k) }); fs::write(&f, b"x").unwrap(); want.push(f); } } want.sort();
        c.case("list-big", &format!("{} levels of {} files", depth, n), || { let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?; let mut got: Vec<PathBuf> = FileStorage.read_dir(&e).map_err(|e| e.to_string())?.into_iter().map(|e| e.path().to_path_buf()).collect(); got.sort();
            ck!(got.len() == want.len() && got == want, "lists {} of {} entries; missing {:?}", got.len(), want.len(), want.iter().find(|x| !got.contains(x))); Ok(()) }); }
    { let d = c.dir("storage-long"); let t = d.join("tree"); fs::create_dir_all(&t).unwrap(); fs::write(t.join("f"), b"x").unwrap(); if too_deep(&t) { c.case("list-unlistable", "a tree in which a directory cannot be listed", || { let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?; ck!(FileStorage.read_dir(&e).is_err(), "a listing that is not complete is reported as complete"); Ok(()) }); } }
    let d = c.dir("storage-tmp"); std::env::set_var("TMPDIR", &d);
    c.case("temp-file", "50 temporary files", || { let mut seen = std::collections::HashSet::new(); for _ in 0..50 { let e = FileStorage.create_temp_file().map_err(|e| e.to_string())?; ck!(e.path().starts_with(&d) && fs::read(e.path()).unwrap().is_empty(), "not a new file in the temporary directory"); ck!(seen.insert(e.path().to_path_buf()), "name repeated"); e.try_writer().unwrap().borrow_mut().write_all(b"x").map_err(|e| e.to_string())?; } Ok(()) });
    c.rng = rng;
}

// ------------------------------------------------------------------ archives
fn listing(root: &Path) -> Vec<(PathBuf, Option<Vec<u8>>)> {
    let mut v = vec![]; let mut todo = vec![root.to_path_buf()];
    while let Some(p) = todo.pop() { if let Ok(rd) = fs::read_dir(&p) { for x in rd { let q = x.unwrap().path(); let m = fs::symlink_metadata(&q).unwrap(); if m.is_dir() { v.push((q.strip_prefix(root).unwrap().into(), None)); todo.push(q); } else { v.push((q.strip_prefix(root).unwrap().into(), Some(fs::read(&q).unwrap_or_default()))); } } } }
    v.sort(); v
}
fn open_rw(p: &Path) -> RefCell<fs::File> { RefCell::new(fs::File::options().read(true).write(true).create(true).truncate(true).open(p).unwrap()) }
fn open_ro(p: &Path) -> RefCell<fs::File> { RefCell::new(fs::File::open(p).unwrap()) }
type Decline = Option<Box<dyn Fn(PathBuf) -> bool>>;
fn unpack(st: Watch, enc: &Path, head: Option<&Path>, pw: &[u8], out: &Path, on_zip_file: Decline, count: Option<Arc<Mutex<Option<usize>>>>) -> Result<(), String> {
    let r = open_ro(enc); let h = head.map(open_ro);
    tools::unpack::execute(Arc::new(st), tools::unpack::Request { reader: &r, header_reader: h.as_ref(), raw_key: key(pw), output_dir_path: out.into(), on_decrypted_header: None,
        on_archive_info: count.map(|c| -> Box<dyn FnOnce(usize)> { Box::new(move |n| *c.lock().unwrap() = Some(n)) }), on_zip_file }).map_err(|e| e.to_string())
}
fn pack(st: Watch, src: &[PathBuf], out: &RefCell<fs::File>, head: Option<&RefCell<fs::File>>, pw: &[u8], zstd: bool, t: HeaderType) -> Result<(), String> {
    let mut v = vec![];
    for s in src { let e = FileStorage.read_file(s).map_err(|e| e.to_string())?; if e.is_dir() { v.extend(FileStorage.read_dir(&e).map_err(|e| e.to_string())?); } else { v.push(e); } }
    pack_entries(st, v, out, head, pw, zstd, t)
}
fn pack_entries(st: Watch, v: Vec<Entry<fs::File>>, out: &RefCell<fs::File>, head: Option<&RefCell<fs::File>>, pw: &[u8], zstd: bool, t: HeaderType) -> Result<(), String> {
    tools::pack::execute(Arc::new(st), tools::pack::Request { writer: out, compress_files: v, compression_method: if zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored }, header_writer: head, raw_key: key(pw), header_type: t, hashing_algorithm: ARGON1 }).map_err(|e| e.to_string())
}
fn v5s(a: Algorithm) -> HeaderType { ht(HeaderVersion::V5, a, Mode::StreamMode) }
/// the temporary file was wiped over its full length and removed
fn wiped(log: &[Ev], tmp: &Path, want: Option<usize>) -> R {
    let cr: Vec<_> = log.iter().filter_map(|e| if let Ev::Create(p) = e { if p.starts_with(tmp) { Some(p.clone()) } else { None } } else { None }).collect();
    ck!(cr.len() == 1, "{} temporary files were created", cr.len());
    let rm: Vec<_> = log.iter().filter_map(|e| if let Ev::Remove(p, b) = e { if *p == cr[0] { Some(b.clone()) } else { None } } else { None }).collect();
    ck!(rm.len() == 1, "the temporary file was removed {} times", rm.len());
    ck!(rm[0].iter().all(|b| *b == 0), "when it was removed, the temporary file held {}", short(&rm[0]));
    if let Some(n) = want { ck!(rm[0].len() == n, "the temporary file was shortened to {} of {} bytes before it was wiped", rm[0].len(), n); }
    ck!(fs::read_dir(tmp).map_err(|e| e.to_string())?.count() == 0, "the temporary file is still there"); Ok(())
}
fn archives(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    for a in ALGS { for zstd in [false, true] { for det in [false, true] { for shape in 0..5usize {
        if !c.thorough && det && shape % 2 == 0 { continue; }
        let d = c.dir("pack"); let t = d.join("tree"); let mut files = tree(&t, &mut rng, shape);
        if shape == 4 { for (n, l) in [("big", B + 17), ("exact", B), ("text", 300_000)] { let b = if n == "text" { b"the same line again\n".iter().cycle().take(l).copied().collect() } else { rng.bytes(l) }; fs::write(t.join(n), &b).unwrap(); files.push((t.join(n), b)); } }
        c.case("pack-unpack", &format!("{} tree of {} files, {}, {} header", an(a), files.len(), if zstd { "compressed" } else { "stored" }, if det { "detached" } else { "attached" }), || {
            let before = listing(&t);
            let (of, hf) = (d.join("out.enc"), d.join("out.hdr")); let st = Watch::new(&d); let log = st.log.clone();
            { let o = open_rw(&of); let h = if det { Some(open_rw(&hf)) } else { None }; pack(st, &[t.clone()], &o, h.as_ref(), b"pw", zstd, v5s(a))?; }
            ck!(listing(&t) == before, "packing modified the source");
            wiped(&log.lock().unwrap(), &d.join("the-temp"), None)?;
            // the archive itself, with the oracle
            let e = fs::read(&of).unwrap(); let (head, body) = if det { (fs::read(&hf).unwrap(), e) } else { (e[..416].to_vec(), e[416..].to_vec()) };
            let p = parse(&head).ok_or("no header")?; let mk = slot_opens(a, &p.slots.as_ref().unwrap()[0], b"pw").ok_or("the key does not open it")?;
            let mut z = vec![]; let mut at = 0; let mut ctr = 0; loop { let n = (body.len() - at).min(B + 16); let last = at + n == body.len() && n < B + 16; z.extend(open(a, &mk, &snonce(&p.nonce, ctr, last), &p.aad, &body[at..at + n]).ok_or("the body does not open")?); at += n; ctr += 1; if last { break; } }
            for (f, b) in &files { if b.len() > 4 && !zstd { ck!(z.windows(b.len()).any(|w| w == &b[..]), "{} is not in the archive", f.display()); } }
            // unpack
            let out = d.join("out"); let st = Watch::new(&d); let log = st.log.clone();
            unpack(st, &of, if det { Some(&hf) } else { None }, b"pw", &out, None, None)?;
            wiped(&log.lock().unwrap(), &d.join("the-temp"), Some(z.len()))?;
            let rel = t.strip_prefix("/").unwrap();
            let got = listing(&out.join(rel));
            ck!(got == before, "unpacked {:?} instead of {:?}", got.iter().map(|x| (&x.0, x.1.as_ref().map(|b| b.len()))).collect::<Vec<_>>(), before.iter().map(|x| (&x.0, x.1.as_ref().map(|b| b.len()))).collect::<Vec<_>>());
            let all = listing(&out); ck!(all.iter().all(|x| x.0.starts_with(rel) || rel.starts_with(&x.0)), "something else was unpacked");
            // again, over what is there (longer files first)
            for (f, b) in &files { let q = out.join(f.strip_prefix("/").unwrap()); let mut x = b.clone(); x.extend_from_slice(b"left over"); fs::write(&q, x).map_err(|e| e.to_string())?; }
            unpack(Watch::new(&d), &of, if det { Some(&hf) } else { None }, b"pw", &out, None, None)?;
            ck!(listing(&out.join(rel)) == before, "unpacking over existing files does not restore them");
            Ok(())
        });
    } } } }
    // several directories and single files at once, some with the same names
    for (k, (a, zstd)) in [(Algorithm::Aes256Gcm, false), (Algorithm::XChaCha20Poly1305, true), (Algorithm::DeoxysII256, false)].into_iter().enumerate() {
        let d = c.dir("pack-many"); let roots = [d.join("one/tree"), d.join("two/tree"), d.join("tree"), d.join("tree.2")]; for (i, r) in roots.iter().enumerate() { tree(r, &mut rng, (i + k) % 4); for n in 0..[0usize, 3, 150][(i + k) % 3] { fs::write(r.join(format!("n{}", n)), rng.bytes(n * 7 + i)).unwrap(); } }
        let deep = (0..45).fold(roots[0].clone(), |p, i| p.join(format!("d{}", i % 3))); fs::create_dir_all(&deep).unwrap(); fs::write(deep.join("bottom"), rng.bytes(99)).unwrap(); let long = roots[1].join("L".repeat(240)); fs::write(&long, rng.bytes(5)).unwrap();
        for (n, b) in [("same", 10usize), ("Same", 11), ("same ", 12), ("-f", 13), ("*", 14), ("a\\b", 15), ("new\nline", 16), ("trailing.", 17), ("\u{202e}x", 18), ("con", 19), ("..a", 20), ("a..", 21), ("...", 22)] { fs::write(roots[2].join(n), rng.bytes(b)).unwrap(); }
        let single = d.join("single.bin"); fs::write(&single, rng.bytes(77)).unwrap();
        c.case("pack-several", &format!("{} {}: {:?} and a single file", an(a), if zstd { "compressed" } else { "stored" }, roots.iter().map(|r| r.strip_prefix(&d).unwrap().to_path_buf()).collect::<Vec<_>>()), || {
            let mut src = roots.to_vec(); src.push(single.clone()); let of = d.join("out.enc");
            { let o = open_rw(&of); pack(Watch::new(&d), &src, &o, None, b"pw", zstd, v5s(a))?; }
            let out = d.join("out"); unpack(Watch::new(&d), &of, None, b"pw", &out, None, None)?;
            let base = d.strip_prefix("/").unwrap();
            for r in &roots { let (w, g) = (listing(r), listing(&out.join(base).join(r.strip_prefix(&d).unwrap()))); for x in &w { ck!(g.contains(x), "{} of {} is not restored", x.0.display(), r.display()); } ck!(g.len() == w.len(), "more than {} was restored", r.display()); }
            ck!(fs::read(out.join(base).join("single.bin")).ok() == fs::read(&single).ok(), "the single file is not restored"); Ok(())
        });
    }
    c.rng = rng;
}
fn enc_file(rng: &mut Rng, z: &[u8], p: &Path) { let m = make(rng, Algorithm::XChaCha20Poly1305, true, &[(b"pw", ARGON1)], z); fs::write(p, [m.head, m.body].concat()).unwrap(); }
fn slips(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    let s = |x: &str| x.as_bytes().to_vec();
    let d0 = c.dir("slip"); let abs = d0.join("escaped-abs").to_str().unwrap().to_string();
    let names: Vec<Vec<u8>> = vec![s("../evil"), s("../../evil"), s("a/../../evil"), s("a/../b/../../evil"), s("./../evil"), s(&abs), format!("/{}", abs).into_bytes(), s("/evil"), s("..\\evil"), s("a\\..\\..\\evil"), s("C:\\evil"), s("a/b/../../../evil"), s("../out-of/evil"), s("../out2"), s("..//evil"), s("....//evil"), s(".."), s("../"), s("."), s("./"), s(""), s("/"), s("a/.."), s("a/../"), s("a//b"), s("a/./b"), b"evil\0/../x".to_vec(), b"../evil\0".to_vec(), vec![0xff, b'/', b'.', b'.', b'/', b'e'], s("ok.txt"), s("ok/"), s("ok/deep/file"), s("...") , s("a/..b/c"), s("~/.evil"), s("../out/inside"), s("..;/evil")];
    let n_names = names.len();
    let mut cases: Vec<Vec<(Vec<u8>, Vec<u8>, u32)>> = names.iter().map(|n| vec![(n.clone(), b"payload".to_vec(), 0o100644)]).collect();
    // as directories, as links, and mixed with good entries
    for n in &names { let mut m = n.clone(); if m.last() != Some(&b'/') { m.push(b'/'); } cases.push(vec![(m, vec![], 0o40755), (n.clone(), b"x".to_vec(), 0o100644)]); }
    cases.push(vec![(s("link"), s("../.."), 0o120777), (s("link/evil"), s("x"), 0o100644)]);
    cases.push(vec![(s("link"), d0.to_str().unwrap().into(), 0o120777), (s("link/evil"), s("x"), 0o100644)]);
    for _ in 0..if c.thorough { 400 } else { 60 } { let k = 1 + rng.below(5); let mut v: Vec<(Vec<u8>, Vec<u8>, u32)> = vec![(s("ok.txt"), s("fine"), 0o100644)]; for _ in 0..k { let mut n = names[rng.below(n_names)].clone(); for _ in 0..rng.below(3) { let p = rng.below(n.len() + 1); let ins: &[u8] = *rng.pick(&[&b".."[..], b"/", b"../", b"/../", b"\\", b"a", b"./"]); let t = n.split_off(p); n.extend_from_slice(ins); n.extend(t); } v.push((n, rng.bytes(5), 0o100644)); } cases.push(v); }
    for (i, ents) in cases.into_iter().enumerate() {
        let d = c.dir("slip"); let out = d.join("jail/out"); fs::create_dir_all(d.join("jail/out2")).unwrap(); fs::write(d.join("jail/evil-not"), b"keep").unwrap();
        let z = raw_zip(&ents); let f = d.join("in.enc"); enc_file(&mut rng, &z, &f);
        let st = Watch { root: out.clone(), ..Watch::new(&d) }; let log = st.log.clone(); let tmp = st.tmp.clone();
        c.case("unpack-names", &format!("archive {} of {:?}", i, ents.iter().map(|e| String::from_utf8_lossy(&e.0).into_owned()).collect::<Vec<_>>()), || {
            let before: Vec<_> = listing(&d).into_iter().filter(|x| !x.0.starts_with("jail/out/") && x.0 != Path::new("jail/out")).collect();
            let res = unpack(st, &f, None, b"pw", &out, None, None);
            for e in log.lock().unwrap().iter() { match e {
                Ev::Create(p) | Ev::Open(p) | Ev::MkDir(p) => { let mut depth = 0i32; let mut lex = true; if let Ok(r) = p.strip_prefix(&out) { for c in r.components() { match c { std::path::Component::ParentDir => depth -= 1, std::path::Component::Normal(_) => depth += 1, _ => {} } if depth < 0 { lex = false; } } } ck!(p.starts_with(&tmp) || (p.starts_with(&out) && lex), "tried to create or open {}", p.display()); }
                _ => {} } }
            let after: Vec<_> = listing(&d).into_iter().filter(|x| !x.0.starts_with("jail/out")  && !x.0.starts_with("the-temp")).collect();
            let before: Vec<_> = before.into_iter().filter(|x| !x.0.starts_with("jail/out") && !x.0.starts_with("the-temp")).collect();
            ck!(after == before, "something changed outside of the output directory");
            let leaves = |n: &[u8]| { if n.contains(&0) || n.first() == Some(&b'/') { return true; } let mut k = 0i32; for c in n.split(|b| *b == b'/') { if c == b".." { k -= 1; if k < 0 { return true; } } else if !c.is_empty() && c != b"." { k += 1; } } false };
            if ents.iter().all(|e| leaves(&e.0)) { let l = listing(&out); ck!(l.is_empty(), "an entry that would leave the directory was extracted as {:?}", l.iter().map(|x| x.0.clone()).collect::<Vec<_>>()); }
            for e in &ents { if e.1.len() == 5 && leaves(&e.0) && !ents.iter().any(|o| !leaves(&o.0) && o.1 == e.1) { for (p, b) in listing(&out) { ck!(b.as_ref() != Some(&e.1), "an entry that would leave the directory was extracted as {}", p.display()); } } }
            ck!(fs::read_dir(d.join("jail/out2")).unwrap().count() == 0, "something was written to the neighbour directory");
            ck!(!Path::new(&abs).exists(), "{} was written", abs);
            for (p, _) in listing(&d.join("jail")) { if p.starts_with("out") { let m = fs::symlink_metadata(d.join("jail").join(&p)).unwrap(); ck!(!m.file_type().is_symlink(), "{} is a link", p.display()); } }
            let _ = res; Ok(())
        });
    }
    // entries declined by the caller
    for mask in 0..32u32 {
        let d = c.dir("decline"); let out = d.join("out");
        let ents: Vec<(Vec<u8>, Vec<u8>, u32)> = vec![(s("a"), s("1"), 0o100644), (s("dir/"), vec![], 0o40755), (s("dir/b"), s("2"), 0o100644), (s("c"), s("3"), 0o100644), (s("other/"), vec![], 0o40755)];
        let f = d.join("in.enc"); enc_file(&mut rng, &raw_zip(&ents), &f);
        if mask & 4 == 0 || true {
            let pre = mask & 1 != 0 && mask % 3 == 0;
            c.case("declined", &format!("entries {:05b} accepted{}", mask, if pre { ", files exist already" } else { "" }), || {
                if pre { fs::create_dir_all(&out).unwrap(); fs::write(out.join("a"), b"old").unwrap(); fs::write(out.join("c"), b"old content").unwrap(); }
                let asked = Arc::new(Mutex::new(vec![])); let a2 = asked.clone(); let o2 = out.clone(); let cnt = Arc::new(Mutex::new(None));
                let names = ["a", "dir", "dir/b", "c", "other"];
                let cb: Decline = Some(Box::new(move |p| { a2.lock().unwrap().push(p.clone()); names.iter().position(|n| o2.join(n) == p).map_or(false, |i| mask & (1 << i) != 0) }));
                let res = unpack(Watch::new(&d), &f, None, b"pw", &out, cb, Some(cnt.clone()));
                let can = mask & 4 == 0 || mask & 2 != 0;
                ck!(asked.lock().unwrap().len() == 5, "the caller was asked about {:?}", asked.lock().unwrap());
                ck!(*cnt.lock().unwrap() == Some(mask.count_ones() as usize), "the caller was told of {:?} entries", cnt.lock().unwrap());
                for (i, n) in names.iter().enumerate() { let p = out.join(n); let yes = mask & (1 << i) != 0; let b = ["1", "", "2", "3", ""][i];
                    if !yes { if pre && (i == 0 || i == 3) { ck!(fs::read(&p).ok().as_deref() == Some(if i == 0 { b"old" } else { &b"old content"[..] }), "{} was written although declined", n); } else { ck!(!p.exists(), "{} was written although declined", n); } }
                    else if can { ck!(if b.is_empty() { p.is_dir() } else { fs::read(&p).ok().as_deref() == Some(b.as_bytes()) }, "{} was not written properly", n); } }
                ck!(res.is_ok() == can, "{:?}", res); Ok(())
            });
        }
    }
    let _ = fs::remove_dir_all(&d0);
    c.rng = rng;
}
fn temp_wiped(c: &mut Ctx) {
    let mut rng = c.rng.clone();
    // packing
    for what in 0..10usize { for zstd in [false, true] {
        let d = c.dir("tempp"); let t = d.join("tree"); tree(&t, &mut rng, 3); fs::write(t.join("secret"), b"SECRET ".repeat(3000)).unwrap();
        let names = ["nothing", "writing the output", "writing the detached header", "the header version", "reading a file", "a path that is not text", "the same name twice", "the key hash", "measuring the temporary file", "removing the temporary file"];
        c.case("pack-temp-wiped", &format!("{}: {} fails", if zstd { "compressed" } else { "stored" }, names[what]), || {
            let of = d.join("o"); let hf = d.join("h"); fs::write(&of, b"").unwrap(); fs::write(&hf, b"").unwrap();
            let mut st = Watch::new(&d); let log = st.log.clone(); if what == 8 { st.no_len = true } if what == 9 { st.no_remove = true }
            let o = if what == 1 { open_ro(&of) } else { open_rw(&of) }; let h = if what == 2 { Some(open_ro(&hf)) } else { None };
            let e = FileStorage.read_file(&t).map_err(|e| e.to_string())?; let mut v = FileStorage.read_dir(&e).map_err(|e| e.to_string())?;
            if what == 4 { v.push(FileStorage.read_file("/proc/self/mem").map_err(|e| e.to_string())?); }
            if what == 5 { use std::os::unix::ffi::OsStrExt; let p = d.join(std::ffi::OsStr::from_bytes(b"bad\xff")); fs::write(&p, b"SECRET").unwrap(); v.push(FileStorage.read_file(&p).map_err(|e| e.to_string())?); }
            if what == 6 { v.push(FileStorage.read_file(t.join("secret")).map_err(|e| e.to_string())?); }
            let ty = match what { 3 => ht(HeaderVersion::V2, Algorithm::Aes256Gcm, Mode::StreamMode), 7 => ht(HeaderVersion::V5, Algorithm::Aes256Gcm, Mode::MemoryMode), _ => v5s(Algorithm::Aes256Gcm) };
            let res = pack_entries(st, v, &o, h.as_ref(), b"pw", zstd, ty);
            let ok = matches!(what, 0 | 8 | 9);
            if what != 6 { ck!(res.is_ok() == ok, "the outcome reported is {:?}", res); }
            if what == 8 { ck!(fs::read_dir(d.join("the-temp")).unwrap().count() == 0, "the temporary file is still there"); return Ok(()); }
            if what == 9 { for e in log.lock().unwrap().iter() { if let Ev::Remove(_, b) = e { ck!(b.iter().all(|x| *x == 0), "not wiped"); } } return Ok(()); }
            let l = log.lock().unwrap(); wiped(&l, &d.join("the-temp"), None)?;
            if ok || matches!(what, 1 | 2 | 3 | 7) { for e in l.iter() { if let Ev::Remove(_, b) = e { ck!(b.len() > 1000 || zstd, "only {} bytes were wiped", b.len()); } } }
            Ok(())
        });
    } }
    let d = c.dir("tempp0"); c.case("pack-no-temp", "no temporary file can be created", || { let mut st = Watch::new(&d); st.no_temp = true; let log = st.log.clone(); let o = open_rw(&d.join("o")); ck!(pack_entries(st, vec![], &o, None, b"pw", false, v5s(Algorithm::Aes256Gcm)).is_err(), "reported success"); ck!(log.lock().unwrap().is_empty() && fs::read(d.join("o")).unwrap().is_empty(), "went on"); Ok(()) });
    // unpacking
    for what in 0..10usize { for n in [3000usize, B + 500] {
        let d = c.dir("tempu"); let out = d.join("out"); let f = d.join("in.enc");
        let body = rng.bytes(n); let z = raw_zip(&[(b"dir/".to_vec(), vec![], 0o40755), (b"dir/a".to_vec(), body.clone(), 0o100644), (b"b".to_vec(), b"second".to_vec(), 0o100644)]);
        let names = ["nothing", "the key", "the header", "the last block", "the archive", "creating the output directory", "creating a file", "a file of the archive", "measuring the temporary file", "a truncated body"];
        let zz = if what == 4 { rng.bytes(n) } else if what == 7 { let mut y = z.clone(); let k = y.windows(16).position(|w| w == &body[..16]).unwrap(); y[k + 5] ^= 1; y } else { z.clone() }; enc_file(&mut rng, &zz, &f);
        c.case("unpack-temp-wiped", &format!("archive of {} bytes, {} fails", z.len(), names[what]), || {
            let mut e = fs::read(&f).unwrap(); let l = e.len();
            match what { 2 => e[0] = 0, 3 => e[l - 1] ^= 1, 9 => { e.truncate(l - 20); } _ => {} } fs::write(&f, &e).unwrap();
            let mut st = Watch::new(&d); let log = st.log.clone(); if what == 5 { fs::write(&out, b"a file").unwrap(); } if what == 6 { st.no_create = true } if what == 8 { st.no_len = true }
            let res = unpack(st, &f, None, if what == 1 { b"wrong" } else { b"pw" }, &out, None, None);
            let ok = matches!(what, 0 | 8);
            ck!(res.is_ok() == ok, "the outcome reported is {:?}", res);
            if ok { ck!(fs::read(out.join("dir/a")).ok().as_ref() == Some(&body), "not extracted"); }
            if what == 8 { ck!(fs::read_dir(d.join("the-temp")).unwrap().count() == 0, "the temporary file is still there"); return Ok(()); }
            let full = match what { 1 | 2 => Some(0), 3 | 9 => Some(if z.len() >= B { B } else { 0 }), 4 => Some(n), _ => Some(z.len()) };
            let r = wiped(&log.lock().unwrap(), &d.join("the-temp"), full); r
        });
    } }
    // a panic in what the caller handed in, or for a header that cannot be sealed
    for what in 0..4usize { for n in [3000usize, B + 500] {
        let d = c.dir("tempq"); let out = d.join("out"); let f = d.join("in.enc"); let z = raw_zip(&[(b"dir/".to_vec(), vec![], 0o40755), (b"dir/a".to_vec(), rng.bytes(n), 0o100644), (b"b".to_vec(), b"second".to_vec(), 0o100644)]); enc_file(&mut rng, &z, &f); let t = d.join("t"); fs::create_dir_all(&t).unwrap(); fs::write(t.join("f"), rng.bytes(n)).unwrap();
        c.case("temp-wiped-panic", &format!("archive of {} bytes, {} panics", z.len(), ["the question for an entry", "the number of entries", "the header read", "sealing the header"][what]), || {
            let st = Watch::new(&d); let log = st.log.clone(); let count = Arc::new(std::sync::atomic::AtomicUsize::new(0)); let c2 = count.clone();
            let o = open_rw(&d.join("o")); let r = open_ro(&f);
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if what == 3 {
                let v = FileStorage.read_dir(&FileStorage.read_file(&t).unwrap()).unwrap(); pack_entries(st, v, &o, None, b"pw", false, ht(HeaderVersion::V3, Algorithm::XChaCha20Poly1305, Mode::StreamMode))
            } else { tools::unpack::execute(Arc::new(st), tools::unpack::Request { reader: &r, header_reader: None, raw_key: key(b"pw"), output_dir_path: out.clone(),
                on_decrypted_header: if what == 2 { Some(Box::new(|_| panic!("header"))) } else { None }, on_archive_info: if what == 1 { Some(Box::new(|_| panic!("count"))) } else { None },
                on_zip_file: if what == 0 { Some(Box::new(move |_| if c2.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 1 { panic!("entry") } else { true })) } else { None } }).map_err(|e| e.to_string()) }));
            ck!(!matches!(x, Ok(Ok(_))), "reports success");
            let full = if what == 3 { None } else if what == 2 { Some(0) } else { Some(z.len()) };
            let w = wiped(&log.lock().unwrap(), &d.join("the-temp"), full); w
        });
    } }
    c.rng = rng;
}

fn main() {
    main_with(&[
        ("C01", files), ("C02", file_tampering), ("C08", |c| key_ops(c, KeyOp::Add)), ("C09", |c| key_ops(c, KeyOp::Change)), ("C10", |c| key_ops(c, KeyOp::Delete)), ("C11", |c| key_ops(c, KeyOp::Verify)),
        ("C12", header_ops), ("C13", overwriting), ("C14", erasing), ("C15", erasing_dirs), ("C16", hashing), ("C18", fresh_in_use), ("C21", archives), ("C22", slips), ("C23", temp_wiped), ("C27", storage), ("C28", hexes), ("C29", memory_mode),
    ]);
}
