//! The command line itself, run in a scratch directory by an unprivileged user.
use battery::{ck, main_with, orc::*, short, Ctx, Rng, R};
use corecrypto::header::{HashingAlgorithm, Keyslot};
use corecrypto::primitives::Algorithm;
use std::fs;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

const NOBODY: u32 = 65534;
const BALLOON5: HashingAlgorithm = HashingAlgorithm::Blake3Balloon(5);
const ARGON3: HashingAlgorithm = HashingAlgorithm::Argon2id(3);
struct Set { cli: PathBuf, shim: Option<PathBuf>, root: PathBuf, nobody: bool, n: AtomicUsize }
/// one place to run in: `w` is the working directory
struct Env { s: Arc<Set>, base: PathBuf, w: PathBuf }
#[derive(Default, Clone)]
struct Run { args: Vec<String>, stdin: Vec<u8>, envkey: Option<Vec<u8>>, tty: Option<Vec<u8>>, fault: Option<(char, usize)> }
struct Res { code: Option<i32>, text: String, log: Vec<(String, String, i64)> }
fn set(c: &Ctx) -> Option<Arc<Set>> {
    let cli0 = c.cli.clone()?;
    let root = c.dir("cli"); let bin = root.join("volaris-cli"); fs::copy(&cli0, &bin).ok()?;
    let me = unsafe { libc::geteuid() } == 0;
    use std::os::unix::fs::PermissionsExt;
    let mut p = Some(root.as_path()); while let Some(q) = p { if q == Path::new("/") || q == Path::new("/tmp") { break; } if let Ok(m) = fs::metadata(q) { let b = m.permissions().mode(); if b & 0o001 == 0 { let _ = fs::set_permissions(q, fs::Permissions::from_mode(b | 0o011)); } } p = q.parent(); }
    let nobody = me && Command::new(&bin).arg("--version").uid(NOBODY).gid(NOBODY).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().map_or(false, |s| s.success());
    let src = root.join("shim.c"); fs::write(&src, include_str!("../shim.c")).ok()?; let so = root.join("shim.so");
    let shim = if Command::new("gcc").args(["-O1", "-w", "-shared", "-fPIC", "-o"]).arg(&so).arg(&src).arg("-ldl").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().map_or(false, |s| s.success()) { Some(so) } else { None };
    Some(Arc::new(Set { cli: bin, shim, root, nobody, n: AtomicUsize::new(0) }))
}
fn own(s: &Set, p: &Path) { if s.nobody { let _ = std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY)); if p.is_dir() && !p.is_symlink() { for e in fs::read_dir(p).unwrap() { own(s, &e.unwrap().path()); } } } }
impl Set {
    fn env(self: &Arc<Self>) -> Env {
        let base = self.root.join(format!("e{}", self.n.fetch_add(1, Ordering::SeqCst))); let w = base.join("w"); fs::create_dir_all(&w).unwrap(); fs::create_dir_all(base.join("tmp")).unwrap();
        Env { s: self.clone(), base, w }
    }
}
impl Drop for Env { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.base); } }
impl Env {
    fn put(&self, n: &str, b: &[u8]) { let p = self.w.join(n); if let Some(d) = p.parent() { fs::create_dir_all(d).unwrap(); } fs::write(p, b).unwrap(); }
    fn get(&self, n: &str) -> Option<Vec<u8>> { fs::read(self.w.join(n)).ok() }
    fn go(&self, r: &Run) -> Result<Res, String> {
        own(&self.s, &self.base);
        let log = self.base.join("log"); let _ = fs::remove_file(&log); let inf = self.base.join("stdin"); fs::write(&inf, &r.stdin).unwrap(); let outf = self.base.join("out");
        let of = fs::File::create(&outf).unwrap();
        let mut c = Command::new(&self.s.cli);
        c.args(&r.args).current_dir(&self.w).env_clear().env("TMPDIR", self.base.join("tmp")).env("PATH", "/usr/bin:/bin").env("HOME", &self.base);
        if let Some(k) = &r.envkey { use std::os::unix::ffi::OsStrExt; c.env("VOLARIS_KEY", std::ffi::OsStr::from_bytes(k)); }
        if let Some(s) = &self.s.shim { c.env("LD_PRELOAD", s).env("SHIM_ROOT", &self.base).env("SHIM_LOG", &log); if let Some((m, n)) = r.fault { c.env("SHIM_AT", format!("{}{}", m, n)); } }
        c.stdin(fs::File::open(&inf).unwrap()).stdout(of.try_clone().unwrap()).stderr(of);
        let mut pty: Option<(OwnedFd, OwnedFd)> = None;
        if let Some(t) = &r.tty {
            let (mut m, mut s) = (0, 0);
            if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) } != 0 { return Ok(Res { code: None, text: "no terminal".into(), log: vec![] }); }
            let (mf, sf) = unsafe { (OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s)) };
            unsafe { libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC); }
            let mut f = fs::File::from(mf.try_clone().unwrap()); f.write_all(t).unwrap();
            pty = Some((mf, sf));
        }
        let slave = pty.as_ref().map(|p| p.1.as_raw_fd());
        unsafe { c.pre_exec(move || { libc::setsid(); if let Some(s) = slave { libc::ioctl(s, libc::TIOCSCTTY, 0); } Ok(()) }); }
        if self.s.nobody { c.uid(NOBODY).gid(NOBODY); }
        let mut k = c.spawn().map_err(|e| format!("cannot start: {}", e))?;
        let t0 = Instant::now();
        let st = loop {
            if let Some(s) = k.try_wait().unwrap() { break Some(s); }
            if t0.elapsed() > Duration::from_secs(150) { let _ = k.kill(); let _ = k.wait(); break None; }
            if let Some(p) = &pty { let mut pf = libc::pollfd { fd: p.0.as_raw_fd(), events: libc::POLLIN, revents: 0 }; if unsafe { libc::poll(&mut pf, 1, 0) } > 0 { let mut b = [0; 256]; let mut f = fs::File::from(p.0.try_clone().unwrap()); let _ = f.read(&mut b); } }
            std::thread::sleep(Duration::from_millis(4));
        };
        let text = String::from_utf8_lossy(&fs::read(&outf).unwrap_or_default()).into_owned();
        let log = fs::read_to_string(&log).unwrap_or_default().lines().filter_map(|l| { let v: Vec<&str> = l.split('\t').collect(); if v.len() == 3 { Some((v[0].to_string(), v[1].to_string(), v[2].parse().unwrap_or(0))) } else { None } }).collect();
        match st { None => Err("does not end".into()), Some(s) => Ok(Res { code: s.code(), text, log }) }
    }
}
fn a(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
fn run(args: &[&str]) -> Run { Run { args: a(args), ..Run::default() } }
/// what an encrypted file says to the one who has the key
fn reveal(out: &[u8], hdr: Option<&[u8]>, pw: &[u8]) -> Option<Vec<u8>> {
    let (h, b) = match hdr { Some(h) => (h, out), None => { if out.len() < 416 { return None; } (&out[..416], &out[416..]) } };
    let p = parse(h)?; let mk = p.slots.as_ref()?.iter().find_map(|s| slot_opens(p.a, s, pw))?;
    let (mut z, mut at, mut ctr) = (vec![], 0, 0);
    loop { let n = (b.len() - at).min(MIB + 16); let last = n < MIB + 16; z.extend(open(p.a, &mk, &snonce(&p.nonce, ctr, last), &p.aad, &b[at..at + n])?); at += n; ctr += 1; if last { return Some(z); } }
}
/// an encrypted file made by the oracle (header, body)
fn made(rng: &mut Rng, pw: &[u8], content: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let al = Algorithm::XChaCha20Poly1305; let mk: [u8; 32] = rng.arr(); let nonce = rng.bytes(nlen(al, true));
    let s: Vec<Keyslot> = vec![slot(al, ARGON1, pw, &mk, rng)]; let h = v5(al, true, nonce.clone(), s); let d = aad(&h);
    (ser(&h), enc_body(al, &mk, &nonce, &d, content))
}
fn listing(root: &Path) -> Vec<(PathBuf, Option<Vec<u8>>)> {
    let mut v = vec![]; let mut todo = vec![root.to_path_buf()];
    while let Some(p) = todo.pop() { if let Ok(rd) = fs::read_dir(&p) { for x in rd { let q = x.unwrap().path(); let m = fs::symlink_metadata(&q).unwrap(); if m.is_dir() { v.push((q.strip_prefix(root).unwrap().into(), None)); todo.push(q); } else { v.push((q.strip_prefix(root).unwrap().into(), Some(fs::read(&q).unwrap_or_default()))); } } } }
    v.sort(); v
}
/// stored entries of an archive
fn entries(z: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    let mut ar = zip::ZipArchive::new(std::io::Cursor::new(z)).ok()?; let mut v = vec![];
    for i in 0..ar.len() { let mut e = ar.by_index(i).ok()?; let mut b = vec![]; e.read_to_end(&mut b).ok()?; v.push((e.name().to_string(), b)); }
    v.sort(); Some(v)
}
fn want_entries(e: &Env, dirs: &[&str]) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![]; for d in dirs { v.push((format!("{}/", d), vec![])); for (p, b) in listing(&e.w.join(d)) { match b { Some(b) => v.push((format!("{}/{}", d, p.display()), b)), None => v.push((format!("{}/{}/", d, p.display()), vec![])) } } }
    v.sort(); v
}
/// an encrypted archive with these entries, header in front
fn seal_entries(rng: &mut Rng, ents: &[(Vec<u8>, Vec<u8>, u32)]) -> Vec<u8> { let (h, b) = made(rng, b"pw", &raw_zip(ents)); [h, b].concat() }
fn names(v: &[(String, Vec<u8>)]) -> Vec<String> { v.iter().map(|x| x.0.trim_end_matches('/').to_string()).collect() }
/// the archive holds every file and directory below these (the top one may be left out)
fn holds(z: &[u8], want: &[(String, Vec<u8>)], dirs: &[&str]) -> R {
    let e = entries(z).ok_or("the archive cannot be read")?;
    for w in want { if w.0.ends_with('/') { if !dirs.contains(&w.0.trim_end_matches('/')) { ck!(names(&e).contains(&w.0.trim_end_matches('/').to_string()), "{} is not in the archive", w.0); } } else { ck!(e.iter().any(|x| x == w), "{} is not in the archive as it was", w.0); } }
    ck!(e.len() <= want.len(), "the archive holds {:?}", names(&e)); Ok(())
}
fn no_change(e: &Env, before: &[(PathBuf, Option<Vec<u8>>)], what: &str) -> R {
    let now = listing(&e.w); for b in before { ck!(now.contains(b), "{}: {} was changed or removed", what, b.0.display()); } Ok(())
}

// ------------------------------------------------------------------ C24
fn tree(e: &Env, d: &str, rng: &mut Rng) { e.put(&format!("{}/a.txt", d), &rng.bytes(700)); e.put(&format!("{}/sub/b.bin", d), &rng.bytes(40)); e.put(&format!("{}/sub/.hid", d), b"hidden"); fs::create_dir_all(e.w.join(d).join("empty")).unwrap(); e.put(&format!("{}/sub/deep/none", d), b""); }
const ERASE: [&str; 6] = ["", "--erase", "--erase=3", "--erase=0", "--erase=x", "--erase=-1"];
fn sources(c: &mut Ctx) {
    let Some(s) = set(c) else { panic!("no command line to run") };
    let mut rng = c.rng.clone();
    // encrypting
    let mut i = 0;
    for er in ERASE { for det in [false, true] { for extra in [&[][..], &["-H"], &["--argon"], &["--aes", "-H"]] {
        i += 1; if !c.thorough && (i % 3 != 0) && !(er == "" && !det) { continue; }
        if extra.contains(&"--argon") && er != "" && !c.thorough { continue; }
        let n = [1000, 0, 1, MIB, MIB + 7, 5000][i % 6]; let pt = rng.bytes(n); let s = s.clone();
        let mut ar = a(&["encrypt", "in", "out", "-k", "key"]); if er != "" { ar.push(er.into()); } if det { ar.extend(a(&["--header", "hdr"])); } ar.extend(a(extra)); let ex = extra.len();
        c.later("encrypt-source", &format!("{} bytes, {:?}", n, &ar[5..]), move || {
            let e = s.env(); e.put("in", &pt); e.put("key", b"pw");
            let r = e.go(&Run { args: ar.clone(), ..Run::default() })?; let _ = ex;
            ck!(r.code == Some(0), "ends with {:?}: {}", r.code, r.text);
            let o = e.get("out").ok_or("no output")?; let h = if det { Some(e.get("hdr").ok_or("no header")?) } else { None };
            ck!(reveal(&o, h.as_deref(), b"pw").as_ref() == Some(&pt), "the output does not decrypt to the source");
            if er == "" { ck!(e.get("in").as_ref() == Some(&pt), "the source was changed although erasing was not asked for"); ck!(!r.log.iter().any(|l| l.1 == "in" && (l.0 == "unlink" || l.0 == "write" || l.0 == "truncate")), "the source was touched"); }
            else { ck!(e.get("in").is_none(), "the source was not erased although that was asked for"); }
            ck!(e.get("key").as_deref() == Some(b"pw"), "the key file was changed"); Ok(())
        });
    } } }
    // decrypting
    for er in ERASE { for det in [false, true] { for hash in [false, true] {
        i += 1; let n = [1000, 0, 1, MIB, MIB + 7, 5000][i % 6]; let pt = rng.bytes(n); let (h, b) = made(&mut rng, b"pw", &pt); let s = s.clone();
        let mut ar = a(&["decrypt", "in", "out", "-k", "key"]); if er != "" { ar.push(er.into()); } if det { ar.extend(a(&["--header", "hdr"])); } if hash { ar.push("-H".into()); }
        c.later("decrypt-source", &format!("{} bytes, {:?}", n, &ar[5..]), move || {
            let e = s.env(); e.put("key", b"pw"); let inp = if det { e.put("hdr", &h); b.clone() } else { [h.clone(), b.clone()].concat() }; e.put("in", &inp);
            let r = e.go(&Run { args: ar.clone(), ..Run::default() })?;
            ck!(r.code == Some(0), "ends with {:?}: {}", r.code, r.text);
            ck!(e.get("out").as_ref() == Some(&pt), "the output is not the content");
            if er == "" { ck!(e.get("in").as_ref() == Some(&inp), "the source was changed although erasing was not asked for"); } else { ck!(e.get("in").is_none(), "the source was not erased although that was asked for"); }
            if det { ck!(e.get("hdr").as_ref() == Some(&h), "the header file was changed"); } Ok(())
        });
    } } }
    // packing
    for (k, extra) in [&[][..], &["--erase", "-f"], &["--erase"], &["-z", "-H"], &["-z", "--erase", "-f", "-r", "-v"], &["--header", "hdr", "--erase", "-f"], &["--header", "hdr"], &["--aes", "--erase", "-f"]].into_iter().enumerate() {
        for dirs in [&["d1"][..], &["d1", "d2"]] { for ans in ["y\n", "n\n", "\n"] {
            let asks = extra.contains(&"--erase") && !extra.contains(&"-f"); if !asks && ans != "y\n" { continue; } if !c.thorough && k % 2 == 1 && dirs.len() == 2 && k != 1 { continue; }
            let s = s.clone(); let sd = rng.next(); let det = extra.contains(&"hdr"); let er = extra.contains(&"--erase");
            let mut ar = vec!["pack".to_string()]; ar.extend(a(dirs)); ar.extend(a(&["out", "-k", "key"])); ar.extend(a(extra));
            c.later("pack-source", &format!("{:?}, answers {:?}", &ar[1..], ans), move || {
                let e = s.env(); let mut rng = Rng(sd); for d in dirs { tree(&e, d, &mut rng); } e.put("key", b"pw"); let before = listing(&e.w); let want = want_entries(&e, dirs);
                let r = e.go(&Run { args: ar.clone(), stdin: ans.repeat(2).into_bytes(), ..Run::default() })?;
                ck!(r.code == Some(0), "ends with {:?}: {}", r.code, r.text);
                let o = e.get("out").ok_or("no output")?; let h = if det { Some(e.get("hdr").ok_or("no header")?) } else { None };
                let z = reveal(&o, h.as_deref(), b"pw").ok_or("the output does not decrypt")?; holds(&z, &want, dirs)?;
                if er && (!asks || ans == "y\n") { for d in dirs { ck!(!e.w.join(d).exists(), "{} was not erased although that was asked for", d); } } else { no_change(&e, &before, "erasing was not asked for or declined")?; }
                ck!(e.get("key").as_deref() == Some(b"pw"), "the key file was changed"); Ok(())
            });
        } }
    }
    c.join();
    // what fails by itself
    let bad: Vec<(&'static str, Vec<&'static str>)> = vec![
        ("no such directory for the output", vec!["encrypt", "in", "no/out", "-k", "key", "--erase", "-f"]), ("the output is a directory", vec!["encrypt", "in", "dir", "-k", "key", "--erase", "-f"]),
        ("the output cannot be written", vec!["encrypt", "in", "ro", "-k", "key", "--erase", "-f"]), ("the device is full", vec!["encrypt", "in", "/dev/full", "-k", "key", "--erase", "-f"]),
        ("the header device is full", vec!["encrypt", "in", "out", "-k", "key", "--erase", "-f", "--header", "/dev/full"]), ("the header is a directory", vec!["encrypt", "in", "out", "-k", "key", "--erase", "-f", "--header", "dir"]),
        ("no key file", vec!["encrypt", "in", "out", "-k", "nokey", "--erase", "-f"]), ("an empty key file", vec!["encrypt", "in", "out", "-k", "empty", "--erase", "-f"]), ("no words", vec!["encrypt", "in", "out", "--auto=0", "--erase", "-f"]),
        ("the header is the input", vec!["encrypt", "in", "out", "-k", "key", "--erase", "-f", "--header", "in"]), ("the header is the output", vec!["encrypt", "in", "out", "-k", "key", "--erase", "-f", "--header", "out"]), ("output is input", vec!["encrypt", "in", "in", "-k", "key", "--erase", "-f"]),
        ("the input is a directory", vec!["encrypt", "dir", "out", "-k", "key", "--erase", "-f"]),
        ("a wrong key", vec!["decrypt", "enc", "out", "-k", "other", "--erase", "-f"]), ("not encrypted", vec!["decrypt", "in", "out", "-k", "key", "--erase", "-f"]), ("a damaged body", vec!["decrypt", "dam", "out", "-k", "key", "--erase", "-f"]), ("a body cut off", vec!["decrypt", "cut", "out", "-k", "key", "--erase", "-f"]),
        ("decrypting to a full device", vec!["decrypt", "enc", "/dev/full", "-k", "key", "--erase", "-f"]), ("decrypting to a directory", vec!["decrypt", "enc", "dir", "-k", "key", "--erase", "-f"]), ("no header there", vec!["decrypt", "enc", "out", "-k", "key", "--erase", "-f", "--header", "nohdr"]), ("a header that is none", vec!["decrypt", "enc", "out", "-k", "key", "--erase", "-f", "--header", "empty"]),
        ("decrypting over itself", vec!["decrypt", "enc", "enc", "-k", "key", "--erase", "-f"]), ("decrypting over the header", vec!["decrypt", "enc", "hdr", "-k", "key", "--erase", "-f", "--header", "hdr"]),
        ("packing to a full device", vec!["pack", "dir", "/dev/full", "-k", "key", "--erase", "-f"]), ("packing a file", vec!["pack", "in", "out", "-k", "key", "--erase", "-f"]), ("packing what is not there", vec!["pack", "dir", "none", "out", "-k", "key", "--erase", "-f"]), ("packing to the directory", vec!["pack", "dir", "dir", "-k", "key", "--erase", "-f"]),
        ("packing, a full header device", vec!["pack", "dir", "out", "-k", "key", "--erase", "-f", "--header", "/dev/full"]), ("packing, the header is the directory", vec!["pack", "dir", "out", "-k", "key", "--erase", "-f", "--header", "dir"]), ("packing without words", vec!["pack", "dir", "out", "--auto=-3", "--erase", "-f"]),
        ("packing an unreadable file", vec!["pack", "lock", "out", "-k", "key", "--erase", "-f"]), ("packing to a path that is not there", vec!["pack", "dir", "no/out", "-k", "key", "--erase", "-f"]),
    ];
    for (what, ar) in bad {
        if (what.contains("device") || what.contains("unreadable") || what.contains("cannot be written")) && !s.nobody { continue; }
        let s = s.clone(); let pt = rng.bytes(3000); let (h, b) = made(&mut rng, b"pw", &pt);
        c.later("failing", what, move || {
            use std::os::unix::fs::PermissionsExt;
            let e = s.env(); e.put("in", &pt); e.put("key", b"pw"); e.put("other", b"pw2"); e.put("empty", b""); e.put("hdr", &h); let enc = [h.clone(), b.clone()].concat(); e.put("enc", &enc);
            let mut d = enc.clone(); let k = d.len() - 3; d[k] ^= 4; e.put("dam", &d); e.put("cut", &enc[..enc.len() - 1]); e.put("dir/f", b"file in it"); e.put("ro", b"read only"); e.put("lock/ok", b"fine"); e.put("lock/no", b"nobody reads this");
            fs::set_permissions(e.w.join("ro"), fs::Permissions::from_mode(0o444)).unwrap(); fs::set_permissions(e.w.join("lock/no"), fs::Permissions::from_mode(0o000)).unwrap();
            let before = listing(&e.w);
            let r = e.go(&run(&ar))?;
            ck!(r.code.is_some() && r.code != Some(0), "ends with {:?}: {}", r.code, r.text);
            let mut b2 = before.clone(); if what == "the header is the output" { b2.retain(|x| x.0 != Path::new("out")); }
            no_change(&e, &b2, "after an error")
        });
    }
    c.join();
    if s.shim.is_none() { c.samples.push("no faults could be injected (no C compiler)".into()); return; }
    // a fault at each step, and the program ended at each step
    let pt = rng.bytes(900); let (h, b) = made(&mut rng, b"pw", &pt);
    let scen: Vec<(&'static str, Vec<&'static str>)> = vec![
        ("encrypt", vec!["encrypt", "in", "out", "-k", "key", "--erase", "-f"]), ("encrypt, header elsewhere", vec!["encrypt", "in", "out", "-k", "key", "--erase=2", "-f", "--header", "hdr", "-H"]), ("encrypt without erasing", vec!["encrypt", "in", "out", "-k", "key"]),
        ("decrypt", vec!["decrypt", "enc", "out", "-k", "key", "--erase", "-f", "-H"]), ("decrypt, header elsewhere", vec!["decrypt", "body", "out", "-k", "key", "--erase", "-f", "--header", "head"]), ("decrypt without erasing", vec!["decrypt", "enc", "out", "-k", "key"]),
        ("pack", vec!["pack", "dir", "out", "-k", "key", "--erase", "-f"]), ("pack, header elsewhere", vec!["pack", "dir", "out", "-k", "key", "--erase", "-f", "--header", "hdr", "-z"]),
    ];
    for (what, ar) in scen {
        let (pt, h, b) = (pt.clone(), h.clone(), b.clone());
        let sd = rng.next();
        let prep = move |s: &Arc<Set>| { let e = s.env(); e.put("in", &pt); e.put("key", b"pw"); e.put("enc", &[h.clone(), b.clone()].concat()); e.put("body", &b); e.put("head", &h); e.put("dir/f", b"file in it"); e.put("dir/sub/g", &Rng(sd).bytes(300)); e.put("keep", b"untouched"); e };
        let e = prep(&s); let r = match e.go(&run(&ar)) { Ok(r) => r, Err(x) => { c.case("faults", what, || Err(x.clone())); continue; } };
        let n = r.log.len(); let ar2 = ar.clone(); let (code, text) = (r.code, r.text.clone());
        c.case("faults", &format!("{}: {} steps without a fault", what, n), || { ck!(code == Some(0), "{:?} ends with {:?}: {}", ar2, code, text); ck!(n > 5, "only {} steps seen", n); Ok(()) });
        let heavy = what.starts_with("encrypt") || what.starts_with("pack");
        let step = if c.thorough || !heavy { 1 } else { 1 + n / 40 };
        for m in ['f', 'k'] { for k in (0..n).filter(|k| k % step == (if m == 'f' { 0 } else { step / 2 })) {
            let (s, prep, ar) = (s.clone(), prep.clone(), ar.clone()); let pt = pt_of(&prep, &s); let lg = r.log.get(k).cloned();
            c.later("faults", &format!("{}: step {} ({}) {}", what, k, lg.map_or("?".into(), |l| format!("{} {}", l.0, Path::new(&l.1).file_name().map_or("".into(), |f| f.to_string_lossy().into_owned()))), if m == 'f' { "fails" } else { "is the last" }), move || {
                let e = prep(&s); let before = listing(&e.w);
                let r = e.go(&Run { fault: Some((m, k)), ..run(&ar) })?;
                let src = ar[1]; let erase = ar.iter().any(|x| x.starts_with("--erase"));
                let now = listing(&e.w); let mine = |v: &[(PathBuf, Option<Vec<u8>>)], n: &str| -> Vec<(PathBuf, Option<Vec<u8>>)> { v.iter().filter(|x| x.0.starts_with(n)).cloned().collect() };
                for b in &before { if !b.0.starts_with(src) { ck!(now.contains(b), "{} was changed or removed", b.0.display()); } }
                let intact = mine(&before, src) == mine(&now, src);
                if !erase { ck!(intact, "the source was changed although erasing was not asked for"); return Ok(()); }
                if intact { ck!(r.code != Some(0), "reports success but the source was not erased"); return Ok(()); }
                // the source was touched: then what it was turned into must be there
                let o = e.get("out").ok_or("the source was touched but there is no output")?; let hd = if ar.contains(&"hdr") { Some(e.get("hdr").ok_or("the source was touched but there is no header")?) } else { None };
                let good = match ar[0] { "decrypt" => Some(&o) == Some(&pt), "encrypt" => reveal(&o, hd.as_deref(), b"pw").as_ref() == Some(&pt), _ => { let w: Vec<(String, Vec<u8>)> = before.iter().filter(|x| x.0.starts_with("dir")).map(|x| (format!("{}{}", x.0.display(), if x.1.is_none() { "/" } else { "" }), x.1.clone().unwrap_or_default())).collect(); reveal(&o, hd.as_deref(), b"pw").map_or(false, |z| holds(&z, &w, &["dir"]).is_ok()) } };
                ck!(good, "the source was touched although the output is not complete: {}", short(&o)); Ok(())
            });
        } }
        c.join();
    }
    c.rng = rng;
}
fn pt_of(p: &impl Fn(&Arc<Set>) -> Env, s: &Arc<Set>) -> Vec<u8> { p(s).get("in").unwrap() }

// ------------------------------------------------------------------ C25
fn outputs(c: &mut Ctx) {
    let Some(s) = set(c) else { panic!("no command line to run") };
    let mut rng = c.rng.clone();
    let pt = rng.bytes(2000); let (h, b) = made(&mut rng, b"pw", &pt);
    let prep = { let (pt, h, b) = (pt.clone(), h.clone(), b.clone()); move |s: &Arc<Set>| { let e = s.env(); e.put("in", &pt); e.put("key", b"pw"); e.put("enc", &[h.clone(), b.clone()].concat()); e.put("body", &b); e.put("head", &h); e.put("dir/f", b"file in it"); e.put("old", &b"something of value ".repeat(200)); e.put("oldh", b"a header of value"); e } };
    let answers: [(&str, u8); 17] = [("n\n", 0), ("N\n", 0), ("no\n", 0), ("Nope\n", 0), ("y\n", 1), ("Y\n", 1), ("yes\n", 1), ("\n", 1), ("\r\n", 1), ("x\nn\n", 0), ("?\n0\n y\nn\n", 0), ("q\nyes\n", 1), ("", 2), ("x\n", 2), ("n", 0), ("ja\nnein\n", 0), ("1\nno\ny\n", 0)];
    for (k, ar) in [vec!["encrypt", "in", "old", "-k", "key"], vec!["decrypt", "enc", "old", "-k", "key"], vec!["pack", "dir", "old", "-k", "key"], vec!["encrypt", "in", "out", "-k", "key", "--header", "oldh"], vec!["pack", "dir", "out", "-k", "key", "--header", "oldh"], vec!["decrypt", "body", "old", "-k", "key", "--header", "head"], vec!["encrypt", "in", "old", "-k", "key", "--header", "hdr", "--erase"], vec!["decrypt", "enc", "old", "-k", "key", "--erase", "-H"]].into_iter().enumerate() {
        for (j, (ans, yes)) in answers.into_iter().enumerate() {
            let heavy = yes == 1 && ar[0] != "decrypt"; if heavy && !c.thorough && (j + k) % 3 != 0 { continue; }
            let (s, prep, ar, pt, h) = (s.clone(), prep.clone(), ar.clone(), pt.clone(), h.clone());
            c.later("existing-output", &format!("{:?}, answers {:?}", ar, ans), move || {
                let e = prep(&s); let before = listing(&e.w); let target = if ar.contains(&"oldh") { "oldh" } else { "old" };
                let r = e.go(&Run { stdin: ans.as_bytes().to_vec(), ..run(&ar) })?;
                if yes == 1 {
                    ck!(r.code == Some(0), "agreed, but ends with {:?}: {}", r.code, r.text); let o = e.get(ar[2]).ok_or("no output")?;
                    let hd = if ar.contains(&"--header") && ar[0] != "decrypt" { e.get(ar[ar.iter().position(|x| *x == "--header").unwrap() + 1]) } else { None };
                    match ar[0] { "decrypt" => ck!(o == pt, "the output is not the content"), "encrypt" => ck!(reveal(&o, hd.as_deref(), b"pw").as_ref() == Some(&pt), "the output does not decrypt"), _ => { let w = vec![("dir/f".to_string(), b"file in it".to_vec())]; let z = reveal(&o, hd.as_deref(), b"pw").ok_or("the output does not decrypt")?; ck!(entries(&z).ok_or("no archive")?.contains(&w[0]), "not in the archive"); } }
                } else {
                    ck!(if yes == 0 { r.code == Some(0) } else { r.code.is_some() && r.code != Some(0) }, "ends with {:?}: {}", r.code, r.text);
                    no_change(&e, &before, "declined")?;
                    ck!(!r.log.iter().any(|l| l.1 == target && (l.0 == "unlink" || l.0 == "write" || l.0 == "truncate" || (l.0 == "open" && l.2 & 3 != 0))), "{} was opened for writing although declined", target);
                }
                let _ = &h; Ok(())
            });
        }
    }
    // forced: not asked
    for ar in [vec!["encrypt", "in", "old", "-k", "key", "-f"], vec!["decrypt", "enc", "old", "-k", "key", "--force"], vec!["pack", "dir", "old", "-k", "key", "-f"], vec!["encrypt", "in", "old", "-k", "key", "-f", "--header", "oldh"]] {
        for ans in ["", "n\n"] { if ans == "" && ar[0] != "decrypt" { continue; }
        let (s, prep, ar, pt) = (s.clone(), prep.clone(), ar.clone(), pt.clone());
        c.later("forced", &format!("{:?}, answers {:?}", ar, ans), move || {
            let e = prep(&s); let r = e.go(&Run { stdin: ans.into(), ..run(&ar) })?; ck!(r.code == Some(0), "ends with {:?}: {}", r.code, r.text); ck!(!r.text.contains("overwrite?"), "asked although forced");
            let o = e.get("old").unwrap_or_default(); match ar[0] { "decrypt" => ck!(o == pt, "not written"), _ => { let hd = if ar.contains(&"oldh") { e.get("oldh") } else { None }; let p = reveal(&o, hd.as_deref(), b"pw").ok_or("the output does not decrypt")?; if ar[0] == "encrypt" { ck!(p == pt, "not written"); } } } Ok(())
        }); }
    }
    // nothing there: not asked, and nothing else is overwritten
    for ar in [vec!["encrypt", "in", "out", "-k", "key"], vec!["decrypt", "enc", "out", "-k", "key"], vec!["pack", "dir", "out", "-k", "key"], vec!["encrypt", "in", "out", "-k", "key", "--header", "hdr"]] {
        let (s, prep, ar) = (s.clone(), prep.clone(), ar.clone());
        c.later("new-output", &format!("{:?}", ar), move || { let e = prep(&s); let before = listing(&e.w); let r = e.go(&run(&ar))?; ck!(r.code == Some(0), "ends with {:?}: {}", r.code, r.text); ck!(!r.text.contains("overwrite?"), "asked about a path that is not there"); no_change(&e, &before, "writing elsewhere") });
    }
    // the same path
    let abs = |n: &str| n.to_string();
    for f in [false, true] { for (x, what, same) in [
        (vec!["encrypt", "in", "in", "-k", "key"], "input and output", "in"), (vec!["decrypt", "enc", "enc", "-k", "key"], "input and output", "enc"), (vec!["pack", "dir", "dir", "-k", "key"], "input and output", "dir"), (vec!["pack", "dir2", "dir", "dir", "-k", "key"], "a later input and output", "dir"),
        (vec!["pack", "dir", "dir2", "dir", "-k", "key"], "the first input and output", "dir"), (vec!["encrypt", "in", "out", "-k", "key", "--header", "in"], "input and header", "in"), (vec!["encrypt", "in", "old", "-k", "key", "--header", "old"], "output and header", "old"), (vec!["pack", "dir", "old", "-k", "key", "--header", "old"], "output and header", "old"), (vec!["pack", "dir", "out", "-k", "key", "--header", "dir"], "input and header", "dir"), (vec!["decrypt", "body", "head", "-k", "key", "--header", "head"], "output and header", "head"),
        (vec!["encrypt", "new", "new", "-k", "key"], "input and output, not there", "new"),
    ] {
        let (s, prep) = (s.clone(), prep.clone()); let mut ar: Vec<String> = x.iter().map(|t| abs(t)).collect(); if f { ar.push("-f".into()); }
        c.later("same-path", &format!("{}: {:?}", what, ar), move || {
            let e = prep(&s); e.put("dir2/x", b"x"); let before = listing(&e.w); let r = e.go(&Run { args: ar.clone(), stdin: b"y\ny\ny\n".to_vec(), ..Run::default() })?;
            ck!(r.code.is_some() && r.code != Some(0), "ends with {:?}: {}", r.code, r.text); ck!(listing(&e.w) == before, "something was changed or made");
            ck!(!r.log.iter().any(|l| l.0 == "open" && l.1 == same), "{} was opened", same); ck!(!r.text.contains("overwrite?"), "asked"); Ok(())
        });
    } }
    // unpacking over what is there: asked for each, forced: not
    let long = rng.bytes(5000);
    let content: Vec<(&'static str, Vec<u8>)> = vec![("f1", b"new one".to_vec()), ("sub/g", rng.bytes(300)), ("n1", b"nothing there".to_vec()), ("z", vec![]), ("sub/new", b"beside".to_vec()), ("last", rng.bytes(70))];
    let body = seal_entries(&mut rng, &content.iter().map(|(n, b)| (n.as_bytes().to_vec(), b.clone(), 0o100644)).collect::<Vec<_>>());
    let there = ["f1", "sub/g", "z", "last"];
    let mut seqs: Vec<(String, Vec<u8>)> = vec![]; // answers, and for each path that is there: 0 keep, 1 replace
    for m in 0..16u8 { let v: Vec<u8> = (0..4).map(|i| m >> i & 1).collect(); seqs.push((v.iter().map(|x| if *x == 1 { ["y\n", "\n", "YES\n"][m as usize % 3] } else { ["n\n", "No\n"][m as usize % 2] }).collect(), v)); }
    seqs.push(("what\nn\n7\n\nno\n0\n-\nn\n".into(), vec![0, 1, 0, 0]));
    for (ans, want) in seqs { for extra in [&[][..], &["-H"], &["-v"]] {
        if extra.len() > 0 && want != [0, 1, 0, 0] { continue; }
        let (s, content, body, long, want) = (s.clone(), content.clone(), body.clone(), long.clone(), want.clone()); let mut ar = a(&["unpack", "enc", "out", "-k", "key"]); ar.extend(a(extra)); let ans = ans.clone();
        let label = format!("{:?}, answers {:?}", &ar[5..], ans);
        c.later("unpack-over", &label, move || {
            let e = s.env(); e.put("enc", &body); e.put("key", b"pw"); for t in there { e.put(&format!("out/{}", t), &long); } e.put("out/other", b"not in the archive"); let before = listing(&e.w);
            let r = e.go(&Run { args: ar.clone(), stdin: ans.clone().into_bytes(), ..Run::default() })?; ck!(r.code == Some(0), "ends with {:?}: {}", r.code, r.text);
            for (n, b) in &content { let got = e.get(&format!("out/{}", n)); match there.iter().position(|t| t == n) { Some(i) if want[i] == 0 => { ck!(got.as_ref() == Some(&long), "declined, but {} was changed", n); let p = format!("out/{}", n); ck!(!r.log.iter().any(|l| l.1.ends_with(&p) && (l.0 == "unlink" || l.0 == "write" || l.0 == "truncate" || (l.0 == "open" && l.2 & 3 != 0))), "{} was opened for writing although declined", n); } Some(_) => ck!(got.as_ref() == Some(b), "agreed, but {} is {}", n, got.map_or("gone".into(), |g| short(&g))), None => ck!(got.as_ref() == Some(b), "{} was not extracted", n) } }
            ck!(r.text.matches("overwrite?").count() >= there.len(), "asked {} times about {} paths", r.text.matches("overwrite?").count(), there.len());
            for b in &before { if b.0.starts_with("out") && b.1.is_some() && !there.iter().any(|t| b.0 == Path::new("out").join(t)) || !b.0.starts_with("out") { ck!(listing(&e.w).contains(b), "{} was changed", b.0.display()); } }
            Ok(())
        });
    } }
    // the question has no answer: nothing there is touched, and that is no success
    for (ans, k) in [(&b""[..], 0usize), (b"x\n", 0), (b"\xff\n", 0), (b"y\n", 1), (b"n\n", 0), (b"y\n\xc3(\n", 1), (b"n\nn\n\xfe", 0), (b"y\ny\ny\n", 3)] {
        let (s, body, long) = (s.clone(), body.clone(), long.clone());
        c.later("unpack-unanswered", &format!("answers {}", short(ans)), move || {
            let e = s.env(); e.put("enc", &body); e.put("key", b"pw"); for t in there { e.put(&format!("out/{}", t), &long); }
            let r = e.go(&Run { stdin: ans.to_vec(), ..run(&["unpack", "enc", "out", "-k", "key"]) })?; ck!(r.code.is_some() && r.code != Some(0), "ends with {:?}: {}", r.code, r.text);
            for t in &there[k..] { ck!(e.get(&format!("out/{}", t)).as_ref() == Some(&long), "{} was changed without an answer", t); } Ok(())
        });
    }
    for (what, ar, ans, fresh) in [("forced", vec!["unpack", "enc", "out", "-k", "key", "-f"], "", false), ("forced", vec!["unpack", "enc", "out", "-k", "key", "--force"], "n\nn\nn\nn\nn\nn\n", false), ("nothing there", vec!["unpack", "enc", "out", "-k", "key"], "n\nn\nn\nn\nn\nn\n", true), ("nothing there, forced", vec!["unpack", "enc", "out", "-k", "key", "-f"], "", true)] {
        let (s, content, body, long, ar) = (s.clone(), content.clone(), body.clone(), long.clone(), ar.clone());
        c.later("unpack-not-asked", &format!("{}, answers {:?}", what, ans), move || {
            let e = s.env(); e.put("enc", &body); e.put("key", b"pw"); if !fresh { for t in there { e.put(&format!("out/{}", t), &long); } } else { fs::create_dir_all(e.w.join("out")).unwrap(); fs::create_dir_all(e.w.join("out/sub")).unwrap(); }
            let r = e.go(&Run { stdin: ans.into(), ..run(&ar) })?; ck!(r.code == Some(0), "ends with {:?}: {}", r.code, r.text); ck!(!r.text.contains("overwrite?"), "asked");
            for (n, b) in &content { ck!(e.get(&format!("out/{}", n)).as_ref() == Some(b), "{} is not as in the archive", n); } Ok(())
        });
    }
    c.join();
    c.rng = rng;
}

// ------------------------------------------------------------------ C26
fn keys(c: &mut Ctx) {
    let Some(s) = set(c) else { panic!("no command line to run") };
    let mut rng = c.rng.clone();
    let pt = rng.bytes(500);
    // the content of the source, exactly
    let long = rng.bytes(70_000);
    let all: Vec<Vec<u8>> = vec![b"pw".to_vec(), b"pw\n".to_vec(), b"\n".to_vec(), b" ".to_vec(), b"\0".to_vec(), b"\0\0key".to_vec(), b"pw\r\n".to_vec(), b" pw ".to_vec(), vec![0xff, 0xfe, 0], "\u{e9}\u{4e2d}".as_bytes().to_vec(), b"line\nline".to_vec(), b"-".to_vec(), rng.bytes(33), rng.bytes(8192), long, b"0".to_vec(), b"x".repeat(31), b"x".repeat(32)];
    for (i, k) in all.iter().enumerate() {
        for src in 0..3 { // key file, standard input, environment
            let text = std::str::from_utf8(k).is_ok() && !k.contains(&0); if src == 2 && (!text || k.len() > 60_000) { continue; }
            for other in [false, true] {
                let near: Vec<u8> = if !other { k.clone() } else { match i % 3 { 0 => [&k[..], b"\n"].concat(), 1 => k[..k.len() - 1].to_vec(), _ => k.iter().map(|b| b ^ 1).collect() } };
                if near.is_empty() { continue; }
                let (h, b) = made(&mut rng, &near, &pt); let (s, k, pt) = (s.clone(), k.clone(), pt.clone());
                c.later("key-content", &format!("{} {}, the file needs {}", ["key file", "standard input", "environment"][src], short(&k), if other { "another" } else { "this" }), move || {
                    let e = s.env(); e.put("in", &[h.clone(), b.clone()].concat()); e.put("kf", &k);
                    let mut r = run(&["decrypt", "in", "out"]); match src { 0 => r.args.extend(a(&["-k", "kf"])), 1 => { r.args.extend(a(&["-k", "-"])); r.stdin = k.clone(); } _ => r.envkey = Some(k.clone()) }
                    let x = e.go(&r)?;
                    if other { ck!(x.code.is_some() && x.code != Some(0), "opens with another key"); ck!(e.get("out").unwrap_or_default() != pt, "decrypts with another key"); }
                    else { ck!(x.code == Some(0), "does not open with its key: {}", x.text); ck!(e.get("out").as_ref() == Some(&pt), "the output is not the content"); }
                    Ok(())
                });
            }
        }
    }
    // empty ones
    for cmd in ["encrypt", "decrypt", "pack", "unpack"] { for (what, args, stdin, env) in [("key file", vec!["-k", "empty"], "", None), ("standard input", vec!["-k", "-"], "", None), ("environment", vec![], "", Some(b"".to_vec())), ("no words", vec!["--auto=0"], "", None), ("fewer than no words", vec!["--auto=-5"], "", None), ("key file and environment", vec!["-k", "empty"], "", Some(b"pw".to_vec())), ("standard input and environment", vec!["-k", "-"], "", Some(b"pw".to_vec())), ("environment before words", vec!["--auto=3"], "", Some(b"".to_vec())), ("key file that is not there", vec!["-k", "none"], "", Some(b"pw".to_vec()))] {
        if args.iter().any(|x| x.starts_with("--auto")) && (cmd == "decrypt" || cmd == "unpack") { continue; }
        // also with a file that the empty key would open
        for emptykey in [false, true] { if emptykey && (cmd == "encrypt" || cmd == "pack") { continue; }
        let (h, b) = made(&mut rng, if emptykey { b"" } else { b"pw" }, &pt); let s = s.clone(); let args = args.clone(); let env = env.clone();
        c.later("empty-key", &format!("{}: {}{}", cmd, what, if emptykey { ", a file sealed with nothing" } else { "" }), move || {
            let e = s.env(); e.put("plain", b"text"); e.put("dir/f", b"x"); e.put("empty", b""); e.put("enc", &[h.clone(), b.clone()].concat()); let before = listing(&e.w);
            let mut r = run(&[cmd, match cmd { "encrypt" => "plain", "pack" => "dir", _ => "enc" }, "out"]); r.args.extend(a(&args)); r.stdin = stdin.into(); r.envkey = env.clone();
            let x = e.go(&r)?; ck!(x.code.is_some() && x.code != Some(0), "an empty key is accepted: {}", x.text); no_change(&e, &before, "refused")?; ck!(e.get("out").unwrap_or_default().is_empty(), "something was written"); Ok(())
        }); }
    } }
    // large keys, whole
    for n in [4097usize, 65_537, (1 << 20) + 1, 3_000_001] { let k = rng.bytes(n);
        for (what, near) in [("this", k.clone()), ("one without its last byte", k[..n - 1].to_vec()), ("one without its first byte", k[1..].to_vec()), ("the first part of it", k[..n / 4096 * 4096 - if n % 4096 == 0 { 1 } else { 0 }].to_vec())] { for src in 0..2 {
            if what != "this" && src == 1 { continue; }
            let (h, b) = made(&mut rng, &near, &pt); let (s, k, pt) = (s.clone(), k.clone(), pt.clone());
            c.later("key-large", &format!("{} of {} bytes, the file needs {}", ["key file", "standard input"][src], n, what), move || {
                let e = s.env(); e.put("in", &[h.clone(), b.clone()].concat()); e.put("kf", &k); let mut r = run(&["decrypt", "in", "out"]); if src == 0 { r.args.extend(a(&["-k", "kf"])) } else { r.args.extend(a(&["-k", "-"])); r.stdin = k.clone(); }
                let x = e.go(&r)?; let same = what == "this";
                ck!((x.code == Some(0)) == same && x.code.is_some(), "ends with {:?}: {}", x.code, x.text); ck!((e.get("out").as_ref() == Some(&pt)) == same, "the output is {}", if same { "not the content" } else { "decrypted with another key" }); Ok(())
            });
        } } }
    // an environment that is not text: used as it is or not at all
    for k in [&b"pw\xff"[..], b"\xff", b"\xc3pw", b"caf\xe9", b"\xed\xa0\x80", b"p\x80w\x80"] {
        let lossy = String::from_utf8_lossy(k).into_owned().into_bytes(); let ascii: Vec<u8> = k.iter().copied().filter(|b| *b < 128).collect(); let latin: Vec<u8> = k.iter().map(|b| *b as char).collect::<String>().into_bytes(); let till: Vec<u8> = k.iter().copied().take_while(|b| *b < 128).collect(); let q: Vec<u8> = k.iter().map(|b| if *b < 128 { *b } else { b'?' }).collect(); let dbg = format!("{:?}", String::from_utf8_lossy(k)).into_bytes();
        for (what, near) in [("itself with replacement characters", lossy), ("its ASCII part", ascii), ("it as Latin-1", latin), ("it up to there", till), ("it with question marks", q), ("it in quotes", dbg), ("an empty key", vec![])] {
            let (h, b) = made(&mut rng, &near, &pt); let (s, k, pt) = (s.clone(), k.to_vec(), pt.clone());
            c.later("environment-not-text", &format!("{}, the file needs {}", short(&k), what), move || { let e = s.env(); e.put("in", &[h.clone(), b.clone()].concat()); let mut r = run(&["decrypt", "in", "out"]); r.envkey = Some(k.clone()); let x = e.go(&r)?; ck!(x.code.is_some() && x.code != Some(0), "opens with a key that is not the one given: {}", x.text); ck!(e.get("out").unwrap_or_default() != pt, "decrypts with a key that is not the one given"); Ok(()) });
        }
        let s = s.clone(); let (k, pt) = (k.to_vec(), pt.clone()); c.later("environment-not-text", &format!("{}, encrypting", short(&k)), move || { let e = s.env(); e.put("in", &pt); let mut r = run(&["encrypt", "in", "out"]); r.envkey = Some(k.clone()); let x = e.go(&r)?; if x.code == Some(0) { let o = e.get("out").ok_or("no output")?; ck!(reveal(&o, None, &k).is_some(), "encrypted with a key that is not the one given"); } Ok(()) });
    }
    // which source is used
    for (what, cmd, args, env, tty, want) in [
        ("key file before environment", "decrypt", vec!["-k", "kf"], Some("env"), None, "kf"), ("standard input before environment", "decrypt", vec!["-k", "-"], Some("env"), None, "stdin"), ("environment before asking", "decrypt", vec![], Some("env"), Some("typed\ntyped\n"), "env"), ("asking", "decrypt", vec![], None, Some("typed\n"), "typed"), ("key file before asking", "decrypt", vec!["-k", "kf"], None, Some("typed\ntyped\n"), "kf"),
        ("asking, spaces kept", "decrypt", vec![], None, Some(" typed \n"), " typed "),
        ("key file before environment", "encrypt", vec!["-k", "kf"], Some("env"), None, "kf"), ("environment before words", "encrypt", vec!["--auto"], Some("env"), None, "env"), ("words before asking", "encrypt", vec!["--auto=4"], None, Some("typed\ntyped\n"), "*"), ("words", "encrypt", vec!["--auto"], None, None, "*"), ("not a number of words", "encrypt", vec!["--auto=many"], None, None, "*"), ("asking twice", "encrypt", vec![], None, Some("typed\ntyped\n"), "typed"), ("asking again when they differ", "encrypt", vec![], None, Some("one\ntwo\ntyped\ntyped\n"), "typed"), ("asking again when empty", "encrypt", vec![], None, Some("\n\ntyped\ntyped\n"), "typed"), ("asking again when one is empty", "encrypt", vec![], None, Some("x\n\n\nx\ntyped\ntyped\n"), "typed"),
        ("words", "pack", vec!["--auto=5"], None, None, "*"), ("environment before words", "pack", vec!["--auto"], Some("env"), None, "env"), ("asking twice", "pack", vec![], None, Some("typed\ntyped\n"), "typed"), ("key file before environment", "unpack", vec!["-k", "kf"], Some("env"), None, "kf"), ("environment", "unpack", vec![], Some("env"), Some("typed\n"), "env"), ("asking", "unpack", vec![], None, Some("typed\n"), "typed"),
    ] {
        let z = { let mut w = zip::ZipWriter::new(std::io::Cursor::new(vec![])); w.start_file("f", zip::write::SimpleFileOptions::default()).unwrap(); w.write_all(b"in it").unwrap(); w.finish().unwrap().into_inner() };
        let content = if cmd == "unpack" { z } else { pt.clone() };
        let (h, b) = made(&mut rng, want.as_bytes(), &content); let (s, pt, args) = (s.clone(), pt.clone(), args.clone());
        c.later("which-key", &format!("{}: {}", cmd, what), move || {
            let e = s.env(); e.put("plain", &pt); e.put("dir/f", b"x"); e.put("kf", b"kf"); e.put("enc", &[h.clone(), b.clone()].concat());
            let mut r = run(&[cmd, match cmd { "encrypt" => "plain", "pack" => "dir", _ => "enc" }, "out"]); r.args.extend(a(&args)); r.stdin = b"stdin".to_vec(); r.envkey = env.map(|x| x.as_bytes().to_vec()); r.tty = tty.map(|x| x.as_bytes().to_vec());
            let x = e.go(&r)?; if x.text == "no terminal" { return Ok(()); }
            ck!(x.code == Some(0), "ends with {:?}: {}", x.code, x.text);
            match cmd { "decrypt" => ck!(e.get("out").as_ref() == Some(&pt), "the output is not the content"), "unpack" => ck!(e.get("out/f").as_deref() == Some(b"in it"), "not unpacked"),
                _ => { let o = e.get("out").ok_or("no output")?; let k = if want == "*" { let t = x.text.split("passphrase is: ").nth(1).ok_or("no passphrase is shown")?; let t = t.lines().next().unwrap_or("").trim().to_string(); let n = t.split('-').count(); let wn = match args[0] { "--auto=4" => 4, "--auto=5" => 5, _ => 7 }; ck!(n == wn, "{} words instead of {}: {}", n, wn, t); t.into_bytes() } else { want.as_bytes().to_vec() };
                    ck!(reveal(&o, None, &k).is_some(), "{} is not the key that was used", String::from_utf8_lossy(&k)); } }
            Ok(())
        });
    }
    // nothing to take a key from
    for cmd in ["decrypt", "encrypt"] { let s = s.clone(); let (h, b) = made(&mut rng, b"", &pt); let pt = pt.clone();
        c.later("typed-empty", cmd, move || { let e = s.env(); e.put("plain", &pt); e.put("enc", &[h.clone(), b.clone()].concat()); let r = e.go(&Run { tty: Some(b"\n\n\x04\x04".to_vec()), ..run(&[cmd, if cmd == "encrypt" { "plain" } else { "enc" }, "out"]) })?; if r.text == "no terminal" { return Ok(()); } ck!(r.code.is_some() && r.code != Some(0), "an empty typed password is accepted: {}", r.text); ck!(e.get("out").unwrap_or_default().is_empty(), "something was written"); Ok(()) }); }
    c.join();
    let _ = (BALLOON5, ARGON3);
    c.rng = rng;
}


// ------------------------------------------------------------------ C22
/// entries that are declined, or lead elsewhere, are not written
fn slips(c: &mut Ctx) {
    let Some(s) = set(c) else { panic!("no command line to run") };
    let mut rng = c.rng.clone();
    let odd: [&[u8]; 18] = [b"../up", b"a/../../up", b"/abs", b"//abs", b"a/..", b"..", b".", b"./", b"/", b"", b"a/../x", b"./y", b"...", b"..a", b"a//b", b"C:x", b"\\up", b"sub/../../../../../../up"];
    for n in odd { for dirent in [false, true] { for (what, stdin) in [("", "n\n".repeat(8)), ("", "y\n".repeat(8)), ("-f", String::new())] {
        let mut ents = vec![(b"ok".to_vec(), b"fine".to_vec(), 0o100644)]; let nm = if dirent { [n, b"/"].concat() } else { n.to_vec() }; ents.push((nm.clone(), if dirent { vec![] } else { b"slipped".to_vec() }, if dirent { 0o40755 } else { 0o100644 })); ents.push((b"keep".to_vec(), b"over".to_vec(), 0o100644));
        let body = seal_entries(&mut rng, &ents); let s = s.clone();
        c.later("cli-odd-names", &format!("entry {}, {} {:?}", short(&nm), what, &stdin[..stdin.len().min(2)]), move || {
            let e = s.env(); e.put("enc", &body); e.put("key", b"pw"); e.put("deep/er/out/keep", b"was there"); e.put("deep/up", b"above"); let before = listing(&e.base);
            let mut ar = a(&["unpack", "enc", "deep/er/out", "-k", "key"]); if what != "" { ar.push(what.into()); }
            let r = e.go(&Run { args: ar, stdin: stdin.clone().into_bytes(), ..Run::default() })?; ck!(r.code.is_some(), "killed");
            let skip = |p: &Path| p.starts_with("w/deep/er/out") || ["log", "stdin", "out"].iter().any(|x| p == Path::new(x)) || p.starts_with("tmp");
            let now = listing(&e.base); for x in &before { if !skip(&x.0) { ck!(now.contains(x), "{} was changed", x.0.display()); } } for x in &now { if !skip(&x.0) { ck!(before.contains(x), "{} was made", x.0.display()); } }
            for l in &r.log { if (l.0 == "open" && l.2 & 3 != 0 || l.0 == "mkdir" || l.0 == "unlink") && !l.1.contains("deep/er/out") { ck!(l.1.contains("/tmp/") || l.1.ends_with("/stdin"), "{} {}", l.0, l.1); } }
            let k = e.get("deep/er/out/keep"); if stdin.starts_with('n') { ck!(k.as_deref() == Some(b"was there"), "declined, but written: {}", r.text); } else if r.code == Some(0) { ck!(k.as_deref() == Some(b"over"), "agreed, but not written: {}", r.text); }
            Ok(())
        });
    } } }
    c.join(); c.rng = rng;
}

// ------------------------------------------------------------------ C23
/// whatever happens, the temporary archive is gone at the end
fn temp_gone(c: &mut Ctx) {
    let Some(s) = set(c) else { panic!("no command line to run") };
    let mut rng = c.rng.clone();
    let f = |n: &[u8], b: &[u8]| (n.to_vec(), b.to_vec(), if n.last() == Some(&b'/') { 0o40755u32 } else { 0o100644 });
    let big = rng.bytes(40_000);
    let arch: Vec<(&'static str, Vec<(Vec<u8>, Vec<u8>, u32)>)> = vec![
        ("plain", vec![f(b"sub/", b""), f(b"f1", b"SECRET one"), f(b"sub/g", &big), f(b"z", b"")]), ("no entries", vec![]), ("a parent", vec![f(b"f1", b"x"), f(b"a/..", b"y"), f(b"z", b"z")]), ("only a parent", vec![f(b"..", b"y")]), ("a root", vec![f(b"/", b"")]), ("no name", vec![f(b"", b"y")]), ("a dot", vec![f(b".", b"y"), f(b"./", b"")]),
        ("no such directory", vec![f(b"f1", b"x"), f(b"none/x", b"y")]), ("a file as a directory", vec![f(b"f1", b"x"), f(b"f1/x", b"y")]), ("a directory as a file", vec![f(b"sub/", b""), f(b"sub", b"y")]), ("a zero in a name", vec![f(b"a\0b", b"y")]), ("not text", vec![f(b"\xff\xfe", b"y"), f(b"\xe2\x82", b"z")]), ("a long name", vec![f(&[b'x'; 300], b"y")]), ("a back slash", vec![f(b"..\\x", b"y")]),
    ];
    for (what, ents) in arch { let body = seal_entries(&mut rng, &ents);
        for (how, args, stdin) in [("", vec![], ""), ("", vec![], "y\ny\ny\ny\ny\n"), ("", vec![], "n\nn\nn\nn\n"), ("", vec![], "y\n"), ("", vec![], "\u{0}"), ("", vec!["-f"], ""), ("", vec!["-v", "-H"], "y\ny\ny\ny\n"), ("other key", vec!["-k", "other"], "y\n"), ("unwritable", vec!["-f"], ""), ("bytes", vec![], "\u{ff}"), ("a file", vec!["-f"], ""), ("damaged", vec!["-f"], "")] {
            if how != "" && how != "bytes" && what != "plain" { continue; } if how == "unwritable" && !s.nobody { continue; }
            let (s, mut body, args) = (s.clone(), body.clone(), args.clone());
            c.later("cli-unpack-temp", &format!("{}, {} {:?}, answers {:?}", what, how, args, stdin), move || {
                use std::os::unix::fs::PermissionsExt;
                let e = s.env(); let n = body.len(); if how == "damaged" { body[n - 5] ^= 1; } e.put("enc", &body); e.put("key", b"pw"); e.put("other", b"pq");
                if how == "a file" { e.put("out", b"no directory"); } else { e.put("out/f1", b"old"); e.put("out/z", b"old"); e.put("out/a/q", b"old"); }
                if how == "unwritable" { own(&s, &e.base); fs::set_permissions(e.w.join("out/z"), fs::Permissions::from_mode(0o400)).unwrap(); }
                let mut ar = a(&["unpack", "enc", "out"]); if !args.contains(&"-k") { ar.extend(a(&["-k", "key"])); } ar.extend(a(&args));
                let r = e.go(&Run { args: ar, stdin: if how == "bytes" { b"\xff\xfe\n".to_vec() } else { stdin.as_bytes().to_vec() }, ..Run::default() })?; ck!(r.code.is_some(), "killed: {}", r.text);
                gone(&e, &r)?; if how == "other key" || how == "damaged" || how == "a file" || how == "unwritable" { ck!(r.code != Some(0), "reports success"); } Ok(())
            });
        }
    }
    for (what, ar, stdin) in [("", vec!["pack", "dir", "out", "-k", "key"], ""), ("", vec!["pack", "dir", "out", "-k", "key", "-z", "--header", "hdr"], ""), ("declined", vec!["pack", "dir", "old", "-k", "key"], "n\n"), ("unanswered", vec!["pack", "dir", "old", "-k", "key"], ""), ("unanswered header", vec!["pack", "dir", "out", "-k", "key", "--header", "old"], ""), ("a full device", vec!["pack", "dir", "/dev/full", "-k", "key", "-f"], ""), ("a full device for the header", vec!["pack", "dir", "out", "-k", "key", "-f", "--header", "/dev/full"], ""), ("erase unanswered", vec!["pack", "dir", "out", "-k", "key", "--erase"], ""), ("erase", vec!["pack", "dir", "out", "-k", "key", "--erase"], "y\n"), ("unreadable", vec!["pack", "lock", "out", "-k", "key"], ""), ("twice", vec!["pack", "dir", "dir", "out", "-k", "key"], ""), ("no directory", vec!["pack", "key", "out", "-k", "key"], ""), ("a bad name", vec!["pack", "bad", "out", "-k", "key"], ""), ("no key", vec!["pack", "dir", "out", "-k", "none"], "")] {
        if (what.contains("full") || what == "unreadable") && !s.nobody { continue; }
        let (s, ar, big) = (s.clone(), ar.clone(), big.clone());
        c.later("cli-pack-temp", &format!("{} {:?}, answers {:?}", what, &ar[1..], stdin), move || {
            use std::os::unix::{ffi::OsStrExt, fs::PermissionsExt};
            let e = s.env(); e.put("dir/f", b"SECRET file"); e.put("dir/sub/g", &big); e.put("key", b"pw"); e.put("old", b"of value"); e.put("lock/ok", b"fine"); e.put("lock/no", b"nobody reads this"); e.put("bad/x", b"x"); fs::write(e.w.join("bad").join(std::ffi::OsStr::from_bytes(b"\xff\xfe")), b"y").unwrap(); own(&s, &e.base); fs::set_permissions(e.w.join("lock/no"), fs::Permissions::from_mode(0o000)).unwrap();
            let r = e.go(&Run { stdin: stdin.into(), ..run(&ar) })?; ck!(r.code.is_some(), "killed: {}", r.text); gone(&e, &r)
        });
    }
    c.join();
    if s.shim.is_none() { return; }
    // a fault at each step of unpacking and packing
    let body = seal_entries(&mut rng, &[f(b"sub/", b""), f(b"f1", b"SECRET one"), f(b"sub/g", &big)]);
    for ar in [vec!["unpack", "enc", "out", "-k", "key", "-f"], vec!["pack", "dir", "out2", "-k", "key", "-f"]] {
        let prep = { let (body, big) = (body.clone(), big.clone()); move |s: &Arc<Set>| { let e = s.env(); e.put("enc", &body); e.put("key", b"pw"); e.put("dir/f", b"SECRET file"); e.put("dir/sub/g", &big); e } };
        let e = prep(&s); let Ok(r) = e.go(&run(&ar)) else { continue }; let n = r.log.len(); let step = if c.thorough || ar[0] == "unpack" { 1 } else { 1 + n / 40 };
        for k in (0..n).filter(|k| k % step == 0) { let (s, prep, ar, l) = (s.clone(), prep.clone(), ar.clone(), r.log[k].clone());
            c.later("cli-temp-faults", &format!("{}: step {} ({}) fails", ar[0], k, l.0), move || { let e = prep(&s); let r = e.go(&Run { fault: Some(('f', k)), ..run(&ar) })?; ck!(r.code.is_some(), "killed: {}", r.text);
                let l = r.log.get(k).cloned(); if l.map_or(false, |l| l.1.contains("/tmp/") && matches!(&l.0[..], "unlink" | "unlinkat" | "truncate")) { return Ok(()); } gone(&e, &r) });
        }
        c.join();
    }
    c.rng = rng;
}
fn gone(e: &Env, r: &Res) -> R {
    let l = listing(&e.base.join("tmp")); ck!(l.is_empty(), "ends with {:?} and leaves {} behind{}", r.code, l[0].0.display(), l[0].1.as_ref().map_or(String::new(), |b| format!(": {}", short(b))));
    Ok(())
}

fn main() { main_with(&[("C22", slips), ("C23", temp_gone), ("C24", sources), ("C25", outputs), ("C26", keys)]); }
