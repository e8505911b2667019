// Models of the standard library and of third-party crates, as contracts on stand-ins.  Everything
// marked external_body or axiom here is an assumption; the battery runs the real thing.
pub mod model {
    use vstd::prelude::*;
    pub enum Ev { Write(nat, Seq<u8>), Flush, SetLen(nat) }
    /// content d after writing b at position p
    pub open spec fn splice(d: Seq<u8>, p: nat, b: Seq<u8>) -> Seq<u8> {
        if b.len() == 0 { d } else {
            Seq::new((if d.len() >= p + b.len() { d.len() } else { p + b.len() }) as nat,
              |i: int| if p <= i < p + b.len() { b[i - p] } else if i < d.len() { d[i] } else { 0u8 })
        }
    }
    /// e is d after writing some prefix of x at p
    pub open spec fn partial(d: Seq<u8>, p: nat, x: Seq<u8>, e: Seq<u8>) -> bool {
        exists|k: int| 0 <= k <= x.len() && e == splice(d, p, #[trigger] x.take(k))
    }
    pub broadcast proof fn splice_splice(d: Seq<u8>, p: nat, a: Seq<u8>, b: Seq<u8>)
        ensures #[trigger] splice(splice(d, p, a), p + a.len(), b) == splice(d, p, a + b)
    { assert(splice(splice(d, p, a), p + a.len(), b) =~= splice(d, p, a + b)); }
    pub broadcast proof fn add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
        ensures #[trigger] ((a + b) + c) == a + (b + c)
    { assert(((a + b) + c) =~= a + (b + c)); }
    pub broadcast proof fn add_empty_l(a: Seq<u8>)
        ensures #[trigger] (Seq::<u8>::empty() + a) == a
    { assert((Seq::<u8>::empty() + a) =~= a); }
    pub broadcast proof fn add_empty_r(a: Seq<u8>)
        ensures #[trigger] (a + Seq::<u8>::empty()) == a
    { assert((a + Seq::<u8>::empty()) =~= a); }
    pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
    pub open spec fn all_zero(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
    pub open spec fn from(d: Seq<u8>, p: nat) -> Seq<u8> { if p <= d.len() { d.subrange(p as int, d.len() as int) } else { Seq::empty() } }
    /// the bytes come from the random generator
    pub uninterp spec fn drawn(s: Seq<u8>) -> bool;
    pub broadcast proof fn add_take_skip(a: Seq<u8>, b: Seq<u8>)
        ensures (#[trigger] (a + b)).take(a.len() as int) == a, (a + b).skip(a.len() as int) == b
    { assert((a + b).take(a.len() as int) =~= a); assert((a + b).skip(a.len() as int) =~= b); }
    pub broadcast proof fn sub_sub(s: Seq<u8>, a: int, b: int, c: int, d: int)
        requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
        ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
    { assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
    pub broadcast proof fn sub_full(s: Seq<u8>, n: int)
        requires n == s.len()
        ensures #[trigger] s.subrange(0, n) == s
    { assert(s.subrange(0, n) =~= s); }
    pub broadcast group group_seq { add_empty_l, add_empty_r, sub_sub, sub_full }
    pub broadcast group group_model { splice_splice, sub_full, add_empty_l, add_empty_r, add_take_skip }
}
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>) ensures r@ == v@;
#[verifier::external_body]
pub fn drop_<T>(x: T) { unimplemented!() }
#[verifier::external_body]
pub fn slice_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@), r ==> a@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn unreachable_() -> ! requires false { unimplemented!() }
/// a panic, caught and gone on with: an operation that returns gives what it gives
pub mod panic {
    use vstd::prelude::*;
    pub struct Panicked {}
    pub struct AssertUnwindSafe {}
    pub fn catch_unwind() {}
    pub fn caught_<T>(x: T) -> (r: Result<T, Panicked>) ensures r == Ok::<T, Panicked>(x) { Ok(x) }
    #[verifier::external_body] pub fn resume_unwind(p: Panicked) -> ! { unimplemented!() }
}
pub struct TryFromIntError;
pub trait TryInto_<T>: Sized {
    spec fn val_(self) -> int;
    spec fn fits_(self) -> bool;
    spec fn of_(t: T) -> int;
    fn try_into_(self) -> (r: Result<T, TryFromIntError>)
        ensures match r { Ok(t) => Self::of_(t) == self.val_(), Err(_) => !self.fits_() };
}
impl TryInto_<i64> for u64 {
    open spec fn val_(self) -> int { self as int }
    open spec fn fits_(self) -> bool { self <= i64::MAX }
    open spec fn of_(t: i64) -> int { t as int }
    fn try_into_(self) -> (r: Result<i64, TryFromIntError>) { if self <= i64::MAX as u64 { Ok(self as i64) } else { Err(TryFromIntError) } }
}
impl TryInto_<usize> for u64 {
    open spec fn val_(self) -> int { self as int }
    open spec fn fits_(self) -> bool { true }
    open spec fn of_(t: usize) -> int { t as int }
    fn try_into_(self) -> (r: Result<usize, TryFromIntError>) { Ok(self as usize) }
}
pub fn all_zero_(v: &[u8]) -> (r: bool) ensures r == model::all_zero(v@)
{
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> v@[j] == 0 decreases v@.len() - i
    { if v[i] != 0 { return false; } i += 1; }
    true
}
pub fn exec_assert(b: bool) requires b {}
/// write!(s, "{b:02x}")
#[verifier::external_body]
pub fn push_hex_(s: &mut String, b: u8)
    ensures final(s)@ == old(s)@.push(blake3::digit(b as int / 16)).push(blake3::digit(b as int % 16))
{ unimplemented!() }

/// the specification vocabulary, visible everywhere
pub mod s {
    pub use super::aead::{Alg, seal, unseal, nonce_len, stream_nonce, MAX_CTR, MAX_LEN};
    pub use super::io::{Stream, same_but_pos, same_stream, wrote, wrote_part};
    pub use super::rand::picked;
    pub use super::TryInto_;
}
pub mod anyhow {
    use vstd::prelude::*;
    #[derive(Debug)]
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub type Result<T, E = Error> = core::result::Result<T, E>;
    #[verifier::external_body]
    pub fn mk() -> (r: Error) { unimplemented!() }
    /// an error a callback leaves for later
    pub struct Later { x: u8 }
    impl Later { #[verifier::external_body] pub fn new() -> Later { unimplemented!() } #[verifier::external_body] pub fn take(&self) -> Option<Error> { unimplemented!() } }
    pub trait Context<T>: Sized {
        spec fn ok_val(self) -> Option<T>;
        fn context(self, c: &str) -> (r: Result<T, Error>)
          ensures match r { Ok(v) => self.ok_val() == Some(v), Err(_) => self.ok_val() is None };
    }
    impl<T, E> Context<T> for core::result::Result<T, E> {
        open spec fn ok_val(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
        #[verifier::external_body]
        fn context(self, c: &str) -> (r: Result<T, Error>) { unimplemented!() }
    }
    impl<T> Context<T> for Option<T> {
        open spec fn ok_val(self) -> Option<T> { self }
        #[verifier::external_body]
        fn context(self, c: &str) -> (r: Result<T, Error>) { unimplemented!() }
    }
    /// what can be wrapped
    pub trait Wrap {}
    impl Wrap for super::io::Error {}
    impl<E: Wrap> core::convert::From<E> for Error {
        #[verifier::external_body]
        fn from(e: E) -> (r: Error) { unimplemented!() }
    }
}

pub mod fmt {
    use vstd::prelude::*;
    #[derive(Debug)]
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    #[verifier::external_body]
    pub struct Formatter<'a> { x: &'a u8 }
    /// what has been written
    impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    impl<'a> Formatter<'a> {
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures match r { Ok(_) => final(self)@ == old(self)@ + s@, Err(_) => exists|n: int| 0 <= n <= s@.len() && #[trigger] s@.take(n) == s@.take(n) && final(self)@ == old(self)@ + s@.take(n) }
        { unimplemented!() }
    }
}
pub mod words {
    use vstd::prelude::*;
    use super::model::*;
    /// the built-in list, one entry per line
    pub uninterp spec fn text() -> Seq<char>;
    pub uninterp spec fn lines(t: Seq<char>) -> Seq<Seq<char>>;
    pub open spec fn entries() -> Seq<Seq<char>> { lines(text()) }
    #[verifier::external_body]
    pub fn wordlist_() -> (r: &'static str)
        ensures r@ == text(), entries().len() == WORDLIST_LINES
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lines_<'a>(t: &'a str) -> (r: Vec<&'a str>)
        ensures r@.len() == lines(t@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines(t@)[i]
    { unimplemented!() }
}
pub mod zeroize {
    use vstd::prelude::*;
    pub trait Zeroize {
        spec fn wiped(&self, pre: &Self) -> bool;
        fn zeroize(&mut self) ensures final(self).wiped(old(self));
    }
    impl Zeroize for Vec<u8> {
        open spec fn wiped(&self, pre: &Self) -> bool { self@.len() == 0 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
    impl Zeroize for String {
        open spec fn wiped(&self, pre: &Self) -> bool { self@.len() == 0 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
    impl<const N: usize> Zeroize for [u8; N] {
        open spec fn wiped(&self, pre: &Self) -> bool { forall|i: int| 0 <= i < N ==> self@[i] == 0 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
    impl Zeroize for Box<[u8]> {
        open spec fn wiped(&self, pre: &Self) -> bool { self@.len() == pre@.len() && forall|i: int| 0 <= i < self@.len() ==> self@[i] == 0 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
}

pub mod io {
    use vstd::prelude::*;
    use super::model::*;
    #[derive(PartialEq, Eq, Clone, Copy, Debug)]
    pub enum ErrorKind { UnexpectedEof, Interrupted, WriteZero, NotFound, PermissionDenied, AlreadyExists, InvalidData, InvalidInput, Other }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o } }
    #[derive(Debug)]
    pub struct Error { pub k: ErrorKind }
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    /// a byte stream: content, position, whether its operations may fail, and what was done to it
    pub trait Stream: Sized {
        spec fn data(&self) -> Seq<u8>;
        spec fn pos(&self) -> nat;
        spec fn faulty(&self) -> bool;
        spec fn log(&self) -> Seq<Ev>;
        spec fn id(&self) -> int;
    }
    pub open spec fn same_but_pos<S: Stream>(a: &S, b: &S) -> bool {
        a.data() == b.data() && a.log() == b.log() && a.faulty() == b.faulty() && a.id() == b.id()
    }
    pub open spec fn same_stream<S: Stream>(a: &S, b: &S) -> bool { same_but_pos(a, b) && a.pos() == b.pos() }
    pub trait Read: Stream {
        fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
            ensures
              same_but_pos(old(self), final(self)),
              final(buf)@.len() == old(buf)@.len(),
              match r {
                Ok(n) => n <= old(buf)@.len() && final(self).pos() == old(self).pos() + n
                    && (n > 0 ==> old(self).pos() + n <= old(self).data().len())
                    && (forall|i: int| 0 <= i < n ==> final(buf)@[i] == old(self).data()[old(self).pos() + i])
                    && (n == 0 ==> old(buf)@.len() == 0 || old(self).pos() >= old(self).data().len()),
                Err(_) => old(self).faulty(),
              };
        fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
            ensures
              same_but_pos(old(self), final(self)),
              final(buf)@.len() == old(buf)@.len(),
              match r {
                Ok(_) => old(self).pos() + old(buf)@.len() <= old(self).data().len() + (if old(buf)@.len() == 0 { old(self).pos() as int } else { 0 })
                    && final(self).pos() == old(self).pos() + old(buf)@.len()
                    && (old(buf)@.len() > 0 ==> final(buf)@ == old(self).data().subrange(old(self).pos() as int, (old(self).pos() + old(buf)@.len()) as int)),
                Err(e) => (old(self).faulty() && !(e.k is UnexpectedEof)) || (old(buf)@.len() > 0 && old(self).pos() + old(buf)@.len() > old(self).data().len() && e.k == ErrorKind::UnexpectedEof),
              };
        fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
            ensures
              same_but_pos(old(self), final(self)),
              match r {
                Ok(n) => final(buf)@ == old(buf)@ + from(old(self).data(), old(self).pos()) && n == from(old(self).data(), old(self).pos()).len()
                    && final(self).pos() == old(self).pos() + n,
                Err(_) => old(self).faulty(),
              };
    }
    pub open spec fn wrote<S: Stream>(a: &S, b: &S, x: Seq<u8>) -> bool {
        b.data() == splice(a.data(), a.pos(), x) && b.pos() == a.pos() + x.len() && b.log() == a.log().push(Ev::Write(a.pos(), x))
    }
    /// a write that failed half-way: some prefix arrived
    pub open spec fn wrote_part<S: Stream>(a: &S, b: &S, x: Seq<u8>) -> bool {
        partial(a.data(), a.pos(), x, b.data())
    }
    pub trait Write: Stream {
        fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
            ensures
              final(self).faulty() == old(self).faulty(), final(self).id() == old(self).id(),
              match r {
                Ok(n) => n <= buf@.len() && wrote(old(self), final(self), buf@.take(n as int)),
                Err(_) => old(self).faulty() && final(self).data() == old(self).data() && final(self).pos() == old(self).pos(),
              };
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
            ensures
              final(self).faulty() == old(self).faulty(), final(self).id() == old(self).id(),
              match r {
                Ok(_) => wrote(old(self), final(self), buf@),
                Err(_) => old(self).faulty() && wrote_part(old(self), final(self), buf@),
              };
        fn flush(&mut self) -> (r: Result<()>)
            ensures final(self).faulty() == old(self).faulty(), final(self).id() == old(self).id(),
              final(self).data() == old(self).data(), final(self).pos() == old(self).pos(),
              match r { Ok(_) => final(self).log() == old(self).log().push(Ev::Flush), Err(_) => old(self).faulty() && final(self).log() == old(self).log() };
    }
    pub open spec fn seek_target(data: Seq<u8>, pos: nat, s: SeekFrom) -> int {
        match s { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => data.len() + n, SeekFrom::Current(n) => pos + n }
    }
    pub trait Seek: Stream {
        fn seek(&mut self, s: SeekFrom) -> (r: Result<u64>)
            ensures
              same_but_pos(old(self), final(self)),
              match r {
                Ok(n) => final(self).pos() == seek_target(old(self).data(), old(self).pos(), s) && n == final(self).pos(),
                Err(_) => (old(self).faulty() || seek_target(old(self).data(), old(self).pos(), s) < 0) && final(self).pos() == old(self).pos(),
              };
        fn rewind(&mut self) -> (r: Result<()>)
            ensures
              same_but_pos(old(self), final(self)),
              match r { Ok(_) => final(self).pos() == 0, Err(_) => old(self).faulty() && final(self).pos() == old(self).pos() };
    }
    pub use super::terminal::{stdin, stdout};
    /// buffering a stream changes nothing, once the buffer has been emptied
    pub struct BufWriter { x: u8 }
    impl BufWriter { pub fn new<T>(t: T) -> (r: T) ensures r == t { t } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Cursor<T> { x: core::marker::PhantomData<T> }
    impl<T> Stream for Cursor<T> {
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn pos(&self) -> nat;
        uninterp spec fn faulty(&self) -> bool;
        uninterp spec fn log(&self) -> Seq<Ev>;
        uninterp spec fn id(&self) -> int;
    }
    impl Cursor<Vec<u8>> {
        #[verifier::external_body]
        pub fn new(v: Vec<u8>) -> (r: Self) ensures r.data() == v@, r.pos() == 0, !r.faulty() { unimplemented!() }
    }
    impl<T> Read for Cursor<T> {
        #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
    }
    impl<T> Seek for Cursor<T> {
        #[verifier::external_body] fn seek(&mut self, s: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
        #[verifier::external_body] fn rewind(&mut self) -> (r: Result<()>) { unimplemented!() }
    }
}

pub mod aead {
    use vstd::prelude::*;
    #[derive(Debug)]
    pub struct Error;
    pub type Result<T> = core::result::Result<T, Error>;
    pub struct Payload<'msg, 'aad> { pub msg: &'msg [u8], pub aad: &'aad [u8] }
    pub trait IntoPayload<'msg, 'aad> { spec fn pmsg(&self) -> Seq<u8>; spec fn paad(&self) -> Seq<u8>; }
    impl<'msg, 'aad> IntoPayload<'msg, 'aad> for Payload<'msg, 'aad> {
        open spec fn pmsg(&self) -> Seq<u8> { self.msg@ }
        open spec fn paad(&self) -> Seq<u8> { self.aad@ }
    }
    impl<'msg> IntoPayload<'msg, 'static> for &'msg [u8] {
        open spec fn pmsg(&self) -> Seq<u8> { (*self)@ }
        open spec fn paad(&self) -> Seq<u8> { Seq::empty() }
    }
    #[derive(PartialEq, Eq, Clone, Copy)]
    pub enum Alg { Aes, XChaCha, Deoxys }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Alg { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Alg) -> bool { *self == *o } }
    pub open spec fn nonce_len(a: Alg) -> nat { match a { Alg::Aes => 12, Alg::XChaCha => 24, Alg::Deoxys => 15 } }
    pub uninterp spec fn seal(alg: Alg, key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn unseal(alg: Alg, key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, c: Seq<u8>) -> Option<Seq<u8>>;
    /// correctness and tidiness of the AEADs: opening succeeds exactly on what sealing produces
    pub broadcast axiom fn seal_len(alg: Alg, key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, msg: Seq<u8>)
        ensures #[trigger] seal(alg, key, nonce, aad, msg).len() == msg.len() + 16;
    pub broadcast axiom fn unseal_seal(alg: Alg, key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, msg: Seq<u8>)
        ensures #[trigger] unseal(alg, key, nonce, aad, seal(alg, key, nonce, aad, msg)) == Some(msg);
    pub broadcast axiom fn seal_unseal(alg: Alg, key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, c: Seq<u8>)
        ensures (#[trigger] unseal(alg, key, nonce, aad, c)) matches Some(m) ==> c == seal(alg, key, nonce, aad, m);
    pub broadcast proof fn unseal_len(alg: Alg, key: Seq<u8>, nonce: Seq<u8>, aad: Seq<u8>, c: Seq<u8>)
        ensures (#[trigger] unseal(alg, key, nonce, aad, c)) matches Some(m) ==> c.len() == m.len() + 16
    { if let Some(m) = unseal(alg, key, nonce, aad, c) { seal_unseal(alg, key, nonce, aad, c); seal_len(alg, key, nonce, aad, m); } }
    pub broadcast group group_aead { seal_len, unseal_seal, seal_unseal, unseal_len }
    /// nonce of block `ctr` in the LE31 STREAM construction
    pub open spec fn stream_nonce(prefix: Seq<u8>, ctr: nat, last: bool) -> Seq<u8> {
        prefix + seq![(ctr % 256) as u8, ((ctr / 256) % 256) as u8, ((ctr / 65536) % 256) as u8, ((ctr / 16777216) % 128 + if last { 128int } else { 0int }) as u8]
    }
    pub spec const MAX_CTR: nat = 0xfff_ffff;
    pub spec const MAX_LEN: nat = 0xffff_ffff;
    pub trait AeadAlg: Sized {
        spec fn alg() -> Alg;
        spec fn key(&self) -> Seq<u8>;
    }
    pub trait KeyInit: AeadAlg {
        fn new_from_slice(key: &[u8]) -> (r: core::result::Result<Self, Error>)
           ensures r is Ok <==> key@.len() == 32, r matches Ok(c) ==> c.key() == key@;
    }
    pub trait Aead: AeadAlg {
        fn encrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>)
            requires nonce@.len() == nonce_len(Self::alg())
            ensures match r { Ok(v) => v@ == seal(Self::alg(), self.key(), nonce@, p.paad(), p.pmsg()), Err(_) => p.pmsg().len() > MAX_LEN || p.paad().len() > MAX_LEN };
        fn decrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>)
            requires nonce@.len() == nonce_len(Self::alg())
            ensures match r { Ok(v) => unseal(Self::alg(), self.key(), nonce@, p.paad(), p.pmsg()) == Some(v@),
                 Err(_) => unseal(Self::alg(), self.key(), nonce@, p.paad(), p.pmsg()) is None || p.pmsg().len() > MAX_LEN || p.paad().len() > MAX_LEN };
    }
    #[verifier::external_body]
    pub struct Buffer { x: u8 }
    impl View for Buffer { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    pub trait AeadInPlace: AeadAlg {
        fn encrypt_in_place(&self, nonce: &[u8], aad: &[u8], b: &mut Buffer) -> (r: Result<()>)
            requires nonce@.len() == nonce_len(Self::alg())
            ensures match r { Ok(_) => final(b)@ == seal(Self::alg(), self.key(), nonce@, aad@, old(b)@), Err(_) => true };
    }
    pub struct Aes256Gcm { pub k: Ghost<Seq<u8>> }
    pub struct XChaCha20Poly1305 { pub k: Ghost<Seq<u8>> }
    pub struct DeoxysII256 { pub k: Ghost<Seq<u8>> }
    impl AeadAlg for Aes256Gcm {
        open spec fn alg() -> Alg { Alg::Aes }
        open spec fn key(&self) -> Seq<u8> { self.k@ }
    }
    impl AeadAlg for XChaCha20Poly1305 {
        open spec fn alg() -> Alg { Alg::XChaCha }
        open spec fn key(&self) -> Seq<u8> { self.k@ }
    }
    impl AeadAlg for DeoxysII256 {
        open spec fn alg() -> Alg { Alg::Deoxys }
        open spec fn key(&self) -> Seq<u8> { self.k@ }
    }
    impl KeyInit for Aes256Gcm { #[verifier::external_body] fn new_from_slice(key: &[u8]) -> core::result::Result<Self, Error> { unimplemented!() } }
    impl KeyInit for XChaCha20Poly1305 { #[verifier::external_body] fn new_from_slice(key: &[u8]) -> core::result::Result<Self, Error> { unimplemented!() } }
    impl KeyInit for DeoxysII256 { #[verifier::external_body] fn new_from_slice(key: &[u8]) -> core::result::Result<Self, Error> { unimplemented!() } }
    impl Aead for Aes256Gcm {
        #[verifier::external_body] fn encrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>) { unimplemented!() }
        #[verifier::external_body] fn decrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>) { unimplemented!() }
    }
    impl Aead for XChaCha20Poly1305 {
        #[verifier::external_body] fn encrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>) { unimplemented!() }
        #[verifier::external_body] fn decrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>) { unimplemented!() }
    }
    impl Aead for DeoxysII256 {
        #[verifier::external_body] fn encrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>) { unimplemented!() }
        #[verifier::external_body] fn decrypt<'m, 'a>(&self, nonce: &[u8], p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>) { unimplemented!() }
    }
    impl AeadInPlace for Aes256Gcm { #[verifier::external_body] fn encrypt_in_place(&self, nonce: &[u8], aad: &[u8], b: &mut Buffer) -> (r: Result<()>) { unimplemented!() } }
    impl AeadInPlace for XChaCha20Poly1305 { #[verifier::external_body] fn encrypt_in_place(&self, nonce: &[u8], aad: &[u8], b: &mut Buffer) -> (r: Result<()>) { unimplemented!() } }
    impl AeadInPlace for DeoxysII256 { #[verifier::external_body] fn encrypt_in_place(&self, nonce: &[u8], aad: &[u8], b: &mut Buffer) -> (r: Result<()>) { unimplemented!() } }
    pub mod stream {
        use vstd::prelude::*;
        use super::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(A)]
        pub struct EncryptorLE31<A> { x: core::marker::PhantomData<A> }
        impl<A: AeadAlg> EncryptorLE31<A> {
            pub uninterp spec fn key(&self) -> Seq<u8>;
            pub uninterp spec fn prefix(&self) -> Seq<u8>;
            pub uninterp spec fn ctr(&self) -> nat;
            #[verifier::external_body]
            pub fn from_aead(c: A, nonce: &[u8]) -> (r: Self)
                requires nonce@.len() + 4 == nonce_len(A::alg())
                ensures r.key() == c.key(), r.prefix() == nonce@, r.ctr() == 0
            { unimplemented!() }
            #[verifier::external_body]
            pub fn encrypt_next<'m, 'a>(&mut self, p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>)
                ensures final(self).key() == old(self).key(), final(self).prefix() == old(self).prefix(),
                   match r { Ok(v) => v@ == seal(A::alg(), old(self).key(), stream_nonce(old(self).prefix(), old(self).ctr(), false), p.paad(), p.pmsg())
                      && final(self).ctr() == old(self).ctr() + 1 && old(self).ctr() < MAX_CTR,
                      Err(_) => final(self).ctr() == old(self).ctr() && (old(self).ctr() >= MAX_CTR || p.pmsg().len() > MAX_LEN || p.paad().len() > MAX_LEN) }
            { unimplemented!() }
            #[verifier::external_body]
            pub fn encrypt_last<'m, 'a>(self, p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>)
                ensures
                   match r { Ok(v) => v@ == seal(A::alg(), self.key(), stream_nonce(self.prefix(), self.ctr(), true), p.paad(), p.pmsg()),
                      Err(_) => self.ctr() > MAX_CTR || p.pmsg().len() > MAX_LEN || p.paad().len() > MAX_LEN }
            { unimplemented!() }
        }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(A)]
        pub struct DecryptorLE31<A> { x: core::marker::PhantomData<A> }
        impl<A: AeadAlg> DecryptorLE31<A> {
            pub uninterp spec fn key(&self) -> Seq<u8>;
            pub uninterp spec fn prefix(&self) -> Seq<u8>;
            pub uninterp spec fn ctr(&self) -> nat;
            #[verifier::external_body]
            pub fn from_aead(c: A, nonce: &[u8]) -> (r: Self)
                requires nonce@.len() + 4 == nonce_len(A::alg())
                ensures r.key() == c.key(), r.prefix() == nonce@, r.ctr() == 0
            { unimplemented!() }
            #[verifier::external_body]
            pub fn decrypt_next<'m, 'a>(&mut self, p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>)
                ensures final(self).key() == old(self).key(), final(self).prefix() == old(self).prefix(),
                   match r { Ok(v) => unseal(A::alg(), old(self).key(), stream_nonce(old(self).prefix(), old(self).ctr(), false), p.paad(), p.pmsg()) == Some(v@)
                      && final(self).ctr() == old(self).ctr() + 1 && old(self).ctr() < MAX_CTR,
                      Err(_) => final(self).ctr() == old(self).ctr() && (unseal(A::alg(), old(self).key(), stream_nonce(old(self).prefix(), old(self).ctr(), false), p.paad(), p.pmsg()) is None
                            || old(self).ctr() >= MAX_CTR || p.pmsg().len() > MAX_LEN || p.paad().len() > MAX_LEN) }
            { unimplemented!() }
            #[verifier::external_body]
            pub fn decrypt_last<'m, 'a>(self, p: impl IntoPayload<'m, 'a>) -> (r: Result<Vec<u8>>)
                ensures
                   match r { Ok(v) => unseal(A::alg(), self.key(), stream_nonce(self.prefix(), self.ctr(), true), p.paad(), p.pmsg()) == Some(v@),
                      Err(_) => unseal(A::alg(), self.key(), stream_nonce(self.prefix(), self.ctr(), true), p.paad(), p.pmsg()) is None
                            || self.ctr() > MAX_CTR || p.pmsg().len() > MAX_LEN || p.paad().len() > MAX_LEN }
            { unimplemented!() }
        }
    }
}

pub mod rand {
    use vstd::prelude::*;
    use super::model::*;
    pub trait RngCore {
        fn fill_bytes(&mut self, b: &mut [u8])
            ensures final(b)@.len() == old(b)@.len(), drawn(final(b)@);
    }
    pub trait Rng {
        fn gen_range(&mut self, r: core::ops::Range<usize>) -> (x: usize)
            requires r.start < r.end
            ensures r.start <= x < r.end, picked(x, r.start, r.end);
    }
    /// x was drawn uniformly from lo..hi
    pub uninterp spec fn picked(x: usize, lo: usize, hi: usize) -> bool;
    pub trait SeedableRng: Sized { fn from_entropy() -> Self; }
    pub mod prelude {
        #[verifier::external_body]
        pub struct ThreadRng { x: u8 }
        impl ThreadRng { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
        impl super::RngCore for ThreadRng { #[verifier::external_body] fn fill_bytes(&mut self, b: &mut [u8]) { unimplemented!() } }
        #[verifier::external_body]
        pub struct StdRng { x: u8 }
        impl super::SeedableRng for StdRng { #[verifier::external_body] fn from_entropy() -> Self { unimplemented!() } }
        impl super::Rng for StdRng { #[verifier::external_body] fn gen_range(&mut self, r: core::ops::Range<usize>) -> usize { unimplemented!() } }
    }
    pub mod distributions {
        pub struct Alphanumeric;
        impl Alphanumeric { #[verifier::external_body] pub fn sample_string(&self, r: &mut super::prelude::ThreadRng, n: usize) -> String { unimplemented!() } }
    }
    #[verifier::external_body]
    pub fn thread_rng() -> prelude::ThreadRng { unimplemented!() }
}

pub mod argon2 {
    use vstd::prelude::*;
    pub enum Algorithm { Argon2d, Argon2i, Argon2id }
    pub enum Version { V0x10, V0x13 }
    pub struct Params { pub m: u32, pub t: u32, pub p: u32, pub out: Option<usize> }
    #[derive(Debug)]
    pub struct Error;
    impl Params {
        pub const DEFAULT_OUTPUT_LEN: usize = 32;
        #[verifier::external_body]
        pub fn new(m: u32, t: u32, p: u32, out: Option<usize>) -> (r: Result<Params, Error>)
            ensures r is Ok <==> (m >= 8 * p && m >= 8 && t >= 1 && 1 <= p <= 0xff_ffff && (out matches Some(n) ==> 4 <= n <= 0xffff_ffff)),
               r matches Ok(x) ==> x.m == m && x.t == t && x.p == p && x.out == out
        { unimplemented!() }
    }
    pub struct Argon2 { pub alg: Algorithm, pub version: Version, pub params: Params }
    pub uninterp spec fn argon2(alg: Algorithm, version: Version, m: u32, t: u32, p: u32, pw: Seq<u8>, salt: Seq<u8>, n: nat) -> Seq<u8>;
    impl Argon2 {
        pub fn new(alg: Algorithm, version: Version, params: Params) -> (r: Self) ensures r.alg == alg, r.version == version, r.params == params
        { Argon2 { alg, version, params } }
        #[verifier::external_body]
        pub fn hash_password_into(&self, pw: &[u8], salt: &[u8], out: &mut [u8]) -> (r: Result<(), Error>)
            ensures final(out)@.len() == old(out)@.len(),
              r is Ok ==> final(out)@ == argon2(self.alg, self.version, self.params.m, self.params.t, self.params.p, pw@, salt@, old(out)@.len()),
              r is Ok ==> pw@.len() <= 0xffff_ffff,
              r is Err ==> pw@.len() > 0xffff_ffff || salt@.len() < 8 || salt@.len() > 0xffff_ffff || old(out)@.len() < 4 || (self.params.out matches Some(n) && n != old(out)@.len())
        { unimplemented!() }
    }
}
pub mod blake3 {
    use vstd::prelude::*;
    pub uninterp spec fn blake3(s: Seq<u8>) -> Seq<u8>;
    #[verifier::external_body]
    pub struct Hasher { x: u8 }
    #[verifier::external_body]
    pub struct Hash { x: u8 }
    #[verifier::external_body]
    pub struct Hex { x: u8 }
    pub open spec fn digit(n: int) -> char { if n < 10 { (48 + n) as u8 as char } else { (87 + n) as u8 as char } }
    pub open spec fn hex(s: Seq<u8>) -> Seq<char> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { hex(s.drop_last()).push(digit(s.last() as int / 16)).push(digit(s.last() as int % 16)) }
    }
    impl Hasher {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn update(&mut self, b: &[u8]) -> (r: u8) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn finalize(&self) -> (r: Hash) ensures r@ == blake3(self@) { unimplemented!() }
    }
    impl Hash {
        pub uninterp spec fn view(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn to_hex(&self) -> (r: Hex) ensures r@ == hex(self@) { unimplemented!() }
    }
    impl Hex {
        pub uninterp spec fn view(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    }
}
pub mod balloon_hash {
    use vstd::prelude::*;
    pub enum Algorithm { Balloon, BalloonM }
    pub struct Params { pub s: u32, pub t: u32, pub p: u32 }
    #[derive(Debug)]
    pub struct Error;
    impl Params {
        #[verifier::external_body]
        pub fn new(s: u32, t: u32, p: u32) -> (r: Result<Params, Error>)
            ensures r is Ok <==> s >= 1 && t >= 1 && p >= 1, r matches Ok(x) ==> x.s == s && x.t == t && x.p == p
        { unimplemented!() }
    }
    #[verifier::reject_recursive_types(H)]
    pub struct Balloon<H> { pub alg: Algorithm, pub params: Params, pub secret: Ghost<Option<Seq<u8>>>, pub h: core::marker::PhantomData<H> }
    pub trait Digest { spec fn name() -> int; }
    impl Digest for super::blake3::Hasher { open spec fn name() -> int { 3 } }
    pub uninterp spec fn balloon(digest: int, alg: Algorithm, s: u32, t: u32, p: u32, secret: Option<Seq<u8>>, pw: Seq<u8>, salt: Seq<u8>) -> Seq<u8>;
    impl<H: Digest> Balloon<H> {
        #[verifier::external_body]
        pub fn new(alg: Algorithm, params: Params, secret: Option<&[u8]>) -> (r: Self)
            ensures r.alg == alg, r.params == params, r.secret@ == (match secret { Some(x) => Some(x@), None => None })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn hash_into(&self, pw: &[u8], salt: &[u8], out: &mut [u8]) -> (r: Result<(), Error>)
            ensures final(out)@.len() == old(out)@.len(),
              r is Ok ==> final(out)@ == balloon(H::name(), self.alg, self.params.s, self.params.t, self.params.p, self.secret@, pw@, salt@),
              r is Err ==> old(out)@.len() != 32 || (self.alg is Balloon && self.params.p != 1)
        { unimplemented!() }
    }
}
