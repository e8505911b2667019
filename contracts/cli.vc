## Contracts on the command line
@worldcall stdin .read_line prompt_password get_answer overwrite_check get_password .get_secret fs::metadata flushed_
@worldcall erase::secure_erase hashing::hash_stream encrypt::stream_mode decrypt::stream_mode pack::execute unpack::execute header::dump unpack::unpack
@dropuse clap::ArgMatches std::process::exit crate::warn crate::question crate::info crate::success crate::error tools::utils::hex_encode anyhow::Context clap::Arg clap::Command
@mod cli
impl crate::stubs::anyhow::Wrap for crate::tools::storage::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::encrypt::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::decrypt::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::pack::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::unpack::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::hash::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::erase::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::erase_dir::Error {}
impl crate::stubs::anyhow::Wrap for crate::tools::header::Error {}
## ------------------------------------------------------------------ prompt
@uses cli::cli::prompt
use crate::stubs::fs::{self, *}; use crate::stubs::{Texts, text_eq_, into_bytes_, utf8, int_of}; use crate::stubs::zeroize::*; use crate::stubs::anyhow::Context; use crate::stubs::env::*;
@fn cli::cli::prompt::get_answer
@world
@params prompt default force
@rw .to_lowercase() ==> .to_lowercase_()
@rw .chars().next() ==> .first_char_()
@spec
    ensures match r {
        Ok(b) => if force is Force { b && final(wd).ops@ == old(wd).ops@ } else { answered(old(wd).ops@, final(wd).ops@, default, b) },
        Err(_) => !(force is Force) && looks(old(wd).ops@, final(wd).ops@) }
@attr #[verifier::exec_allows_no_decreases_clause]
@start
    let ghost o0 = wd.ops@;
@loop 0
    invariant_except_break
        lines_only(o0, wd.ops@), o0 == old(wd).ops@, brk__0 is None, !(force is Force),
    ensures brk__0 is Some, answered(o0, wd.ops@, default, brk__0.unwrap()),
@loop 0 begin
    let ghost o1 = wd.ops@;
    proof { reveal(looks); assert(forall|x: Op| (#[trigger] o1.push(x)).take(o0.len() as int) =~= o1.take(o0.len() as int)); assert(forall|x: Op, y: Op| (#[trigger] o1.push(x).push(y)).take(o0.len() as int) =~= o1.take(o0.len() as int)); }
@loop 0 before
    proof { reveal(looks); assert(o0.take(o0.len() as int) =~= o0); }
@mod cli::cli::prompt
pub open spec fn lines_only(a: Seq<Op>, b: Seq<Op>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && forall|i: int| a.len() <= i < b.len() ==> ((#[trigger] b[i]) is Line || b[i] is Stdin)
}
/// the question about replacing this path, unless it is not there, or forced
#[verifier::opaque]
pub open spec fn consulted(a: Seq<Op>, b: Seq<Op>, p: Seq<char>, force: bool, yes: bool) -> bool {
    if yes && b == a.push(Op::Exists { path: p, yes: false }) { true }
    else if force { yes && b == a.push(Op::Exists { path: p, yes: true }) }
    else { answered(a.push(Op::Exists { path: p, yes: true }), b, true, yes) }
}
@fn cli::cli::prompt::overwrite_check
@world
@params name force
@spec
    ensures looks(old(wd).ops@, final(wd).ops@), match r {
        Ok(b) => consulted(old(wd).ops@, final(wd).ops@, name@, force is Force, b),
        Err(_) => true }
@start
    let ghost o0 = wd.ops@;
    proof { reveal(looks); reveal(consulted); looks_self(o0); assert forall|x: Op, b: Seq<Op>| #[trigger] looks(o0.push(x), b) && look(x) implies looks(o0, b) by { looks_push(o0, o0, x); looks_trans(o0, o0.push(x), b); }
      assert forall|x: Op| look(x) implies looks(o0, #[trigger] o0.push(x)) by { looks_push(o0, o0, x); }
      assert forall|x: Op, b: Seq<Op>, d: bool, y: bool| look(x) && #[trigger] answered(o0.push(x), b, d, y) implies looks(o0, b) by { looks_push(o0, o0, x); assert(looks(o0.push(x), b)); looks_trans(o0, o0.push(x), b); } }
@mod cli::cli::prompt
pub proof fn looks_self(a: Seq<Op>) ensures looks(a, a) { reveal(looks); assert(a.take(a.len() as int) =~= a); }
pub proof fn looks_push(a: Seq<Op>, b: Seq<Op>, o: Op) requires looks(a, b), look(o) ensures looks(a, b.push(o))
{ reveal(looks); assert(b.push(o).take(a.len() as int) =~= b.take(a.len() as int)); }
pub proof fn looks_trans(a: Seq<Op>, m: Seq<Op>, b: Seq<Op>) requires looks(a, m), looks(m, b) ensures looks(a, b)
{ reveal(looks); assert(b.take(a.len() as int) =~= b.take(m.len() as int).take(a.len() as int));
  assert forall|i: int| a.len() <= i < b.len() implies look(#[trigger] b[i]) by { if i < m.len() { assert(b.take(m.len() as int)[i] == m[i]); } } }
@mod cli::cli::prompt
/// one password, or the same one twice in a row
pub open spec fn typed(a: Seq<Op>, b: Seq<Op>, direct: bool, s: Seq<u8>) -> bool {
    if direct { exists|t: Seq<char>| s == utf8(t) && b == #[trigger] a.push(Op::Password { text: t }) }
    else { exists|t: Seq<char>, m: Seq<Op>| #[trigger] looks(a, m) && t.len() > 0 && s == utf8(t) && b == #[trigger] m.push(Op::Password { text: t }).push(Op::Password { text: t }) }
}
pub open spec fn confirmed(a: Seq<Op>, b: Seq<Op>, r: Option<Protected<Vec<u8>>>) -> bool { r is Some && typed(a, b, false, r.unwrap().data@) && r.unwrap().data@.len() > 0 }
@fn cli::cli::prompt::get_password
@world
@params pass_state
@attr #[verifier::exec_allows_no_decreases_clause]
@rw $id_x.into_bytes() ==> into_bytes_($id_x)
@spec
    ensures match r {
        Ok(p) => typed(old(wd).ops@, final(wd).ops@, pass_state is Direct, p.data@) && (!(pass_state is Direct) ==> p.data@.len() > 0),
        Err(_) => looks(old(wd).ops@, final(wd).ops@) }
@start
    let ghost o0 = wd.ops@;
    proof { reveal(looks); assert(o0.take(o0.len() as int) =~= o0); }
@loop 0
    invariant_except_break
        looks(o0, wd.ops@), o0 == old(wd).ops@, brk__0 is None, pass_state is Direct ==> wd.ops@ == o0,
    ensures !(pass_state is Direct), confirmed(o0, wd.ops@, brk__0),
@loop 0 begin
    let ghost m = wd.ops@;
    proof { reveal(looks); assert forall|t: Seq<char>| looks(o0, #[trigger] m.push(Op::Password { text: t })) by { looks_push(o0, m, Op::Password { text: t }); }
      assert forall|t: Seq<char>, u: Seq<char>| looks(o0, #[trigger] m.push(Op::Password { text: t }).push(Op::Password { text: u })) by { looks_push(o0, m, Op::Password { text: t }); looks_push(o0, m.push(Op::Password { text: t }), Op::Password { text: u }); } }
## ------------------------------------------------------------------ states
@uses cli::global::states
use crate::stubs::fs::{self, *}; use crate::stubs::{Texts, text_eq_, into_bytes_, utf8, int_of}; use crate::stubs::zeroize::*; use crate::stubs::anyhow::Context; use crate::stubs::env::*; use crate::stubs::clap::ArgMatches; use crate::cli::cli::prompt::*; use crate::corecrypto::key::*; use crate::stubs::terminal::*; use crate::stubs::io::{Stream, Read};
@mod cli::global::states
/// the secret s was taken from this source, the only one used
#[verifier::opaque]
pub open spec fn gave(a: Seq<Op>, b: Seq<Op>, k: Key, direct: bool, s: Seq<u8>) -> bool {
    match k {
        Key::Keyfile(p) => if p@ == "-"@ { b == a.push(Op::Stdin { rest: s }) } else { b.len() == a.len() + 1 && b == a.push(b.last()) && (b.last() matches Op::Open { path, flags, data, .. } && path == p@ && flags == READ() && data == s) },
        Key::Env => b == a && env_text("VOLARIS_KEY"@) is Some && s == utf8(env_text("VOLARIS_KEY"@).unwrap()),
        Key::Generate(n) => b == a && exists|ix: Seq<usize>| ix.len() == (if n > 0 { n as int } else { 0 }) && all_picked(ix) && s == utf8(#[trigger] phrase(ix)),
        Key::User => typed(a, b, direct, s),
    }
}
/// a number given as this argument
pub open spec fn number(m: &ArgMatches, id: Seq<char>, d: int) -> int { match m.text(id) { Some(t) => match int_of(t) { Some(n) => n, None => d }, None => d } }
/// which source is used: key file, environment, generated, typed, in this order, as far as allowed
pub open spec fn source_is(m: &ArgMatches, p: &KeyParams, id: Seq<char>, k: Key) -> bool {
    if m.has(id) && p.keyfile { k matches Key::Keyfile(f) && m.text(id) == Some(f@) }
    else if env_text("VOLARIS_KEY"@) is Some && p.env { k is Env }
    else if m.defined("autogenerate"@) && m.has("autogenerate"@) && p.autogenerate { k matches Key::Generate(n) && m.text("autogenerate"@) is Some && n == number(m, "autogenerate"@, 7) }
    else { p.user && k is User }
}
/// no source is there
pub open spec fn nokey(m: &ArgMatches, p: &KeyParams, id: Seq<char>) -> bool {
    if m.has(id) && p.keyfile { m.text(id) is None }
    else if env_text("VOLARIS_KEY"@) is Some && p.env { false }
    else if m.defined("autogenerate"@) && m.has("autogenerate"@) && p.autogenerate { m.text("autogenerate"@) is None }
    else { !p.user }
}
@fn cli::global::states::get_bytes
@params reader
@spec
    ensures match r {
        Ok(p) => p.data@ == from(old(reader).data(), old(reader).pos()),
        Err(_) => true }
@fn cli::global::states::Key::get_secret
@world
@params self pass_state
@texts path
@rw $r_x.into_bytes() ==> into_bytes_($r_x)
@rw $id_s.is_empty() ==> $id_s.expose().is_empty()
@spec
    ensures match r {
        Ok(p) => looks(old(wd).ops@, final(wd).ops@) && p.data@.len() > 0 && gave(old(wd).ops@, final(wd).ops@, *self, pass_state is Direct, p.data@),
        Err(_) => looks(old(wd).ops@, final(wd).ops@) }
@start
    let ghost o0 = wd.ops@;
    proof { reveal(looks); reveal(gave); assert(o0.take(o0.len() as int) =~= o0); assert forall|x: Op| look(x) implies looks(o0, #[trigger] o0.push(x)) by { looks_push(o0, o0, x); } 
      assert forall|b: Seq<Op>, d: bool, s: Seq<u8>| #[trigger] typed(o0, b, d, s) implies looks(o0, b) by { typed_looks(o0, b, d, s); } }
@mod cli::global::states
pub proof fn typed_looks(a: Seq<Op>, b: Seq<Op>, d: bool, s: Seq<u8>) requires typed(a, b, d, s), ensures looks(a, b)
{ reveal(looks);
    assert(a.take(a.len() as int) =~= a);
    if d { let t = choose|t: Seq<char>| s == utf8(t) && b == #[trigger] a.push(Op::Password { text: t }); looks_push(a, a, Op::Password { text: t }); }
    else {
        let (t, m) = choose|t: Seq<char>, m: Seq<Op>| #[trigger] looks(a, m) && t.len() > 0 && s == utf8(t) && b == #[trigger] m.push(Op::Password { text: t }).push(Op::Password { text: t });
        looks_push(a, m, Op::Password { text: t }); looks_push(a, m.push(Op::Password { text: t }), Op::Password { text: t });
    }
}
@fn cli::global::states::Key::init
@params sub_matches params keyfile_descriptor
@rw .parse::<i32>() ==> .parse_i32_()
@rw .to_string() ==> .to_string_()
@spec
    requires sub_matches.defined(keyfile_descriptor@),
    ensures match r { Ok(k) => source_is(sub_matches, params, keyfile_descriptor@, k), Err(_) => nokey(sub_matches, params, keyfile_descriptor@) }
@fn cli::global::states::KeyParams::default
@spec
    ensures r.user, r.env, r.autogenerate, r.keyfile
## ------------------------------------------------------------------ parameters
@uses cli::global::parameters
use crate::stubs::{Texts, text_eq_, int_of}; use crate::stubs::anyhow::Context; use crate::stubs::clap::{ArgMatches, views, strings_}; use crate::cli::global::states::{self, *};
@mod cli::global::parameters
pub open spec fn header_place(m: &ArgMatches, h: HeaderLocation) -> bool { match h { HeaderLocation::Detached(p) => m.text("header"@) == Some(p@), HeaderLocation::Embedded => m.text("header"@) is None } }
pub open spec fn hash_alg(m: &ArgMatches) -> HashingAlgorithm { if m.on("argon"@) { HashingAlgorithm::Argon2id(3) } else { HashingAlgorithm::Blake3Balloon(5) } }
/// what the arguments ask for, and nothing else
pub open spec fn wanted(m: &ArgMatches, p: CryptoParams) -> bool {
    (p.hash_mode is CalculateHash) == m.on("hash"@) && (p.force is Force) == m.on("force"@) && header_place(m, p.header_location) && p.hashing_algorithm == hash_alg(m)
}
pub open spec fn all_sources() -> KeyParams { KeyParams { user: true, env: true, autogenerate: true, keyfile: true } }
pub open spec fn erase_asked(m: &ArgMatches, e: EraseMode) -> bool { match e { EraseMode::EraseFile(n) => m.has("erase"@) && n == number(m, "erase"@, 1), EraseMode::IgnoreFile => !m.has("erase"@) } }
@fn cli::global::parameters::get_params
@params name sub_matches
@rw $r_x.map(String::from).collect() ==> strings_($r_x)
@spec
    requires sub_matches.defined(name@),
    ensures match r { Ok(v) => sub_matches.texts(name@) == Some(views(v@)), Err(_) => sub_matches.texts(name@) is None }
@fn cli::global::parameters::get_param
@params name sub_matches
@rw .to_string() ==> .to_string_()
@spec
    requires sub_matches.defined(name@),
    ensures match r { Ok(v) => sub_matches.text(name@) == Some(v@), Err(_) => sub_matches.text(name@) is None }
@fn cli::global::parameters::get_flag
@params name sub_matches
@spec
    ensures r == sub_matches.on(name@)
@fn cli::global::parameters::forcemode
@params sub_matches
@spec
    ensures (r is Force) == sub_matches.on("force"@)
@fn cli::global::parameters::hashing_algorithm
@params sub_matches
@spec
    ensures r == hash_alg(sub_matches)
@fn cli::global::parameters::algorithm
@params sub_matches
@spec
    ensures r == (if sub_matches.on("aes"@) { Algorithm::Aes256Gcm } else { Algorithm::XChaCha20Poly1305 })
@fn cli::global::parameters::parameter_handler
@params sub_matches
@rw .parse() ==> .parse_i32_()
@rw .to_string() ==> .to_string_()
@spec
    requires sub_matches.defined("keyfile"@), sub_matches.defined("erase"@), sub_matches.defined("header"@),
    ensures r matches Ok(p) ==> wanted(sub_matches, p) && erase_asked(sub_matches, p.erase) && source_is(sub_matches, &all_sources(), "keyfile"@, p.key)
@fn cli::global::parameters::erase_params
@params sub_matches
@rw .parse::<i32>() ==> .parse_i32_()
@spec
    requires sub_matches.defined("passes"@),
    ensures r matches Ok((n, f)) ==> (f is Force) == sub_matches.on("force"@) && n == (if sub_matches.has("passes"@) { number(sub_matches, "passes"@, 1) } else { 1 })
@fn cli::global::parameters::pack_params
@params sub_matches
@rw .to_string() ==> .to_string_()
@spec
    requires sub_matches.defined("keyfile"@), sub_matches.defined("header"@),
    ensures r matches Ok((p, q)) ==> wanted(sub_matches, p) && source_is(sub_matches, &all_sources(), "keyfile"@, p.key)
        && (q.erase_source is Erase) == sub_matches.on("erase"@) && (q.compression is Zstd) == sub_matches.on("zstd"@) && (q.print_mode is Verbose) == sub_matches.on("verbose"@) && (q.dir_mode is Recursive) == sub_matches.on("recursive"@)
@fn cli::global::parameters::key_manipulation_params
@params sub_matches
@spec
    requires sub_matches.defined("keyfile-old"@), sub_matches.defined("keyfile-new"@),
    ensures r matches Ok(p) ==> source_is(sub_matches, &KeyParams { user: true, env: false, autogenerate: false, keyfile: true }, "keyfile-old"@, p.key_old)
        && source_is(sub_matches, &KeyParams { user: true, env: false, autogenerate: true, keyfile: true }, "keyfile-new"@, p.key_new) && p.hashing_algorithm == hash_alg(sub_matches)
## ------------------------------------------------------------------ what the subcommands have in common
@uses cli::subcommands
use crate::stubs::fs::{self, *}; use crate::stubs::clap::ArgMatches; use crate::cli::cli::prompt::{consulted, looks_push, looks_self, looks_trans}; use crate::cli::global::states::gave; use crate::stubs::path::*; use crate::tools::storage::{Storage, Entry, FileData}; use crate::stubs::io::{Read, Write, Seek, Stream};
@mod cli::subcommands
/// where output goes
pub struct Outs { pub o: Option<Seq<char>>, pub h: Option<Seq<char>> }
pub open spec fn among(p: Seq<char>, t: Outs) -> bool { t.o == Some(p) || t.h == Some(p) }
pub open spec fn extends(a: Seq<Op>, b: Seq<Op>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
/// what has been found out or achieved since there were n operations
pub enum Fact {
    /// nothing is replaced under this path without consent
    Consent { path: Seq<char>, force: bool },
    /// this was read from the file with this path
    Content { path: Seq<char>, data: Seq<u8> },
    /// the secret was taken from its source
    Secret { key: Key, direct: bool, s: Seq<u8> },
    /// this was written to the file with this path, and flushed; nothing has been changed since
    Written { path: Seq<char>, data: Seq<u8> },
}
pub closed spec fn secret_since(b: Seq<Op>, n: int, key: Key, direct: bool, s: Seq<u8>) -> bool { exists|u: int, v: int| n <= u <= v <= b.len() && #[trigger] gave(b.take(u), b.take(v), key, direct, s) }
pub closed spec fn since(b: Seq<Op>, n: int, f: Fact) -> bool {
    0 <= n && match f {
        Fact::Consent { path, force } => force || agreed(b, n, b.len() as int, path),
        Fact::Content { path, data } => exists|i: int| n <= i < b.len() && (#[trigger] b[i] matches Op::Open { path: p, flags, data: d, .. } && p == path && d == data && flags == READ()),
        Fact::Secret { key, direct, s } => secret_since(b, n, key, direct, s),
        Fact::Written { path, data } => exists|i: int| n <= i < b.len() && (#[trigger] b[i] matches Op::Flushed { path: p, data: d, .. } && p == path && d == data) && forall|j: int| i < j < b.len() ==> #[trigger] idle(b[j]),
    }
}
pub open spec fn idle(o: Op) -> bool { look(o) || o is Flushed }
/// allowed on the way: o is done after b
pub open spec fn fine(o: Op, b: Seq<Op>, n: int, t: Outs, force: bool, temps: bool) -> bool {
    match o {
        Op::Open { path, flags, .. } => flags == READ() || flags == NEW() && (temps || among(path, t)) || flags == TRUNC() && among(path, t) && since(b, n, Fact::Consent { path, force }),
        Op::Unlink { path } => temps && made(b, n, path),
        Op::RemoveTree { .. } => false,
        Op::CreateDirs { .. } => false,
        _ => true,
    }
}
/// the file was created by this run
pub closed spec fn made(b: Seq<Op>, n: int, p: Seq<char>) -> bool { exists|i: int| n <= i < b.len() && (#[trigger] b[i] matches Op::Open { path, flags, .. } && path == p && flags == NEW()) }
/// nothing has been changed but the outputs, and temporary files: what was there is replaced only with consent, nothing else is removed
pub closed spec fn tame(a: Seq<Op>, b: Seq<Op>, t: Outs, force: bool, temps: bool) -> bool {
    extends(a, b) && forall|i: int| a.len() <= i < b.len() ==> fine(#[trigger] b[i], b.take(i), a.len() as int, t, force, temps)
}
/// the user was asked about this existing path and declined
pub open spec fn refused(m: Seq<Op>, b: Seq<Op>, p: Seq<char>) -> bool { answered(m.push(Op::Exists { path: p, yes: true }), b, true, false) }
pub proof fn tame_start(a: Seq<Op>, t: Outs, force: bool, temps: bool) ensures tame(a, a, t, force, temps) { assert(a.take(a.len() as int) =~= a); }
pub broadcast proof fn tame_push(a: Seq<Op>, m: Seq<Op>, o: Op, t: Outs, force: bool, temps: bool)
    requires #[trigger] tame(a, m, t, force, temps), fine(o, m, a.len() as int, t, force, temps) ensures tame(a, #[trigger] m.push(o), t, force, temps)
{
    let b = m.push(o);
    assert(b.take(a.len() as int) =~= m.take(a.len() as int));
    assert forall|i: int| a.len() <= i < b.len() implies fine(#[trigger] b[i], b.take(i), a.len() as int, t, force, temps) by { assert(b.take(i) =~= m.take(i)); if i == m.len() { assert(m.take(i) =~= m); } else { assert(b[i] == m[i]); } }
}
pub broadcast proof fn tame_looks(a: Seq<Op>, m: Seq<Op>, b: Seq<Op>, t: Outs, force: bool, temps: bool)
    requires #[trigger] tame(a, m, t, force, temps), #[trigger] looks(m, b) ensures tame(a, b, t, force, temps)
{ reveal(looks);
    assert(b.take(a.len() as int) =~= b.take(m.len() as int).take(a.len() as int));
    assert forall|i: int| a.len() <= i < b.len() implies fine(#[trigger] b[i], b.take(i), a.len() as int, t, force, temps) by {
        if i < m.len() { assert(b.take(i) =~= b.take(m.len() as int).take(i)); assert(b[i] == b.take(m.len() as int)[i]); assert(fine(m[i], m.take(i), a.len() as int, t, force, temps)); } else { assert(look(b[i])); } }
}
pub broadcast proof fn since_push(m: Seq<Op>, n: int, f: Fact, o: Op)
    requires #[trigger] since(m, n, f), f is Written ==> idle(o) ensures since(#[trigger] m.push(o), n, f)
{ since_ext(m, m.push(o), n, f); }
pub broadcast proof fn since_looks(m: Seq<Op>, b: Seq<Op>, n: int, f: Fact)
    requires #[trigger] since(m, n, f), #[trigger] looks(m, b) ensures since(b, n, f)
{ reveal(looks); since_ext(m, b, n, f); }
pub proof fn since_ext(m: Seq<Op>, b: Seq<Op>, n: int, f: Fact)
    requires since(m, n, f), m.len() <= b.len(), b.take(m.len() as int) =~= m, f is Written ==> forall|j: int| m.len() <= j < b.len() ==> idle(#[trigger] b[j]) ensures since(b, n, f)
{
    assert forall|j: int| 0 <= j < m.len() implies #[trigger] m[j] == b[j] by { assert(b.take(m.len() as int)[j] == b[j]); }
    assert forall|j: int| 0 <= j <= m.len() implies #[trigger] m.take(j) == b.take(j) by { assert(m.take(j) =~= b.take(j)); }
    match f {
        Fact::Consent { path, force } => { if !force {
            if exists|j: int| n <= j < m.len() && #[trigger] m[j] == (Op::Exists { path, yes: false }) { let j = choose|j: int| n <= j < m.len() && #[trigger] m[j] == (Op::Exists { path, yes: false }); assert(b[j] == m[j]); }
            else { let (j, k) = choose|j: int, k: int| n <= j && k < m.len() && #[trigger] asked(m, j, k, path, true); assert(m.take(j + 1) == b.take(j + 1)); assert(m.take(k + 1) == b.take(k + 1)); assert(m[j] == b[j]); assert(asked(b, j, k, path, true)); }
        } }
        Fact::Content { path, data } => { let i = choose|i: int| n <= i < m.len() && (#[trigger] m[i] matches Op::Open { path: p, flags, data: d, .. } && p == path && d == data && flags == READ()); assert(b[i] == m[i]); }
        Fact::Secret { key, direct, s } => { let (u, v) = choose|u: int, v: int| n <= u <= v <= m.len() && #[trigger] gave(m.take(u), m.take(v), key, direct, s); assert(gave(b.take(u), b.take(v), key, direct, s)); }
        Fact::Written { path, data } => {
            let i = choose|i: int| n <= i < m.len() && (#[trigger] m[i] matches Op::Flushed { path: p, data: d, .. } && p == path && d == data) && forall|j: int| i < j < m.len() ==> #[trigger] idle(m[j]);
            assert(b[i] == m[i]);
            assert forall|j: int| i < j < b.len() implies #[trigger] idle(b[j]) by { if j < m.len() { assert(idle(m[j])); } }
        }
    }
}
pub broadcast proof fn since_consent(a: Seq<Op>, m: Seq<Op>, b: Seq<Op>, t: Outs, force: bool, temps: bool, p: Seq<char>, f: bool)
    requires #[trigger] tame(a, m, t, force, temps), #[trigger] consulted(m, b, p, f, true) ensures since(b, a.len() as int, Fact::Consent { path: p, force: f })
{ reveal(consulted);
    let e0 = Op::Exists { path: p, yes: false }; let e1 = Op::Exists { path: p, yes: true };
    if b == m.push(e0) { assert(b[m.len() as int] == e0); }
    else if !f {
        let q = m.push(e1);
        assert(answered(q, b, true, true));
        let (j, k) = (m.len() as int, b.len() - 1);
        assert(b.take(j + 1) == q); assert(b.take(k + 1) =~= b); assert(b[j] == b.take(q.len() as int)[j]); assert(b[j] == e1);
        assert(asked(b, j, k, p, true));
    }
}
pub broadcast proof fn since_content(a: Seq<Op>, m: Seq<Op>, t: Outs, force: bool, temps: bool, p: Seq<char>, fl: Flags, id: int, d: Seq<u8>)
    requires #[trigger] tame(a, m, t, force, temps), fl == READ() ensures since(#[trigger] m.push(Op::Open { path: p, flags: fl, id, data: d }), a.len() as int, Fact::Content { path: p, data: d })
{ let b = m.push(Op::Open { path: p, flags: fl, id, data: d }); assert(b[m.len() as int] == Op::Open { path: p, flags: fl, id, data: d }); }
pub broadcast proof fn since_written(a: Seq<Op>, m: Seq<Op>, t: Outs, force: bool, temps: bool, p: Seq<char>, id: int, d: Seq<u8>)
    requires #[trigger] tame(a, m, t, force, temps) ensures since(#[trigger] m.push(Op::Flushed { path: p, id, data: d }), a.len() as int, Fact::Written { path: p, data: d })
{ let b = m.push(Op::Flushed { path: p, id, data: d }); assert(b[m.len() as int] == Op::Flushed { path: p, id, data: d }); }
pub broadcast proof fn since_secret(a: Seq<Op>, m: Seq<Op>, b: Seq<Op>, t: Outs, force: bool, temps: bool, k: Key, direct: bool, s: Seq<u8>)
    requires #[trigger] tame(a, m, t, force, temps), #[trigger] gave(m, b, k, direct, s), looks(m, b) ensures since(b, a.len() as int, Fact::Secret { key: k, direct, s })
{ reveal(looks); assert(b.take(m.len() as int) == m); assert(b.take(b.len() as int) =~= b); let (u, v) = (m.len() as int, b.len() as int); assert(gave(b.take(u), b.take(v), k, direct, s)); assert(a.len() <= u <= v); assert(v <= b.len());
  assert(secret_since(b, a.len() as int, k, direct, s)); }
pub broadcast proof fn tame_declined(a: Seq<Op>, m: Seq<Op>, b: Seq<Op>, t: Outs, force: bool, p: Seq<char>, f: bool)
    requires #[trigger] tame(a, m, t, force, false), #[trigger] consulted(m, b, p, f, false), !among(p, t) ensures declined(a, b)
{ reveal(consulted); reveal(declined);
    let e1 = Op::Exists { path: p, yes: true }; let q = m.push(e1);
    let j = m.len() as int;
    assert(answered(q, b, true, false));
    assert(b.take(j + 1) == q); assert(b.take(b.len() - 1 + 1) =~= b); assert(b[j] == b.take(q.len() as int)[j]);
    assert(asked(b, j, b.len() - 1, p, false));
    assert forall|i: int| a.len() <= i < b.len() implies !alters(#[trigger] b[i], p) by {
        if i < j { assert(b[i] == b.take(q.len() as int)[i]); assert(fine(m[i], m.take(i), a.len() as int, t, force, false)); } else if i > j { assert(b[i] is Line || b[i] is Stdin); } }
}
pub broadcast group group_tame { tame_push, tame_looks, since_push, since_looks, since_consent, since_content, since_written, since_secret, tame_declined }
/// a file of the storage is flushed, which is taken down
pub fn flushed_<RW: Read + Write + Seek, S: Storage<RW>>(wd: &mut World, stor: &S, f: &mut Entry<RW>) -> (r: core::result::Result<(), crate::tools::storage::Error>)
    ensures match r { Ok(_) => *old(f) is File && final(wd).ops@ == old(wd).ops@.push(Op::Flushed { path: old(f)->File_0.path@, id: old(f)->File_0.stream.id(), data: old(f)->File_0.stream.data() }), Err(_) => final(wd).ops@ == old(wd).ops@ }
{
    let r = stor.flush_file(f);
    proof { if r is Ok { wd.ops@ = wd.ops@.push(Op::Flushed { path: old(f)->File_0.path@, id: old(f)->File_0.stream.id(), data: old(f)->File_0.stream.data() }); } }
    r
}
/// a stream of an optional file
pub fn stream_of_<RW: Read + Write + Seek>(o: &mut Option<Entry<RW>>) -> (r: Option<&mut RW>)
    ensures match r {
        Some(s) => *old(o) is Some && (*old(o))->0 is File && *final(o) is Some && (*final(o))->0 is File && *s == (*old(o))->0->File_0.stream && (*final(o))->0->File_0.stream == *final(s) && (*final(o))->0->File_0.path == (*old(o))->0->File_0.path,
        None => *final(o) == *old(o) && (*old(o) is None || (*old(o))->0 is Dir) }
{
    match o { Some(e) => match e { Entry::File(f) => Some(&mut f.stream), Entry::Dir(_) => None }, None => None }
}
@mod cli::subcommands
pub broadcast proof fn splice_fresh(x: Seq<u8>, s: Seq<u8>) requires s.len() == 0 ensures #[trigger] crate::stubs::model::splice(s, 0, x) == x { assert(crate::stubs::model::splice(s, 0, x) =~= x); }
/// a directory is erased only when forced or agreed to
#[verifier::opaque]
pub open spec fn dir_agreed(a: Seq<Op>, m: Seq<Op>, force: bool) -> bool { force && m == a || answered(a, m, false, true) }
/// this path was erased: the file overwritten and removed, or everything below the directory
#[verifier::opaque]
pub open spec fn erased(a: Seq<Op>, b: Seq<Op>, p: Seq<char>, k: int, force: bool) -> bool {
    if is_dir(p) { exists|m: Seq<Op>| #[trigger] looks(a, m) && dir_agreed(a, m, force) && b.len() > 0 && b.last() == (Op::RemoveTree { path: p }) && tree_wiped(m, b.drop_last(), p, k) }
    else { exists|m: Seq<Op>| #[trigger] looks(a, m) && erases(m, b, p, k) }
}
/// erasing this path was tried
#[verifier::opaque]
pub open spec fn erase_tried(a: Seq<Op>, b: Seq<Op>, p: Seq<char>, k: int, force: bool) -> bool {
    looks(a, b) || if is_dir(p) { exists|m: Seq<Op>| #[trigger] looks(a, m) && dir_agreed(a, m, force) && (tree_kept(m, b, p, k) || b.len() > 0 && b.last() == (Op::RemoveTree { path: p }) && tree_wiped(m, b.drop_last(), p, k)) }
    else { exists|m: Seq<Op>| #[trigger] looks(a, m) && erase_failed(m, b, p, k) }
}
pub open spec fn outs(output: Seq<char>, h: HeaderLocation) -> Outs { Outs { o: Some(output), h: match h { HeaderLocation::Detached(p) => Some(p@), HeaderLocation::Embedded => None } } }
@uses cli::subcommands
use crate::tools::erase::{erases, erase_failed}; use crate::tools::erase_dir::{tree_wiped, tree_kept}; use crate::cli::global::states::HeaderLocation;
## ------------------------------------------------------------------ erase
@uses cli::subcommands::erase
use crate::stubs::fs::{self, *}; use crate::stubs::path::*; use crate::tools::storage::{Entry, FileData, FileStorage, e_path}; use crate::cli::subcommands::{erased, erase_tried, dir_agreed}; use crate::cli::cli::prompt::{looks_push, looks_self, looks_trans};
@fn cli::subcommands::erase::secure_erase
@world
@params input passes force
@rw exit($e_x) ==> crate::stubs::process::exit_quiet_(wd, Ghost(o0))
@rw std::process::crate::stubs ==> crate::stubs
@spec
    ensures match r {
        Ok(_) => erased(old(wd).ops@, final(wd).ops@, input@, passes as int, force is Force),
        Err(_) => erase_tried(old(wd).ops@, final(wd).ops@, input@, passes as int, force is Force) }
@start
    let ghost o0 = wd.ops@;
    proof { reveal(looks); looks_self(o0); assert forall|x: Op| look(x) implies looks(o0, #[trigger] o0.push(x)) by { looks_push(o0, o0, x); }
      assert forall|b: Seq<Op>, d: bool, y: bool| #[trigger] answered(o0, b, d, y) implies looks(o0, b) by {} reveal(looks); reveal(erased); reveal(erase_tried); reveal(dir_agreed); }
## ------------------------------------------------------------------ hashing
@uses cli::subcommands::hashing
use crate::stubs::fs::{self, *}; use crate::stubs::path::*; use crate::cli::cli::prompt::{looks_push, looks_self, looks_trans}; use crate::tools::hasher::*; use crate::stubs::anyhow::Context;
@fn cli::subcommands::hashing::hash_stream
@world
@params files
@rw RefCell::new(&mut $id_f) ==> $id_f
@spec
    ensures looks(old(wd).ops@, final(wd).ops@)
@start
    let ghost o0 = wd.ops@;
    proof { looks_self(o0); }
@loop 0
    invariant looks(o0, wd.ops@), it__0 <= v__0@.len(), o0 == old(wd).ops@,
    decreases v__0@.len() - it__0
@loop 0 begin
    let ghost o1 = wd.ops@;
    proof { assert forall|x: Op| look(x) implies looks(o0, #[trigger] o1.push(x)) by { looks_push(o0, o1, x); } }
## ------------------------------------------------------------------ encrypt
@mod cli::subcommands
/// the content of the input, encrypted under the secret, was written to the outputs, and flushed
pub closed spec fn enc_done(a: Seq<Op>, y: Seq<Op>, input: Seq<char>, output: Seq<char>, p: CryptoParams, alg: Algorithm) -> bool {
    exists|data: Seq<u8>, pw: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>|
        #[trigger] encrypted(stream_type(alg), p.hashing_algorithm, pw, data, h, mk, head, body) && written(a, y, output, p.header_location, head, body) && pw.len() > 0
        && since(y, a.len() as int, Fact::Content { path: input, data }) && since(y, a.len() as int, Fact::Secret { key: p.key, direct: false, s: pw })
}
pub open spec fn stream_type(alg: Algorithm) -> HeaderType { HeaderType { version: HeaderVersion::V5, mode: Mode::StreamMode, algorithm: alg } }
pub open spec fn written(a: Seq<Op>, y: Seq<Op>, output: Seq<char>, h: HeaderLocation, head: Seq<u8>, body: Seq<u8>) -> bool {
    match h { HeaderLocation::Embedded => since(y, a.len() as int, Fact::Written { path: output, data: head + body }),
        HeaderLocation::Detached(p) => since(y, a.len() as int, Fact::Written { path: output, data: body }) && since(y, a.len() as int, Fact::Written { path: p@, data: head }) }
}
pub broadcast proof fn enc_is_done(a: Seq<Op>, y: Seq<Op>, t: Outs, force: bool, temps: bool, ty: HeaderType, ha: HashingAlgorithm, input: Seq<char>, output: Seq<char>, p: CryptoParams, data: Seq<u8>, pw: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>)
    requires #[trigger] tame(a, y, t, force, temps), #[trigger] encrypted(ty, ha, pw, data, h, mk, head, body), ty == stream_type(ty.algorithm), ha == p.hashing_algorithm,
        #[trigger] names(input, output, p), written(a, y, output, p.header_location, head, body), pw.len() > 0,
        since(y, a.len() as int, Fact::Content { path: input, data }), since(y, a.len() as int, Fact::Secret { key: p.key, direct: false, s: pw })
    ensures enc_done(a, y, input, output, p, ty.algorithm), looks(y, y)
{ looks_self(y); }
pub open spec fn names(input: Seq<char>, output: Seq<char>, p: CryptoParams) -> bool { true }
/// no two of the names are the same
pub open spec fn apart(input: Seq<char>, output: Seq<char>, h: HeaderLocation) -> bool { input != output && (h matches HeaderLocation::Detached(p) ==> p@ != output) }
@uses cli::subcommands
use crate::tools::encrypt::encrypted; use crate::corecrypto::header::*; use crate::corecrypto::primitives::*; use crate::cli::global::structs::CryptoParams;
@bcast cli::subcommands::encrypt broadcast use {crate::stubs::model::group_model, crate::stubs::aead::group_aead, crate::cli::subcommands::group_tame, crate::cli::subcommands::splice_fresh, crate::cli::subcommands::enc_is_done};
@uses cli::subcommands::encrypt
use crate::stubs::fs::{self, *}; use crate::stubs::path::*; use crate::stubs::{Texts, text_eq_}; use crate::tools::storage::{Entry, FileData, FileStorage, e_path}; use crate::cli::subcommands::{erased, erase_tried, outs, Outs, tame, tame_start, since, Fact, flushed_, stream_of_, enc_done, names, apart, among}; use crate::cli::cli::prompt::{looks_push, looks_self, looks_trans};
@fn cli::subcommands::encrypt::stream_mode
@world
@attr #[verifier::rlimit(60)]
@chains
@params input output params algorithm
@texts path input output
@rw exit($e_x) ==> crate::stubs::process::exit_declined_(wd, Ghost(o0))
@rw $id_s.flush_file(&$id_f) ==> flushed_(&*$id_s, &mut $id_f)
@rw if let Some($id_a) = $id_b { ==> if let Some(mut $id_a) = $id_b {
@rw $path_h.as_ref().and_then(|$id_f| $id_g.try_writer().ok()) ==> stream_of_(&mut $path_h)
@rw .to_string() ==> .to_string_()
@spec
    ensures
      !apart(input@, output@, params.header_location) || (params.header_location matches HeaderLocation::Detached(p) && p@ == input@) ==> r is Err && final(wd).ops@ == old(wd).ops@,
      match r {
        Ok(_) => exists|y: Seq<Op>| #[trigger] enc_done(old(wd).ops@, y, input@, output@, *params, algorithm) && tame(old(wd).ops@, y, outs(output@, params.header_location), params.force is Force, false)
            && match params.erase { EraseMode::IgnoreFile => looks(y, final(wd).ops@), EraseMode::EraseFile(k) => erased(y, final(wd).ops@, input@, k as int, params.force is Force) },
        Err(_) => tame(old(wd).ops@, final(wd).ops@, outs(output@, params.header_location), params.force is Force, false)
            || exists|y: Seq<Op>| #[trigger] enc_done(old(wd).ops@, y, input@, output@, *params, algorithm) && tame(old(wd).ops@, y, outs(output@, params.header_location), params.force is Force, false)
                && (params.erase matches EraseMode::EraseFile(k) && erase_tried(y, final(wd).ops@, input@, k as int, params.force is Force)) }
@start
    let ghost o0 = wd.ops@;
    let ghost force = params.force is Force;
    proof {
        tame_start(o0, Outs { o: None, h: None }, force, false); tame_start(o0, Outs { o: Some(output@), h: None }, force, false); tame_start(o0, outs(output@, params.header_location), force, false);
        assert(names(input@, output@, *params));
    }
## ------------------------------------------------------------------ decrypt
@mod cli::subcommands
/// the header given apart, unless that is a directory
pub open spec fn apart_header(h: HeaderLocation) -> Option<Seq<char>> { match h { HeaderLocation::Detached(p) => if is_dir(p@) { None } else { Some(p@) }, HeaderLocation::Embedded => None } }
/// what the input decrypts to, under the secret, was written to the output, and flushed
pub closed spec fn dec_done(a: Seq<Op>, y: Seq<Op>, input: Seq<char>, output: Seq<char>, p: CryptoParams) -> bool {
    exists|ct: Seq<u8>, hb: Seq<u8>, pw: Seq<u8>, out: Seq<u8>|
        #[trigger] dec_facts(y, a.len() as int, input, output, p, ct, hb, pw, out)
}
pub open spec fn dec_facts(y: Seq<Op>, n: int, input: Seq<char>, output: Seq<char>, p: CryptoParams, ct: Seq<u8>, hb: Seq<u8>, pw: Seq<u8>, out: Seq<u8>) -> bool {
    content_of(ct, 0, if apart_header(p.header_location) is Some { Some((hb, 0)) } else { None }, pw) == Some(out) && pw.len() > 0
    && since(y, n, Fact::Content { path: input, data: ct }) && (apart_header(p.header_location) matches Some(h) ==> since(y, n, Fact::Content { path: h, data: hb }))
    && since(y, n, Fact::Secret { key: p.key, direct: true, s: pw }) && since(y, n, Fact::Written { path: output, data: out })
}
pub broadcast proof fn dec_is_done_1(y: Seq<Op>, a: Seq<Op>, t: Outs, force: bool, temps: bool, input: Seq<char>, output: Seq<char>, p: CryptoParams, ct: Seq<u8>, pw: Seq<u8>, out: Seq<u8>, n: int)
    requires #[trigger] tame(a, y, t, force, temps), #[trigger] names(input, output, p), apart_header(p.header_location) is None, #[trigger] since(y, n, Fact::Content { path: input, data: ct }), #[trigger] since(y, n, Fact::Secret { key: p.key, direct: true, s: pw }),
        #[trigger] since(y, n, Fact::Written { path: output, data: out }), content_of(ct, 0, None, pw) == Some(out), pw.len() > 0, n == a.len()
    ensures dec_done(a, y, input, output, p), looks(y, y)
{ looks_self(y); assert(dec_facts(y, a.len() as int, input, output, p, ct, Seq::empty(), pw, out)); }
pub broadcast proof fn dec_is_done_2(y: Seq<Op>, a: Seq<Op>, t: Outs, force: bool, temps: bool, input: Seq<char>, output: Seq<char>, p: CryptoParams, ct: Seq<u8>, hp: Seq<char>, hb: Seq<u8>, pw: Seq<u8>, out: Seq<u8>, n: int)
    requires #[trigger] tame(a, y, t, force, temps), #[trigger] names(input, output, p), apart_header(p.header_location) == Some(hp), #[trigger] since(y, n, Fact::Content { path: input, data: ct }), #[trigger] since(y, n, Fact::Content { path: hp, data: hb }),
        #[trigger] since(y, n, Fact::Secret { key: p.key, direct: true, s: pw }), #[trigger] since(y, n, Fact::Written { path: output, data: out }), content_of(ct, 0, Some((hb, 0)), pw) == Some(out), pw.len() > 0, n == a.len()
    ensures dec_done(a, y, input, output, p), looks(y, y)
{ looks_self(y); assert(dec_facts(y, a.len() as int, input, output, p, ct, hb, pw, out)); }
@uses cli::subcommands
use crate::tools::unpack::content_of;
@bcast cli::subcommands::decrypt broadcast use {crate::cli::subcommands::group_tame, crate::cli::subcommands::splice_fresh, crate::cli::subcommands::dec_is_done_1, crate::cli::subcommands::dec_is_done_2};
@uses cli::subcommands::decrypt
use crate::stubs::fs::{self, *}; use crate::stubs::path::*; use crate::stubs::{Texts, text_eq_}; use crate::tools::storage::{Entry, FileData, FileStorage, e_path}; use crate::cli::subcommands::{erased, erase_tried, outs, Outs, tame, tame_start, since, Fact, flushed_, stream_of_, dec_done, names, apart, among}; use crate::cli::cli::prompt::{looks_push, looks_self, looks_trans};
@fn cli::subcommands::decrypt::stream_mode
@world
@attr #[verifier::rlimit(60)]
@chains
@params input output params
@texts path input output
@rw exit($e_x) ==> crate::stubs::process::exit_declined_(wd, Ghost(o0))
@rw $id_s.flush_file(&$id_f) ==> flushed_(&*$id_s, &mut $id_f)
@rw $path_h.as_ref().and_then(|$id_f| $id_g.try_reader().ok()) ==> stream_of_(&mut $path_h)
@rw .to_string() ==> .to_string_()
@spec
    ensures
      !apart(input@, output@, params.header_location) ==> r is Err && final(wd).ops@ == old(wd).ops@,
      match r {
        Ok(_) => exists|y: Seq<Op>| #[trigger] dec_done(old(wd).ops@, y, input@, output@, *params) && tame(old(wd).ops@, y, Outs { o: Some(output@), h: None }, params.force is Force, false)
            && match params.erase { EraseMode::IgnoreFile => looks(y, final(wd).ops@), EraseMode::EraseFile(k) => erased(y, final(wd).ops@, input@, k as int, params.force is Force) },
        Err(_) => tame(old(wd).ops@, final(wd).ops@, Outs { o: Some(output@), h: None }, params.force is Force, false)
            || exists|y: Seq<Op>| #[trigger] dec_done(old(wd).ops@, y, input@, output@, *params) && tame(old(wd).ops@, y, Outs { o: Some(output@), h: None }, params.force is Force, false)
                && (params.erase matches EraseMode::EraseFile(k) && erase_tried(y, final(wd).ops@, input@, k as int, params.force is Force)) }
@start
    let ghost o0 = wd.ops@;
    let ghost force = params.force is Force;
    proof {
        tame_start(o0, Outs { o: None, h: None }, force, false); tame_start(o0, Outs { o: Some(output@), h: None }, force, false);
        assert(names(input@, output@, *params));
    }
## ------------------------------------------------------------------ dump
@mod cli::subcommands
/// the header of the input was written to the output, and flushed
pub closed spec fn dump_done(a: Seq<Op>, y: Seq<Op>, input: Seq<char>, output: Seq<char>) -> bool {
    exists|d: Seq<u8>, h: HdrV| parse(d) == Some(h) && #[trigger] since(y, a.len() as int, Fact::Content { path: input, data: d }) && #[trigger] since(y, a.len() as int, Fact::Written { path: output, data: ser(h) })
}
pub broadcast proof fn dump_is_done(y: Seq<Op>, a: Seq<Op>, t: Outs, force: bool, temps: bool, input: Seq<char>, output: Seq<char>, d: Seq<u8>, h: HdrV, n: int)
    requires #[trigger] tame(a, y, t, force, temps), parse(crate::stubs::model::from(d, 0)) == Some(h), n == a.len(), #[trigger] since(y, n, Fact::Content { path: input, data: d }), #[trigger] since(y, n, Fact::Written { path: output, data: ser(h) })
    ensures dump_done(a, y, input, output)
{ assert(crate::stubs::model::from(d, 0) =~= d); }
pub broadcast proof fn wrote_fresh<W: Write>(o: W, f: W, x: Seq<u8>) requires #[trigger] wrote(&o, &f, x), o.data().len() == 0, o.pos() == 0 ensures f.data() == x { splice_fresh(x, o.data()); }
@bcast cli::subcommands::header broadcast use {crate::cli::subcommands::group_tame, crate::cli::subcommands::splice_fresh, crate::cli::subcommands::dump_is_done, crate::cli::subcommands::wrote_fresh};
@uses cli::subcommands
use crate::stubs::io::wrote;
@uses cli::subcommands::header
use crate::stubs::fs::{self, *}; use crate::stubs::path::*; use crate::stubs::{Texts, text_eq_}; use crate::tools::storage::{Entry, FileData, FileStorage, e_path}; use crate::cli::subcommands::{Outs, tame, tame_start, since, Fact, flushed_, dump_done, among}; use crate::cli::cli::prompt::{looks_push, looks_self, looks_trans};
@fn cli::subcommands::header::dump
@world
@chains
@params input output force
@texts input output
@rw exit($e_x) ==> crate::stubs::process::exit_declined_(wd, Ghost(o0))
@rw std::process::crate::stubs ==> crate::stubs
@rw $id_s.flush_file(&$id_f) ==> flushed_(&*$id_s, &mut $id_f)
@spec
    ensures
      input@ == output@ ==> r is Err && final(wd).ops@ == old(wd).ops@,
      tame(old(wd).ops@, final(wd).ops@, Outs { o: Some(output@), h: None }, force is Force, false),
      r is Ok ==> dump_done(old(wd).ops@, final(wd).ops@, input@, output@)
@start
    let ghost o0 = wd.ops@;
    let ghost fo = force is Force;
    proof { tame_start(o0, Outs { o: None, h: None }, fo, false); tame_start(o0, Outs { o: Some(output@), h: None }, fo, false); }
## ------------------------------------------------------------------ pack
@mod cli::subcommands
/// the temporary archive of an operation that takes one: created new, erased and removed again
pub broadcast proof fn tame_temp(a: Seq<Op>, m0: Seq<Op>, b: Seq<Op>, m: Seq<Op>, t: Outs, force: bool)
    requires #[trigger] tame(a, m0, t, force, true), #[trigger] with_temp(m0, b, m), m.len() == m0.len() + 1 ensures tame(a, b, t, force, true)
{
    let o = m[m0.len() as int]; let l = b[m.len() as int]; let rest = b.skip(m.len() as int + 1);
    assert(m =~= m0.push(o)) by { assert(m.take(m0.len() as int) == m0); }
    tame_push(a, m0, o, t, force, true);
    let m2 = m.push(l);
    assert(rest.len() == b.len() - m2.len());
    assert(b.take(m2.len() as int) =~= m2) by { assert(b.take(m.len() as int) == m); }
    tame_push(a, m, l, t, force, true);
    if rest == Seq::<Op>::empty() { assert(b.len() == m2.len()); assert(b =~= b.take(m2.len() as int)); }
    else {
        let u = rest[0];
        assert(rest.len() == 1);
        assert(b.len() == m2.len() + 1);
        assert(u == b[m2.len() as int]);
        assert(b =~= m2.push(u)) by { assert(b.take(m2.len() as int) == m2); }
        assert(m2[m0.len() as int] == o) by { assert(m2[m0.len() as int] == m[m0.len() as int]); }
        assert(made(m2, a.len() as int, o->Open_path));
        tame_push(a, m2, u, t, force, true);
    }
}
pub broadcast proof fn since_temp(m0: Seq<Op>, b: Seq<Op>, m: Seq<Op>, n: int, f: Fact)
    requires #[trigger] since(m0, n, f), #[trigger] with_temp(m0, b, m), !(f is Written) ensures since(b, n, f)
{ assert(b.take(m0.len() as int) =~= m.take(m0.len() as int)) by { assert(b.take(m.len() as int) == m); assert(m.take(m0.len() as int) =~= b.take(m.len() as int).take(m0.len() as int)); } since_ext(m0, b, n, f); }
@uses cli::subcommands
use crate::tools::pack::{with_temp, temp_gone, packed};
@mod cli::subcommands
/// an archive of the inputs, encrypted under the secret, was written to the outputs, and flushed
pub closed spec fn pack_done(a: Seq<Op>, y: Seq<Op>, output: Seq<char>, p: CryptoParams, alg: Algorithm) -> bool {
    exists|es: Seq<ZEnt>, pw: Seq<u8>, z: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>|
        #[trigger] packed(stream_type(alg), p.hashing_algorithm, pw, es, z, h, mk, head, body) && written(a, y, output, p.header_location, head, body) && pw.len() > 0
        && since(y, a.len() as int, Fact::Secret { key: p.key, direct: false, s: pw })
}
pub broadcast proof fn pack_is_done(a: Seq<Op>, y: Seq<Op>, t: Outs, force: bool, temps: bool, ty: HeaderType, ha: HashingAlgorithm, input: Seq<char>, output: Seq<char>, p: CryptoParams, es: Seq<ZEnt>, pw: Seq<u8>, z: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>)
    requires #[trigger] tame(a, y, t, force, temps), #[trigger] packed(ty, ha, pw, es, z, h, mk, head, body), ty == stream_type(ty.algorithm), ha == p.hashing_algorithm,
        #[trigger] names(input, output, p), written(a, y, output, p.header_location, head, body), pw.len() > 0,
        since(y, a.len() as int, Fact::Secret { key: p.key, direct: false, s: pw })
    ensures pack_done(a, y, output, p, ty.algorithm), looks(y, y)
{ looks_self(y); }
/// all of these were erased, one after the other
#[verifier::opaque]
pub open spec fn all_erased(a: Seq<Op>, b: Seq<Op>, ps: Seq<String>, force: bool) -> bool decreases ps.len() {
    if ps.len() == 0 { b == a } else { exists|m: Seq<Op>| all_erased(a, m, ps.drop_last(), force) && #[trigger] erased(m, b, ps.last()@, 1, force) }
}
/// the first of them were erased, and erasing the next one was tried
#[verifier::opaque]
pub open spec fn all_erase_tried(a: Seq<Op>, b: Seq<Op>, ps: Seq<String>, force: bool) -> bool {
    exists|i: int, m: Seq<Op>| 0 <= i < ps.len() && #[trigger] all_erased(a, m, ps.take(i), force) && erase_tried(m, b, ps[i]@, 1, force)
}
pub proof fn all_erased_none(a: Seq<Op>, ps: Seq<String>, force: bool) requires ps.len() == 0 ensures all_erased(a, a, ps, force) { reveal(all_erased); }
pub proof fn all_erased_next(a: Seq<Op>, m: Seq<Op>, ps: Seq<String>, i: int, force: bool)
    requires 0 <= i < ps.len(), all_erased(a, m, ps.take(i), force)
    ensures forall|b: Seq<Op>| #[trigger] erased(m, b, ps[i]@, 1, force) ==> all_erased(a, b, ps.take(i + 1), force), forall|b: Seq<Op>| #[trigger] erase_tried(m, b, ps[i]@, 1, force) ==> all_erase_tried(a, b, ps, force)
{
    reveal(all_erased); reveal(all_erase_tried);
    let q = ps.take(i + 1);
    assert(q.drop_last() =~= ps.take(i)); assert(q.last() == ps[i]);
    assert forall|b: Seq<Op>| #[trigger] erased(m, b, ps[i]@, 1, force) implies all_erased(a, b, q, force) by { assert(q.len() > 0); assert(all_erased(a, m, q.drop_last(), force) && erased(m, b, q.last()@, 1, force)); }
}
/// one of these paths is that one
pub open spec fn one_of(p: Seq<char>, v: Seq<String>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == p }
pub open spec fn clash(inputs: Seq<String>, output: Seq<char>, h: HeaderLocation) -> bool { one_of(output, inputs) || (h matches HeaderLocation::Detached(p) && (p@ == output || one_of(p@, inputs))) }
pub broadcast proof fn reads_look(a: Seq<Op>, b: Seq<Op>) requires #[trigger] only_reads(a, b) ensures looks(a, b) { reveal(looks); }
pub broadcast proof fn listed_look<RW: Read + Write + Seek>(a: Seq<Op>, b: Seq<Op>, ps: Seq<Seq<char>>, v: Seq<Entry<RW>>) requires #[trigger] listed(a, b, ps, v) ensures looks(a, b) { listed_reads(a, b, ps, v); reveal(looks); }
@uses cli::subcommands
use crate::stubs::zip::ZEnt; use crate::tools::storage::{only_reads, listed, listed_reads};
@bcast cli::subcommands::pack broadcast use {crate::cli::subcommands::reads_look, crate::cli::subcommands::listed_look, crate::cli::subcommands::group_tame, crate::cli::subcommands::tame_temp, crate::cli::subcommands::since_temp, crate::cli::subcommands::splice_fresh, crate::cli::subcommands::pack_is_done};
@uses cli::subcommands::pack
use crate::stubs::fs::{self, *}; use crate::stubs::path::*; use crate::stubs::zip::{self, *}; use crate::stubs::{Texts, text_eq_}; use crate::tools::storage::{Entry, FileData, FileStorage, e_path, only_reads, listed, listed_reads}; use crate::cli::subcommands::{all_erased, all_erase_tried, all_erased_none, all_erased_next, one_of, clash, outs, Outs, tame, tame_start, since, Fact, flushed_, stream_of_, pack_done, names, among}; use crate::cli::cli::prompt::{looks_push, looks_self, looks_trans};
@fn cli::subcommands::pack::execute
@world
@chains
@attr #[verifier::rlimit(100)]
@params req
@texts path f req.output_file file_name
@rw exit($e_x) ==> crate::stubs::process::exit_declined_(wd, Ghost(o0))
@rw $id_s.flush_file(&$id_f) ==> flushed_(&*$id_s, &mut $id_f)
@rw if let Some($id_a) = $id_b { ==> if let Some(mut $id_a) = $id_b {
@rw $path_h.as_ref().and_then(|$id_f| $id_g.try_writer().ok()) ==> stream_of_(&mut $path_h)
@rw .to_string() ==> .to_string_()
@spec
    ensures
      clash(req.input_file@, req.output_file@, req.crypto_params.header_location) ==> r is Err && final(wd).ops@ == old(wd).ops@,
      match r {
        Ok(_) => exists|y: Seq<Op>| #[trigger] pack_done(old(wd).ops@, y, req.output_file@, req.crypto_params, req.algorithm) && tame(old(wd).ops@, y, outs(req.output_file@, req.crypto_params.header_location), req.crypto_params.force is Force, true)
            && if req.pack_params.erase_source is Erase { all_erased(y, final(wd).ops@, req.input_file@, req.crypto_params.force is Force) } else { looks(y, final(wd).ops@) },
        Err(_) => tame(old(wd).ops@, final(wd).ops@, outs(req.output_file@, req.crypto_params.header_location), req.crypto_params.force is Force, true)
            || exists|y: Seq<Op>| #[trigger] pack_done(old(wd).ops@, y, req.output_file@, req.crypto_params, req.algorithm) && tame(old(wd).ops@, y, outs(req.output_file@, req.crypto_params.header_location), req.crypto_params.force is Force, true)
                && req.pack_params.erase_source is Erase && all_erase_tried(y, final(wd).ops@, req.input_file@, req.crypto_params.force is Force) }
@start
    let ghost o0 = wd.ops@;
    let ghost force = req.crypto_params.force is Force;
    let ghost hl = req.crypto_params.header_location;
    proof {
        tame_start(o0, Outs { o: None, h: None }, force, false); tame_start(o0, Outs { o: Some(req.output_file@), h: None }, force, false); tame_start(o0, outs(req.output_file@, hl), force, true);
        assert(names(Seq::empty(), req.output_file@, req.crypto_params));
    }
@loop 0
    invariant it__0 <= v__0@.len(), v__0@ == req.input_file@, any__1 ==> one_of(req.output_file@, req.input_file@), !any__1 ==> forall|j: int| 0 <= j < it__0 ==> (#[trigger] req.input_file@[j])@ != req.output_file@,
    ensures any__1 == one_of(req.output_file@, req.input_file@),
    decreases v__0@.len() - it__0
@loop 1
    invariant it__1 <= v__1@.len(), v__1@ == req.input_file@, any__2 ==> one_of(path@, req.input_file@), !any__2 ==> forall|j: int| 0 <= j < it__1 ==> (#[trigger] req.input_file@[j])@ != path@,
    ensures any__2 == one_of(path@, req.input_file@),
    decreases v__1@.len() - it__1
@loop 2
    invariant it__2 <= v__2@.len(),
    ensures true,
    decreases v__2@.len() - it__2
@loop 3 before
    let ghost o1 = wd.ops@;
    proof { looks_self(o1); }
@loop 3 attr
    #[verifier::loop_isolation(false)]
@loop 3
    invariant it__3 <= v__3@.len(), looks(o1, wd.ops@),
    decreases v__3@.len() - it__3
@loop 3 begin
    proof { let c = wd.ops@; assert forall|x: Op| look(x) implies looks(o1, #[trigger] c.push(x)) by { looks_push(o1, c, x); } }
@loop 4 before
    let ghost o2 = wd.ops@;
    proof { looks_self(o2); }
@loop 4 attr
    #[verifier::loop_isolation(false)]
@loop 4
    invariant it__4 <= v__4@.len(), looks(o2, wd.ops@),
    decreases v__4@.len() - it__4
@loop 4 begin
    proof { let c = wd.ops@; assert forall|b: Seq<Op>| #[trigger] looks(c, b) implies looks(o2, b) by { looks_trans(o2, c, b); } looks_self(c); }
@loop 5 attr
    #[verifier::loop_isolation(false)]
@loop 5
    invariant it__5 <= v__5@.len(),
    decreases v__5@.len() - it__5
@loop 6 attr
    #[verifier::loop_isolation(false)]
@loop 6
    invariant it__6 <= v__6@.len(),
    decreases v__6@.len() - it__6
@loop 7 before
    let ghost y = wd.ops@;
    proof { all_erased_none(y, req.input_file@.take(0), force); }
@loop 7 attr
    #[verifier::loop_isolation(false)]
@loop 7
    invariant it__7 <= v__7@.len(), v__7@ == req.input_file@, all_erased(y, wd.ops@, req.input_file@.take(it__7 as int), force),
    decreases v__7@.len() - it__7
@loop 7 begin
    proof { all_erased_next(y, wd.ops@, req.input_file@, it__7 as int, force); }
@loop 7 after
    proof { assert(req.input_file@.take(v__7@.len() as int) =~= req.input_file@); }
## ------------------------------------------------------------------ from the arguments to the subcommands
@mod cli::subcommands
/// what the arguments say: where from, where to, and how
pub open spec fn told(m: &ArgMatches, p: CryptoParams) -> bool {
    m.text("input"@) is Some && m.text("output"@) is Some && wanted(m, p) && erase_asked(m, p.erase) && source_is(m, &all_sources(), "keyfile"@, p.key)
}
/// encrypting was done, and the source erased if that was asked for
pub open spec fn encrypt_ran(a: Seq<Op>, b: Seq<Op>, m: &ArgMatches, input: Seq<char>, output: Seq<char>, p: CryptoParams, alg: Algorithm) -> bool {
    exists|y: Seq<Op>| #[trigger] enc_done(a, y, input, output, p, alg) && tame(a, y, outs(output, p.header_location), m.on("force"@), false)
        && if m.has("erase"@) { erased(y, b, input, number(m, "erase"@, 1), m.on("force"@)) } else { looks(y, b) }
}
/// it failed: nothing but the outputs was changed, or the source was being erased as asked, after everything had been written
pub open spec fn encrypt_stopped(a: Seq<Op>, b: Seq<Op>, m: &ArgMatches, input: Seq<char>, output: Seq<char>, p: CryptoParams, alg: Algorithm) -> bool {
    tame(a, b, outs(output, p.header_location), m.on("force"@), false)
    || exists|y: Seq<Op>| #[trigger] enc_done(a, y, input, output, p, alg) && tame(a, y, outs(output, p.header_location), m.on("force"@), false) && m.has("erase"@) && erase_tried(y, b, input, number(m, "erase"@, 1), m.on("force"@))
}
pub open spec fn decrypt_ran(a: Seq<Op>, b: Seq<Op>, m: &ArgMatches, input: Seq<char>, output: Seq<char>, p: CryptoParams) -> bool {
    exists|y: Seq<Op>| #[trigger] dec_done(a, y, input, output, p) && tame(a, y, Outs { o: Some(output), h: None }, m.on("force"@), false)
        && if m.has("erase"@) { erased(y, b, input, number(m, "erase"@, 1), m.on("force"@)) } else { looks(y, b) }
}
pub open spec fn decrypt_stopped(a: Seq<Op>, b: Seq<Op>, m: &ArgMatches, input: Seq<char>, output: Seq<char>, p: CryptoParams) -> bool {
    tame(a, b, Outs { o: Some(output), h: None }, m.on("force"@), false)
    || exists|y: Seq<Op>| #[trigger] dec_done(a, y, input, output, p) && tame(a, y, Outs { o: Some(output), h: None }, m.on("force"@), false) && m.has("erase"@) && erase_tried(y, b, input, number(m, "erase"@, 1), m.on("force"@))
}
pub open spec fn cipher_asked(m: &ArgMatches) -> Algorithm { if m.on("aes"@) { Algorithm::Aes256Gcm } else { Algorithm::XChaCha20Poly1305 } }
pub open spec fn told_pack(m: &ArgMatches, inputs: Seq<String>, p: CryptoParams) -> bool {
    m.texts("input"@) == Some(views(inputs)) && m.text("output"@) is Some && wanted(m, p) && source_is(m, &all_sources(), "keyfile"@, p.key)
}
pub open spec fn pack_ran(a: Seq<Op>, b: Seq<Op>, m: &ArgMatches, inputs: Seq<String>, output: Seq<char>, p: CryptoParams, alg: Algorithm) -> bool {
    exists|y: Seq<Op>| #[trigger] pack_done(a, y, output, p, alg) && tame(a, y, outs(output, p.header_location), m.on("force"@), true)
        && if m.on("erase"@) { all_erased(y, b, inputs, m.on("force"@)) } else { looks(y, b) }
}
pub open spec fn pack_stopped(a: Seq<Op>, b: Seq<Op>, m: &ArgMatches, inputs: Seq<String>, output: Seq<char>, p: CryptoParams, alg: Algorithm) -> bool {
    tame(a, b, outs(output, p.header_location), m.on("force"@), true)
    || exists|y: Seq<Op>| #[trigger] pack_done(a, y, output, p, alg) && tame(a, y, outs(output, p.header_location), m.on("force"@), true) && m.on("erase"@) && all_erase_tried(y, b, inputs, m.on("force"@))
}
@uses cli::subcommands
use crate::cli::global::parameters::*; use crate::cli::global::states::*; use crate::stubs::clap::*; use crate::stubs::Texts;
@fn cli::subcommands::encrypt
@world
@params sub_matches
@spec
    requires sub_matches.defined("keyfile"@), sub_matches.defined("erase"@), sub_matches.defined("header"@), sub_matches.defined("input"@), sub_matches.defined("output"@),
    ensures match r {
        Ok(_) => exists|p: CryptoParams| #[trigger] wanted(sub_matches, p) && told(sub_matches, p) && encrypt_ran(old(wd).ops@, final(wd).ops@, sub_matches, sub_matches.text("input"@).unwrap(), sub_matches.text("output"@).unwrap(), p, cipher_asked(sub_matches)),
        Err(_) => final(wd).ops@ == old(wd).ops@ || exists|p: CryptoParams| #[trigger] wanted(sub_matches, p) && told(sub_matches, p) && encrypt_stopped(old(wd).ops@, final(wd).ops@, sub_matches, sub_matches.text("input"@).unwrap(), sub_matches.text("output"@).unwrap(), p, cipher_asked(sub_matches)) }
@fn cli::subcommands::decrypt
@world
@params sub_matches
@spec
    requires sub_matches.defined("keyfile"@), sub_matches.defined("erase"@), sub_matches.defined("header"@), sub_matches.defined("input"@), sub_matches.defined("output"@),
    ensures match r {
        Ok(_) => exists|p: CryptoParams| #[trigger] wanted(sub_matches, p) && told(sub_matches, p) && decrypt_ran(old(wd).ops@, final(wd).ops@, sub_matches, sub_matches.text("input"@).unwrap(), sub_matches.text("output"@).unwrap(), p),
        Err(_) => final(wd).ops@ == old(wd).ops@ || exists|p: CryptoParams| #[trigger] wanted(sub_matches, p) && told(sub_matches, p) && decrypt_stopped(old(wd).ops@, final(wd).ops@, sub_matches, sub_matches.text("input"@).unwrap(), sub_matches.text("output"@).unwrap(), p) }
@fn cli::subcommands::erase
@world
@params sub_matches
@spec
    requires sub_matches.defined("passes"@), sub_matches.defined("input"@),
    ensures final(wd).ops@ == old(wd).ops@ && r is Err || (sub_matches.text("input"@) matches Some(i)
        && ({ let n = if sub_matches.has("passes"@) { number(sub_matches, "passes"@, 1) } else { 1 };
              if r is Ok { erased(old(wd).ops@, final(wd).ops@, i, n, sub_matches.on("force"@)) } else { erase_tried(old(wd).ops@, final(wd).ops@, i, n, sub_matches.on("force"@)) } }))
@fn cli::subcommands::pack
@world
@params sub_matches
@spec
    requires sub_matches.defined("keyfile"@), sub_matches.defined("header"@), sub_matches.defined("input"@), sub_matches.defined("output"@),
    ensures match r {
        Ok(_) => exists|i: Seq<String>, p: CryptoParams| #[trigger] wanted(sub_matches, p) && Some(#[trigger] views(i)) == sub_matches.texts("input"@) && told_pack(sub_matches, i, p) && pack_ran(old(wd).ops@, final(wd).ops@, sub_matches, i, sub_matches.text("output"@).unwrap(), p, cipher_asked(sub_matches)),
        Err(_) => final(wd).ops@ == old(wd).ops@ || exists|i: Seq<String>, p: CryptoParams| #[trigger] wanted(sub_matches, p) && Some(#[trigger] views(i)) == sub_matches.texts("input"@) && told_pack(sub_matches, i, p) && pack_stopped(old(wd).ops@, final(wd).ops@, sub_matches, i, sub_matches.text("output"@).unwrap(), p, cipher_asked(sub_matches)) }
@fn cli::subcommands::hash_stream
@world
@params sub_matches
@rw $r_x.map(|$id_s| $id_s.to_string()).collect() ==> strings_($r_x)
@spec
    requires sub_matches.defined("input"@),
    ensures looks(old(wd).ops@, final(wd).ops@)
## ------------------------------------------------------------------ unpack
@uses cli::subcommands
use crate::tools::unpack::{confined, unpacked_of, unpacks, unpacks_some};
@mod cli::subcommands
/// one archive was unpacked, or not: through a temporary file that is erased, writing only below the output directory, asking for each entry
pub open spec fn unpack_ran(l: Seq<Op>, e: Seq<Op>, m: Seq<Op>, output: Seq<char>, data: Seq<u8>, hdr: Option<(Seq<u8>, nat)>, pw: Seq<u8>, ok: bool) -> bool {
    with_temp(l, e, m) && ({
        let a = l.push(m[l.len() as int]);
        let tf = e[m.len() as int]->Last_faulty;
        confined(a, m, output, true) && match unpacked_of(data, 0, hdr, pw) {
            None => !ok && m == a,
            Some(es) => if ok { unpacks(es, output, tf, true, a, m) } else { m == a || unpacks_some(es, output, tf, true, a, m) } } })
}
pub open spec fn hdr_arg(p: CryptoParams, hb: Seq<u8>) -> Option<(Seq<u8>, nat)> { if apart_header(p.header_location) is Some { Some((hb, 0)) } else { None } }
/// what the input (with the header given apart) holds under the secret was unpacked, or some of it; before and after, files were only looked at
pub closed spec fn unpack_did(a: Seq<Op>, b: Seq<Op>, input: Seq<char>, output: Seq<char>, p: CryptoParams, ok: bool) -> bool {
    !ok && tame(a, b, Outs { o: None, h: None }, p.force is Force, false) || exists|l: Seq<Op>, m: Seq<Op>, e: Seq<Op>, data: Seq<u8>, hb: Seq<u8>, pw: Seq<u8>, done: bool|
        tame(a, l, Outs { o: None, h: None }, p.force is Force, false) && #[trigger] unpack_ran(l, e, m, output, data, hdr_arg(p, hb), pw, done) && #[trigger] looks(e, b) && (ok ==> done)
        && since(l, a.len() as int, Fact::Content { path: input, data }) && (apart_header(p.header_location) matches Some(h) ==> since(l, a.len() as int, Fact::Content { path: h, data: hb }))
        && since(l, a.len() as int, Fact::Secret { key: p.key, direct: true, s: pw }) && pw.len() > 0
}
pub broadcast proof fn unpack_not(a: Seq<Op>, b: Seq<Op>, input: Seq<char>, output: Seq<char>, p: CryptoParams)
    requires #[trigger] tame(a, b, Outs { o: None, h: None }, p.force is Force, false), #[trigger] names(input, output, p) ensures unpack_did(a, b, input, output, p, false) {}
pub broadcast proof fn unpack_is_1(a: Seq<Op>, l: Seq<Op>, x: Seq<Op>, e: Seq<Op>, m: Seq<Op>, input: Seq<char>, output: Seq<char>, p: CryptoParams, data: Seq<u8>, pw: Seq<u8>, n: int)
    requires #[trigger] tame(a, l, Outs { o: None, h: None }, p.force is Force, false), #[trigger] with_temp(l, e, m), #[trigger] names(input, output, p), x == l.push(m[l.len() as int]), #[trigger] confined(x, m, output, true), apart_header(p.header_location) is None, n == a.len(),
        #[trigger] since(l, n, Fact::Content { path: input, data }), #[trigger] since(l, n, Fact::Secret { key: p.key, direct: true, s: pw }), pw.len() > 0
    ensures unpack_ran(l, e, m, output, data, None, pw, true) ==> unpack_did(a, e, input, output, p, true), unpack_ran(l, e, m, output, data, None, pw, false) ==> unpack_did(a, e, input, output, p, false)
{ looks_self(e); assert(hdr_arg(p, Seq::empty()) == None::<(Seq<u8>, nat)>); }
pub broadcast proof fn unpack_is_2(a: Seq<Op>, l: Seq<Op>, x: Seq<Op>, e: Seq<Op>, m: Seq<Op>, input: Seq<char>, output: Seq<char>, p: CryptoParams, data: Seq<u8>, hp: Seq<char>, hb: Seq<u8>, pw: Seq<u8>, n: int)
    requires #[trigger] tame(a, l, Outs { o: None, h: None }, p.force is Force, false), #[trigger] with_temp(l, e, m), #[trigger] names(input, output, p), x == l.push(m[l.len() as int]), #[trigger] confined(x, m, output, true), apart_header(p.header_location) == Some(hp), n == a.len(),
        #[trigger] since(l, n, Fact::Content { path: input, data }), #[trigger] since(l, n, Fact::Content { path: hp, data: hb }), #[trigger] since(l, n, Fact::Secret { key: p.key, direct: true, s: pw }), pw.len() > 0
    ensures unpack_ran(l, e, m, output, data, Some((hb, 0)), pw, true) ==> unpack_did(a, e, input, output, p, true), unpack_ran(l, e, m, output, data, Some((hb, 0)), pw, false) ==> unpack_did(a, e, input, output, p, false)
{ looks_self(e); assert(hdr_arg(p, hb) == Some((hb, 0nat))); }
pub broadcast proof fn unpack_then(a: Seq<Op>, e: Seq<Op>, b: Seq<Op>, input: Seq<char>, output: Seq<char>, p: CryptoParams, ok: bool)
    requires #[trigger] unpack_did(a, e, input, output, p, ok), #[trigger] looks(e, b) ensures unpack_did(a, b, input, output, p, ok), unpack_did(a, b, input, output, p, false)
{ 
    if tame(a, e, Outs { o: None, h: None }, p.force is Force, false) { tame_looks(a, e, b, Outs { o: None, h: None }, p.force is Force, false); }
    if !(!ok && tame(a, e, Outs { o: None, h: None }, p.force is Force, false)) {
        let (l, m, e2, data, hb, pw, done) = choose|l: Seq<Op>, m: Seq<Op>, e2: Seq<Op>, data: Seq<u8>, hb: Seq<u8>, pw: Seq<u8>, done: bool|
            tame(a, l, Outs { o: None, h: None }, p.force is Force, false) && #[trigger] unpack_ran(l, e2, m, output, data, hdr_arg(p, hb), pw, done) && #[trigger] looks(e2, e) && (ok ==> done)
            && since(l, a.len() as int, Fact::Content { path: input, data }) && (apart_header(p.header_location) matches Some(h) ==> since(l, a.len() as int, Fact::Content { path: h, data: hb }))
            && since(l, a.len() as int, Fact::Secret { key: p.key, direct: true, s: pw }) && pw.len() > 0;
        looks_trans(e2, e, b);
    }
}
@bcast cli::subcommands::unpack broadcast use {crate::cli::subcommands::group_tame, crate::cli::subcommands::unpack_not, crate::cli::subcommands::unpack_is_1, crate::cli::subcommands::unpack_is_2, crate::cli::subcommands::unpack_then};
@uses cli::subcommands::unpack
use crate::stubs::fs::{self, *}; use crate::stubs::path::*; use crate::stubs::Texts; use crate::tools::storage::{Entry, FileData, FileStorage, e_path}; use crate::cli::subcommands::{stream_of_, unpack_did, names, since, Fact, tame, tame_start, Outs}; use crate::cli::cli::prompt::{looks_push, looks_self, looks_trans, consulted};
@fn cli::subcommands::unpack::unpack#ask_entry_
@lift cli::subcommands::unpack::unpack
@world
@sig fn ask_entry_(wd: &mut World, file_path: PathBuf, params: &CryptoParams, print_mode: PrintMode, failure: &mut Option<crate::stubs::anyhow::Error>) -> (r: bool)
@rw let file_name = $e_n; ==> let file_name = crate::stubs::text_();
@rw $r_x.unwrap_or_else(|$id_e| { *$id_f.borrow_mut() = Some($id_e); false }) ==> (match $r_x { Ok(v__) => v__, Err($id_e) => { *$id_f = Some($id_e); false } })
@spec
    ensures
      // an entry is extracted when nothing is there, when forced, or when the user agreed
      r ==> consulted(old(wd).ops@, final(wd).ops@, file_path@, params.force is Force, true) && *final(failure) == *old(failure),
      // it is skipped when the user declined, or when there was no answer
      !r ==> !(params.force is Force) && (consulted(old(wd).ops@, final(wd).ops@, file_path@, false, false) && *final(failure) == *old(failure)
          || looks(old(wd).ops@.push(Op::Exists { path: file_path@, yes: true }), final(wd).ops@) && *final(failure) is Some)
@start
    proof { reveal(consulted); }
@fn cli::subcommands::unpack::unpack
@world
@params input output print_mode params
@texts path input output
@rw Rc::new(RefCell::new(None)) ==> crate::stubs::anyhow::Later::new()
@rw Rc::clone(&$id_u) ==> ()
@rw $path_h.as_ref().and_then(|$id_f| $id_g.try_reader().ok()) ==> stream_of_(&mut $path_h)
@rw Some(Box::new(move |file_path| $e_body)) ==> Some(crate::tools::unpack::OnZipFileFn::of_())
@rw .to_string() ==> .to_string_()
@spec
    ensures
      unpack_did(old(wd).ops@, final(wd).ops@, input@, output@, params, r is Ok)
@start
    let ghost o0 = wd.ops@;
    proof { tame_start(o0, Outs { o: None, h: None }, params.force is Force, false); assert(names(input@, output@, params)); looks_self(o0); }
@fn cli::subcommands::unpack
@world
@params sub_matches
@spec
    requires sub_matches.defined("keyfile"@), sub_matches.defined("erase"@), sub_matches.defined("header"@), sub_matches.defined("input"@), sub_matches.defined("output"@),
    ensures
        final(wd).ops@ == old(wd).ops@ && r is Err
        || exists|p: CryptoParams| #[trigger] wanted(sub_matches, p) && told(sub_matches, p) && unpack_did(old(wd).ops@, final(wd).ops@, sub_matches.text("input"@).unwrap(), sub_matches.text("output"@).unwrap(), p, r is Ok)
