## Contracts on pack and unpack
@worldcall zip::copy .by_call_
@dropuse zip::write::FileOptions
@uses tools::pack
use crate::stubs::fs::*; use crate::stubs::path::*; use crate::stubs::zip::{self, *}; use crate::stubs::zip::write::FileOptions; use crate::tools::storage; use crate::tools::storage::*; use crate::corecrypto::header::*; use crate::tools::encrypt::{self, encrypted}; use crate::tools::overwrite::*;
@mod tools::pack
/// what a file or directory is stored as
pub open spec fn ent_of<RW: Read + Write + Seek>(e: Entry<RW>) -> ZEnt {
    match e { Entry::Dir(p) => ZEnt { name: zdirname(p@), dir: true, data: Seq::empty() }, Entry::File(f) => ZEnt { name: zname(f.path@), dir: false, data: from(f.stream.data(), f.stream.pos()) } }
}
pub open spec fn ents_of<RW: Read + Write + Seek>(v: Seq<Entry<RW>>) -> Seq<ZEnt> { v.map_values(|e: Entry<RW>| ent_of(e)) }
/// an entry that can't be archived: no name, a failing reader, or a name that the format refuses
pub open spec fn bad_entry<RW: Read + Write + Seek>(v: Seq<Entry<RW>>, i: int) -> bool {
    !is_text(e_path(v[i])) || (v[i] is File && v[i]->File_0.stream.faulty()) || !addable(ents_of(v.take(i)), ent_of(v[i]).name)
}
/// overwritten in full at least once, with zeros last, and nothing done to it afterwards
pub open spec fn wiped_all(log: Seq<Ev>, d: Seq<u8>) -> bool {
    d == zeros(d.len()) && exists|n: int, k: int| 0 <= n <= log.len() && #[trigger] wiped(log.skip(n), k, d.len())
}
/// the temporary file was created new; the last thing done to it was overwriting all of it, after that it was removed
pub open spec fn temp_gone(o: Op, l: Op, rest: Seq<Op>) -> bool {
    match (o, l) {
        (Op::Open { path, flags, id, data }, Op::Last { path: p2, id: i2, log, data: d2, faulty }) => p2 == path && i2 == id && flags == NEW() && (faulty || wiped_all(log, d2)) && (rest == Seq::<Op>::empty() || rest == seq![Op::Unlink { path }]),
        _ => false }
}
/// from a to b, with m in between
pub open spec fn with_temp(a: Seq<Op>, b: Seq<Op>, m: Seq<Op>) -> bool {
    m.len() > a.len() && m.take(a.len() as int) == a && b.len() > m.len() && b.take(m.len() as int) == m && temp_gone(m[a.len() as int], b[m.len() as int], b.skip(m.len() as int + 1))
}
pub proof fn with_temp_is(a: Seq<Op>, m: Seq<Op>, l: Op, rest: Seq<Op>)
    requires m.len() > a.len(), m.take(a.len() as int) == a, temp_gone(m[a.len() as int], l, rest)
    ensures with_temp(a, m.push(l) + rest, m)
{ let b = m.push(l) + rest; assert(b.take(m.len() as int) =~= m); assert(b.skip(m.len() as int + 1) =~= rest); }
pub open spec fn packed(t: HeaderType, ha: HashingAlgorithm, pw: Seq<u8>, es: Seq<ZEnt>, z: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>) -> bool {
    encrypted(t, ha, pw, z, h, mk, head, body) && parse_zip(z) == Some(es) && (forall|i: int| 0 <= i < es.len() ==> readable(#[trigger] es[i]))
}
@fn tools::pack::archive_and_encrypt
@sigrw tmp_file: &crate::storage::Entry<RW> ==> tmp_file: &mut crate::storage::Entry<RW>
@params tmp_file req
@chains
@mutlets
@spec
    requires *old(tmp_file) is File, old(tmp_file)->File_0.stream.data().len() == 0, old(tmp_file)->File_0.stream.pos() == 0, !(req.header_type.version is V3)
    ensures
      *final(tmp_file) is File, final(tmp_file)->File_0.path == old(tmp_file)->File_0.path,
      final(tmp_file)->File_0.stream.id() == old(tmp_file)->File_0.stream.id(), final(tmp_file)->File_0.stream.faulty() == old(tmp_file)->File_0.stream.faulty(),
      match r {
        Ok(_) => exists|z: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>|
            #[trigger] packed(req.header_type, req.hashing_algorithm, req.raw_key.data@, ents_of(req.compress_files@), z, h, mk, head, body)
            && if req.header_writer is None { final(req.writer).data() == splice(old(req.writer).data(), 0, head + body) }
               else { final(req.writer).data() == splice(old(req.writer).data(), 0, body)
                   && final(req.header_writer->0).data() == splice(old(req.header_writer->0).data(), 0, head) }
            && final(req.writer).log().len() > 0 && final(req.writer).log().last() == Ev::Flush,
        Err(e) => old(tmp_file)->File_0.stream.faulty() || old(req.writer).faulty() || (req.header_writer is Some && old(req.header_writer->0).faulty())
            || (exists|i: int| 0 <= i < req.compress_files@.len() && #[trigger] bad_entry(req.compress_files@, i))
            || unhashable(req.raw_key.data@) || !known(req.hashing_algorithm) || req.header_type.mode is MemoryMode
            || req.header_type.version is V1 || req.header_type.version is V2 || final(tmp_file)->File_0.stream.data().len() >= BLOCK * MAX_CTR,
      }
@start
    let ghost fs0 = req.compress_files@;
    let ghost tf = tmp_file->File_0.stream.faulty();
    proof { assert(ents_of(fs0.take(0)) =~= Seq::empty()); assert(fs0.take(fs0.len() as int) =~= fs0); }
@loop 0 before
    let ghost zend = zip_writer.end();
    let ghost zfresh = zip_writer.fresh();
@loop 0
    invariant
        it__0 <= v__0@.len(), v__0@.len() == fs0.len(), forall|j: int| it__0 <= j < fs0.len() ==> v__0@[j] == fs0[j],
        zip_writer.ents() == ents_of(fs0.take(it__0 as int)), zip_writer.end() == zend, zip_writer.fresh() == zfresh, zip_writer.faulty() == tf,
        fs0 == req.compress_files@, tf == old(tmp_file)->File_0.stream.faulty(),
    decreases v__0@.len() - it__0
@loop 0 begin
    let ghost n = it__0 as int;
    let ghost es = ents_of(fs0.take(n));
    proof { assert(fs0.take(n + 1).drop_last() =~= fs0.take(n)); assert(ents_of(fs0.take(n + 1)) =~= es.push(ent_of(fs0[n]))); if bad_entry(fs0, n) {} assert(fs0[n]->File_0.stream.pos() <= fs0[n]->File_0.stream.data().len() ==> fs0[n]->File_0.stream.data().subrange(fs0[n]->File_0.stream.pos() as int, fs0[n]->File_0.stream.pos() as int) =~= Seq::empty()); }
@loop 1 before
    let ghost d0 = reader.data();
    let ghost p0 = reader.pos();
@loop 1
    invariant
        reader.data() == d0, reader.faulty() == fs0[n]->File_0.stream.faulty(), fs0[n] is File, p0 == fs0[n]->File_0.stream.pos(), d0 == fs0[n]->File_0.stream.data(),
        p0 <= reader.pos(), reader.pos() <= d0.len() || reader.pos() == p0,
        buffer@.len() > 0, 0 <= n < fs0.len(), es == ents_of(fs0.take(n)),
        zip_writer.ents() == es.push(ZEnt { name: zname(e_path(fs0[n])), dir: false, data: if p0 <= d0.len() { d0.subrange(p0 as int, reader.pos() as int) } else { Seq::empty() } }),
        zip_writer.end() == zend, zip_writer.fresh() == zfresh, zip_writer.faulty() == tf, fs0 == req.compress_files@, tf == old(tmp_file)->File_0.stream.faulty(),
    ensures reader.pos() >= d0.len(),
    decreases d0.len() - reader.pos()
@loop 1 begin
    let ghost q0 = reader.pos();
    let ghost e0 = zip_writer.ents();
@loop 1 end
    proof {
        assert(e0.drop_last() =~= es);
        assert(d0.subrange(p0 as int, q0 as int) + buffer@.subrange(0, read_count as int) =~= d0.subrange(p0 as int, reader.pos() as int));
    }
@before crate::encrypt::execute(
    let ghost z = tmp_file->File_0.stream.data();
    proof {
        assert(parse_zip(z) == Some(ents_of(fs0)));
        assert forall|h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>| #[trigger] encrypted(req.header_type, req.hashing_algorithm, req.raw_key.data@, z, h, mk, head, body) implies packed(req.header_type, req.hashing_algorithm, req.raw_key.data@, ents_of(fs0), z, h, mk, head, body) by {}
    }
@loop 0 attr
    #[verifier::loop_isolation(false)]
@loop 1 attr
    #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@fn tools::pack::execute
@world
@params stor req
@rw archive_and_encrypt(&tmp_file, $e_r) ==> archive_and_encrypt(&mut tmp_file, $e_r)
@spec
    requires !(req.header_type.version is V3)
    ensures
      match r {
        Ok(_) => (exists|m: Seq<Op>| m.len() == old(wd).ops@.len() + 1 && #[trigger] with_temp(old(wd).ops@, final(wd).ops@, m))
          && exists|z: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>|
            #[trigger] packed(req.header_type, req.hashing_algorithm, req.raw_key.data@, ents_of(req.compress_files@), z, h, mk, head, body)
            && if req.header_writer is None { final(req.writer).data() == splice(old(req.writer).data(), 0, head + body) }
               else { final(req.writer).data() == splice(old(req.writer).data(), 0, body)
                   && final(req.header_writer->0).data() == splice(old(req.header_writer->0).data(), 0, head) }
            && final(req.writer).log().len() > 0 && final(req.writer).log().last() == Ev::Flush,
        Err(e) => final(wd).ops@ == old(wd).ops@ || exists|m: Seq<Op>| m.len() == old(wd).ops@.len() + 1 && #[trigger] with_temp(old(wd).ops@, final(wd).ops@, m) }
@start
    let ghost o0 = wd.ops@;
@before let pack_res = $e_x;
    let ghost m = wd.ops@;
    proof { assert(m.take(o0.len() as int) =~= o0); }
@after let pack_res = $e_x;
    let ghost (l1, d1) = (tmp_file->File_0.stream.log(), tmp_file->File_0.stream.data());
@before stor.remove_file(tmp_file)
    let ghost l = last_op(tmp_file);
    proof {
        let log = tmp_file->File_0.stream.log(); let d = tmp_file->File_0.stream.data();
        if !tmp_file->File_0.stream.faulty() {
            let w = log.skip(l1.len() as int);
            assert forall|x: Seq<Ev>| log =~= l1 + x implies w == x by { assert(w =~= x); }
            assert(zeroed(d1, d1.len()) =~= zeros(d1.len()));
            assert(w.len() >= 0 && log.skip(l1.len() as int) == w);
        }
        assert(tmp_file->File_0.stream.faulty() || wiped_all(log, d));
        with_temp_is(o0, m, l, Seq::empty()); with_temp_is(o0, m, l, seq![Op::Unlink { path: tmp_file->File_0.path@ }]);
        assert(m.push(l) + Seq::<Op>::empty() =~= m.push(l));
        assert(m.push(l) + seq![Op::Unlink { path: tmp_file->File_0.path@ }] =~= m.push(l).push(Op::Unlink { path: tmp_file->File_0.path@ }));
    }
## ------------------------------------------------------------------ unpack
@uses tools::unpack
use crate::stubs::fs::*; use crate::stubs::path::*; use crate::stubs::zip::{self, *}; use crate::tools::storage::*; use crate::corecrypto::header::*; use crate::tools::decrypt::opens_to; use crate::tools::decrypt::detached_body; use crate::tools::decrypt::too_long; use crate::tools::overwrite::*; use crate::tools::pack::{with_temp, with_temp_is, wiped_all, packed}; use crate::tools::encrypt::roundtrip;
@mod tools::unpack
impl OnArchiveInfo { #[verifier::external_body] pub fn call_(self, n: usize) { unimplemented!() } }
impl OnZipFileFn {
    /// the caller's closure: what it does is under contract where it is written
    #[verifier::external_body] pub fn of_() -> Self { unimplemented!() }
    /// asks the caller
    #[verifier::external_body] pub fn by_call_(&self, wd: &mut World, p: PathBuf) -> (r: bool) ensures final(wd).ops@ == old(wd).ops@.push(Op::Asked { path: p@, yes: r }) { unimplemented!() }
}
/// an entry chosen for extraction: where it goes, which one it is
pub struct Sel { pub path: Seq<char>, pub i: int, pub dir: bool }
pub open spec fn sel(t: (PathBuf, usize, bool)) -> Sel { Sel { path: t.0@, i: t.1 as int, dir: t.2 } }
pub open spec fn sels(v: Seq<(PathBuf, usize, bool)>) -> Seq<Sel> { v.map_values(|t: (PathBuf, usize, bool)| sel(t)) }
/// the first n entries were gone through: those that stay below `out` and that the caller wants are chosen
pub open spec fn chosen(es: Seq<ZEnt>, n: nat, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>, l: Seq<Sel>) -> bool decreases n {
    if n == 0 { b == a && l.len() == 0 } else {
        let e = es[n - 1];
        ||| (faulty || !readable(e)) && chosen(es, (n - 1) as nat, out, faulty, cb, a, b, l)
        ||| enclosed(e.name) is None && chosen(es, (n - 1) as nat, out, faulty, cb, a, b, l)
        ||| enclosed(e.name) is Some && safe_rel(enclosed(e.name).unwrap()) && ({
              let p = join(out, enclosed(e.name).unwrap());
              if cb && b.len() > 0 && b.last() == (Op::Asked { path: p, yes: false }) { chosen(es, (n - 1) as nat, out, faulty, cb, a, b.drop_last(), l) }
              else { l.len() > 0 && l.last() == (Sel { path: p, i: n - 1, dir: e.dir }) && if cb { b.len() > 0 && b.last() == (Op::Asked { path: p, yes: true }) && chosen(es, (n - 1) as nat, out, faulty, cb, a, b.drop_last(), l.drop_last()) } else { chosen(es, (n - 1) as nat, out, faulty, cb, a, b, l.drop_last()) } }
            })
    }
}
pub open spec fn dirs_of(l: Seq<Sel>) -> Seq<Op> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.last().dir { dirs_of(l.drop_last()).push(Op::CreateDirs { path: l.last().path }) } else { dirs_of(l.drop_last()) }
}
pub open spec fn opened_for(o: Op, p: Seq<char>) -> bool {
    o matches Op::Open { path, flags, data, .. } && path == p && (flags == NEW() || flags == TRUNC()) && data == Seq::<u8>::empty()
}
/// the chosen files were created one after the other, each with exactly its content
pub open spec fn extracted(es: Seq<ZEnt>, l: Seq<Sel>, a: Seq<Op>, b: Seq<Op>) -> bool decreases l.len() {
    if l.len() == 0 { b == a } else if l.last().dir { extracted(es, l.drop_last(), a, b) } else {
        b.len() >= 2 && opened_for(b[b.len() - 2], l.last().path) && b.last() == (Op::Copied { id: b[b.len() - 2]->Open_id, at: 0, data: es[l.last().i].data })
        && extracted(es, l.drop_last(), a, b.take(b.len() - 2))
    }
}
/// ... or some of them, and at most the next one was opened
pub open spec fn extracted_some(es: Seq<ZEnt>, l: Seq<Sel>, a: Seq<Op>, b: Seq<Op>) -> bool {
    exists|n: int, m: Seq<Op>| 0 <= n <= l.len() && #[trigger] extracted(es, l.take(n), a, m) && (b == m || (n < l.len() && !l[n].dir && b.len() == m.len() + 1 && b.drop_last() == m && opened_for(b.last(), l[n].path)))
}
/// what the archive's entries were turned into
pub open spec fn recreated(es: Seq<ZEnt>, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>, l: Seq<Sel>, c: Seq<Op>, all: bool) -> bool {
    chosen(es, es.len(), out, faulty, cb, a, c, l) && ({
        let d = after_dirs(c, l, out);
        if all { extracted(es, l, d, b) } else { extracted_some(es, l, d, b) }
    })
}
pub open spec fn kind_ok(o: Op, out: Seq<char>, cb: bool, upto: Seq<Op>) -> bool {
    match o {
        Op::Asked { .. } => cb, Op::Copied { .. } => true,
        Op::CreateDirs { path } => path == out || below(path, out, cb, upto),
        Op::Open { path, flags, .. } => (flags == NEW() || flags == TRUNC()) && below(path, out, cb, upto),
        _ => false }
}
/// strictly below the directory, and wanted by the caller if it was asked
pub open spec fn below(path: Seq<char>, out: Seq<char>, cb: bool, upto: Seq<Op>) -> bool {
    (exists|q: Seq<char>| safe_rel(q) && path == #[trigger] join(out, q)) && (cb ==> upto.contains(Op::Asked { path, yes: true }))
}
/// every one of these operations creates something strictly below the directory, or asks for or fills it
pub closed spec fn kinds(s: Seq<Op>, out: Seq<char>, cb: bool, u: Seq<Op>) -> bool { forall|j: int| 0 <= j < s.len() ==> kind_ok(#[trigger] s[j], out, cb, u) }
pub open spec fn confined(a: Seq<Op>, b: Seq<Op>, out: Seq<char>, cb: bool) -> bool {
    exists|x: Seq<Op>| b == #[trigger] (a + x) && kinds(x, out, cb, b)
}
pub open spec fn grows(u: Seq<Op>, v: Seq<Op>) -> bool { forall|x: Op| #[trigger] u.contains(x) ==> v.contains(x) }
pub proof fn grows_add(u: Seq<Op>, x: Seq<Op>) ensures grows(u, u + x)
{ assert forall|y: Op| #[trigger] u.contains(y) implies (u + x).contains(y) by { let j = choose|j: int| 0 <= j < u.len() && u[j] == y; assert((u + x)[j] == y); } }
pub proof fn kinds_add(a: Seq<Op>, b: Seq<Op>, out: Seq<char>, cb: bool, u: Seq<Op>) requires kinds(a, out, cb, u), kinds(b, out, cb, u) ensures kinds(a + b, out, cb, u) {}
pub proof fn kinds_push(a: Seq<Op>, o: Op, out: Seq<char>, cb: bool, u: Seq<Op>) requires kinds(a, out, cb, u), kind_ok(o, out, cb, u) ensures kinds(a.push(o), out, cb, u) {}
pub proof fn kinds_grow(a: Seq<Op>, out: Seq<char>, cb: bool, u: Seq<Op>, v: Seq<Op>) requires kinds(a, out, cb, u), grows(u, v) ensures kinds(a, out, cb, v)
{ assert forall|j: int| 0 <= j < a.len() implies kind_ok(#[trigger] a[j], out, cb, v) by { assert(kind_ok(a[j], out, cb, u)); } }
pub open spec fn sel_ok(s: Sel, es: Seq<ZEnt>, out: Seq<char>, cb: bool, u: Seq<Op>) -> bool {
    below(s.path, out, cb, u) && 0 <= s.i < es.len() && s.dir == es[s.i].dir && enclosed(es[s.i].name) is Some && s.path == join(out, enclosed(es[s.i].name).unwrap())
}
pub closed spec fn sels_ok(l: Seq<Sel>, es: Seq<ZEnt>, out: Seq<char>, cb: bool, u: Seq<Op>) -> bool { forall|j: int| 0 <= j < l.len() ==> sel_ok(#[trigger] l[j], es, out, cb, u) }
pub proof fn sels_take(l: Seq<Sel>, n: int, es: Seq<ZEnt>, out: Seq<char>, cb: bool, u: Seq<Op>) requires sels_ok(l, es, out, cb, u), 0 <= n <= l.len() ensures sels_ok(l.take(n), es, out, cb, u), n < l.len() ==> sel_ok(l[n], es, out, cb, u)
{ assert forall|j: int| 0 <= j < l.take(n).len() implies sel_ok(#[trigger] l.take(n)[j], es, out, cb, u) by { assert(l.take(n)[j] == l[j]); } }
/// the chosen entries lie below the directory, are wanted, and are those of the archive
pub proof fn chosen_below(es: Seq<ZEnt>, n: nat, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>, l: Seq<Sel>) -> (x: Seq<Op>)
    requires chosen(es, n, out, faulty, cb, a, b, l), n <= es.len()
    ensures b == a + x, kinds(x, out, cb, b), sels_ok(l, es, out, cb, b)
    decreases n
{
    if n == 0 { assert(b =~= a + Seq::<Op>::empty()); return Seq::empty(); }
    let e = es[n - 1]; let k = (n - 1) as nat;
    if (faulty || !readable(e)) && chosen(es, k, out, faulty, cb, a, b, l) { return chosen_below(es, k, out, faulty, cb, a, b, l); }
    if enclosed(e.name) is None { return chosen_below(es, k, out, faulty, cb, a, b, l); }
    let p = join(out, enclosed(e.name).unwrap());
    let no = cb && b.len() > 0 && b.last() == (Op::Asked { path: p, yes: false });
    if !cb {
        let x = chosen_below(es, k, out, faulty, cb, a, b, l.drop_last());
        assert(sel_ok(l.last(), es, out, cb, b));
        assert forall|j: int| 0 <= j < l.len() implies sel_ok(#[trigger] l[j], es, out, cb, b) by { if j < l.len() - 1 { assert(l.drop_last()[j] == l[j]); } else { assert(l[j] == l.last()); } }
        return x;
    }
    let bb = b.drop_last();
    let ll = if no { l } else { l.drop_last() };
    let x = chosen_below(es, k, out, faulty, cb, a, bb, ll);
    assert(b =~= bb + seq![b.last()]); grows_add(bb, seq![b.last()]);
    kinds_grow(x, out, cb, bb, b);
    kinds_push(x, b.last(), out, cb, b);
    assert(b =~= a + x.push(b.last()));
    assert(b.contains(b.last())) by { assert(b[b.len() - 1] == b.last()); }
    assert forall|j: int| 0 <= j < l.len() implies sel_ok(#[trigger] l[j], es, out, cb, b) by {
        if j < ll.len() { assert(ll[j] == l[j]); assert(sel_ok(ll[j], es, out, cb, bb)); } else { assert(l[j] == l.last()); }
    }
    x.push(b.last())
}
pub proof fn dirs_below(l: Seq<Sel>, es: Seq<ZEnt>, out: Seq<char>, cb: bool, u: Seq<Op>)
    requires sels_ok(l, es, out, cb, u) ensures kinds(dirs_of(l), out, cb, u) decreases l.len()
{ if l.len() > 0 { sels_take(l, l.len() - 1, es, out, cb, u); dirs_below(l.drop_last(), es, out, cb, u); if l.last().dir { kinds_push(dirs_of(l.drop_last()), Op::CreateDirs { path: l.last().path }, out, cb, u); } } }
pub proof fn files_below(es: Seq<ZEnt>, l: Seq<Sel>, a: Seq<Op>, b: Seq<Op>, out: Seq<char>, cb: bool, u: Seq<Op>) -> (x: Seq<Op>)
    requires extracted(es, l, a, b), sels_ok(l, es, out, cb, u) ensures b == a + x, kinds(x, out, cb, u)
    decreases l.len()
{
    if l.len() == 0 { assert(b =~= a + Seq::<Op>::empty()); return Seq::empty(); }
    sels_take(l, l.len() - 1, es, out, cb, u);
    if l.last().dir { return files_below(es, l.drop_last(), a, b, out, cb, u); }
    let bb = b.take(b.len() - 2);
    let x = files_below(es, l.drop_last(), a, bb, out, cb, u);
    let o = b[b.len() - 2];
    kinds_push(x, o, out, cb, u); kinds_push(x.push(o), b.last(), out, cb, u);
    assert(b =~= bb.push(o).push(b.last()));
    assert(b =~= a + x.push(o).push(b.last()));
    x.push(o).push(b.last())
}
/// C22: whatever the archive contains, everything created lies below the directory and was wanted
pub proof fn stays_below(es: Seq<ZEnt>, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>, l: Seq<Sel>, c: Seq<Op>, all: bool)
    requires recreated(es, out, faulty, cb, a, b, l, c, all) ensures confined(a, b, out, cb)
{
    let x1 = chosen_below(es, es.len(), out, faulty, cb, a, c, l);
    let x2 = dirs_of(l).push(Op::CreateDirs { path: out });
    let d = c + x2;
    dirs_below(l, es, out, cb, c); kinds_push(dirs_of(l), Op::CreateDirs { path: out }, out, cb, c);
    let (n, m) = if all { (l.len() as int, b) } else { choose|n: int, m: Seq<Op>| 0 <= n <= l.len() && #[trigger] extracted(es, l.take(n), d, m) && (b == m || (n < l.len() && !l[n].dir && b.len() == m.len() + 1 && b.drop_last() == m && opened_for(b.last(), l[n].path))) };
    assert(l.take(l.len() as int) =~= l);
    sels_take(l, n, es, out, cb, c);
    let x3 = files_below(es, l.take(n), d, m, out, cb, c);
    let x4 = if b == m { Seq::<Op>::empty() } else { kinds_push(Seq::empty(), b.last(), out, cb, c); Seq::<Op>::empty().push(b.last()) };
    assert(b =~= m + x4);
    kinds_add(x1, x2, out, cb, c); kinds_add(x1 + x2, x3, out, cb, c); kinds_add(x1 + x2 + x3, x4, out, cb, c);
    let x = x1 + x2 + x3 + x4;
    assert(b =~= a + x); assert(b =~= c + (x2 + x3 + x4));
    grows_add(c, x2 + x3 + x4); kinds_grow(x, out, cb, c, b);
}
/// the state after n of the chosen entries, and after opening the next one
pub open spec fn stopped(es: Seq<ZEnt>, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>, l: Seq<Sel>, c: Seq<Op>, all: bool) -> bool {
    recreated(es, out, faulty, cb, a, b, l, c, all) && confined(a, b, out, cb) && b.len() > a.len() && if all { unpacks(es, out, faulty, cb, a, b) } else { unpacks_some(es, out, faulty, cb, a, b) }
}
/// everything chosen was created, with its content
pub closed spec fn unpacks(es: Seq<ZEnt>, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>) -> bool {
    exists|l: Seq<Sel>, c: Seq<Op>| #[trigger] recreated(es, out, faulty, cb, a, b, l, c, true)
}
/// some of what was chosen was created
pub closed spec fn unpacks_some(es: Seq<ZEnt>, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>) -> bool {
    exists|l: Seq<Sel>, c: Seq<Op>| #[trigger] recreated(es, out, faulty, cb, a, b, l, c, false)
}
pub open spec fn after_dirs(c: Seq<Op>, l: Seq<Sel>, out: Seq<char>) -> Seq<Op> { c + dirs_of(l).push(Op::CreateDirs { path: out }) }
pub proof fn stop_at(es: Seq<ZEnt>, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, b: Seq<Op>, l: Seq<Sel>, c: Seq<Op>, all: bool)
    requires recreated(es, out, faulty, cb, a, b, l, c, all), b.len() > a.len() ensures stopped(es, out, faulty, cb, a, b, l, c, all)
{
    stays_below(es, out, faulty, cb, a, b, l, c, all);
    assert(if all { unpacks(es, out, faulty, cb, a, b) } else { unpacks_some(es, out, faulty, cb, a, b) });
}
pub proof fn at_file(es: Seq<ZEnt>, out: Seq<char>, faulty: bool, cb: bool, a: Seq<Op>, w: Seq<Op>, l: Seq<Sel>, c: Seq<Op>, n: int)
    requires chosen(es, es.len(), out, faulty, cb, a, c, l), 0 <= n <= l.len(), extracted(es, l.take(n), after_dirs(c, l, out), w)
    ensures stopped(es, out, faulty, cb, a, w, l, c, false), n == l.len() ==> stopped(es, out, faulty, cb, a, w, l, c, true),
      forall|x: Op| n < l.len() && !l[n].dir && opened_for(x, l[n].path) ==> stopped(es, out, faulty, cb, a, #[trigger] w.push(x), l, c, false),
      n < l.len() ==> sel_ok(l[n], es, out, cb, c),
      forall|x: Op, y: Op| n < l.len() && !l[n].dir && opened_for(x, l[n].path) && y == (Op::Copied { id: x->Open_id, at: 0, data: es[l[n].i].data }) ==> extracted(es, l.take(n + 1), after_dirs(c, l, out), #[trigger] w.push(x).push(y)),
      n < l.len() && l[n].dir ==> extracted(es, l.take(n + 1), after_dirs(c, l, out), w),
{
    let d = after_dirs(c, l, out);
    let x1 = chosen_below(es, es.len(), out, faulty, cb, a, c, l);
    sels_take(l, n, es, out, cb, c);
    let x3 = files_below(es, l.take(n), d, w, out, cb, c);
    assert(extracted_some(es, l, d, w));
    stop_at(es, out, faulty, cb, a, w, l, c, false);
    if n == l.len() { assert(l.take(n) =~= l); stop_at(es, out, faulty, cb, a, w, l, c, true); }
    else {
        assert(l.take(n + 1).drop_last() =~= l.take(n)); assert(l.take(n + 1).last() == l[n]);
        assert forall|x: Op| !l[n].dir && opened_for(x, l[n].path) implies stopped(es, out, faulty, cb, a, #[trigger] w.push(x), l, c, false) by {
            assert(w.push(x).drop_last() =~= w); assert(extracted_some(es, l, d, w.push(x)));
            stop_at(es, out, faulty, cb, a, w.push(x), l, c, false);
        }
        assert forall|x: Op, y: Op| !l[n].dir && opened_for(x, l[n].path) && y == (Op::Copied { id: x->Open_id, at: 0, data: es[l[n].i].data }) implies extracted(es, l.take(n + 1), d, #[trigger] w.push(x).push(y)) by {
            let b = w.push(x).push(y); assert(b.take(b.len() - 2) =~= w);
        }
    }
}
/// what a file, and the header given with it, decrypts to
pub open spec fn content_of(d: Seq<u8>, p: nat, hd: Option<(Seq<u8>, nat)>, pw: Seq<u8>) -> Option<Seq<u8>> {
    let b = if hd is Some { from(hd.unwrap().0, hd.unwrap().1) } else { from(d, p) };
    let h = parse(b).unwrap();
    let u = unlock(h, pw);
    let body = if hd is Some { detached_body(d, p, hsize(h.version)) } else { from(d, p + hsize(h.version)) };
    let o = opens_to(h, u.unwrap(), aad_dec(h.version, h.alg, b), body);
    if parse(b) is Some && u is Some && o.1 { Some(o.0) } else { None }
}
/// the entries of the archive that a file decrypts to
pub open spec fn unpacked_of(d: Seq<u8>, p: nat, hd: Option<(Seq<u8>, nat)>, pw: Seq<u8>) -> Option<Seq<ZEnt>> {
    match content_of(d, p, hd, pw) { Some(z) => parse_zip(z), None => None }
}
pub proof fn chosen_all(es: Seq<ZEnt>, n: nat, out: Seq<char>, a: Seq<Op>, c: Seq<Op>, l: Seq<Sel>)
    requires chosen(es, n, out, false, false, a, c, l), n <= es.len(), forall|i: int| 0 <= i < es.len() ==> readable(#[trigger] es[i]) && enclosed(es[i].name) is Some
    ensures c == a, l.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] l[i]) == (Sel { path: join(out, enclosed(es[i].name).unwrap()), i, dir: es[i].dir })
    decreases n
{ if n > 0 { let e = es[n - 1]; chosen_all(es, (n - 1) as nat, out, a, c, l.drop_last());
    assert forall|i: int| 0 <= i < n implies (#[trigger] l[i]) == (Sel { path: join(out, enclosed(es[i].name).unwrap()), i, dir: es[i].dir }) by { if i < n - 1 { assert(l.drop_last()[i] == l[i]); } } } }
pub open spec fn created(b: Seq<Op>, p: Seq<char>, data: Seq<u8>) -> bool {
    exists|j: int| 0 <= j < b.len() - 1 && opened_for(#[trigger] b[j], p) && b[j + 1] == (Op::Copied { id: b[j]->Open_id, at: 0, data })
}
pub proof fn extracted_has(es: Seq<ZEnt>, l: Seq<Sel>, a: Seq<Op>, b: Seq<Op>, k: int)
    requires extracted(es, l, a, b), 0 <= k < l.len(), !l[k].dir ensures created(b, l[k].path, es[l[k].i].data) decreases l.len()
{
    if k == l.len() - 1 { assert(opened_for(b[b.len() - 2], l[k].path)); }
    else {
        let bb = if l.last().dir { b } else { b.take(b.len() - 2) };
        assert(l.drop_last()[k] == l[k]);
        extracted_has(es, l.drop_last(), a, bb, k);
        let j = choose|j: int| 0 <= j < bb.len() - 1 && opened_for(#[trigger] bb[j], l[k].path) && bb[j + 1] == (Op::Copied { id: bb[j]->Open_id, at: 0, data: es[l[k].i].data });
        assert(opened_for(b[j], l[k].path));
    }
}
pub proof fn extracted_from(es: Seq<ZEnt>, l: Seq<Sel>, a: Seq<Op>, b: Seq<Op>) requires extracted(es, l, a, b) ensures a.len() <= b.len(), b.take(a.len() as int) == a decreases l.len()
{ if l.len() == 0 { assert(b.take(a.len() as int) =~= a); } else if l.last().dir { extracted_from(es, l.drop_last(), a, b); } else { let bb = b.take(b.len() - 2); extracted_from(es, l.drop_last(), a, bb); assert(b.take(a.len() as int) =~= bb.take(a.len() as int)); } }
pub proof fn dirs_have(l: Seq<Sel>, k: int) requires 0 <= k < l.len(), l[k].dir ensures dirs_of(l).contains(Op::CreateDirs { path: l[k].path }) decreases l.len()
{
    let d = dirs_of(l);
    if k == l.len() - 1 { assert(d[d.len() - 1] == (Op::CreateDirs { path: l[k].path })); }
    else { assert(l.drop_last()[k] == l[k]); dirs_have(l.drop_last(), k); let e = dirs_of(l.drop_last()); let j = choose|j: int| 0 <= j < e.len() && e[j] == (Op::CreateDirs { path: l[k].path }); assert(d[j] == e[j]); }
}
/// C21: what packing wrote, attached or with the header on its own, unpacks to the same entries under the same key
pub proof fn pack_then_unpack(t: HeaderType, ha: HashingAlgorithm, pw: Seq<u8>, es: Seq<ZEnt>, z: Seq<u8>, h: HdrV, mk: Seq<u8>, head: Seq<u8>, body: Seq<u8>)
    requires packed(t, ha, pw, es, z, h, mk, head, body), t.version is V5 || (t.version is V4 && ha == HashingAlgorithm::Blake3Balloon(4)),
    ensures unpacked_of(head + body, 0, None, pw) == Some(es),
      !(hsize(t.version) <= body.len() && all_zero(body.take(hsize(t.version) as int))) ==> unpacked_of(body, 0, Some((head, 0)), pw) == Some(es),
{
    roundtrip(t, ha, pw, z, h, mk, head, body);
    let b = head + body;
    assert(from(b, 0) =~= b); assert(from(head, 0) =~= head);
    parse_wf(b);
    let g = parse(b).unwrap();
    assert(from(b, hsize(g.version)) =~= b.skip(hsize(g.version) as int));
    assert(h.mode is StreamMode);
    assert(body.subrange(0, hsize(g.version) as int) =~= body.take(hsize(g.version) as int));
}
/// C21: extracting all of an archive recreates every file, with exactly its content, and every directory
pub proof fn all_recreated(es: Seq<ZEnt>, out: Seq<char>, a: Seq<Op>, b: Seq<Op>, i: int)
    requires unpacks(es, out, false, false, a, b), 0 <= i < es.len(), forall|i: int| 0 <= i < es.len() ==> readable(#[trigger] es[i]) && enclosed(es[i].name) is Some
    ensures ({ let p = join(out, enclosed(es[i].name).unwrap()); if es[i].dir { b.contains(Op::CreateDirs { path: p }) } else { created(b, p, es[i].data) } })
{
    let (l, c) = choose|l: Seq<Sel>, c: Seq<Op>| #[trigger] recreated(es, out, false, false, a, b, l, c, true);
    chosen_all(es, es.len(), out, a, c, l);
    let d = after_dirs(c, l, out);
    extracted_from(es, l, d, b);
    assert(l[i] == (Sel { path: join(out, enclosed(es[i].name).unwrap()), i, dir: es[i].dir }));
    if es[i].dir {
        dirs_have(l, i);
        let e = dirs_of(l); let j = choose|j: int| 0 <= j < e.len() && e[j] == (Op::CreateDirs { path: l[i].path });
        assert(d[c.len() + j] == e[j]); assert(b.take(d.len() as int)[c.len() + j] == e[j]);
    } else { extracted_has(es, l, d, b, i); }
}
@fn tools::unpack::decrypt_and_extract
@world
@chains
@params stor tmp_file req
@sigrw tmp_file: &storage::Entry<RW> ==> tmp_file: &mut storage::Entry<RW>
@rw $e_z.enclosed_name().map(|$id_p| $e_b) ==> (match $e_z.enclosed_name() { Some($id_p) => Some($e_b), None => None })
@rw $path_f(full_path.clone()) ==> $path_f.by_call_(full_path.clone())
@rw if let Some($id_c) = $path_r.on_archive_info { $id_c($e_x); } ==> if let Some($id_c) = $path_r.on_archive_info { $id_c.call_($e_x); }
@rw std::thread::spawn(move || $e_b) ==> ({ $e_b })
@rw $r_h.join().unwrap() ==> $r_h
@rw std::io::copy( ==> crate::stubs::zip::copy(
@spec
    requires *old(tmp_file) is File, old(tmp_file)->File_0.stream.data().len() == 0, old(tmp_file)->File_0.stream.pos() == 0
    ensures
      *final(tmp_file) is File, final(tmp_file)->File_0.path == old(tmp_file)->File_0.path,
      final(tmp_file)->File_0.stream.id() == old(tmp_file)->File_0.stream.id(), final(tmp_file)->File_0.stream.faulty() == old(tmp_file)->File_0.stream.faulty(),
      same_but_pos(old(req.reader), final(req.reader)),
      confined(old(wd).ops@, final(wd).ops@, req.output_dir_path@, req.on_zip_file is Some),
      match unpacked_of(old(req.reader).data(), old(req.reader).pos(), if req.header_reader is Some { Some((old(req.header_reader->0).data(), old(req.header_reader->0).pos())) } else { None }, req.raw_key.data@) {
        // nothing was authentic, or it is no archive: nothing happens
        None => r is Err && final(wd).ops@ == old(wd).ops@,
        Some(es) =>
          if r is Err && final(wd).ops@ == old(wd).ops@ { old(tmp_file)->File_0.stream.faulty() || old(req.reader).faulty() || (req.header_reader is Some && old(req.header_reader->0).faulty()) || old(req.reader).data().len() > MAX_LEN }
          else { if r is Ok { unpacks(es, req.output_dir_path@, old(tmp_file)->File_0.stream.faulty(), req.on_zip_file is Some, old(wd).ops@, final(wd).ops@) } else { unpacks_some(es, req.output_dir_path@, old(tmp_file)->File_0.stream.faulty(), req.on_zip_file is Some, old(wd).ops@, final(wd).ops@) } }
      }
@start
    let ghost o0 = wd.ops@;
    let ghost out = req.output_dir_path@;
    let ghost cb = req.on_zip_file is Some;
    let ghost tf = tmp_file->File_0.stream.faulty();
    let ghost hd0 = if req.header_reader is Some { Some((old(req.header_reader->0).data(), old(req.header_reader->0).pos())) } else { None };
    let ghost z0 = content_of(old(req.reader).data(), old(req.reader).pos(), hd0, req.raw_key.data@);
    let ghost zs = unpacked_of(old(req.reader).data(), old(req.reader).pos(), hd0, req.raw_key.data@);
    let ghost es = zs.unwrap();
    proof { assert(o0 =~= o0 + Seq::<Op>::empty()); assert(kinds(Seq::empty(), out, cb, o0)); }
@loop 0 before
    proof { assert(z0 is Some); assert(zs == Some(es)); assert(archive.ents() == es); assert(sels(out__1@) =~= Seq::empty()); }
@loop 0 attr
    #[verifier::loop_isolation(false)]
@loop 0
    invariant
        it__0 <= end__0, end__0 == es.len(), archive.ents() == es, archive.faulty() == tf,
        chosen(es, it__0 as nat, out, tf, cb, o0, wd.ops@, sels(out__1@)),
    decreases end__0 - it__0
@loop 0 begin
    let ghost (n, out0, w0) = (it__0 as int, out__1@, wd.ops@);
    proof { assert(chosen(es, n as nat, out, tf, cb, o0, w0, sels(out0))); assert(forall|x: Op| #[trigger] w0.push(x).drop_last() =~= w0); }
@loop 0 end
    proof {
        if out__1@.len() > out0.len() { assert(sels(out__1@).drop_last() =~= sels(out0)); assert(sels(out__1@).last() == sel(out__1@.last())); }
        else { assert(out__1@ =~= out0); }
    }
@after .collect::<Vec<_>>();
    let ghost L = sels(entities@);
    let ghost c0 = wd.ops@;
    let ghost dd = after_dirs(c0, L, out);
@loop 1 before
    proof { assert(L.take(0) =~= Seq::empty()); assert(c0 + Seq::<Op>::empty() =~= c0); }
@loop 1 attr
    #[verifier::loop_isolation(false)]
@loop 1
    invariant
        it__1 <= v__1@.len(), v__1@ == entities@, L == sels(entities@), wd.ops@ == c0 + dirs_of(L.take(it__1 as int)),
    decreases v__1@.len() - it__1
@loop 1 begin
    let ghost n = it__1 as int;
    proof { assert(L.take(n + 1).drop_last() =~= L.take(n)); assert(L.take(n + 1).last() == sel(entities@[n])); }
@loop 1 end
    proof { assert(wd.ops@ =~= c0 + dirs_of(L.take(n + 1))); }
@loop 1 after
    proof { assert(L.take(v__1@.len() as int) =~= L); }
@loop 2 before
    proof { assert(wd.ops@ =~= dd); assert(L.take(0) =~= Seq::empty()); assert(extracted(es, L.take(0), dd, dd)); at_file(es, out, tf, cb, o0, dd, L, c0, 0); }
@loop 2 attr
    #[verifier::loop_isolation(false)]
@loop 2
    invariant it__2 <= v__2@.len(), wd.ops@ == dd,
    decreases v__2@.len() - it__2
@loop 3 attr
    #[verifier::loop_isolation(false)]
@loop 3
    invariant
        it__3 <= v__3@.len(), v__3@ == entities@, extracted(es, L.take(it__3 as int), dd, wd.ops@), archive.ents() == es, archive.faulty() == tf,
    decreases v__3@.len() - it__3
@loop 3 begin
    let ghost (n, w0) = (it__3 as int, wd.ops@);
    proof { at_file(es, out, tf, cb, o0, w0, L, c0, n); assert(L[n] == sel(entities@[n])); }
@loop 3 after
    proof { at_file(es, out, tf, cb, o0, wd.ops@, L, c0, L.len() as int); }
@after .map_err(Error::Decrypt)?;
    proof { assert(splice(Seq::empty(), 0, z0.unwrap()) =~= z0.unwrap()); assert(tmp_file->File_0.stream.data() == z0.unwrap()); assert(o0 =~= o0 + Seq::<Op>::empty()); }
@fn tools::unpack::execute
@world
@params stor req
@rw decrypt_and_extract(&stor, &tmp_file, $e_r) ==> decrypt_and_extract(wd, &stor, &mut tmp_file, $e_r)
@spec
    ensures
      same_but_pos(old(req.reader), final(req.reader)),
      if r is Err && final(wd).ops@ == old(wd).ops@ { true } else {
        exists|m: Seq<Op>| #[trigger] with_temp(old(wd).ops@, final(wd).ops@, m) && ({
          let a = old(wd).ops@.push(m[old(wd).ops@.len() as int]);
          let tf = final(wd).ops@[m.len() as int]->Last_faulty;
          &&& confined(a, m, req.output_dir_path@, req.on_zip_file is Some)
          &&& match unpacked_of(old(req.reader).data(), old(req.reader).pos(), if req.header_reader is Some { Some((old(req.header_reader->0).data(), old(req.header_reader->0).pos())) } else { None }, req.raw_key.data@) {
                None => r is Err && m == a,
                Some(es) => if r is Ok { unpacks(es, req.output_dir_path@, tf, req.on_zip_file is Some, a, m) }
                  else { m == a || unpacks_some(es, req.output_dir_path@, tf, req.on_zip_file is Some, a, m) } } }) }
@start
    let ghost o0 = wd.ops@;
@after let unpack_res = $e_x;
    let ghost m = wd.ops@;
    let ghost (l1, d1) = (tmp_file->File_0.stream.log(), tmp_file->File_0.stream.data());
@before stor.remove_file(tmp_file)
    let ghost l = last_op(tmp_file);
    proof {
        let log = tmp_file->File_0.stream.log(); let d = tmp_file->File_0.stream.data();
        let a = o0.push(m[o0.len() as int]);
        let x = choose|x: Seq<Op>| m == #[trigger] (a + x);
        assert(m.take(o0.len() as int) =~= o0);
        if !tmp_file->File_0.stream.faulty() {
            let w = log.skip(l1.len() as int);
            assert forall|x: Seq<Ev>| log =~= l1 + x implies w == x by { assert(w =~= x); }
            assert(zeroed(d1, d1.len()) =~= zeros(d1.len()));
        }
        assert(tmp_file->File_0.stream.faulty() || wiped_all(log, d));
        with_temp_is(o0, m, l, Seq::empty()); with_temp_is(o0, m, l, seq![Op::Unlink { path: tmp_file->File_0.path@ }]);
        assert(m.push(l) + Seq::<Op>::empty() =~= m.push(l));
        assert(m.push(l) + seq![Op::Unlink { path: tmp_file->File_0.path@ }] =~= m.push(l).push(Op::Unlink { path: tmp_file->File_0.path@ }));
    }
