## Contracts on storage, erase, erase_dir
@worldcall .create_temp_file .create_dir_all .create_file .read_file .write_file .update_file .remove_file .remove_dir_all .read_dir .open
@worldcall File::open File::create File::create_new fs::create_dir_all fs::remove_file fs::remove_dir_all fs::metadata erase::execute erase_dir::execute
@dropuse rand::distributions::Alphanumeric rand::distributions::DistString std::path::Path std::path::PathBuf crate::storage::Storage std::fs tools::storage::Storage

@uses tools::storage
pub use crate::stubs::fs; pub use crate::stubs::fs::*; pub use crate::stubs::path; pub use crate::stubs::path::*; pub use crate::stubs::walkdir::{self, walk, all_below}; use crate::stubs::rand::{self, distributions::*};
@mod tools::storage
/// an entry for a freshly opened file
pub open spec fn fresh_entry<RW: Read + Write + Seek>(e: Entry<RW>, path: Seq<char>) -> bool {
    e matches Entry::File(f) && f.path@ == path && f.stream.pos() == 0 && f.stream.log() == Seq::<Ev>::empty()
}
pub open spec fn open_op<RW: Read + Write + Seek>(e: Entry<RW>, path: Seq<char>, fl: Flags) -> Op {
    Op::Open { path, flags: fl, id: e->File_0.stream.id(), data: e->File_0.stream.data() }
}
/// a file was opened this way and nothing else was done
pub open spec fn opens<RW: Read + Write + Seek>(a: Seq<Op>, b: Seq<Op>, path: Seq<char>, fl: Flags, r: Result<Entry<RW>, Error>) -> bool {
    match r { Ok(e) => fresh_entry(e, path) && b == a.push(open_op(e, path, fl)), Err(_) => b == a }
}
pub open spec fn e_path<RW: Read + Write + Seek>(e: Entry<RW>) -> Seq<char> { match e { Entry::File(f) => f.path@, Entry::Dir(p) => p@ } }
pub open spec fn last_op<RW: Read + Write + Seek>(e: Entry<RW>) -> Op {
    Op::Last { path: e->File_0.path@, id: e->File_0.stream.id(), log: e->File_0.stream.log(), data: e->File_0.stream.data(), faulty: e->File_0.stream.faulty() }
}
/// the entries of a directory listing: every path below it, directories as such, files opened for reading
pub open spec fn listed<RW: Read + Write + Seek>(a: Seq<Op>, b: Seq<Op>, ps: Seq<Seq<char>>, v: Seq<Entry<RW>>) -> bool decreases ps.len() {
    if ps.len() == 0 { v.len() == 0 && b == a } else {
        v.len() == ps.len() && if is_dir(ps.last()) { v.last() is Dir && v.last()->Dir_0@ == ps.last() && listed(a, b, ps.drop_last(), v.drop_last()) }
        else { fresh_entry(v.last(), ps.last()) && b.len() > 0 && b.last() == open_op(v.last(), ps.last(), READ()) && listed(a, b.drop_last(), ps.drop_last(), v.drop_last()) }
    }
}
/// nothing but opening for reading happened
pub open spec fn only_reads(a: Seq<Op>, b: Seq<Op>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && forall|i: int| a.len() <= i < b.len() ==> ((#[trigger] b[i]) matches Op::Open { flags, .. } && flags == READ())
}
pub proof fn only_reads_push(a: Seq<Op>, b: Seq<Op>, o: Op)
    requires only_reads(a, b), o matches Op::Open { flags, .. } && flags == READ() ensures only_reads(a, b.push(o))
{ assert(b.push(o).take(a.len() as int) =~= a); }
pub proof fn listed_reads<RW: Read + Write + Seek>(a: Seq<Op>, b: Seq<Op>, ps: Seq<Seq<char>>, v: Seq<Entry<RW>>)
    requires listed(a, b, ps, v) ensures only_reads(a, b), v.len() == ps.len() decreases ps.len()
{
    if ps.len() == 0 { assert(b.take(a.len() as int) =~= a); }
    else if is_dir(ps.last()) { listed_reads(a, b, ps.drop_last(), v.drop_last()); }
    else { listed_reads(a, b.drop_last(), ps.drop_last(), v.drop_last()); only_reads_push(a, b.drop_last(), b.last()); assert(b =~= b.drop_last().push(b.last())); }
}
pub proof fn listed_at<RW: Read + Write + Seek>(a: Seq<Op>, b: Seq<Op>, ps: Seq<Seq<char>>, v: Seq<Entry<RW>>, i: int)
    requires listed(a, b, ps, v), 0 <= i < ps.len() ensures v.len() == ps.len(), e_path(v[i]) == ps[i], (v[i] is Dir) == is_dir(ps[i]) decreases ps.len()
{
    if i < ps.len() - 1 { if is_dir(ps.last()) { listed_at(a, b, ps.drop_last(), v.drop_last(), i); } else { listed_at(a, b.drop_last(), ps.drop_last(), v.drop_last(), i); } }
}
pub open spec fn paths_of(w: Seq<Option<Seq<char>>>) -> Seq<Seq<char>> { w.map_values(|o: Option<Seq<char>>| o.unwrap()) }

@trait tools::storage::Storage
pub trait Storage<RW: Read + Write + Seek>: Send + Sync {
    fn create_temp_file(&self, wd: &mut World) -> (r: Result<Entry<RW>, Error>)
        ensures match r { Ok(e) => fresh_entry(e, e_path(e)) && e->File_0.stream.data() == Seq::<u8>::empty() && final(wd).ops@ == old(wd).ops@.push(open_op(e, e_path(e), NEW())), Err(_) => final(wd).ops@ == old(wd).ops@ };
    fn create_dir_all<P: AsRefPath>(&self, wd: &mut World, path: P) -> (r: Result<(), Error>)
        ensures final(wd).ops@ == old(wd).ops@.push(Op::CreateDirs { path: path.pv() });
    /// never replaces what is there
    fn create_file<P: AsRefPath>(&self, wd: &mut World, path: P) -> (r: Result<Entry<RW>, Error>)
        ensures opens(old(wd).ops@, final(wd).ops@, path.pv(), NEW(), r), r matches Ok(e) ==> e->File_0.stream.data() == Seq::<u8>::empty();
    fn read_file<P: AsRefPath>(&self, wd: &mut World, path: P) -> (r: Result<Entry<RW>, Error>)
        ensures if is_dir(path.pv()) { (r matches Ok(e) && e is Dir && e_path(e) == path.pv()) && final(wd).ops@ == old(wd).ops@ } else { opens(old(wd).ops@, final(wd).ops@, path.pv(), READ(), r) };
    /// may discard the content
    fn write_file<P: AsRefPath>(&self, wd: &mut World, path: P) -> (r: Result<Entry<RW>, Error>)
        ensures opens(old(wd).ops@, final(wd).ops@, path.pv(), TRUNC(), r), r matches Ok(e) ==> e->File_0.stream.data() == Seq::<u8>::empty();
    /// keeps the content
    fn update_file<P: AsRefPath>(&self, wd: &mut World, path: P) -> (r: Result<Entry<RW>, Error>)
        ensures opens(old(wd).ops@, final(wd).ops@, path.pv(), KEEP(), r);
    fn flush_file(&self, file: &mut Entry<RW>) -> (r: Result<(), Error>)
        ensures match r {
            Ok(_) => *old(file) is File && *final(file) is File && final(file)->File_0.path == old(file)->File_0.path && final(file)->File_0.stream.log() == old(file)->File_0.stream.log().push(Ev::Flush)
                && final(file)->File_0.stream.data() == old(file)->File_0.stream.data(),
            Err(_) => true };
    fn file_len(&self, file: &Entry<RW>) -> (r: Result<usize, Error>)
        ensures match r { Ok(n) => *file is File && n == file->File_0.stream.data().len(), Err(_) => *file is Dir || file->File_0.stream.faulty() };
    fn remove_file(&self, wd: &mut World, file: Entry<RW>) -> (r: Result<(), Error>)
        ensures file is File ==> (match r {
            Ok(_) => final(wd).ops@ == old(wd).ops@.push(last_op(file)).push(Op::Unlink { path: file->File_0.path@ }),
            Err(_) => final(wd).ops@ == old(wd).ops@.push(last_op(file)) }),
          file is Dir ==> only_unlinks(old(wd).ops@, final(wd).ops@, e_path(file));
    fn remove_dir_all(&self, wd: &mut World, file: Entry<RW>) -> (r: Result<(), Error>)
        ensures match r { Ok(_) => file is Dir && final(wd).ops@ == old(wd).ops@.push(Op::RemoveTree { path: e_path(file) }),
           Err(_) => final(wd).ops@ == old(wd).ops@ || (file is Dir && final(wd).ops@ == old(wd).ops@.push(Op::RemoveTree { path: e_path(file) })) };
    fn read_dir(&self, wd: &mut World, file: &Entry<RW>) -> (r: Result<Vec<Entry<RW>>, Error>)
        ensures match r {
            Ok(v) => *file is Dir && !walk(all_below(e_path(*file))).contains(None) && listed(old(wd).ops@, final(wd).ops@, paths_of(walk(all_below(e_path(*file)))), v@),
            Err(_) => only_reads(old(wd).ops@, final(wd).ops@) };
}
pub open spec fn only_unlinks(a: Seq<Op>, b: Seq<Op>, p: Seq<char>) -> bool { b == a || b == a.push(Op::Unlink { path: p }) }

@fn tools::storage::Entry::path
@spec
    ensures r@ == e_path(*self)
@fn tools::storage::Entry::is_dir
@spec
    ensures r == (*self is Dir)
@fn tools::storage::Entry::try_reader
@sigrw &self ==> &mut self
@rw Ok(&$id_f.stream) ==> Ok(&mut $id_f.stream)
@spec
    ensures match r {
        Ok(s) => *old(self) is File && *final(self) is File && *s == old(self)->File_0.stream && final(self)->File_0.stream == *final(s) && final(self)->File_0.path == old(self)->File_0.path,
        Err(_) => *old(self) is Dir && *final(self) == *old(self) }
@fn tools::storage::Entry::try_writer
@sigrw &self ==> &mut self
@rw Ok(&$id_f.stream) ==> Ok(&mut $id_f.stream)
@spec
    ensures match r {
        Ok(s) => *old(self) is File && *final(self) is File && *s == old(self)->File_0.stream && final(self)->File_0.stream == *final(s) && final(self)->File_0.path == old(self)->File_0.path,
        Err(_) => *old(self) is Dir && *final(self) == *old(self) }
## ---- the file system implementation
@fn tools::storage::Storage::create_temp_file
@world
@sig fn default_create_temp_file<RW: Read + Write + Seek, S: Storage<RW>>(self_: &S, wd: &mut World) -> (r: Result<Entry<RW>, Error>)
@spec
    ensures match r { Ok(e) => fresh_entry(e, e_path(e)) && e->File_0.stream.data() == Seq::<u8>::empty() && final(wd).ops@ == old(wd).ops@.push(open_op(e, e_path(e), NEW())), Err(_) => final(wd).ops@ == old(wd).ops@ }
@mod impl tools::storage::FileStorage@Storage
    #[verifier::external_body] fn create_temp_file(&self, wd: &mut World) -> (r: Result<Entry<fs::File>, Error>) { unimplemented!() }
@fn tools::storage::FileStorage@Storage::create_dir_all
@world
@fn tools::storage::FileStorage@Storage::create_file
@world
@fn tools::storage::FileStorage@Storage::read_file
@world
@fn tools::storage::FileStorage@Storage::write_file
@world
@fn tools::storage::FileStorage@Storage::update_file
@world
@fn tools::storage::FileStorage@Storage::flush_file
@mutlets
@sigrw &Entry ==> &mut Entry
@fn tools::storage::FileStorage@Storage::file_len
@fn tools::storage::FileStorage@Storage::remove_file
@world
@rw = &file { ==> = &mut file {
@start
    let mut file = file;
    proof { if file is File { wd.ops@ = wd.ops@.push(last_op(file)); } }
@fn tools::storage::FileStorage@Storage::remove_dir_all
@world
@fn tools::storage::FileStorage@Storage::read_dir
@world
@chains
@rw .into_iter() ==> .list_().into_iter()
@rw $id_r.map(|$id_e| $e_b).map_err(|_| $e_c) ==> (match $id_r { Ok($id_e) => Ok($e_b), Err(_) => Err($e_c) })
@rw $id_p.and_then(|$id_q| $e_b) ==> (match $id_p { Ok($id_q) => $e_b, Err(e__) => Err(e__) })
@start
    let ghost o0 = wd.ops@;
    let ghost W = walk(all_below(e_path(*file)));
    proof { assert(o0.take(o0.len() as int) =~= o0); }
@loop 0 before
    let ghost v0 = v__0@;
    proof { assert(paths_of(W).take(0) =~= Seq::empty()); }
@loop 0
    invariant
        it__0 <= v__0@.len(), v__0@.len() == v0.len(), v0.len() == W.len(), *file is Dir, o0 == old(wd).ops@, W == walk(all_below(e_path(*file))),
        forall|i: int| 0 <= i < v0.len() ==> (match #[trigger] v0[i] { Ok(e) => W[i] == Some(e@), Err(_) => W[i] is None }),
        forall|j: int| it__0 <= j < v0.len() ==> v__0@[j] == v0[j],
        forall|j: int| 0 <= j < it__0 ==> (#[trigger] W[j]) is Some,
        listed(o0, wd.ops@, paths_of(W).take(it__0 as int), out__1@),
    decreases v0.len() - it__0
@loop 0 begin
    proof { listed_reads(o0, wd.ops@, paths_of(W).take(it__0 as int), out__1@); }
    let ghost (n, out0, o1) = (it__0 as int, out__1@, wd.ops@);
    assert(match v0[n] { Ok(e) => W[n] == Some(e@), Err(_) => W[n] is None });
@loop 0 end
    proof {
        assert(paths_of(W).take(n + 1).drop_last() =~= paths_of(W).take(n));
        assert(paths_of(W).take(n + 1).last() == W[n].unwrap());
        assert(out__1@.drop_last() =~= out0);
        if !is_dir(W[n].unwrap()) { assert(wd.ops@.drop_last() =~= o1); }
    }
@loop 0 after
    proof { assert(paths_of(W).take(v0.len() as int) =~= paths_of(W)); assert(!W.contains(None)); }
## ------------------------------------------------------------------ erase
@uses tools::erase
use crate::stubs::fs::*; use crate::stubs::path::*; use crate::tools::storage; use crate::tools::storage::{Storage, Entry, FileData};
@mod tools::erase
/// the file was opened keeping its content, its whole length overwritten, and only then removed
pub open spec fn erases(a: Seq<Op>, b: Seq<Op>, p: Seq<char>, k: int) -> bool {
    b.len() == a.len() + 3 && wiped_so_far(a, b.drop_last(), p, k) && b.last() == (Op::Unlink { path: p })
}
/// the last operation says that the file's whole length has been overwritten through the handle it was opened with
pub open spec fn wiped_so_far(a: Seq<Op>, b: Seq<Op>, p: Seq<char>, k: int) -> bool {
    b.len() == a.len() + 2 && b.take(a.len() as int) == a
    && match (b[a.len() as int], b.last()) {
        (Op::Open { path, flags, id, data }, Op::Last { path: p2, id: i2, log, data: d2, .. }) => path == p && p2 == p && flags == KEEP() && id == i2 && wiped(log, k, data.len()) && d2 == zeroed(data, data.len()),
        _ => false }
}
/// erasing failed: the file is still there
pub open spec fn erase_failed(a: Seq<Op>, b: Seq<Op>, p: Seq<char>, k: int) -> bool {
    b == a || (b.len() == a.len() + 1 && b.drop_last() == a && (b.last() matches Op::Open { path, flags, .. } && path == p && flags == KEEP())) || wiped_so_far(a, b, p, k)
}
@fn tools::erase::execute
@world
@spec
    ensures match r {
        Ok(_) => erases(old(wd).ops@, final(wd).ops@, req.path.pv(), req.passes as int),
        Err(_) => erase_failed(old(wd).ops@, final(wd).ops@, req.path.pv(), req.passes as int) }
@start
    let ghost o0 = wd.ops@;
    proof { assert forall|x: Op| #[trigger] o0.push(x).drop_last() == o0 by { assert(o0.push(x).drop_last() =~= o0); }
      assert forall|x: Op, y: Op| (#[trigger] o0.push(x).push(y)).take(o0.len() as int) == o0 by { assert(o0.push(x).push(y).take(o0.len() as int) =~= o0); }
      assert forall|x: Op, y: Op, z: Op| (#[trigger] o0.push(x).push(y).push(z)).drop_last() == o0.push(x).push(y) by { assert(o0.push(x).push(y).push(z).drop_last() =~= o0.push(x).push(y)); }
      assert forall|w: Seq<Ev>| (#[trigger] (Seq::<Ev>::empty() + w)) == w by { assert((Seq::<Ev>::empty() + w) =~= w); }
    }
## -------------------------------------------------------------- erase_dir
@uses tools::erase_dir
use crate::stubs::fs::*; use crate::stubs::path::*; use crate::stubs::walkdir::*; use crate::tools::storage; use crate::tools::storage::{Storage, Entry, FileData, e_path, only_reads, listed, paths_of}; use crate::tools::erase; use crate::tools::erase::{erases, erase_failed};
@mod tools::erase_dir
/// the files that have to be erased: directories go with the tree, links are not followed
pub open spec fn victims(ps: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if is_dir(ps.last()) || is_link(ps.last()) { victims(ps.drop_last()) } else { victims(ps.drop_last()).push(ps.last()) }
}
pub open spec fn at(m: Seq<Op>) -> bool { true }
/// one after the other was erased, or failed to be
pub open spec fn all_tried(a: Seq<Op>, b: Seq<Op>, ps: Seq<Seq<char>>, ok: Seq<bool>, k: int) -> bool decreases ps.len() {
    ps.len() == ok.len() && if ps.len() == 0 { b == a } else {
        exists|m: Seq<Op>| #[trigger] at(m) && all_tried(a, m, ps.drop_last(), ok.drop_last(), k) && if ok.last() { erases(m, b, ps.last(), k) } else { erase_failed(m, b, ps.last(), k) }
    }
}
pub proof fn all_tried_push(a: Seq<Op>, m: Seq<Op>, b: Seq<Op>, ps: Seq<Seq<char>>, ok: Seq<bool>, p: Seq<char>, o: bool, k: int)
    requires all_tried(a, m, ps, ok, k), if o { erases(m, b, p, k) } else { erase_failed(m, b, p, k) }
    ensures all_tried(a, b, ps.push(p), ok.push(o), k)
{ assert(ps.push(p).drop_last() =~= ps); assert(ok.push(o).drop_last() =~= ok); assert(at(m)); }
pub open spec fn oks<E>(v: Seq<Result<(), E>>) -> Seq<bool> { v.map_values(|r: Result<(), E>| r is Ok) }
pub open spec fn tree_paths(d: Seq<char>) -> Seq<Seq<char>> { paths_of(walk(all_below(d))) }
/// the directory was listed, and everything that has to be was tried
pub open spec fn tree_tried(a: Seq<Op>, b: Seq<Op>, d: Seq<char>, ok: Seq<bool>, k: int) -> bool {
    !walk(all_below(d)).contains(None) && exists|l: Seq<Op>| only_reads(a, l) && #[trigger] all_tried(l, b, victims(tree_paths(d)), ok, k)
}
/// every file below the directory was listed, and every one of them overwritten in full and removed
pub open spec fn tree_wiped(a: Seq<Op>, b: Seq<Op>, d: Seq<char>, k: int) -> bool {
    exists|ok: Seq<bool>| !ok.contains(false) && #[trigger] tree_tried(a, b, d, ok, k)
}
/// the directory is still there: only files below it that have to be erased were touched
pub open spec fn tree_kept(a: Seq<Op>, b: Seq<Op>, d: Seq<char>, k: int) -> bool {
    only_reads(a, b) || exists|ok: Seq<bool>| #[trigger] tree_tried(a, b, d, ok, k)
}
@fn tools::erase_dir::execute#erase_one_
@lift tools::erase_dir::execute
@world
@sig fn erase_one_<RW: Read + Write + Seek, S: Storage<RW> + 'static>(wd: &mut World, stor: Arc<S>, file_path: PathBuf, req: &Request<RW>) -> (r: Result<(), Error>)
@spec
    ensures match r {
        Ok(_) => erases(old(wd).ops@, final(wd).ops@, file_path@, req.passes as int),
        Err(_) => erase_failed(old(wd).ops@, final(wd).ops@, file_path@, req.passes as int) }
@fn tools::erase_dir::execute
@world
@chains
@params stor req
@rw std::thread::spawn(move || -> Result<(), Error> $e_body) ==> erase_one_(wd, stor, file_path, &req)
@rw $r_h.join().unwrap() ==> $r_h
@spec
    ensures match r {
        Ok(_) => req.entry is Dir && final(wd).ops@.len() > 0 && final(wd).ops@.last() == (Op::RemoveTree { path: e_path(req.entry) }) && tree_wiped(old(wd).ops@, final(wd).ops@.drop_last(), e_path(req.entry), req.passes as int),
        Err(_) => if req.entry is Dir {
            tree_kept(old(wd).ops@, final(wd).ops@, e_path(req.entry), req.passes as int)
            || (final(wd).ops@.len() > 0 && final(wd).ops@.last() == (Op::RemoveTree { path: e_path(req.entry) }) && tree_wiped(old(wd).ops@, final(wd).ops@.drop_last(), e_path(req.entry), req.passes as int))
        } else { final(wd).ops@ == old(wd).ops@ } }
@start
    let ghost o0 = wd.ops@;
    let ghost d = e_path(req.entry);
    let ghost k = req.passes as int;
    let ghost T = tree_paths(d);
@loop 0 before
    let ghost l0 = wd.ops@;
    let ghost v0 = v__0@;
    proof { listed_reads(o0, l0, T, v0); assert(T.take(0) =~= Seq::empty()); assert(oks(out__1@) =~= Seq::empty()); }
@loop 0
    invariant
        it__0 <= v__0@.len(), v__0@.len() == v0.len(), req.entry is Dir, d == e_path(req.entry), k == req.passes as int, T == tree_paths(d), v0.len() == T.len(),
        listed(o0, l0, T, v0),
        forall|j: int| it__0 <= j < v0.len() ==> v__0@[j] == v0[j],
        all_tried(l0, wd.ops@, victims(T.take(it__0 as int)), oks(out__1@), k),
    decreases v0.len() - it__0
@loop 0 begin
    let ghost (n, out0, o1) = (it__0 as int, out__1@, wd.ops@);
    proof { listed_at(o0, l0, T, v0, n); assert(T.take(n + 1).drop_last() =~= T.take(n)); assert(T.take(n + 1).last() == T[n]); }
@loop 0 end
    proof {
        if out__1@.len() > out0.len() {
            assert(oks(out__1@) =~= oks(out0).push(out__1@.last() is Ok));
            all_tried_push(l0, o1, wd.ops@, victims(T.take(n)), oks(out0), T[n], out__1@.last() is Ok, k);
        } else { assert(out__1@ =~= out0); assert(is_dir(T[n]) || is_link(T[n])); assert(victims(T.take(n + 1)) == victims(T.take(n))); }
    }
@loop 0 after
    proof { assert(T.take(v0.len() as int) =~= T); assert(tree_tried(o0, wd.ops@, d, oks(out__1@), k)); }
@loop 1 before
    let ghost hs = v__1@;
    let ghost l1 = wd.ops@;
@loop 1
    invariant
        it__1 <= v__1@.len(), v__1@.len() == hs.len(), wd.ops@ == l1, req.entry is Dir, d == e_path(req.entry), k == req.passes as int,
        forall|j: int| it__1 <= j < hs.len() ==> v__1@[j] == hs[j],
        forall|j: int| 0 <= j < it__1 ==> (#[trigger] hs[j]) is Ok,
        tree_tried(o0, l1, d, oks(hs), k), o0 == old(wd).ops@,
    decreases hs.len() - it__1
@loop 1 after
    proof { assert(!oks(hs).contains(false)) by { assert forall|j: int| 0 <= j < hs.len() implies oks(hs)[j] by { assert(hs[j] is Ok); } };
      assert(tree_wiped(o0, l1, d, k));
      assert(forall|x: Op| #[trigger] l1.push(x).drop_last() =~= l1);
    }
