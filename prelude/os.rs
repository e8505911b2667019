// the file system, environment and process as one explicit world
/// moves the i-th item out
#[verifier::external_body]
pub fn take_at<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len()
    ensures r == old(v)@[i as int], final(v)@.len() == old(v)@.len(), forall|j: int| i < j < old(v)@.len() ==> final(v)@[j] == old(v)@[j]
{ unimplemented!() }
pub mod path {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct PathBuf { x: u8 }
    impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    pub type Path = PathBuf;
    /// the path after pushing a component
    pub uninterp spec fn join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
    /// what a path names, as far as one run is concerned
    pub uninterp spec fn is_dir(p: Seq<char>) -> bool;
    pub uninterp spec fn is_link(p: Seq<char>) -> bool;
    pub uninterp spec fn is_file(p: Seq<char>) -> bool;
    pub uninterp spec fn is_text(p: Seq<char>) -> bool;
    pub trait AsRefPath {
        spec fn pv(&self) -> Seq<char>;
        fn as_ref(&self) -> (r: &Path) ensures r@ == self.pv();
    }
    impl AsRefPath for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
    impl AsRefPath for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
    impl AsRefPath for PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &Path) { self } }
    impl<T: AsRefPath + ?Sized> AsRefPath for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } fn as_ref(&self) -> (r: &Path) { (**self).as_ref() } }
    impl PathBuf {
        #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_owned(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
        pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { self }
        #[verifier::external_body] pub fn new() -> (r: PathBuf) ensures r@ == Seq::<char>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn from<P: AsRefPath>(p: P) -> (r: PathBuf) ensures r@ == p.pv() { unimplemented!() }
        #[verifier::external_body] pub fn push<P: AsRefPath>(&mut self, p: P) ensures final(self)@ == join(old(self)@, p.pv()) { unimplemented!() }
        #[verifier::external_body] pub fn join<P: AsRefPath>(&self, p: P) -> (r: PathBuf) ensures r@ == join(self@, p.pv()) { unimplemented!() }
        #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == is_dir(self@) { unimplemented!() }
        #[verifier::external_body] pub fn is_symlink(&self) -> (r: bool) ensures r == is_link(self@) { unimplemented!() }
        #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == is_file(self@) { unimplemented!() }
        /// only paths that are text have one
        #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => s@ == self@, None => !is_text(self@) } { unimplemented!() }
        #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&PathBuf>) { unimplemented!() }
    }
}
pub mod fs {
    use vstd::prelude::*;
    use super::model::*;
    use super::path::*;
    use super::io;
    use super::io::{Stream, Read, Write, Seek, SeekFrom, Result};
    pub struct Flags { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool, pub create_new: bool }
    pub open spec fn flags(read: bool, write: bool, truncate: bool, create: bool, create_new: bool) -> Flags { Flags { read, write, append: false, truncate, create, create_new } }
    pub open spec fn READ() -> Flags { flags(true, false, false, false, false) }
    pub open spec fn NEW() -> Flags { flags(true, true, false, false, true) }
    pub open spec fn TRUNC() -> Flags { flags(true, true, true, false, false) }
    pub open spec fn KEEP() -> Flags { flags(true, true, false, false, false) }
    /// create_new overrides create and truncate
    pub open spec fn norm(f: Flags) -> Flags { if f.create_new { Flags { truncate: false, create: false, ..f } } else { f } }
    /// what was asked of the system, in order
    pub enum Op {
        /// a file was opened; data: its content at that moment
        Open { path: Seq<char>, flags: Flags, id: int, data: Seq<u8> },
        /// the storage is about to remove the file behind a handle; log: what had been done through it
        Last { path: Seq<char>, id: int, log: Seq<Ev>, data: Seq<u8>, faulty: bool },
        /// these bytes were copied to a handle, at this position
        Copied { id: int, at: nat, data: Seq<u8> },
        /// the caller was asked whether it wants this path
        Asked { path: Seq<char>, yes: bool },
        Unlink { path: Seq<char> },
        /// tried, whether it worked or not
        RemoveTree { path: Seq<char> },
        CreateDirs { path: Seq<char> },
        /// asked whether a path exists
        Exists { path: Seq<char>, yes: bool },
        /// what was left to read from standard input
        Stdin { rest: Seq<u8> },
        /// everything written to this file so far has been flushed
        Flushed { path: Seq<char>, id: int, data: Seq<u8> },
        /// a line was read from the user
        Line { text: Seq<char> },
        Password { text: Seq<char> },
        Spoke,
    }
    pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
    /// what a line answers to a question with this default
    pub open spec fn answer(t: Seq<char>, d: bool) -> Option<bool> {
        let l = lower(t);
        if l.len() == 0 { None } else if l[0] == '\n' || l[0] == '\r' { Some(d) } else if l[0] == 'y' { Some(true) } else if l[0] == 'n' { Some(false) } else { None }
    }
    /// the last of these lines answers; the ones before it were no answer
    pub open spec fn answered(a: Seq<Op>, b: Seq<Op>, d: bool, yes: bool) -> bool {
        a.len() < b.len() && b.take(a.len() as int) == a && (forall|i: int| a.len() <= i < b.len() ==> ((#[trigger] b[i]) is Line || b[i] is Stdin))
        && (b.last() matches Op::Line { text } && answer(text, d) == Some(yes))
    }
    /// up to i, a question about p that was there was answered this way
    pub open spec fn asked(b: Seq<Op>, j: int, k: int, p: Seq<char>, yes: bool) -> bool {
        0 <= j < k < b.len() && b[j] == (Op::Exists { path: p, yes: true }) && answered(b.take(j + 1), b.take(k + 1), true, yes)
    }
    /// this path was not there, or the user agreed to replace it
    pub open spec fn agreed(b: Seq<Op>, n: int, i: int, p: Seq<char>) -> bool {
        (exists|j: int| n <= j < i && #[trigger] b[j] == (Op::Exists { path: p, yes: false })) || exists|j: int, k: int| n <= j && k < i && #[trigger] asked(b, j, k, p, true)
    }
    /// changes what is there under this path (creating a file, which must not exist, does not)
    pub open spec fn alters(o: Op, p: Seq<char>) -> bool {
        match o { Op::Open { path, flags, .. } => path == p && flags != READ() && flags != NEW(), Op::Unlink { path } => path == p, Op::RemoveTree { path } => true, Op::CreateDirs { path } => true, _ => false }
    }
    /// the last thing that happened: the user declined to replace an existing path, and nothing was done to it
    #[verifier::opaque]
    pub open spec fn declined(a: Seq<Op>, b: Seq<Op>) -> bool {
        exists|j: int, p: Seq<char>| a.len() <= j && #[trigger] asked(b, j, b.len() - 1, p, false) && forall|i: int| a.len() <= i < b.len() ==> !alters(#[trigger] b[i], p)
    }
    /// nothing but looking and asking
    pub open spec fn look(o: Op) -> bool { match o { Op::Open { flags, .. } => flags == READ(), Op::Exists { .. } => true, Op::Line { .. } => true, Op::Stdin { .. } => true, Op::Password { .. } => true, _ => false } }
    #[verifier::opaque]
    pub open spec fn looks(a: Seq<Op>, b: Seq<Op>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a && forall|i: int| a.len() <= i < b.len() ==> look(#[trigger] b[i]) }
    pub struct World { pub ops: Ghost<Seq<Op>> }
    #[verifier::external_body]
    pub struct Metadata { x: u8 }
    impl Metadata {
        pub uninterp spec fn size(&self) -> nat;
        #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
        #[verifier::external_body] pub fn is_dir(&self) -> bool { unimplemented!() }
        #[verifier::external_body] pub fn is_file(&self) -> bool { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct File { x: u8 }
    impl Stream for File {
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn pos(&self) -> nat;
        uninterp spec fn faulty(&self) -> bool;
        uninterp spec fn log(&self) -> Seq<Ev>;
        uninterp spec fn id(&self) -> int;
    }
    impl Read for File {
        #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
    }
    impl Write for File {
        #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body] fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
    }
    impl Seek for File {
        #[verifier::external_body] fn seek(&mut self, s: SeekFrom) -> (r: Result<u64>) { unimplemented!() }
        #[verifier::external_body] fn rewind(&mut self) -> (r: Result<()>) { unimplemented!() }
    }
    pub open spec fn opened(ops0: Seq<Op>, ops1: Seq<Op>, path: Seq<char>, f: Flags, r: File) -> bool {
        ops1 == ops0.push(Op::Open { path, flags: norm(f), id: r.id(), data: r.data() }) && r.pos() == 0 && r.log() == Seq::<Ev>::empty()
        && (f.create_new || f.truncate ==> r.data() == Seq::<u8>::empty())
    }
    impl File {
        #[verifier::external_body]
        pub fn options() -> (r: OpenOptions) ensures r@ == flags(false, false, false, false, false) { unimplemented!() }
        #[verifier::external_body]
        pub fn open<P: AsRefPath>(wd: &mut World, path: P) -> (r: Result<File>)
            ensures match r { Ok(f) => opened(old(wd).ops@, final(wd).ops@, path.pv(), READ(), f), Err(_) => final(wd).ops@ == old(wd).ops@ } { unimplemented!() }
        #[verifier::external_body]
        pub fn create<P: AsRefPath>(wd: &mut World, path: P) -> (r: Result<File>)
            ensures match r { Ok(f) => opened(old(wd).ops@, final(wd).ops@, path.pv(), flags(false, true, true, true, false), f), Err(_) => final(wd).ops@ == old(wd).ops@ } { unimplemented!() }
        #[verifier::external_body]
        pub fn create_new<P: AsRefPath>(wd: &mut World, path: P) -> (r: Result<File>)
            ensures match r { Ok(f) => opened(old(wd).ops@, final(wd).ops@, path.pv(), NEW(), f), Err(_) => final(wd).ops@ == old(wd).ops@ } { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(&self) -> (r: Result<Metadata>) ensures match r { Ok(m) => m.size() == self.data().len(), Err(_) => self.faulty() } { unimplemented!() }
        #[verifier::external_body]
        pub fn set_len(&mut self, n: u64) -> (r: Result<()>) ensures final(self).id() == old(self).id(), r is Err ==> old(self).faulty() { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_all(&self) -> (r: Result<()>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct OpenOptions { x: u8 }
    impl View for OpenOptions { type V = Flags; uninterp spec fn view(&self) -> Flags; }
    impl OpenOptions {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == flags(false, false, false, false, false) { unimplemented!() }
        #[verifier::external_body] pub fn read(self, b: bool) -> (r: Self) ensures r@ == (Flags { read: b, ..self@ }) { unimplemented!() }
        #[verifier::external_body] pub fn write(self, b: bool) -> (r: Self) ensures r@ == (Flags { write: b, ..self@ }) { unimplemented!() }
        #[verifier::external_body] pub fn append(self, b: bool) -> (r: Self) ensures r@ == (Flags { append: b, ..self@ }) { unimplemented!() }
        #[verifier::external_body] pub fn truncate(self, b: bool) -> (r: Self) ensures r@ == (Flags { truncate: b, ..self@ }) { unimplemented!() }
        #[verifier::external_body] pub fn create(self, b: bool) -> (r: Self) ensures r@ == (Flags { create: b, ..self@ }) { unimplemented!() }
        #[verifier::external_body] pub fn create_new(self, b: bool) -> (r: Self) ensures r@ == (Flags { create_new: b, ..self@ }) { unimplemented!() }
        #[verifier::external_body]
        pub fn open<P: AsRefPath>(self, wd: &mut World, path: P) -> (r: Result<File>)
            ensures match r { Ok(f) => opened(old(wd).ops@, final(wd).ops@, path.pv(), self@, f), Err(_) => final(wd).ops@ == old(wd).ops@ } { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn create_dir_all<P: AsRefPath>(wd: &mut World, path: P) -> (r: Result<()>)
        ensures final(wd).ops@ == old(wd).ops@.push(Op::CreateDirs { path: path.pv() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file<P: AsRefPath>(wd: &mut World, path: P) -> (r: Result<()>)
        ensures match r { Ok(_) => final(wd).ops@ == old(wd).ops@.push(Op::Unlink { path: path.pv() }), Err(_) => final(wd).ops@ == old(wd).ops@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all<P: AsRefPath>(wd: &mut World, path: P) -> (r: Result<()>)
        ensures final(wd).ops@ == old(wd).ops@.push(Op::RemoveTree { path: path.pv() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata<P: AsRefPath>(wd: &mut World, path: P) -> (r: Result<Metadata>)
        ensures final(wd).ops@ == old(wd).ops@.push(Op::Exists { path: path.pv(), yes: r is Ok }) { unimplemented!() }
}
pub mod zip {
    use vstd::prelude::*;
    use super::model::*;
    use super::path::*;
    use super::io::{Stream, Read, Write, Seek, Result as IoResult};
    /// one entry of an archive
    pub struct ZEnt { pub name: Seq<char>, pub dir: bool, pub data: Seq<u8> }
    /// the names under which a file and a directory with this path are stored
    pub uninterp spec fn zname(p: Seq<char>) -> Seq<char>;
    pub uninterp spec fn zdirname(p: Seq<char>) -> Seq<char>;
    /// the path an entry's name stands for, if it stays inside of where it is extracted
    pub uninterp spec fn enclosed(n: Seq<char>) -> Option<Seq<char>>;
    /// never climbs above where it starts
    pub uninterp spec fn safe_rel(p: Seq<char>) -> bool;
    pub uninterp spec fn dir_name(n: Seq<char>) -> bool;
    pub uninterp spec fn readable(e: ZEnt) -> bool;
    /// the format lets an entry with this name be added
    pub uninterp spec fn addable(e: Seq<ZEnt>, name: Seq<char>) -> bool;
    pub uninterp spec fn parse_zip(b: Seq<u8>) -> Option<Seq<ZEnt>>;
    #[derive(Debug)]
    pub struct Error;
    pub type ZipResult<T> = core::result::Result<T, Error>;
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum CompressionMethod { Stored, Zstd }
    pub mod write {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct FileOptions<'a, T> { x: &'a T }
        #[verifier::external] impl<'a, T> Clone for FileOptions<'a, T> { fn clone(&self) -> Self { *self } }
        #[verifier::external] impl<'a, T> Copy for FileOptions<'a, T> {}
        impl<'a> FileOptions<'a, ()> {
            #[verifier::external_body] pub fn default() -> Self { unimplemented!() }
            #[verifier::external_body] pub fn compression_method(self, m: super::CompressionMethod) -> Self { unimplemented!() }
            #[verifier::external_body] pub fn compression_level(self, m: Option<i64>) -> Self { unimplemented!() }
            #[verifier::external_body] pub fn large_file(self, b: bool) -> Self { unimplemented!() }
            #[verifier::external_body] pub fn unix_permissions(self, m: u32) -> Self { unimplemented!() }
        }
        pub type SimpleFileOptions = FileOptions<'static, ()>;
    }
    use self::write::FileOptions;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(RW)]
    pub struct ZipWriter<'a, RW> { x: &'a mut RW }
    impl<'a, RW: Write + Seek> ZipWriter<'a, RW> {
        /// what was added so far
        pub uninterp spec fn ents(&self) -> Seq<ZEnt>;
        /// the underlying stream, once the writer is gone
        pub uninterp spec fn end(&self) -> RW;
        /// it began with an empty stream
        pub uninterp spec fn fresh(&self) -> bool;
        pub uninterp spec fn faulty(&self) -> bool;
        pub open spec fn still(&self, o: &Self) -> bool { self.end() == o.end() && self.fresh() == o.fresh() && self.faulty() == o.faulty() }
        #[verifier::external_body]
        pub fn new(w: &'a mut RW) -> (r: Self)
            ensures r.ents() == Seq::<ZEnt>::empty(), r.end() == *final(w), final(w).id() == old(w).id(), final(w).faulty() == old(w).faulty(), r.fresh() == (old(w).data().len() == 0 && old(w).pos() == 0), r.faulty() == old(w).faulty()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn start_file_from_path<P: AsRefPath>(&mut self, p: P, o: FileOptions<'_, ()>) -> (r: ZipResult<()>)
            ensures final(self).still(old(self)), match r { Ok(_) => final(self).ents() == old(self).ents().push(ZEnt { name: zname(p.pv()), dir: false, data: Seq::empty() }), Err(_) => old(self).faulty() || !addable(old(self).ents(), zname(p.pv())) }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn add_directory_from_path<P: AsRefPath>(&mut self, p: P, o: FileOptions<'_, ()>) -> (r: ZipResult<()>)
            ensures final(self).still(old(self)), match r { Ok(_) => final(self).ents() == old(self).ents().push(ZEnt { name: zdirname(p.pv()), dir: true, data: Seq::empty() }), Err(_) => old(self).faulty() || !addable(old(self).ents(), zdirname(p.pv())) }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn start_file(&mut self, p: &str, o: FileOptions<'_, ()>) -> (r: ZipResult<()>)
            ensures final(self).still(old(self)), r is Ok ==> final(self).ents() == old(self).ents().push(ZEnt { name: p@, dir: dir_name(p@), data: Seq::empty() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write_all(&mut self, b: &[u8]) -> (r: IoResult<()>)
            ensures final(self).still(old(self)), r is Ok ==> old(self).ents().len() > 0 && final(self).ents() == old(self).ents().drop_last().push(ZEnt { data: old(self).ents().last().data + b@, ..old(self).ents().last() }), r is Err ==> old(self).faulty() || old(self).ents().len() == 0 || old(self).ents().last().dir
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write(&mut self, b: &[u8]) -> (r: IoResult<usize>)
            ensures final(self).still(old(self)), r matches Ok(n) ==> n <= b@.len() && old(self).ents().len() > 0 && final(self).ents() == old(self).ents().drop_last().push(ZEnt { data: old(self).ents().last().data + b@.take(n as int), ..old(self).ents().last() })
        { unimplemented!() }
        /// writes the rest out and seeks, which empties a buffer in between
        #[verifier::external_body]
        pub fn finish(self) -> (r: ZipResult<Finished>)
            ensures r is Ok && self.fresh() ==> parse_zip(self.end().data()) == Some(self.ents()) && (forall|i: int| 0 <= i < self.ents().len() ==> readable(#[trigger] self.ents()[i])), r is Err ==> self.faulty()
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Finished { x: u8 }
    impl Finished { #[verifier::external_body] pub fn flush(&mut self) -> IoResult<()> { unimplemented!() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(RW)]
    pub struct ZipArchive<'a, RW> { x: &'a mut RW }
    impl<'a, RW: Read + Seek> ZipArchive<'a, RW> {
        pub uninterp spec fn ents(&self) -> Seq<ZEnt>;
        pub uninterp spec fn faulty(&self) -> bool;
        #[verifier::external_body]
        pub fn new(w: &'a mut RW) -> (r: ZipResult<Self>)
            ensures final(w).id() == old(w).id(), final(w).faulty() == old(w).faulty(), final(w).data() == old(w).data(), final(w).log() == old(w).log(),
               match r { Ok(a) => parse_zip(old(w).data()) == Some(a.ents()) && a.faulty() == old(w).faulty(), Err(_) => old(w).faulty() || parse_zip(old(w).data()) is None }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self.ents().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn by_index(&mut self, i: usize) -> (r: ZipResult<ZipFile>)
            ensures final(self).ents() == old(self).ents(), final(self).faulty() == old(self).faulty(),
               match r { Ok(f) => i < old(self).ents().len() && f@ == old(self).ents()[i as int], Err(_) => i >= old(self).ents().len() || old(self).faulty() || !readable(old(self).ents()[i as int]) }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct ZipFile { x: u8 }
    impl View for ZipFile { type V = ZEnt; uninterp spec fn view(&self) -> ZEnt; }
    impl ZipFile {
        #[verifier::external_body]
        pub fn enclosed_name(&self) -> (r: Option<PathBuf>)
            ensures match r { Some(p) => enclosed(self@.name) == Some(p@) && safe_rel(p@), None => enclosed(self@.name) is None } { unimplemented!() }
        #[verifier::external_body] pub fn mangled_name(&self) -> (r: PathBuf) { unimplemented!() }
        #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self@.name { unimplemented!() }
        #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == self@.dir { unimplemented!() }
        #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == !self@.dir { unimplemented!() }
        #[verifier::external_body] pub fn size(&self) -> (r: u64) { unimplemented!() }
    }
    /// std::io::copy out of an archive
    #[verifier::external_body]
    pub fn copy<W: Write>(wd: &mut super::fs::World, f: &mut ZipFile, w: &mut W) -> (r: IoResult<u64>)
        ensures final(w).id() == old(w).id(), final(w).faulty() == old(w).faulty(),
           match r {
             Ok(_) => final(w).data() == splice(old(w).data(), old(w).pos(), old(f)@.data) && final(wd).ops@ == old(wd).ops@.push(super::fs::Op::Copied { id: old(w).id(), at: old(w).pos(), data: old(f)@.data }),
             Err(_) => final(wd).ops@ == old(wd).ops@ && partial(old(w).data(), old(w).pos(), old(f)@.data, final(w).data()) }
    { unimplemented!() }
}
pub mod env {
    use vstd::prelude::*;
    use super::path::PathBuf;
    #[verifier::external_body]
    pub fn temp_dir() -> PathBuf { unimplemented!() }
    /// a variable of the environment, if it is set to a text
    pub uninterp spec fn env_text(k: Seq<char>) -> Option<Seq<char>>;
    #[derive(Debug)]
    pub struct VarError;
    #[verifier::external_body]
    pub fn var(k: &str) -> (r: core::result::Result<String, VarError>) ensures match r { Ok(s) => env_text(k@) == Some(s@), Err(_) => env_text(k@) is None } { unimplemented!() }
}
pub mod walkdir {
    use vstd::prelude::*;
    use super::path::*;
    pub struct Opts { pub root: Seq<char>, pub min: nat, pub max: Option<nat>, pub links: bool }
    /// what walking a directory gives, an entry that couldn't be read included
    pub uninterp spec fn walk(o: Opts) -> Seq<Option<Seq<char>>>;
    pub open spec fn all_below(root: Seq<char>) -> Opts { Opts { root, min: 0, max: None, links: false } }
    #[verifier::external_body]
    pub struct WalkDir { x: u8 }
    impl View for WalkDir { type V = Opts; uninterp spec fn view(&self) -> Opts; }
    #[verifier::external_body]
    pub struct DirEntry { x: u8 }
    impl View for DirEntry { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    #[derive(Debug)]
    pub struct Error;
    impl DirEntry {
        #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn into_path(self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    }
    impl WalkDir {
        #[verifier::external_body] pub fn new<P: AsRefPath>(p: P) -> (r: Self) ensures r@ == all_below(p.pv()) { unimplemented!() }
        #[verifier::external_body] pub fn min_depth(self, n: usize) -> (r: Self) ensures r@ == (Opts { min: n as nat, ..self@ }) { unimplemented!() }
        #[verifier::external_body] pub fn max_depth(self, n: usize) -> (r: Self) ensures r@ == (Opts { max: Some(n as nat), ..self@ }) { unimplemented!() }
        #[verifier::external_body] pub fn follow_links(self, b: bool) -> (r: Self) ensures r@ == (Opts { links: b, ..self@ }) { unimplemented!() }
        #[verifier::external_body]
        pub fn list_(self) -> (r: Vec<core::result::Result<DirEntry, Error>>)
            ensures r@.len() == walk(self@).len(), forall|i: int| 0 <= i < r@.len() ==> (match #[trigger] r@[i] { Ok(e) => walk(self@)[i] == Some(e@), Err(_) => walk(self@)[i] is None })
        { unimplemented!() }
    }
}
