// the command line: arguments, terminal, process
/// a message for the user
#[verifier::external_body] pub fn say_() {}
/// a message put together for the user
#[verifier::external_body] pub fn text_() -> String { unimplemented!() }
pub trait Text { spec fn tv(&self) -> Seq<char>; }
impl Text for str { open spec fn tv(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn tv(&self) -> Seq<char> { self@ } }
impl<T: Text + ?Sized> Text for &T { open spec fn tv(&self) -> Seq<char> { (**self).tv() } }
/// comparing texts of whatever kind
#[verifier::external_body]
pub fn text_eq_<A: Text + ?Sized, B: Text + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.tv() == b.tv()) { unimplemented!() }
pub trait Texts {
    spec fn sv(&self) -> Seq<char>;
    fn to_string_(&self) -> (r: String) ensures r@ == self.sv();
    fn to_lowercase_(&self) -> (r: String) ensures r@ == super::stubs::fs::lower(self.sv());
    fn first_char_(&self) -> (r: Option<char>) ensures match r { Some(c) => self.sv().len() > 0 && c == self.sv()[0], None => self.sv().len() == 0 };
    fn parse_i32_(&self) -> (r: core::result::Result<i32, ParseError>) ensures match r { Ok(n) => int_of(self.sv()) == Some(n as int), Err(_) => int_of(self.sv()) is None };
}
#[derive(Debug)]
pub struct ParseError;
/// the number that a text spells, if it fits 32 bits
pub uninterp spec fn int_of(s: Seq<char>) -> Option<int>;
impl Texts for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn to_string_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn first_char_(&self) -> (r: Option<char>) { unimplemented!() }
    #[verifier::external_body] fn parse_i32_(&self) -> (r: core::result::Result<i32, ParseError>) { unimplemented!() }
}
impl Texts for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn to_string_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn to_lowercase_(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn first_char_(&self) -> (r: Option<char>) { unimplemented!() }
    #[verifier::external_body] fn parse_i32_(&self) -> (r: core::result::Result<i32, ParseError>) { unimplemented!() }
}
/// the bytes of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn into_bytes_(s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@), (r@.len() == 0) == (s@.len() == 0) { unimplemented!() }
pub mod terminal {
    use vstd::prelude::*;
    use super::fs::{World, Op};
    use super::model::*;
    use super::io::{Stream, Read, Result};
    #[verifier::external_body]
    pub struct Stdin { x: u8 }
    impl Stream for Stdin {
        uninterp spec fn data(&self) -> Seq<u8>;
        uninterp spec fn pos(&self) -> nat;
        uninterp spec fn faulty(&self) -> bool;
        uninterp spec fn log(&self) -> Seq<Ev>;
        uninterp spec fn id(&self) -> int;
    }
    impl Read for Stdin {
        #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) { unimplemented!() }
        #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
        #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn stdin(wd: &mut World) -> (r: Stdin)
        ensures final(wd).ops@ == old(wd).ops@.push(Op::Stdin { rest: from(r.data(), r.pos()) }) { unimplemented!() }
    impl Stdin {
        #[verifier::external_body]
        pub fn read_line(&self, wd: &mut World, s: &mut String) -> (r: Result<usize>)
            ensures match r {
                Ok(_) => exists|t: Seq<char>| final(s)@ == old(s)@ + t && final(wd).ops@ == #[trigger] old(wd).ops@.push(Op::Line { text: t }),
                Err(_) => final(wd).ops@ == old(wd).ops@ }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Stdout { x: u8 }
    #[verifier::external_body]
    pub fn stdout() -> Stdout { unimplemented!() }
    impl Stdout { #[verifier::external_body] pub fn flush(&mut self) -> Result<()> { unimplemented!() } }
}
pub mod rpassword {
    use vstd::prelude::*;
    use super::fs::{World, Op};
    #[verifier::external_body]
    pub fn prompt_password(wd: &mut World, p: &str) -> (r: super::io::Result<String>)
        ensures match r { Ok(s) => final(wd).ops@ == old(wd).ops@.push(Op::Password { text: s@ }), Err(_) => final(wd).ops@ == old(wd).ops@ } { unimplemented!() }
}
pub mod process {
    use vstd::prelude::*;
    use super::fs::{World, Op};
    /// the program ends here: only after a question about an existing path was declined, which is as it was
    #[verifier::external_body]
    pub fn exit_declined_(wd: &mut World, o: Ghost<Seq<Op>>) -> !
        requires super::fs::declined(o@, old(wd).ops@) { unimplemented!() }
    /// the program ends here, with nothing done
    #[verifier::external_body]
    pub fn exit_quiet_(wd: &mut World, o: Ghost<Seq<Op>>) -> !
        requires super::fs::looks(o@, old(wd).ops@) { unimplemented!() }
}
pub mod clap {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct ArgMatches { x: u8 }
    #[derive(Debug)]
    pub struct MatchesError;
    pub trait ArgVal: Sized {
        spec fn is_at(&self, m: &ArgMatches, id: Seq<char>) -> bool;
        spec fn none_at(m: &ArgMatches, id: Seq<char>) -> bool;
    }
    impl ArgVal for String { open spec fn is_at(&self, m: &ArgMatches, id: Seq<char>) -> bool { m.text(id) == Some(self@) } open spec fn none_at(m: &ArgMatches, id: Seq<char>) -> bool { m.text(id) is None } }
    impl ArgVal for bool { open spec fn is_at(&self, m: &ArgMatches, id: Seq<char>) -> bool { m.switch(id) == Some(*self) } open spec fn none_at(m: &ArgMatches, id: Seq<char>) -> bool { m.switch(id) is None } }
    #[verifier::external_body]
    pub struct Values { x: u8 }
    impl ArgMatches {
        /// the subcommand knows this argument
        pub uninterp spec fn defined(&self, id: Seq<char>) -> bool;
        /// it was given, or has a default
        pub uninterp spec fn has(&self, id: Seq<char>) -> bool;
        pub uninterp spec fn text(&self, id: Seq<char>) -> Option<Seq<char>>;
        pub uninterp spec fn texts(&self, id: Seq<char>) -> Option<Seq<Seq<char>>>;
        pub uninterp spec fn switch(&self, id: Seq<char>) -> Option<bool>;
        #[verifier::external_body] pub fn contains_id(&self, id: &str) -> (r: bool) requires self.defined(id@) ensures r == self.has(id@) { unimplemented!() }
        #[verifier::external_body] pub fn try_contains_id(&self, id: &str) -> (r: core::result::Result<bool, MatchesError>) ensures match r { Ok(b) => self.defined(id@) && b == self.has(id@), Err(_) => !self.defined(id@) } { unimplemented!() }
        #[verifier::external_body] pub fn get_one<T: ArgVal>(&self, id: &str) -> (r: Option<&T>) requires self.defined(id@) ensures match r { Some(v) => v.is_at(self, id@), None => T::none_at(self, id@) } { unimplemented!() }
        #[verifier::external_body] pub fn try_get_one<T: ArgVal>(&self, id: &str) -> (r: core::result::Result<Option<&T>, MatchesError>)
            ensures match r { Ok(Some(v)) => self.defined(id@) && v.is_at(self, id@), Ok(None) => self.defined(id@) && T::none_at(self, id@), Err(_) => !self.defined(id@) } { unimplemented!() }
        #[verifier::external_body] pub fn get_many<T: ArgVal>(&self, id: &str) -> (r: Option<Values>) requires self.defined(id@) ensures match r { Some(v) => self.texts(id@) == Some(v@), None => self.texts(id@) is None } { unimplemented!() }
        /// on
        pub open spec fn on(&self, id: Seq<char>) -> bool { self.defined(id) && self.switch(id) == Some(true) }
    }
    impl View for Values { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
    pub open spec fn views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
    #[verifier::external_body]
    pub fn strings_(v: Values) -> (r: Vec<String>) ensures views(r@) == v@ { unimplemented!() }
}
