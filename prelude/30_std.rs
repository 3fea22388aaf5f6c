// Trusted model of the environment, part 2: the standard library.
pub mod std_ {
pub mod convert { pub use crate::base::{TryFrom, TryInto, Into, AsRef}; pub enum Infallible { Never } pub use crate::base::From; }
pub mod cmp { pub use std::cmp::{Ordering, max, min, Reverse}; }
pub mod fmt { pub use crate::base::{Formatter, FmtError as Error}; pub type Result = core::result::Result<(), crate::base::FmtError>; }
pub mod str { pub use crate::base::FromStr; }
pub mod sync { pub use std::sync::Arc; }
pub mod mem { pub use std::mem::drop; }
pub mod ffi {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::path::*;
/// Stands for `OsStr` and `OsString`.
#[verifier::external_body]
pub struct OsStr { s: std::string::String }
pub type OsString = OsStr;
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsStr { pub uninterp spec fn utf8(&self) -> bool;
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&Str>) ensures r is Some <==> self.utf8(), r is Some ==> r->0.view() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_os_string(&self) -> (r: OsStr) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn push<T: AsOs>(&mut self, o: T) ensures final(self).view() == old(self).view() + o.os_view(), final(self).utf8() == (old(self).utf8() && o.os_utf8()) { unimplemented!() } }
pub trait AsOs: Sized { spec fn os_view(self) -> Seq<char>; spec fn os_utf8(self) -> bool; }
impl<'a> AsOs for &'a Str { open spec fn os_view(self) -> Seq<char> { self.view() } open spec fn os_utf8(self) -> bool { true } }
impl AsOs for Str { open spec fn os_view(self) -> Seq<char> { self.view() } open spec fn os_utf8(self) -> bool { true } }
impl<'a> AsOs for &'a OsStr { open spec fn os_view(self) -> Seq<char> { self.view() } open spec fn os_utf8(self) -> bool { self.utf8() } }
pub uninterp spec fn mko(s: Seq<char>, utf8: bool) -> OsStr;
pub broadcast axiom fn axiom_mko(s: Seq<char>, u: bool) ensures (#[trigger] mko(s, u)).view() == s, mko(s, u).utf8() == u;
pub broadcast axiom fn axiom_os_ext(a: OsStr, b: OsStr) ensures #[trigger] a.view() == #[trigger] b.view() && a.utf8() == b.utf8() ==> a == b;
impl<'a> From<&'a Str> for OsStr { open spec fn from_spec(t: &'a Str) -> OsStr { mko(t.view(), true) } #[verifier::external_body] fn v_from(t: &'a Str) -> (r: OsStr) { unimplemented!() } }
impl From<Str> for OsStr { open spec fn from_spec(t: Str) -> OsStr { mko(t.view(), true) } #[verifier::external_body] fn v_from(t: Str) -> (r: OsStr) { unimplemented!() } }
impl AsRef<Path> for OsStr { open spec fn as_ref_spec(&self) -> &Path { &mkp(self.view(), self.utf8()) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl Clone for OsStr { #[verifier::external_body] fn clone(&self) -> (r: OsStr) ensures r == *self { unimplemented!() } }
}
pub mod path {
use vstd::prelude::*;
use crate::base::*;
use crate::world::*;
use crate::std_::ffi::OsStr;
/// Stands for `Path` and `PathBuf`. Two paths that are not UTF-8 are assumed to have different texts.
#[verifier::external_body]
pub struct Path { s: std::string::String }
pub type PathBuf = Path;
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Path { pub uninterp spec fn utf8(&self) -> bool;
    /// the last part is UTF-8
    pub uninterp spec fn name_utf8(&self) -> bool; }
pub broadcast axiom fn axiom_name_utf8(a: Path) ensures #[trigger] a.utf8() ==> a.name_utf8();
pub uninterp spec fn mkp(s: Seq<char>, utf8: bool) -> Path;
pub broadcast axiom fn axiom_mkp(s: Seq<char>, u: bool) ensures (#[trigger] mkp(s, u)).view() == s, mkp(s, u).utf8() == u;
pub broadcast axiom fn axiom_path_ext(a: Path, b: Path)
    ensures #[trigger] a.view() == #[trigger] b.view() && a.utf8() == b.utf8() ==> a == b;

/// a name that can be a directory entry
pub open spec fn simple(n: Seq<char>) -> bool { n.len() > 0 && !n.contains('/') && n != seq!['.'] && n != seq!['.', '.'] }
/// `Path::join`
pub uninterp spec fn pjoin(d: Seq<char>, n: Seq<char>) -> Seq<char>;
/// `Path::with_file_name`
pub uninterp spec fn pwith(p: Seq<char>, n: Seq<char>) -> Seq<char>;
/// `Path::file_name`
pub uninterp spec fn pname(p: Seq<char>) -> Option<Seq<char>>;
/// `Path::parent`
pub uninterp spec fn pparent(p: Seq<char>) -> Option<Seq<char>>;
/// `Path::is_absolute`
pub open spec fn pabs(p: Seq<char>) -> bool { p.len() > 0 && p[0] == '/' }
/// `Path::starts_with`
pub uninterp spec fn pstarts(p: Seq<char>, d: Seq<char>) -> bool;
/// the order of paths
pub uninterp spec fn pcmp(a: Seq<char>, b: Seq<char>) -> std::cmp::Ordering;
/// `Path::strip_prefix`
pub uninterp spec fn pstrip(p: Seq<char>, d: Seq<char>) -> Seq<char>;
/// `Path::file_stem` of a name
pub open spec fn stem(n: Seq<char>) -> Seq<char> {
    let i = rfind_from(n, seq!['.'], n.len() - 1);
    if i <= 0 { n } else { n.take(i) } }
pub broadcast axiom fn axiom_pname_simple(n: Seq<char>) requires simple(n) ensures #[trigger] pname(n) == Some(n);
pub broadcast axiom fn axiom_pname(p: Seq<char>) ensures (#[trigger] pname(p)) is Some ==> simple(pname(p)->0);
pub broadcast axiom fn axiom_join_name(d: Seq<char>, n: Seq<char>) requires simple(n) ensures pname(#[trigger] pjoin(d, n)) == Some(n), pstarts(pjoin(d, n), d), pabs(d) ==> pabs(pjoin(d, n));
/// joining an absolute path gives that path
pub broadcast axiom fn axiom_join_abs(d: Seq<char>, n: Seq<char>) requires pabs(n) ensures #[trigger] pjoin(d, n) == n;
pub broadcast axiom fn axiom_strip(d: Seq<char>, n: Seq<char>) requires pstarts(pjoin(d, n), d) ensures #[trigger] pstrip(pjoin(d, n), d) == n;
/// the text of a path with one more part
pub broadcast axiom fn axiom_join_text(d: Seq<char>, n: Seq<char>) requires simple(n) ensures #[trigger] pjoin(d, n) == (if d.len() == 0 || d.last() == '/' { d + n } else { d + seq!['/'] + n });
pub broadcast axiom fn axiom_pname_key(a: Seq<char>, n: Seq<char>) requires simple(n) ensures pname(#[trigger] (a + seq!['/'] + n)) == Some(n);
pub broadcast axiom fn axiom_simple_rel(n: Seq<char>) requires #[trigger] simple(n) ensures !pabs(n);

impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Path) ensures r == *self { unimplemented!() } }
impl PartialEq for Path { #[verifier::external_body] fn eq(&self, o: &Path) -> (r: bool) { unimplemented!() } }
impl Eq for Path {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Path {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Path) -> bool { *self == *o } }
impl AsRef<Path> for Path { open spec fn as_ref_spec(&self) -> &Path { self } fn as_ref(&self) -> (r: &Path) { self } }
impl AsRef<Path> for Str { open spec fn as_ref_spec(&self) -> &Path { &mkp(self.view(), true) } #[verifier::external_body] fn as_ref(&self) -> (r: &Path) { unimplemented!() } }
impl From<Path> for Path { open spec fn from_spec(t: Path) -> Path { t } fn v_from(t: Path) -> (r: Path) { t } }
impl<'a> From<&'a Path> for Path { open spec fn from_spec(t: &'a Path) -> Path { *t } #[verifier::external_body] fn v_from(t: &'a Path) -> (r: Path) { unimplemented!() } }
impl<'a> From<&'a Str> for Path { open spec fn from_spec(t: &'a Str) -> Path { mkp(t.view(), true) } #[verifier::external_body] fn v_from(t: &'a Str) -> (r: Path) { unimplemented!() } }
impl From<Str> for Path { open spec fn from_spec(t: Str) -> Path { mkp(t.view(), true) } #[verifier::external_body] fn v_from(t: Str) -> (r: Path) { unimplemented!() } }
/// `path.display()` in a text that is not a message
impl VDisplay for Path { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
#[verifier::external_body] pub struct PathError { x: u8 }
impl Path {
    #[verifier::external_body]
    pub fn new<'a, P: AsRef<Path>>(p: &'a P) -> (r: &'a Path) ensures r == p.as_ref_spec() { unimplemented!() }
    pub fn display(&self) -> (r: &Path) ensures r == self { self }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&Str>) ensures r is Some <==> self.utf8(), r is Some ==> r->0.view() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some <==> pname(self.view()) is Some, r is Some ==> r->0.view() == pname(self.view())->0 && r->0.utf8() == self.name_utf8() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures r is Some <==> pname(self.view()) is Some, r is Some ==> r->0.view() == stem(pname(self.view())->0) && (self.name_utf8() ==> r->0.utf8()) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) ensures r is Some <==> pparent(self.view()) is Some, r is Some ==> r->0.view() == pparent(self.view())->0 && (self.utf8() ==> r->0.utf8()) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<P: AsRef<Path>>(&self, p: P) -> (r: Path) ensures r.view() == pjoin(self.view(), p.as_ref_spec().view()), self.utf8() && p.as_ref_spec().utf8() ==> r.utf8() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_file_name<P: AsRef<Path>>(&self, p: P) -> (r: Path) ensures r.view() == pwith(self.view(), p.as_ref_spec().view()), self.utf8() && p.as_ref_spec().utf8() ==> r.utf8() { unimplemented!() }
    pub fn as_path(&self) -> (r: &Path) ensures r == self { self }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: Path) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == pabs(self.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: AsRef<Path>>(&self, p: P) -> (r: bool) ensures r == pstarts(self.view(), p.as_ref_spec().view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: AsRef<Path>>(&self, p: P) -> (r: Result<&Path, PathError>) ensures r is Ok <==> pstarts(self.view(), p.as_ref_spec().view()),
        r is Ok ==> r->Ok_0.view() == pstrip(self.view(), p.as_ref_spec().view()) && (self.utf8() ==> r->Ok_0.utf8()) { unimplemented!() }
    // ---- what touches the file system
    #[verifier::external_body]
    pub fn exists(&self, w: &World) -> (r: bool) ensures pname(self.view()) is Some ==> r == deref(w.fs(), loc(self.view())) is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self, w: &World) -> (r: bool) ensures r ==> pname(self.view()) is Some, pname(self.view()) is Some ==> r == (deref(w.fs(), loc(self.view())) is Some && w.fs()[deref(w.fs(), loc(self.view()))->0] is File) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, w: &World) -> (r: bool) ensures pname(self.view()) is Some ==> r == (deref(w.fs(), loc(self.view())) is Some && w.fs()[deref(w.fs(), loc(self.view()))->0] is Dir) { unimplemented!() }
    #[verifier::external_body]
    pub fn canonicalize(&self, w: &World) -> (r: crate::std_::io::Result<Path>) ensures r is Ok ==> canon_post(w.fs(), self.view(), r->Ok_0.view()) && canon_utf8(w.fs(), *self, r->Ok_0),
        w.ok() && deref(w.fs(), loc(self.view())) is Some ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, w: &World) -> (r: crate::std_::io::Result<crate::std_::fs::Metadata>) ensures
        r is Ok && pname(self.view()) is Some ==> deref(w.fs(), loc(self.view())) is Some && r->Ok_0.node() == w.fs()[deref(w.fs(), loc(self.view()))->0],
        w.ok() && deref(w.fs(), loc(self.view())) is Some ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn symlink_metadata(&self, w: &World) -> (r: crate::std_::io::Result<crate::std_::fs::Metadata>) ensures
        r is Ok && pname(self.view()) is Some ==> w.fs().dom().contains(loc(self.view())) && r->Ok_0.node() == w.fs()[loc(self.view())],
        r is Ok && r->Ok_0.node() is File ==> pname(self.view()) is Some,
        w.ok() && w.fs().dom().contains(loc(self.view())) ==> r is Ok { unimplemented!() }
}
/// what is no link keeps its name
pub open spec fn canon_utf8(fs: Map<Loc, Node>, p: Path, c: Path) -> bool {
    pname(p.view()) is Some && p.name_utf8() && fs.dom().contains(loc(p.view())) && !(fs[loc(p.view())] is Link) && !(fs[loc(p.view())] is Dir) && utf8_dir(dirof(p.view())) ==> c.utf8() }
/// the canonical path of this directory is UTF-8
pub uninterp spec fn utf8_dir(d: Seq<char>) -> bool;
/// the canonical path of what a path leads to
pub open spec fn canon_post(fs: Map<Loc, Node>, p: Seq<char>, c: Seq<char>) -> bool {
    &&& pabs(c)
    &&& pname(p) is Some ==> deref(fs, loc(p)) is Some && ({ let l = deref(fs, loc(p))->0;
        c == pjoin(l.0, l.1) && (fs[l] is Dir ==> c == cdir(p) && cdir(c) == c) })
    &&& pname(p) is None ==> c == cdir(p) && cdir(c) == c && (pname(c) is Some ==> deref(fs, loc(c)) == Some(loc(c)) && fs[loc(c)] is Dir)
}
}
pub mod time {
use vstd::prelude::*;
use crate::base::*;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SystemTime { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { x: u8 }
#[verifier::external_body] pub struct TimeError { x: u8 }
#[verifier::external_body] pub fn epoch() -> SystemTime { unimplemented!() }
/// The clock is not before 1970.
impl SystemTime {
    #[verifier::external_body] pub const UNIX_EPOCH: SystemTime = SystemTime { x: 0 };
    #[verifier::external_body] pub fn now() -> (r: SystemTime) { unimplemented!() }
    #[verifier::external_body] pub fn duration_since(&self, o: SystemTime) -> (r: core::result::Result<Duration, TimeError>) ensures r is Ok { unimplemented!() }
}
impl Duration { #[verifier::external_body] pub fn as_secs(&self) -> (r: u64) { unimplemented!() } #[verifier::external_body] pub fn as_millis(&self) -> (r: u128) { unimplemented!() } #[verifier::external_body] pub fn from_secs(n: u64) -> (r: Duration) { unimplemented!() } }
}
pub mod io {
use vstd::prelude::*;
use crate::base::*;
use crate::world::*;
#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external] impl std::fmt::Debug for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl core::convert::From<Error> for crate::erreur::Report { #[verifier::external_body] fn from(e: Error) -> (r: Self) { unimplemented!() } }
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct IoSlice<'a> { x: &'a u8 }
/// Something that bytes are read from: `rest` are the bytes that it will give, `good` whether it will give them without an error.
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn good(&self) -> bool;
    /// whether `rest` is all there is: reading to the end succeeds only then
    spec fn whole(&self) -> bool;
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
        ensures r is Ok ==> (*old(self)).whole() && final(buf).view() == old(buf).view() + (*old(self)).rest() && r->Ok_0 == (*old(self)).rest().len(), (*old(self)).good() ==> r is Ok;
}
/// Something that bytes are written to. What was written is recorded in the world: a writer itself is only a handle.
pub trait Write: Sized {
    /// number of the writer
    spec fn id(&self) -> int;
    /// all writers that a write to this one can change
    spec fn ids(&self) -> Set<int>;
    /// the files that a write to this one can change
    spec fn locs(&self) -> Set<Loc>;
    fn write(&mut self, buf: &[u8], w: &mut World) -> (r: Result<usize>)
        ensures *final(self) == *old(self), wrote(*old(w), *final(w), (*old(self)).ids(), (*old(self)).locs()), (*old(self)).ids().contains((*old(self)).id()),
            r is Ok ==> r->Ok_0 <= buf.view().len() && final(w).sunk((*old(self)).id()) == old(w).sunk((*old(self)).id()) + buf.view().take(r->Ok_0 as int);
    fn write_all(&mut self, buf: &[u8], w: &mut World) -> (r: Result<()>)
        ensures *final(self) == *old(self), wrote(*old(w), *final(w), (*old(self)).ids(), (*old(self)).locs()), (*old(self)).ids().contains((*old(self)).id()),
            r is Ok ==> final(w).sunk((*old(self)).id()) == old(w).sunk((*old(self)).id()) + buf.view(),
            old(w).ok() ==> r is Ok;
    fn flush(&mut self, w: &mut World) -> (r: Result<()>)
        ensures *final(self) == *old(self), wrote(*old(w), *final(w), (*old(self)).ids(), (*old(self)).locs()), (*old(self)).ids().contains((*old(self)).id()),
            final(w).sunk((*old(self)).id()) == old(w).sunk((*old(self)).id()),
            r is Ok ==> (*old(self)).flushed(*final(w)), old(w).ok() ==> r is Ok;
    /// everything written so far is in the file
    spec fn flushed(&self, w: World) -> bool;
    /// whoever lent this writer gets it back as it is: writing does not change the handle
    #[verifier::prophetic] spec fn kept(&self) -> bool;
    #[verifier::external_body]
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>], w: &mut World) -> (r: Result<usize>)
        ensures *final(self) == *old(self), wrote(*old(w), *final(w), (*old(self)).ids(), (*old(self)).locs()), (*old(self)).ids().contains((*old(self)).id()),
            r is Ok ==> r->Ok_0 <= slices(bufs).len() && final(w).sunk((*old(self)).id()) == old(w).sunk((*old(self)).id()) + slices(bufs).take(r->Ok_0 as int) { unimplemented!() }
}
pub uninterp spec fn slices(b: &[IoSlice<'_>]) -> Seq<u8>;
impl<'a, T: Write> Write for &'a mut T {
    open spec fn id(&self) -> int { (**self).id() }
    open spec fn ids(&self) -> Set<int> { (**self).ids() }
    open spec fn locs(&self) -> Set<Loc> { (**self).locs() }
    open spec fn flushed(&self, w: World) -> bool { (**self).flushed(w) }
    #[verifier::prophetic] open spec fn kept(&self) -> bool { *final(*self) == **self }
    #[verifier::external_body] fn write(&mut self, buf: &[u8], w: &mut World) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8], w: &mut World) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self, w: &mut World) -> (r: Result<()>) { unimplemented!() }
}
pub struct BufWriter<W> { pub inner: W }
impl<W: Write> BufWriter<W> {
    pub fn new(w: W) -> (r: BufWriter<W>) ensures r.inner == w { BufWriter { inner: w } }
}
impl<W: Write> Write for BufWriter<W> {
    open spec fn id(&self) -> int { self.inner.id() }
    open spec fn ids(&self) -> Set<int> { self.inner.ids() }
    open spec fn locs(&self) -> Set<Loc> { self.inner.locs() }
    open spec fn flushed(&self, w: World) -> bool { self.inner.flushed(w) }
    #[verifier::prophetic] open spec fn kept(&self) -> bool { true }
    #[verifier::external_body] fn write(&mut self, buf: &[u8], w: &mut World) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8], w: &mut World) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self, w: &mut World) -> (r: Result<()>) { unimplemented!() }
}
pub struct BufReader<R> { pub inner: R }
impl<R: Read> BufReader<R> { pub fn new(r: R) -> (b: BufReader<R>) ensures b.inner == r { BufReader { inner: r } } }
impl<R: Read> Read for BufReader<R> {
    open spec fn rest(&self) -> Seq<u8> { self.inner.rest() }
    open spec fn good(&self) -> bool { self.inner.good() }
    open spec fn whole(&self) -> bool { self.inner.whole() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
#[verifier::external_body] pub struct Cursor<T> { x: T }
pub trait Bytes { spec fn bytes_of(&self) -> Seq<u8>; }
impl Bytes for Vec<u8> { open spec fn bytes_of(&self) -> Seq<u8> { self.view() } }
impl Bytes for [u8] { open spec fn bytes_of(&self) -> Seq<u8> { self.view() } }
impl<'a, T: Bytes + ?Sized> Bytes for &'a T { open spec fn bytes_of(&self) -> Seq<u8> { (**self).bytes_of() } }
impl<T: Bytes> Cursor<T> { #[verifier::external_body] pub fn new(t: T) -> (r: Cursor<T>) ensures r.rest() == t.bytes_of(), r.good() { unimplemented!() } }
impl<T: Bytes> Read for Cursor<T> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn good(&self) -> bool;
    open spec fn whole(&self) -> bool { true }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>) { unimplemented!() }
}
#[verifier::external_body]
pub fn copy<R: Read, W: Write>(rd: &mut R, wr: &mut W, w: &mut World) -> (r: Result<u64>)
    ensures *final(wr) == *old(wr), wrote(*old(w), *final(w), (*old(wr)).ids(), (*old(wr)).locs()),
        r is Ok ==> (*old(rd)).whole() && final(w).sunk((*old(wr)).id()) == old(w).sunk((*old(wr)).id()) + (*old(rd)).rest(),
        old(w).ok() && (*old(rd)).good() ==> r is Ok { unimplemented!() }
}
pub mod fs {
use vstd::prelude::*;
use crate::base::*;
use crate::world::*;
use crate::std_::path::*;
use crate::std_::io;
pub mod os {}
#[verifier::external_body] pub struct Metadata { x: u8 }
#[verifier::external_body] pub struct FileType { x: u8 }
#[verifier::external_body] pub struct Permissions { x: u8 }
impl Metadata {
    pub uninterp spec fn node(&self) -> Node;
    pub open spec fn sp_len(&self) -> u64 { node_len(self.node()) }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_len)]
    pub fn len(&self) -> (r: u64) ensures r == self.sp_len() { unimplemented!() }
    pub open spec fn sp_file_type(&self) -> FileType { ftype(self.node()) }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_file_type)]
    pub fn file_type(&self) -> (r: FileType) ensures r == self.sp_file_type() { unimplemented!() }
    #[verifier::external_body]
    pub fn permissions(&self) -> (r: Permissions) ensures r.sp_mode() == node_mode(self.node()) { unimplemented!() }
    pub open spec fn sp_is_file(&self, w: &World) -> bool { self.node() is File }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_is_file)]
    pub fn is_file(&self, w: &World) -> (r: bool) ensures r == self.node() is File { unimplemented!() }
    pub open spec fn sp_is_dir(&self, w: &World) -> bool { self.node() is Dir }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_is_dir)]
    pub fn is_dir(&self, w: &World) -> (r: bool) ensures r == self.node() is Dir { unimplemented!() }
}
/// length in a listing; files are shorter than 2^64; pipes and devices have length 0
pub uninterp spec fn node_len(n: Node) -> u64;
pub broadcast axiom fn axiom_node_len(n: Node) ensures n is File ==> #[trigger] node_len(n) == n->data.len(), n is Special ==> node_len(n) == 0;
pub open spec fn node_mode(n: Node) -> u32 { if n is File { n->mode } else { 0 } }
pub uninterp spec fn ftype(n: Node) -> FileType;
pub broadcast axiom fn axiom_ftype(n: Node) ensures (#[trigger] ftype(n)).kind() == (if n is File { 0int } else if n is Dir { 1int } else if n is Link { 2int } else { 3int });
impl FileType {
    pub uninterp spec fn kind(&self) -> int;
    pub open spec fn sp_is_file(&self, w: &World) -> bool { self.kind() == 0 }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_is_file)]
    pub fn is_file(&self, w: &World) -> (r: bool) ensures r == (self.kind() == 0) { unimplemented!() }
    pub open spec fn sp_is_dir(&self, w: &World) -> bool { self.kind() == 1 }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_is_dir)]
    pub fn is_dir(&self, w: &World) -> (r: bool) ensures r == (self.kind() == 1) { unimplemented!() }
    pub open spec fn sp_is_symlink(&self, w: &World) -> bool { self.kind() == 2 }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_is_symlink)]
    pub fn is_symlink(&self, w: &World) -> (r: bool) ensures r == (self.kind() == 2) { unimplemented!() }
}
impl Permissions { pub uninterp spec fn sp_mode(&self) -> u32;
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_mode)] pub fn mode(&self) -> (r: u32) ensures r == self.sp_mode() { unimplemented!() } }

/// An open file: for reading, its content; for writing, a writer.
#[verifier::external_body] pub struct File { x: u8 }
impl File {
    pub uninterp spec fn l(&self) -> Loc;
    pub uninterp spec fn num(&self) -> int;
    #[verifier::external_body]
    pub fn open<P: AsRef<Path>>(p: P, w: &World) -> (r: io::Result<File>)
        ensures r is Ok && pname(p.as_ref_spec().view()) is Some ==> ({ let d = deref(w.fs(), loc(p.as_ref_spec().view()));
                d is Some && (w.fs()[d->0] is Dir ==> !io::Read::whole(&r->Ok_0)) && (w.fs()[d->0] is File ==> io::Read::rest(&r->Ok_0) == w.fs()[d->0]->data) }),
            r is Ok && pname(p.as_ref_spec().view()) is None ==> !io::Read::whole(&r->Ok_0),
            w.ok() && deref(w.fs(), loc(p.as_ref_spec().view())) is Some && !(w.fs()[deref(w.fs(), loc(p.as_ref_spec().view()))->0] is Special) ==> r is Ok,
            w.ok() && deref(w.fs(), loc(p.as_ref_spec().view())) is Some && w.fs()[deref(w.fs(), loc(p.as_ref_spec().view()))->0] is File ==> r is Ok && io::Read::good(&r->Ok_0) && io::Read::whole(&r->Ok_0) { unimplemented!() }
    /// Creates or empties a file: its content is lost at once. Nothing but files of this program has temporary names.
    #[verifier::external_body]
    pub fn create<P: AsRef<Path>>(p: P, w: &mut World) -> (r: io::Result<File>)
        ensures r is Err ==> same(*old(w), *final(w)),
            r is Ok ==> ({ let l0 = loc(p.as_ref_spec().view()); let l = if is_temp(l0.1) || deref(old(w).fs(), l0) is None { l0 } else { deref(old(w).fs(), l0)->0 };
                &&& pname(p.as_ref_spec().view()) is Some
                &&& r->Ok_0.l() == l && final(w).sunk(r->Ok_0.num()) == Seq::<u8>::empty()
                &&& final(w).ok() == old(w).ok() && final(w).s3() == old(w).s3() && final(w).log() == old(w).log().push(Ev::Torn { l })
                &&& final(w).fs().dom() == old(w).fs().dom().insert(l) && file_at(final(w).fs(), l, Seq::empty())
                &&& forall|x: Loc| x != l ==> #[trigger] final(w).fs()[x] == old(w).fs()[x]
                &&& forall|i: int| i != r->Ok_0.num() ==> #[trigger] final(w).sunk(i) == old(w).sunk(i) }),
            old(w).ok() && pname(p.as_ref_spec().view()) is Some && is_temp(pname(p.as_ref_spec().view())->0) ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self, w: &World) -> (r: io::Result<Metadata>) { unimplemented!() }
    #[verifier::external_body]
    pub fn sync_all(&self) -> (r: io::Result<()>) { unimplemented!() }
}
impl io::Read for File {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn good(&self) -> bool;
    uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>) { unimplemented!() }
}
impl io::Write for File {
    open spec fn id(&self) -> int { self.num() }
    open spec fn ids(&self) -> Set<int> { set![self.num()] }
    open spec fn locs(&self) -> Set<Loc> { set![self.l()] }
    open spec fn flushed(&self, w: World) -> bool { file_at(w.fs(), self.l(), w.sunk(self.num())) }
    #[verifier::prophetic] open spec fn kept(&self) -> bool { true }
    #[verifier::external_body] fn write(&mut self, buf: &[u8], w: &mut World) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8], w: &mut World) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self, w: &mut World) -> (r: io::Result<()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q, w: &mut World) -> (r: io::Result<()>)
    ensures r is Err ==> same(*old(w), *final(w)),
        r is Ok ==> ({ let la = loc(a.as_ref_spec().view()); let lb = loc(b.as_ref_spec().view());
            &&& old(w).fs().dom().contains(la) && !(old(w).fs().dom().contains(lb) && old(w).fs()[lb] is Dir)
            &&& final(w).ok() == old(w).ok() && final(w).s3() == old(w).s3()
            &&& final(w).log() == old(w).log().push(Ev::Put { l: lb, n: old(w).fs()[la] }).push(Ev::Del { l: la })
            &&& la != lb ==> final(w).fs() == old(w).fs().remove(la).insert(lb, old(w).fs()[la])
            &&& la == lb ==> final(w).fs() == old(w).fs()
            &&& forall|i: int| #[trigger] final(w).sunk(i) == old(w).sunk(i) }),
        old(w).ok() && old(w).fs().dom().contains(loc(a.as_ref_spec().view())) && !(old(w).fs().dom().contains(loc(b.as_ref_spec().view())) && old(w).fs()[loc(b.as_ref_spec().view())] is Dir)
            && dirof(a.as_ref_spec().view()) == dirof(b.as_ref_spec().view()) ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn remove_file<P: AsRef<Path>>(a: P, w: &mut World) -> (r: io::Result<()>)
    ensures r is Err ==> same(*old(w), *final(w)),
        r is Ok ==> ({ let l = loc(a.as_ref_spec().view()); old(w).fs().dom().contains(l) && !(old(w).fs()[l] is Dir) && did(*old(w), *final(w), Ev::Del { l }) && final(w).fs() == old(w).fs().remove(l) }),
        old(w).ok() && old(w).fs().dom().contains(loc(a.as_ref_spec().view())) && !(old(w).fs()[loc(a.as_ref_spec().view())] is Dir) ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn symlink<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q, w: &mut World) -> (r: io::Result<()>)
    ensures r is Err ==> same(*old(w), *final(w)),
        r is Ok ==> ({ let l = loc(b.as_ref_spec().view()); let n = Node::Link { to: a.as_ref_spec().view() };
            !old(w).fs().dom().contains(l) && did(*old(w), *final(w), Ev::Put { l, n }) && final(w).fs() == old(w).fs().insert(l, n) }),
        old(w).ok() && !old(w).fs().dom().contains(loc(b.as_ref_spec().view())) && pname(b.as_ref_spec().view()) is Some ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn read_link<P: AsRef<Path>>(a: P, w: &World) -> (r: io::Result<Path>)
    ensures r is Ok ==> ({ let l = loc(a.as_ref_spec().view()); w.fs().dom().contains(l) && w.fs()[l] is Link && w.fs()[l]->to == r->Ok_0.view() }),
        w.ok() && w.fs().dom().contains(loc(a.as_ref_spec().view())) && w.fs()[loc(a.as_ref_spec().view())] is Link ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn symlink_metadata<P: AsRef<Path>>(a: P, w: &World) -> (r: io::Result<Metadata>)
    ensures r is Ok ==> w.fs().dom().contains(loc(a.as_ref_spec().view())) && r->Ok_0.node() == w.fs()[loc(a.as_ref_spec().view())],
        w.ok() ==> (r is Ok <==> w.fs().dom().contains(loc(a.as_ref_spec().view()))) { unimplemented!() }
#[verifier::external_body]
pub fn metadata<P: AsRef<Path>>(a: P, w: &World) -> (r: io::Result<Metadata>)
    ensures r is Ok && pname(a.as_ref_spec().view()) is Some ==> deref(w.fs(), loc(a.as_ref_spec().view())) is Some && r->Ok_0.node() == w.fs()[deref(w.fs(), loc(a.as_ref_spec().view()))->0],
        w.ok() && deref(w.fs(), loc(a.as_ref_spec().view())) is Some ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn canonicalize<P: AsRef<Path>>(a: P, w: &World) -> (r: io::Result<Path>)
    ensures r is Ok ==> canon_post(w.fs(), a.as_ref_spec().view(), r->Ok_0.view()) && canon_utf8(w.fs(), *a.as_ref_spec(), r->Ok_0), w.ok() && deref(w.fs(), loc(a.as_ref_spec().view())) is Some ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn read<P: AsRef<Path>>(p: P, w: &World) -> (r: io::Result<Vec<u8>>)
    ensures r is Ok ==> pname(p.as_ref_spec().view()) is Some && ({ let d = deref(w.fs(), loc(p.as_ref_spec().view())); d is Some && !(w.fs()[d->0] is Dir) && (w.fs()[d->0] is File ==> r->Ok_0.view() == w.fs()[d->0]->data) }),
        w.ok() && deref(w.fs(), loc(p.as_ref_spec().view())) is Some && w.fs()[deref(w.fs(), loc(p.as_ref_spec().view()))->0] is File ==> r is Ok { unimplemented!() }
/// Writes in place: whatever was there is lost first.
#[verifier::external_body]
pub fn write<P: AsRef<Path>, C: io::Bytes>(p: P, c: C, w: &mut World) -> (r: io::Result<()>)
    ensures ({ let l0 = loc(p.as_ref_spec().view()); let l = if deref(old(w).fs(), l0) is Some { deref(old(w).fs(), l0)->0 } else { l0 };
        &&& final(w).ok() == old(w).ok() && final(w).s3() == old(w).s3() && final(w).log() == old(w).log().push(Ev::Torn { l })
        &&& forall|x: Loc| x != l ==> #[trigger] final(w).fs()[x] == old(w).fs()[x] && final(w).fs().dom().contains(x) == old(w).fs().dom().contains(x)
        &&& forall|i: int| #[trigger] final(w).sunk(i) == old(w).sunk(i)
        &&& r is Ok ==> file_at(final(w).fs(), l, c.bytes_of()) }) { unimplemented!() }
/// Copies in place: whatever was there is lost first.
#[verifier::external_body]
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, p: Q, w: &mut World) -> (r: io::Result<u64>)
    ensures ({ let l0 = loc(p.as_ref_spec().view()); let l = if deref(old(w).fs(), l0) is Some { deref(old(w).fs(), l0)->0 } else { l0 };
        &&& final(w).ok() == old(w).ok() && final(w).s3() == old(w).s3() && final(w).log() == old(w).log().push(Ev::Torn { l })
        &&& forall|x: Loc| x != l ==> #[trigger] final(w).fs()[x] == old(w).fs()[x] && final(w).fs().dom().contains(x) == old(w).fs().dom().contains(x)
        &&& forall|i: int| #[trigger] final(w).sunk(i) == old(w).sunk(i)
        &&& r is Ok ==> deref(old(w).fs(), loc(a.as_ref_spec().view())) is Some && old(w).fs()[deref(old(w).fs(), loc(a.as_ref_spec().view()))->0] is File
            && file_at(final(w).fs(), l, old(w).fs()[deref(old(w).fs(), loc(a.as_ref_spec().view()))->0]->data) }) { unimplemented!() }

#[verifier::external_body] pub struct DirEntry { x: u8 }
pub type ReadDir = It<io::Result<DirEntry>>;
/// An entry of a listing; if its name is not UTF-8, `name` is not its name but stands for it.
impl DirEntry {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn utf8(&self) -> bool;
    pub uninterp spec fn dir(&self) -> Seq<char>;
    pub uninterp spec fn node(&self) -> Node;
    #[verifier::external_body]
    pub fn path(&self) -> (r: Path) ensures self.utf8() ==> r.view() == pjoin(self.dir(), self.name()), r.name_utf8() == self.utf8(), pname(r.view()) is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: crate::std_::ffi::OsStr) ensures self.utf8() ==> r.view() == self.name(), r.utf8() == self.utf8() { unimplemented!() }
    /// of the entry itself, not of what a link points to
    #[verifier::external_body]
    pub fn metadata(&self, w: &World) -> (r: io::Result<Metadata>) ensures r is Ok ==> r->Ok_0.node() == self.node(), w.ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self) -> (r: io::Result<FileType>) ensures r is Ok ==> r->Ok_0 == ftype(self.node()) { unimplemented!() }
}
/// What a listing of a directory gives: everything that is in it. (A name that is in `fs` is UTF-8: the others are left out of the model.)
pub open spec fn listing(fs: Map<Loc, Node>, d: Seq<char>, es: Seq<io::Result<DirEntry>>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Ok ==> es[i]->Ok_0.dir() == d
    &&& forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Ok && es[i]->Ok_0.utf8() ==> simple(es[i]->Ok_0.name()) && fs.dom().contains((cdir(d), es[i]->Ok_0.name())) && fs[(cdir(d), es[i]->Ok_0.name())] == es[i]->Ok_0.node()
    &&& forall|n: Seq<char>| #[trigger] fs.dom().contains((cdir(d), n)) && simple(n) ==> exists|i: int| 0 <= i < es.len() && ((#[trigger] es[i]) is Err || (es[i]->Ok_0.utf8() && es[i]->Ok_0.name() == n)) }
#[verifier::external_body]
pub fn read_dir<P: AsRef<Path>>(p: P, w: &World) -> (r: io::Result<It<io::Result<DirEntry>>>)
    ensures r is Ok ==> listing(w.fs(), p.as_ref_spec().view(), r->Ok_0.view()),
        r is Ok && w.ok() ==> forall|i: int| 0 <= i < r->Ok_0.view().len() ==> (#[trigger] r->Ok_0.view()[i]) is Ok,
        r is Ok && pname(p.as_ref_spec().view()) is Some ==> leads_dir(w.fs(), p.as_ref_spec().view()),
        w.ok() && (is_dir(p.as_ref_spec().view()) || (pname(p.as_ref_spec().view()) is Some && leads_dir(w.fs(), p.as_ref_spec().view()))) ==> r is Ok { unimplemented!() }
/// this path leads to a directory
pub open spec fn leads_dir(fs: Map<Loc, Node>, p: Seq<char>) -> bool { deref(fs, loc(p)) is Some && fs[deref(fs, loc(p))->0] is Dir }
}
pub mod os { pub mod unix { pub mod fs { pub use crate::std_::fs::symlink; pub use super::super::super::fs::os as PermissionsExt; } } }
pub mod env {
use vstd::prelude::*;
use crate::base::*;
pub struct VarError;
/// the environment of the process does not change
pub uninterp spec fn env_var(n: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn var(n: &Str) -> (r: Result<Str, VarError>) ensures r is Ok <==> env_var(n.view()) is Some, r is Ok ==> r->Ok_0.view() == env_var(n.view())->0 { unimplemented!() }
#[verifier::external_body]
pub fn current_dir() -> (r: crate::std_::io::Result<crate::std_::path::Path>) { unimplemented!() }
}
pub mod process {
use vstd::prelude::*;
/// Ends the process: callers see nothing after a non-zero exit status. `exits` is what the contract of the caller demands of that moment.
#[verifier::external_body]
pub fn exit(code: i32, exits: Ghost<bool>) -> ! requires code != 0, exits@ { unimplemented!() }
}
pub mod collections {
use vstd::prelude::*;
use crate::base::*;
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.view() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.view().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self.view().dom().contains(*k), r is Some ==> *(r->0) == self.view()[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).view() == old(self).view().insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self).view() == old(self).view().remove(*k) { unimplemented!() }
    /// in no particular order
    #[verifier::external_body]
    pub fn keys(&self) -> (r: It<&K>) ensures forall|k: K| (exists|i: int| 0 <= i < r.view().len() && *(#[trigger] r.view()[i]) == k) <==> #[trigger] self.view().dom().contains(k) { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (r: hash_map::Entry<'a, K, V>)
        ensures match r {
            hash_map::Entry::Occupied(o) => *o.m == *old(self) && o.k == k && old(self).view().dom().contains(k) && *final(o.m) == *final(self),
            hash_map::Entry::Vacant(o) => *o.m == *old(self) && o.k == k && !old(self).view().dom().contains(k) && *final(o.m) == *final(self) }
    { if self.contains_key(&k) { hash_map::Entry::Occupied(hash_map::OccupiedEntry { m: self, k }) } else { hash_map::Entry::Vacant(hash_map::VacantEntry { m: self, k }) } }
}
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K, V> VDefault for HashMap<K, V> { open spec fn is_default(&self) -> bool { self.view() == Map::<K, V>::empty() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
pub mod hash_map {
use vstd::prelude::*;
use super::HashMap;
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == old(self.m).view()[self.k] { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) ensures final(self.m).view() == old(self.m).view().insert(self.k, v) { self.m.insert(self.k, v); }
}
}
}
}
