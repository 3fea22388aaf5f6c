// Trusted model of the environment: file system, S3, writers.
pub mod world {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::path::*;

/// a directory entry: canonical path of the directory, name
pub type Loc = (Seq<char>, Seq<char>);
pub enum Node { File { data: Seq<u8>, mode: u32 }, Link { to: Seq<char> }, Dir, Special }
/// endpoint, bucket, key
pub type Key = (Seq<char>, Seq<char>, Seq<char>);
/// What was done to the environment, in order. `Put` and `Del` happen in one instant; after `Torn` the file at `l`
/// may have had any content for a while.
pub enum Ev { Put { l: Loc, n: Node }, Torn { l: Loc }, Del { l: Loc }, Up { k: Key, data: Seq<u8> }, Mkdir { d: Seq<char> }, Rmdir { d: Seq<char> } }

#[verifier::external_body]
pub struct World { x: u8 }
impl World {
    pub uninterp spec fn fs(&self) -> Map<Loc, Node>;
    pub uninterp spec fn s3(&self) -> Map<Key, Seq<u8>>;
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    /// no operation fails without a reason in `fs` or `s3` (no full disk, no lost connection, ...); never changes
    pub uninterp spec fn ok(&self) -> bool;
    /// bytes accepted by the writer with this number
    pub uninterp spec fn sunk(&self, id: int) -> Seq<u8>;
}

// ---- locations
/// canonical form of the path of a directory. Directories are assumed not to be moved or replaced while the program runs.
pub uninterp spec fn cdir(d: Seq<char>) -> Seq<char>;
/// canonical directory that holds the entry that a path names
pub uninterp spec fn dirof(p: Seq<char>) -> Seq<char>;
pub open spec fn loc(p: Seq<char>) -> Loc { (dirof(p), match pname(p) { Some(n) => n, None => Seq::empty() }) }
/// this path leads to a directory
pub uninterp spec fn is_dir(d: Seq<char>) -> bool;
pub broadcast axiom fn axiom_cdir(d: Seq<char>) ensures cdir(#[trigger] cdir(d)) == cdir(d);
pub broadcast axiom fn axiom_join_dir(d: Seq<char>, n: Seq<char>) requires simple(n) ensures dirof(#[trigger] pjoin(d, n)) == cdir(d);
pub broadcast axiom fn axiom_with_dir(p: Seq<char>, n: Seq<char>) requires simple(n), pname(p) is Some
    ensures dirof(#[trigger] pwith(p, n)) == dirof(p), pname(pwith(p, n)) == Some(n);
pub broadcast axiom fn axiom_dirof_canon(p: Seq<char>) ensures cdir(#[trigger] dirof(p)) == dirof(p);
/// where an entry leads to, following symbolic links
pub uninterp spec fn deref(fs: Map<Loc, Node>, l: Loc) -> Option<Loc>;
pub broadcast axiom fn axiom_deref(fs: Map<Loc, Node>, l: Loc)
    ensures !fs.dom().contains(l) ==> #[trigger] deref(fs, l) is None,
        fs.dom().contains(l) && !(fs[l] is Link) ==> deref(fs, l) == Some(l),
        deref(fs, l) is Some ==> fs.dom().contains(deref(fs, l)->0) && !(fs[deref(fs, l)->0] is Link) && simple((deref(fs, l)->0).1) && cdir((deref(fs, l)->0).0) == (deref(fs, l)->0).0;
/// a link with an absolute target
pub broadcast axiom fn axiom_deref_link(fs: Map<Loc, Node>, l: Loc)
    ensures fs.dom().contains(l) && fs[l] is Link && pabs(fs[l]->to) ==> #[trigger] deref(fs, l) == deref(fs, loc(fs[l]->to));

// ---- temporary names
pub open spec fn temp_prefix() -> Seq<char> { "._artefacta-temp-"@ }
pub open spec fn is_temp(n: Seq<char>) -> bool { starts(n, temp_prefix()) && (ends(n, seq!['.', 'p', 'a', 'r', 't']) || n == temp_prefix() + seq!['c', 'u', 'r', 'r', 'e', 'n', 't']) }

// ---- steps
/// From `a` to `b` nothing is written but: files (no directories) with temporary names in the directories `ds`, anything in directories
/// of this run, what `ok` allows in the file system (in one instant: a name appears together with that node), what `up` allows on S3.
pub open spec fn changes(a: World, b: World, ds: Set<Seq<char>>, ok: spec_fn(Loc, Node) -> bool, up: spec_fn(Key, Seq<u8>) -> bool) -> bool {
    &&& b.ok() == a.ok()
    &&& b.log().len() >= a.log().len()
    &&& forall|i: int| 0 <= i < a.log().len() ==> #[trigger] b.log()[i] == a.log()[i]
    &&& forall|i: int| a.log().len() <= i < b.log().len() ==> ev_ok(#[trigger] b.log()[i], ds, ok, up)
    &&& forall|l: Loc| #![trigger b.fs().dom().contains(l)] #![trigger b.fs()[l]] (scratch(l, ds) && (is_tmpdir(l.0) || no_dir(b, l))) || kept_at(a, b, l) || (b.fs().dom().contains(l) && ok(l, b.fs()[l]))
    &&& forall|k: Key| #![trigger b.s3().dom().contains(k)] #![trigger b.s3()[k]] (b.s3().dom().contains(k) == a.s3().dom().contains(k) && b.s3()[k] == a.s3()[k]) || (b.s3().dom().contains(k) && up(k, b.s3()[k])) }
/// there is no directory
pub open spec fn no_dir(b: World, l: Loc) -> bool { !(b.fs().dom().contains(l) && b.fs()[l] is Dir) }
pub open spec fn kept_at(a: World, b: World, l: Loc) -> bool { b.fs().dom().contains(l) == a.fs().dom().contains(l) && b.fs()[l] == a.fs()[l] }
/// a temporary file, or in a directory of this run
pub open spec fn scratch(l: Loc, ds: Set<Seq<char>>) -> bool { (is_temp(l.1) && ds.contains(l.0)) || is_tmpdir(l.0) }
pub open spec fn ev_ok(e: Ev, ds: Set<Seq<char>>, ok: spec_fn(Loc, Node) -> bool, up: spec_fn(Key, Seq<u8>) -> bool) -> bool {
    match e { Ev::Put { l, n } => scratch(l, ds) || ok(l, n), Ev::Torn { l } => scratch(l, ds), Ev::Del { l } => scratch(l, ds), Ev::Up { k, data } => up(k, data), Ev::Mkdir { d } => is_tmpdir(d), Ev::Rmdir { d } => is_tmpdir(d) } }
pub open spec fn no_file() -> spec_fn(Loc, Node) -> bool { |l: Loc, n: Node| false }
pub open spec fn no_up() -> spec_fn(Key, Seq<u8>) -> bool { |k: Key, d: Seq<u8>| false }
pub open spec fn file_at(fs: Map<Loc, Node>, l: Loc, data: Seq<u8>) -> bool { fs.dom().contains(l) && fs[l] is File && fs[l]->data == data }
/// nothing is different
pub open spec fn same(a: World, b: World) -> bool { b.fs() == a.fs() && b.s3() == a.s3() && b.log() == a.log() && b.ok() == a.ok() && forall|i: int| b.sunk(i) == a.sunk(i) }
/// only bytes were written, through the writers `ids`, to the files `ls`
pub open spec fn wrote(a: World, b: World, ids: Set<int>, ls: Set<Loc>) -> bool {
    &&& b.ok() == a.ok() && b.s3() == a.s3()
    &&& b.log().len() >= a.log().len()
    &&& forall|i: int| 0 <= i < a.log().len() ==> #[trigger] b.log()[i] == a.log()[i]
    &&& forall|i: int| a.log().len() <= i < b.log().len() ==> (#[trigger] b.log()[i]) is Torn && ls.contains(b.log()[i]->Torn_l)
    &&& forall|l: Loc| #![trigger b.fs().dom().contains(l)] #![trigger b.fs()[l]] (ls.contains(l) && !(b.fs()[l] is Dir)) || (b.fs().dom().contains(l) == a.fs().dom().contains(l) && b.fs()[l] == a.fs()[l])
    &&& forall|l: Loc| #![trigger b.fs().dom().contains(l)] b.fs().dom().contains(l) == a.fs().dom().contains(l)
    &&& forall|i: int| !ids.contains(i) ==> #[trigger] b.sunk(i) == a.sunk(i)
}
/// nothing is different but what a new writer holds
pub open spec fn wrote_new(a: World, b: World) -> bool { b.fs() == a.fs() && b.s3() == a.s3() && b.log() == a.log() && b.ok() == a.ok() }
/// directories of this run only
pub uninterp spec fn is_tmpdir(d: Seq<char>) -> bool;
/// exactly one event
pub open spec fn did(a: World, b: World, e: Ev) -> bool { b.ok() == a.ok() && b.s3() == a.s3() && b.log() == a.log().push(e) && forall|i: int| #[trigger] b.sunk(i) == a.sunk(i) }
pub broadcast group world_axioms { axiom_cdir, axiom_join_dir, axiom_with_dir, axiom_dirof_canon, axiom_deref, axiom_deref_link }
}
