// Trusted model of the environment, part 3: other crates.
pub mod smol_str { pub use crate::base::Str as SmolStr; }
pub mod petgraph {
pub mod graph {
use vstd::prelude::*;
use crate::base::*;
#[derive(Clone, Copy)] pub struct DefaultIx { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(Ix)] pub struct NodeIndex<Ix = DefaultIx> { x: Option<Ix> }
#[verifier::external_body] #[verifier::reject_recursive_types(Ix)] pub struct EdgeIndex<Ix = DefaultIx> { x: Option<Ix> }
impl<Ix> NodeIndex<Ix> { pub uninterp spec fn ix(&self) -> int; }
impl<Ix> EdgeIndex<Ix> { pub uninterp spec fn ix(&self) -> int; }
pub broadcast axiom fn axiom_node_ix(a: NodeIndex, b: NodeIndex) ensures #[trigger] a.ix() == #[trigger] b.ix() ==> a == b;
pub broadcast axiom fn axiom_edge_ix(a: EdgeIndex, b: EdgeIndex) ensures #[trigger] a.ix() == #[trigger] b.ix() ==> a == b;
impl<Ix> Clone for NodeIndex<Ix> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<Ix> Clone for EdgeIndex<Ix> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<Ix: Copy> Copy for NodeIndex<Ix> {}
impl<Ix: Copy> Copy for EdgeIndex<Ix> {}
impl<Ix> PartialEq for NodeIndex<Ix> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<Ix> Eq for NodeIndex<Ix> {}
impl<Ix> vstd::std_specs::cmp::PartialEqSpecImpl for NodeIndex<Ix> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
/// Nodes and edges (source, target, weight) in the order in which they were added.
#[verifier::external_body] #[verifier::reject_recursive_types(N)] #[verifier::reject_recursive_types(E)]
pub struct Graph<N, E> { n: Vec<N>, e: Vec<E> }
pub struct Node<N> { pub weight: N }
pub struct Edge<E> { pub weight: E }
impl<N, E> Graph<N, E> {
    pub uninterp spec fn nodes(&self) -> Seq<N>;
    pub uninterp spec fn edges(&self) -> Seq<E>;
    pub uninterp spec fn src(&self) -> Seq<int>;
    pub uninterp spec fn dst(&self) -> Seq<int>;
    pub open spec fn wf(&self) -> bool { self.src().len() == self.edges().len() && self.dst().len() == self.edges().len()
        && (forall|i: int| 0 <= i < self.edges().len() ==> 0 <= #[trigger] self.src()[i] < self.nodes().len())
        && (forall|i: int| 0 <= i < self.edges().len() ==> 0 <= #[trigger] self.dst()[i] < self.nodes().len()) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.nodes().len() == 0 && r.edges().len() == 0 && r.wf() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: N) -> (r: NodeIndex)
        ensures r.ix() == old(self).nodes().len(), final(self).nodes() == old(self).nodes().push(n), final(self).edges() == old(self).edges(), final(self).src() == old(self).src(), final(self).dst() == old(self).dst() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex, b: NodeIndex, e: E) -> (r: EdgeIndex)
        requires 0 <= a.ix() < old(self).nodes().len(), 0 <= b.ix() < old(self).nodes().len(),
        ensures r.ix() == old(self).edges().len(), final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().push(e),
            final(self).src() == old(self).src().push(a.ix()), final(self).dst() == old(self).dst().push(b.ix()) { unimplemented!() }
    #[verifier::external_body]
    pub fn node_weight(&self, i: NodeIndex) -> (r: Option<&N>)
        ensures r is Some <==> 0 <= i.ix() < self.nodes().len(), r is Some ==> *(r->0) == self.nodes()[i.ix()] { unimplemented!() }
    #[verifier::external_body]
    pub fn node_weight_mut(&mut self, i: NodeIndex) -> (r: Option<&mut N>)
        ensures r is Some <==> 0 <= i.ix() < old(self).nodes().len(),
            final(self).edges() == old(self).edges(), final(self).src() == old(self).src(), final(self).dst() == old(self).dst(),
            match r { Some(m) => *m == old(self).nodes()[i.ix()] && final(self).nodes() == old(self).nodes().update(i.ix(), *final(m)), None => final(self).nodes() == old(self).nodes() } { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_weight_mut(&mut self, i: EdgeIndex) -> (r: Option<&mut E>)
        ensures r is Some <==> 0 <= i.ix() < old(self).edges().len(),
            final(self).nodes() == old(self).nodes(), final(self).src() == old(self).src(), final(self).dst() == old(self).dst(),
            match r { Some(m) => *m == old(self).edges()[i.ix()] && final(self).edges() == old(self).edges().update(i.ix(), *final(m)), None => final(self).edges() == old(self).edges() } { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_nodes(&self) -> (r: &[Node<N>]) ensures r.view().len() == self.nodes().len(), forall|i: int| #![trigger r.view()[i]] #![trigger self.nodes()[i]] 0 <= i < r.view().len() ==> r.view()[i].weight == self.nodes()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_edges(&self) -> (r: &[Edge<E>]) ensures r.view().len() == self.edges().len(), forall|i: int| #![trigger r.view()[i]] #![trigger self.edges()[i]] 0 <= i < r.view().len() ==> r.view()[i].weight == self.edges()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn node_weights(&self) -> (r: It<&N>) ensures r.view() == Seq::new(self.nodes().len(), |i: int| &self.nodes()[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_weights(&self) -> (r: It<&E>) ensures r.view() == Seq::new(self.edges().len(), |i: int| &self.edges()[i]) { unimplemented!() }
    /// a sequence of edges, each starting where the one before ends
    pub open spec fn route(&self, es: Seq<int>, a: int, b: int) -> bool {
        if es.len() == 0 { a == b } else {
            &&& forall|i: int| 0 <= i < es.len() ==> 0 <= #[trigger] es[i] < self.edges().len()
            &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < es.len() ==> self.dst()[#[trigger] es[i]] == self.src()[#[trigger] es[j]]
            &&& self.src()[es[0]] == a && self.dst()[es.last()] == b } }
}
impl<N, E> VDefault for Graph<N, E> { open spec fn is_default(&self) -> bool { self.nodes().len() == 0 && self.edges().len() == 0 && self.wf() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl<N, E> VIndex<NodeIndex> for Graph<N, E> { type Out = N;
    open spec fn vi_ok(&self, i: NodeIndex) -> bool { 0 <= i.ix() < self.nodes().len() }
    open spec fn vi(&self, i: NodeIndex) -> N { self.nodes()[i.ix()] }
    #[verifier::external_body] fn v_index(&self, i: NodeIndex) -> (r: &N) { unimplemented!() } }
pub open spec fn total(f: spec_fn(int) -> int, es: Seq<int>) -> int decreases es.len() { if es.len() == 0 { 0 } else { total(f, es.drop_last()) + f(es.last()) } }
#[verifier::external_body] #[verifier::reject_recursive_types(E)] pub struct EdgeReference<'a, E> { e: &'a E }
impl<'a, E> EdgeReference<'a, E> {
    pub uninterp spec fn sp_weight(&self) -> &E;
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_weight)] pub fn weight(&self) -> (r: &E) ensures r == self.sp_weight() { unimplemented!() }
}
}
pub mod algo {
use vstd::prelude::*;
use crate::base::*;
use super::graph::*;
/// the result of a search for a cheapest way from `a` to `b`, where edge `i` costs `f(i)`
pub open spec fn best<N, E>(g: &Graph<N, E>, a: int, b: int, f: spec_fn(int) -> int, cost: int, steps: Seq<NodeIndex>, es: Seq<int>) -> bool {
    &&& g.route(es, a, b) && steps.len() == es.len() + 1 && steps[0].ix() == a && steps.last().ix() == b
    &&& forall|i: int| 0 <= i < es.len() ==> g.src()[#[trigger] es[i]] == steps[i].ix() && g.dst()[es[i]] == steps[i + 1].ix()
    &&& forall|i: int| 0 <= i < steps.len() ==> 0 <= (#[trigger] steps[i]).ix() < g.nodes().len()
    &&& cost == total(f, es)
    &&& forall|o: Seq<int>| #[trigger] g.route(o, a, b) ==> cost <= total(f, o) }
/// edge `i`, as it is handed to the cost function
pub open spec fn costs<N, E, F: Fn(EdgeReference<'_, E>) -> u64>(g: &Graph<N, E>, f: F, c: spec_fn(int) -> int) -> bool {
    forall|i: int, e: EdgeReference<'_, E>, r: u64| 0 <= i < g.edges().len() && *e.sp_weight() == g.edges()[i] && #[trigger] call_ensures(f, (e,), r) ==> r == #[trigger] c(i) }
pub open spec fn goes_to<G: Fn(NodeIndex) -> bool>(f: G, b: NodeIndex) -> bool { forall|n: NodeIndex, r: bool| #[trigger] call_ensures(f, (n,), r) ==> r == (n == b) }
pub open spec fn no_estimate<H: Fn(NodeIndex) -> u64>(h: H) -> bool { forall|n: NodeIndex, r: u64| #[trigger] call_ensures(h, (n,), r) ==> r == 0 }
/// Assumes that no sum of costs reaches 2^64.
#[verifier::external_body]
pub fn astar<N, E, G: Fn(NodeIndex) -> bool, F: Fn(EdgeReference<'_, E>) -> u64, H: Fn(NodeIndex) -> u64>(g: &Graph<N, E>, a: NodeIndex, goal: G, cost: F, h: H) -> (r: Option<(u64, Vec<NodeIndex>)>)
    requires g.wf(), 0 <= a.ix() < g.nodes().len(),
        forall|n: NodeIndex| 0 <= n.ix() < g.nodes().len() ==> call_requires(goal, (n,)) && call_requires(h, (n,)),
        forall|e: EdgeReference<'_, E>| g.edges().contains(*e.sp_weight()) ==> call_requires(cost, (e,)),
    ensures forall|b: NodeIndex, c: spec_fn(int) -> int| #[trigger] hint(b) && #[trigger] hint(c) && goes_to(goal, b) && costs(g, cost, c) && no_estimate(h) ==> searched(g, a, b, c, r) { unimplemented!() }
pub open spec fn searched<N, E>(g: &Graph<N, E>, a: NodeIndex, b: NodeIndex, c: spec_fn(int) -> int, r: Option<(u64, Vec<NodeIndex>)>) -> bool {
    match r { Some(x) => exists|es: Seq<int>| #[trigger] best(g, a.ix(), b.ix(), c, x.0 as int, x.1.view(), es), None => forall|o: Seq<int>| !#[trigger] g.route(o, a.ix(), b.ix()) } }
}
}
pub mod zstd {
use vstd::prelude::*;
/// what a zstd stream decompresses to
pub uninterp spec fn zdec(s: Seq<u8>) -> Option<Seq<u8>>;
pub mod stream {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io;
use super::zdec;
#[verifier::external_body]
pub fn decode_all<R: io::Read>(r: R) -> (o: io::Result<Vec<u8>>)
    ensures o is Ok ==> r.whole() && zdec(r.rest()) == Some(o->Ok_0.view()), r.good() && zdec(r.rest()) is Some ==> o is Ok { unimplemented!() }
pub mod write {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io;
use super::super::zdec;
/// Compresses what is written to it into `inner`.
pub struct Encoder<'a, W> { pub inner: W, pub level: Ghost<i32>, pub num: Ghost<int>, pub base: Ghost<Seq<u8>>, pub p: &'a u8 }
impl<W: io::Write> Encoder<'static, W> {
    #[verifier::external_body]
    pub fn new(inner: W, level: i32, w: &mut World) -> (r: io::Result<Self>)
        ensures inner.ids().contains(inner.id()), wrote_new(*old(w), *final(w)), r is Ok ==> encodes(*old(w), *final(w), r->Ok_0, inner, level),
            r is Err ==> same(*old(w), *final(w)), old(w).ok() ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self, w: &mut World) -> (r: io::Result<W>)
        ensures wrote(*old(w), *final(w), io::Write::ids(&self), io::Write::locs(&self)), r is Ok ==> r->Ok_0 == self.inner,
            r is Ok ==> packed(*final(w), self.inner.id(), self.base@, old(w).sunk(self.num@)), old(w).ok() ==> r is Ok { unimplemented!() }
}
/// a new encoder that writes to `inner`
pub open spec fn encodes<W: io::Write>(a: World, b: World, e: Encoder<'static, W>, inner: W, level: i32) -> bool {
    &&& e.inner == inner && e.level@ == level && e.base@ == a.sunk(inner.id())
    &&& !inner.ids().contains(e.num@) && b.sunk(e.num@) == Seq::<u8>::empty() && forall|i: int| i != e.num@ ==> #[trigger] b.sunk(i) == a.sunk(i) }
/// what the writer got after `base` decompresses to `data`
pub open spec fn packed(w: World, id: int, base: Seq<u8>, data: Seq<u8>) -> bool {
    let s = w.sunk(id); s.len() > base.len() && s.take(base.len() as int) == base && zdec(s.skip(base.len() as int)) == Some(data) && (base.len() == 0 ==> s.skip(0) =~= s && zdec(s) == Some(data)) }
impl<W: io::Write> io::Write for Encoder<'static, W> {
    open spec fn id(&self) -> int { self.num@ }
    open spec fn ids(&self) -> Set<int> { self.inner.ids().insert(self.num@) }
    open spec fn locs(&self) -> Set<Loc> { self.inner.locs() }
    open spec fn flushed(&self, w: World) -> bool { true }
    #[verifier::prophetic] open spec fn kept(&self) -> bool { true }
    #[verifier::external_body] fn write(&mut self, buf: &[u8], w: &mut World) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8], w: &mut World) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self, w: &mut World) -> (r: io::Result<()>) { unimplemented!() }
}
}
pub mod read {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io; use crate::std_::io::Read as _;
use super::super::zdec;
#[verifier::reject_recursive_types(R)]
#[verifier::external_body] pub struct Decoder<R> { r: R }
impl<R: io::Read> Decoder<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (o: io::Result<Self>)
        ensures o is Ok ==> (o->Ok_0.whole() <==> r.whole() && zdec(r.rest()) is Some) && (zdec(r.rest()) is Some ==> o->Ok_0.rest() == zdec(r.rest())->0 && (r.good() ==> o->Ok_0.good())), r.good() ==> o is Ok { unimplemented!() } }
impl<R> io::Read for Decoder<R> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn good(&self) -> bool;
    uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>) { unimplemented!() }
}
}
}
}
pub mod bidiff {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io;
/// what a patch makes from a text
pub uninterp spec fn bp(patch: Seq<u8>, old: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body] pub struct DiffParams { x: u8 }
#[verifier::external_body] pub struct ParamError { x: u8 }
impl VDisplay for ParamError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl DiffParams { #[verifier::external_body] pub fn new(p: usize, c: Option<usize>) -> (r: Result<DiffParams, ParamError>) ensures r is Ok <==> p >= 1 && (c is Some ==> c->0 >= 1) { unimplemented!() } }
pub open spec fn diffed(a: World, b: World, id: int, old: Seq<u8>, new: Seq<u8>) -> bool {
    exists|d: Seq<u8>| b.sunk(id) == #[trigger] (a.sunk(id) + d) && bp(d, old) == Some(new) }
#[verifier::external_body]
pub fn simple_diff_with_params<W: io::Write>(older: &[u8], newer: &[u8], out: &mut W, p: &DiffParams, w: &mut World) -> (r: io::Result<()>)
    ensures *final(out) == *old(out), wrote(*old(w), *final(w), (*old(out)).ids(), (*old(out)).locs()), r is Ok ==> diffed(*old(w), *final(w), (*old(out)).id(), older.view(), newer.view()),
        old(w).ok() && older.view().len() > 0 && newer.view().len() > 0 ==> r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn simple_diff<W: io::Write>(older: &[u8], newer: &[u8], out: &mut W, w: &mut World) -> (r: io::Result<()>)
    ensures *final(out) == *old(out), wrote(*old(w), *final(w), (*old(out)).ids(), (*old(out)).locs()), r is Ok ==> diffed(*old(w), *final(w), (*old(out)).id(), older.view(), newer.view()),
        old(w).ok() && older.view().len() > 0 && newer.view().len() > 0 ==> r is Ok { unimplemented!() }
}
pub mod bipatch {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io; use crate::std_::io::Read as _;
use crate::bidiff::bp;
#[verifier::reject_recursive_types(R)] #[verifier::reject_recursive_types(S)]
#[verifier::external_body] pub struct Reader<R, S> { r: R, s: S }
#[verifier::external_body] pub struct DecodeError { x: u8 }
impl<R: io::Read, S: io::Read> Reader<R, S> {
    #[verifier::external_body]
    pub fn new(patch: R, old: S) -> (o: Result<Self, DecodeError>)
        ensures o is Ok ==> (o->Ok_0.whole() <==> patch.whole() && old.whole() && bp(patch.rest(), old.rest()) is Some) && (bp(patch.rest(), old.rest()) is Some ==> o->Ok_0.rest() == bp(patch.rest(), old.rest())->0 && (patch.good() && old.good() ==> o->Ok_0.good())),
            patch.good() && old.good() && bp(patch.rest(), old.rest()) is Some ==> o is Ok { unimplemented!() } }
impl<R, S> io::Read for Reader<R, S> {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn good(&self) -> bool;
    uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>) { unimplemented!() }
}
}
pub mod tar {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io;
use crate::std_::path::*;
pub enum HeaderMode { Complete, Deterministic }
/// what can be set in a header
pub struct Head { pub size: int, pub mode: int, pub major: int, pub minor: int, pub mtime: int, pub uid: int, pub gid: int }
/// one archive entry: everything that its bytes depend on
pub struct Ent { pub path: Seq<char>, pub head: Head, pub data: Seq<u8> }
/// the bytes of an archive
pub uninterp spec fn tar_bytes(es: Seq<Ent>) -> Seq<u8>;
pub struct Header { pub h: Ghost<Head> }
impl Header {
    #[verifier::external_body] pub fn new_gnu() -> (r: Header) ensures r.h@ == (Head { size: 0, mode: 0, major: 0, minor: 0, mtime: 0, uid: 0, gid: 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn set_size(&mut self, n: u64) ensures final(self).h@ == (Head { size: n as int, ..old(self).h@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_mode(&mut self, n: u32) ensures final(self).h@ == (Head { mode: n as int, ..old(self).h@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_mtime(&mut self, n: u64) ensures final(self).h@ == (Head { mtime: n as int, ..old(self).h@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_uid(&mut self, n: u64) ensures final(self).h@ == (Head { uid: n as int, ..old(self).h@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_gid(&mut self, n: u64) ensures final(self).h@ == (Head { gid: n as int, ..old(self).h@ }) { unimplemented!() }
    /// takes the mode, times and owner of the file
    #[verifier::external_body] pub fn set_metadata(&mut self, m: &crate::std_::fs::Metadata) ensures final(self).h@.major == old(self).h@.major, final(self).h@.minor == old(self).h@.minor { unimplemented!() }
    #[verifier::external_body] pub fn set_metadata_in_mode(&mut self, m: &crate::std_::fs::Metadata, mode: HeaderMode) ensures final(self).h@.major == old(self).h@.major, final(self).h@.minor == old(self).h@.minor { unimplemented!() }
    #[verifier::external_body] pub fn set_cksum(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn set_device_major(&mut self, n: u32) -> (r: io::Result<()>) ensures r is Ok ==> final(self).h@ == (Head { major: n as int, ..old(self).h@ }) { unimplemented!() }
    #[verifier::external_body] pub fn set_device_minor(&mut self, n: u32) -> (r: io::Result<()>) ensures r is Ok ==> final(self).h@ == (Head { minor: n as int, ..old(self).h@ }) { unimplemented!() }
}
pub struct Builder<W> { pub inner: W, pub ents: Ghost<Seq<Ent>>, pub base: Ghost<Seq<u8>> }
impl<W: io::Write> Builder<W> {
    /// A builder only ever writes to the writer that it holds.
    #[verifier::external_body] pub fn new(inner: W, w: &World) -> (r: Self) ensures r.inner == inner, r.ents@ == Seq::<Ent>::empty(), r.base@ == w.sunk(inner.id()), inner.kept() { unimplemented!() }
    #[verifier::external_body] pub fn mode(&mut self, m: HeaderMode) ensures *final(self) == *old(self) { unimplemented!() }
    /// The header that is written has this path, and whatever else it has depends only on what `Header` has here.
    #[verifier::external_body]
    pub fn append_data<P: AsRef<Path>, R: io::Read>(&mut self, h: &mut Header, p: P, data: R, w: &mut World) -> (r: io::Result<()>)
        ensures wrote(*old(w), *final(w), old(self).inner.ids(), old(self).inner.locs()), final(self).inner == old(self).inner, final(self).base == old(self).base,
            r is Ok ==> data.whole() && final(self).ents@ == old(self).ents@.push(Ent { path: p.as_ref_spec().view(), head: old(h).h@, data: data.rest() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&mut self, w: &mut World) -> (r: io::Result<()>)
        ensures wrote(*old(w), *final(w), old(self).inner.ids(), old(self).inner.locs()), *final(self) == *old(self),
            r is Ok ==> final(w).sunk(old(self).inner.id()) == old(self).base@ + tar_bytes(old(self).ents@) { unimplemented!() }
}
}
pub mod walkdir {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io;
use crate::std_::path::*;
/// Everything at or below a path, without following links, in ascending order of paths.
pub uninterp spec fn below(fs: Map<Loc, Node>, root: Seq<char>) -> Seq<Seq<char>>;
/// The directory for temporary directories is at or below this path, or this path is in a temporary directory of this run.
pub uninterp spec fn holds_tmp(root: Seq<char>) -> bool;
/// Temporary directories of this run are in the directory for temporary directories.
pub broadcast axiom fn axiom_below(a: Map<Loc, Node>, b: Map<Loc, Node>, root: Seq<char>)
    requires !holds_tmp(root), forall|l: Loc| #![trigger b.dom().contains(l)] #![trigger b[l]] is_tmpdir(l.0) || (b.dom().contains(l) == a.dom().contains(l) && b[l] == a[l])
    ensures #![trigger below(a, root), below(b, root)] below(a, root) == below(b, root);
pub broadcast axiom fn axiom_not_tmp(a: Map<Loc, Node>, root: Seq<char>, k: int)
    requires !holds_tmp(root), 0 <= k < below(a, root).len() ensures !is_tmpdir(dirof(#[trigger] below(a, root)[k]));
pub axiom fn axiom_not_in_tmp(root: Seq<char>) requires !holds_tmp(root) ensures !is_tmpdir(dirof(root));
#[verifier::external_body] pub struct WalkDir { x: u8 }
#[verifier::external_body] pub struct DirEntry { x: u8 }
#[verifier::external_body] pub struct Error { x: u8 }
pub open spec fn all_ok(s: Seq<Result<DirEntry, Error>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn paths(s: Seq<Result<DirEntry, Error>>) -> Seq<Seq<char>> { s.map_values(|e: Result<DirEntry, Error>| e->Ok_0.sp_path().view()) }
/// links are not followed below, but a link as the root would be
pub open spec fn plain(fs: Map<Loc, Node>, root: Seq<char>) -> bool { pname(root) is Some && fs.dom().contains(loc(root)) ==> !(fs[loc(root)] is Link) }
impl WalkDir {
    pub uninterp spec fn root(&self) -> Seq<char>;
    pub uninterp spec fn fs(&self) -> Map<Loc, Node>;
    pub uninterp spec fn sorted(&self) -> bool;
    #[verifier::external_body] pub fn new<P: AsRef<Path>>(p: P, w: &World) -> (r: WalkDir) ensures r.root() == p.as_ref_spec().view(), r.fs() == w.fs() { unimplemented!() }
    #[verifier::external_body] pub fn v_sort_by<F: Fn(&DirEntry, &DirEntry) -> std::cmp::Ordering>(self, f: F) -> (r: WalkDir)
        requires forall|a: DirEntry, b: DirEntry| call_requires(f, (&a, &b)),
        ensures r.root() == self.root(), r.fs() == self.fs(), (forall|a: DirEntry, b: DirEntry, o: std::cmp::Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == pcmp(a.sp_path().view(), b.sp_path().view())) ==> r.sorted() { unimplemented!() }
    #[verifier::external_body] pub fn sort_by_file_name(self) -> (r: WalkDir) ensures r.root() == self.root(), r.fs() == self.fs(), r.sorted() { unimplemented!() }
    /// Sorting the entries of each directory by path makes the whole sequence ascending.
    #[verifier::external_body] pub fn v_into_iter(self) -> (r: It<Result<DirEntry, Error>>)
        ensures r.view().len() >= 1, all_ok(r.view()) && self.sorted() && plain(self.fs(), self.root()) ==> paths(r.view()) == below(self.fs(), self.root()),
            forall|i: int| 0 <= i < r.view().len() && (#[trigger] r.view()[i]) is Ok ==> r.view()[i]->Ok_0.fs() == self.fs() { unimplemented!() }
}
impl DirEntry {
    pub uninterp spec fn sp_path(&self) -> &Path;
    pub uninterp spec fn fs(&self) -> Map<Loc, Node>;
    /// of the entry itself; only directories have paths without a name
    pub open spec fn node(&self) -> Node { if pname(self.sp_path().view()) is Some { self.fs()[loc(self.sp_path().view())] } else { Node::Dir } }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_path)] pub fn path(&self) -> (r: &Path) ensures r == self.sp_path() { unimplemented!() }
    #[verifier::external_body] pub fn file_type(&self) -> (r: crate::std_::fs::FileType) ensures r == crate::std_::fs::ftype(self.node()), pname(self.sp_path().view()) is Some ==> self.fs().dom().contains(loc(self.sp_path().view())) { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self, w: &World) -> (r: Result<crate::std_::fs::Metadata, Error>) ensures r is Ok && pname(self.sp_path().view()) is Some ==> w.fs().dom().contains(loc(self.sp_path().view())) && r->Ok_0.node() == w.fs()[loc(self.sp_path().view())] { unimplemented!() }
}
}
pub mod tempfile {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::io;
use crate::std_::path::*;
/// A directory of this run only; nothing else is in it.
#[verifier::external_body] pub struct TempDir { x: u8 }
impl TempDir {
    pub uninterp spec fn sp_path(&self) -> &Path;
    #[verifier::external_body] pub fn path(&self) -> (r: &Path) ensures r == self.sp_path() { unimplemented!() }
    #[verifier::external_body] pub fn close(self, w: &mut World) -> (r: io::Result<()>)
        ensures final(w).ok() == old(w).ok(), final(w).s3() == old(w).s3(), final(w).log() == old(w).log().push(Ev::Rmdir { d: cdir(self.sp_path().view()) }), forall|i: int| #[trigger] final(w).sunk(i) == old(w).sunk(i),
            forall|l: Loc| #![trigger final(w).fs().dom().contains(l)] #![trigger final(w).fs()[l]] l.0 == cdir(self.sp_path().view()) || (final(w).fs().dom().contains(l) == old(w).fs().dom().contains(l) && final(w).fs()[l] == old(w).fs()[l]) { unimplemented!() }
}
#[verifier::external_body]
pub fn tempdir(w: &mut World) -> (r: io::Result<TempDir>)
    ensures r is Err ==> same(*old(w), *final(w)),
        r is Ok ==> ({ let d = cdir(r->Ok_0.sp_path().view());
            &&& is_tmpdir(d) && r->Ok_0.sp_path().utf8() && pabs(r->Ok_0.sp_path().view())
            &&& final(w).fs() == old(w).fs() && final(w).s3() == old(w).s3() && final(w).ok() == old(w).ok() && final(w).log() == old(w).log().push(Ev::Mkdir { d })
            &&& forall|i: int| #[trigger] final(w).sunk(i) == old(w).sunk(i)
            &&& forall|n: Seq<char>| !final(w).fs().dom().contains((d, n)) }) { unimplemented!() }
}
pub mod git2 {
use vstd::prelude::*;
use crate::base::*;
#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub struct Repository { x: u8 }
#[verifier::external_body] pub struct Reference<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Commit<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Time { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Oid { x: u8 }
/// what is read of a reference; the short name is UTF-8 or only bytes
pub struct RefData { pub tag: bool, pub short: Option<Seq<char>>, pub bytes: Seq<u8> }
impl RefData { pub open spec fn name(&self) -> Seq<char> { if self.short is Some { self.short->0 } else { crate::base::lossy(self.bytes) } } }
/// the repository that is found from a path: repositories do not change while the program runs
pub uninterp spec fn repo_at(p: Seq<char>) -> Repository;
impl Repository {
    /// what the references are, in the order of the listing; none if one cannot be read
    pub uninterp spec fn refs(&self) -> Seq<Option<RefData>>;
    #[verifier::external_body] pub fn discover<P: AsRef<crate::std_::path::Path>>(p: P) -> (r: Result<Repository, Error>)
        ensures r is Ok ==> r->Ok_0 == repo_at(p.as_ref_spec().view()) { unimplemented!() }
    #[verifier::external_body] pub fn references(&self) -> (r: Result<It<Result<Reference<'_>, Error>>, Error>)
        ensures r is Ok ==> r->Ok_0.view().len() == self.refs().len() && forall|i: int| #![trigger r->Ok_0.view()[i]] #![trigger self.refs()[i]] 0 <= i < self.refs().len() ==> (r->Ok_0.view()[i] is Ok <==> self.refs()[i] is Some) && (r->Ok_0.view()[i] is Ok ==> r->Ok_0.view()[i]->Ok_0.data() == self.refs()[i]->0) { unimplemented!() }
}
impl core::convert::From<Error> for crate::erreur::Report { #[verifier::external_body] fn from(e: Error) -> (r: Self) { unimplemented!() } }
impl<'a> Reference<'a> {
    pub uninterp spec fn data(&self) -> RefData;
    pub open spec fn sp_is_tag(&self) -> bool { self.data().tag }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_is_tag)] pub fn is_tag(&self) -> (r: bool) ensures r == self.sp_is_tag() { unimplemented!() }
    #[verifier::external_body] pub fn peel_to_commit(&self) -> (r: Result<Commit<'a>, Error>) { unimplemented!() }
    #[verifier::external_body] pub fn shorthand(&self) -> (r: Option<&Str>) ensures r is Some <==> self.data().short is Some, r is Some ==> r->0.view() == self.data().short->0 { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: Option<&Str>) { unimplemented!() }
    #[verifier::external_body] pub fn shorthand_bytes(&self) -> (r: &[u8]) ensures r@ == self.data().bytes { unimplemented!() }
}
impl<'a> Commit<'a> { #[verifier::external_body] pub fn time(&self) -> Time { unimplemented!() } #[verifier::external_body] pub fn id(&self) -> Oid { unimplemented!() } }
impl Time { #[verifier::external_body] pub fn seconds(&self) -> i64 { unimplemented!() } }
}
pub mod chrono {
use vstd::prelude::*;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NaiveDateTime { x: u8 }
impl NaiveDateTime { #[verifier::external_body] pub fn from_timestamp_opt(s: i64, n: u32) -> (r: Option<NaiveDateTime>) { unimplemented!() } }
}
pub mod url {
use vstd::prelude::*;
use crate::base::*;
#[verifier::external_body] pub struct Url { x: u8 }
#[verifier::external_body] pub struct ParseError { x: u8 }
pub uninterp spec fn parse_url(s: Seq<char>) -> Option<Url>;
impl Url {
    pub uninterp spec fn v_scheme(&self) -> Seq<char>;
    pub uninterp spec fn v_host(&self) -> Option<Seq<char>>;
    pub uninterp spec fn v_path(&self) -> Seq<char>;
    #[verifier::external_body] pub fn scheme(&self) -> (r: &Str) ensures r.view() == self.v_scheme() { unimplemented!() }
    #[verifier::external_body] pub fn host_str(&self) -> (r: Option<&Str>) ensures r is Some <==> self.v_host() is Some, r is Some ==> r->0.view() == self.v_host()->0 { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &Str) ensures r.view() == self.v_path() { unimplemented!() }
    #[verifier::external_body] pub fn parse(s: &Str) -> (r: Result<Url, ParseError>) ensures r is Ok <==> parse_url(s.view()) is Some, r is Ok ==> Some(r->Ok_0) == parse_url(s.view()) { unimplemented!() }
}
impl FromStr for Url { type Err = ParseError;
    open spec fn from_str_post(s: &Str, r: Result<Url, ParseError>) -> bool { (r is Ok <==> parse_url(s.view()) is Some) && (r is Ok ==> Some(r->Ok_0) == parse_url(s.view())) }
    #[verifier::external_body] fn from_str(s: &Str) -> (r: Result<Url, ParseError>) { unimplemented!() } }
}
pub mod md5 {
use vstd::prelude::*;
use crate::base::*;
/// Assumed to be collision free.
pub uninterp spec fn md5(s: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_md5(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] md5(a) == #[trigger] md5(b) ==> a == b;
pub broadcast axiom fn axiom_hex(a: Seq<u8>, b: Seq<u8>) ensures #[trigger] hex(a) == #[trigger] hex(b) ==> a == b;
#[verifier::external_body] pub struct Digest { x: u8 }
impl View for Digest { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VHex for Box<Digest> { open spec fn bytes(&self) -> Seq<u8> { (**self).view() } }
#[verifier::external_body] pub fn compute<B: crate::std_::io::Bytes>(b: B) -> (r: Box<Digest>) ensures r.view() == md5(b.bytes_of()) { unimplemented!() }
}
pub mod base64 {
use vstd::prelude::*;
use crate::base::*;
pub uninterp spec fn b64(s: Seq<u8>) -> Seq<char>;
pub trait B64 { spec fn b64_bytes(&self) -> Seq<u8>; }
impl B64 for crate::md5::Digest { open spec fn b64_bytes(&self) -> Seq<u8> { self.view() } }
#[verifier::external_body] pub fn encode<B: B64>(b: &B) -> (r: Str) ensures r.view() == b64(b.b64_bytes()) { unimplemented!() }
}
pub mod futures { pub mod stream {
use vstd::prelude::*;
use crate::base::*;
pub trait StreamExt {} pub trait TryStreamExt {}
pub fn iter<T, I: IntoIt<T>>(i: I) -> (r: It<T>) ensures r.view() == i.items() { i.into_it() }
} }
pub mod tokio { pub mod io { pub use crate::std_::io::Read as AsyncReadExt; } }
pub mod async_read_progress {}
pub mod rusoto_core {
use vstd::prelude::*;
use crate::base::*;
pub enum Region { Custom { name: Str, endpoint: Str }, Other }
pub mod request { use vstd::prelude::*; pub struct BufferedHttpResponse { pub status: u16, pub body: Vec<u8> } }
pub enum RusotoError<E> { Service(E), Unknown(request::BufferedHttpResponse), Other }
}
pub mod rusoto_s3 {
use vstd::prelude::*;
use crate::base::*;
use crate::rusoto_core::*;
use crate::md5::md5;
use crate::base64::b64;
pub trait S3 {}
pub struct PutObjectError; pub struct GetObjectError; pub struct ListObjectsV2Error;
#[verifier::external_body] pub struct S3Client { x: u8 }
pub struct ListObjectsV2Request { pub bucket: Str, pub prefix: Option<Str>, pub delimiter: Option<Str>, pub continuation_token: Option<Str>, pub start_after: Option<Str>, pub max_keys: Option<i64>, pub encoding_type: Option<Str> }
impl VDefault for ListObjectsV2Request { open spec fn is_default(&self) -> bool { self.prefix is None && self.delimiter is None && self.continuation_token is None && self.start_after is None && self.max_keys is None && self.encoding_type is None } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
pub struct ListObjectsV2Output { pub contents: Option<Vec<Object>>, pub is_truncated: Option<bool>, pub next_continuation_token: Option<Str>, pub continuation_token: Option<Str>, pub key_count: Option<i64> }
pub struct Object { pub key: Option<Str>, pub size: Option<i64>, pub e_tag: Option<Str> }
pub struct GetObjectRequest { pub bucket: Str, pub key: Str, pub range: Option<Str>, pub version_id: Option<Str> }
impl VDefault for GetObjectRequest { open spec fn is_default(&self) -> bool { self.range is None && self.version_id is None } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
pub struct GetObjectOutput { pub body: Option<StreamingBody>, pub content_length: Option<i64>, pub e_tag: Option<Str> }
pub struct PutObjectRequest { pub bucket: Str, pub key: Str, pub body: Option<StreamingBody>, pub content_md5: Option<Str>, pub content_length: Option<i64>, pub acl: Option<Str> }
impl VDefault for PutObjectRequest { open spec fn is_default(&self) -> bool { self.body is None && self.content_md5 is None && self.content_length is None && self.acl is None } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
pub struct PutObjectOutput { pub e_tag: Option<Str> }
#[verifier::external_body] pub struct StreamingBody { x: u8 }
impl StreamingBody { pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn into_async_read(self) -> (r: BodyReader) ensures crate::std_::io::Read::rest(&r) == self.data(), self.sound() ==> crate::std_::io::Read::good(&r) && crate::std_::io::Read::whole(&r) { unimplemented!() }
    /// it arrives without an error
    pub uninterp spec fn sound(&self) -> bool; }
impl From<Vec<u8>> for StreamingBody { uninterp spec fn from_spec(t: Vec<u8>) -> StreamingBody; #[verifier::external_body] fn v_from(t: Vec<u8>) -> (r: StreamingBody) { unimplemented!() } }
pub broadcast axiom fn axiom_body(t: Vec<u8>) ensures (#[trigger] <StreamingBody as From<Vec<u8>>>::from_spec(t)).data() == t.view();
#[verifier::external_body] pub struct BodyReader { x: u8 }
impl crate::std_::io::Read for BodyReader {
    uninterp spec fn rest(&self) -> Seq<u8>;
    uninterp spec fn good(&self) -> bool;
    uninterp spec fn whole(&self) -> bool;
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: crate::std_::io::Result<usize>) { unimplemented!() }
}
/// directly below a prefix, up to a delimiter
pub open spec fn listed(k: Key, ep: Seq<char>, bucket: Seq<char>, prefix: Seq<char>, delim: Option<Seq<char>>) -> bool {
    k.0 == ep && k.1 == bucket && starts(k.2, prefix) && (delim is Some ==> !occurs(k.2.skip(prefix.len() as int), delim->0)) }
/// the keys that the server lists, all pages
pub uninterp spec fn keys(s3: Map<Key, Seq<u8>>, ep: Seq<char>, bucket: Seq<char>, prefix: Seq<char>, delim: Option<Seq<char>>) -> Seq<Seq<char>>;
pub broadcast axiom fn axiom_keys(s3: Map<Key, Seq<u8>>, ep: Seq<char>, bucket: Seq<char>, prefix: Seq<char>, delim: Option<Seq<char>>)
    ensures (#[trigger] keys(s3, ep, bucket, prefix, delim)).no_duplicates(),
        forall|k: Seq<char>| #[trigger] keys(s3, ep, bucket, prefix, delim).contains(k) <==> s3.dom().contains((ep, bucket, k)) && listed((ep, bucket, k), ep, bucket, prefix, delim);
/// where a page starts
pub uninterp spec fn tokpos(t: Seq<char>) -> int;
pub open spec fn oview(o: Option<Str>) -> Option<Seq<char>> { match o { Some(s) => Some(s.view()), None => None } }
pub open spec fn ostr(o: Option<Str>) -> Seq<char> { match o { Some(s) => s.view(), None => Seq::empty() } }
pub open spec fn page(s3: Map<Key, Seq<u8>>, ep: Seq<char>, q: ListObjectsV2Request, o: ListObjectsV2Output) -> bool {
    let ks = keys(s3, ep, q.bucket.view(), ostr(q.prefix), oview(q.delimiter));
    let from = match q.continuation_token { Some(t) => tokpos(t.view()), None => 0 };
    let n = match o.contents { Some(v) => v.view().len() as int, None => 0 };
    q.start_after is None && q.encoding_type is None && 0 <= from <= ks.len() ==> {
    &&& from + n <= ks.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] (o.contents->0).view()[i]).key is Some && (o.contents->0).view()[i].key->0.view() == ks[from + i]
            && (o.contents->0).view()[i].size is Some && (o.contents->0).view()[i].size->0 == s3[(ep, q.bucket.view(), ks[from + i])].len()
    &&& o.is_truncated == Some(true) || from + n == ks.len()
    &&& o.is_truncated == Some(true) ==> o.next_continuation_token is Some && tokpos(o.next_continuation_token->0.view()) == from + n } }
/// What the server announces as checksum: that of the object, except for multi-part ones (with a dash).
pub open spec fn announced(tag: Seq<char>, data: Seq<u8>) -> bool { occurs(tag, seq!['-']) || trim_end(trim_start(tag, seq!['"']), seq!['"']) == hex(md5(data)) }
impl S3Client {
    pub uninterp spec fn ep(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(r: Region) -> (c: S3Client) ensures r is Custom ==> c.ep() == r->endpoint.view() { unimplemented!() }
    #[verifier::external_body] pub fn list_objects_v2(&self, q: ListObjectsV2Request, w: &World) -> (r: Result<ListObjectsV2Output, RusotoError<ListObjectsV2Error>>)
        ensures r is Ok ==> page(w.s3(), self.ep(), q, r->Ok_0), w.ok() ==> r is Ok { unimplemented!() }
    /// What arrives may be corrupted, unless the checksum is of the kind that nobody can check.
    #[verifier::external_body] pub fn get_object(&self, q: GetObjectRequest, w: &World) -> (r: Result<GetObjectOutput, RusotoError<GetObjectError>>)
        ensures ({ let k = (self.ep(), q.bucket.view(), q.key.view());
            &&& r is Ok && q.range is None && q.version_id is None ==> w.s3().dom().contains(k)
                && (r->Ok_0.content_length is Some ==> r->Ok_0.content_length->0 == w.s3()[k].len())
                && (r->Ok_0.e_tag is Some ==> announced(r->Ok_0.e_tag->0.view(), w.s3()[k]) && (occurs(r->Ok_0.e_tag->0.view(), seq!['-']) && r->Ok_0.body is Some ==> r->Ok_0.body->0.data() == w.s3()[k]))
            &&& w.ok() && w.s3().dom().contains(k) && q.range is None && q.version_id is None ==> r is Ok && r->Ok_0.content_length is Some && r->Ok_0.e_tag is Some && r->Ok_0.body is Some && r->Ok_0.body->0.sound() && r->Ok_0.body->0.data() == w.s3()[k] }) { unimplemented!() }
    /// A request without the checksum of its body could be stored corrupted: not allowed here.
    #[verifier::external_body] pub fn put_object(&self, q: PutObjectRequest, w: &mut World) -> (r: Result<PutObjectOutput, RusotoError<PutObjectError>>)
        requires q.body is Some, q.content_md5 is Some, q.content_md5->0.view() == b64(md5(q.body->0.data())),
        ensures ({ let k = (self.ep(), q.bucket.view(), q.key.view());
            &&& final(w).ok() == old(w).ok() && final(w).fs() == old(w).fs() && final(w).log() == old(w).log().push(Ev::Up { k, data: q.body->0.data() })
            &&& forall|i: int| #[trigger] final(w).sunk(i) == old(w).sunk(i)
            &&& final(w).s3() == old(w).s3().insert(k, q.body->0.data()) || (r is Err && final(w).s3() == old(w).s3())
            &&& old(w).ok() ==> r is Ok }) { unimplemented!() }
}
}
pub mod humansize {
use vstd::prelude::*;
use crate::base::*;
pub struct Options;
pub mod file_size_opts { pub const BINARY: super::Options = super::Options; pub const DECIMAL: super::Options = super::Options; pub const CONVENTIONAL: super::Options = super::Options; }
pub trait FileSize { fn file_size(&self, o: Options) -> (r: Result<Str, Str>) ensures r is Ok; }
impl FileSize for u64 { #[verifier::external_body] fn file_size(&self, o: Options) -> (r: Result<Str, Str>) { unimplemented!() } }
}
