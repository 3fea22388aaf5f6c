# ------------------------------------------------------------------ the program
fn bin::setup_logging(_verbose)
  status: trusted

mod bin
  items:
    use crate::ArtefactIndex as Ix;
    use crate::world::{Loc, Node, Key, loc, cdir, changes, is_tmpdir, same, deref};
    use crate::std_::path::{pjoin, simple};
    use crate::names::build_name;
    use crate::index::pn;
    use crate::cli::{the_args, AddBuild};
    /// the stores that the program is called with
    pub open spec fn apart(c: Cli, w: World) -> bool { Ix::apart_at(w, c.local_store.view(), c.remote_store) && !is_tmpdir(cdir(c.local_store.view())) }
    /// the index of these stores
    pub open spec fn opened(c: Cli, w: World, i: Ix) -> bool { i.wf() && i.remote == c.remote_store && crate::std_::path::canon_post(w.fs(), c.local_store.view(), i.dir()) && i.exact_p(w) && i.tracks(w) }
    pub open spec fn dirs(c: Cli, i: Ix) -> Set<Seq<char>> { let s = set![i.dir(), cdir(c.local_store.view())]; if i.remote.root() is Some { s.insert(cdir(i.remote.root()->0.view())) } else { s } }
    /// directly in one of the stores
    pub open spec fn inside(c: Cli, i: Ix) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| dirs(c, i).contains(x.0) }
    pub open spec fn below(i: Ix) -> spec_fn(Key, Seq<u8>) -> bool { |k: Key, d: Seq<u8>| i.remote.root() is None && exists|n: Seq<char>| simple(n) && k == #[trigger] i.remote.key(n) }
    pub open spec fn added(i: Ix, b: AddBuild, w0: World, w1: World) -> bool {
        &&& b.from(w0)
        &&& b.exactly(i, w0) ==> i.usable(w1, b.name(w0)) && w1.fs()[i.at(b.name(w0))]->data == b.data(w0)
        &&& exists|j: Ix| #[trigger] j.kin(i) && b.patched(w0, j, w1) && b.sent(j, w1) }
    pub open spec fn packaged(i: Ix, v: crate::Version, b: AddBuild, w0: World, w1: World) -> bool {
        &&& (w0.ok() && i.nice()) || b.calculate_patch_from is None ==> i.usable(w1, build_name(v.view())) && b.boxed(w0, w1.fs()[i.at(build_name(v.view()))]->data)
        &&& exists|j: Ix| #[trigger] j.kin(i) && b.patched_to(v, j, w1) && b.sent(j, w1) }
    /// what the command is for
    pub open spec fn done(c: Cli, i: Ix, w0: World, w1: World) -> bool { match c.cmd {
        Command::Debug => same(w0, w1),
        Command::Sync => forall|n: Seq<char>| #[trigger] i.owed(n) ==> i.stored(w0, w1, n),
        Command::Install { version } => ({ let l = loc(pjoin(c.local_store.view(), crate::n_current())); w1.fs().dom().contains(l) && w1.fs()[l] == crate::link(i, version) && i.usable(w1, build_name(version.view())) && deref(w1.fs(), l) == Some(i.at(build_name(version.view()))) }),
        Command::Add(b) => added(i, b, w0, w1),
        Command::AddPackage { version, build } => packaged(i, version, build, w0, w1),
        Command::CreatePatch { from, to } => i.usable(w1, pn(from, to)),
        Command::AutoPatch { repo_root, current, prefix } => i.clean() ==> exists|j: Ix| #[trigger] j.kin(i) && crate::auto_made(j, w1, repo_root.0.view(), prefix.view(), current.view()) } }
    /// everything that commands write is directly in the stores
    pub proof fn lemma_inside(c: Cli)
        ensures
            forall|i: Ix, w: World, l: Loc, v: crate::Version, x: Loc, d: Node| #![trigger crate::installs(i, w, l, v)(x, d)] i.wf() && l.0 == cdir(c.local_store.view()) && crate::installs(i, w, l, v)(x, d) ==> inside(c, i)(x, d),
            forall|i: Ix, w: World, a: crate::Version, b: crate::Version, x: Loc, d: Node| #![trigger i.drafted(w, a, b)(x, d)] i.wf() && i.drafted(w, a, b)(x, d) ==> inside(c, i)(x, d),
            forall|i: Ix, w: World, b: crate::Version, x: Loc, d: Node| #![trigger i.tries(w, b)(x, d)] i.wf() && i.tries(w, b)(x, d) ==> inside(c, i)(x, d)
    {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm); hide(Ix::copy_of); hide(Ix::diff); }
    pub proof fn lemma_sent(c: Cli, j: Ix, w: World)
        requires j.wf(), j.tracks(w)
        ensures forall|x: Loc, d: Node| #[trigger] j.sent_file(w)(x, d) ==> inside(c, j)(x, d), forall|k: Key, d: Seq<u8>| #[trigger] j.sent_up(w)(k, d) ==> below(j)(k, d)
    {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm); }
    pub proof fn lemma_kin(c: Cli, i: Ix, j: Ix)
        requires j.kin(i)
        ensures inside(c, j) == inside(c, i), below(j) == below(i)
    {}
    pub proof fn lemma_added(c: Cli, b: AddBuild, i: Ix, w0: World, j: Ix, w1: World, v: crate::Version)
        requires i.wf(), j.wf(), j.kin(i), j.tracks(w1)
        ensures forall|x: Loc, d: Node| #[trigger] b.writes(i, w0, j, w1)(x, d) ==> inside(c, i)(x, d), forall|x: Loc, d: Node| #[trigger] b.packs(i, w0, j, w1, v)(x, d) ==> inside(c, i)(x, d), forall|k: Key, d: Seq<u8>| #[trigger] b.ups(j, w1)(k, d) ==> below(i)(k, d)
    {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm); hide(Ix::copy_of); hide(Ix::diff); hide(AddBuild::diff_to); hide(Ix::diff_had); hide(AddBuild::boxed); hide(Ix::sent_file); hide(Ix::sent_up);
        lemma_sent(c, j, w1); lemma_kin(c, i, j); }

fn bin::main()
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, Ix::truth, Ix::copy_of, crate::auto_made, crate::installs, Ix::drafted, Ix::tries, Ix::sent_file, Ix::sent_up, AddBuild::writes, AddBuild::packs, AddBuild::ups, AddBuild::boxed, inside, below, Ix::exact_b, Ix::exact_p
  proof: crate::lemma_current(); crate::index::lemma_names();
    let c = the_args(); lemma_inside(c);
    assert forall|j: Ix, b: World| #![trigger j.sent_file(b)] j.wf() && j.tracks(b) implies (forall|x: Loc, d: Node| #[trigger] j.sent_file(b)(x, d) ==> inside(c, j)(x, d)) && (forall|k: Key, d: Seq<u8>| #[trigger] j.sent_up(b)(k, d) ==> below(j)(k, d)) by { lemma_sent(c, j, b); }
    assert forall|ad: AddBuild, i: Ix, a: World, j: Ix, b: World| #![trigger ad.writes(i, a, j, b)] i.wf() && j.wf() && j.kin(i) && j.tracks(b) implies (forall|x: Loc, d: Node| #[trigger] ad.writes(i, a, j, b)(x, d) ==> inside(c, i)(x, d)) && (forall|k: Key, d: Seq<u8>| #[trigger] ad.ups(j, b)(k, d) ==> below(i)(k, d)) by { lemma_added(c, ad, i, a, j, b, crate::index::ver(Seq::empty())); }
    assert forall|ad: AddBuild, i: Ix, a: World, j: Ix, b: World, v: crate::Version| #![trigger ad.packs(i, a, j, b, v)] i.wf() && j.wf() && j.kin(i) && j.tracks(b) implies (forall|x: Loc, d: Node| #[trigger] ad.packs(i, a, j, b, v)(x, d) ==> inside(c, i)(x, d)) && (forall|k: Key, d: Seq<u8>| #[trigger] ad.ups(j, b)(k, d) ==> below(i)(k, d)) by { lemma_added(c, ad, i, a, j, b, v); }
  requires: apart(the_args(), *old(w))
  ensures: same(*old(w), *final(w)) || exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && changes(*old(w), *final(w), dirs(the_args(), i), inside(the_args(), i), below(i)),
    /*C18*/ r is Ok && the_args().cmd is Debug ==> exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && done(the_args(), i, *old(w), *final(w)),
    /*C10 C14*/ r is Ok && the_args().cmd is Sync ==> exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && done(the_args(), i, *old(w), *final(w)),
    /*C07*/ r is Ok && the_args().cmd is Install ==> exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && done(the_args(), i, *old(w), *final(w)),
    /*C11*/ r is Ok && the_args().cmd is Add ==> exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && done(the_args(), i, *old(w), *final(w)),
    /*C12*/ r is Ok && the_args().cmd is AddPackage ==> exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && done(the_args(), i, *old(w), *final(w)),
    /*C16*/ r is Ok && the_args().cmd is CreatePatch ==> exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && done(the_args(), i, *old(w), *final(w)),
    /*C17*/ r is Ok && the_args().cmd is AutoPatch ==> exists|i: Ix| #[trigger] i.exact_b(*old(w)) && opened(the_args(), *old(w), i) && done(the_args(), i, *old(w), *final(w))
