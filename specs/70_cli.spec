# ------------------------------------------------------------------ commands
mod .
  items:
    use crate::world::{Loc, Node, Ev, Key, deref, loc, dirof, changes, no_up, no_dir, kept_at, is_tmpdir, is_temp, scratch, same};
    use crate::std_::path::{pname, pjoin, pwith, simple};
    use crate::names::{valid_version, base_name, build_name, patch_name};
    use crate::index::{clear, pn};
    pub open spec fn n_current() -> Seq<char> { seq!['c', 'u', 'r', 'r', 'e', 'n', 't'] }
    pub open spec fn n_new() -> Seq<char> { seq!['.', '_', 'a', 'r', 't', 'e', 'f', 'a', 'c', 't', 'a', '-', 't', 'e', 'm', 'p', '-', 'c', 'u', 'r', 'r', 'e', 'n', 't'] }
    pub open spec fn ev_at(e: Ev, l: Loc) -> bool { match e { Ev::Put { l: x, n: _ } => x == l, Ev::Torn { l: x } => x == l, Ev::Del { l: x } => x == l, _ => false } }
    /// the version that a link leads to
    pub open spec fn cur(w: World, l: Loc) -> Option<Version> {
        if w.fs().dom().contains(l) && w.fs()[l] is Link && deref(w.fs(), l) is Some && pname(w.fs()[l]->to) is Some && valid_version(base_name(pname(w.fs()[l]->to)->0)) { Some(crate::index::ver(base_name(pname(w.fs()[l]->to)->0))) } else { None } }
    /// a link to the build
    pub open spec fn link(i: ArtefactIndex, v: Version) -> Node { Node::Link { to: pjoin(i.dir(), build_name(v.view())) } }
    /// what getting the build writes
    pub open spec fn gets(i: ArtefactIndex, w: World, l: Loc, v: Version, x: Loc, d: Node) -> bool { i.fetched(w, build_name(v.view()))(x, d) || (cur(w, l) is Some && cur(w, l)->0 != v && i.upgraded(w, cur(w, l)->0, v)(x, d)) }
    pub open spec fn installs(i: ArtefactIndex, w: World, l: Loc, v: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| gets(i, w, l, v, x, d) || (x == l && d == link(i, v)) }
    /// whenever `current` is written, it is the link to the build, and nothing happens to the build from then on
    pub open spec fn switches(i: ArtefactIndex, a: World, b: World, l: Loc, v: Version) -> bool {
        forall|k: int| a.log().len() <= k < b.log().len() && ev_at(#[trigger] b.log()[k], l) ==> b.log()[k] == (Ev::Put { l, n: link(i, v) }) && i.usable(b, build_name(v.view())) && (forall|j: int| k <= j < b.log().len() ==> !ev_at(#[trigger] b.log()[j], i.at(build_name(v.view())))) }
    /// nothing is missing to create the patch that the tag asks for
    pub open spec fn could(i: ArtefactIndex, w: World, g: Seq<char>, to: Version) -> bool {
        w.ok() && i.nice() && i.can_make(w, g, to) && exists|t: spec_fn(Version) -> Seq<u8>| #[trigger] i.truth(w, t) && forall|v: Version| #[trigger] i.bm().dom().contains(v) ==> t(v).len() > 0 }
    pub open spec fn strs(s: Seq<Seq<char>>) -> Seq<Str> { s.map_values(|x: Seq<char>| mk(x)) }
    pub open spec fn repo_tags(p: Seq<char>) -> Seq<Str> { strs(crate::git::tag_names(&crate::git2::repo_at(p))) }
    /// the patch for every picked tag
    pub open spec fn all_made(i: ArtefactIndex, w: World, prefix: Seq<char>, p: Seq<Str>, to: Version) -> bool { forall|k: int| 0 <= k < p.len() ==> i.made_tag(w, prefix + (#[trigger] p[k]).view(), to) }
    /// the patch for every picked tag for which that was possible in the beginning
    pub open spec fn all_tried(i0: ArtefactIndex, w0: World, i: ArtefactIndex, w1: World, prefix: Seq<char>, p: Seq<Str>, to: Version) -> bool { forall|k: int| 0 <= k < p.len() ==> i.made_tag(w1, prefix + (#[trigger] p[k]).view(), to) || !could(i0, w0, prefix + p[k].view(), to) }
    pub open spec fn auto_made(i: ArtefactIndex, w: World, path: Seq<char>, prefix: Seq<char>, current: Seq<char>) -> bool {
        exists|p: Seq<Str>| #[trigger] crate::git::picks(repo_tags(path), crate::git::parts(current), p) && all_made(i, w, prefix, p, crate::index::ver(prefix + current)) }
    pub open spec fn auto_tried(i0: ArtefactIndex, w0: World, i: ArtefactIndex, w1: World, path: Seq<char>, prefix: Seq<char>, current: Seq<char>) -> bool {
        exists|p: Seq<Str>| #[trigger] crate::git::picks(repo_tags(path), crate::git::parts(current), p) && all_tried(i0, w0, i, w1, prefix, p, crate::index::ver(prefix + current)) }
    /// `current` has another name than everything else
    pub proof fn lemma_current()
        ensures simple(n_current()), simple(n_new()), is_temp(n_new()), !is_temp(n_current()), n_new() != n_current(),
            forall|v: Seq<char>| #[trigger] build_name(v) != n_current(), forall|v: Seq<char>| #[trigger] build_name(v) != n_new(),
            forall|a: Seq<char>, b: Seq<char>| #[trigger] patch_name(a, b) != n_current()
    {   reveal_strlit("._artefacta-temp-"); assert(n_new() =~= crate::world::temp_prefix() + seq!['c', 'u', 'r', 'r', 'e', 'n', 't']); assert(n_new().take(17) =~= crate::world::temp_prefix());
        assert(n_current()[0] == 'c'); assert(n_current().len() == 7);
        assert forall|v: Seq<char>| #[trigger] build_name(v) != n_current() && build_name(v) != n_new() by { let n = build_name(v); assert(n[n.len() - 2] == 's'); assert(n_current()[5] == 'n'); assert(n_new()[22] == 'n'); }
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] patch_name(a, b) != n_current() by { let n = patch_name(a, b); assert(n.len() >= 10); } }

fn sync(index)
  requires: index.wf() && index.tracks(*old(w))
  ensures: changes(*old(w), *final(w), index.remote_dirs(), index.sent_file(*old(w)), index.sent_up(*old(w))),
    r is Ok ==> forall|n: Seq<char>| #[trigger] index.owed(n) ==> index.stored(*old(w), *final(w), n),
    old(w).ok() && index.nice() && index.unblocked(*old(w)) ==> r is Ok

fn install(index, target_version, current)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, ArtefactIndex::truth, ArtefactIndex::copy_of, ArtefactIndex::able_from
  proof: lemma_current(); crate::index::lemma_names(); index.patch_graph.lemma_valid(); ArtefactIndex::lemma_truth_build(target_version);
  requires: old(index).wf() && pname(current.view()) == Some(n_current()) && !is_tmpdir(dirof(current.view()))
  ensures: final(index).wf() && final(index).kin(*old(index)),
    changes(*old(w), *final(w), set![old(index).dir(), dirof(current.view())], installs(*old(index), *old(w), loc(current.view()), target_version), no_up()),
    /*C07*/ switches(*old(index), *old(w), *final(w), loc(current.view()), target_version),
    /*C07*/ r is Ok ==> final(w).fs().dom().contains(loc(current.view())) && final(w).fs()[loc(current.view())] == link(*old(index), target_version) && old(index).usable(*final(w), build_name(target_version.view())),
    /*C07*/ r is Ok ==> deref(final(w).fs(), loc(current.view())) == Some(old(index).at(build_name(target_version.view()))),
    /*C05*/ r is Ok ==> forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(index).truth(*old(w), t) ==> crate::zstd::zdec(final(w).fs()[old(index).at(build_name(target_version.view()))]->data) == Some(t(target_version)),
    /*C06 C07*/ old(w).ok() && old(index).nice() && old(index).bm().dom().contains(target_version) && old(index).ready(*old(w), build_name(target_version.view())) && no_dir(*old(w), loc(current.view())) && no_dir(*old(w), (dirof(current.view()), n_new())) ==> r is Ok

fn create_patch(index, from, to)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(40)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, ArtefactIndex::truth, ArtefactIndex::copy_of
  proof: crate::index::lemma_names(); crate::index::lemma_apart(); index.patch_graph.lemma_valid(); ArtefactIndex::lemma_drafts(from, to); ArtefactIndex::lemma_back();
  requires: old(index).wf()
  ensures: final(index).wf() && final(index).kin(*old(index)) && crate::index::bm_grows(old(index).bm(), final(index).bm()),
    clear(from, to) ==> crate::index::pm_gains(old(index).pm(), final(index).pm(), (from, to)),
    old(index).tracks(*old(w)) ==> final(index).tracks(*final(w)),
    from == to || !old(index).bm().dom().contains(from) ==> r is Err && same(*old(w), *final(w)),
    !old(index).bm().dom().contains(to) ==> r is Err,
    changes(*old(w), *final(w), set![old(index).dir()], old(index).drafted(*old(w), from, to), no_up()),
    old(index).far(*old(w), *final(w)),
    clear(from, to) ==> forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(index).truth(*old(w), t)] #![trigger final(index).truth(*final(w), t)] old(index).truth(*old(w), t) ==> final(index).truth(*final(w), t),
    r is Ok ==> final(index).usable(*final(w), pn(from, to)) && final(index).usable(*final(w), build_name(from.view())) && final(index).usable(*final(w), build_name(to.view())),
    r is Ok && clear(from, to) ==> final(index).pm().dom().contains((from, to)),
    old(w).ok() && old(index).nice() && from != to && clear(from, to) && old(index).bm().dom().contains(from) && old(index).bm().dom().contains(to) && old(index).ready(*old(w), build_name(from.view())) && old(index).ready(*old(w), build_name(to.view()))
        && old(index).free(*old(w), pn(from, to)) ==> forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(index).truth(*old(w), t) && t(from).len() > 0 && t(to).len() > 0 ==> r is Ok

fn get_and_patch(index, tag, to)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, ArtefactIndex::truth, ArtefactIndex::copy_of, ArtefactIndex::diff
  proof: crate::index::lemma_names(); crate::index::lemma_apart(); index.patch_graph.lemma_valid(); ArtefactIndex::lemma_back();
    assert forall|v: Version, g: Seq<char>, i0: ArtefactIndex, i1: ArtefactIndex, w0: World, w1: World| #![trigger i0.named(tag.view(), v), i1.made_tag(w1, g, to), i0.made_tag(w0, g, to)]
        i0.wf() && i1.kin(i0) && i0.clean() && i0.named(tag.view(), v) && i0.far(w0, w1) && crate::index::bm_grows(i0.bm(), i1.bm()) && crate::index::pm_gains(i0.pm(), i1.pm(), (v, to)) && changes(w0, w1, set![i0.dir()], i0.drafted(w0, v, to), no_up())
        && i0.made_tag(w0, g, to) && (i1.made_from(w1, v, to) || (i0.usable(w0, pn(v, to)) && i0.pm().dom().contains((v, to)) ==> i1.usable(w1, pn(v, to)) && i1.pm().dom().contains((v, to)))) implies i1.made_tag(w1, g, to) by { ArtefactIndex::lemma_try_made(i0, i1, w0, w1, v, to, g); }
    assert forall|v: Version, g: Seq<char>, i0: ArtefactIndex, i1: ArtefactIndex, w0: World, w1: World| #![trigger i0.named(tag.view(), v), i1.can_make(w1, g, to), i0.can_make(w0, g, to)]
        i0.wf() && i1.kin(i0) && i0.clean() && i0.named(tag.view(), v) && i0.far(w0, w1) && crate::index::bm_grows(i0.bm(), i1.bm()) && crate::index::pm_gains(i0.pm(), i1.pm(), (v, to)) && changes(w0, w1, set![i0.dir()], i0.drafted(w0, v, to), no_up())
        && i0.can_make(w0, g, to) implies i1.can_make(w1, g, to) by { ArtefactIndex::lemma_try_can(i0, i1, w0, w1, v, to, g); }
    assert forall|i0: ArtefactIndex, i1: ArtefactIndex| #![trigger i1.kin(i0)] crate::index::bm_grows(i0.bm(), i1.bm()) implies i1.same_names(i0) by { ArtefactIndex::lemma_same_names(i0, i1); }
    assert forall|v: Version, i0: ArtefactIndex, i1: ArtefactIndex, w0: World, w1: World| #![trigger i0.drafted(w0, v, to), i1.usable(w1, build_name(v.view())), i0.usable(w0, build_name(v.view()))]
        i0.wf() && i1.kin(i0) && clear(v, to) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.drafted(w0, v, to), no_up()) && i0.usable(w0, build_name(v.view())) implies i1.usable(w1, build_name(v.view())) by { ArtefactIndex::lemma_keeps(i0, i1, w0, w1, v, to, build_name(v.view())); }
    assert forall|v: Version, i0: ArtefactIndex, i1: ArtefactIndex, w0: World, w1: World, x: Loc, d: Node| #![trigger i1.drafted(w1, v, to)(x, d), i0.drafted(w0, v, to)(x, d)]
        i0.wf() && i1.kin(i0) && valid_version(v.view()) && valid_version(to.view()) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.builds(w0, v, to), no_up()) && i1.drafted(w1, v, to)(x, d) implies i0.drafted(w0, v, to)(x, d) by { ArtefactIndex::lemma_drafts(v, to); }
  requires: old(index).wf() && valid_version(to.view())
  ensures: final(index).wf() && final(index).kin(*old(index)) && crate::index::bm_grows(old(index).bm(), final(index).bm()),
    old(index).tracks(*old(w)) ==> final(index).tracks(*final(w)),
    changes(*old(w), *final(w), set![old(index).dir()], old(index).tries(*old(w), to), no_up()),
    old(index).far(*old(w), *final(w)),
    (forall|v: Version| !#[trigger] old(index).named(tag.view(), v)) ==> r is Err && same(*old(w), *final(w)),
    r is Ok ==> final(index).made_tag(*final(w), tag.view(), to),
    old(index).clean() ==> forall|g: Seq<char>| (r is Ok || (old(w).ok() && old(index).nice())) && #[trigger] old(index).made_tag(*old(w), g, to) ==> final(index).made_tag(*final(w), g, to),
    old(index).clean() ==> forall|g: Seq<char>| #[trigger] could(*old(index), *old(w), g, to) ==> could(*final(index), *final(w), g, to),
    old(index).clean() && could(*old(index), *old(w), tag.view(), to) ==> r is Ok

fn auto_patch(index, repo_root, current, prefix)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, ArtefactIndex::truth, ArtefactIndex::copy_of, ArtefactIndex::diff, ArtefactIndex::drafted, ArtefactIndex::made_tag, ArtefactIndex::can_make, crate::git::picks
  ghost: let ghost to_ = crate::index::ver(prefix.view() + current.view()); let ghost tags_ = repo_tags(repo_root.view());
  proof: crate::index::lemma_names(); index.patch_graph.lemma_valid(); let to_ = crate::index::ver(prefix.view() + current.view());
    assert forall|t: Seq<crate::git::Tag>, n: Seq<Str>, c: Seq<Seq<char>>, p: Seq<Str>| #![trigger crate::git::tag_texts(t), crate::git::picks(n, c, p)] n.len() == t.len() && (forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == t[i].name) implies n == strs(crate::git::tag_texts(t)) by { assert(n =~= strs(crate::git::tag_texts(t))); }
    assert forall|g: Seq<char>, i0: ArtefactIndex, i1: ArtefactIndex, w0: World, w1: World| #![trigger i0.can_make(w0, g, to_), i1.can_make(w1, g, to_)] i0.wf() && i1.kin(i0) && i0.clean() && valid_version(to_.view()) && i0.far(w0, w1) && crate::index::bm_kept(i0.bm(), i1.bm(), to_) && i1.pm() == i0.pm() && changes(w0, w1, set![i0.dir()], i0.fetched(w0, build_name(to_.view())), no_up()) && i0.can_make(w0, g, to_) implies i1.can_make(w1, g, to_) by { ArtefactIndex::lemma_start(i0, i1, w0, w1, to_, g); }
  requires: old(index).wf()
  ensures: final(index).wf() && final(index).kin(*old(index)) && crate::index::bm_grows(old(index).bm(), final(index).bm()),
    old(index).tracks(*old(w)) ==> final(index).tracks(*final(w)),
    !old(index).bm().dom().contains(crate::index::ver(prefix.view() + current.view())) ==> r is Err && same(*old(w), *final(w)),
    changes(*old(w), *final(w), set![old(index).dir()], old(index).tries(*old(w), crate::index::ver(prefix.view() + current.view())), no_up()),
    old(index).far(*old(w), *final(w)),
    old(index).clean() && r is Ok ==> auto_made(*final(index), *final(w), repo_root.view(), prefix.view(), current.view())
  exits: old(index).clean() ==> auto_tried(*old(index), *old(w), *index, *w, repo_root.view(), prefix.view(), current.view())
  loop 0 invariant: old(index).wf(), index.wf() && index.kin(*old(index)) && crate::index::bm_grows(old(index).bm(), index.bm()),
    to_ == current_build, valid_version(to_.view()), old(index).bm().dom().contains(to_), to_ == crate::index::ver(prefix.view() + current.view()), it0_all.len() == to_patch@.len(), forall|i: int| 0 <= i < it0_all.len() ==> *#[trigger] it0_all[i] == to_patch@[i],
    old(index).tracks(*old(w)) ==> index.tracks(*w),
    changes(*old(w), *w, set![old(index).dir()], old(index).tries(*old(w), to_), no_up()),
    old(index).far(*old(w), *w),
    old(index).clean() ==> index.clean(),
    old(index).clean() && !failed ==> forall|k: int| 0 <= k < it0_n ==> index.made_tag(*w, prefix.view() + (#[trigger] to_patch@[k]).view(), to_),
    old(index).clean() ==> forall|k: int| 0 <= k < it0_n ==> index.made_tag(*w, prefix.view() + (#[trigger] to_patch@[k]).view(), to_) || !could(*old(index), *old(w), prefix.view() + to_patch@[k].view(), to_),
    old(index).clean() ==> forall|g: Seq<char>| #[trigger] could(*old(index), *old(w), g, to_) ==> could(*index, *w, g, to_)
  loop 0 proof: assert(*tag == to_patch@[it0_n - 1]);
    if valid_version(to_.view()) { assert forall|v: Version, x: Loc, d: Node| #[trigger] index.drafted(*w, v, to_)(x, d) && old(index).bm().dom().contains(v) implies old(index).drafted(*old(w), v, to_)(x, d) by { ArtefactIndex::lemma_tries(*old(index), *index, *old(w), *w, to_, v, x, d); }
    assert forall|x: Loc, d: Node| #[trigger] index.tries(*w, to_)(x, d) implies old(index).tries(*old(w), to_)(x, d) by { ArtefactIndex::lemma_tries(*old(index), *index, *old(w), *w, to_, to_, x, d); } }

mod cli
  items:
    use crate::ArtefactIndex as Ix;
    use crate::world::{Loc, Node, Ev, Key, deref, loc, dirof, changes, no_up, no_dir, kept_at, is_tmpdir, is_temp, scratch, same};
    use crate::std_::path::{pname, pjoin, pstarts, simple, utf8_dir};
    use crate::names::{valid_version, base_name, build_name, patch_name};
    use crate::index::{clear, pn, src, ver};
    use crate::zstd::zdec;
    use crate::bidiff::bp;
    /// what the program is called with
    pub uninterp spec fn the_args() -> Cli;
    /// versions are parsed
    pub open spec fn parsed(c: Cli) -> bool { match c.cmd {
        Command::Install { version } => valid_version(version.view()), Command::Add(b) => b.calculate_patch_from is Some ==> valid_version(b.calculate_patch_from->0.view()),
        Command::AddPackage { version, build } => valid_version(version.view()) && (build.calculate_patch_from is Some ==> valid_version(build.calculate_patch_from->0.view())),
        Command::CreatePatch { from, to } => valid_version(from.view()) && valid_version(to.view()), Command::AutoPatch { repo_root, current, prefix } => valid_version(current.view()), _ => true } }
    impl Cli { #[verifier::external_body] pub fn from_args() -> (r: Cli) ensures r == the_args(), parsed(r) { unimplemented!() } }
    /// nothing is different but in temporary directories
    pub open spec fn agree(a: World, b: World) -> bool { b.ok() == a.ok() && b.s3() =~= a.s3() && forall|l: Loc| #![trigger b.fs().dom().contains(l)] #![trigger b.fs()[l]] is_tmpdir(l.0) || kept_at(a, b, l) }
    /// stores are in no temporary directory
    pub proof fn lemma_agree(i: Ix, a: World, b: World)
        requires i.wf(), agree(a, b)
        ensures i.far(a, b), forall|n: Seq<char>| #![trigger i.there(a, n)] #![trigger i.there(b, n)] i.there(a, n) == i.there(b, n),
            forall|n: Seq<char>| #![trigger i.at(n)] kept_at(a, b, i.at(n)),
            forall|n: Seq<char>| simple(n) ==> #[trigger] i.remote.has_file(a, n) == i.remote.has_file(b, n) && i.remote.data_of(a, n) == i.remote.data_of(b, n),
            forall|n: Seq<char>, d: Seq<u8>| simple(n) ==> #[trigger] i.copy_of(a, n, d) == i.copy_of(b, n, d),
            forall|n: Seq<char>| simple(n) ==> #[trigger] i.usable(a, n) == i.usable(b, n),
            i.tracks(a) ==> i.tracks(b)
    {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm);
        assert forall|n: Seq<char>| #![trigger i.at(n)] kept_at(a, b, i.at(n)) by {}
        assert forall|n: Seq<char>| simple(n) implies #[trigger] i.remote.has_file(a, n) == i.remote.has_file(b, n) && i.remote.data_of(a, n) == i.remote.data_of(b, n) by { if i.remote.root() is Some { let l = loc(i.remote.file(n)); assert(kept_at(a, b, l)); } }
    }
    impl AddBuild {
        /// what adding writes: the build, the patch, and what is sent afterwards
        pub open spec fn writes(&self, i: Ix, w: World, i1: Ix, w1: World) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| i.added(w, self.path.view())(x, d) || (self.calculate_patch_from is Some && i.amended(w, self.path.view(), self.calculate_patch_from->0)(x, d)) || (self.upload && i1.sent_file(w1)(x, d)) }
        pub open spec fn ups(&self, i1: Ix, w1: World) -> spec_fn(Key, Seq<u8>) -> bool { |k: Key, d: Seq<u8>| self.upload && i1.sent_up(w1)(k, d) }
        pub open spec fn dirs(&self, i: Ix) -> Set<Seq<char>> { if self.upload && i.remote.root() is Some { set![i.dir(), crate::world::cdir(i.remote.root()->0.view())] } else { set![i.dir()] } }
        /// the file is a plain one that makes a build
        pub open spec fn suits(&self, i: Ix, w: World) -> bool { let p = self.path; let s = src(w, p.view()); i.nice() && s is Some && loc(p.view()) == s->0 && p.name_utf8() && w.fs()[s->0] is File && !i.rejects(w, p.view()) && utf8_dir((s->0).0) && i.free(w, build_name(base_name((s->0).1))) }
        /// the build is there
        pub open spec fn from(&self, w: World) -> bool { let s = src(w, self.path.view()); s is Some && valid_version(base_name((s->0).1)) && Ix::newest(w, self.path.view()).view() == base_name((s->0).1) }
        /// files that are here stay as they are
        pub open spec fn exactly(&self, i: Ix, w: World) -> bool { self.from(w) && w.fs()[src(w, self.path.view())->0] is File && ((w.ok() && i.nice()) || self.calculate_patch_from is None) }
        pub open spec fn name(&self, w: World) -> Seq<char> { build_name(Ix::newest(w, self.path.view()).view()) }
        pub open spec fn data(&self, w: World) -> Seq<u8> { w.fs()[src(w, self.path.view())->0]->data }
        /// the patch that is asked for is there
        pub open spec fn patched(&self, w: World, i1: Ix, w1: World) -> bool { let v = Ix::newest(w, self.path.view()); self.calculate_patch_from is Some ==> i1.usable(w1, pn(self.calculate_patch_from->0, v)) && (clear(self.calculate_patch_from->0, v) ==> i1.pm().dom().contains((self.calculate_patch_from->0, v))) }
        /// what is packaged
        pub open spec fn whole(&self, w: World) -> Seq<char> { let p = self.path.view(); if pname(p) is Some { let l = deref(w.fs(), loc(p))->0; pjoin(l.0, l.1) } else { crate::world::cdir(p) } }
        /// a package of it
        pub open spec fn boxed(&self, w: World, d: Seq<u8>) -> bool { let c = self.whole(w); d.len() > 0 && zdec(d) is Some && (pname(c) is Some && !crate::walkdir::holds_tmp(c) ==> zdec(d) == Some(crate::packaging::archive(w.fs(), c))) }
        /// a copy that is there once this is added
        pub open spec fn has(&self, i: Ix, w: World, v: Version, n: Seq<char>, d: Seq<u8>) -> bool { i.copy_of(w, n, d) || (n == build_name(v.view()) && self.boxed(w, d)) }
        pub open spec fn diff_to(&self, i: Ix, w: World, a: Version, v: Version, d: Seq<u8>) -> bool {
            zdec(d) is Some && exists|s: Seq<u8>, u: Seq<u8>| #[trigger] self.has(i, w, v, build_name(a.view()), s) && #[trigger] self.has(i, w, v, build_name(v.view()), u) && zdec(s) is Some && zdec(u) is Some && bp(zdec(d)->0, zdec(s)->0) == zdec(u) }
        pub open spec fn packs_diff(&self, i: Ix, w: World, a: Version, v: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node|
            i.fetched_as(w, pn(a, v), crate::index::pfile(pn(a, v)))(x, d) || i.fetched(w, build_name(a.view()))(x, d) || i.fetched(w, build_name(v.view()))(x, d) || (x == i.at(pn(a, v)) && d is File && d->data.len() > 0 && self.diff_to(i, w, a, v, d->data)) }
        pub open spec fn packs_build(&self, i: Ix, w: World, v: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| x == i.at(build_name(v.view())) && d is File && self.boxed(w, d->data) }
        /// what adding a package writes: the build, the patch, and what is sent afterwards
        pub open spec fn packs(&self, i: Ix, w: World, i1: Ix, w1: World, v: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| self.packs_build(i, w, v)(x, d) || (self.calculate_patch_from is Some && self.packs_diff(i, w, self.calculate_patch_from->0, v)(x, d)) || (self.upload && i1.sent_file(w1)(x, d)) }
        pub open spec fn patched_to(&self, v: Version, i1: Ix, w1: World) -> bool { self.calculate_patch_from is Some ==> i1.usable(w1, pn(self.calculate_patch_from->0, v)) && (clear(self.calculate_patch_from->0, v) ==> i1.pm().dom().contains((self.calculate_patch_from->0, v))) }
        pub open spec fn sent(&self, i1: Ix, w1: World) -> bool { self.upload ==> forall|n: Seq<char>| #[trigger] i1.owed(n) ==> i1.stored(w1, w1, n) }
    }
    impl AddBuild {
        /// adding the finished package writes what adding a package may
        pub proof fn lemma_packs(&self, i: Ix, w0: World, w1: World, t: Seq<char>, v: Version)
            requires i.wf(), agree(w0, w1), valid_version(v.view()), pname(t) == Some(build_name(v.view())), w1.fs().dom().contains(loc(t)), w1.fs()[loc(t)] is File, self.boxed(w0, w1.fs()[loc(t)]->data)
            ensures src(w1, t) == Some(loc(t)), Ix::newest(w1, t) == v, base_name(loc(t).1) == v.view(),
                forall|x: Loc, d: Node| #[trigger] i.added(w1, t)(x, d) ==> self.packs_build(i, w0, v)(x, d),
                forall|a: Version, x: Loc, d: Node| valid_version(a.view()) && #[trigger] i.amended(w1, t, a)(x, d) ==> self.packs_diff(i, w0, a, v)(x, d)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm); hide(Ix::copy_of);
            crate::index::lemma_names(); crate::index::lemma_named(v.view()); lemma_agree(i, w0, w1);
            assert forall|a: Version, x: Loc, d: Node| valid_version(a.view()) && #[trigger] i.amended(w1, t, a)(x, d) implies self.packs_diff(i, w0, a, v)(x, d) by {
                if x == i.at(pn(a, v)) && d is File && d->data.len() > 0 && i.diff_had(w1, t, a, v, d->data) {
                    let (s, u) = choose|s: Seq<u8>, u: Seq<u8>| #[trigger] i.had(w1, t, build_name(a.view()), s) && #[trigger] i.had(w1, t, build_name(v.view()), u) && zdec(s) is Some && zdec(u) is Some && bp(zdec(d->data)->0, zdec(s)->0) == zdec(u);
                    assert(self.has(i, w0, v, build_name(a.view()), s)); assert(self.has(i, w0, v, build_name(v.view()), u)); assert(self.diff_to(i, w0, a, v, d->data)); } } }
    }

fn cli::AddBuild::add_to(index)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, Ix::truth, Ix::copy_of, Ix::diff, Ix::owed
  proof: crate::index::lemma_names(); crate::index::lemma_apart();
    assert forall|i0: Ix, i1: Ix, w0: World, w1: World, p: Seq<char>, a: Version, b: Version, x: Loc, d: Node| #![trigger i0.amended(w0, p, a)(x, d), i1.drafted(w1, a, b)(x, d)] b == Ix::newest(w0, p) && i0.wf() && i1.kin(i0) && i0.far(w0, w1) && src(w0, p) is Some && valid_version(base_name((src(w0, p)->0).1)) && valid_version(a.view()) && changes(w0, w1, set![i0.dir()], i0.added(w0, p), no_up()) && i1.drafted(w1, a, b)(x, d) implies i0.amended(w0, p, a)(x, d) by { Ix::lemma_amended(i0, i1, w0, w1, p, a, x, d); }
    assert forall|i: Ix, a: World, b: World| #![trigger i.sent_file(a), i.sent_file(b)] i.wf() && i.tracks(a) && changes(a, b, i.remote_dirs(), i.sent_file(a), i.sent_up(a)) implies (forall|x: Loc, d: Node| #[trigger] i.sent_file(a)(x, d) ==> i.sent_file(b)(x, d)) && (forall|k: Key, d: Seq<u8>| #[trigger] i.sent_up(a)(k, d) ==> i.sent_up(b)(k, d))
        && (forall|n: Seq<char>| #[trigger] i.owed(n) && i.stored(a, b, n) ==> i.stored(b, b, n)) && (forall|n: Seq<char>| #![trigger i.there(a, n)] #![trigger i.there(b, n)] simple(n) && !is_temp(n) && i.there(a, n) ==> i.there(b, n) && b.fs()[i.at(n)] == a.fs()[i.at(n)]) by { i.lemma_sends(a, b); i.lemma_sent(a, b); }
    assert forall|i: Ix, a: World, b: World, m: Seq<char>| #![trigger i.sent_file(a), i.usable(b, m)] i.wf() && i.tracks(a) && changes(a, b, i.remote_dirs(), i.sent_file(a), i.sent_up(a)) && simple(m) && !is_temp(m) && i.there(a, m) implies i.there(b, m) && b.fs()[i.at(m)] == a.fs()[i.at(m)] by { i.lemma_sent(a, b); }
    assert forall|i0: Ix, i1: Ix, w0: World, w1: World, p: Seq<char>| #![trigger i0.roomy(w0), i1.unblocked(w1), i0.added(w0, p)] i0.wf() && i1.wf() && i1.kin(i0) && changes(w0, w1, set![i0.dir()], i0.added(w0, p), no_up()) && i0.roomy(w0) && i1.tracks(w1) implies i1.unblocked(w1) by { Ix::lemma_roomy(i0, i1, w0, w1, p); }
  requires: old(index).wf() && old(index).tracks(*old(w)) && (self.calculate_patch_from is Some ==> valid_version(self.calculate_patch_from->0.view()))
  ensures: final(index).wf() && final(index).kin(*old(index)),
    old(index).rejects(*old(w), self.path.view()) ==> r is Err && same(*old(w), *final(w)),
    changes(*old(w), *final(w), self.dirs(*old(index)), self.writes(*old(index), *old(w), *final(index), *final(w)), self.ups(*final(index), *final(w))),
    r is Ok ==> final(index).bm().dom().contains(Ix::newest(*old(w), self.path.view())),
    r is Ok && final(index).bm().dom().contains(Ix::newest(*old(w), self.path.view())) ==> final(index).bm()[Ix::newest(*old(w), self.path.view())].local is Some,
    r is Ok ==> self.from(*old(w)),
    r is Ok && self.exactly(*old(index), *old(w)) ==> final(index).usable(*final(w), self.name(*old(w))),
    r is Ok && self.exactly(*old(index), *old(w)) && final(index).usable(*final(w), self.name(*old(w))) ==> final(w).fs()[old(index).at(self.name(*old(w)))]->data == self.data(*old(w)),
    r is Ok ==> self.patched(*old(w), *final(index), *final(w)),
    r is Ok ==> self.sent(*final(index), *final(w)),
    old(index).tracks(*old(w)) ==> final(index).tracks(*final(w)),
    old(w).ok() && self.suits(*old(index), *old(w)) && self.calculate_patch_from is None && (self.upload ==> old(index).roomy(*old(w))) ==> r is Ok

fn add(index, build)
  requires: old(index).wf() && old(index).tracks(*old(w)) && (build.calculate_patch_from is Some ==> valid_version(build.calculate_patch_from->0.view()))
  ensures: final(index).wf() && final(index).kin(*old(index)),
    old(index).rejects(*old(w), build.path.view()) ==> r is Err && same(*old(w), *final(w)),
    changes(*old(w), *final(w), build.dirs(*old(index)), build.writes(*old(index), *old(w), *final(index), *final(w)), build.ups(*final(index), *final(w))),
    r is Ok ==> final(index).bm().dom().contains(ArtefactIndex::newest(*old(w), build.path.view())),
    r is Ok && final(index).bm().dom().contains(ArtefactIndex::newest(*old(w), build.path.view())) ==> final(index).bm()[ArtefactIndex::newest(*old(w), build.path.view())].local is Some,
    r is Ok ==> build.from(*old(w)),
    r is Ok && build.exactly(*old(index), *old(w)) ==> final(index).usable(*final(w), build.name(*old(w))),
    r is Ok && build.exactly(*old(index), *old(w)) && final(index).usable(*final(w), build.name(*old(w))) ==> final(w).fs()[old(index).at(build.name(*old(w)))]->data == build.data(*old(w)),
    r is Ok ==> build.patched(*old(w), *final(index), *final(w)),
    r is Ok ==> build.sent(*final(index), *final(w)),
    old(index).tracks(*old(w)) ==> final(index).tracks(*final(w)),
    old(w).ok() && build.suits(*old(index), *old(w)) && build.calculate_patch_from is None && (build.upload ==> old(index).roomy(*old(w))) ==> r is Ok

fn add_package(index, version, build)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm
  proof: crate::index::lemma_names(); crate::index::lemma_named(version.view());
    assert forall|a: Seq<u8>, b: Map<Loc, Node>, c: Seq<char>| #![trigger a + crate::packaging::archive(b, c)] a.len() == 0 implies a + crate::packaging::archive(b, c) == crate::packaging::archive(b, c) by { assert(a + crate::packaging::archive(b, c) =~= crate::packaging::archive(b, c)); }
    assert forall|b: Map<Loc, Node>, c: Seq<char>, ls: Set<Loc>| #![trigger crate::packaging::packed(b, c, ls)] !crate::walkdir::holds_tmp(c) && deref(old(w).fs(), loc(c)) == Some(loc(c)) && (forall|l: Loc| #![trigger b.dom().contains(l)] #![trigger b[l]] is_tmpdir(l.0) || (b.dom().contains(l) == old(w).fs().dom().contains(l) && b[l] == old(w).fs()[l])) implies crate::packaging::archive(old(w).fs(), c) == crate::packaging::archive(b, c) && crate::walkdir::plain(b, c) && ((forall|l: Loc| #[trigger] ls.contains(l) ==> is_tmpdir(l.0)) ==> crate::packaging::without(b, c, ls)) by { crate::packaging::lemma_archive(old(w).fs(), b, c); crate::walkdir::axiom_not_in_tmp(c); assert(b.dom().contains(loc(c)) == old(w).fs().dom().contains(loc(c)) && b[loc(c)] == old(w).fs()[loc(c)]); }
    assert forall|c: Seq<char>| #[trigger] crate::std_::path::canon_post(old(w).fs(), build.path.view(), c) implies c == build.whole(*old(w)) && (pname(c) is Some ==> deref(old(w).fs(), loc(c)) == Some(loc(c))) by { }
    assert forall|ad: cli::AddBuild, i: ArtefactIndex, a: World, i1: ArtefactIndex, b: World| #![trigger ad.writes(i, a, i1, b)] i.wf() && cli::agree(*old(w), a) && ad.upload == build.upload && ad.calculate_patch_from == build.calculate_patch_from && pname(ad.path.view()) == Some(build_name(version.view())) && a.fs().dom().contains(loc(ad.path.view())) && a.fs()[loc(ad.path.view())] is File && build.boxed(*old(w), a.fs()[loc(ad.path.view())]->data) implies crate::index::src(a, ad.path.view()) == Some(loc(ad.path.view())) && ArtefactIndex::newest(a, ad.path.view()) == version && base_name(loc(ad.path.view()).1) == version.view()
        && (forall|x: Loc, d: Node| #[trigger] ad.writes(i, a, i1, b)(x, d) ==> build.packs_build(i, *old(w), version)(x, d) || (build.calculate_patch_from is Some && build.packs_diff(i, *old(w), build.calculate_patch_from->0, version)(x, d)) || (build.upload && i1.sent_file(b)(x, d))) by { build.lemma_packs(i, *old(w), a, ad.path.view(), version); }
    assert forall|i: ArtefactIndex, a: World, b: World| #![trigger i.sent_file(a), i.sent_file(b)] i.wf() && cli::agree(a, b) implies (forall|x: Loc, d: Node| #[trigger] i.sent_file(a)(x, d) ==> i.sent_file(b)(x, d)) && (forall|k: Key, d: Seq<u8>| #[trigger] i.sent_up(a)(k, d) ==> i.sent_up(b)(k, d)) by { cli::lemma_agree(i, a, b); }
  requires: old(index).wf() && old(index).tracks(*old(w)) && (build.calculate_patch_from is Some ==> valid_version(build.calculate_patch_from->0.view())) && valid_version(version.view())
  ensures: final(index).wf() && final(index).kin(*old(index)),
    pname(build.path.view()) is Some && crate::index::src(*old(w), build.path.view()) is None ==> r is Err && same(*old(w), *final(w)),
    changes(*old(w), *final(w), build.dirs(*old(index)), build.packs(*old(index), *old(w), *final(index), *final(w), version), build.ups(*final(index), *final(w))),
    r is Ok ==> final(index).bm().dom().contains(version),
    r is Ok && final(index).bm().dom().contains(version) ==> final(index).bm()[version].local is Some,
    r is Ok && ((old(w).ok() && old(index).nice()) || build.calculate_patch_from is None) ==> final(index).usable(*final(w), build_name(version.view())),
    r is Ok && ((old(w).ok() && old(index).nice()) || build.calculate_patch_from is None) && final(index).usable(*final(w), build_name(version.view())) ==> build.boxed(*old(w), final(w).fs()[old(index).at(build_name(version.view()))]->data),
    r is Ok ==> build.patched_to(version, *final(index), *final(w)),
    r is Ok ==> build.sent(*final(index), *final(w)),
    old(index).tracks(*old(w)) ==> final(index).tracks(*final(w)),
    r is Ok ==> final(w).log().last() is Rmdir && is_tmpdir(final(w).log().last()->Rmdir_d) && old(w).log().len() < final(w).log().len() && final(w).log()[old(w).log().len() as int] == (Ev::Mkdir { d: final(w).log().last()->Rmdir_d })
