# ------------------------------------------------------------------ the index
mod index
  items:
    use crate::index::graph::{put_b, put_p, is_build, is_patch, merged_b, merged_p, chain, cost, keys, cheapest};
    use crate::storage::{file_from, object_from};
    use crate::zstd::zdec; use crate::bidiff::bp;

type index::Index
  items:
    /// the name of the file that is added
    pub open spec fn fname(w: World, f: FileEntry) -> Seq<char> { match f { FileEntry::InFilesystem(e) => if pname(e.path.view()) is Some { (deref(w.fs(), loc(e.path.view()))->0).1 } else { pname(cdir(e.path.view()))->0 }, FileEntry::Inline(e, _) => pname(e.path.view())->0 } }
    /// the version and the build file that this file is added as
    pub open spec fn vname(w: World, f: FileEntry) -> Seq<char> { base_name(fname(w, f)) }
    pub open spec fn bname(w: World, f: FileEntry) -> Seq<char> { build_name(vname(w, f)) }
    pub open spec fn pair_of(n: Seq<char>) -> (Version, Version) { let t = parse_stem(base_name(n))->0; (Version { data: mk(t.0) }, Version { data: mk(t.1) }) }
    pub open spec fn ver(n: Seq<char>) -> Version { Version { data: mk(n) } }
    /// the file that a patch file of that name is added as
    pub open spec fn pfile(n: Seq<char>) -> Seq<char> { patch_name(pair_of(n).0.view(), pair_of(n).1.view()) }
    pub open spec fn reads(n: Seq<char>) -> bool { parse_stem(base_name(n)) is Some }
    /// the name of a build file
    pub open spec fn named_b(n: Seq<char>) -> bool { n.len() >= 8 && n == build_name(n.take(n.len() - 8)) }
    /// what patch file names can name
    pub open spec fn clear(a: Version, b: Version) -> bool { valid_version(a.view()) && valid_version(b.view()) && (a.view().len() == 0 || a.view().last() != '-') }
    /// the file that a path leads to
    pub open spec fn src(w: World, p: Seq<char>) -> Option<Loc> { if pname(p) is Some { deref(w.fs(), loc(p)) } else { None } }
    /// the file of this patch
    pub open spec fn pn(a: Version, b: Version) -> Seq<char> { patch_name(a.view(), b.view()) }
    /// only what is known locally about `v` may be different
    pub open spec fn bm_kept(a: Map<Version, Build>, b: Map<Version, Build>, v: Version) -> bool {
        &&& forall|u: Version| #![trigger a.dom().contains(u)] #![trigger b.dom().contains(u)] a.dom().contains(u) <==> b.dom().contains(u)
        &&& forall|u: Version| #[trigger] a.dom().contains(u) ==> (u != v ==> b[u] == a[u]) && b[u].remote == a[u].remote && (a[u].local is Some ==> b[u].local is Some) }
    pub open spec fn pm_kept(a: Map<(Version, Version), Patch>, b: Map<(Version, Version), Patch>, v: (Version, Version)) -> bool {
        &&& forall|u: (Version, Version)| #![trigger a.dom().contains(u)] #![trigger b.dom().contains(u)] a.dom().contains(u) <==> b.dom().contains(u)
        &&& forall|u: (Version, Version)| #[trigger] a.dom().contains(u) ==> (u != v ==> b[u] == a[u]) && b[u].remote == a[u].remote && (a[u].local is Some ==> b[u].local is Some) }
    pub proof fn lemma_valid()
        ensures forall|g: PatchGraph| #[trigger] g.wf() ==> (forall|v: Version| #[trigger] g.bm().dom().contains(v) ==> valid_version(v.view())) && (forall|v: (Version, Version)| #[trigger] g.pm().dom().contains(v) ==> valid_version(v.0.view()) && valid_version(v.1.view()) && g.bm().dom().contains(v.0) && g.bm().dom().contains(v.1))
    {   assert forall|g: PatchGraph| #[trigger] g.wf() implies (forall|v: Version| #[trigger] g.bm().dom().contains(v) ==> valid_version(v.view())) && (forall|v: (Version, Version)| #[trigger] g.pm().dom().contains(v) ==> valid_version(v.0.view()) && valid_version(v.1.view()) && g.bm().dom().contains(v.0) && g.bm().dom().contains(v.1)) by { g.lemma_valid(); } }
    /// names of builds and patches
    pub proof fn lemma_named(v: Seq<char>)
        ensures !is_temp(build_name(v)), named_b(build_name(v)), valid_version(v) ==> simple(build_name(v)) && base_name(build_name(v)) == v
    {   let n = build_name(v); assert(n.take(n.len() - 8) =~= v); reveal_strlit("._artefacta-temp-"); assert(n[n.len() - 2] == 's');
        if ends(n, seq!['.', 'p', 'a', 'r', 't']) { assert(n.subrange(n.len() - 5, n.len() as int)[3] == 'r'); }
        if n == temp_prefix() + seq!['c', 'u', 'r', 'r', 'e', 'n', 't'] { assert(n[n.len() - 2] == 'n'); }
        if valid_version(v) { crate::names_lemmas::lemma_C01_roundtrip(v); } }
    pub proof fn lemma_patch_named(a: Seq<char>, b: Seq<char>)
        ensures !is_temp(patch_name(a, b)), !named_b(patch_name(a, b)), valid_version(a) && valid_version(b) ==> simple(patch_name(a, b)),
            valid_version(a) && valid_version(b) && (a.len() == 0 || a.last() != '-') ==> parse_stem(base_name(patch_name(a, b))) == Some((a, b))
    {   let n = patch_name(a, b); if named_b(n) { let m = build_name(n.take(n.len() - 8)); assert(m[m.len() - 5] == 'r'); assert(n[n.len() - 5] == 'h'); } reveal_strlit("._artefacta-temp-"); assert(n[n.len() - 2] == 's');
        if ends(n, seq!['.', 'p', 'a', 'r', 't']) { assert(n.subrange(n.len() - 5, n.len() as int)[3] == 'r'); }
        if n == temp_prefix() + seq!['c', 'u', 'r', 'r', 'e', 'n', 't'] { assert(n[n.len() - 2] == 'n'); }
        if valid_version(a) && valid_version(b) { crate::names_lemmas::lemma_patch_name_simple(a, b); if a.len() == 0 || a.last() != '-' { crate::names_lemmas::lemma_C02_roundtrip(a, b); } } }
    pub proof fn lemma_names()
        ensures forall|a: Version, b: Version| clear(a, b) ==> pair_of(#[trigger] patch_name(a.view(), b.view())) == (a, b) && reads(patch_name(a.view(), b.view())) && pfile(patch_name(a.view(), b.view())) == patch_name(a.view(), b.view()),
            forall|v: Seq<char>| !is_temp(#[trigger] build_name(v)) && named_b(build_name(v)) && (valid_version(v) ==> simple(build_name(v)) && base_name(build_name(v)) == v),
            forall|a: Seq<char>, b: Seq<char>| !is_temp(#[trigger] patch_name(a, b)) && !named_b(patch_name(a, b)) && (valid_version(a) && valid_version(b) ==> simple(patch_name(a, b)) && (a.len() == 0 || a.last() != '-' ==> parse_stem(base_name(patch_name(a, b))) == Some((a, b))))
    {   assert forall|a: Version, b: Version| clear(a, b) implies pair_of(#[trigger] patch_name(a.view(), b.view())) == (a, b) && reads(patch_name(a.view(), b.view())) && pfile(patch_name(a.view(), b.view())) == patch_name(a.view(), b.view()) by { lemma_patch_named(a.view(), b.view()); }
        assert forall|v: Seq<char>| !is_temp(#[trigger] build_name(v)) && named_b(build_name(v)) && (valid_version(v) ==> simple(build_name(v)) && base_name(build_name(v)) == v) by { lemma_named(v); }
        assert forall|a: Seq<char>, b: Seq<char>| !is_temp(#[trigger] patch_name(a, b)) && !named_b(patch_name(a, b)) && (valid_version(a) && valid_version(b) ==> simple(patch_name(a, b)) && (a.len() == 0 || a.last() != '-' ==> parse_stem(base_name(patch_name(a, b))) == Some((a, b)))) by { lemma_patch_named(a, b); } }
    /// `d` is what the patch file `p` makes from the build file `s`
    pub open spec fn made_of(d: Seq<u8>, p: Seq<u8>, s: Seq<u8>) -> bool { zdec(p) is Some && zdec(s) is Some && bp(zdec(p)->0, zdec(s)->0) is Some && zdec(d) == bp(zdec(p)->0, zdec(s)->0) }
    pub open spec fn made(d: Seq<u8>) -> bool { d.len() > 0 && zdec(d) is Some && exists|p: Seq<u8>, s: Seq<u8>| zdec(d) == #[trigger] bp(p, s) }
    pub open spec fn bm_grows(a: Map<Version, Build>, b: Map<Version, Build>) -> bool {
        &&& forall|u: Version| #![trigger a.dom().contains(u)] #![trigger b.dom().contains(u)] a.dom().contains(u) <==> b.dom().contains(u)
        &&& forall|u: Version| #[trigger] b.dom().contains(u) ==> b[u].remote == a[u].remote && (a[u].local is Some ==> b[u].local is Some) }
    pub open spec fn clears(ks: Seq<(Version, Version)>) -> bool { forall|i: int| 0 <= i < ks.len() ==> clear((#[trigger] ks[i]).0, ks[i].1) }
    /// only this patch may be new or different
    pub open spec fn pm_gains(a: Map<(Version, Version), Patch>, b: Map<(Version, Version), Patch>, v: (Version, Version)) -> bool {
            forall|u: (Version, Version)| u != v ==> #[trigger] a.dom().contains(u) == #[trigger] b.dom().contains(u) && (a.dom().contains(u) ==> a[u] == b[u]) }
    /// the names of builds and patches are different
    pub proof fn lemma_apart()
        ensures forall|a: Version, b: Version, v: Version| #[trigger] build_name(v.view()) != #[trigger] pn(a, b),
            forall|u: Version, v: Version| #[trigger] build_name(u.view()) == #[trigger] build_name(v.view()) ==> u == v,
            forall|a: Version, b: Version, c: Version, d: Version| clear(a, b) && clear(c, d) && #[trigger] pn(a, b) == #[trigger] pn(c, d) ==> a == c && b == d
    {   assert forall|a: Version, b: Version, v: Version| #[trigger] build_name(v.view()) != #[trigger] pn(a, b) by { let n = build_name(v.view()); let m = pn(a, b); assert(n[n.len() - 5] == 'r'); assert(m[m.len() - 5] == 'h'); }
        assert forall|u: Version, v: Version| #[trigger] build_name(u.view()) == #[trigger] build_name(v.view()) implies u == v by { let n = build_name(u.view()); assert(n.take(n.len() - 8) =~= u.view()); assert(n.take(n.len() - 8) =~= v.view()); }
        assert forall|a: Version, b: Version, c: Version, d: Version| clear(a, b) && clear(c, d) && #[trigger] pn(a, b) == #[trigger] pn(c, d) implies a == c && b == d by { lemma_names(); } }
    /// what is rejected is not of this kind
    pub open spec fn takes(w: World, i: Index, f: FileEntry) -> bool {
        &&& f.entry().size > 0 && valid_version(vname(w, f))
        &&& f is InFilesystem ==> !crate::std_::path::pstarts(f.entry().path.view(), i.dir()) && (pname(f.entry().path.view()) is Some ==> deref(w.fs(), loc(f.entry().path.view())) is Some) }
    pub open spec fn takes_p(w: World, i: Index, f: FileEntry) -> bool {
        &&& reads(fname(w, f))
        &&& f is InFilesystem ==> !crate::std_::path::pstarts(f.entry().path.view(), i.dir()) && (pname(f.entry().path.view()) is Some ==> deref(w.fs(), loc(f.entry().path.view())) is Some) }
    /// a path that is UTF-8 and no link
    pub open spec fn plain(w: World, f: FileEntry) -> bool { match f {
        FileEntry::InFilesystem(e) => pname(e.path.view()) is Some && w.fs().dom().contains(loc(e.path.view())) && w.fs()[loc(e.path.view())] is File && crate::std_::path::utf8_dir(dirof(e.path.view())),
        FileEntry::Inline(e, _) => pname(e.path.view()) is Some } }
    impl Index {
        pub open spec fn bm(&self) -> Map<Version, Build> { self.patch_graph.bm() }
        pub open spec fn pm(&self) -> Map<(Version, Version), Patch> { self.patch_graph.pm() }
        /// the directory of the local store
        pub open spec fn dir(&self) -> Seq<char> { self.local.root()->0.view() }
        /// where the local file of that name is
        pub open spec fn at(&self, n: Seq<char>) -> Loc { (self.dir(), n) }
        /// two stores, none of them in a temporary directory of this run
        pub open spec fn apart(local: Storage, remote: Storage) -> bool {
            local.root() is Some && !is_tmpdir(cdir(local.root()->0.view())) && (remote.root() is Some ==> cdir(remote.root()->0.view()) != cdir(local.root()->0.view()) && !is_tmpdir(cdir(remote.root()->0.view()))) }
        pub open spec fn wf(&self) -> bool {
            &&& self.local.root() is Some && pabs(self.dir()) && cdir(self.dir()) == self.dir()
            &&& Self::apart(self.local, self.remote)
            &&& self.patch_graph.wf() }
        /// a directory that is apart from this remote store
        pub open spec fn apart_at(w: World, p: Seq<char>, remote: Storage) -> bool { forall|c: Seq<char>| #[trigger] crate::std_::path::canon_post(w.fs(), p, c) ==> !is_tmpdir(cdir(c)) && (remote.root() is Some ==> cdir(remote.root()->0.view()) != cdir(c) && !is_tmpdir(cdir(remote.root()->0.view()))) }
        /// what is known about builds is exactly what is in the stores
        pub open spec fn exact_b(&self, w: World) -> bool {
            &&& forall|v: Version| #[trigger] self.bm().dom().contains(v) ==> valid_version(v.view())
            &&& forall|v: Version| valid_version(v.view()) ==> (#[trigger] self.bm().dom().contains(v) <==> self.remote.offers(w, build_name(v.view())) || self.local.offers(w, build_name(v.view())))
            &&& forall|v: Version| #[trigger] self.bm().dom().contains(v) ==> (self.bm()[v].remote is Some <==> self.remote.offers(w, build_name(v.view()))) && (self.bm()[v].local is Some <==> self.local.offers(w, build_name(v.view())))
            &&& forall|v: Version| #[trigger] self.bm().dom().contains(v) ==> (self.bm()[v].remote is Some ==> self.remote.is_of(w, self.bm()[v].remote->0, build_name(v.view()))) && (self.bm()[v].local is Some ==> self.local.is_of(w, self.bm()[v].local->0, build_name(v.view()))) }
        pub open spec fn shows_p(st: Storage, w: World, v: (Version, Version)) -> bool { exists|n: Seq<char>| #[trigger] st.patches(w, n, v) }
        /// and about patches whose builds are known by then (the remote store is read first)
        pub open spec fn exact_p(&self, w: World) -> bool {
            &&& forall|v: (Version, Version)| #[trigger] self.pm().dom().contains(v) <==> self.bm().dom().contains(v.0) && self.bm().dom().contains(v.1) && (Self::shows_p(self.local, w, v) || (Self::shows_p(self.remote, w, v) && self.bm()[v.0].remote is Some && self.bm()[v.1].remote is Some))
            &&& forall|v: (Version, Version)| #[trigger] self.pm().dom().contains(v) ==> (self.pm()[v].remote is Some <==> Self::shows_p(self.remote, w, v) && self.bm()[v.0].remote is Some && self.bm()[v.1].remote is Some) && (self.pm()[v].local is Some <==> Self::shows_p(self.local, w, v))
            &&& forall|v: (Version, Version)| #[trigger] self.pm().dom().contains(v) && self.pm()[v].remote is Some ==> ({ let e = self.pm()[v].remote->0; let n = pname(e.path.view())->0; self.remote.patches(w, n, v) && self.remote.is_of(w, e, n) })
            &&& forall|v: (Version, Version)| #[trigger] self.pm().dom().contains(v) && self.pm()[v].local is Some ==> ({ let e = self.pm()[v].local->0; let n = pname(e.path.view())->0; self.local.patches(w, n, v) && self.local.is_of(w, e, n) }) }
        pub open spec fn read(w: World, st: Storage, es: Seq<Entry>, b0: Map<Version, Build>, b1: Map<Version, Build>, p0: Map<(Version, Version), Patch>, p1: Map<(Version, Version), Patch>, l: Location) -> bool {
            st.listing(w, es) && merged_b(b0, b1, crate::index::graph::bsel(es), l) && merged_p(b1, p0, p1, crate::index::graph::psel(es), l) && forall|e: Entry| #[trigger] crate::index::graph::psel(es).contains(e) ==> crate::index::graph::patch_named(e) }
        #[verifier::spinoff_prover] #[verifier::rlimit(60)]
        pub proof fn lemma_read(w: World, i: Index, rl: Seq<Entry>, ll: Seq<Entry>, b1: Map<Version, Build>, p1: Map<(Version, Version), Patch>)
            requires i.patch_graph.wf(), Self::read(w, i.remote, rl, Map::empty(), b1, Map::empty(), p1, Location::Remote), Self::read(w, i.local, ll, b1, i.bm(), p1, i.pm(), Location::Local)
            ensures i.exact_b(w), i.exact_p(w)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm); hide(crate::storage::Storage::listing); hide(crate::storage::Storage::patches); hide(crate::storage::Storage::is_of); hide(crate::storage::Storage::offers); hide(crate::index::graph::patch_named); hide(crate::index::graph::bsel); hide(crate::index::graph::psel);
            i.patch_graph.lemma_valid(); Storage::lemma_shows(w);
            assert forall|v: Version| valid_version(v.view()) implies (#[trigger] i.bm().dom().contains(v) <==> i.remote.offers(w, build_name(v.view())) || i.local.offers(w, build_name(v.view()))) by {
                assert(b1.dom().contains(v) <==> crate::index::graph::has_b(crate::index::graph::bsel(rl), v)); }
            assert forall|v: Version| #[trigger] i.bm().dom().contains(v) implies (i.bm()[v].remote is Some <==> i.remote.offers(w, build_name(v.view()))) && (i.bm()[v].local is Some <==> i.local.offers(w, build_name(v.view()))) by {
                assert(b1.dom().contains(v) <==> crate::index::graph::has_b(crate::index::graph::bsel(rl), v)); }
        }
        #[verifier::spinoff_prover]
        pub proof fn lemma_new(w: World)
            ensures forall|i: Index, rl: Seq<Entry>, ll: Seq<Entry>, b1: Map<Version, Build>, p1: Map<(Version, Version), Patch>| #![trigger merged_p(b1, Map::<(Version, Version), Patch>::empty(), p1, crate::index::graph::psel(rl), Location::Remote), i.local.listing(w, ll), i.exact_b(w)]
                #![trigger merged_p(b1, Map::<(Version, Version), Patch>::empty(), p1, crate::index::graph::psel(rl), Location::Remote), i.local.listing(w, ll), i.exact_p(w)]
                i.patch_graph.wf() && Self::read(w, i.remote, rl, Map::empty(), b1, Map::empty(), p1, Location::Remote) && Self::read(w, i.local, ll, b1, i.bm(), p1, i.pm(), Location::Local) ==> i.exact_b(w) && i.exact_p(w)
        {   hide(crate::index::graph::PatchGraph::wf); hide(Index::exact_b); hide(Index::exact_p); hide(merged_b); hide(merged_p); hide(crate::storage::Storage::listing); hide(crate::index::graph::patch_named);
            assert forall|i: Index, rl: Seq<Entry>, ll: Seq<Entry>, b1: Map<Version, Build>, p1: Map<(Version, Version), Patch>| #![trigger merged_p(b1, Map::<(Version, Version), Patch>::empty(), p1, crate::index::graph::psel(rl), Location::Remote), i.local.listing(w, ll), i.exact_b(w)]
                i.patch_graph.wf() && Self::read(w, i.remote, rl, Map::empty(), b1, Map::empty(), p1, Location::Remote) && Self::read(w, i.local, ll, b1, i.bm(), p1, i.pm(), Location::Local) implies i.exact_b(w) && i.exact_p(w) by { Self::lemma_read(w, i, rl, ll, b1, p1); }
            assert forall|i: Index, rl: Seq<Entry>, ll: Seq<Entry>, b1: Map<Version, Build>, p1: Map<(Version, Version), Patch>| #![trigger merged_p(b1, Map::<(Version, Version), Patch>::empty(), p1, crate::index::graph::psel(rl), Location::Remote), i.local.listing(w, ll), i.exact_p(w)]
                i.patch_graph.wf() && Self::read(w, i.remote, rl, Map::empty(), b1, Map::empty(), p1, Location::Remote) && Self::read(w, i.local, ll, b1, i.bm(), p1, i.pm(), Location::Local) implies i.exact_b(w) && i.exact_p(w) by { Self::lemma_read(w, i, rl, ll, b1, p1); } }
        /// same stores
        pub open spec fn kin(&self, o: Index) -> bool { self.local == o.local && self.remote == o.remote }
        /// names that are UTF-8, stores not inside of each other: what success depends on
        pub open spec fn nice(&self) -> bool {
            &&& self.local.root()->0.utf8() && crate::std_::path::utf8_dir(self.dir())
            &&& self.remote.root() is Some ==> self.remote.root()->0.utf8() && crate::std_::path::utf8_dir(cdir(self.remote.root()->0.view()))
                && forall|n: Seq<char>| !crate::std_::path::pstarts(#[trigger] pjoin(self.remote.root()->0.view(), n), self.dir()) }
        /// a copy of what that path leads to, named after it
        pub open spec fn added(&self, w: World, p: Seq<char>) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| ({ let s = src(w, p)->0;
            src(w, p) is Some && x == self.at(build_name(base_name(s.1))) && d is File && !(w.fs()[s] is Dir) && (w.fs()[s] is File ==> d->data == w.fs()[s]->data) }) }
        /// what is no build to add
        pub open spec fn rejects(&self, w: World, p: Seq<char>) -> bool { pname(p) is Some && (src(w, p) is None || ({ let s = src(w, p)->0;
            !valid_version(base_name(s.1)) || (w.fs()[s] is File && w.fs()[s]->data.len() == 0) || crate::std_::path::pstarts(pjoin(s.0, s.1), self.dir()) })) }
        /// the version that adding this gives
        pub open spec fn newest(w: World, p: Seq<char>) -> Version { ver(base_name((src(w, p)->0).1)) }
        /// a copy that is there once this is added
        pub open spec fn had(&self, w: World, p: Seq<char>, n: Seq<char>, d: Seq<u8>) -> bool { self.copy_of(w, n, d) || (src(w, p) is Some && n == build_name(Self::newest(w, p).view()) && (w.fs()[src(w, p)->0] is File ==> d == w.fs()[src(w, p)->0]->data)) }
        pub open spec fn diff_had(&self, w: World, p: Seq<char>, a: Version, b: Version, d: Seq<u8>) -> bool {
            zdec(d) is Some && exists|s: Seq<u8>, u: Seq<u8>| #[trigger] self.had(w, p, build_name(a.view()), s) && #[trigger] self.had(w, p, build_name(b.view()), u) && zdec(s) is Some && zdec(u) is Some && bp(zdec(d)->0, zdec(s)->0) == zdec(u) }
        /// the patch to what is added, and what is fetched for it
        pub open spec fn amended(&self, w: World, p: Seq<char>, a: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| ({ let b = Self::newest(w, p);
            src(w, p) is Some && (self.fetched_as(w, pn(a, b), pfile(pn(a, b)))(x, d) || self.fetched(w, build_name(a.view()))(x, d) || self.fetched(w, build_name(b.view()))(x, d) || (x == self.at(pn(a, b)) && d is File && d->data.len() > 0 && self.diff_had(w, p, a, b, d->data))) }) }
        pub proof fn lemma_amended(i0: Index, i1: Index, w0: World, w1: World, p: Seq<char>, a: Version, x: Loc, d: Node)
            requires i0.wf(), i1.kin(i0), i0.far(w0, w1), src(w0, p) is Some, valid_version(base_name((src(w0, p)->0).1)), valid_version(a.view()), changes(w0, w1, set![i0.dir()], i0.added(w0, p), no_up()), i1.drafted(w1, a, Self::newest(w0, p))(x, d)
            ensures i0.amended(w0, p, a)(x, d)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm); lemma_names(); let b = Self::newest(w0, p); let m = build_name(a.view()); let n = build_name(b.view()); let k = pn(a, b);
            Self::lemma_plain_names(a, b); Self::lemma_plain_names(b, a);
            assert(i1.remote.has_file(w1, m) == i0.remote.has_file(w0, m)); assert(i1.remote.has_file(w1, n) == i0.remote.has_file(w0, n)); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k));
            assert forall|q: Seq<char>, s: Seq<u8>| (q == m || q == n) && #[trigger] i1.copy_of(w1, q, s) implies i0.had(w0, p, q, s) by { assert(w1.fs().dom().contains(i0.at(q)) || !w1.fs().dom().contains(i0.at(q))); assert(i1.remote.has_file(w1, q) == i0.remote.has_file(w0, q)); }
            if i1.diff(w1, a, b, d->data) { assert(i0.diff_had(w0, p, a, b, d->data)); } }
        /// no directory in the way of anything that is sent
        pub open spec fn roomy(&self, w: World) -> bool { self.remote.root() is Some ==> forall|n: Seq<char>| simple(n) ==> !(w.fs().dom().contains(loc(#[trigger] self.remote.file(n))) && w.fs()[loc(self.remote.file(n))] is Dir) }
        pub open spec fn there(&self, w: World, n: Seq<char>) -> bool { let l = self.at(n); w.fs().dom().contains(l) && w.fs()[l] is File }
        /// the same is in the remote store
        pub open spec fn far(&self, a: World, b: World) -> bool { forall|n: Seq<char>| #![trigger self.remote.has_file(b, n)] #![trigger self.remote.data_of(b, n)] simple(n) ==> self.remote.has_file(b, n) == self.remote.has_file(a, n) && self.remote.data_of(b, n) == self.remote.data_of(a, n) }
        /// a non-empty file of that name in one of the stores holds this
        pub open spec fn copy_of(&self, w: World, n: Seq<char>, d: Seq<u8>) -> bool { (self.usable(w, n) && w.fs()[self.at(n)]->data == d) || (self.offered(w, n) && self.remote.data_of(w, n) == d) }
        /// every build has the content that `t` says, every patch is the difference between its builds
        pub open spec fn truth(&self, w: World, t: spec_fn(Version) -> Seq<u8>) -> bool {
            &&& forall|v: Version, d: Seq<u8>| valid_version(v.view()) && #[trigger] self.copy_of(w, build_name(v.view()), d) ==> zdec(d) == Some(t(v))
            &&& forall|a: Version, b: Version, d: Seq<u8>| clear(a, b) && #[trigger] self.copy_of(w, pn(a, b), d) ==> zdec(d) is Some && bp(zdec(d)->0, t(a)) == Some(t(b))
            &&& forall|k: (Version, Version)| #[trigger] self.pm().dom().contains(k) ==> clear(k.0, k.1) }
        /// this build file is what this patch file makes from that build file
        pub open spec fn patched(&self, w: World, a: Version, b: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| x == self.at(build_name(b.view())) && d is File && d->data.len() > 0
            && self.usable(w, pn(a, b)) && self.usable(w, build_name(a.view())) && made_of(d->data, w.fs()[self.at(pn(a, b))]->data, w.fs()[self.at(build_name(a.view()))]->data) }
        /// fetched for, or made by this patch
        pub open spec fn by_patch(&self, w: World, a: Version, b: Version, x: Loc, d: Node) -> bool {
            self.fetched_as(w, pn(a, b), pfile(pn(a, b)))(x, d) || self.fetched(w, build_name(a.view()))(x, d) || (x == self.at(build_name(b.view())) && d is File && made(d->data)) }
        pub open spec fn by_patches(&self, w: World, ks: Seq<(Version, Version)>) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| exists|i: int| 0 <= i < ks.len() && #[trigger] self.by_patch(w, ks[i].0, ks[i].1, x, d) }
        pub open spec fn step(&self, w: World, a: Version, b: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| self.by_patch(w, a, b, x, d) }
        /// one patch after the other
        pub proof fn lemma_able(ks: Seq<(Version, Version)>, n: int)
            requires 0 < n <= ks.len()
            ensures forall|i0: Index, w0: World| #[trigger] i0.able_from(w0, ks, n - 1) ==> clears(ks) && i0.pm().dom().contains(ks[n - 1]) && i0.ready(w0, pn(ks[n - 1].0, ks[n - 1].1)) && i0.ready(w0, build_name(ks[n - 1].0.view())) && i0.free(w0, build_name(ks[n - 1].1.view())),
                forall|i0: Index, i1: Index, w0: World, w1: World| #![trigger i0.able_from(w0, ks, n - 1), i1.able_from(w1, ks, n)] i0.wf() && i1.kin(i0) && i1.pm().dom() =~= i0.pm().dom() && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.step(w0, ks[n - 1].0, ks[n - 1].1), no_up())
                && i1.usable(w1, pn(ks[n - 1].0, ks[n - 1].1)) && i1.usable(w1, build_name(ks[n - 1].1.view())) && i0.able_from(w0, ks, n - 1) ==> i1.able_from(w1, ks, n)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm); lemma_names(); lemma_apart(); lemma_valid();
            assert forall|i0: Index, i1: Index, w0: World, w1: World| #![trigger i0.able_from(w0, ks, n - 1), i1.able_from(w1, ks, n)] i0.wf() && i1.kin(i0) && i1.pm().dom() =~= i0.pm().dom() && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.step(w0, ks[n - 1].0, ks[n - 1].1), no_up())
                && i1.usable(w1, pn(ks[n - 1].0, ks[n - 1].1)) && i1.usable(w1, build_name(ks[n - 1].1.view())) && i0.able_from(w0, ks, n - 1) implies i1.able_from(w1, ks, n) by {
                assert forall|i: int| n <= i < ks.len() implies i1.pm().dom().contains(#[trigger] ks[i]) && i1.ready(w1, pn(ks[i].0, ks[i].1)) && i1.free(w1, build_name(ks[i].1.view())) by {
                    assert(i0.pm().dom().contains(ks[i])); let m = pn(ks[i].0, ks[i].1); let k = build_name(ks[i].1.view());
                    assert(i1.remote.has_file(w1, m) == i0.remote.has_file(w0, m));
                    assert(w1.fs().dom().contains(i0.at(m)) || true); assert(w1.fs().dom().contains(i0.at(k)) || true); assert(i0.pm().dom().contains(ks[n - 1])); }
                if n < ks.len() { assert(ks[n - 1].1 == ks[n].0); } } }
        pub proof fn lemma_by_patch(&self, w: World, ks: Seq<(Version, Version)>, n: int)
            requires 0 <= n < ks.len(), self.wf()
            ensures forall|i: Index, u: World, x: Loc, d: Node| i.kin(*self) && self.far(w, u) && #[trigger] i.by_patch(u, ks[n].0, ks[n].1, x, d) && valid_version(ks[n].0.view()) && valid_version(ks[n].1.view()) ==> self.by_patches(w, ks)(x, d)
        {   lemma_names(); assert forall|i: Index, u: World, x: Loc, d: Node| i.kin(*self) && self.far(w, u) && #[trigger] i.by_patch(u, ks[n].0, ks[n].1, x, d) && valid_version(ks[n].0.view()) && valid_version(ks[n].1.view()) implies self.by_patches(w, ks)(x, d) by {
                assert(self.remote.has_file(u, pn(ks[n].0, ks[n].1)) == self.remote.has_file(w, pn(ks[n].0, ks[n].1))); assert(self.remote.has_file(u, build_name(ks[n].0.view())) == self.remote.has_file(w, build_name(ks[n].0.view()))); assert(self.by_patch(w, ks[n].0, ks[n].1, x, d)); } }
        /// a chain of patches that is cheaper than the build
        pub open spec fn cheap(&self, ks: Seq<(Version, Version)>, a: Version, b: Version) -> bool { self.bm().dom().contains(a) && self.bm().dom().contains(b) && cheapest(self.pm(), ks, a, b) && cost(self.pm(), ks) < self.bm()[b].sp_size() }
        pub open spec fn upgraded(&self, w: World, a: Version, b: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| self.fetched(w, build_name(b.view()))(x, d) || exists|ks: Seq<(Version, Version)>| #[trigger] self.cheap(ks, a, b) && self.by_patches(w, ks)(x, d) }
        /// what is known to be here is here
        pub open spec fn tracks_b(&self, w: World) -> bool { forall|v: Version| #[trigger] self.bm().dom().contains(v) && self.bm()[v].local is Some ==> self.usable(w, build_name(v.view())) }
        /// made by the cheapest patches
        pub open spec fn chained(&self, w: World, a: Version, b: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| exists|ks: Seq<(Version, Version)>| #[trigger] self.cheap(ks, a, b) && self.by_patches(w, ks)(x, d) }
        /// starting with a build that is here
        #[verifier::spinoff_prover]
        pub proof fn lemma_skip(&self, w: World)
            requires self.wf()
            ensures forall|ps: Seq<Patch>, n: int| 0 <= n <= ps.len() ==> #[trigger] keys(ps.skip(n)) == keys(ps).skip(n),
                forall|ks: Seq<(Version, Version)>, a: Version, b: Version| #[trigger] cheapest(self.patch_graph.pm(), ks, a, b) && self.bm().dom().contains(a) && self.bm().dom().contains(b) && cost(self.patch_graph.pm(), ks) < self.bm()[b].sp_size() ==> self.cheap(ks, a, b),
                forall|ps: Seq<Patch>, n: int, x: Loc, d: Node| 0 <= n <= ps.len() && #[trigger] self.by_patches(w, keys(ps.skip(n)))(x, d) ==> self.by_patches(w, keys(ps))(x, d),
                forall|ps: Seq<Patch>, n: int| 0 <= n <= ps.len() && self.able_from(w, keys(ps), 0) && self.tracks_b(w) && (n > 0 ==> self.bm().dom().contains(ps[n - 1].to) && self.bm()[ps[n - 1].to].local is Some) ==> #[trigger] self.able_from(w, keys(ps.skip(n)), 0)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm);
            assert forall|ps: Seq<Patch>, n: int| 0 <= n <= ps.len() implies #[trigger] keys(ps.skip(n)) == keys(ps).skip(n) by { assert(keys(ps.skip(n)) =~= keys(ps).skip(n)); }
            assert forall|ps: Seq<Patch>, n: int, x: Loc, d: Node| 0 <= n <= ps.len() && #[trigger] self.by_patches(w, keys(ps.skip(n)))(x, d) implies self.by_patches(w, keys(ps))(x, d) by {
                let ks = keys(ps.skip(n)); let i = choose|i: int| 0 <= i < ks.len() && #[trigger] self.by_patch(w, ks[i].0, ks[i].1, x, d); assert(keys(ps)[n + i] == ks[i]); assert(self.by_patch(w, keys(ps)[n + i].0, keys(ps)[n + i].1, x, d)); }
            assert forall|ps: Seq<Patch>, n: int| 0 <= n <= ps.len() && self.able_from(w, keys(ps), 0) && self.tracks_b(w) && (n > 0 ==> self.bm().dom().contains(ps[n - 1].to) && self.bm()[ps[n - 1].to].local is Some) implies #[trigger] self.able_from(w, keys(ps.skip(n)), 0) by {
                let ks = keys(ps); let ls = keys(ps.skip(n)); assert(ls == ks.skip(n));
                assert forall|i: int| 0 <= i < ls.len() implies self.pm().dom().contains(#[trigger] ls[i]) && self.ready(w, pn(ls[i].0, ls[i].1)) && self.free(w, build_name(ls[i].1.view())) by { assert(ls[i] == ks[n + i]); }
                assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < ls.len() implies (#[trigger] ls[i]).1 == (#[trigger] ls[j]).0 by { assert(ls[i] == ks[n + i]); assert(ls[j] == ks[n + j]); }
                assert forall|i: int| 0 <= i < ls.len() implies clear((#[trigger] ls[i]).0, ls[i].1) by { assert(ls[i] == ks[n + i]); }
                if ls.len() > 0 { assert(ls[0] == ks[n]); if n > 0 { assert(ks[n - 1].1 == ks[n].0); assert(ks[n - 1] == (ps[n - 1].from, ps[n - 1].to)); } } } }
        /// what can be had can be had after that
        pub proof fn lemma_ready(v: Version)
            ensures forall|i0: Index, i1: Index, w0: World, w1: World, ks: Seq<(Version, Version)>| #![trigger i0.by_patches(w0, ks), i0.ready(w0, build_name(v.view())), i1.usable(w1, build_name(v.view()))]
                i0.wf() && i1.kin(i0) && valid_version(v.view()) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.by_patches(w0, ks), no_up()) && i0.ready(w0, build_name(v.view())) ==> i1.ready(w1, build_name(v.view()))
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm);
            assert forall|i0: Index, i1: Index, w0: World, w1: World, ks: Seq<(Version, Version)>| #![trigger i0.by_patches(w0, ks), i0.ready(w0, build_name(v.view())), i1.usable(w1, build_name(v.view()))]
                i0.wf() && i1.kin(i0) && valid_version(v.view()) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.by_patches(w0, ks), no_up()) && i0.ready(w0, build_name(v.view())) implies i1.ready(w1, build_name(v.view())) by {
                lemma_names(); lemma_apart(); let n = build_name(v.view()); let x = i0.at(n); assert(simple(n)); assert(i1.remote.has_file(w1, n) == i0.remote.has_file(w0, n));
                assert(w1.fs().dom().contains(x) || !w1.fs().dom().contains(x));
                if !kept_at(w0, w1, x) { let d = w1.fs()[x]; assert(i0.by_patches(w0, ks)(x, d)); let j = choose|j: int| 0 <= j < ks.len() && #[trigger] i0.by_patch(w0, ks[j].0, ks[j].1, x, d); let a = ks[j].0; let b = ks[j].1; assert(build_name(v.view()) != pn(pair_of(pn(a, b)).0, pair_of(pn(a, b)).1)); assert(named_b(build_name(a.view()))); assert(d->data.len() > 0); } } }
        /// a patch from one of these builds to the other
        pub open spec fn diff(&self, w: World, a: Version, b: Version, d: Seq<u8>) -> bool {
            zdec(d) is Some && exists|s: Seq<u8>, u: Seq<u8>| #[trigger] self.copy_of(w, build_name(a.view()), s) && #[trigger] self.copy_of(w, build_name(b.view()), u) && zdec(s) is Some && zdec(u) is Some && bp(zdec(d)->0, zdec(s)->0) == zdec(u) }
        /// what is fetched to make a patch, and the patch
        pub open spec fn drafted(&self, w: World, a: Version, b: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| self.fetched_as(w, pn(a, b), pfile(pn(a, b)))(x, d) || self.fetched(w, build_name(a.view()))(x, d) || self.fetched(w, build_name(b.view()))(x, d)
            || (x == self.at(pn(a, b)) && d is File && d->data.len() > 0 && self.diff(w, a, b, d->data)) }
        /// what is here after fetching was somewhere before
        pub proof fn lemma_back()
            ensures forall|i0: Index, i1: Index, w0: World, w1: World, n: Seq<char>, m: Seq<char>, k: Seq<char>, d: Seq<u8>| #![trigger i0.fetched_as(w0, n, m), i1.copy_of(w1, k, d)]
                i0.wf() && i1.kin(i0) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.fetched_as(w0, n, m), no_up()) && simple(k) && !is_temp(k) && (n == m || k != m) && i1.copy_of(w1, k, d) ==> i0.copy_of(w0, k, d)
        {   hide(crate::index::graph::PatchGraph::wf);
            assert forall|i0: Index, i1: Index, w0: World, w1: World, n: Seq<char>, m: Seq<char>, k: Seq<char>, d: Seq<u8>| #![trigger i0.fetched_as(w0, n, m), i1.copy_of(w1, k, d)]
                i0.wf() && i1.kin(i0) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.fetched_as(w0, n, m), no_up()) && simple(k) && !is_temp(k) && (n == m || k != m) && i1.copy_of(w1, k, d) implies i0.copy_of(w0, k, d) by {
                assert(w1.fs().dom().contains(i0.at(k)) || !w1.fs().dom().contains(i0.at(k))); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k)); } }
        pub proof fn lemma_truth_diff(a: Version, b: Version)
            ensures forall|i0: Index, i1: Index, w0: World, w1: World, t: spec_fn(Version) -> Seq<u8>| #![trigger i0.truth(w0, t), i1.truth(w1, t), i0.drafted(w0, a, b)]
                i0.wf() && i1.kin(i0) && i0.bm().dom().contains(a) && i0.bm().dom().contains(b) && pm_gains(i0.pm(), i1.pm(), (a, b)) && clear(a, b) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.drafted(w0, a, b), no_up()) && i0.truth(w0, t) ==> i1.truth(w1, t)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm);
            assert forall|i0: Index, i1: Index, w0: World, w1: World, t: spec_fn(Version) -> Seq<u8>| #![trigger i0.truth(w0, t), i1.truth(w1, t), i0.drafted(w0, a, b)]
                i0.wf() && i1.kin(i0) && i0.bm().dom().contains(a) && i0.bm().dom().contains(b) && pm_gains(i0.pm(), i1.pm(), (a, b)) && clear(a, b) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.drafted(w0, a, b), no_up()) && i0.truth(w0, t) implies i1.truth(w1, t) by {
                lemma_names(); lemma_apart();
                assert forall|k: Seq<char>, d: Seq<u8>| simple(k) && !is_temp(k) && k != pn(a, b) && #[trigger] i1.copy_of(w1, k, d) implies i0.copy_of(w0, k, d) by { assert(w1.fs().dom().contains(i0.at(k)) || !w1.fs().dom().contains(i0.at(k))); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k)); }
                assert forall|v: Version, d: Seq<u8>| valid_version(v.view()) && #[trigger] i1.copy_of(w1, build_name(v.view()), d) implies zdec(d) == Some(t(v)) by { assert(i0.copy_of(w0, build_name(v.view()), d)); }
                assert forall|c: Version, e: Version, d: Seq<u8>| clear(c, e) && #[trigger] i1.copy_of(w1, pn(c, e), d) implies zdec(d) is Some && bp(zdec(d)->0, t(c)) == Some(t(e)) by {
                    let k = pn(c, e);
                    if !i0.copy_of(w0, k, d) { assert(k == pn(a, b)) by { assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k)); assert(w1.fs().dom().contains(i0.at(k))); } assert(c == a && e == b); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k)); assert(w1.fs().dom().contains(i0.at(k))); assert(i0.diff(w0, a, b, d)); } }
                assert forall|k: (Version, Version)| #[trigger] i1.pm().dom().contains(k) implies clear(k.0, k.1) by { assert(k != (a, b) ==> i0.pm().dom().contains(k)); } } }
        /// fetching first makes no difference
        pub proof fn lemma_drafts(a: Version, b: Version)
            ensures forall|i0: Index, i1: Index, w0: World, w1: World, x: Loc, d: Node| #![trigger i1.drafted(w1, a, b)(x, d), i0.drafted(w0, a, b)(x, d)]
                i0.wf() && i1.kin(i0) && valid_version(a.view()) && valid_version(b.view()) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.builds(w0, a, b), no_up()) && i1.drafted(w1, a, b)(x, d) ==> i0.drafted(w0, a, b)(x, d)
        {   hide(crate::index::graph::PatchGraph::wf);
            assert forall|i0: Index, i1: Index, w0: World, w1: World, x: Loc, d: Node| #![trigger i1.drafted(w1, a, b)(x, d), i0.drafted(w0, a, b)(x, d)]
                i0.wf() && i1.kin(i0) && valid_version(a.view()) && valid_version(b.view()) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.builds(w0, a, b), no_up()) && i1.drafted(w1, a, b)(x, d) implies i0.drafted(w0, a, b)(x, d) by {
                lemma_names(); lemma_apart(); let m = build_name(a.view()); let n = build_name(b.view()); let k = pn(a, b);
                assert(i1.remote.has_file(w1, m) == i0.remote.has_file(w0, m)); assert(i1.remote.has_file(w1, n) == i0.remote.has_file(w0, n)); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k));
                assert forall|q: Seq<char>, s: Seq<u8>| (q == m || q == n) && #[trigger] i1.copy_of(w1, q, s) implies i0.copy_of(w0, q, s) by { assert(w1.fs().dom().contains(i0.at(q)) || !w1.fs().dom().contains(i0.at(q))); assert(i1.remote.has_file(w1, q) == i0.remote.has_file(w0, q)); }
                if i1.diff(w1, a, b, d->data) { assert(i0.diff(w0, a, b, d->data)); } } }
        pub open spec fn builds(&self, w: World, a: Version, b: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| self.fetched(w, build_name(a.view()))(x, d) || self.fetched(w, build_name(b.view()))(x, d) }
        pub proof fn lemma_truth_copy()
            ensures forall|i: Index, w: World, t: spec_fn(Version) -> Seq<u8>, v: Version, d: Seq<u8>| #![trigger i.truth(w, t), i.copy_of(w, build_name(v.view()), d)] i.truth(w, t) && i.copy_of(w, build_name(v.view()), d) && valid_version(v.view()) ==> zdec(d) == Some(t(v)) {}
        /// the entry of a file directly in the local store
        pub open spec fn tracked(&self, w: World, e: Entry) -> bool { let n = pname(e.path.view())->0; pname(e.path.view()) is Some && !is_temp(n) && e.path.view() == pjoin(self.dir(), n) && self.there(w, n) }
        /// what is known to be here is here, and everything that is known is somewhere
        pub open spec fn tracks(&self, w: World) -> bool {
            &&& forall|v: Version| #[trigger] self.bm().dom().contains(v) ==> (self.bm()[v].remote is Some || self.bm()[v].local is Some) && (self.bm()[v].local is Some ==> self.tracked(w, self.bm()[v].local->0))
            &&& forall|v: (Version, Version)| #[trigger] self.pm().dom().contains(v) ==> (self.pm()[v].remote is Some || self.pm()[v].local is Some) && (self.pm()[v].local is Some ==> self.tracked(w, self.pm()[v].local->0)) }
        pub proof fn lemma_patch_file(n: Seq<char>)
            requires ends(n, d_patch() + d_zst())
            ensures !is_temp(n)
        {   let z = d_patch() + d_zst(); assert(z.len() == 10); let t = n.subrange(n.len() - 10, n.len() as int); assert(t == z); assert(t[8] == 's'); assert(n[n.len() - 2] == 's'); reveal_strlit("._artefacta-temp-");
            if ends(n, seq!['.', 'p', 'a', 'r', 't']) { assert(n.subrange(n.len() - 5, n.len() as int)[3] == 'r'); }
            if n == temp_prefix() + seq!['c', 'u', 'r', 'r', 'e', 'n', 't'] { assert(n[n.len() - 2] == 'n'); } }
        pub proof fn lemma_tracks(w: World)
            ensures forall|i: Index| i.wf() && i.exact_b(w) && i.exact_p(w) ==> #[trigger] i.tracks(w)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm);
            assert forall|i: Index| i.wf() && i.exact_b(w) && i.exact_p(w) implies #[trigger] i.tracks(w) by {
                lemma_names(); assert(cdir(i.dir()) == i.dir());
                assert forall|v: Version| #[trigger] i.bm().dom().contains(v) implies (i.bm()[v].remote is Some || i.bm()[v].local is Some) && (i.bm()[v].local is Some ==> i.tracked(w, i.bm()[v].local->0)) by { assert(simple(build_name(v.view()))); }
                assert forall|v: (Version, Version)| #[trigger] i.pm().dom().contains(v) implies (i.pm()[v].remote is Some || i.pm()[v].local is Some) && (i.pm()[v].local is Some ==> i.tracked(w, i.pm()[v].local->0)) by {
                    if i.pm()[v].local is Some { let e = i.pm()[v].local->0; let n = pname(e.path.view())->0; assert(i.local.patches(w, n, v)); Self::lemma_patch_file(n); } } } }
        /// known here, and not in the remote store
        pub open spec fn owed_b(&self, v: Version) -> bool { self.bm().dom().contains(v) && self.bm()[v].remote is None && self.bm()[v].local is Some }
        pub open spec fn owed_p(&self, v: (Version, Version)) -> bool { self.pm().dom().contains(v) && self.pm()[v].remote is None && self.pm()[v].local is Some }
        pub open spec fn owed(&self, n: Seq<char>) -> bool {
            (exists|v: Version| #[trigger] self.owed_b(v) && pname(self.bm()[v].local->0.path.view()) == Some(n)) || (exists|v: (Version, Version)| #[trigger] self.owed_p(v) && pname(self.pm()[v].local->0.path.view()) == Some(n)) }
        /// the remote store has what the local one has
        pub open spec fn stored(&self, a: World, b: World, n: Seq<char>) -> bool { self.remote.has_file(b, n) && self.remote.data_of(b, n) == a.fs()[self.at(n)]->data }
        pub open spec fn sent_file(&self, w: World) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| exists|n: Seq<char>| #[trigger] self.owed(n) && self.remote.root() is Some && x == loc(self.remote.file(n)) && d is File && d->data == w.fs()[self.at(n)]->data }
        pub open spec fn sent_up(&self, w: World) -> spec_fn(Key, Seq<u8>) -> bool { |k: Key, d: Seq<u8>| exists|n: Seq<char>| #[trigger] self.owed(n) && self.remote.root() is None && k == self.remote.key(n) && d == w.fs()[self.at(n)]->data }
        pub open spec fn remote_dirs(&self) -> Set<Seq<char>> { if self.remote.root() is Some { set![cdir(self.remote.root()->0.view())] } else { Set::empty() } }
        /// directories are not in the way
        pub open spec fn unblocked(&self, w: World) -> bool { self.remote.root() is Some ==> forall|n: Seq<char>| #[trigger] self.owed(n) ==> ({ let l = loc(self.remote.file(n)); !(w.fs().dom().contains(l) && w.fs()[l] is Dir) }) }
        pub proof fn lemma_keys()
            ensures forall|st: Storage, a: Seq<char>, b: Seq<char>| #[trigger] st.key(a) == #[trigger] st.key(b) ==> a == b
        {   assert forall|st: Storage, a: Seq<char>, b: Seq<char>| #[trigger] st.key(a) == #[trigger] st.key(b) implies a == b by { let x = crate::base::trim_end(crate::base::trim_start(st.bucket().path.view(), seq!['/']), seq!['/']) + seq!['/']; assert((x + a).skip(x.len() as int) =~= a); assert((x + b).skip(x.len() as int) =~= b); } }
        pub proof fn lemma_owed(&self)
            ensures forall|v: Version| #[trigger] self.patch_graph.bm().dom().contains(v) && self.bm()[v].remote is None && self.bm()[v].local is Some && pname(self.bm()[v].local->0.path.view()) is Some ==> self.owed_b(v) && self.owed(pname(self.bm()[v].local->0.path.view())->0),
                forall|v: (Version, Version)| #[trigger] self.patch_graph.pm().dom().contains(v) && self.pm()[v].remote is None && self.pm()[v].local is Some && pname(self.pm()[v].local->0.path.view()) is Some ==> self.owed_p(v) && self.owed(pname(self.pm()[v].local->0.path.view())->0),
                forall|n: Seq<char>| #[trigger] self.owed(n) ==> (exists|v: Version| #[trigger] self.owed_b(v) && pname(self.bm()[v].local->0.path.view()) == Some(n)) || (exists|v: (Version, Version)| #[trigger] self.owed_p(v) && pname(self.pm()[v].local->0.path.view()) == Some(n))
        {   assert forall|v: Version| #[trigger] self.patch_graph.bm().dom().contains(v) && self.bm()[v].remote is None && self.bm()[v].local is Some && pname(self.bm()[v].local->0.path.view()) is Some implies self.owed_b(v) && self.owed(pname(self.bm()[v].local->0.path.view())->0) by { assert(self.owed_b(v)); }
            assert forall|v: (Version, Version)| #[trigger] self.patch_graph.pm().dom().contains(v) && self.pm()[v].remote is None && self.pm()[v].local is Some && pname(self.pm()[v].local->0.path.view()) is Some implies self.owed_p(v) && self.owed(pname(self.pm()[v].local->0.path.view())->0) by { assert(self.owed_p(v)); } }
        /// sending does not change what is here
        pub proof fn lemma_sent(&self, a: World, b: World)
            requires self.wf(), self.tracks(a), changes(a, b, self.remote_dirs(), self.sent_file(a), self.sent_up(a))
            ensures forall|n: Seq<char>| simple(n) && !is_temp(n) && #[trigger] self.there(a, n) ==> self.there(b, n) && b.fs()[self.at(n)] == a.fs()[self.at(n)]
        {   assert forall|n: Seq<char>| simple(n) && !is_temp(n) && #[trigger] self.there(a, n) implies self.there(b, n) && b.fs()[self.at(n)] == a.fs()[self.at(n)] by {
                let l = self.at(n); assert(b.fs().dom().contains(l) || !b.fs().dom().contains(l)); assert(!scratch(l, self.remote_dirs()));
                if !kept_at(a, b, l) { let m = choose|m: Seq<char>| #[trigger] self.owed(m) && self.remote.root() is Some && l == loc(self.remote.file(m)) && b.fs()[l] is File; assert(self.owed(m)); assert(simple(m)); assert(loc(self.remote.file(m)).0 == cdir(self.remote.root()->0.view())); } } }
        /// what was sent is what is here
        pub proof fn lemma_sends(&self, a: World, b: World)
            requires self.wf(), self.tracks(a), changes(a, b, self.remote_dirs(), self.sent_file(a), self.sent_up(a))
            ensures forall|x: Loc, d: Node| #[trigger] self.sent_file(a)(x, d) ==> self.sent_file(b)(x, d), forall|k: Key, d: Seq<u8>| #[trigger] self.sent_up(a)(k, d) ==> self.sent_up(b)(k, d),
                forall|n: Seq<char>| #[trigger] self.owed(n) && self.stored(a, b, n) ==> self.stored(b, b, n)
        {   self.lemma_sent(a, b); self.lemma_owed();
            assert forall|n: Seq<char>| #[trigger] self.owed(n) implies self.there(a, n) && simple(n) && !is_temp(n) && b.fs()[self.at(n)] == a.fs()[self.at(n)] by { } }
        pub proof fn lemma_roomy(i0: Index, i1: Index, w0: World, w1: World, p: Seq<char>)
            requires i0.wf(), i1.wf(), i1.kin(i0), changes(w0, w1, set![i0.dir()], i0.added(w0, p), no_up()), i0.roomy(w0), i1.tracks(w1)
            ensures i1.unblocked(w1)
        {   i1.lemma_owed();
            assert forall|n: Seq<char>| #[trigger] i1.owed(n) && i1.remote.root() is Some implies ({ let l = loc(i1.remote.file(n)); !(w1.fs().dom().contains(l) && w1.fs()[l] is Dir) }) by { assert(simple(n)); let l = loc(i1.remote.file(n)); assert(l.0 == cdir(i1.remote.root()->0.view())); assert(w1.fs().dom().contains(l) || !w1.fs().dom().contains(l)); } }
        /// the content of a build that is here
        pub proof fn lemma_truth_build(v: Version)
            ensures forall|i: Index, w: World, t: spec_fn(Version) -> Seq<u8>| #![trigger i.truth(w, t), i.usable(w, build_name(v.view()))] i.truth(w, t) && i.usable(w, build_name(v.view())) && valid_version(v.view()) ==> zdec(w.fs()[i.at(build_name(v.view()))]->data) == Some(t(v))
        {   assert forall|i: Index, w: World, t: spec_fn(Version) -> Seq<u8>| #![trigger i.truth(w, t), i.usable(w, build_name(v.view()))] i.truth(w, t) && i.usable(w, build_name(v.view())) && valid_version(v.view()) implies zdec(w.fs()[i.at(build_name(v.view()))]->data) == Some(t(v)) by { assert(i.copy_of(w, build_name(v.view()), w.fs()[i.at(build_name(v.view()))]->data)); } }
        /// fetching and patching keep the content of builds
        pub proof fn lemma_truth_fetch()
            ensures forall|i0: Index, i1: Index, w0: World, w1: World, t: spec_fn(Version) -> Seq<u8>, n: Seq<char>, m: Seq<char>| #![trigger i0.truth(w0, t), i1.truth(w1, t), i0.fetched_as(w0, n, m)]
                i0.wf() && i1.kin(i0) && i1.pm().dom() =~= i0.pm().dom() && n == m && simple(n) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.fetched_as(w0, n, m), no_up()) && i0.truth(w0, t) ==> i1.truth(w1, t)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm);
            assert forall|i0: Index, i1: Index, w0: World, w1: World, t: spec_fn(Version) -> Seq<u8>, n: Seq<char>, m: Seq<char>| #![trigger i0.truth(w0, t), i1.truth(w1, t), i0.fetched_as(w0, n, m)]
                i0.wf() && i1.kin(i0) && i1.pm().dom() =~= i0.pm().dom() && n == m && simple(n) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.fetched_as(w0, n, m), no_up()) && i0.truth(w0, t) implies i1.truth(w1, t) by {
                assert forall|k: Seq<char>, d: Seq<u8>| simple(k) && !is_temp(k) && #[trigger] i1.copy_of(w1, k, d) implies i0.copy_of(w0, k, d) by { assert(w1.fs().dom().contains(i0.at(k)) || !w1.fs().dom().contains(i0.at(k))); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k)); }
                lemma_names();
                assert forall|v: Version, d: Seq<u8>| valid_version(v.view()) && #[trigger] i1.copy_of(w1, build_name(v.view()), d) implies zdec(d) == Some(t(v)) by { assert(i0.copy_of(w0, build_name(v.view()), d)); }
                assert forall|a: Version, b: Version, d: Seq<u8>| clear(a, b) && #[trigger] i1.copy_of(w1, pn(a, b), d) implies zdec(d) is Some && bp(zdec(d)->0, t(a)) == Some(t(b)) by { assert(i0.copy_of(w0, pn(a, b), d)); }
                assert forall|k: (Version, Version)| #[trigger] i1.pm().dom().contains(k) implies clear(k.0, k.1) by { assert(i0.pm().dom().contains(k)); } } }
        /// what is true of the files
        pub proof fn lemma_truth_use(a: Version, b: Version)
            ensures forall|i: Index, w: World, t: spec_fn(Version) -> Seq<u8>| #[trigger] i.truth(w, t) && i.pm().dom().contains((a, b)) ==> clear(a, b) && (i.usable(w, pn(a, b)) && i.usable(w, build_name(a.view())) ==> ({ let p = zdec(w.fs()[i.at(pn(a, b))]->data); let s = zdec(w.fs()[i.at(build_name(a.view()))]->data); p is Some && s is Some && bp(p->0, s->0) is Some }))
        {   assert forall|i: Index, w: World, t: spec_fn(Version) -> Seq<u8>| #[trigger] i.truth(w, t) && i.pm().dom().contains((a, b)) implies clear(a, b) && (i.usable(w, pn(a, b)) && i.usable(w, build_name(a.view())) ==> ({ let p = zdec(w.fs()[i.at(pn(a, b))]->data); let s = zdec(w.fs()[i.at(build_name(a.view()))]->data); p is Some && s is Some && bp(p->0, s->0) is Some })) by {
                if i.usable(w, pn(a, b)) && i.usable(w, build_name(a.view())) { assert(i.copy_of(w, pn(a, b), w.fs()[i.at(pn(a, b))]->data)); assert(i.copy_of(w, build_name(a.view()), w.fs()[i.at(build_name(a.view()))]->data)); } } }
        pub proof fn lemma_truth_made(a: Version, b: Version)
            ensures forall|i0: Index, i1: Index, w0: World, w1: World, t: spec_fn(Version) -> Seq<u8>| #![trigger i0.truth(w0, t), i1.truth(w1, t)]
                i0.wf() && i1.kin(i0) && i1.pm().dom() =~= i0.pm().dom() && clear(a, b) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.patched(w0, a, b), no_up()) && i0.truth(w0, t) ==> i1.truth(w1, t)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm);
            assert forall|i0: Index, i1: Index, w0: World, w1: World, t: spec_fn(Version) -> Seq<u8>| #![trigger i0.truth(w0, t), i1.truth(w1, t)]
                i0.wf() && i1.kin(i0) && i1.pm().dom() =~= i0.pm().dom() && clear(a, b) && i0.far(w0, w1) && changes(w0, w1, set![i0.dir()], i0.patched(w0, a, b), no_up()) && i0.truth(w0, t) implies i1.truth(w1, t) by {
                lemma_names(); lemma_apart();
                assert forall|k: Seq<char>, d: Seq<u8>| simple(k) && !is_temp(k) && k != build_name(b.view()) && #[trigger] i1.copy_of(w1, k, d) implies i0.copy_of(w0, k, d) by { assert(w1.fs().dom().contains(i0.at(k)) || !w1.fs().dom().contains(i0.at(k))); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k)); }
                assert(i0.usable(w0, pn(a, b)) ==> i0.copy_of(w0, pn(a, b), w0.fs()[i0.at(pn(a, b))]->data)); assert(i0.usable(w0, build_name(a.view())) ==> i0.copy_of(w0, build_name(a.view()), w0.fs()[i0.at(build_name(a.view()))]->data));
                assert forall|v: Version, d: Seq<u8>| valid_version(v.view()) && #[trigger] i1.copy_of(w1, build_name(v.view()), d) implies zdec(d) == Some(t(v)) by {
                    let k = build_name(v.view());
                    if !i0.copy_of(w0, k, d) { assert(k == build_name(b.view())); assert(v == b); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k)); assert(w1.fs().dom().contains(i0.at(k))); } }
                assert forall|c: Version, e: Version, d: Seq<u8>| clear(c, e) && #[trigger] i1.copy_of(w1, pn(c, e), d) implies zdec(d) is Some && bp(zdec(d)->0, t(c)) == Some(t(e)) by { assert(i0.copy_of(w0, pn(c, e), d)); }
                assert forall|k: (Version, Version)| #[trigger] i1.pm().dom().contains(k) implies clear(k.0, k.1) by { assert(i0.pm().dom().contains(k)); } } }
        /// a non-empty local file
        pub open spec fn usable(&self, w: World, n: Seq<char>) -> bool { self.there(w, n) && w.fs()[self.at(n)]->data.len() > 0 }
        /// a non-empty remote file
        pub open spec fn offered(&self, w: World, n: Seq<char>) -> bool { self.remote.offers(w, n) }
        pub open spec fn free(&self, w: World, n: Seq<char>) -> bool { let l = self.at(n); !(w.fs().dom().contains(l) && w.fs()[l] is Dir) }
        /// this entry is for the local file of that name
        pub open spec fn is_at(&self, w: World, e: Entry, n: Seq<char>) -> bool { self.there(w, n) && e.storage == self.local && e.path.view() == pjoin(self.dir(), n) && e.size == w.fs()[self.at(n)]->data.len() }
        pub open spec fn local_b(&self, v: Version) -> Option<Entry> { if self.bm().dom().contains(v) { self.bm()[v].local } else { None } }
        pub open spec fn local_p(&self, v: (Version, Version)) -> Option<Entry> { if self.pm().dom().contains(v) { self.pm()[v].local } else { None } }
        /// a build whose name matches a tag
        pub open spec fn named(&self, tag: Seq<char>, v: Version) -> bool { self.bm().dom().contains(v) && crate::git::parts(v.view()) == crate::git::parts(tag) }
        /// no name that patch files cannot be read with
        pub open spec fn clean(&self) -> bool { forall|v: Version| #[trigger] self.bm().dom().contains(v) ==> clear(v, v) }
        /// what trying to create patches to this build may write
        pub open spec fn tries(&self, w: World, to: Version) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| self.fetched(w, build_name(to.view()))(x, d) || exists|v: Version| #[trigger] self.bm().dom().contains(v) && self.drafted(w, v, to)(x, d) }
        pub open spec fn made_from(&self, w: World, v: Version, to: Version) -> bool { v != to && self.usable(w, pn(v, to)) && (clear(v, to) ==> self.usable(w, build_name(v.view())) && self.pm().dom().contains((v, to))) }
        /// there is a patch from a build that the tag names
        pub open spec fn made_tag(&self, w: World, tag: Seq<char>, to: Version) -> bool { exists|v: Version| #[trigger] self.named(tag, v) && self.made_from(w, v, to) }
        /// nothing is missing to create the patch
        pub open spec fn can_make(&self, w: World, tag: Seq<char>, to: Version) -> bool {
            &&& self.bm().dom().contains(to) && self.ready(w, build_name(to.view())) && (exists|v: Version| #[trigger] self.named(tag, v))
            &&& forall|v: Version| #[trigger] self.named(tag, v) ==> v != to && self.ready(w, build_name(v.view())) && self.free(w, pn(v, to)) }
        pub open spec fn same_names(&self, o: Index) -> bool { forall|g: Seq<char>, v: Version| #![trigger self.named(g, v)] #![trigger o.named(g, v)] self.named(g, v) == o.named(g, v) }
        /// trying something else first makes no difference
        pub proof fn lemma_tries(i0: Index, i1: Index, w0: World, w1: World, to: Version, v: Version, x: Loc, d: Node)
            requires i0.wf(), i1.kin(i0), i0.far(w0, w1), changes(w0, w1, set![i0.dir()], i0.tries(w0, to), no_up()), valid_version(to.view()), i0.bm().dom().contains(v)
            ensures i1.fetched(w1, build_name(to.view()))(x, d) ==> i0.fetched(w0, build_name(to.view()))(x, d), i1.drafted(w1, v, to)(x, d) ==> i0.drafted(w0, v, to)(x, d)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm);
            i0.patch_graph.lemma_valid(); Self::lemma_plain_names(v, to); Self::lemma_plain_names(to, v); let m = build_name(v.view()); let n = build_name(to.view()); let k = pn(v, to);
            assert(i1.remote.has_file(w1, m) == i0.remote.has_file(w0, m)); assert(i1.remote.has_file(w1, n) == i0.remote.has_file(w0, n)); assert(i1.remote.has_file(w1, k) == i0.remote.has_file(w0, k));
            if i1.drafted(w1, v, to)(x, d) && d is File && i1.diff(w1, v, to, d->data) {
                let s = choose|s: Seq<u8>| exists|u: Seq<u8>| #[trigger] i1.copy_of(w1, m, s) && #[trigger] i1.copy_of(w1, n, u) && zdec(s) is Some && zdec(u) is Some && bp(zdec(d->data)->0, zdec(s)->0) == zdec(u);
                let u = choose|u: Seq<u8>| #[trigger] i1.copy_of(w1, m, s) && #[trigger] i1.copy_of(w1, n, u) && zdec(s) is Some && zdec(u) is Some && bp(zdec(d->data)->0, zdec(s)->0) == zdec(u);
                Self::lemma_tries_copy(i0, i1, w0, w1, to, v, s); Self::lemma_tries_copy(i0, i1, w0, w1, to, to, u); assert(i0.copy_of(w0, m, s)); assert(i0.copy_of(w0, n, u)); assert(i0.diff(w0, v, to, d->data)); } }
        pub proof fn lemma_tries_copy(i0: Index, i1: Index, w0: World, w1: World, to: Version, v: Version, s: Seq<u8>)
            requires i0.wf(), i1.kin(i0), i0.far(w0, w1), changes(w0, w1, set![i0.dir()], i0.tries(w0, to), no_up()), valid_version(to.view()), valid_version(v.view()), i1.copy_of(w1, build_name(v.view()), s)
            ensures i0.copy_of(w0, build_name(v.view()), s)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::bm); hide(crate::index::graph::PatchGraph::pm); hide(Index::diff); lemma_apart(); lemma_names(); let m = build_name(v.view());
            assert(i1.remote.has_file(w1, m) == i0.remote.has_file(w0, m)); assert(w1.fs().dom().contains(i0.at(m)) || !w1.fs().dom().contains(i0.at(m)));
            assert(named_b(m)); let l = i0.at(m); let e = w1.fs()[l];
            if i0.tries(w0, to)(l, e) && !i0.fetched(w0, build_name(to.view()))(l, e) {
                let u = choose|u: Version| #[trigger] i0.bm().dom().contains(u) && i0.drafted(w0, u, to)(l, e); i0.patch_graph.lemma_valid(); assert(build_name(v.view()) != pn(u, to)); let q = pair_of(pn(u, to)); assert(build_name(v.view()) != pn(q.0, q.1));
                if i0.fetched(w0, build_name(u.view()))(l, e) { } } }
        pub proof fn lemma_keeps(i0: Index, i1: Index, w0: World, w1: World, a: Version, to: Version, n: Seq<char>)
            requires i0.wf(), i1.kin(i0), clear(a, to), i0.far(w0, w1), changes(w0, w1, set![i0.dir()], i0.drafted(w0, a, to), no_up()), simple(n), !is_temp(n)
            ensures i0.free(w0, n) ==> i1.free(w1, n), n != pn(a, to) && i0.usable(w0, n) ==> i1.usable(w1, n), i1.offered(w1, n) == i0.offered(w0, n), n != pn(a, to) && i0.ready(w0, n) ==> i1.ready(w1, n)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm); hide(Index::diff); lemma_names();
            assert(i1.remote.has_file(w1, n) == i0.remote.has_file(w0, n)); assert(w1.fs().dom().contains(i0.at(n)) || !w1.fs().dom().contains(i0.at(n))); }
        pub proof fn lemma_plain_names(a: Version, b: Version)
            requires valid_version(a.view()), valid_version(b.view())
            ensures simple(pn(a, b)), !is_temp(pn(a, b)), simple(build_name(a.view())), !is_temp(build_name(a.view())), pn(a, b) != build_name(a.view()), pn(a, b) != build_name(b.view())
        {   lemma_names(); lemma_apart(); }
        pub proof fn lemma_same_names(i0: Index, i1: Index)
            requires bm_grows(i0.bm(), i1.bm())
            ensures i1.same_names(i0)
        {   hide(crate::index::graph::PatchGraph::bm); assert forall|q: Seq<char>, v: Version| #![trigger i1.named(q, v)] #![trigger i0.named(q, v)] i1.named(q, v) == i0.named(q, v) by { assert(i0.bm().dom().contains(v) == i1.bm().dom().contains(v)); } }
        pub proof fn lemma_try_can(i0: Index, i1: Index, w0: World, w1: World, a: Version, to: Version, g: Seq<char>)
            requires i0.wf(), i1.kin(i0), i0.clean(), i0.bm().dom().contains(a), valid_version(to.view()), i0.far(w0, w1), bm_grows(i0.bm(), i1.bm()), pm_gains(i0.pm(), i1.pm(), (a, to)), changes(w0, w1, set![i0.dir()], i0.drafted(w0, a, to), no_up())
            ensures i0.can_make(w0, g, to) ==> i1.can_make(w1, g, to)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm); hide(changes); hide(Index::drafted); hide(Index::free); hide(Index::usable); hide(Index::ready); hide(crate::names::patch_name); hide(crate::names::build_name); hide(Index::far);
            assert(clear(a, a)); Self::lemma_same_names(i0, i1);
            if i0.can_make(w0, g, to) {
                Self::lemma_plain_names(to, a); Self::lemma_plain_names(a, to); Self::lemma_keeps(i0, i1, w0, w1, a, to, build_name(to.view())); let v = choose|v: Version| #[trigger] i0.named(g, v); assert(i1.named(g, v)); assert(i1.bm().dom().contains(to));
                assert forall|v: Version| #[trigger] i1.named(g, v) implies v != to && i1.ready(w1, build_name(v.view())) && i1.free(w1, pn(v, to)) by {
                    assert(i0.named(g, v)); assert(clear(v, v)); Self::lemma_plain_names(v, to); Self::lemma_other(a, to, v); Self::lemma_keeps(i0, i1, w0, w1, a, to, build_name(v.view())); Self::lemma_keeps(i0, i1, w0, w1, a, to, pn(v, to)); } } }
        /// so does getting the build
        pub proof fn lemma_start(i0: Index, i1: Index, w0: World, w1: World, to: Version, g: Seq<char>)
            requires i0.wf(), i1.kin(i0), i0.clean(), valid_version(to.view()), i0.far(w0, w1), bm_kept(i0.bm(), i1.bm(), to), i1.pm() == i0.pm(), changes(w0, w1, set![i0.dir()], i0.fetched(w0, build_name(to.view())), no_up())
            ensures i0.can_make(w0, g, to) ==> i1.can_make(w1, g, to)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm); hide(Index::fetched_as); hide(Index::diff); hide(Index::can_make); i0.patch_graph.lemma_valid(); 
            if exists|v: Version| #[trigger] i0.named(g, v) { let v = choose|v: Version| #[trigger] i0.named(g, v); assert(changes(w0, w1, set![i0.dir()], i0.drafted(w0, v, to), no_up())); Self::lemma_try_can(i0, i1, w0, w1, v, to, g); }
            else { reveal(Index::can_make); } }
        pub proof fn lemma_other(a: Version, to: Version, v: Version)
            ensures pn(a, to) != build_name(v.view()), clear(a, to) && clear(v, to) && v != a ==> pn(a, to) != pn(v, to)
        {   lemma_apart(); }
        /// making one patch keeps the others, and what is needed for them
        pub proof fn lemma_try_made(i0: Index, i1: Index, w0: World, w1: World, a: Version, to: Version, g: Seq<char>)
            requires i0.wf(), i1.kin(i0), i0.clean(), i0.bm().dom().contains(a), valid_version(to.view()), i0.far(w0, w1), bm_grows(i0.bm(), i1.bm()), pm_gains(i0.pm(), i1.pm(), (a, to)), changes(w0, w1, set![i0.dir()], i0.drafted(w0, a, to), no_up())
            ensures i0.made_tag(w0, g, to) && (i1.made_from(w1, a, to) || (i0.usable(w0, pn(a, to)) && i0.pm().dom().contains((a, to)) ==> i1.usable(w1, pn(a, to)) && i1.pm().dom().contains((a, to)))) ==> i1.made_tag(w1, g, to)
        {   hide(crate::index::graph::PatchGraph::wf); hide(crate::index::graph::PatchGraph::pm); hide(crate::index::graph::PatchGraph::bm); hide(changes); hide(Index::drafted); hide(Index::free); hide(Index::usable); hide(Index::ready); hide(crate::names::patch_name); hide(crate::names::build_name); hide(Index::far);
            assert(clear(a, a)); Self::lemma_same_names(i0, i1);
            if i0.made_tag(w0, g, to) { let v = choose|v: Version| #[trigger] i0.named(g, v) && i0.made_from(w0, v, to); assert(i1.named(g, v)); assert(clear(v, v)); Self::lemma_plain_names(v, to); Self::lemma_plain_names(to, v); Self::lemma_other(a, to, v); Self::lemma_other(a, to, to);
                Self::lemma_keeps(i0, i1, w0, w1, a, to, build_name(v.view()));
                if v != a { Self::lemma_keeps(i0, i1, w0, w1, a, to, pn(v, to)); assert(i0.pm().dom().contains((v, to))); assert(i1.made_from(w1, v, to)); }
                else if i0.usable(w0, pn(a, to)) && i0.pm().dom().contains((a, to)) ==> i1.usable(w1, pn(a, to)) && i1.pm().dom().contains((a, to)) { assert(i1.made_from(w1, v, to)); } } }
        /// both builds, or the patch
        pub open spec fn knows(&self, p: (Version, Version)) -> bool { self.pm().dom().contains(p) || (self.bm().dom().contains(p.0) && self.bm().dom().contains(p.1)) }
        /// a non-empty file of that name can be had
        pub open spec fn ready(&self, w: World, n: Seq<char>) -> bool { self.usable(w, n) || (self.offered(w, n) && self.free(w, n)) }
        /// these patches can be applied one after the other, starting with the one at `n`
        pub open spec fn able_from(&self, w: World, ks: Seq<(Version, Version)>, n: int) -> bool {
            &&& forall|i: int| n <= i < ks.len() ==> self.pm().dom().contains(#[trigger] ks[i]) && self.ready(w, pn(ks[i].0, ks[i].1)) && self.free(w, build_name(ks[i].1.view()))
            &&& 0 <= n < ks.len() ==> self.ready(w, build_name(ks[n].0.view()))
            &&& forall|i: int, j: int| n <= i && j == i + 1 && j < ks.len() ==> (#[trigger] ks[i]).1 == (#[trigger] ks[j]).0
            &&& clears(ks) }
        /// a copy of the remote file of that name
        pub open spec fn fetched(&self, w: World, n: Seq<char>) -> spec_fn(Loc, Node) -> bool { self.fetched_as(w, n, n) }
        pub open spec fn fetched_as(&self, w: World, n: Seq<char>, to: Seq<char>) -> spec_fn(Loc, Node) -> bool { |x: Loc, d: Node| x == self.at(to) && d is File && self.remote.has_file(w, n) && d->data == self.remote.data_of(w, n) && (named_b(n) ==> d->data.len() > 0) } }

fn index::Index::generate_missing_patches()
  requires: false

fn index::Index::get_build_for_tag(tag)
  requires: self.wf()
  proof: crate::git::lemma_texts();
  ensures: r is Ok ==> self.named(tag.view(), r->Ok_0),
    r is Err ==> forall|v: Version| !#[trigger] self.named(tag.view(), v)
  closure 0 returns: bool
  closure 0 proof: assert forall|a: Vec<Str>, b: Vec<Str>| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@) by { if vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) { assert(a@ =~= b@); } }
  closure 0 ensures: r == (crate::git::parts(build.view()) == crate::git::parts(tag.view()))

fn index::Index::get_local_file(path)
  requires: self.wf() && simple(path.view())
  ensures: r is Ok ==> self.is_at(*w, r->Ok_0, path.view()) && self.usable(*w, path.view()),
    w.ok() && self.local.root()->0.utf8() && self.usable(*w, path.view()) ==> r is Ok

fn index::Index::add_build(file)
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm
  proof: lemma_names();
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && final(self).pm() == old(self).pm(),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    changes(*old(w), *final(w), set![old(self).dir()], file_from(old(self).at(bname(*old(w), *file)), *file, *old(w)), no_up()),
    r is Ok ==> valid_version(vname(*old(w), *file)) && final(self).is_at(*final(w), r->Ok_0, bname(*old(w), *file)) && file.gives(*old(w), final(w).fs()[old(self).at(bname(*old(w), *file))]->data)
        && final(self).bm() == put_b(old(self).bm(), ver(vname(*old(w), *file)), r->Ok_0, Location::Local),
    r is Err ==> final(self).bm() == old(self).bm(),
    /*C09 C11 C16 C18*/ !takes(*old(w), *old(self), *file) ==> r is Err && same(*old(w), *final(w)),
    /*C06 C07 C09 C11 C16*/ old(w).ok() && old(self).nice() && takes(*old(w), *old(self), *file) && file.readable(*old(w)) && plain(*old(w), *file) && old(self).free(*old(w), bname(*old(w), *file)) ==> r is Ok


fn index::Index::add_patch(file)
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm
  proof: lemma_names();
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && final(self).bm() == old(self).bm(),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    changes(*old(w), *final(w), set![old(self).dir()], file_from(old(self).at(pfile(fname(*old(w), *file))), *file, *old(w)), no_up()),
    r is Ok ==> ({ let n = fname(*old(w), *file);
        &&& reads(n) && final(self).there(*final(w), pfile(n)) && file.gives(*old(w), final(w).fs()[old(self).at(pfile(n))]->data)
        &&& final(self).local_p(pair_of(n)) is Some && final(self).is_at(*final(w), final(self).local_p(pair_of(n))->0, pfile(n)) && final(self).pm() == put_p(old(self).pm(), pair_of(n), final(self).local_p(pair_of(n))->0, Location::Local) }),
    r is Err ==> final(self).pm() == old(self).pm(),
    /*C09 C11 C16 C18*/ !takes_p(*old(w), *old(self), *file) ==> r is Err && same(*old(w), *final(w)),
    /*C06 C07 C09 C11 C16*/ old(w).ok() && old(self).nice() && takes_p(*old(w), *old(self), *file) && file.readable(*old(w)) && plain(*old(w), *file) && old(self).free(*old(w), pfile(fname(*old(w), *file)))
        && old(self).knows(pair_of(fname(*old(w), *file))) ==> r is Ok

fn index::Index::get_build(version)
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm
  proof: lemma_names(); self.patch_graph.lemma_valid(); Self::lemma_truth_fetch();
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && final(self).pm() == old(self).pm() && bm_kept(old(self).bm(), final(self).bm(), version),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    changes(*old(w), *final(w), set![old(self).dir()], old(self).fetched(*old(w), build_name(version.view())), no_up()),
    old(self).far(*old(w), *final(w)),
    /*C05 C06*/ forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(self).truth(*old(w), t)] #![trigger final(self).truth(*final(w), t)] old(self).truth(*old(w), t) ==> final(self).truth(*final(w), t),
    /*C09 C16 C17*/ !old(self).bm().dom().contains(version) ==> r is Err && same(*old(w), *final(w)) && final(self).bm() == old(self).bm(),
    /*C05 C06 C07 C09 C16 C17*/ r is Ok ==> final(self).is_at(*final(w), r->Ok_0, build_name(version.view())) && final(self).usable(*final(w), build_name(version.view())),
    /*C05 C06 C09*/ r is Ok ==> old(self).copy_of(*old(w), build_name(version.view()), final(w).fs()[old(self).at(build_name(version.view()))]->data),
    /*C05 C09*/ r is Ok ==> (same(*old(w), *final(w)) && final(self).bm() == old(self).bm())
        || (final(w).fs()[old(self).at(build_name(version.view()))]->data == old(self).remote.data_of(*old(w), build_name(version.view())) && final(self).bm() == put_b(old(self).bm(), version, r->Ok_0, Location::Local)),
    /*C06 C07 C09 C16 C17*/ old(w).ok() && old(self).nice() && old(self).bm().dom().contains(version) && old(self).usable(*old(w), build_name(version.view())) ==> r is Ok && same(*old(w), *final(w)) && final(self).bm() == old(self).bm(),
    /*C06 C07 C09 C14 C16 C17*/ old(w).ok() && old(self).nice() && old(self).bm().dom().contains(version) && old(self).offered(*old(w), build_name(version.view())) && old(self).free(*old(w), build_name(version.view())) ==> r is Ok

fn index::Index::get_patch(from, to)
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm
  proof: lemma_names(); self.patch_graph.lemma_valid(); Self::lemma_truth_fetch();
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && final(self).bm() == old(self).bm() && (clear(from, to) ==> pm_kept(old(self).pm(), final(self).pm(), (from, to))),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    changes(*old(w), *final(w), set![old(self).dir()], old(self).fetched_as(*old(w), pn(from, to), pfile(pn(from, to))), no_up()),
    old(self).far(*old(w), *final(w)),
    /*C05 C06*/ forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(self).truth(*old(w), t)] #![trigger final(self).truth(*final(w), t)] old(self).truth(*old(w), t) ==> final(self).truth(*final(w), t),
    /*C09 C16*/ !old(self).pm().dom().contains((from, to)) ==> r is Err && same(*old(w), *final(w)) && final(self).pm() == old(self).pm(),
    /*C05 C06 C09 C16*/ r is Ok ==> final(self).is_at(*final(w), r->Ok_0, pn(from, to)) && final(self).usable(*final(w), pn(from, to)),
    /*C05 C09 C16*/ r is Ok ==> (same(*old(w), *final(w)) && final(self).pm() == old(self).pm()) || !clear(from, to)
        || (final(w).fs()[old(self).at(pn(from, to))]->data == old(self).remote.data_of(*old(w), pn(from, to)) && final(self).pm() == put_p(old(self).pm(), (from, to), r->Ok_0, Location::Local)),
    /*C06 C09 C16*/ old(w).ok() && old(self).nice() && old(self).pm().dom().contains((from, to)) && old(self).usable(*old(w), pn(from, to)) ==> r is Ok && same(*old(w), *final(w)) && final(self).pm() == old(self).pm(),
    /*C06 C09 C14 C16*/ old(w).ok() && old(self).nice() && clear(from, to) && old(self).pm().dom().contains((from, to)) && old(self).offered(*old(w), pn(from, to)) && old(self).free(*old(w), pn(from, to)) ==> r is Ok

fn index::Index::add_local_build(path)
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm
  proof: lemma_names();
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && final(self).pm() == old(self).pm(),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    changes(*old(w), *final(w), set![old(self).dir()], old(self).added(*old(w), path.as_ref_spec().view()), no_up()),
    r is Ok ==> src(*old(w), path.as_ref_spec().view()) is Some && ({ let s = src(*old(w), path.as_ref_spec().view())->0; let v = base_name(s.1);
        &&& valid_version(v) && final(self).is_at(*final(w), r->Ok_0, build_name(v)) && (old(w).fs()[s] is File ==> final(self).usable(*final(w), build_name(v)) && final(w).fs()[old(self).at(build_name(v))]->data == old(w).fs()[s]->data)
        &&& final(self).bm() == put_b(old(self).bm(), ver(v), r->Ok_0, Location::Local) }),
    r is Err ==> final(self).bm() == old(self).bm(),
    old(self).rejects(*old(w), path.as_ref_spec().view()) ==> r is Err && same(*old(w), *final(w)),
    old(self).far(*old(w), *final(w)),
    old(w).ok() && old(self).nice() && loc(path.as_ref_spec().view()) == src(*old(w), path.as_ref_spec().view())->0 && path.as_ref_spec().name_utf8() && ({ let s = src(*old(w), path.as_ref_spec().view()); s is Some && old(w).fs()[s->0] is File && old(w).fs()[s->0]->data.len() > 0 && crate::std_::path::utf8_dir((s->0).0)
        && valid_version(base_name((s->0).1)) && !crate::std_::path::pstarts(pjoin((s->0).0, (s->0).1), old(self).dir()) && old(self).free(*old(w), build_name(base_name((s->0).1))) }) ==> r is Ok

fn index::Index::new(local, remote)
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, crate::storage::Storage::listing, crate::storage::Storage::patches, crate::storage::Storage::is_of, crate::storage::Storage::offers, crate::storage::Storage::tidy, merged_b, merged_p, crate::index::graph::bsel, crate::index::graph::psel, Index::exact_b, Index::exact_p, crate::index::graph::is_build, crate::index::graph::is_patch, crate::index::graph::build_named, crate::index::graph::patch_named
  proof: Self::lemma_new(*w); Storage::lemma_tidies(*w); Self::lemma_tracks(*w);
  requires: Self::apart_at(*w, local.as_ref_spec().view(), remote)
  ensures: r is Ok ==> r->Ok_0.wf() && r->Ok_0.remote == remote && crate::std_::path::canon_post(w.fs(), local.as_ref_spec().view(), r->Ok_0.dir()),
    r is Ok ==> r->Ok_0.exact_b(*w),
    r is Ok ==> r->Ok_0.exact_p(*w),
    r is Ok ==> r->Ok_0.tracks(*w),
    w.ok() && ({ let p = local.as_ref_spec().view(); pname(p) is Some && crate::std_::fs::leads_dir(w.fs(), p) && crate::std_::path::utf8_dir(cdir(p)) && (forall|s: Storage| crate::std_::path::canon_post(w.fs(), p, s.root()->0.view()) ==> #[trigger] s.tidy(*w)) })
        && remote.tidy(*w) && (remote.root() is Some ==> is_dir(remote.root()->0.view()) && crate::std_::path::utf8_dir(cdir(remote.root()->0.view()))) ==> r is Ok

fn index::Index::add_build_from_patch(patch)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(40)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, Index::truth, Index::copy_of
  proof: lemma_names(); lemma_apart(); self.patch_graph.lemma_valid(); Self::lemma_truth_made(patch.from, patch.to); Self::lemma_truth_use(patch.from, patch.to);
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && bm_grows(old(self).bm(), final(self).bm()),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    clear(patch.from, patch.to) ==> final(self).pm().dom() =~= old(self).pm().dom(),
    changes(*old(w), *final(w), set![old(self).dir()], old(self).step(*old(w), patch.from, patch.to), no_up()),
    old(self).far(*old(w), *final(w)),
    !old(self).pm().dom().contains((patch.from, patch.to)) ==> r is Err && same(*old(w), *final(w)),
    forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(self).truth(*old(w), t)] #![trigger final(self).truth(*final(w), t)] old(self).truth(*old(w), t) ==> final(self).truth(*final(w), t),
    r is Ok ==> final(self).usable(*final(w), pn(patch.from, patch.to)),
    r is Ok ==> final(self).is_at(*final(w), r->Ok_0, build_name(patch.to.view())) && final(self).usable(*final(w), build_name(patch.to.view())),
    old(w).ok() && old(self).nice() && old(self).free(*old(w), build_name(patch.to.view())) && old(self).pm().dom().contains((patch.from, patch.to)) && old(self).ready(*old(w), pn(patch.from, patch.to)) && old(self).ready(*old(w), build_name(patch.from.view())) ==>
        forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(self).truth(*old(w), t) ==> r is Ok

fn index::Index::upgrade_to_build::apply_patches(index, needed_patches)
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, Index::truth, Index::copy_of, Index::able_from
  proof: lemma_names(); lemma_apart();
  requires: old(index).wf()
  ensures: final(index).wf() && final(index).kin(*old(index)) && bm_grows(old(index).bm(), final(index).bm()),
    old(index).tracks(*old(w)) ==> final(index).tracks(*final(w)),
    clears(keys(needed_patches@)) ==> final(index).pm().dom() =~= old(index).pm().dom(),
    changes(*old(w), *final(w), set![old(index).dir()], old(index).by_patches(*old(w), keys(needed_patches@)), no_up()),
    old(index).far(*old(w), *final(w)),
    forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(index).truth(*old(w), t)] #![trigger final(index).truth(*final(w), t)] old(index).truth(*old(w), t) ==> final(index).truth(*final(w), t),
    r is Ok && needed_patches@.len() > 0 ==> final(index).usable(*final(w), build_name(needed_patches@.last().to.view())),
    old(w).ok() && old(index).nice() && old(index).able_from(*old(w), keys(needed_patches@), 0) ==> forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(index).truth(*old(w), t) ==> r is Ok
  loop 0 invariant: old(index).wf(), it0_all.len() == needed_patches@.len(), forall|i: int| 0 <= i < it0_all.len() ==> *#[trigger] it0_all[i] == needed_patches@[i],
    old(index).tracks(*old(w)) ==> index.tracks(*w),
    index.wf() && index.kin(*old(index)) && bm_grows(old(index).bm(), index.bm()),
    clears(keys(needed_patches@)) ==> index.pm().dom() =~= old(index).pm().dom(),
    changes(*old(w), *w, set![old(index).dir()], old(index).by_patches(*old(w), keys(needed_patches@)), no_up()),
    old(index).far(*old(w), *w),
    forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(index).truth(*old(w), t)] #![trigger index.truth(*w, t)] old(index).truth(*old(w), t) ==> index.truth(*w, t),
    it0_n > 0 ==> index.usable(*w, build_name(needed_patches@[it0_n - 1].to.view())),
    old(w).ok() && old(index).nice() && old(index).able_from(*old(w), keys(needed_patches@), 0) ==> forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(index).truth(*old(w), t) ==> index.able_from(*w, keys(needed_patches@), it0_n)
  loop 0 proof: assert(keys(needed_patches@)[it0_n - 1] == (patch.from, patch.to)); old(index).lemma_by_patch(*old(w), keys(needed_patches@), it0_n - 1); lemma_valid(); Index::lemma_able(keys(needed_patches@), it0_n);

fn index::Index::upgrade_to_build(from, to)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(40)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, Index::truth, Index::copy_of, Index::able_from
  proof: lemma_names(); lemma_apart(); self.patch_graph.lemma_valid(); self.lemma_skip(*w); Self::lemma_truth_build(to); Self::lemma_ready(to);
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && bm_grows(old(self).bm(), final(self).bm()),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    /*C06 C07*/ !old(self).bm().dom().contains(to) ==> r is Err && same(*old(w), *final(w)),
    changes(*old(w), *final(w), set![old(self).dir()], old(self).upgraded(*old(w), from, to), no_up()),
    /*C04*/ (forall|ks: Seq<(Version, Version)>| !#[trigger] old(self).cheap(ks, from, to)) ==> changes(*old(w), *final(w), set![old(self).dir()], old(self).fetched(*old(w), build_name(to.view())), no_up()),
    old(self).far(*old(w), *final(w)),
    /*C05 C06*/ forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(self).truth(*old(w), t)] #![trigger final(self).truth(*final(w), t)] old(self).truth(*old(w), t) ==> final(self).truth(*final(w), t),
    /*C05 C06 C07*/ r is Ok ==> final(self).is_at(*final(w), r->Ok_0, build_name(to.view())) && final(self).usable(*final(w), build_name(to.view())),
    /*C05 C06*/ r is Ok ==> forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(self).truth(*old(w), t) ==> zdec(final(w).fs()[old(self).at(build_name(to.view()))]->data) == Some(t(to)),
    /*C06 C07*/ old(w).ok() && old(self).nice() && old(self).bm().dom().contains(to) && old(self).ready(*old(w), build_name(to.view())) ==> r is Ok,
    /*C04*/ old(w).ok() && old(self).nice() && from != to && old(self).tracks_b(*old(w)) && (exists|ks: Seq<(Version, Version)>| #[trigger] old(self).cheap(ks, from, to)) && (forall|ks: Seq<(Version, Version)>| #[trigger] old(self).cheap(ks, from, to) ==> old(self).able_from(*old(w), ks, 0))
        ==> forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(self).truth(*old(w), t) ==> r is Ok && changes(*old(w), *final(w), set![old(self).dir()], old(self).chained(*old(w), from, to), no_up())
  closure 0 ensures: r == (self.patch_graph.bm().dom().contains(patch.to) && self.patch_graph.bm()[patch.to].local is Some)
  closure 0 returns: bool

fn index::Index::calculate_patch::read_file(entry)
  ensures: r is Ok ==> entry.storage.root() is Some && (crate::apply_patch::is_file(*w, entry.path.view()) ==> r->Ok_0@ == w.fs()[deref(w.fs(), loc(entry.path.view()))->0]->data),
    w.ok() && entry.storage.root() is Some && crate::apply_patch::is_file(*w, entry.path.view()) ==> r is Ok

fn index::Index::calculate_patch(from, to)
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, Index::truth, Index::copy_of
  proof: lemma_names(); lemma_apart(); self.patch_graph.lemma_valid(); Self::lemma_truth_diff(from, to); Self::lemma_back(); Self::lemma_truth_copy();
  requires: old(self).wf()
  ensures: final(self).wf() && final(self).kin(*old(self)) && bm_grows(old(self).bm(), final(self).bm()),
    old(self).tracks(*old(w)) ==> final(self).tracks(*final(w)),
    /*C16 C17*/ clear(from, to) ==> pm_gains(old(self).pm(), final(self).pm(), (from, to)) && (old(self).pm().dom().contains((from, to)) ==> final(self).pm().dom().contains((from, to))),
    /*C16*/ from == to ==> r is Err && same(*old(w), *final(w)),
    /*C16 C17*/ !old(self).knows((from, to)) ==> r is Err,
    changes(*old(w), *final(w), set![old(self).dir()], old(self).drafted(*old(w), from, to), no_up()),
    /*C16*/ old(w).ok() && old(self).nice() && old(self).usable(*old(w), build_name(to.view())) ==> kept_at(*old(w), *final(w), old(self).at(build_name(to.view()))),
    old(self).far(*old(w), *final(w)),
    /*C05*/ clear(from, to) ==> forall|t: spec_fn(Version) -> Seq<u8>| #![trigger old(self).truth(*old(w), t)] #![trigger final(self).truth(*final(w), t)] old(self).truth(*old(w), t) ==> final(self).truth(*final(w), t),
    /*C05 C16 C17*/ r is Ok ==> final(self).usable(*final(w), pn(from, to)) && (clear(from, to) ==> final(self).pm().dom().contains((from, to))),
    /*C05 C16*/ r is Ok && !old(self).pm().dom().contains((from, to)) ==> old(self).diff(*old(w), from, to, final(w).fs()[old(self).at(pn(from, to))]->data) && final(self).is_at(*final(w), final(self).pm()[(from, to)].local->0, pn(from, to)) && final(self).pm()[(from, to)].local is Some,
    /*C16 C17*/ old(w).ok() && old(self).nice() && from != to && old(self).pm().dom().contains((from, to)) && clear(from, to) && old(self).ready(*old(w), pn(from, to)) ==> r is Ok && changes(*old(w), *final(w), set![old(self).dir()], old(self).fetched_as(*old(w), pn(from, to), pfile(pn(from, to))), no_up()),
    /*C16 C17*/ old(w).ok() && old(self).nice() && from != to && clear(from, to) && old(self).bm().dom().contains(from) && old(self).bm().dom().contains(to) && old(self).ready(*old(w), build_name(from.view())) && old(self).ready(*old(w), build_name(to.view())) && old(self).free(*old(w), pn(from, to))
        ==> forall|t: spec_fn(Version) -> Seq<u8>| #[trigger] old(self).truth(*old(w), t) && t(from).len() > 0 && t(to).len() > 0 ==> r is Ok

fn index::Index::push()
  attr: #[verifier::spinoff_prover]
  hide: crate::index::graph::PatchGraph::wf, crate::index::graph::PatchGraph::bm, crate::index::graph::PatchGraph::pm, Index::owed
  proof: Self::lemma_keys(); self.lemma_owed(); crate::text::lemma_name_of_path();
  requires: self.wf() && self.tracks(*old(w))
  ensures: changes(*old(w), *final(w), self.remote_dirs(), self.sent_file(*old(w)), self.sent_up(*old(w))),
    r is Ok ==> forall|n: Seq<char>| #[trigger] self.owed(n) ==> self.stored(*old(w), *final(w), n),
    old(w).ok() && self.nice() && self.unblocked(*old(w)) ==> r is Ok
  closure 0 returns: Result<Entry>
  closure 0 ensures: r is Ok <==> b.local is Some, r is Ok ==> r->Ok_0 == b.local->0
  closure 1 returns: Result<Entry>
  closure 1 ensures: r is Ok <==> b.local is Some, r is Ok ==> r->Ok_0 == b.local->0
  loop 0 invariant: self.wf() && self.tracks(*old(w)),
    changes(*old(w), *w, self.remote_dirs(), self.sent_file(*old(w)), self.sent_up(*old(w))),
    forall|i: int| 0 <= i < it0_all.len() ==> self.tracked(*old(w), #[trigger] it0_all[i]) && self.owed(pname(it0_all[i].path.view())->0),
    forall|v: Version| #[trigger] self.owed_b(v) ==> it0_all.contains(self.bm()[v].local->0),
    forall|v: (Version, Version)| #[trigger] self.owed_p(v) ==> it0_all.contains(self.pm()[v].local->0),
    forall|i: int| 0 <= i < it0_n ==> self.stored(*old(w), *w, pname((#[trigger] it0_all[i]).path.view())->0)
  loop 0 proof: Self::lemma_keys(); crate::text::lemma_name_of_path(); assert(entry == it0_all[it0_n - 1]); self.lemma_sent(*old(w), *w);
