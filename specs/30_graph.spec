# ------------------------------------------------------------------ the graph: what is known
type index::graph::PatchGraph
  default ensures: r.wf() && r.bm() =~= Map::<Version, Build>::empty() && r.pm() =~= Map::<(Version, Version), Patch>::empty()
  items:
    /// a build file or a patch file, by name and size
    pub open spec fn is_build(e: Entry) -> bool { ends(e.path.view(), tar_zst()) && e.size > 0 }
    pub open spec fn is_patch(e: Entry) -> bool { ends(e.path.view(), d_patch() + d_zst()) && e.size > 0 }
    pub open spec fn bsel(es: Seq<Entry>) -> Seq<Entry> { sel(es, |e: Entry| is_build(e)) }
    pub open spec fn psel(es: Seq<Entry>) -> Seq<Entry> { sel(es, |e: Entry| is_patch(e)) }
    /// the version that a build file is of
    pub open spec fn build_of(e: Entry) -> Version { Version { data: mk(base_name(pname(e.path.view())->0)) } }
    pub open spec fn build_named(e: Entry) -> bool { pname(e.path.view()) is Some && valid_version(base_name(pname(e.path.view())->0)) }
    /// the versions that a patch file is for
    pub open spec fn patch_of(e: Entry) -> (Version, Version) { let t = parse_stem(base_name(pname(e.path.view())->0))->0; (Version { data: mk(t.0) }, Version { data: mk(t.1) }) }
    pub open spec fn patch_named(e: Entry) -> bool { pname(e.path.view()) is Some && parse_stem(base_name(pname(e.path.view())->0)) is Some }
    pub open spec fn put_b(m: Map<Version, Build>, v: Version, e: Entry, l: Location) -> Map<Version, Build> {
        let b = if m.dom().contains(v) { m[v] } else { Build { version: v, local: None, remote: None } };
        m.insert(v, match l { Location::Local => Build { version: b.version, local: Some(e), remote: b.remote }, Location::Remote => Build { version: b.version, local: b.local, remote: Some(e) } }) }
    pub open spec fn put_p(m: Map<(Version, Version), Patch>, v: (Version, Version), e: Entry, l: Location) -> Map<(Version, Version), Patch> {
        let b = if m.dom().contains(v) { m[v] } else { Patch { from: v.0, to: v.1, local: None, remote: None } };
        m.insert(v, match l { Location::Local => Patch { from: b.from, to: b.to, local: Some(e), remote: b.remote }, Location::Remote => Patch { from: b.from, to: b.to, local: b.local, remote: Some(e) } }) }
    pub open spec fn slot_b(b: Build, l: Location) -> Option<Entry> { match l { Location::Local => b.local, Location::Remote => b.remote } }
    pub open spec fn slot_p(b: Patch, l: Location) -> Option<Entry> { match l { Location::Local => b.local, Location::Remote => b.remote } }
    pub open spec fn other(l: Location) -> Location { match l { Location::Local => Location::Remote, Location::Remote => Location::Local } }
    /// one of these files is of this build
    pub open spec fn has_b(es: Seq<Entry>, v: Version) -> bool { exists|e: Entry| #[trigger] es.contains(e) && build_of(e) == v }
    pub open spec fn has_p(es: Seq<Entry>, v: (Version, Version)) -> bool { exists|e: Entry| #[trigger] es.contains(e) && patch_of(e) == v }
    /// exactly the build files `es` were added to what was known
    pub open spec fn merged_b(m0: Map<Version, Build>, m1: Map<Version, Build>, es: Seq<Entry>, l: Location) -> bool {
        &&& forall|v: Version| #[trigger] m1.dom().contains(v) <==> m0.dom().contains(v) || has_b(es, v)
        &&& forall|v: Version| #[trigger] m1.dom().contains(v) ==> slot_b(m1[v], other(l)) == (if m0.dom().contains(v) { slot_b(m0[v], other(l)) } else { None })
        &&& forall|v: Version| #[trigger] m1.dom().contains(v) && !has_b(es, v) ==> slot_b(m1[v], l) == slot_b(m0[v], l)
        &&& forall|v: Version| #[trigger] m1.dom().contains(v) && has_b(es, v) ==> slot_b(m1[v], l) is Some && es.contains(slot_b(m1[v], l)->0) && build_of(slot_b(m1[v], l)->0) == v }
    /// exactly those of the patch files `es` were added whose builds are both known
    pub open spec fn merged_p(bm: Map<Version, Build>, m0: Map<(Version, Version), Patch>, m1: Map<(Version, Version), Patch>, es: Seq<Entry>, l: Location) -> bool {
        &&& forall|v: (Version, Version)| #[trigger] m1.dom().contains(v) <==> m0.dom().contains(v) || (has_p(es, v) && bm.dom().contains(v.0) && bm.dom().contains(v.1))
        &&& forall|v: (Version, Version)| #[trigger] m1.dom().contains(v) ==> slot_p(m1[v], other(l)) == (if m0.dom().contains(v) { slot_p(m0[v], other(l)) } else { None })
        &&& forall|v: (Version, Version)| #[trigger] m1.dom().contains(v) && !has_p(es, v) ==> slot_p(m1[v], l) == slot_p(m0[v], l)
        &&& forall|v: (Version, Version)| #[trigger] m1.dom().contains(v) && has_p(es, v) ==> slot_p(m1[v], l) is Some && es.contains(slot_p(m1[v], l)->0) && patch_of(slot_p(m1[v], l)->0) == v }
    pub proof fn lemma_merge_b(m0: Map<Version, Build>, m1: Map<Version, Build>, es: Seq<Entry>, e: Entry, l: Location)
        requires merged_b(m0, m1, es, l)
        ensures merged_b(m0, put_b(m1, build_of(e), e, l), es.push(e), l)
    {   let fs = es.push(e);
        assert forall|x: Entry| #[trigger] fs.contains(x) <==> es.contains(x) || x == e by { if es.contains(x) { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(fs[i] == x); } if x == e { assert(fs[es.len() as int] == e); } }
        assert forall|v: Version| #[trigger] has_b(fs, v) <==> has_b(es, v) || v == build_of(e) by { if has_b(es, v) { let x = choose|x: Entry| #[trigger] es.contains(x) && build_of(x) == v; assert(fs.contains(x)); } assert(fs.contains(e)); } }
    pub proof fn lemma_merge_p(bm: Map<Version, Build>, m0: Map<(Version, Version), Patch>, m1: Map<(Version, Version), Patch>, es: Seq<Entry>, e: Entry, l: Location)
        requires merged_p(bm, m0, m1, es, l)
        ensures m1.dom().contains(patch_of(e)) || (bm.dom().contains(patch_of(e).0) && bm.dom().contains(patch_of(e).1)) ==> merged_p(bm, m0, put_p(m1, patch_of(e), e, l), es.push(e), l),
            !m1.dom().contains(patch_of(e)) && !(bm.dom().contains(patch_of(e).0) && bm.dom().contains(patch_of(e).1)) ==> merged_p(bm, m0, m1, es.push(e), l)
    {   let fs = es.push(e);
        assert forall|x: Entry| #[trigger] fs.contains(x) <==> es.contains(x) || x == e by { if es.contains(x) { let i = choose|i: int| 0 <= i < es.len() && es[i] == x; assert(fs[i] == x); } if x == e { assert(fs[es.len() as int] == e); } }
        assert forall|v: (Version, Version)| #[trigger] has_p(fs, v) <==> has_p(es, v) || v == patch_of(e) by { if has_p(es, v) { let x = choose|x: Entry| #[trigger] es.contains(x) && patch_of(x) == v; assert(fs.contains(x)); } assert(fs.contains(e)); } }
    pub open spec fn alike(a: Seq<Entry>, b: Seq<Entry>) -> bool { forall|e: Entry| #![trigger a.contains(e)] #![trigger b.contains(e)] a.contains(e) <==> b.contains(e) }
    pub proof fn lemma_alike(a: Seq<Entry>, b: Seq<Entry>) requires alike(a, b)
        ensures forall|v: Version| has_b(a, v) == has_b(b, v), forall|v: (Version, Version)| has_p(a, v) == has_p(b, v) {
        assert forall|v: Version| has_b(a, v) == has_b(b, v) by { if has_b(a, v) { let x = choose|x: Entry| #[trigger] a.contains(x) && build_of(x) == v; assert(b.contains(x)); } if has_b(b, v) { let x = choose|x: Entry| #[trigger] b.contains(x) && build_of(x) == v; assert(a.contains(x)); } }
        assert forall|v: (Version, Version)| has_p(a, v) == has_p(b, v) by { if has_p(a, v) { let x = choose|x: Entry| #[trigger] a.contains(x) && patch_of(x) == v; assert(b.contains(x)); } if has_p(b, v) { let x = choose|x: Entry| #[trigger] b.contains(x) && patch_of(x) == v; assert(a.contains(x)); } } }
    /// a way from `a` to `b` over known patches
    pub open spec fn chain(pm: Map<(Version, Version), Patch>, ks: Seq<(Version, Version)>, a: Version, b: Version) -> bool {
        if ks.len() == 0 { a == b } else {
            &&& ks[0].0 == a && ks.last().1 == b
            &&& forall|i: int| 0 <= i < ks.len() ==> pm.dom().contains(#[trigger] ks[i])
            &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < ks.len() ==> (#[trigger] ks[i]).1 == (#[trigger] ks[j]).0 } }
    /// the sizes of these patches, together
    pub open spec fn cost(pm: Map<(Version, Version), Patch>, ks: Seq<(Version, Version)>) -> int decreases ks.len() {
        if ks.len() == 0 { 0 } else { cost(pm, ks.drop_last()) + pm[ks.last()].sp_size() as int } }
    pub open spec fn keys(ps: Seq<Patch>) -> Seq<(Version, Version)> { ps.map_values(|p: Patch| (p.from, p.to)) }
    /// a cheapest way
    pub open spec fn cheapest(pm: Map<(Version, Version), Patch>, ks: Seq<(Version, Version)>, a: Version, b: Version) -> bool {
        chain(pm, ks, a, b) && forall|o: Seq<(Version, Version)>| #[trigger] chain(pm, o, a, b) ==> cost(pm, ks) <= cost(pm, o) }
    pub proof fn lemma_exts(s: Seq<char>)
        ensures ends(s, tar_zst()) || ends(s, d_patch() + d_zst()) ==> !ends(s, seq!['/'])
    {   if ends(s, tar_zst()) { assert(s.subrange(s.len() - 8, s.len() as int)[7] == 't'); crate::text::lemma_at_char(s, '/', s.len() - 1); }
        if ends(s, d_patch() + d_zst()) { assert((d_patch() + d_zst())[9] == 't'); assert(s.subrange(s.len() - 10, s.len() as int)[9] == 't'); crate::text::lemma_at_char(s, '/', s.len() - 1); } }
    impl PatchGraph {
        /// the two tables and the graph say the same
        pub open spec fn wf(&self) -> bool {
            let g = self.graph; let bs = self.builds.view(); let ps = self.patches.view();
            &&& g.wf()
            &&& forall|v: Version| #[trigger] bs.dom().contains(v) ==> valid_version(v.view())
            &&& forall|v: Version| #[trigger] bs.dom().contains(v) ==> 0 <= bs[v].ix() < g.nodes().len() && g.nodes()[bs[v].ix()].version == v
            &&& forall|i: int| 0 <= i < g.nodes().len() ==> bs.dom().contains((#[trigger] g.nodes()[i]).version) && bs[g.nodes()[i].version].ix() == i
            &&& forall|i: int| 0 <= i < g.nodes().len() ==> (#[trigger] g.nodes()[i]).local is Some || g.nodes()[i].remote is Some
            &&& forall|v: (Version, Version)| #[trigger] ps.dom().contains(v) ==> 0 <= ps[v].ix() < g.edges().len() && g.edges()[ps[v].ix()].from == v.0 && g.edges()[ps[v].ix()].to == v.1
            &&& forall|i: int| 0 <= i < g.edges().len() ==> ps.dom().contains(((#[trigger] g.edges()[i]).from, g.edges()[i].to)) && ps[(g.edges()[i].from, g.edges()[i].to)].ix() == i
            &&& forall|i: int| 0 <= i < g.edges().len() ==> (#[trigger] g.edges()[i]).local is Some || g.edges()[i].remote is Some
            &&& forall|i: int| 0 <= i < g.edges().len() ==> (#[trigger] g.edges()[i]).from == g.nodes()[g.src()[i]].version && g.edges()[i].to == g.nodes()[g.dst()[i]].version }
        pub proof fn lemma_valid(&self) requires self.wf() ensures forall|v: Version| #[trigger] self.bm().dom().contains(v) ==> valid_version(v.view()),
            forall|v: (Version, Version)| #[trigger] self.pm().dom().contains(v) ==> valid_version(v.0.view()) && valid_version(v.1.view()) && self.bm().dom().contains(v.0) && self.bm().dom().contains(v.1) {}
        /// what each edge costs
        pub open spec fn sizes(&self) -> spec_fn(int) -> int { |i: int| self.graph.edges()[i].sp_size() as int }
        pub open spec fn kseq(&self, es: Seq<int>) -> Seq<(Version, Version)> { es.map_values(|e: int| (self.graph.edges()[e].from, self.graph.edges()[e].to)) }
        pub open spec fn eseq(&self, ks: Seq<(Version, Version)>) -> Seq<int> { ks.map_values(|k: (Version, Version)| self.patches.view()[k].ix()) }
        pub proof fn lemma_kseq(&self, es: Seq<int>)
            requires self.wf(), forall|i: int| 0 <= i < es.len() ==> 0 <= #[trigger] es[i] < self.graph.edges().len()
            ensures crate::petgraph::graph::total(self.sizes(), es) == cost(self.pm(), self.kseq(es)), forall|i: int| 0 <= i < es.len() ==> self.pm().dom().contains(#[trigger] self.kseq(es)[i])
            decreases es.len()
        {   if es.len() > 0 { self.lemma_kseq(es.drop_last()); assert(self.kseq(es.drop_last()) =~= self.kseq(es).drop_last());
                assert forall|i: int| 0 <= i < es.len() implies self.pm().dom().contains(#[trigger] self.kseq(es)[i]) by { let e = self.graph.edges()[es[i]]; assert(self.patches.view().dom().contains((e.from, e.to))); }
                let k = self.kseq(es).last(); assert(k == self.kseq(es)[es.len() - 1]); let e = self.graph.edges()[es.last()]; assert(self.pm()[k] == e); } }
        pub proof fn lemma_eseq(&self, ks: Seq<(Version, Version)>, a: int, b: int)
            requires self.wf(), 0 <= a < self.graph.nodes().len(), 0 <= b < self.graph.nodes().len(), chain(self.pm(), ks, self.graph.nodes()[a].version, self.graph.nodes()[b].version)
            ensures self.graph.route(self.eseq(ks), a, b), self.kseq(self.eseq(ks)) =~= ks, crate::petgraph::graph::total(self.sizes(), self.eseq(ks)) == cost(self.pm(), ks)
        {   let es = self.eseq(ks); let g = self.graph;
            assert(g.nodes()[a].version == g.nodes()[b].version ==> a == b);
            assert forall|i: int| 0 <= i < es.len() implies 0 <= #[trigger] es[i] < g.edges().len() && self.kseq(es)[i] == ks[i] && g.nodes()[g.src()[es[i]]].version == ks[i].0 && g.nodes()[g.dst()[es[i]]].version == ks[i].1 by { assert(self.pm().dom().contains(ks[i])); assert(self.patches.view().dom().contains(ks[i])); }
            assert(self.kseq(es) =~= ks); self.lemma_kseq(es);
            if ks.len() > 0 {
                assert(0 <= es[0] < g.edges().len()); assert(0 <= es.last() < g.edges().len());
                assert(g.nodes()[g.src()[es[0]]].version == g.nodes()[a].version); assert(g.nodes()[g.dst()[es.last()]].version == g.nodes()[b].version);
                assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < es.len() implies g.dst()[#[trigger] es[i]] == g.src()[#[trigger] es[j]] by { assert(ks[i].1 == ks[j].0); let x = g.dst()[es[i]]; let y = g.src()[es[j]]; assert(g.nodes()[x].version == g.nodes()[y].version); } } }
        /// what a search of the graph says about the known patches
        pub proof fn lemma_search(&self)
            requires self.wf()
            ensures forall|a: int, b: int, o: Seq<(Version, Version)>| #![trigger hint((a, b)), cost(self.pm(), o)] hint((a, b)) && 0 <= a < self.graph.nodes().len() && 0 <= b < self.graph.nodes().len() && chain(self.pm(), o, self.graph.nodes()[a].version, self.graph.nodes()[b].version) ==> self.graph.route(self.eseq(o), a, b) && crate::petgraph::graph::total(self.sizes(), self.eseq(o)) == cost(self.pm(), o),
                forall|a: int, b: int, cost: int, steps: Seq<NodeIndex>, es: Seq<int>, ps: Seq<Patch>| #![trigger crate::petgraph::algo::best(&self.graph, a, b, self.sizes(), cost, steps, es), keys(ps)]
                    0 <= a < self.graph.nodes().len() && 0 <= b < self.graph.nodes().len() && crate::petgraph::algo::best(&self.graph, a, b, self.sizes(), cost, steps, es) && ps.len() == es.len()
                    && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).from == self.graph.nodes()[steps[i].ix()].version && ps[i].to == self.graph.nodes()[steps[i + 1].ix()].version)
                    ==> cheapest(self.pm(), keys(ps), self.graph.nodes()[a].version, self.graph.nodes()[b].version) && cost == crate::index::graph::cost(self.pm(), keys(ps)),
                forall|a: int, b: int| #![trigger hint((a, b))] hint((a, b)) && 0 <= a < self.graph.nodes().len() && 0 <= b < self.graph.nodes().len() && (forall|o: Seq<int>| !#[trigger] self.graph.route(o, a, b)) ==> forall|o: Seq<(Version, Version)>| !#[trigger] chain(self.pm(), o, self.graph.nodes()[a].version, self.graph.nodes()[b].version)
        {   let g = self.graph;
            assert forall|a: int, b: int, o: Seq<(Version, Version)>| #![trigger hint((a, b)), cost(self.pm(), o)] hint((a, b)) && 0 <= a < g.nodes().len() && 0 <= b < g.nodes().len() && chain(self.pm(), o, g.nodes()[a].version, g.nodes()[b].version) implies g.route(self.eseq(o), a, b) && crate::petgraph::graph::total(self.sizes(), self.eseq(o)) == cost(self.pm(), o) by { self.lemma_eseq(o, a, b); }
            assert forall|a: int, b: int| #![trigger hint((a, b))] hint((a, b)) && 0 <= a < g.nodes().len() && 0 <= b < g.nodes().len() && (forall|o: Seq<int>| !#[trigger] g.route(o, a, b)) implies forall|o: Seq<(Version, Version)>| !#[trigger] chain(self.pm(), o, g.nodes()[a].version, g.nodes()[b].version) by {
                assert forall|o: Seq<(Version, Version)>| !#[trigger] chain(self.pm(), o, g.nodes()[a].version, g.nodes()[b].version) by { if chain(self.pm(), o, g.nodes()[a].version, g.nodes()[b].version) { self.lemma_eseq(o, a, b); } } }
            assert forall|a: int, b: int, cost: int, steps: Seq<NodeIndex>, es: Seq<int>, ps: Seq<Patch>| #![trigger crate::petgraph::algo::best(&self.graph, a, b, self.sizes(), cost, steps, es), keys(ps)]
                    0 <= a < g.nodes().len() && 0 <= b < g.nodes().len() && crate::petgraph::algo::best(&self.graph, a, b, self.sizes(), cost, steps, es) && ps.len() == es.len()
                    && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).from == g.nodes()[steps[i].ix()].version && ps[i].to == g.nodes()[steps[i + 1].ix()].version)
                    implies cheapest(self.pm(), keys(ps), g.nodes()[a].version, g.nodes()[b].version) && cost == crate::index::graph::cost(self.pm(), keys(ps)) by {
                self.lemma_found(a, b, cost, steps, es, ps); } }
        pub proof fn lemma_found(&self, a: int, b: int, cost: int, steps: Seq<NodeIndex>, es: Seq<int>, ps: Seq<Patch>)
            requires self.wf(), 0 <= a < self.graph.nodes().len(), 0 <= b < self.graph.nodes().len(), crate::petgraph::algo::best(&self.graph, a, b, self.sizes(), cost, steps, es), ps.len() == es.len(),
                forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).from == self.graph.nodes()[steps[i].ix()].version && ps[i].to == self.graph.nodes()[steps[i + 1].ix()].version
            ensures cheapest(self.pm(), keys(ps), self.graph.nodes()[a].version, self.graph.nodes()[b].version), cost == crate::index::graph::cost(self.pm(), keys(ps))
        {   let g = self.graph; let ks = keys(ps); let va = g.nodes()[a].version; let vb = g.nodes()[b].version;
            assert forall|i: int| 0 <= i < es.len() implies 0 <= #[trigger] es[i] < g.edges().len() && ks[i] == self.kseq(es)[i] by { assert(ps[i].from == g.nodes()[steps[i].ix()].version); }
            assert(ks =~= self.kseq(es)); self.lemma_kseq(es);
            assert(chain(self.pm(), ks, va, vb)) by { if ks.len() > 0 { assert(ps[0].from == va); assert(ps[ps.len() - 1].to == vb);
                assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < ks.len() implies (#[trigger] ks[i]).1 == (#[trigger] ks[j]).0 by { assert(ps[i].to == ps[j].from); } } }
            assert forall|o: Seq<(Version, Version)>| #[trigger] chain(self.pm(), o, va, vb) implies crate::index::graph::cost(self.pm(), ks) <= crate::index::graph::cost(self.pm(), o) by { self.lemma_eseq(o, a, b); } }
        /// what is known about builds and patches
        pub open spec fn bm(&self) -> Map<Version, Build> { Map::new(self.builds.view().dom(), |v: Version| self.graph.nodes()[self.builds.view()[v].ix()]) }
        pub open spec fn pm(&self) -> Map<(Version, Version), Patch> { Map::new(self.patches.view().dom(), |v: (Version, Version)| self.graph.edges()[self.patches.view()[v].ix()]) }
    }

fn index::graph::PatchGraph::empty()
  ensures: r.wf() && r.bm() == Map::<Version, Build>::empty() && r.pm() == Map::<(Version, Version), Patch>::empty()

fn index::graph::PatchGraph::add_build(version, entry, location)
  requires: old(self).wf() && valid_version(version.view())
  ensures: r is Ok, final(self).wf(),
    final(self).bm() =~= put_b(old(self).bm(), *version, entry, location),
    final(self).pm() =~= old(self).pm()

fn index::graph::PatchGraph::add_patch(from, to, entry, location)
  requires: old(self).wf()
  ensures: final(self).wf(),
    r is Ok <==> old(self).pm().dom().contains((*from, *to)) || (old(self).bm().dom().contains(*from) && old(self).bm().dom().contains(*to)),
    r is Ok ==> final(self).pm() =~= put_p(old(self).pm(), (*from, *to), entry, location),
    r is Err ==> final(self).pm() =~= old(self).pm(),
    final(self).bm() =~= old(self).bm()

fn index::graph::PatchGraph::has_build(v)
  ensures: r == self.bm().dom().contains(v)

fn index::graph::PatchGraph::has_patch(from, to)
  ensures: r == self.pm().dom().contains((from, to))

fn index::graph::PatchGraph::local_build(v)
  requires: self.wf()
  ensures: (match r { Some(e) => Some(*e), None => None }) == (if self.bm().dom().contains(v) { self.bm()[v].local } else { None })

fn index::graph::PatchGraph::remote_build(v)
  requires: self.wf()
  ensures: (match r { Some(e) => Some(*e), None => None }) == (if self.bm().dom().contains(v) { self.bm()[v].remote } else { None })

fn index::graph::PatchGraph::has_local_build(v)
  requires: self.wf()
  ensures: r == (self.bm().dom().contains(v) && self.bm()[v].local is Some)

fn index::graph::PatchGraph::update_from_file_list(list, location)
  requires: old(self).wf()
  proof: assert(d_patch() + d_zst() =~= ".patch.zst"@);
  ensures: final(self).wf(),
    r is Ok ==> merged_b(old(self).bm(), final(self).bm(), bsel(list@), location)
        && merged_p(final(self).bm(), old(self).pm(), final(self).pm(), psel(list@), location),
    r is Ok ==> forall|e: Entry| #[trigger] psel(list@).contains(e) ==> patch_named(e),
    r is Ok ==> forall|e: Entry| #[trigger] bsel(list@).contains(e) ==> build_named(e),
    (forall|i: int| 0 <= i < list@.len() ==> (is_build(#[trigger] list@[i]) ==> build_named(list@[i])) && (is_patch(list@[i]) ==> patch_named(list@[i]))) ==> r is Ok
  loop 0 invariant: self.wf(), self.pm() == old(self).pm(), forall|e: Entry| drefs(it0_all).take(it0_n).contains(e) ==> #[trigger] build_named(e), merged_b(old(self).bm(), self.bm(), drefs(it0_all).take(it0_n), location),
    kept(drefs(it0_all), list@, |e: Entry| is_build(e))
  loop 0 proof: lemma_exts(entry.path.view()); assert(drefs(it0_all).take(it0_n) =~= drefs(it0_all).take(it0_n - 1).push(*entry)); assert(drefs(it0_all)[it0_n - 1] == *entry); assert(drefs(it0_all).contains(*entry));
    lemma_merge_b(old(self).bm(), self.bm(), drefs(it0_all).take(it0_n - 1), *entry, location);
  loop 0 after: lemma_kept(drefs(it0_all), list@, |e: Entry| is_build(e)); assert(drefs(it0_all).take(it0_n) =~= drefs(it0_all)); lemma_alike(drefs(it0_all), bsel(list@));
  loop 1 invariant: self.wf(), forall|e: Entry| drefs(it1_all).take(it1_n).contains(e) ==> #[trigger] patch_named(e), forall|e: Entry| #[trigger] bsel(list@).contains(e) ==> build_named(e), merged_p(self.bm(), old(self).pm(), self.pm(), drefs(it1_all).take(it1_n), location),
    merged_b(old(self).bm(), self.bm(), bsel(list@), location),
    kept(drefs(it1_all), list@, |e: Entry| is_patch(e))
  loop 1 proof: lemma_exts(entry.path.view()); assert(drefs(it1_all).take(it1_n) =~= drefs(it1_all).take(it1_n - 1).push(*entry)); assert(drefs(it1_all)[it1_n - 1] == *entry); assert(drefs(it1_all).contains(*entry));
    lemma_merge_p(self.bm(), old(self).pm(), self.pm(), drefs(it1_all).take(it1_n - 1), *entry, location);
  loop 1 after: lemma_kept(drefs(it1_all), list@, |e: Entry| is_patch(e)); assert(drefs(it1_all).take(it1_n) =~= drefs(it1_all)); lemma_alike(drefs(it1_all), psel(list@));

fn index::graph::PatchGraph::patches_needed(from, to)
  requires: self.wf()
  proof: self.lemma_search(); assert(hint(self.sizes())); assert(hint(self.builds.view()[to])); assert(hint((self.builds.view()[from].ix(), self.builds.view()[to].ix())));
  ensures: r is Ok ==> self.bm().dom().contains(from) && self.bm().dom().contains(to) && cheapest(self.pm(), keys((r->Ok_0).1@), from, to) && (r->Ok_0).0 == cost(self.pm(), keys((r->Ok_0).1@)),
    r is Ok ==> forall|i: int| 0 <= i < (r->Ok_0).1@.len() ==> (#[trigger] (r->Ok_0).1@[i]).local is None && (r->Ok_0).1@[i].remote is None,
    self.bm().dom().contains(from) && self.bm().dom().contains(to) && r is Err ==> forall|o: Seq<(Version, Version)>| !#[trigger] chain(self.pm(), o, from, to)
  closure 1 requires: c0.sp_weight().local is Some || c0.sp_weight().remote is Some
  closure 2 returns: u64
  closure 3 types: &[NodeIndex<DefaultIx>]
  closure 3 returns: Patch
  closure 3 requires: c0@.len() == 2 && 0 <= c0@[0].ix() < self.graph.nodes().len() && 0 <= c0@[1].ix() < self.graph.nodes().len()
  closure 3 ensures: r.from == self.graph.nodes()[c0@[0].ix()].version && r.to == self.graph.nodes()[c0@[1].ix()].version && r.local is None && r.remote is None

fn index::graph::PatchGraph::find_upgrade_path(from, to)
  requires: self.wf()
  ensures: r is Ok <==> self.bm().dom().contains(to),
    r is Ok ==> match r->Ok_0 {
        UpgradePath::ApplyPatches(ps) => cheapest(self.pm(), keys(ps@), from, to) && cost(self.pm(), keys(ps@)) < self.bm()[to].sp_size() && self.bm().dom().contains(from) && forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] ps@[i]).local is None && ps@[i].remote is None,
        UpgradePath::InstallBuild(b) => b == self.bm()[to] && forall|o: Seq<(Version, Version)>| self.bm().dom().contains(from) && #[trigger] chain(self.pm(), o, from, to) ==> cost(self.pm(), o) >= b.sp_size() }

fn index::graph::PatchGraph::local_only_builds()
  requires: self.wf()
  ensures: forall|i: int| 0 <= i < r@.len() ==> self.bm().dom().contains((#[trigger] r@[i]).version) && self.bm()[r@[i].version] == r@[i] && r@[i].remote is None,
    forall|v: Version| #[trigger] self.bm().dom().contains(v) && self.bm()[v].remote is None ==> r@.contains(self.bm()[v])

fn index::graph::PatchGraph::local_only_patches()
  requires: self.wf()
  ensures: forall|i: int| 0 <= i < r@.len() ==> self.pm().dom().contains(((#[trigger] r@[i]).from, r@[i].to)) && self.pm()[(r@[i].from, r@[i].to)] == r@[i] && r@[i].remote is None,
    forall|v: (Version, Version)| #[trigger] self.pm().dom().contains(v) && self.pm()[v].remote is None ==> r@.contains(self.pm()[v])
