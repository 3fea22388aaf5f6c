# ------------------------------------------------------------------ files that appear at once
type partial_file::PartialFile
  items:
    impl PartialFile {
        pub open spec fn target(&self) -> Seq<char> { self.target_path.view() }
        /// the bytes written so far
        pub open spec fn got(&self, w: World) -> Seq<u8> { w.sunk(self.partial_file.inner.num()) }
        pub open spec fn wf(&self) -> bool {
            &&& pname(self.target()) is Some && pname(self.partial_path.view()) is Some
            &&& dirof(self.partial_path.view()) == dirof(self.target())
            &&& is_temp(pname(self.partial_path.view())->0) && pname(self.partial_path.view())->0.len() > pname(self.target())->0.len()
            &&& self.partial_file.inner.l() == loc(self.partial_path.view()) } }
    /// this file, complete
    pub open spec fn whole_file(l: Loc, data: Seq<u8>) -> spec_fn(Loc, Node) -> bool { |x: Loc, n: Node| x == l && n is File && n->data == data }

fn partial_file::generate_partial_file_name(path)
  proof: crate::text::lemma_temp_chars();
  ensures: r is Ok ==> pname(path.view()) is Some && exists|n: Seq<char>| simple(n) && is_temp(n) && n.len() > pname(path.view())->0.len() && r->Ok_0.view() == #[trigger] pwith(path.view(), n),
    pname(path.view()) is Some ==> r is Ok

fn partial_file::PartialFile::create(target_path)
  ensures: changes(*old(w), *final(w), set![dirof(target_path.into_spec().view())], no_file(), no_up()),
    r is Ok ==> r->Ok_0.wf() && r->Ok_0.target() == target_path.into_spec().view() && !r->Ok_0.finished && r->Ok_0.got(*final(w)) == Seq::<u8>::empty(),
    r is Err ==> same(*old(w), *final(w)),
    old(w).ok() && pname(target_path.into_spec().view()) is Some ==> r is Ok

fn partial_file::PartialFile::finish()
  requires: self.wf()
  ensures: changes(*old(w), *final(w), set![dirof(self.target())], whole_file(loc(self.target()), self.got(*old(w))), no_up()),
    r is Ok ==> file_at(final(w).fs(), loc(self.target()), self.got(*old(w))),
    old(w).ok() && !(old(w).fs().dom().contains(loc(self.target())) && old(w).fs()[loc(self.target())] is Dir) ==> r is Ok

fn partial_file::<Drop for PartialFile>::drop()
  requires: old(self).wf()
  ensures: changes(*old(w), *final(w), set![dirof(old(self).target())], no_file(), no_up()),
    old(self).finished ==> same(*old(w), *final(w)),
    !old(self).finished && old(w).ok() && old(w).fs().dom().contains(loc(old(self).partial_path.view())) && !(old(w).fs()[loc(old(self).partial_path.view())] is Dir) ==> !final(w).fs().dom().contains(loc(old(self).partial_path.view()))

impl partial_file::<Write for PartialFile>
  items:
    open spec fn id(&self) -> int { self.partial_file.id() }
    open spec fn ids(&self) -> Set<int> { self.partial_file.ids() }
    open spec fn locs(&self) -> Set<Loc> { self.partial_file.locs() }
    open spec fn flushed(&self, w: World) -> bool { self.partial_file.flushed(w) }
    #[verifier::prophetic] open spec fn kept(&self) -> bool { true }
