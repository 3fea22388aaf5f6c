# ------------------------------------------------------------------ packaging
mod packaging
  items:
    use crate::world::{Loc, Node, loc, deref, wrote};
    use crate::std_::path::{pname, pparent, pstrip, pcmp};
    use crate::std_::fs::node_mode;
    use crate::tar::{Ent, Head, tar_bytes};
    use crate::walkdir::{below, plain, paths};
    /// what paths in the archive are relative to
    pub open spec fn root_of(fs: Map<Loc, Node>, p: Seq<char>) -> Seq<char> { if pname(p) is Some && deref(fs, loc(p)) is Some && fs[deref(fs, loc(p))->0] is File && pparent(p) is Some { pparent(p)->0 } else { p } }
    pub open spec fn is_plain(fs: Map<Loc, Node>, p: Seq<char>) -> bool { pname(p) is Some && fs.dom().contains(loc(p)) && fs[loc(p)] is File }
    /// the entry of a file: nothing but its name, mode and content
    pub open spec fn ent(fs: Map<Loc, Node>, p: Seq<char>, root: Seq<char>) -> Ent { let n = fs[loc(p)];
        Ent { path: pstrip(p, root), head: Head { size: n->data.len() as int, mode: node_mode(n) as int, major: 0, minor: 0, mtime: 0, uid: 0, gid: 0 }, data: n->data } }
    /// the entries for the files among these paths
    pub open spec fn ents(fs: Map<Loc, Node>, ps: Seq<Seq<char>>, root: Seq<char>) -> Seq<Ent>
        decreases ps.len()
    { if ps.len() == 0 { Seq::empty() } else { let s = ents(fs, ps.drop_last(), root); if is_plain(fs, ps.last()) { s.push(ent(fs, ps.last(), root)) } else { s } } }
    /// the archive of a directory or file
    pub open spec fn archive(fs: Map<Loc, Node>, p: Seq<char>) -> Seq<u8> { tar_bytes(ents(fs, below(fs, p), root_of(fs, p))) }
    /// it does not contain these files
    pub open spec fn without(fs: Map<Loc, Node>, p: Seq<char>, ls: Set<Loc>) -> bool { forall|k: int| 0 <= k < below(fs, p).len() ==> !ls.contains(loc(#[trigger] below(fs, p)[k])) }
    /// what is added to these files: defined if the archive does not contain them
    pub open spec fn packed(fs: Map<Loc, Node>, p: Seq<char>, ls: Set<Loc>) -> Option<Seq<u8>> { if plain(fs, p) && without(fs, p, ls) { Some(archive(fs, p)) } else { None } }
    pub proof fn lemma_ents(fs: Map<Loc, Node>, ps: Seq<Seq<char>>, root: Seq<char>, n: int)
        requires 0 <= n < ps.len()
        ensures ents(fs, ps.take(n + 1), root) == if is_plain(fs, ps[n]) { ents(fs, ps.take(n), root).push(ent(fs, ps[n], root)) } else { ents(fs, ps.take(n), root) }
    { assert(ps.take(n + 1).drop_last() =~= ps.take(n)); assert(ps.take(n + 1).last() == ps[n]); }
    /// The archive of two trees that differ only in where they are is the same: the same relative paths in the same order, modes and contents.
    pub proof fn lemma_C12_place(fa: Map<Loc, Node>, a: Seq<Seq<char>>, ra: Seq<char>, fb: Map<Loc, Node>, b: Seq<Seq<char>>, rb: Seq<char>)
        requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] is_plain(fa, a[k]) == is_plain(fb, b[k]),
            forall|k: int| 0 <= k < a.len() && #[trigger] is_plain(fa, a[k]) ==> pstrip(a[k], ra) == pstrip(b[k], rb) && fa[loc(a[k])]->data == fb[loc(b[k])]->data && fa[loc(a[k])]->mode == fb[loc(b[k])]->mode
        ensures tar_bytes(ents(fa, a, ra)) == tar_bytes(ents(fb, b, rb))
        decreases a.len()
    { lemma_C12_ents(fa, a, ra, fb, b, rb); }
    pub proof fn lemma_C12_ents(fa: Map<Loc, Node>, a: Seq<Seq<char>>, ra: Seq<char>, fb: Map<Loc, Node>, b: Seq<Seq<char>>, rb: Seq<char>)
        requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] is_plain(fa, a[k]) == is_plain(fb, b[k]),
            forall|k: int| 0 <= k < a.len() && #[trigger] is_plain(fa, a[k]) ==> pstrip(a[k], ra) == pstrip(b[k], rb) && fa[loc(a[k])]->data == fb[loc(b[k])]->data && fa[loc(a[k])]->mode == fb[loc(b[k])]->mode
        ensures ents(fa, a, ra) == ents(fb, b, rb)
        decreases a.len()
    { if a.len() > 0 { let n = a.len() - 1;
        assert forall|k: int| 0 <= k < n implies #[trigger] is_plain(fa, a.drop_last()[k]) == is_plain(fb, b.drop_last()[k]) by { assert(is_plain(fa, a[k]) == is_plain(fb, b[k])); }
        assert forall|k: int| 0 <= k < n && #[trigger] is_plain(fa, a.drop_last()[k]) implies pstrip(a.drop_last()[k], ra) == pstrip(b.drop_last()[k], rb) && fa[loc(a.drop_last()[k])]->data == fb[loc(b.drop_last()[k])]->data && fa[loc(a.drop_last()[k])]->mode == fb[loc(b.drop_last()[k])]->mode by { assert(is_plain(fa, a[k])); }
        lemma_C12_ents(fa, a.drop_last(), ra, fb, b.drop_last(), rb); assert(is_plain(fa, a[n]) == is_plain(fb, b[n])); } }
    /// temporary directories of this run make no difference
    pub proof fn lemma_archive(a: Map<Loc, Node>, b: Map<Loc, Node>, c: Seq<char>)
        requires !crate::walkdir::holds_tmp(c), deref(a, loc(c)) == Some(loc(c)), forall|l: Loc| #![trigger b.dom().contains(l)] #![trigger b[l]] crate::world::is_tmpdir(l.0) || (b.dom().contains(l) == a.dom().contains(l) && b[l] == a[l])
        ensures archive(a, c) == archive(b, c), forall|k: int| 0 <= k < below(b, c).len() ==> !crate::world::is_tmpdir(loc(#[trigger] below(b, c)[k]).0)
    {   crate::walkdir::axiom_below(a, b, c); crate::walkdir::axiom_not_in_tmp(c); let ps = below(a, c);
        assert forall|k: int| 0 <= k < ps.len() implies !crate::world::is_tmpdir(dirof(#[trigger] ps[k])) by { crate::walkdir::axiom_not_tmp(a, c, k); }
        assert(b.dom().contains(loc(c)) && b[loc(c)] == a[loc(c)]); 
        assert forall|k: int| 0 <= k < ps.len() implies #[trigger] is_plain(a, ps[k]) == is_plain(b, ps[k]) by { let l = loc(ps[k]); assert(b.dom().contains(l) == a.dom().contains(l) && b[l] == a[l]); }
        assert forall|k: int| 0 <= k < ps.len() && #[trigger] is_plain(a, ps[k]) implies a[loc(ps[k])] == b[loc(ps[k])] by { let l = loc(ps[k]); assert(b.dom().contains(l) == a.dom().contains(l) && b[l] == a[l]); }
        lemma_C12_ents(a, ps, root_of(a, c), b, ps, root_of(a, c)); }

fn packaging::add_file(archive, file, root)
  ensures: wrote(*old(w), *final(w), old(archive).inner.ids(), old(archive).inner.locs()), final(archive).inner == old(archive).inner && final(archive).base == old(archive).base,
    r is Ok && is_plain(old(w).fs(), file.sp_path().view()) ==> final(archive).ents@ == old(archive).ents@.push(ent(old(w).fs(), file.sp_path().view(), root.view()))

fn packaging::package(source, target)
  ghost: let ghost t_ = target;
  closure 0 returns: core::cmp::Ordering
  closure 0 ensures: r == pcmp(a.sp_path().view(), b.sp_path().view())
  loop 0 proof: assert(paths(it0_all)[it0_n - 1] == it0_all[it0_n - 1]->Ok_0.sp_path().view()); lemma_ents(old(w).fs(), paths(it0_all), root.view(), it0_n - 1);
  loop 0 after: assert(paths(it0_all).take(it0_n) =~= paths(it0_all)); 
  loop 0 invariant: t_ == target, t_.kept(), archive.inner == t_, archive.base@ == old(w).sunk(t_.id()), wrote(*old(w), *w, t_.ids(), t_.locs()), root.view() == root_of(old(w).fs(), source.view()),
    forall|i: int| 0 <= i < it0_n ==> (#[trigger] it0_all[i]) is Ok,
    forall|i: int| 0 <= i < it0_all.len() && (#[trigger] it0_all[i]) is Ok ==> it0_all[i]->Ok_0.fs() == old(w).fs(),
    (forall|k: int| 0 <= k < it0_n ==> !t_.locs().contains(loc(#[trigger] paths(it0_all)[k]))) ==> archive.ents@ == ents(old(w).fs(), paths(it0_all).take(it0_n), root.view())
  ensures: wrote(*old(w), *final(w), target.ids(), target.locs()), target.kept(),
    r is Ok && packed(old(w).fs(), source.view(), target.locs()) is Some ==> final(w).sunk(target.id()) == old(w).sunk(target.id()) + packed(old(w).fs(), source.view(), target.locs())->0
