# ------------------------------------------------------------------ compression and patching
mod compression
  items:
    /// the level that is asked for
    pub open spec fn level_set() -> i32 { match crate::std_::env::env_var("ARTEFACTA_COMPRESSION_LEVEL"@) { Some(t) => match parse_i32(t) { Some(n) => n, None => 14 }, None => 14 } }

fn compression::compression_level()
  ensures: /*C19*/ r == level_set()

fn compression::compress(x)
  ensures: x.ids().contains(x.id()) && wrote_new(*old(w), *final(w)),
    /*C19*/ r is Ok ==> crate::zstd::stream::write::encodes(*old(w), *final(w), r->Ok_0, x, level_set()),
    r is Ok ==> exists|l: i32| #[trigger] crate::zstd::stream::write::encodes(*old(w), *final(w), r->Ok_0, x, l),
    r is Err ==> same(*old(w), *final(w)),
    old(w).ok() ==> r is Ok

fn compression::decompress(x)
  ensures: r is Ok ==> x.whole() && crate::zstd::zdec(x.rest()) == Some(r->Ok_0@),
    x.good() && crate::zstd::zdec(x.rest()) is Some ==> r is Ok

mod apply_patch
  items:
    /// what reading the file of that path to the end gives
    pub open spec fn content(w: World, p: Seq<char>) -> Option<Seq<u8>> {
        if pname(p) is None { None } else { match deref(w.fs(), loc(p)) { Some(l) => if w.fs()[l] is File { crate::zstd::zdec(w.fs()[l]->data) } else { None }, None => None } } }
    pub open spec fn is_file(w: World, p: Seq<char>) -> bool { pname(p) is Some && deref(w.fs(), loc(p)) is Some && w.fs()[deref(w.fs(), loc(p))->0] is File }

fn apply_patch::apply_patch(archive, patch)
  ensures: r is Ok ==> ({ let a = archive.as_ref_spec().view(); let p = patch.as_ref_spec().view();
        match (content(*w, a), content(*w, p)) { (Some(o), Some(d)) => (r->Ok_0.whole() ==> crate::bidiff::bp(d, o) is Some) && (crate::bidiff::bp(d, o) is Some ==> r->Ok_0.rest() == crate::bidiff::bp(d, o)->0), _ => !is_file(*w, a) || !is_file(*w, p) } }),
    w.ok() && content(*w, archive.as_ref_spec().view()) is Some && content(*w, patch.as_ref_spec().view()) is Some && crate::bidiff::bp(content(*w, patch.as_ref_spec().view())->0, content(*w, archive.as_ref_spec().view())->0) is Some ==> r is Ok && r->Ok_0.good()
