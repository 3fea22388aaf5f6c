# ------------------------------------------------------------------ storages
type storage::Storage
  items:
    impl Storage {
        /// the directory, if it is one
        pub open spec fn root(&self) -> Option<Path> { match *self.inner { InnerStorage::Filesystem(p) => Some(p), _ => None } }
        pub open spec fn bucket(&self) -> s3::Bucket { (*self.inner)->S3_0 }
        /// the object for a name
        pub open spec fn key(&self, name: Seq<char>) -> Key { (self.bucket().endpoint.view(), self.bucket().bucket.view(), self.bucket().key_of(name)) }
        /// the file for a name or path
        pub open spec fn file(&self, name: Seq<char>) -> Seq<char> { pjoin(self.root()->0.view(), name) }
        /// this is a name, or the path of a file directly in the directory
        pub open spec fn suits(&self, t: Seq<char>) -> bool {
            (simple(t) && !is_temp(t)) || (self.root() is Some && pabs(self.root()->0.view()) && pname(t) is Some && !is_temp(pname(t)->0) && t == pjoin(self.root()->0.view(), pname(t)->0)) }
        /// there is a file of that name or path
        pub open spec fn has_file(&self, w: World, name: Seq<char>) -> bool { match self.root() {
            Some(_) => pname(self.file(name)) is Some && w.fs().dom().contains(loc(self.file(name))) && w.fs()[loc(self.file(name))] is File,
            None => w.s3().dom().contains(self.key(name)) } }
        /// what is in it
        pub open spec fn data_of(&self, w: World, name: Seq<char>) -> Seq<u8> { match self.root() { Some(_) => w.fs()[loc(self.file(name))]->data, None => w.s3()[self.key(name)] } }
        pub open spec fn keys(&self, w: World) -> Seq<Seq<char>> { crate::rusoto_s3::keys(w.s3(), self.bucket().endpoint.view(), self.bucket().bucket.view(), self.bucket().key_of(Seq::empty()), Some(seq!['/'])) }
        /// this entry is for the file of that name in the directory
        pub open spec fn lists(&self, w: World, e: Entry, n: Seq<char>) -> bool {
            let l = (cdir(self.root()->0.view()), n);
            &&& simple(n) && w.fs().dom().contains(l) && w.fs()[l] is File
            &&& e.storage == *self && e.path.view() == pjoin(l.0, n) && e.size == crate::std_::fs::node_len(w.fs()[l]) }
        pub open spec fn is_object(&self, w: World, o: crate::rusoto_s3::Object, k: Seq<char>) -> bool {
            o.key is Some && o.size is Some && o.key->0.view() == k && o.size->0 == w.s3()[(self.bucket().endpoint.view(), self.bucket().bucket.view(), k)].len() }
        pub proof fn lemma_lists(&self, w: World)
            ensures self.root() is Some ==> forall|e: Entry, p: Seq<char>| #![trigger crate::std_::path::canon_post(w.fs(), p, e.path.view())]
                crate::std_::path::canon_post(w.fs(), p, e.path.view()) && pname(p) is Some && p == self.file(pname(p)->0) && e.storage == *self && w.fs().dom().contains((cdir(self.root()->0.view()), pname(p)->0))
                && w.fs()[(cdir(self.root()->0.view()), pname(p)->0)] is File && e.size == crate::std_::fs::node_len(w.fs()[(cdir(self.root()->0.view()), pname(p)->0)]) ==> self.lists(w, e, pname(p)->0) {}
        /// a non-empty file of that name
        pub open spec fn offers(&self, w: World, n: Seq<char>) -> bool { self.has_file(w, n) && self.data_of(w, n).len() > 0 }
        /// an entry for the file of that name
        pub open spec fn is_of(&self, w: World, e: Entry, n: Seq<char>) -> bool {
            e.storage == *self && e.size == self.data_of(w, n).len() && e.path.view() == (if self.root() is Some { pjoin(cdir(self.root()->0.view()), n) } else { self.bucket().key_of(n) }) }
        /// a patch file for these versions
        pub open spec fn patches(&self, w: World, n: Seq<char>, v: (crate::index::Version, crate::index::Version)) -> bool {
            simple(n) && ends(n, d_patch() + d_zst()) && self.offers(w, n) && parse_stem(base_name(n)) == Some((v.0.view(), v.1.view())) }
        /// files that look like builds and patches have names of builds and patches
        pub open spec fn tidy(&self, w: World) -> bool { forall|n: Seq<char>| simple(n) && #[trigger] self.offers(w, n) ==> (ends(n, tar_zst()) ==> valid_version(base_name(n))) && (ends(n, d_patch() + d_zst()) ==> parse_stem(base_name(n)) is Some) }
        /// everything in the store
        pub open spec fn listing(&self, w: World, es: Seq<Entry>) -> bool {
            &&& self.root() is Some ==> forall|i: int| 0 <= i < es.len() ==> self.lists(w, #[trigger] es[i], pname(es[i].path.view())->0)
            &&& self.root() is Some ==> forall|n: Seq<char>| #[trigger] w.fs().dom().contains((cdir(self.root()->0.view()), n)) && simple(n) && w.fs()[(cdir(self.root()->0.view()), n)] is File ==> exists|i: int| 0 <= i < es.len() && self.lists(w, #[trigger] es[i], n)
            &&& self.root() is None ==> es.len() == self.keys(w).len() && forall|i: int| 0 <= i < es.len() ==> self.lists_key(w, #[trigger] es[i], self.keys(w)[i]) }
        /// the file of an entry in a listing that ends in `t`
        pub proof fn lemma_entry(&self, w: World, es: Seq<Entry>, i: int, t: Seq<char>)
            requires self.listing(w, es), 0 <= i < es.len(), t.len() > 2, forall|i: int| 0 <= i < t.len() ==> t[i] != '/', t[t.len() - 1] != '.', ends(es[i].path.view(), t)
            ensures ({ let n = pname(es[i].path.view()); n is Some && simple(n->0) && ends(n->0, t) && self.has_file(w, n->0) && self.is_of(w, es[i], n->0) })
        {   let e = es[i];
            if self.root() is Some {
                let d = cdir(self.root()->0.view()); let n = pname(e.path.view())->0; assert(self.lists(w, e, n));
                if d.len() == 0 || d.last() == '/' { crate::text::lemma_ends_tail(d, n, t); } else { assert(d + seq!['/'] + n =~= (d + seq!['/']) + n); crate::text::lemma_ends_tail(d + seq!['/'], n, t); }
            } else {
                let k = self.keys(w)[i]; let p = self.bucket().key_of(Seq::empty()); assert(self.lists_key(w, e, k)); assert(self.keys(w).contains(k));
                let n = k.skip(p.len() as int); assert(k.subrange(0, p.len() as int) == p); assert(k =~= p + n); assert(p.last() == '/');
                crate::text::lemma_ends_tail(p, n, t); assert(k =~= self.bucket().key_of(n));
                assert forall|j: int| 0 <= j < n.len() implies n[j] != '/' by { if n[j] == '/' { crate::text::lemma_at_char(n, '/', j); } }
                assert(n.subrange(n.len() - t.len(), n.len() as int)[t.len() - 1] == n.last()); assert(simple(n)); } }
        /// an entry in a listing, for a file
        pub proof fn lemma_listed(&self, w: World, es: Seq<Entry>, n: Seq<char>) -> (e: Entry)
            requires self.listing(w, es), simple(n), self.has_file(w, n)
            ensures es.contains(e), pname(e.path.view()) == Some(n), self.is_of(w, e, n)
        {   if self.root() is Some { let l = (cdir(self.root()->0.view()), n); assert(w.fs().dom().contains(l)); let i = choose|i: int| 0 <= i < es.len() && self.lists(w, #[trigger] es[i], n); assert(es.contains(es[i])); es[i] }
            else { let k = self.bucket().key_of(n); let p = self.bucket().key_of(Seq::empty()); assert(k =~= p + n); assert(k.subrange(0, p.len() as int) =~= p); assert(k.skip(p.len() as int) =~= n);
                assert(!occurs(n, seq!['/'])) by { if occurs(n, seq!['/']) { let j = choose|j: int| at(n, seq!['/'], j); crate::text::lemma_at_char(n, '/', j); } }
                assert(self.keys(w).contains(k)); let i = choose|i: int| 0 <= i < self.keys(w).len() && self.keys(w)[i] == k; assert(self.lists_key(w, es[i], self.keys(w)[i])); assert(es.contains(es[i])); es[i] } }
        /// which builds a listing shows
        pub proof fn lemma_shows_b(&self, w: World, es: Seq<Entry>, v: crate::index::Version)
            requires self.listing(w, es), valid_version(v.view())
            ensures crate::index::graph::has_b(crate::index::graph::bsel(es), v) <==> self.offers(w, build_name(v.view())),
                forall|e: Entry| #[trigger] crate::index::graph::bsel(es).contains(e) && crate::index::graph::build_of(e) == v ==> self.is_of(w, e, build_name(v.view()))
        {   let bs = crate::index::graph::bsel(es); let n = build_name(v.view()); crate::names_lemmas::lemma_C01_roundtrip(v.view());
            assert forall|e: Entry| #[trigger] bs.contains(e) && crate::index::graph::build_of(e) == v implies self.is_of(w, e, n) && self.offers(w, n) by {
                let i = choose|i: int| 0 <= i < es.len() && es[i] == e; self.lemma_entry(w, es, i, tar_zst()); let m = pname(e.path.view())->0;
                crate::names_lemmas::lemma_build_file(m); assert(base_name(m) == v.view()); }
            if self.offers(w, n) { let e = self.lemma_listed(w, es, n); crate::text::lemma_ends_append(v.view(), tar_zst()); self.lemma_path_ends(w, e, n, tar_zst()); assert(bs.contains(e)); assert(crate::index::graph::build_of(e).view() == v.view()); } }
        pub proof fn lemma_path_ends(&self, w: World, e: Entry, n: Seq<char>, t: Seq<char>)
            requires self.is_of(w, e, n), simple(n), ends(n, t), forall|i: int| 0 <= i < t.len() ==> t[i] != '/'
            ensures ends(e.path.view(), t)
        {   if self.root() is Some { let d = cdir(self.root()->0.view()); if d.len() == 0 || d.last() == '/' { crate::text::lemma_ends_tail(d, n, t); } else { assert(d + seq!['/'] + n =~= (d + seq!['/']) + n); crate::text::lemma_ends_tail(d + seq!['/'], n, t); } }
            else { let p = self.bucket().key_of(Seq::empty()); assert(p.last() == '/'); assert(e.path.view() =~= p + n); crate::text::lemma_ends_tail(p, n, t); } }
        /// which patches a listing shows
        pub proof fn lemma_shows_p(&self, w: World, es: Seq<Entry>, v: (crate::index::Version, crate::index::Version))
            requires self.listing(w, es), forall|e: Entry| #[trigger] crate::index::graph::psel(es).contains(e) ==> crate::index::graph::patch_named(e)
            ensures crate::index::graph::has_p(crate::index::graph::psel(es), v) <==> exists|n: Seq<char>| #[trigger] self.patches(w, n, v),
                forall|e: Entry| #[trigger] crate::index::graph::psel(es).contains(e) && crate::index::graph::patch_of(e) == v ==> ({ let n = pname(e.path.view())->0; self.patches(w, n, v) && self.is_of(w, e, n) })
        {   let ps = crate::index::graph::psel(es); let t = d_patch() + d_zst(); assert(t =~= seq!['.', 'p', 'a', 't', 'c', 'h', '.', 'z', 's', 't']);
            assert forall|e: Entry| #[trigger] ps.contains(e) && crate::index::graph::patch_of(e) == v implies ({ let n = pname(e.path.view())->0; self.patches(w, n, v) && self.is_of(w, e, n) }) by {
                let i = choose|i: int| 0 <= i < es.len() && es[i] == e; self.lemma_entry(w, es, i, t); assert(crate::index::graph::patch_named(e)); }
            if exists|n: Seq<char>| #[trigger] self.patches(w, n, v) { let n = choose|n: Seq<char>| #[trigger] self.patches(w, n, v); let e = self.lemma_listed(w, es, n); self.lemma_path_ends(w, e, n, t); assert(ps.contains(e)); assert(crate::index::graph::patch_of(e).0.view() == v.0.view()); assert(crate::index::graph::patch_of(e).1.view() == v.1.view()); } }
        /// in a tidy store nothing is in the way
        pub proof fn lemma_tidy(&self, w: World, es: Seq<Entry>)
            requires self.listing(w, es), self.tidy(w)
            ensures forall|i: int| 0 <= i < es.len() ==> (crate::index::graph::is_build(#[trigger] es[i]) ==> crate::index::graph::build_named(es[i])) && (crate::index::graph::is_patch(es[i]) ==> crate::index::graph::patch_named(es[i]))
        {   let t = d_patch() + d_zst(); assert(t =~= seq!['.', 'p', 'a', 't', 'c', 'h', '.', 'z', 's', 't']);
            assert forall|i: int| 0 <= i < es.len() implies (crate::index::graph::is_build(#[trigger] es[i]) ==> crate::index::graph::build_named(es[i])) && (crate::index::graph::is_patch(es[i]) ==> crate::index::graph::patch_named(es[i])) by {
                let n = pname(es[i].path.view())->0;
                if crate::index::graph::is_build(es[i]) { self.lemma_entry(w, es, i, tar_zst()); assert(self.offers(w, n)); }
                if crate::index::graph::is_patch(es[i]) { self.lemma_entry(w, es, i, t); assert(self.offers(w, n)); } } }
        pub proof fn lemma_tidies(w: World)
            ensures forall|st: Storage, es: Seq<Entry>| #[trigger] st.listing(w, es) && st.tidy(w) ==> forall|i: int| 0 <= i < es.len() ==> (crate::index::graph::is_build(#[trigger] es[i]) ==> crate::index::graph::build_named(es[i])) && (crate::index::graph::is_patch(es[i]) ==> crate::index::graph::patch_named(es[i]))
        {   assert forall|st: Storage, es: Seq<Entry>| #[trigger] st.listing(w, es) && st.tidy(w) implies forall|i: int| 0 <= i < es.len() ==> (crate::index::graph::is_build(#[trigger] es[i]) ==> crate::index::graph::build_named(es[i])) && (crate::index::graph::is_patch(es[i]) ==> crate::index::graph::patch_named(es[i])) by { st.lemma_tidy(w, es); } }
        pub proof fn lemma_shows(w: World)
            ensures forall|st: Storage, es: Seq<Entry>, v: crate::index::Version| #![trigger st.listing(w, es), crate::index::graph::has_b(crate::index::graph::bsel(es), v)] st.listing(w, es) && valid_version(v.view()) ==> (crate::index::graph::has_b(crate::index::graph::bsel(es), v) <==> st.offers(w, build_name(v.view()))),
                forall|st: Storage, es: Seq<Entry>, e: Entry| #![trigger st.listing(w, es), crate::index::graph::bsel(es).contains(e)] st.listing(w, es) && crate::index::graph::bsel(es).contains(e) && valid_version(crate::index::graph::build_of(e).view()) ==> st.is_of(w, e, build_name(crate::index::graph::build_of(e).view())),
                forall|st: Storage, es: Seq<Entry>, v: (crate::index::Version, crate::index::Version)| #![trigger st.listing(w, es), crate::index::graph::has_p(crate::index::graph::psel(es), v)] st.listing(w, es) && (forall|e: Entry| #[trigger] crate::index::graph::psel(es).contains(e) ==> crate::index::graph::patch_named(e))
                    ==> (crate::index::graph::has_p(crate::index::graph::psel(es), v) <==> exists|n: Seq<char>| #[trigger] st.patches(w, n, v)),
                forall|st: Storage, es: Seq<Entry>, e: Entry| #![trigger st.listing(w, es), crate::index::graph::psel(es).contains(e)] st.listing(w, es) && (forall|e: Entry| #[trigger] crate::index::graph::psel(es).contains(e) ==> crate::index::graph::patch_named(e))
                    && crate::index::graph::psel(es).contains(e) ==> ({ let n = pname(e.path.view())->0; st.patches(w, n, crate::index::graph::patch_of(e)) && st.is_of(w, e, n) })
        {   assert forall|st: Storage, es: Seq<Entry>, v: crate::index::Version| #![trigger st.listing(w, es), crate::index::graph::has_b(crate::index::graph::bsel(es), v)] st.listing(w, es) && valid_version(v.view()) implies (crate::index::graph::has_b(crate::index::graph::bsel(es), v) <==> st.offers(w, build_name(v.view()))) by { st.lemma_shows_b(w, es, v); }
            assert forall|st: Storage, es: Seq<Entry>, e: Entry| #![trigger st.listing(w, es), crate::index::graph::bsel(es).contains(e)] st.listing(w, es) && crate::index::graph::bsel(es).contains(e) && valid_version(crate::index::graph::build_of(e).view()) implies st.is_of(w, e, build_name(crate::index::graph::build_of(e).view())) by { st.lemma_shows_b(w, es, crate::index::graph::build_of(e)); }
            assert forall|st: Storage, es: Seq<Entry>, v: (crate::index::Version, crate::index::Version)| #![trigger st.listing(w, es), crate::index::graph::has_p(crate::index::graph::psel(es), v)] st.listing(w, es) && (forall|e: Entry| #[trigger] crate::index::graph::psel(es).contains(e) ==> crate::index::graph::patch_named(e))
                    implies (crate::index::graph::has_p(crate::index::graph::psel(es), v) <==> exists|n: Seq<char>| #[trigger] st.patches(w, n, v)) by { st.lemma_shows_p(w, es, v); }
            assert forall|st: Storage, es: Seq<Entry>, e: Entry| #![trigger st.listing(w, es), crate::index::graph::psel(es).contains(e)] st.listing(w, es) && (forall|e: Entry| #[trigger] crate::index::graph::psel(es).contains(e) ==> crate::index::graph::patch_named(e))
                    && crate::index::graph::psel(es).contains(e) implies ({ let n = pname(e.path.view())->0; st.patches(w, n, crate::index::graph::patch_of(e)) && st.is_of(w, e, n) }) by { st.lemma_shows_p(w, es, crate::index::graph::patch_of(e)); } }
        /// this entry is for that object
        pub open spec fn lists_key(&self, w: World, e: Entry, k: Seq<char>) -> bool {
            e.storage == *self && e.path.view() == k && e.size == w.s3()[(self.bucket().endpoint.view(), self.bucket().bucket.view(), k)].len() } }

type storage::s3::Bucket
  items:
    impl Bucket {
        pub open spec fn key_of(&self, name: Seq<char>) -> Seq<char> { trim_end(trim_start(self.path.view(), seq!['/']), seq!['/']) + seq!['/'] + name } }

type storage::File
  items:
    impl File {
        /// reading this file may give that
        pub open spec fn gives(&self, w: World, data: Seq<u8>) -> bool { match *self {
            File::InFilesystem(e) => pname(e.path.view()) is Some && ({ let d = deref(w.fs(), loc(e.path.view())); d is Some && !(w.fs()[d->0] is Dir) && (w.fs()[d->0] is File ==> data == w.fs()[d->0]->data) }),
            File::Inline(_, c) => data == c.view() } }
        /// reading this file works, when nothing else is in the way
        pub open spec fn readable(&self, w: World) -> bool { match *self {
            File::InFilesystem(e) => pname(e.path.view()) is Some && ({ let d = deref(w.fs(), loc(e.path.view())); d is Some && w.fs()[d->0] is File }),
            File::Inline(_, c) => true } }
        pub open spec fn entry(&self) -> Entry { match *self { File::InFilesystem(e) => e, File::Inline(e, _) => e } } }
    /// the next page starts there
    pub open spec fn next_at(t: Option<Str>, n: int) -> bool { match t { Some(t) => crate::rusoto_s3::tokpos(t.view()) == n, None => n == 0 } }
    pub open spec fn file_from(l: Loc, f: File, w: World) -> spec_fn(Loc, Node) -> bool { |x: Loc, n: Node| x == l && n is File && f.gives(w, n->data) }
    pub open spec fn object_from(k: Key, f: File, w: World) -> spec_fn(Key, Seq<u8>) -> bool { |x: Key, d: Seq<u8>| x == k && f.gives(w, d) }

impl storage::<From<InnerStorage> for Storage>
  items:
    open spec fn from_spec(t: InnerStorage) -> Storage { Storage { inner: Arc::new(t) } }

impl storage::<TryFrom<&Path> for Storage>
  items:
    open spec fn try_from_post(p: &'p Path, w: World, r: Result<Storage>) -> bool {
        &&& r is Ok ==> r->Ok_0.root() is Some && crate::std_::path::canon_post(w.fs(), p.view(), r->Ok_0.root()->0.view())
        &&& pname(p.view()) is Some && w.ok() && deref(w.fs(), loc(p.view())) is Some ==> r is Ok }

impl storage::<TryFrom<PathBuf> for Storage>
  items:
    open spec fn try_from_post(p: PathBuf, w: World, r: Result<Storage>) -> bool { <Storage as crate::base::TryFromW<&Path>>::try_from_post(&p, w, r) }

impl storage::<FromStr for Storage>
  items:
    open spec fn from_str_post(s: &Str, w: World, r: Result<Storage>) -> bool {
        &&& r is Ok ==> match *r->Ok_0.inner {
            InnerStorage::Filesystem(p) => p.view() == s.view() && (pname(s.view()) is Some ==> deref(w.fs(), loc(s.view())) is Some),
            InnerStorage::S3(b) => crate::url::parse_url(s.view()) is Some && s3::url_names(crate::url::parse_url(s.view())->0, b) && (pname(s.view()) is Some ==> deref(w.fs(), loc(s.view())) is None) }
        &&& pname(s.view()) is Some && deref(w.fs(), loc(s.view())) is Some ==> r is Ok
        &&& pname(s.view()) is Some && deref(w.fs(), loc(s.view())) is None && crate::url::parse_url(s.view()) is Some && s3::s3_url(crate::url::parse_url(s.view())->0) ==> r is Ok }

mod storage::s3
  items:
    /// s3://BUCKET.HOST/PATH
    pub open spec fn s3_url(u: Url) -> bool { u.v_scheme() == seq!['s', '3'] && u.v_host() is Some && split2_seq(u.v_host()->0, seq!['.']).len() == 2 }
    pub open spec fn url_names(u: Url, b: Bucket) -> bool { s3_url(u) && b.bucket.view() == split2_seq(u.v_host()->0, seq!['.'])[0] && b.endpoint.view() == split2_seq(u.v_host()->0, seq!['.'])[1] && b.path.view() == u.v_path() }

impl storage::s3::<TryFrom<&Url> for Bucket>
  items:
    open spec fn try_from_post(u: &'a Url, r: Result<Bucket>) -> bool {
        (r is Ok <==> s3_url(*u)) && (r is Ok ==> url_names(*u, r->Ok_0)) }

impl storage::s3::<TryFrom<&Bucket> for S3Client>
  items:
    open spec fn try_from_post(b: &'a Bucket, r: Result<S3Client>) -> bool { r is Ok && r->Ok_0.ep() == b.endpoint.view() }

fn storage::s3::Bucket::key_for(path)
  ensures: r.view() == self.key_of(path.view())

fn storage::s3::validate_checksum(key, body, received)
  ensures: r is Ok <==> crate::rusoto_s3::announced(received.view(), body.view())

fn storage::local::Storage::is_local()
  ensures: r == self.root() is Some

fn storage::local::Storage::local_path()
  ensures: r == self.root()

fn storage::entry::Entry::from_path(path, storage)
  ensures: r is Ok ==> r->Ok_0.storage == storage && crate::std_::path::canon_post(w.fs(), path.as_ref_spec().view(), r->Ok_0.path.view()),
    r is Ok && pname(r->Ok_0.path.view()) is Some ==> ({ let d = deref(w.fs(), loc(r->Ok_0.path.view())); d is Some && r->Ok_0.size == crate::std_::fs::node_len(w.fs()[d->0]) }),
    w.ok() && ({ let p = path.as_ref_spec(); let l = loc(p.view()); pname(p.view()) is Some && p.name_utf8() && w.fs().dom().contains(l) && w.fs()[l] is File && crate::std_::path::utf8_dir(dirof(p.view())) }) ==> r is Ok

fn storage::Storage::add_file(file, target)
  ensures: /*C05 C06 C07 C08 C09 C10 C11 C16 C18*/ self.root() is Some ==> changes(*old(w), *final(w), set![dirof(self.file(target.as_ref_spec().view()))], file_from(loc(self.file(target.as_ref_spec().view())), *file, *old(w)), no_up()),
    /*C10 C14 C15 C18*/ self.root() is None ==> changes(*old(w), *final(w), Set::empty(), no_file(), object_from(self.key(target.as_ref_spec().view()), *file, *old(w))),
    /*C05 C07 C09 C10 C11 C16*/ r is Ok && self.root() is Some ==> exists|d: Seq<u8>| file.gives(*old(w), d) && #[trigger] file_at(final(w).fs(), loc(self.file(target.as_ref_spec().view())), d),
    /*C10 C14 C15*/ r is Ok && self.root() is None ==> ({ let k = self.key(target.as_ref_spec().view()); final(w).s3().dom().contains(k) && file.gives(*old(w), final(w).s3()[k]) }),
    /*C11 C18*/ self.root() is Some && pabs(target.as_ref_spec().view()) && !crate::std_::path::pstarts(target.as_ref_spec().view(), self.root()->0.view()) ==> r is Err && same(*old(w), *final(w)),
    /*C06 C07 C09 C10 C11 C15 C16*/ old(w).ok() && file.readable(*old(w)) && self.suits(target.as_ref_spec().view()) && (self.root() is Some ==> !is_tmpdir(cdir(self.root()->0.view()))) && (self.root() is Some ==> ({ let l = loc(self.file(target.as_ref_spec().view())); !(old(w).fs().dom().contains(l) && old(w).fs()[l] is Dir) }))
        && (self.root() is None ==> target.as_ref_spec().utf8()) ==> r is Ok

fn storage::Storage::get_file(path)
  ensures: /*C05 C06 C07 C08 C09 C10 C11 C16 C18*/ r is Ok && self.root() is Some ==> r->Ok_0 is InFilesystem && self.has_file(*w, path.view()) && r->Ok_0.entry().storage == *self && r->Ok_0.entry().path.view() == self.file(path.view())
        && r->Ok_0.entry().size == crate::std_::fs::node_len(w.fs()[loc(self.file(path.view()))]),
    /*C05 C09 C14 C15 C16*/ r is Ok && self.root() is None ==> r->Ok_0 is Inline && self.has_file(*w, path.view()) && r->Ok_0.gives(*w, w.s3()[self.key(path.view())]) && r->Ok_0.entry().storage == *self && r->Ok_0.entry().path.view() == self.bucket().key_of(path.view())
        && r->Ok_0.entry().size == w.s3()[self.key(path.view())].len(),
    /*C06 C07 C09 C14 C15 C16*/ w.ok() && (self.root() is Some ==> self.root()->0.utf8()) && self.has_file(*w, path.view()) ==> r is Ok

fn storage::Storage::list_files()
  proof: self.lemma_lists(*w);
  ensures: r is Ok ==> self.listing(*w, r->Ok_0@),
    r is Ok && self.root() is Some && pname(self.root()->0.view()) is Some ==> crate::std_::fs::leads_dir(w.fs(), self.root()->0.view()),
    w.ok() && self.root() is Some && pname(self.root()->0.view()) is Some && crate::std_::fs::leads_dir(w.fs(), self.root()->0.view()) && crate::std_::path::utf8_dir(cdir(self.root()->0.view())) ==> r is Ok,
    w.ok() && self.root() is Some && is_dir(self.root()->0.view()) && crate::std_::path::utf8_dir(cdir(self.root()->0.view())) ==> r is Ok,
    w.ok() && self.root() is None ==> r is Ok
  closure 0 types: crate::std_::io::Result<crate::std_::fs::DirEntry>
  closure 0 returns: Result<(crate::std_::fs::Metadata, PathBuf)>
  closure 0 ensures: r is Ok ==> entry is Ok && (r->Ok_0).0.node() == entry->Ok_0.node() && (r->Ok_0).1.name_utf8() == entry->Ok_0.utf8() && pname((r->Ok_0).1.view()) is Some && (entry->Ok_0.utf8() ==> (r->Ok_0).1.view() == pjoin(entry->Ok_0.dir(), entry->Ok_0.name())),
    w.ok() && entry is Ok ==> r is Ok
  closure 1 types: &(crate::std_::fs::Metadata, PathBuf)
  closure 1 returns: bool
  closure 1 ensures: r == (c0.0.node() is File && c0.1.name_utf8() && pname(c0.1.view()) is Some)
  closure 2 types: &crate::std_::ffi::OsStr
  closure 2 returns: Option<&Str>
  closure 2 ensures: r is Some <==> name.utf8()
  closure 3 types: (crate::std_::fs::Metadata, PathBuf)
  closure 3 returns: Result<Entry>
  closure 3 ensures: r is Ok ==> r->Ok_0.storage == *self && crate::std_::path::canon_post(w.fs(), c0.1.view(), r->Ok_0.path.view()) && r->Ok_0.size == crate::std_::fs::node_len(c0.0.node()),
    w.ok() && deref(w.fs(), loc(c0.1.view())) is Some && (forall|c: Path| #[trigger] crate::std_::path::canon_utf8(w.fs(), c0.1, c) ==> c.utf8()) ==> r is Ok
  closure 4 types: &crate::rusoto_s3::Object
  closure 4 returns: Result<Entry>
  closure 4 ensures: r is Ok ==> obj.key is Some && obj.size is Some && r->Ok_0.storage == *self && r->Ok_0.path == obj.key->0 && r->Ok_0.size == obj.size->0 as u64,
    obj.key is Some && obj.size is Some ==> r is Ok
  loop 0 invariant_except_break: next_at(continuation_token, objects@.len() as int)
  loop 0 invariant: self.root() is None, client.ep() == self.bucket().endpoint.view(), *bucket == self.bucket(),
    objects@.len() <= self.keys(*w).len(),
    forall|i: int| 0 <= i < objects@.len() ==> self.is_object(*w, #[trigger] objects@[i], self.keys(*w)[i])
  loop 0 ensures: objects@.len() == self.keys(*w).len()

fn storage::File::copy_to_local(_storage)
  requires: false
