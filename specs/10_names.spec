type index::version::Version
  items:
    impl View for Version { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.data.view() } }
    /// versions with the same text are the same
    pub broadcast proof fn axiom_version_ext(a: Version, b: Version) ensures #[trigger] a.view() == #[trigger] b.view() ==> a == b {}

fn index::version::Version::as_str()
  ensures: r.view() == self.view()

impl index::version::<Display for Version>
  items:
    open spec fn disp(&self) -> Seq<char> { self.view() }

impl index::version::<FromStr for Version>
  items:
    open spec fn from_str_post(s: &Str, r: Result<Self, InvalidVersion>) -> bool {
        (r is Ok <==> valid_version(s.view())) && (r is Ok ==> r->Ok_0.view() == s.view()) }

impl index::version::<TryFrom<&str> for Version>
  items:
    open spec fn try_from_post(s: &'a Str, r: Result<Self, InvalidVersion>) -> bool {
        (r is Ok <==> valid_version(s.view())) && (r is Ok ==> r->Ok_0.view() == s.view()) }

fn index::version::<TryFrom<&String> for Version>::try_from(s)
  ensures: <Version as TryFrom<&Str>>::try_from_post(s, r)

fn paths::path_as_string(path)
  ensures: r is Ok <==> path.as_ref_spec().utf8(), r is Ok ==> r->Ok_0.view() == path.as_ref_spec().view()

fn paths::file_name(path)
  ensures: r is Ok ==> pname(path.as_ref_spec().view()) is Some && r->Ok_0.view() == base_name(pname(path.as_ref_spec().view())->0),
    pname(path.as_ref_spec().view()) is Some && path.as_ref_spec().utf8() ==> r is Ok

fn paths::build_path_from_version(v)
  ensures: r is Ok && r->Ok_0.view() == build_name(v.view())

fn paths::build_version_from_path(path)
  ensures: r is Ok ==> pname(path.as_ref_spec().view()) is Some && r->Ok_0.view() == base_name(pname(path.as_ref_spec().view())->0) && valid_version(r->Ok_0.view()),
    pname(path.as_ref_spec().view()) is Some && path.as_ref_spec().utf8() && valid_version(base_name(pname(path.as_ref_spec().view())->0)) ==> r is Ok

impl index::patch::<Display for Patch>
  items:
    open spec fn disp(&self) -> Seq<char> { patch_stem(self.from.view(), self.to.view()) + d_patch() }

fn index::patch::Patch::new(from, to)
  ensures: r.from == from && r.to == to && r.local is None && r.remote is None

fn index::patch::Patch::from_path(path)
  ensures: r is Ok ==> path_names(path.as_ref_spec().view(), r->Ok_0.from, r->Ok_0.to) && r->Ok_0.local is None && r->Ok_0.remote is None,
    pname(path.as_ref_spec().view()) is Some && path.as_ref_spec().utf8() && parse_stem(base_name(pname(path.as_ref_spec().view())->0)) is Some ==> r is Ok

fn index::patch::Patch::set_local(local)
  ensures: final(self).local == Some(local) && final(self).remote == old(self).remote && final(self).from == old(self).from && final(self).to == old(self).to

fn index::patch::Patch::set_remote(remote)
  ensures: final(self).remote == Some(remote) && final(self).local == old(self).local && final(self).from == old(self).from && final(self).to == old(self).to

fn index::patch::Patch::size()
  items: pub open spec fn sp_size(&self) -> u64 { if self.local is Some { self.local->0.size } else { self.remote->0.size } }
  attr: #[verifier::when_used_as_spec(sp_size)]
  requires: self.local is Some || self.remote is Some
  ensures: r == self.sp_size()

fn index::patch::Patch::file_name()
  ensures: r.view() == patch_name(self.from.view(), self.to.view())

fn index::patch::patch_versions_from_path(path)
  ensures: r is Ok ==> path_names(path.as_ref_spec().view(), r->Ok_0.0, r->Ok_0.1),
    pname(path.as_ref_spec().view()) is Some && path.as_ref_spec().utf8() && parse_stem(base_name(pname(path.as_ref_spec().view())->0)) is Some ==> r is Ok

type index::patch::Patch
  items:
    /// the path names the patch between these versions
    pub open spec fn path_names(p: Seq<char>, a: Version, b: Version) -> bool {
        pname(p) is Some && parse_stem(base_name(pname(p)->0)) == Some((a.view(), b.view())) }

fn index::build::Build::new(version)
  ensures: r.version == version && r.local is None && r.remote is None

fn index::build::Build::set_local(local)
  ensures: final(self).local == Some(local) && final(self).remote == old(self).remote && final(self).version == old(self).version

fn index::build::Build::set_remote(remote)
  ensures: final(self).remote == Some(remote) && final(self).local == old(self).local && final(self).version == old(self).version

fn index::build::Build::size()
  items: pub open spec fn sp_size(&self) -> u64 { if self.local is Some { self.local->0.size } else { self.remote->0.size } }
  attr: #[verifier::when_used_as_spec(sp_size)]
  requires: self.local is Some || self.remote is Some
  ensures: r == self.sp_size()

impl index::build::<PartialEq for Build>
  after:
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Build {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Build) -> bool { self.version == o.version } }

impl index::patch::<PartialEq for Patch>
  after:
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Patch {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Patch) -> bool { self.from == o.from && self.to == o.to } }
