fn storage::Storage::add_file::try_parse_s3_error(res)
  status: trusted
  ensures: r is Ok <==> res is Ok

fn cli::<Default for WorkingDir>::default()
  status: trusted

impl index::graph::<TryFrom<ReadDir> for PatchGraph>
  items:
    open spec fn try_from_post(t: ReadDir, r: StdResult<Self, IoError>) -> bool { true }

fn index::graph::<TryFrom<ReadDir> for PatchGraph>::try_from(_x)
  status: trusted

impl cli::<FromStr for WorkingDir>
  items:
    open spec fn from_str_post(s: &Str, r: StdResult<Self, Infallible>) -> bool { r is Ok && r->Ok_0.0.view() == s.view() }

impl cli::<AsRef<Path> for WorkingDir>
  items:
    open spec fn as_ref_spec(&self) -> &Path { &self.0 }
