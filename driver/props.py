"""Which functions and lemmas carry which property. Keys as in map.json."""
G = 'index::graph::PatchGraph::'
I = 'index::Index::'
S = 'storage::'
V = 'index::version::'
P = 'index::patch::'
GRAPH = [G + 'empty', G + 'update_from_file_list', G + 'add_build', G + 'add_patch', G + 'has_build', G + 'local_build', G + 'remote_build', G + 'has_local_build', G + 'has_patch']
NAMES = ['paths::path_as_string', 'paths::file_name', 'paths::build_path_from_version', 'paths::build_version_from_path', V + 'Version::as_str', V + '<DisplayforVersion>::fmt', V + '<FromStrforVersion>::from_str',
         V + '<TryFrom<&str>forVersion>::try_from', V + '<TryFrom<&String>forVersion>::try_from']
PATCHES = [P + 'Patch::new', P + 'Patch::from_path', P + 'Patch::set_local', P + 'Patch::set_remote', P + 'Patch::size', P + 'Patch::file_name', P + '<DisplayforPatch>::fmt', P + '<PartialEqforPatch>::eq', P + 'patch_versions_from_path']
BUILDS = ['index::build::Build::new', 'index::build::Build::set_local', 'index::build::Build::set_remote', 'index::build::Build::size', 'index::build::<PartialEqforBuild>::eq']
PARTIAL = ['partial_file::PartialFile::create', 'partial_file::PartialFile::finish', 'partial_file::<WriteforPartialFile>::write', 'partial_file::<WriteforPartialFile>::flush', 'partial_file::<WriteforPartialFile>::write_vectored',
           'partial_file::<WriteforPartialFile>::write_all', 'partial_file::<DropforPartialFile>::drop', 'partial_file::generate_partial_file_name']
FILES = [S + 'Storage::get_file', S + 'Storage::add_file', S + 'entry::Entry::from_path', S + 'local::Storage::local_path']
UPLOAD = S + 'Storage::add_file::try_parse_s3_error'
LIST = S + 'Storage::list_files'
S3 = [S + 's3::Bucket::key_for', S + 's3::<TryFrom<&Url>forBucket>::try_from', S + 's3::<TryFrom<&Bucket>forS3Client>::try_from', S + 's3::validate_checksum']
PLACES = [S + '<From<InnerStorage>forStorage>::from', S + '<TryFrom<&Path>forStorage>::try_from', S + '<TryFrom<PathBuf>forStorage>::try_from', S + '<FromStrforStorage>::from_str']
COMP = ['compression::compress', 'compression::decompress', 'compression::compression_level']
DIFF = [S + 'local::Storage::is_local', I + 'calculate_patch::read_file', I + 'calculate_patch']
FETCH = [I + 'get_local_file', I + 'get_patch', I + 'get_build']
UPGRADE = [I + 'upgrade_to_build::apply_patches', I + 'upgrade_to_build', I + 'add_build_from_patch', 'apply_patch::apply_patch']
ADD = [I + 'add_local_build', I + 'add_build', I + 'add_patch']
CLI = ['sync', 'install', 'add', 'add_package', 'create_patch', 'auto_patch', 'get_and_patch', 'cli::AddBuild::add_to']
ALL = I + 'new'
MAIN = 'bin::main'

PROPS = {
    'C01': dict(fns=NAMES, lemmas=['lemma_C01_roundtrip', 'lemma_C01_injective']),
    'C02': dict(fns=NAMES + PATCHES, lemmas=['lemma_C02_roundtrip', 'lemma_patch_name_simple']),
    'C03': dict(fns=NAMES + PATCHES + BUILDS + GRAPH + PLACES + [ALL, LIST, S + 'entry::Entry::from_path', G + 'local_only_builds', G + 'local_only_patches'], lemmas=[]),
    'C04': dict(fns=PATCHES + BUILDS + GRAPH + [G + 'patches_needed', G + 'find_upgrade_path', I + 'upgrade_to_build'], lemmas=[]),
    'C05': dict(fns=NAMES + PATCHES + PARTIAL + FILES + COMP + DIFF + FETCH + ADD + UPGRADE + [G + 'has_local_build', G + 'patches_needed', G + 'find_upgrade_path', 'create_patch', 'install'], lemmas=[]),
    'C06': dict(fns=PARTIAL + COMP + FETCH + ADD + UPGRADE + FILES + [G + 'find_upgrade_path', 'install'], lemmas=[]),
    'C07': dict(fns=NAMES + PARTIAL + FILES + FETCH + PLACES + ['install', MAIN, ALL, I + 'add_build', I + 'upgrade_to_build'], lemmas=[]),
    'C08': dict(fns=PARTIAL + FILES + FETCH + UPGRADE + ADD + DIFF + [I + 'push'], lemmas=[]),
    'C09': dict(fns=NAMES + FETCH + GRAPH + FILES + ADD + PARTIAL, lemmas=[]),
    'C10': dict(fns=GRAPH + FILES + PARTIAL + [UPLOAD, I + 'push', G + 'local_only_builds', G + 'local_only_patches', 'sync', MAIN, ALL], lemmas=[]),
    'C11': dict(fns=NAMES + FILES + ADD + PARTIAL + ['add', MAIN, 'cli::AddBuild::add_to', I + 'push', G + 'add_build'], lemmas=[]),
    'C12': dict(fns=['packaging::package', 'packaging::add_file', 'add_package', MAIN] + COMP + PARTIAL, lemmas=['lemma_archive', 'lemma_ents', 'lemma_C12_ents', 'lemma_C12_place']),
    'C13': dict(fns=['git::tag_to_slice', 'git::natural_key', 'git::natural_cmp', 'git::find_tags_to_patch::dec', 'git::find_tags_to_patch', 'auto_patch'], lemmas=[]),
    'C14': dict(fns=[S + 's3::validate_checksum', S + 'Storage::get_file', S + 'Storage::add_file', UPLOAD, I + 'push', 'sync', MAIN], lemmas=[]),
    'C15': dict(fns=S3 + PLACES + FILES + [LIST], lemmas=[]),
    'C16': dict(fns=GRAPH + PATCHES + DIFF + FETCH + ADD + FILES + PARTIAL + ['create_patch', 'get_and_patch', 'cli::AddBuild::add_to', MAIN], lemmas=[]),
    'C17': dict(fns=['auto_patch', 'get_and_patch', I + 'get_build_for_tag', I + 'get_build', I + 'calculate_patch', 'git::get_tags', 'git::tag_to_slice', 'git::find_tags_to_patch', MAIN], lemmas=[]),
    'C18': dict(fns=NAMES + PATCHES + PARTIAL + FILES + FETCH + UPGRADE + ADD + DIFF + CLI + [UPLOAD, LIST, ALL, I + 'push', 'packaging::package', 'packaging::add_file', MAIN, 'cli::<FromStrforWorkingDir>::from_str', 'cli::<AsRef<Path>forWorkingDir>::as_ref'] + PLACES, lemmas=[]),
    'C19': dict(fns=COMP, lemmas=[]),
}

# Facts about the outside that the proofs rest on, by property (the stubs themselves are in prelude/*.rs)
COMMON = [
    'Verus 0.2026.09.13, Z3 and rustc are correct; vx keeps the meaning of the functions it extracts (its rewrites are listed in DESIGN.md)',
    'async functions run to completion one after the other; logging, progress output and the texts of errors have no effect',
    'the stubs of std and of the dependencies in /verif/prelude describe them correctly',
    'directories are not moved or replaced by other processes while a command runs',
]
EXTRA = {
    'C04': ['petgraph::algo::astar finds a cheapest path if the estimate is 0; no sum of patch sizes reaches 2^64'],
    'C05': ['bidiff and bipatch are inverse to each other', 'zstd decoding inverts zstd encoding'],
    'C06': ['bipatch and zstd report bad input as an error (bipatch only for input that zstd decodes completely)'],
    'C08': ['rename(2) and symlink(2) happen in one instant', 'the compiler calls Drop for every PartialFile that goes out of scope'],
    'C12': ['tar headers depend only on what is set in them; WalkDir visits everything below its root once'],
    'C13': ['the standard library sorts by a comparison that is an order'],
    'C14': ['MD5 is free of collisions; the server announces the MD5 of what it stores, except for multi-part objects'],
    'C15': ['the S3 server lists the keys with a prefix in pages, each once'],
    'C18': ['the compiler calls Drop for every PartialFile and TempDir that goes out of scope'],
    'C19': ['zstd decoding inverts zstd encoding at every level'],
}

BASE = ('Verus discharges every postcondition, precondition, loop invariant and lemma of the functions listed in the evidence, for all inputs and unbounded, on text extracted from /repo/src on every run. '
        'Trusted: Verus/Z3, the extractor, the stubs of std and the dependencies (prelude/). Commands are taken to run alone and awaits one after the other. '
        'Bounded runs of the real program support the model and replay violations; they are not counted as proof. ')
NOTES = {
    'C01': 'Names: exact inverse of each other, for every text.',
    'C02': 'Inverse for all pairs whose first version does not end in a dash (the rest: known finding).',
    'C03': 'Index::new gives exactly what both stores hold, for any content; it succeeds if all files that look like builds or patches have names that can be read.',
    'C04': 'Cheapest chain among all chains of the graph, and the comparison with the size of the build; the search itself (petgraph astar) is trusted.',
    'C05': 'For every assignment of contents to versions that the stores agree with: the build made from patches decodes to the content of its version. bidiff/bipatch/zstd being inverses is trusted.',
    'C06': 'The upgrade succeeds if the build itself can be fetched and nothing fails from outside; what is left under a build name decodes, and was made by patches that applied.',
    'C07': 'Every event that the commands write is one that the contract allows: only the last rename touches `current`, after the build file is in place.',
    'C08': 'Crash points are all points between events of the log: final names only appear together with complete content. rename(2) is taken to be atomic.',
    'C09': 'Frame conditions over the whole file system and bucket.',
    'C10': 'Success implies that everything owed is stored with the same bytes; frame conditions for everything else.',
    'C11': 'Exactness, frame, and rejection conditions. FIFOs and devices as sources are outside the model.',
    'C12': 'The bytes of the archive are a function of relative paths, modes and contents, in the order of paths; walkdir and tar are trusted, trees that hold the temporary directory itself are excluded.',
    'C13': 'The picked tags are exactly the specified ones, for every text and every list of tags.',
    'C14': 'MD5 itself is trusted.',
    'C15': 'Addresses and complete pagination, against a model of the S3 listing calls.',
    'C16': 'Frame conditions of every command that creates patches.',
    'C17': 'Success implies that all patches exist, for indexes in which no version ends in a dash; all tags are tried.',
    'C18': 'The contract of main: everything written is directly in one of the two stores or in a temporary directory of the run.',
    'C19': 'For every text in the environment variable; zstd itself is trusted.',
}
for _k in NOTES:
    NOTES[_k] = BASE + NOTES[_k]
