#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Build file names and versions determine each other",
 "The store file of build version V is named V.tar.zst, and reading the version back from that file name, from whatever directory, gives exactly V: two different versions never share a build file, nor is one build file read as another version. A version is accepted exactly when it contains neither `---` nor `/`; it is kept unchanged, and displayed unchanged.",
 ["inputs"],"all strings as versions, all directories the file can be in",
 "The tests use a handful of tame versions (`1`, `build2`, `v1.2.3`); versions with dots, dashes, `.tar`, `.patch`, empty or non-ASCII text are unbounded and never sampled.",
 ["src/paths.rs","src/index/version.rs","src/cli.rs","src/index.rs"],
 [("file_name / build_version_from_path / build_path_from_version","src/paths.rs"),("Version::from_str","src/index/version.rs")],
 ["paths::*","Version::from_str","file names in the store after add, add-package, install"])
p("C02","Patch file names identify both of their versions",
 "The patch from version A to version B is stored as A-B.patch.zst if neither name has a dash and as A---B.patch.zst otherwise, and reading such a file name back gives exactly the pair (A, B). So two different (A, B) pairs never share a patch file, and a patch is never taken for one between other versions.",
 ["inputs"],"all pairs of valid versions",
 "One unit test checks two names; the separator depends on the content of both versions, and the parser tries two separators in turn.",
 ["src/index/patch.rs","src/paths.rs"],
 [("Display for Patch, file_name, patch_versions_from_path","src/index/patch.rs")],
 ["patch files in the store after create-patch","patches known after opening a store with such files"])
p("C03","The index is exactly what is in the two stores",
 "After opening, a build version is known exactly if the local or the remote store contains a non-empty regular file with its build file name, a patch exactly if one of them has such a non-empty patch file and both its builds are known by then, each with the path and size found there and for the right store. Other files - symlinks (even dangling), directories, empty files, temporary files, files with other extensions - are ignored and never make opening fail.",
 ["inputs","histories"],"all contents of the local and the remote directory, in every listing order",
 "Tests open stores with one or two well-formed files; mixes of empty, partial, dangling, patch-before-build and local/remote duplicates are not sampled.",
 ["src/index.rs","src/index/graph.rs","src/storage/mod.rs"],
 [("Index::new","src/index.rs"),("update_from_file_list, add_build, add_patch","src/index/graph.rs"),("list_files","src/storage/mod.rs")],
 ["Index::new followed by get_build / get_patch / push / upgrade"])
p("C04","Upgrades take the cheapest route",
 "When upgrading from version A to B, the patches chosen form an unbroken chain from A to B in order of application, and no other chain of known patches has a smaller total size. The chain is used if and only if its total size is strictly smaller than the size of the build of B (a local copy's size taking precedence over the remote's); otherwise, or if there is no chain, the build of B is taken itself.",
 ["inputs"],"all patch graphs, sizes and version names",
 "Two unit tests use the chain 1 -> 2 -> 3; routes whose lexicographic order differs from their order, cycles, alternatives and ties need arbitrary graphs.",
 ["src/index/graph.rs","src/index/patch.rs","src/index/build.rs"],
 [("patches_needed, find_upgrade_path","src/index/graph.rs"),("Patch::size, Build::size","src/index/patch.rs, src/index/build.rs")],
 ["upgrade_to_build: which files are fetched"])
p("C05","A patched upgrade gives the same content as the build itself",
 "If every patch file holds the difference between its two builds, upgrading from A to B leaves in the local store a build file of B that decompresses to exactly the bytes the published build of B decompresses to, whichever route of patches and local builds was used. A patch created here and then applied to its source build likewise reproduces its target build byte for byte.",
 ["inputs","histories"],"all build contents, all patch chains, all subsets of builds already present locally",
 "The install tests apply one or two patches between random files and compare one of them.",
 ["src/index.rs","src/apply_patch.rs","src/compression.rs"],
 [("upgrade_to_build, add_build_from_patch, calculate_patch","src/index.rs"),("apply_patch","src/apply_patch.rs")],
 ["content of the target build file after upgrade_to_build / install"])
p("C06","A bad or missing patch never blocks or corrupts an upgrade",
 "If any patch of the chosen route is missing, unreadable, truncated or not a patch at all, the upgrade falls back to the target build itself and succeeds whenever that build can be fetched directly. Nothing made from a patch that failed to apply stays in the store under a build's name.",
 ["inputs","fault_sequences"],"all patch routes, any subset of the patches damaged in any way that applying them reports",
 "One test corrupts one patch with one content.",
 ["src/index.rs","src/partial_file.rs","src/apply_patch.rs"],
 [("upgrade_to_build (apply_patches fallback), add_build_from_patch","src/index.rs"),("Drop for PartialFile","src/partial_file.rs")],
 ["upgrade_to_build result and store content"])
p("C07","Install switches `current`, and only to a usable build",
 "After a successful install of V, `current` in the local store is a symbolic link that resolves to the store's existing non-empty build file of V. If the install fails, or is interrupted at any point, `current` is left as it was before or already points at that complete build of V, and it is never absent once it existed. It succeeds whatever `current` was before - no link, another version, or a dangling link - if the build of V is available.",
 ["inputs","histories","crash_points","fault_sequences"],"all stores, all previous states of `current`, every system call at which the process is stopped or that fails",
 "The install tests cover fresh installs and one upgrade; no test stops or fails an install in the middle or starts from a dangling link.",
 ["src/lib.rs","src/main.rs"],
 [("install","src/lib.rs"),("Command::Install","src/main.rs")],
 ["readlink(current) and the file it resolves to"])
p("C08","A file with a final name is always complete",
 "Whenever a build or patch file is written into a local store (or a directory used as remote), it is either absent or has its old content, or has its complete new content under its final name, at every instant: no crash, error, or full disk at any point leaves a truncated or partially written file under a final name. Data that is still buffered is written out before the file gets its name, and on errors that do not kill the process the temporary file is removed.",
 ["crash_points","fault_sequences"],"every system call of add, fetch, patch creation and patch application as crash point or failing call",
 "Needs a crash or an I/O error at each point of each operation; the tests only check drop and finish of one temporary file.",
 ["src/partial_file.rs","src/storage/mod.rs","src/index.rs","src/lib.rs"],
 [("PartialFile::{create,write,finish,drop}","src/partial_file.rs"),("Storage::add_file","src/storage/mod.rs"),("calculate_patch, add_build_from_patch","src/index.rs")],
 ["content of the store directory after a crash or an error"])
p("C09","Fetching gives the exact file, caches it, and never alters others",
 "Asking for a known build or patch gives a local store file with its final name: the existing non-empty local one, untouched, even if the remote's differs; otherwise a byte-exact copy of the remote file, which is kept and known as local from then on. Asking for an unknown version fails without any effect; and no other file in either store changes in any case.",
 ["inputs","histories"],"all stores, all sequences of requests",
 "Tests fetch one file from one remote; precedence, empty local files, unknown versions next to known ones, and the frame (nothing else changes) are not checked.",
 ["src/index.rs","src/storage/mod.rs"],
 [("get_build, get_patch, get_local_file, add_build, add_patch","src/index.rs"),("get_file, add_file","src/storage/mod.rs")],
 ["returned entry; bytes of all files in both stores before and after"])
p("C10","Sync uploads exactly what the remote is missing, unchanged",
 "After a successful sync, every build and patch that is known locally and was not known on the remote is in the remote store under the same file name with the same bytes. No file that was known on the remote when the index was opened is written, no other file is uploaded, and nothing in the local store changes; if an upload fails, sync fails.",
 ["inputs","histories"],"all local and remote contents",
 "Tests upload one or two files to an empty remote.",
 ["src/index.rs","src/index/graph.rs","src/storage/mod.rs","src/lib.rs"],
 [("push","src/index.rs"),("local_only_builds, local_only_patches","src/index/graph.rs")],
 ["bytes of all files in both stores before and after"])
p("C11","Adding a build stores it exactly, or changes nothing",
 "Adding a file registers it as the version its file name gives and stores a byte-exact copy of it under that version's build file name in the local store, leaving the source and every other file alone; with upload requested, everything new is on the remote afterwards too. A file that does not exist, is empty, has a name that gives no valid version, or lies inside the local store itself is rejected, and then both stores keep exactly the content they had.",
 ["inputs","histories"],"all source files, names and stores, including an existing build of that version",
 "Tests add one file to a fresh store; rejection cases are tested for exit status only, not for what they leave behind.",
 ["src/cli.rs","src/index.rs","src/storage/mod.rs","src/lib.rs"],
 [("AddBuild::add_to","src/cli.rs"),("add_local_build, add_build","src/index.rs"),("add, add_package","src/lib.rs")],
 ["exit status; bytes of all files in both stores before and after"])
p("C12","Packages are deterministic and complete",
 "Packaging a directory gives an archive with one entry for each regular file below it, in ascending path order, each with its path relative to the directory, its permission bits and its exact content, and nothing else; a single file gives one entry with its file name. The bytes of the archive depend on nothing but those names, permission bits and contents - not on time, owner, device, absolute location or listing order - and anything that cannot be read makes packaging fail instead of being left out.",
 ["inputs","configurations"],"all directory trees, names, modes and contents",
 "A property test copies random trees once, without changed modes, deep nesting, symlinks, long names or unreadable files, and never compares contents.",
 ["src/packaging.rs","src/lib.rs"],
 [("package, add_file","src/packaging.rs"),("add_package","src/lib.rs")],
 ["the archive bytes; add-package"])
p("C13","Automatic patching picks the latest tag of each preceding series",
 "Split at dots and dashes and ignoring case, the current version is a list of parts; for each position, from the last to the first, whose part is a positive integer (below 2^64), the tag picked is the one that comes last in natural order (numbers in the text compared by their value, the rest by characters) among all tags starting with the same parts up to there with that one decreased by one. Positions without such a tag are skipped, nothing else is picked, and the order in which the tags are given makes no difference.",
 ["inputs"],"all versions and tag lists",
 "Nine hand-written lists of at most six tags.",
 ["src/git.rs"],
 [("find_tags_to_patch, tag_to_slice","src/git.rs")],
 ["git::find_tags_to_patch; auto-patch"])
p("C14","Corrupted S3 transfers are detected",
 "A download from S3 whose bytes do not have the MD5 the server announces as (single-part) ETag is rejected, before anything of it is stored; one that matches is accepted unchanged. Every upload carries the MD5 of exactly the uploaded bytes, so that the server can reject a corrupted one, and a rejected or failed upload makes the command fail.",
 ["inputs","fault_sequences"],"all contents, checksums and corruptions",
 "The only S3 tests parse one URL; none has a server to talk to.",
 ["src/storage/s3.rs","src/storage/mod.rs"],
 [("validate_checksum","src/storage/s3.rs"),("get_file, add_file","src/storage/mod.rs")],
 ["requests seen by the server; store content after a corrupted download"],
 "S3 server override in src/storage/s3.rs")
p("C15","S3 listing, download and upload agree on addresses",
 "For a remote s3://BUCKET.ENDPOINT/PATH every request goes to that bucket at that endpoint, and the file NAME has the one key PATH/NAME (no leading or trailing slash of PATH counted) for upload and download alike. The listing shows exactly the objects directly below PATH, all of them however many pages the server takes, with their keys and sizes, so that whatever was uploaded is found by the next run and whatever is listed can be fetched.",
 ["inputs","histories"],"all S3 URLs, bucket contents and page sizes",
 "One unit test parses one URL.",
 ["src/storage/s3.rs","src/storage/mod.rs"],
 [("Bucket::try_from, key_for","src/storage/s3.rs"),("list_files, get_file, add_file","src/storage/mod.rs")],
 ["requests seen by the server"],
 "S3 server override in src/storage/s3.rs")
p("C16","Creating a patch adds that one patch, and only that",
 "Creating a patch from A to B succeeds only if A and B differ and both builds are known; afterwards the non-empty patch file of (A, B) is in the local store and known, and both builds are local too. An existing patch file of (A, B) is kept as it is, and apart from the patch and fetched builds nothing in either store changes; between the same versions no patch is ever created, by any command.",
 ["inputs","histories"],"all stores and version pairs, patch already present locally, remotely or not at all",
 "Tests create one patch between two random builds.",
 ["src/lib.rs","src/index.rs","src/cli.rs"],
 [("create_patch","src/lib.rs"),("calculate_patch, get_patch","src/index.rs"),("add_to (--calc-patch-from)","src/cli.rs")],
 ["bytes of all files in both stores before and after; exit status"])
p("C17","Auto-patch reports success only if all patches were made",
 "Auto-patch for version V with prefix P tries to create the patch from the build that matches P+tag to the build P+V for every tag picked, also after one of them failed. It exits successfully only if every one of those patches exists afterwards, and fails before creating anything if the build P+V is unknown.",
 ["inputs","histories"],"all repositories, prefixes and stores, any subset of the tags lacking a build",
 "Tests use one repository with builds for all tags.",
 ["src/lib.rs","src/index.rs","src/main.rs"],
 [("auto_patch, get_and_patch","src/lib.rs"),("get_build_for_tag","src/index.rs")],
 ["exit status and patches in the local store"])
p("C18","Nothing is written outside of the stores",
 "Whatever the version names, file names and file contents, a command creates, changes or removes files only directly inside the local store, directly inside the remote store, and inside a temporary directory of its own that is removed again. Names that would lead elsewhere are rejected.",
 ["inputs"],"all versions, file names, archive and patch contents",
 "No test looks outside the store directories.",
 ["src/lib.rs","src/index.rs","src/storage/mod.rs","src/index/version.rs"],
 [("Version::from_str","src/index/version.rs"),("add_package","src/lib.rs"),("add_file","src/storage/mod.rs")],
 ["the file system outside of the stores before and after"])
p("C19","Compression settings never change contents",
 "Compressing any bytes and decompressing the result gives back the same bytes, whatever ARTEFACTA_COMPRESSION_LEVEL is set to. A value that is not an integer (or none) means the default level 14, any integer is used as the level, and decompressing something that is not valid compressed data is an error, never wrong bytes.",
 ["inputs","configurations"],"all contents and all values of the setting",
 "The tests never set the variable and only use the test default level 1.",
 ["src/compression.rs"],
 [("compress, decompress, compression_level","src/compression.rs")],
 ["compress, decompress"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    import re
    n=len(re.findall(r'[.?!](\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
