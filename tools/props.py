"""The single source of properties.jsonl, MANIFEST.json and the per-property rule texts (sa/rules.py)."""
P = []


def p(id, title, statement, over, quant, why, files, mech, rule, floors, technique, note, assume=(), state=None, observe=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, rule=rule, floors=floors,
                  technique=technique, note=note, assume=list(assume), state=state, observe=observe, claimed=claimed, reason=reason))


CMDS = ["Debug", "Sync", "Install", "AddPackage", "CreatePatch", "AutoPatch", "Add"]
COMMON = ["library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)",
          "paths are compared as provenance terms: two different user-supplied paths are not assumed to alias"]

p("C01", "Files in a store are complete from the moment they have their name",
  "At every moment, whatever step the program was interrupted at, a build or patch that is visible under its name in the local store or in a directory used as remote store has its complete content. A file whose writing failed, was cut short or was not finished never gets its name, and a named file is never changed in place.",
  ["crash_points", "fault_sequences", "inputs"], "every point at which the program can be killed or a read, write, flush, rename or encoder step can fail, for every command and both kinds of store",
  "Tests run each operation to completion on a healthy disk; they cannot stop between creating and filling a file, nor make a write or a flush fail.",
  ["src/partial_file.rs", "src/storage/mod.rs", "src/index.rs", "src/lib.rs"],
  [("staging file renamed into place", "src/partial_file.rs PartialFile::finish"), ("copying into a store", "src/storage/mod.rs Storage::add_file"), ("builds from patches", "src/index.rs add_build_from_patch"), ("new patches", "src/index.rs calculate_patch")],
  "every handle that can write is opened on a staging name; on every path to a rename onto a store name, each write/flush/encoder-finish result since the creation was checked, every encoder is finished, buffers are flushed, no write is short, the sources were read without unchecked errors, and source and target are in the same directory; nothing opens, copies to or truncates a final name",
  [(r"^create/", 1, "file creations"), (r"^publish/.*remote", 1, "publications into a directory used as remote"), (r"^publish/.*local", 1, "publications into the local store")],
  "typestate analysis of file handles over the MIR", "Decides the ordering and error discipline of every write path; power loss (fsync ordering) is out of reach and not claimed.", COMMON)

p("C02", "No staging files, links or temporary directories are left behind",
  "When a command ends, with success or with an error, every staging file, staged link and temporary directory it created has been removed or has become its final artefact.",
  ["fault_sequences", "inputs"], "every error return and success return of every command",
  "Tests see the few error paths they provoke; leaks appear on error paths between creation and publication that need a failing disk or a corrupt patch.",
  ["src/partial_file.rs", "src/lib.rs"],
  [("removal when dropped unfinished", "src/partial_file.rs Drop"), ("removal of the staged link", "src/lib.rs install"), ("temporary directory", "src/lib.rs add_package")],
  "at every exit of main (Ok, Err, process exit) no created staging path, staged link or temporary directory is still in state live; a removal whose own result is ignored counts as done",
  [], "typestate analysis with drop elaboration", "Exits by signal or by a panic in a library are not covered; removal failures are accepted.", COMMON)

p("C03", "Success means that the artefacts asked for are in the local store",
  "When adding, packaging, patching or auto-patching reports success, the build that was added or required and, where one was asked for, the patch between the two requested versions are in the local store under their own names, as files that are not empty.",
  ["inputs", "fault_sequences", "histories"], "every version, every state of the two stores and every combination of swallowed errors on the way to a success return",
  "Tests check the result of one healthy run per command; a success return after an ignored failure needs a specific state of both stores.",
  ["src/lib.rs", "src/cli.rs", "src/index.rs"],
  [("commands", "src/lib.rs add, add_package, create_patch, auto_patch"), ("adding with optional patch", "src/cli.rs AddBuild::add_to"), ("calculating a patch", "src/index.rs calculate_patch")],
  "on every path to a success return of the command, a fact 'usable(kind, versions)' holds for the artefact named by the command's own arguments; the fact comes from the checked success of renaming a complete file to that very path in the local store, or of measuring the file there and finding it not to be empty",
  [("^%s/" % c, 1, "exits of `%s`" % c) for c in CMDS], "must-reach dataflow over all success exits", "Presence is presence at some checked moment of the run; removal by another process afterwards is not modelled.", COMMON)

p("C04", "After a successful install `current` leads to the requested build",
  "When installing a version reports success, `current` in the local store is a link to the build of exactly that version in the local store, and this build file exists and is not empty.",
  ["inputs", "histories", "fault_sequences"], "every requested version, every previous state of `current` (absent, dangling, unreadable, of another version), every upgrade path and every failing step",
  "Tests install from a handful of healthy states; dangling links, empty cached files and failing patches on the way need histories they do not build.",
  ["src/lib.rs", "src/index.rs"],
  [("switching the link", "src/lib.rs install"), ("getting the build", "src/index.rs get_build, upgrade_to_build")],
  "the target of the link that is renamed onto `current` names the build of the requested version in the local store and was checked to exist and to be non-empty on every path; every success exit of install has either passed that rename or compared the link's target with the path of the requested build in the local store, a file that was seen to exist and not to be empty",
  [(r"^switch/", 1, "switches of `current`"), (r"^exit/", 1, "success exits of install")],
  "dataflow facts at the switch and at all success exits", "File content beyond name, existence and size is C07's subject.", COMMON)

p("C05", "`current` changes only by install, in one atomic step",
  "No command other than install touches `current`, and install changes it by a single atomic replacement, so that an interrupted or failing install leaves the previous link in place.",
  ["crash_points", "fault_sequences"], "every interruption point and failing system call of every command",
  "A test sees the state before and after a run, not the moment in which the link is missing.",
  ["src/lib.rs"], [("link staged under another name, then renamed", "src/lib.rs install")],
  "every file-system change whose path is `current` is a rename of a link made by this run in the same directory; such a rename occurs only under the install command; no removal, creation or in-place change of that path exists",
  [(r"", 1, "renames onto `current`")], "effect analysis over resolved paths", "Assumes that rename within one directory is atomic.", COMMON)

p("C06", "Install succeeds whenever the build can be fetched directly",
  "If the requested build is available in the local or remote store, install does not fail because of the state of the link `current`, a missing upgrade path, or an unusable patch: it falls back to the complete build.",
  ["inputs", "histories", "fault_sequences"], "every state of `current`, every graph of patches and every corrupt or missing patch on the way",
  "Fallbacks run only in damaged states; tests exercise one of them.",
  ["src/lib.rs", "src/index.rs", "src/index/graph.rs"],
  [("unknown current version", "src/lib.rs install"), ("failed patches", "src/index.rs upgrade_to_build"), ("no upgrade path", "src/index/graph.rs find_upgrade_path")],
  "no error return of install originates in, or is decided by the failure of, reading or parsing the link `current`, searching the path, or fetching and applying a patch",
  [(r"Err", 5, "origins of failing exits of install")], "error-provenance analysis of failing exits", "A failure that also makes the direct fetch fail (an unwritable local store, an unreadable remote store) may end install. Panics of install on the same causes count.", COMMON)

p("C07", "Every artefact holds the content its name promises",
  "A file stored or uploaded as build of a version holds the unmodified bytes of that version's build (copied from a file of that name, packaged under it, or produced by a patch leading to it from its own old build), and a file stored as patch between two versions holds the compressed difference from the first to the second build.",
  ["inputs", "histories"], "every pair of versions, kind of store, and route by which a file gets its name",
  "Tests use one or two versions, for which many mix-ups (old for new, patch of another pair, double compression) cannot show or show as a passing round trip.",
  ["src/index.rs", "src/storage/mod.rs", "src/apply_patch.rs", "src/index/patch.rs", "src/lib.rs"],
  [("computing patches", "src/index.rs calculate_patch"), ("applying patches", "src/index.rs add_build_from_patch, src/apply_patch.rs"), ("copying", "src/storage/mod.rs add_file, get_file")],
  "at every publication the provenance of the written content is one of the enumerated forms (copy of same-named file or object; compressed tar; compressed diff of the decompressed local builds named by the patch name, in that order; compressed result of applying the decompressed patch named from-to, read to its end, to the decompressed build `from`, stored as build `to`), each taken from sources that were not partly read, moved or written to before",
  [(r"local/build/.*copy", 1, "copies of builds into the local store"), (r"local/patch/.*diff", 1, "computed patches"), (r"tar", 1, "packaged archives"), (r"patched|local/build", 1, "builds in the local store")],
  "provenance analysis of written content", "The byte-level correctness of the diff, patch and compression libraries is assumed.", COMMON)

p("C08", "Patches are applied one after another along the upgrade path",
  "When a build is reached through patches, each applied patch starts at the build the previous one produced, in the order of the path that was found, and no step of the path is left out except a leading part whose builds are already local.",
  ["inputs", "histories"], "every upgrade path of any length and every subset of builds already present",
  "Tests use paths of at most two patches and one set of local builds.",
  ["src/index.rs", "src/index/graph.rs"], [("steps of the path", "src/index/graph.rs patches_needed"), ("applying them", "src/index.rs upgrade_to_build")],
  "every applied patch joins two neighbouring nodes (i, i+1) of the same search result, in that direction; the sequence is taken in order without reversal, re-sorting or unordered collection, and elements are dropped only from the front while the target build is known to be local; a loop over positions covers all neighbouring pairs",
  [(r"^apply/", 1, "applied patches")], "dataflow over iterator pipelines", "The search result itself (petgraph's astar) is trusted to be a path.", COMMON)

p("C09", "Patches are only used when they are smaller than the build",
  "Install uses patches only if the total size of the patches on the chosen path is smaller than the complete build, and among the possible paths it takes one of least total patch size.",
  ["inputs", "configurations"], "every graph of builds and patches with any sizes",
  "Tests fix two graphs; the optimum depends on all sizes and edges.",
  ["src/index/graph.rs"], [("search and comparison", "src/index/graph.rs patches_needed, find_upgrade_path")],
  "every application of a patch during install is dominated by the comparison cost < build size of the same search; the search's goal is the requested build, its edge cost the size of that edge's file, a size that was at no point cut off to fewer bits, its estimate never exceeds the real cost",
  [(r"^search/", 1, "searches for a path"), (r"^apply/", 1, "applied patches"), (r"^entry/", 1, "sizes of files")], "dominating-fact analysis", "That astar finds a cheapest path for an exact edge cost and an admissible estimate is assumed of petgraph.", COMMON)

p("C10", "No patch from a version to itself is written",
  "A patch is written only between two different versions, whatever command asks for it.",
  ["inputs"], "every pair of versions, given directly, by tag or by prefix",
  "The case needs equal versions on each of four routes into the calculation.",
  ["src/index.rs", "src/lib.rs"], [("rejection", "src/index.rs calculate_patch")],
  "every publication of a computed patch is dominated by a branch on which the two versions compare unequal",
  [(r"", 1, "computed patches")], "dominating-fact analysis", "", COMMON)

p("C11", "Names of builds and patches can be read back without ambiguity",
  "A version never contains the separator reserved for patch names nor a path separator, and a patch is written only under a name which reads back as exactly the two versions it was computed for.",
  ["inputs"], "every string a user, tag or listing can provide as version",
  "Round trips hold for the friendly names tests use; the failures need versions with dashes, suffixes or separators in specific places.",
  ["src/index/version.rs", "src/index/patch.rs", "src/paths.rs", "src/index.rs"],
  [("validation", "src/index/version.rs from_str"), ("file names", "src/index/patch.rs"), ("read-back check", "src/index.rs calculate_patch")],
  "every construction of a version value is dominated by the checks that exclude the reserved separator and path separators; every publication of a computed patch is dominated by equality of both versions parsed from its own file name",
  [(r"^patch-name/", 1, "computed patches"), (r"^version/", 1, "constructions of versions")], "dominating-fact analysis of constructor sites and publications", "", COMMON)

p("C12", "Only files directly inside the two stores are created, renamed or removed",
  "Apart from its own temporary directory the program creates, renames and removes only direct children of the local store and, with permission, of a directory used as remote store; it never removes or replaces an artefact it has not staged, and it changes nothing else in the file system.",
  ["inputs"], "every version, tag, file name, object key and path given by the user or found in a store",
  "Escapes need names with separators, parent components or absolute paths, which tests do not use.",
  ["src/storage/mod.rs", "src/index.rs", "src/partial_file.rs", "src/index/version.rs", "src/lib.rs"],
  [("versions without separators", "src/index/version.rs"), ("target paths", "src/storage/mod.rs add_file"), ("staging names", "src/partial_file.rs")],
  "for every file-system change in the program the path term is a store root joined with one component that cannot contain a separator (version-derived names, file names, constants); every removal targets a file staged by this run; effects outside the modelled file-system interface are rejected",
  [(r"creation", 1, "creations"), (r"rename-onto", 1, "renames"), (r"removal", 1, "removals")], "path-containment (taint) analysis", "The store directories themselves are the user's choice; links inside a store are not followed by the model.", COMMON)

p("C13", "Stores change only by commands that are meant to change them",
  "The remote store is changed only by `sync`, or by adding with `--upload`; the debug command changes nothing and `sync` does not change the local store. Objects and files of the remote store are only ever added or replaced, never removed.",
  ["inputs", "configurations", "histories"], "every command, option combination and store state",
  "Tests check the positive effect of a command; an additional write in another configuration goes unnoticed.",
  ["src/lib.rs", "src/cli.rs", "src/index.rs", "src/main.rs"],
  [("dispatch", "src/main.rs"), ("upload flag", "src/cli.rs"), ("push", "src/index.rs push")],
  "every change in the remote store occurs only on paths on which the command is sync, or is an add command with the upload flag true; no change in the local store occurs before dispatch, under debug, or under sync; no object operation other than reading and putting exists",
  [(r"remote$", 1, "changes of a remote store"), (r"local$", 1, "changes of the local store")], "path-sensitive effect analysis keyed by command and flags", "", COMMON)

p("C14", "A successful sync has uploaded everything that was only local",
  "When sync reports success, every build and patch that is in the local store and not in the remote store, and that the index knows (C18), has been uploaded.",
  ["histories", "inputs", "fault_sequences"], "every content of both stores and every failing upload",
  "Tests sync one or two files without failures; skipped elements and swallowed upload errors need more.",
  ["src/index.rs", "src/index/graph.rs", "src/storage/mod.rs"],
  [("selection", "src/index/graph.rs local_only_builds, local_only_patches"), ("uploading", "src/index.rs push"), ("storing", "src/storage/mod.rs add_file")],
  "on every path to the success exit of sync, all nodes and all edges of the index were iterated to the end and each element was either put into the remote store with a checked result or skipped only because it is known remotely or not present locally",
  [(r"^nodes/", 1, "success exits"), (r"^edges/", 1, "success exits"), (r"^put/", 1, "uploads")], "coverage analysis of source-to-sink iteration", "Relies on C18 for the index reflecting the stores.", COMMON)

p("C15", "Transfers to and from the object store are checked against their checksum",
  "A downloaded object is stored only after its content was compared with the checksum the object store gave for it (except checksums of multipart uploads, which are none of the content), and every upload carries the checksum of exactly the bytes it sends, read completely.",
  ["fault_sequences", "inputs"], "every corruption or truncation in transit and every object",
  "The existing tests have no object store to corrupt.",
  ["src/storage/mod.rs", "src/storage/s3.rs"], [("comparison", "src/storage/s3.rs validate_checksum"), ("upload checksum", "src/storage/mod.rs add_file")],
  "every publication whose content is a downloaded body is dominated by equality of the hex md5 of the whole body with the object's own entity tag (or by the tag containing '-'); every put request has content_md5 = base64(md5(body)) of the same body value, whose read was checked",
  [(r"^upload/", 1, "uploads"), (r"^store/", 1, "stored downloads")], "dominating-fact analysis", "", COMMON)

p("C16", "Packages depend only on names, contents and permissions of the files",
  "Packaging the same tree twice gives the same archive entries in the same order with the same metadata: order is by path, and neither time stamps, owners nor the order in which the file system lists entries reach the archive.",
  ["inputs", "configurations", "schedules"], "every tree, directory order, clock, owner and machine",
  "Directory order, time and owner are the same within one test run.",
  ["src/packaging.rs"], [("sorted walk", "src/packaging.rs package"), ("deterministic headers", "src/packaging.rs")],
  "the walk feeding the archive is sorted by path by a closure that compares the two paths; header fields come from the deterministic mode or constants; no time, owner, device or process value flows into a header or the archive",
  [(r"^order/", 1, "archive entries"), (r"^set_", 1, "header fields")], "dataflow over header setters", "A directory walk is taken as a set of entries; ordering is decided by the comparator given to it.", COMMON)

p("C17", "A package contains every file of the directory, under its own path",
  "When packaging reports success, the archive contains every regular file of the packaged directory, each with its complete content under the relative path it has there.",
  ["inputs", "fault_sequences"], "every directory tree and every unreadable entry",
  "Tests package one small tree; skipped entries and swallowed walk errors need others.",
  ["src/packaging.rs", "src/lib.rs"], [("walk and append", "src/packaging.rs package")],
  "on every path to the success exit the directory walk was iterated to its end, each element that is a regular file was appended with a checked result, none was filtered, truncated or skipped for another reason; the walk is not confined to one file system; the appended name is the entry's path below the root and its data is read from the start of the entry's own file",
  [(r"^walk/", 1, "success exits of packaging"), (r"^content/", 1, "archive entries"), (r"^root/", 1, "directory walks")], "coverage analysis of source-to-sink iteration", "", COMMON)

p("C18", "The index knows every usable build and patch of both stores",
  "After opening the stores, every regular, non-empty file or object whose name marks it as a build or patch is registered with its store, except patches of which a build is in neither store; a failing listing or an unreadable name is an error, not an omission. What the index knows it neither forgets nor knows twice.",
  ["inputs", "histories", "fault_sequences"], "every content of a directory or bucket, in any listing order and of any length",
  "Tests list a handful of files in one directory; the quantifier is over all listings, including multi-page ones.",
  ["src/index/graph.rs", "src/storage/mod.rs", "src/index.rs"],
  [("listing", "src/storage/mod.rs list_files"), ("registering", "src/index/graph.rs update_from_file_list")],
  "on every path to a successful end of any command each listing (local directory, remote directory, bucket pages) was iterated to its end and each element was stored in the index under the right store or was exempted by a branch that proves one of the stated reasons (patches: after the builds of both stores were registered); nothing is taken out of the index, no store of an entry is unset, entries are added only where a lookup of the same version or versions failed, and a file is registered under the version or versions its name is made of",
  [(r"^list-local:b/", 1, "local builds"), (r"^list-local:p/", 1, "local patches"), (r"^list-s3:b/", 1, "bucket builds"), (r"^list-s3:p/", 1, "bucket patches"), (r"^list-fs:b/", 1, "directory builds"), (r"^list-fs:p/", 1, "directory patches")],
  "coverage analysis of source-to-sink iteration", "", COMMON)

p("C19", "Auto-patch does not report success when a patch could not be made",
  "If a patch from one of the selected tags to the current build could not be created, auto-patch still tries the others but ends with a failing exit status.",
  ["inputs", "fault_sequences", "histories"], "every set of tags and every subset of them that fails",
  "Tests have no failing tag among several.",
  ["src/lib.rs"], [("failure flag", "src/lib.rs auto_patch")],
  "in every pass over the selected tags during which patches are made, each iteration ends with a patch to the current build seen in the local store, or the path does not reach a success exit; no path leaves the pass early, and no tag is cut off after the selection",
  [(r"^pass/", 1, "passes over the selected tags")], "per-iteration must-reach dataflow", "Which tags are selected is N02; which build stands for a tag is the index's choice.", COMMON)

p("C20", "No panic on any input",
  "No argument, file name, listing, tag, link or content of a store makes a command end by a panic instead of an error. (Running out of memory, a failing start of the async runtime and overflow of 64-bit sums of sizes are not meant.)",
  ["inputs", "configurations", "fault_sequences"], "every argument, file name, listing, tag, link and content of the stores",
  "Panics hide in inputs no test has: an empty name, a missing capture, a node without side, a character boundary.",
  ["src"], [("errors instead of panics", "src"), ("sizes of graph entries", "src/index/build.rs, src/index/patch.rs size"), ("names of patches", "src/index/patch.rs patch_versions_from_path")],
  "every panic site of the workspace that the abstract interpretation reaches (unwrap, expect, panic!, compiler-made bounds, division and underflow checks, Index implementations, library functions whose own documentation speaks of a panic, comparisons given to sorts) is discharged by facts that hold on every path to it (a length or variant test, an index derived from the very sequence, an operation in a short table of total functions, the invariant that no graph weight without a side is stored). Contracts read from the source of libraries are obligations too: the diff library needs a non-empty old build and partitions below 2 GiB, and the argument parser needs arguments checked to be UTF-8. The functions that read argument values, which run before the program proper, are interpreted each on its own for any text",
  [(r"", 1, "panic sites")], "reachability analysis of panic sites with dominating facts", "Library functions are assumed to panic only as they document, apart from the listed contracts; the code derived by structopt is trusted.", COMMON)

p("C21", "With `--upload` everything that is only local is in the remote store",
  "When adding or packaging with `--upload` reports success, every build and patch that was in the local store and not in the remote one, the added build and the new patch among them, has been uploaded.",
  ["inputs", "histories", "fault_sequences"], "every option combination, store content and failing upload",
  "Tests do not upload; a patch or build made in the same run but unknown to the upload is easily missed.",
  ["src/cli.rs", "src/index.rs"], [("push after adding", "src/cli.rs AddBuild::add_to"), ("registration of new files", "src/index.rs add_build, calculate_patch")],
  "as C14, on every success exit of the add commands on which the upload flag is not known to be false; and every artefact published into the local store in this run was registered in the index after its publication and before the index was iterated",
  [(r"^nodes/", 1, "success exits"), (r"^edges/", 1, "success exits")], "coverage analysis of source-to-sink iteration", "", COMMON)

p("C22", "A build in the local store is never replaced by an empty file",
  "An empty file or object is never stored as a build in the local store.",
  ["inputs", "fault_sequences"], "every source file and downloaded object, including those that are empty",
  "No test adds or downloads an empty build on each of the routes.",
  ["src/index.rs"], [("size check", "src/index.rs add_build")],
  "every publication of a copied build into the local store is dominated by a check that the very source (file size, or length of the body) is greater than zero",
  [(r"", 1, "copied builds")], "dominating-fact analysis", "A file that shrinks between check and copy is not modelled.", COMMON)

p("C23", "Commands store only what they were asked for or need for it",
  "A command puts into the local store only the builds and patches named by its arguments and what is needed for them: adding, the build and the patch from the given old one with that old build; creating a patch, the patch and its two builds; auto-patch, the current build, those of other versions and patches from these to it; install, the requested build and the steps of the upgrade path to it. Sync and debug store nothing.",
  ["inputs", "histories"], "every combination of arguments and every content of both stores",
  "Tests look for the file they expect; a further file, or one of another version, is seen by none.",
  ["src/lib.rs", "src/cli.rs", "src/index.rs"], [("commands", "src/lib.rs"), ("adding with optional patch", "src/cli.rs AddBuild::add_to"), ("upgrading", "src/index.rs upgrade_to_build")],
  "the versions in the name of every file published into the local store are terms of the arguments of the very command (or, for install, steps of the path that was found; for auto-patch, an element of the index different from the current build)",
  [(r"^AddPackage/", 1, "files stored by packaging"), (r"^Add/", 1, "files stored by adding"), (r"^CreatePatch/", 1, "files stored for patches"), (r"^AutoPatch/", 1, "files stored by auto-patch"), (r"^Install/", 1, "files stored by install")],
  "provenance analysis of names", "", COMMON)

p("C24", "Listing a bucket covers all pages and exactly the store's own objects",
  "The list of a bucket is complete, however many pages it has, and covers exactly the objects directly below the prefix under which the same store reads and writes.",
  ["inputs", "histories"], "every number and naming of objects in the bucket, including those of other stores in it, and every prefix",
  "There is no object store in the tests.",
  ["src/storage/mod.rs", "src/storage/s3.rs"], [("continuation", "src/storage/mod.rs list_files"), ("keys", "src/storage/s3.rs key_for")],
  "at every success exit the last response was seen to have no continuation token, each request after the first carries a token of an earlier response and nothing else, no start or delimiter other than `/` restricts the listing, no page replaces what an earlier one brought, no object of a page is left out for its key, class or age, and the requested prefix is the leading part, up to a `/`, of every key put or got, in the same bucket",
  [(r"^list/", 1, "list requests"), (r"^key/", 2, "keys of objects put and got")], "dataflow over the request loop and the key terms", "That an object store returns all keys over its pages is assumed.", COMMON)

p("C25", "The outcome does not depend on hash order, clock or process id",
  "Which build is chosen, the names of artefacts and the order of effects that matter are functions of the stores and arguments, not of the iteration order of hash tables, the time or the process.",
  ["schedules", "configurations"], "every hash seed, clock value and process id",
  "One run has one seed; the choice looks stable.",
  ["src/index.rs", "src/index/graph.rs", "src/partial_file.rs"], [("smallest match", "src/index.rs get_build_for_tag")],
  "no path or object key of an effect contains an element that was taken from a hash table because of its position (first, last, found, left over from a loop or cut) rather than as minimum, maximum, from a sorted copy, or within a complete pass over all elements; clock, process and random values reach no final name and no condition under which an artefact is written",
  [(r"^effect/", 5, "effects on files and objects")], "taint analysis of unordered picks", "The order of log lines and of independent effects is not part of the outcome. Among upgrade paths of equal cost the search may take any.", COMMON)

p("C26", "Concurrent runs do not share staging files",
  "Two runs working on the same store never write to the same staging file: it is created exclusively or its name belongs to one process, and none takes away the staging file of another.",
  ["schedules"], "every interleaving of two runs storing the same artefact",
  "Tests run one process at a time.",
  ["src/partial_file.rs"], [("exclusive creation", "src/partial_file.rs create")],
  "every opening of a file for writing uses exclusive creation or a name containing the process id; nothing is removed or renamed onto under a staging name unless this run created it or the name contains the process id",
  [(r"", 1, "creations")], "effect analysis of open options", "", COMMON)

p("C27", "Nothing is fetched that is already in the local store",
  "A build or patch is read from the remote store only if the local store has no usable (existing, non-empty) copy of it.",
  ["histories", "inputs"], "every content of both stores",
  "Tests do not observe the remote side.",
  ["src/index.rs"], [("local first", "src/index.rs get_build, get_patch")],
  "every read of a remote object or file is dominated by the failure of the check that the local copy exists and is not empty",
  [(r"/Install/build", 1, "fetches of builds by install"), (r"/Install/patch", 1, "fetches of patches by install"), (r"/CreatePatch/build", 1, "fetches of builds for patches")], "dominating-fact analysis", "", COMMON)

p("C28", "Uploads never replace what the remote store already has",
  "A file is put into the remote store only if the index knows no file of that build or patch there.",
  ["inputs", "histories"], "every content of both stores and every command that uploads",
  "Replacing an object by its equal cannot be seen in a test; replacing it by another file of the same name needs stores that differ.",
  ["src/index.rs", "src/index/graph.rs"], [("selection", "src/index/graph.rs local_only_builds, local_only_patches"), ("uploading", "src/index.rs push")],
  "every put of an object and every rename into a directory used as remote store publishes the file of an index entry whose remote side is known to be absent on every path to it (or follows a check that the very target does not exist)",
  [(r"/put/", 1, "objects put"), (r"/renamed/", 1, "files stored in a remote directory")], "dominating-fact analysis", "What another run uploads between the listing and the upload is not seen. Relies on C18 for the index.", COMMON)

p("C29", "Auto-patch makes patches only from builds of the selected tags",
  "Every patch that auto-patch makes, and every further build it fetches for that, is of a build whose name equals the prefix and one of the tags of the repository, up to letter case and separators.",
  ["inputs", "histories"], "every set of tags, builds in the stores and prefixes",
  "Tests have builds for the tags only; a build of another module or release that is taken instead needs similar names.",
  ["src/index.rs", "src/lib.rs", "src/git.rs"], [("finding the build of a tag", "src/index.rs get_build_for_tag")],
  "on every path to a publication by auto-patch of a build other than the current one, or of a patch from it, a comparison of that build's name with prefix and tag has come out equal, both transformed in the same way, by changes of letter case and of characters that are neither letters nor digits only",
  [(r"^stored/", 1, "files stored by auto-patch")], "dominating-fact analysis", "Which of several matching builds is taken is C25's subject; which tags are selected is N02.", COMMON)

p("C30", "The remote store is the one named on the command line",
  "If the text given as remote store names an existing path, that is the remote store. Otherwise it has to be a URL of the scheme `s3`: the first part of its host name, up to the first dot, is the bucket, the rest is the endpoint and its path is the folder within the bucket. Requests to an object store go to that endpoint and bucket only, for objects in that folder.",
  ["inputs", "configurations"], "every text given as remote store and every request of every command",
  "One URL is tested, and no request is made in any test.",
  ["src/storage/mod.rs", "src/storage/s3.rs"], [("parsing", "src/storage/mod.rs from_str, src/storage/s3.rs Bucket::try_from"), ("client", "src/storage/s3.rs S3Client::try_from"), ("requests", "src/storage/mod.rs list_files, get_file, add_file")],
  "each function that reads an argument is interpreted for an arbitrary text: where its result is a directory, it is the text itself and was seen to exist; where it is an object store, the path was seen not to exist, the scheme to equal `s3`, and the parts are the pieces of the host split at its first dot and the path of the parsed URL. The endpoint and bucket of every request are those parts, and every key and prefix starts with the folder and a `/`",
  [(r"^named/Filesystem", 1, "texts taken for directories"), (r"^named/S3", 1, "texts taken for object stores"), (r"^put_object/", 1, "uploads"), (r"^get_object/", 1, "downloads"), (r"^list_objects", 1, "listings")],
  "provenance and dominating-fact analysis of parsers and requests", "Percent-encoding of the path is as the URL library gives it. Credentials come from the environment.", COMMON)

p("C31", "An upgrade that is cheaper by patches is done by patches",
  "If patches lead from the build that `current` names to the requested one, and their total size is smaller than that of the requested build, install reads the requested build itself from the remote store only after it has tried these patches.",
  ["inputs", "histories"], "every content of both stores, every state of `current` and every requested version",
  "The installed build is the same either way; that a download was needless shows only in stores where patches pay.",
  ["src/lib.rs", "src/index.rs", "src/index/graph.rs"], [("choice", "src/index/graph.rs find_upgrade_path"), ("trying the patches", "src/index.rs upgrade_to_build")],
  "on every path of install to a read of the requested build from the remote store it is known that `current` cannot be read or names no version of the index or the requested one, that the search found no path, that the total on the path is not smaller than the size of the requested build, that this build is local, or a patch of the path was looked up or there was none left to apply",
  [(r"^fetch", 1, "reads of the requested build from the remote store")], "dominating-fact analysis", "That the search finds the cheapest path is C09, that the index has all patches C18.", COMMON)

p("C32", "Every command ends",
  "No command runs forever: what is done repeatedly is done for finitely many files, entries, pages or bytes, and a step that fails is not repeated without limit.",
  ["inputs", "histories"], "every input and every failure of a file system or object store, however long it lasts",
  "A test cannot wait for something that does not end, and persistent failures of the remote side do not occur in tests.",
  ["src/index.rs", "src/lib.rs", "src/git.rs", "src/packaging.rs", "src/storage/mod.rs"], [("loops", "all functions reached from main"), ("pages", "src/storage/mod.rs list_files")],
  "in every loop of every function reached from main each way round passes a step of progress: taking the next element from something that was made before the loop and that is not endless, a token of the page before, a number that moves towards a limit it is compared with, a look at the clock, or a wait for the runtime; what is taken out of a collection is not put back into it, and what is cut off the front of a text is of the kind the step asked for",
  [(r"^loop/", 1, "loops")], "loop analysis of the control-flow graph with def-use chains", "How long a library call (a copy, a request, a wait for a lock in git) takes is not decided; recursion is reported by the interpreter.", COMMON)

NA = [
    ("N01", "Applying a created patch to the old build gives exactly the new build", "For every two builds, the build made from the old one with the created patch equals the new build byte for byte.",
     ["inputs"], "all pairs of builds", "Round trips are tested on random samples only.", ["src/apply_patch.rs", "src/index.rs"], [("diff and patch", "src/index.rs calculate_patch; src/apply_patch.rs")],
     "byte equality depends on the algorithms of bidiff, bipatch and zstd over arbitrary data; a static rule can show the plumbing (C07), not the equality"),
    ("N02", "Auto-patch selects the tags its documentation describes", "The tags selected for patching are the newest release lines before the current version, as documented.",
     ["inputs"], "all sets of tags", "Tests sample a few tag lists.", ["src/git.rs"], [("selection", "src/git.rs find_tags_to_patch")],
     "which tags are chosen is a computation on parsed numbers and sorted values; deciding it needs evaluation over values, which no sound static rule here bounds"),
    ("N03", "Artefacts survive power loss after success was reported", "After success was reported, a power failure does not lose or truncate the artefact.",
     ["crash_points"], "all power failures", "Tests cannot cut power.", ["src/partial_file.rs"], [("rename", "src/partial_file.rs finish")],
     "the program never promises durability (no fsync anywhere); C01 claims completeness under process crashes only"),
    ("N04", "Two concurrent runs see each other's artefacts", "A run never acts on an outdated index when another run changes the store meanwhile.",
     ["schedules"], "all interleavings of processes", "Tests run one process.", ["src/index.rs"], [("index built once", "src/index.rs new")],
     "the design has no lock and builds its index once; the property is not offered by the system, and interleavings of processes are outside a static rule"),
]
