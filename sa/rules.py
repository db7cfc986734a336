"""Generated by tools/gen.py from tools/props.py."""
RULES = {
    'C01': {
        'rule': 'every handle that can write is opened on a staging name; on every path to a rename onto a store name, each write/flush/encoder-finish result since the creation was checked, every encoder is finished, buffers are flushed, no write is short, the sources were read without unchecked errors, and source and target are in the same directory; nothing opens, copies to or truncates a final name',
        'floors': [('^create/', 1, 'file creations'), ('^publish/.*remote', 1, 'publications into a directory used as remote'), ('^publish/.*local', 1, 'publications into the local store')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C02': {
        'rule': 'at every exit of main (Ok, Err, process exit) no created staging path, staged link or temporary directory is still in state live; a removal whose own result is ignored counts as done',
        'floors': [],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C03': {
        'rule': "on every path to a success return of the command, a fact 'usable(kind, versions)' holds for the artefact named by the command's own arguments; the fact comes from the checked success of renaming a complete file to that very path in the local store, or of measuring the file there and finding it not to be empty",
        'floors': [('^Debug/', 1, 'exits of `Debug`'), ('^Sync/', 1, 'exits of `Sync`'), ('^Install/', 1, 'exits of `Install`'), ('^AddPackage/', 1, 'exits of `AddPackage`'), ('^CreatePatch/', 1, 'exits of `CreatePatch`'), ('^AutoPatch/', 1, 'exits of `AutoPatch`'), ('^Add/', 1, 'exits of `Add`')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C04': {
        'rule': "the target of the link that is renamed onto `current` names the build of the requested version in the local store and was checked to exist and to be non-empty on every path; every success exit of install has either passed that rename or compared the link's target with the path of the requested build in the local store, a file that was seen to exist and not to be empty",
        'floors': [('^switch/', 1, 'switches of `current`'), ('^exit/', 1, 'success exits of install')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C05': {
        'rule': 'every file-system change whose path is `current` is a rename of a link made by this run in the same directory; such a rename occurs only under the install command; no removal, creation or in-place change of that path exists',
        'floors': [('', 1, 'renames onto `current`')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C06': {
        'rule': 'no error return of install originates in, or is decided by the failure of, reading or parsing the link `current`, searching the path, or fetching and applying a patch',
        'floors': [('Err', 5, 'origins of failing exits of install')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C07': {
        'rule': 'at every publication the provenance of the written content is one of the enumerated forms (copy of same-named file or object; compressed tar; compressed diff of the decompressed local builds named by the patch name, in that order; compressed result of applying the decompressed patch named from-to, read to its end, to the decompressed build `from`, stored as build `to`), each taken from sources that were not partly read, moved or written to before',
        'floors': [('local/build/.*copy', 1, 'copies of builds into the local store'), ('local/patch/.*diff', 1, 'computed patches'), ('tar', 1, 'packaged archives'), ('patched|local/build', 1, 'builds in the local store')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C08': {
        'rule': 'every applied patch joins two neighbouring nodes (i, i+1) of the same search result, in that direction; the sequence is taken in order without reversal, re-sorting or unordered collection, and elements are dropped only from the front while the target build is known to be local; a loop over positions covers all neighbouring pairs',
        'floors': [('^apply/', 1, 'applied patches')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C09': {
        'rule': "every application of a patch during install is dominated by the comparison cost < build size of the same search; the search's goal is the requested build, its edge cost the size of that edge's file, a size that was at no point cut off to fewer bits, its estimate never exceeds the real cost",
        'floors': [('^search/', 1, 'searches for a path'), ('^apply/', 1, 'applied patches'), ('^entry/', 1, 'sizes of files')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C10': {
        'rule': 'every publication of a computed patch is dominated by a branch on which the two versions compare unequal',
        'floors': [('', 1, 'computed patches')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C11': {
        'rule': 'every construction of a version value is dominated by the checks that exclude the reserved separator and path separators; every publication of a computed patch is dominated by equality of both versions parsed from its own file name',
        'floors': [('^patch-name/', 1, 'computed patches'), ('^version/', 1, 'constructions of versions')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C12': {
        'rule': 'for every file-system change in the program the path term is a store root joined with one component that cannot contain a separator (version-derived names, file names, constants); every removal targets a file staged by this run; effects outside the modelled file-system interface are rejected',
        'floors': [('creation', 1, 'creations'), ('rename-onto', 1, 'renames'), ('removal', 1, 'removals')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C13': {
        'rule': 'every change in the remote store occurs only on paths on which the command is sync, or is an add command with the upload flag true; no change in the local store occurs before dispatch, under debug, or under sync; no object operation other than reading and putting exists',
        'floors': [('remote$', 1, 'changes of a remote store'), ('local$', 1, 'changes of the local store')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C14': {
        'rule': 'on every path to the success exit of sync, all nodes and all edges of the index were iterated to the end and each element was either put into the remote store with a checked result or skipped only because it is known remotely or not present locally',
        'floors': [('^nodes/', 1, 'success exits'), ('^edges/', 1, 'success exits'), ('^put/', 1, 'uploads')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C15': {
        'rule': "every publication whose content is a downloaded body is dominated by equality of the hex md5 of the whole body with the object's own entity tag (or by the tag containing '-'); every put request has content_md5 = base64(md5(body)) of the same body value, whose read was checked",
        'floors': [('^upload/', 1, 'uploads'), ('^store/', 1, 'stored downloads')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C16': {
        'rule': 'the walk feeding the archive is sorted by path by a closure that compares the two paths; header fields come from the deterministic mode or constants; no time, owner, device or process value flows into a header or the archive',
        'floors': [('^order/', 1, 'archive entries'), ('^set_', 1, 'header fields')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C17': {
        'rule': "on every path to the success exit the directory walk was iterated to its end, each element that is a regular file was appended with a checked result, none was filtered, truncated or skipped for another reason; the walk is not confined to one file system; the appended name is the entry's path below the root and its data is read from the start of the entry's own file",
        'floors': [('^walk/', 1, 'success exits of packaging'), ('^content/', 1, 'archive entries'), ('^root/', 1, 'directory walks')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C18': {
        'rule': 'on every path to a successful end of any command each listing (local directory, remote directory, bucket pages) was iterated to its end and each element was stored in the index under the right store or was exempted by a branch that proves one of the stated reasons (patches: after the builds of both stores were registered); nothing is taken out of the index, no store of an entry is unset, entries are added only where a lookup of the same version or versions failed, and a file is registered under the version or versions its name is made of',
        'floors': [('^list-local:b/', 1, 'local builds'), ('^list-local:p/', 1, 'local patches'), ('^list-s3:b/', 1, 'bucket builds'), ('^list-s3:p/', 1, 'bucket patches'), ('^list-fs:b/', 1, 'directory builds'), ('^list-fs:p/', 1, 'directory patches')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C19': {
        'rule': 'in every pass over the selected tags during which patches are made, each iteration ends with a patch to the current build seen in the local store, or the path does not reach a success exit; no path leaves the pass early, and no tag is cut off after the selection',
        'floors': [('^pass/', 1, 'passes over the selected tags')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C20': {
        'rule': 'every panic site of the workspace that the abstract interpretation reaches (unwrap, expect, panic!, compiler-made bounds, division and underflow checks, Index implementations, library functions whose own documentation speaks of a panic, comparisons given to sorts) is discharged by facts that hold on every path to it (a length or variant test, an index derived from the very sequence, an operation in a short table of total functions, the invariant that no graph weight without a side is stored). Contracts read from the source of libraries are obligations too: the diff library needs a non-empty old build and partitions below 2 GiB, and the argument parser needs arguments checked to be UTF-8. The functions that read argument values, which run before the program proper, are interpreted each on its own for any text',
        'floors': [('', 1, 'panic sites')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C21': {
        'rule': 'as C14, on every success exit of the add commands on which the upload flag is not known to be false; and every artefact published into the local store in this run was registered in the index after its publication and before the index was iterated',
        'floors': [('^nodes/', 1, 'success exits'), ('^edges/', 1, 'success exits')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C22': {
        'rule': 'every publication of a copied build into the local store is dominated by a check that the very source (file size, or length of the body) is greater than zero',
        'floors': [('', 1, 'copied builds')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C23': {
        'rule': 'the versions in the name of every file published into the local store are terms of the arguments of the very command (or, for install, steps of the path that was found; for auto-patch, an element of the index different from the current build)',
        'floors': [('^AddPackage/', 1, 'files stored by packaging'), ('^Add/', 1, 'files stored by adding'), ('^CreatePatch/', 1, 'files stored for patches'), ('^AutoPatch/', 1, 'files stored by auto-patch'), ('^Install/', 1, 'files stored by install')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C24': {
        'rule': 'at every success exit the last response was seen to have no continuation token, each request after the first carries a token of an earlier response and nothing else, no start or delimiter other than `/` restricts the listing, no page replaces what an earlier one brought, no object of a page is left out for its key, class or age, and the requested prefix is the leading part, up to a `/`, of every key put or got, in the same bucket',
        'floors': [('^list/', 1, 'list requests'), ('^key/', 2, 'keys of objects put and got')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C25': {
        'rule': 'no path or object key of an effect contains an element that was taken from a hash table because of its position (first, last, found, left over from a loop or cut) rather than as minimum, maximum, from a sorted copy, or within a complete pass over all elements; clock, process and random values reach no final name and no condition under which an artefact is written',
        'floors': [('^effect/', 5, 'effects on files and objects')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C26': {
        'rule': 'every opening of a file for writing uses exclusive creation or a name containing the process id; nothing is removed or renamed onto under a staging name unless this run created it or the name contains the process id',
        'floors': [('', 1, 'creations')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C27': {
        'rule': 'every read of a remote object or file is dominated by the failure of the check that the local copy exists and is not empty',
        'floors': [('/Install/build', 1, 'fetches of builds by install'), ('/Install/patch', 1, 'fetches of patches by install'), ('/CreatePatch/build', 1, 'fetches of builds for patches')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C28': {
        'rule': 'every put of an object and every rename into a directory used as remote store publishes the file of an index entry whose remote side is known to be absent on every path to it (or follows a check that the very target does not exist)',
        'floors': [('/put/', 1, 'objects put'), ('/renamed/', 1, 'files stored in a remote directory')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C29': {
        'rule': "on every path to a publication by auto-patch of a build other than the current one, or of a patch from it, a comparison of that build's name with prefix and tag has come out equal, both transformed in the same way, by changes of letter case and of characters that are neither letters nor digits only",
        'floors': [('^stored/', 1, 'files stored by auto-patch')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C30': {
        'rule': 'each function that reads an argument is interpreted for an arbitrary text: where its result is a directory, it is the text itself and was seen to exist; where it is an object store, the path was seen not to exist, the scheme to equal `s3`, and the parts are the pieces of the host split at its first dot and the path of the parsed URL. The endpoint and bucket of every request are those parts, and every key and prefix starts with the folder and a `/`',
        'floors': [('^named/Filesystem', 1, 'texts taken for directories'), ('^named/S3', 1, 'texts taken for object stores'), ('^put_object/', 1, 'uploads'), ('^get_object/', 1, 'downloads'), ('^list_objects', 1, 'listings')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C31': {
        'rule': 'on every path of install to a read of the requested build from the remote store it is known that `current` cannot be read or names no version of the index or the requested one, that the search found no path, that the total on the path is not smaller than the size of the requested build, that this build is local, or a patch of the path was looked up or there was none left to apply',
        'floors': [('^fetch', 1, 'reads of the requested build from the remote store')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
    'C32': {
        'rule': 'in every loop of every function reached from main each way round passes a step of progress: taking the next element from something that was made before the loop and that is not endless, a token of the page before, a number that moves towards a limit it is compared with, a look at the clock, or a wait for the runtime; what is taken out of a collection is not put back into it, and what is cut off the front of a text is of the kind the step asked for',
        'floors': [('^loop/', 1, 'loops')],
        'assume': ['library functions behave as modelled in sa/natives.py (std, tar, zstd, bidiff, bipatch, petgraph, rusoto_s3, walkdir, tempfile, git2)', 'paths are compared as provenance terms: two different user-supplied paths are not assumed to alias'],
    },
}
