"""Writes /verif/properties.jsonl (kept as a script because the statements are easier to edit here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": hook}})

prop("P01", "Version numbers order, compare and hash consistently",
 """For any two version numbers built from dotted text or from tuples of numbers, exactly one of 'less', 'equal'
 and 'greater' holds and it is the one obtained by comparing their components numerically from left to right;
 the <=, >= and != operators agree with it, equal versions hash alike, and a version equals the canonical dotted text and the number tuple
 it stands for. A patch version keeps exactly the first two components (fewer are refused) and its integer form is 100*season+patch;
 the PBE version equals only itself and maps to 9999.""",
 ["inputs"], "all pairs of dotted texts / number tuples of any length and magnitude, including texts with leading zeros",
 "The tests compare about ten hand-picked version pairs, all written canonically; trichotomy, hash agreement and truncation quantify over all of them.",
 ["cdtb/storage.py", "cdtb/rads.py"],
 [("BaseVersion operators", "cdtb/storage.py:BaseVersion"), ("PatchVersion truncation and as_int", "cdtb/storage.py:PatchVersion"), ("RadsVersion length check", "cdtb/rads.py:RadsVersion")],
 observe=["comparison operators, hash() and as_int() of version objects"])

prop("P02", "Patch listing and lookup pick the latest elements",
 """Listing patches of a storage that generates elements from the latest to the oldest yields one patch per run of consecutive elements with
 equal versions, in that order, and each patch holds for every element name occurring in the run exactly its first (latest) element; looking up
 a patch or a patch element returns the first one with the requested version (and name), the first of all when no version is given, and None when there is none.
 A RADS storage merges the elements of its client and game solutions so that each element having a patch version is generated exactly once and no element
 is followed by one with a higher version, provided each solution lists its versions that way.""",
 ["inputs", "histories"], "all finite sequences of stored elements, names and versions; all interleavings of the two RADS solutions",
 "One test lists four single-element patches; grouping, de-duplication and merging depend on arbitrary histories of releases.",
 ["cdtb/storage.py", "cdtb/rads.py"],
 [("Storage.patches/patch/patch_element", "cdtb/storage.py:Storage"), ("Patch._create", "cdtb/storage.py:Patch"), ("RadsStorage.patch_elements", "cdtb/rads.py:RadsStorage.patch_elements")],
 observe=["objects yielded by patches(), patch(), patch_element(), patch_elements()"])

prop("P03", "Sequential stream reads deliver exactly the requested byte ranges",
 """However an HTTP body is cut into chunks, a sequence of copy, skip and skip-to operations on a streamed download hands the writer
 exactly the body bytes between the stream position before and after each copy, in order, without loss or duplication, and hands it nothing for a skip;
 each operation advances the position by exactly the requested amount, and seeking to an earlier position is refused without consuming anything.""",
 ["inputs", "histories"], "all bodies, all ways to cut them into chunks (empty chunks included), all sequences of copy/skip/skip_to sizes within the body",
 "No test reads a stream; correctness depends on how chunk borders fall relative to the requested ranges.",
 ["cdtb/storage.py"], [("RequestStreamReader.copy/skip/skip_to", "cdtb/storage.py:RequestStreamReader")],
 state=[("buf", "bytes received but not consumed", "cdtb/storage.py:RequestStreamReader"), ("pos", "stream position", "cdtb/storage.py:RequestStreamReader")],
 observe=["calls received by the writer, pos"])

prop("P04", "RADS package files are extracted from their exact byte range",
 """Extracting (all or a chosen subset of) the files of a RADS project version writes each one that is not already on disk with exactly the bytes of its
 package between its offset and offset+size, inflated when the entry is a compressed one, under the listed path without its leading slash and '.compressed' suffix;
 files already on disk and files that were not asked for are left untouched, and each needed package is requested once.""",
 ["inputs"], "all package manifests with non-overlapping entries in any order, all subsets of requested paths, all sets of files already present",
 "Tests only parse one five-line manifest; nothing extracts from a package.",
 ["cdtb/rads.py", "cdtb/storage.py"],
 [("RadsProjectVersion.extract", "cdtb/rads.py:RadsProjectVersion.extract"), ("BinPackageFile", "cdtb/rads.py:BinPackageFile")],
 observe=["files under the storage directory, requests made"])

prop("P05", "A failed write never leaves a partial file or directory behind",
 """When anything raises while a file is being written through the toolbox's guarded writers (opening, writing, downloading, decoding or an interrupt),
 the same exception reaches the caller and the file (or, for the directory writer, the directory and its content) does not exist afterwards; when nothing raises the file holds exactly what was
 written and no other path is touched. A download of a file that is already present makes no request and changes nothing unless forced, and a failed HTTP request never creates, truncates or removes the target.""",
 ["fault_sequences", "crash_points", "inputs"], "every exception type at every point of the guarded block, of directory creation and of opening the file; every HTTP status",
 "No test injects a failure; the guarantee quantifies over failure points.",
 ["cdtb/tools.py", "cdtb/storage.py"],
 [("write_file_or_remove / write_dir_or_remove", "cdtb/tools.py"), ("Storage.download", "cdtb/storage.py:Storage.download")],
 observe=["file system after the call", "exception seen by the caller"])

prop("P06", "Saving and reloading a hash list preserves every entry",
 """Saving a hash list and loading it again (with a forced reload) gives the same mapping from hashes to paths, for every mapping whose paths contain no line break;
 the file has one line per entry, the hash in zero-padded lowercase hexadecimal of the list's width, one space and the path, ordered by path.
 A list is read from disk only once unless a reload is forced, and a missing file is reported as not found.""",
 ["inputs", "histories"], "all finite maps from non-negative hashes of any width to paths (spaces, non-hexadecimal text, empty paths), all load/save sequences",
 "No test saves or loads a hash list.",
 ["cdtb/hashes.py"], [("HashFile.load/save", "cdtb/hashes.py:HashFile")],
 observe=["HashFile.hashes, file content"])

prop("P07", "Hash guessing records only true, previously unknown hashes",
 """Whatever candidate paths are tried and in whatever order, a guesser adds an entry to its known hashes only when the candidate's own 64-bit hash is that entry's hash and the
 hash was unknown until then; entries already known are never changed or removed, every tried candidate whose hash is unknown is recorded, and a hash is removed from the unknown set exactly when it is
 recorded as known. Initially the unknown set is exactly the given hashes that are not already known.""",
 ["inputs", "histories"], "all sequences of candidate paths, all sets of hashes to find, all initial hash lists",
 "No test runs a guesser; soundness is an invariant over all candidate sequences.",
 ["cdtb/hashes.py"],
 [("HashGuesser.check/is_known/check_iter/_add_known", "cdtb/hashes.py:HashGuesser"), ("HashGuesser.__init__", "cdtb/hashes.py:HashGuesser.__init__")],
 state=[("known", "hash to path map", "cdtb/hashes.py:HashGuesser"), ("unknown", "hashes still to find", "cdtb/hashes.py:HashGuesser")],
 observe=["guesser.known, guesser.unknown"])

prop("P08", "WAD directories are decoded field by field for every version",
 """For every WAD archive of versions 1 to 3, the listed version is the one of the header and there is exactly one file per directory entry, in directory order, whose path hash, offset, compressed size, size, storage type, subchunk count,
 duplicate mark, first subchunk index and checksum are those stored in that entry by the layout of that version (including the 24-bit subchunk index introduced in 3.4). A wrong magic code or another major version is refused with ValueError, and a truncated directory
 is an error, never a shorter list.""",
 ["inputs"], "all byte contents of archives, all versions, all entry counts and entry contents",
 "No test parses a WAD file.",
 ["cdtb/wad.py", "cdtb/tools.py"],
 [("Wad.parse_headers", "cdtb/wad.py:Wad.parse_headers"), ("WadFileHeader.__init__", "cdtb/wad.py:WadFileHeader.__init__"), ("BinaryParser.unpack/seek", "cdtb/tools.py:BinaryParser")],
 observe=["Wad.version, Wad.files"])

prop("P09", "Reading a WAD entry returns its exact content or reports it malformed",
 """Reading an entry returns the stored bytes as they are for type 0, gunzipped for type 1, nothing for a redirection (type 2), zstd-decompressed for type 3, and for type 4 the concatenation of its subchunks in order, each one taken
 as stored when its two sizes are equal and zstd-decompressed otherwise. With a subchunk table, a subchunk that is cut short or whose checksum differs always makes the entry malformed and no data is returned; without one the whole entry is zstd-decompressed and any failure makes it malformed.
 Extracting writes exactly that content, writes nothing for redirections and malformed entries, other types are refused with ValueError, and the archive-level reader returns None for malformed entries.""",
 ["inputs"], "all archive bytes, all entry headers, all subchunk tables, subchunk counts and indices",
 "No test reads a WAD entry.",
 ["cdtb/wad.py"],
 [("WadFileHeader.read_data/extract", "cdtb/wad.py:WadFileHeader"), ("Wad.read_file_data/load_subchunk_toc", "cdtb/wad.py:Wad")],
 observe=["bytes returned, files written"])

prop("P10", "WAD files get their known path, or a name derived from their hash",
 """Every file of an archive whose hash is in the hash list gets exactly that path, and its extension is the path's; the others keep no path until they are named, and then get '<directory>/<16 hex digits of the hash>' plus their guessed extension if there is one, so distinct files get distinct names.
 Sanitizing keeps short names that have an extension unchanged, appends '.cdtb' (and the guessed extension) to names without extension, and shortens base names of 250 characters or more to at most 250 while keeping directory and extension and inserting the hash (for extensions of up to 233 characters); sanitizing again the name of a file that has an extension changes nothing.""",
 ["inputs"], "all hash lists, path hashes, paths (with or without directories, dots and extensions) and guessed extensions, base names of any length",
 "No test names WAD files; the length limit and the stability of sanitized names quantify over all paths.",
 ["cdtb/wad.py"],
 [("Wad.resolve_paths/set_unknown_paths/sanitize_paths", "cdtb/wad.py:Wad")],
 observe=["WadFileHeader.path, WadFileHeader.ext"])

prop("P11", "BIN files are decoded exactly as laid out, for every format era",
 """Decoding a BIN file yields exactly the version, linked files, entries, fields and nested values that its bytes describe, for all value types and any nesting, consuming exactly the bytes of each value; type codes are mapped to types by the format era of the patch (before 9.23, before 10.8, later), and unknown type codes,
 wrong magic codes and truncated data are errors. An entry whose declared length differs from the bytes actually decoded is always refused, and patch sections group their values by target entry in order of first appearance.""",
 ["inputs", "configurations"], "all byte contents, all type codes in all eras, any nesting depth",
 "No test decodes a BIN file.",
 ["cdtb/binfile.py"],
 [("BinReader", "cdtb/binfile.py:BinReader"), ("BinFile.__init__", "cdtb/binfile.py:BinFile")],
 observe=["BinFile.entries, linked_files, patch_entries, version"])

prop("P12", "BIN fields are found by name or hash, and updates touch only their field",
 """Looking up a field by name, by numeric hash or by a hashed name returns the first field with that hash; lookup, membership test and lookup-with-default always agree. Assigning a field replaces the first field with that hash, or appends one if there was none, and leaves every other field and the order unchanged.
 The hash of a name is the 32-bit FNV-1a hash of its lowercased text, and hashed values are equal exactly when their hashes are and then hash alike.""",
 ["inputs", "histories"], "all field lists (with duplicates), all keys of all three kinds, all ASCII names",
 "No test looks up a field.",
 ["cdtb/binfile.py"],
 [("BinObjectWithFields", "cdtb/binfile.py:BinObjectWithFields"), ("compute_binhash, key_to_hash, BinHashBase", "cdtb/binfile.py")],
 observe=["results of [], in, get, getv, []="])

prop("P13", "Translation tables map every key hash to its stored text",
 """For tables with distinct keys whose texts end within the data: decoding a translation table (RST versions 2 to 5) yields exactly one text per stored key hash, masked to the hash width that the table version and game version imply, each text being the zero-terminated UTF-8 data at its offset or, in tables that allow it, the base64 form of a length-prefixed block; bad magic codes and versions are refused with ValueError.
 Looking up by name or by numeric key, testing membership and looking up with a default always agree, and names are hashed in lowercase with the hash function of the game version.""",
 ["inputs", "configurations"], "all table contents, versions 2 to 5, game versions around 14.15 and 15.2, all keys",
 "No test reads a translation table.",
 ["cdtb/rstfile.py"],
 [("RstFile.parse_rst", "cdtb/rstfile.py:RstFile.parse_rst"), ("RstFile.__getitem__/__contains__/get, key_to_hash", "cdtb/rstfile.py")],
 observe=["RstFile.entries and lookups"])

prop("P14", "Release manifests resolve bundles, chunks, files and directories exactly",
 """Parsing a release manifest yields every bundle with its chunks placed back to back (each chunk's offset is the sum of the sizes of the chunks before it), every file under its full directory path with its size, link, language flags (bit i of the mask selects flag i+1) and its chunks in the listed order, absent fields being reported as None.
 Manifests can be read from a path or from an open file alike, and a wrong magic code or unsupported version is refused with ValueError.""",
 ["inputs"], "all manifest bodies: any number of bundles, chunks, flags, files, directory nesting, absent fields",
 "No test parses a manifest.",
 ["cdtb/patcher.py"],
 [("PatcherManifest", "cdtb/patcher.py:PatcherManifest"), ("PatcherBundle.add_chunk", "cdtb/patcher.py:PatcherBundle.add_chunk")],
 observe=["PatcherManifest.files, bundles, chunks, flags"])

prop("P15", "Patcher downloads fetch and assemble exactly the needed chunks",
 """Extracting a file of a release writes the concatenation of its decompressed chunks in order, under its own name; with shared storage the content goes to a place derived only from its chunk identifiers and the name becomes a relative symbolic link to it, replacing what was there. Files already extracted with the right size are skipped unless overwriting is requested; linked files are never fetched.
 The bundles downloaded are exactly those holding a chunk of a selected, not linked (and, on request, not yet extracted) file, where the language filter selects language-independent files, all files, or the files flagged with one of the given languages whatever the case.""",
 ["inputs", "configurations"], "all manifests, chunk lists, flag sets, language selections (False, True, one language, a list) and sets of files already on disk",
 "No test touches the patcher storage.",
 ["cdtb/patcher.py"],
 [("PatcherStorage.extract_file/load_chunk", "cdtb/patcher.py:PatcherStorage"), ("PatcherReleaseElement.bundle_ids/extract", "cdtb/patcher.py:PatcherReleaseElement"), ("PatcherFile.langs_predicate", "cdtb/patcher.py:PatcherFile.langs_predicate")],
 observe=["files and links in the storage, bundles requested"])

prop("P16", "A differential export keeps exactly the new or modified files",
 """Comparing an export with the one of the previous patch drops a plain file exactly when both take it from the same stored file, drops a whole archive exactly when both take it from the same stored archive, and otherwise keeps an archive's file exactly when the previous archive does not have it or has it with another checksum, or when no checksum is known; archives left empty disappear and nothing else changes.
 Filtering by path keeps exactly the files whose path satisfies the predicate. Cleaning the output directory removes exactly the files and links on disk that are not to be kept, and nothing in kept directories.""",
 ["inputs", "histories"], "all sets of plain files and archives, entries with or without checksum, all path predicates, all directory contents and kept sets",
 "No test builds an exporter; one test covers two path lists.",
 ["cdtb/export.py"],
 [("Exporter.filter_exporter/filter_export_paths/clean_output_dir", "cdtb/export.py:Exporter")],
 observe=["Exporter.plain_files, Exporter.wads, output directory"])

prop("P17", "Reduced symlink paths cover exactly the unchanged files",
 """Given the unchanged paths, all the paths of the previous export (a superset) and the paths that are to be exported again, every unchanged path is covered by exactly one of the reduced paths (itself or one of its parent directories), every previous path below a reduced path is an unchanged one,
 and no path to be exported again lies at or below a reduced path. Reduction is maximal: no returned path could be replaced by its parent directory.""",
 ["inputs"], "all consistent sets of paths (no path being a directory of another one) of any depth",
 "The test checks two examples; coverage and separation quantify over all path sets.",
 ["cdtb/export.py"],
 [("paths_to_tree, reduce_common_trees, reduce_common_paths", "cdtb/export.py")],
 observe=["list returned by reduce_common_paths"])

prop("P18", "Converters write exactly the paths they announce",
 """For every export path a converter handles, a successful conversion creates exactly the announced output paths below the output directory and nothing else, the copied originals having exactly the input's content, and lazy exports skip a file exactly when all its announced paths exist; every path is exported by the first converter that handles it, else copied as it is.
 When decoding fails with a conversion error, no file is left under the path of the output that failed.""",
 ["inputs", "fault_sequences"], "all export paths and file contents, all converters, failing decoders",
 "No test converts a file.",
 ["cdtb/export.py"],
 [("FileConverter subclasses", "cdtb/export.py"), ("Exporter._get_converter/_export_plain_file/_export_wad", "cdtb/export.py:Exporter")],
 observe=["files below the output directory"])

prop("P19", "TEX textures become DDS files with the right header and full-size pixels",
 """Converting a TEX texture of a supported pixel format gives a DDS header with the texture's width, height and pixel format followed by the texture's largest image: all data after the 12-byte header when there are no mipmaps, and otherwise the last bytes, as many as the largest level needs (block counts rounded up), for non-empty textures whose data holds that level.
 Data that is too short for its header, has a wrong magic code or an unsupported format is refused with a conversion error.""",
 ["inputs"], "all TEX byte contents, all formats, dimensions 1..65535, with and without mipmaps",
 "No test converts a texture.",
 ["cdtb/export.py"], [("TexConverter.tex_to_dds", "cdtb/export.py:TexConverter.tex_to_dds")],
 observe=["bytes returned"])

prop("P20", "Skin meshes are split into objects with their own vertices and indices",
 """Decoding an SKN mesh yields one object per listed submesh with its name, exactly the vertices of its vertex range and the indices of its index range rebased so that index 1 is its first vertex (a single object with everything for version 0), each vertex having the attributes its vertex type stores; a wrong magic code is refused and truncated data is an error.
 The exported OBJ text has one v, vt and vn line per vertex and then one f line per index triple, in order.""",
 ["inputs"], "all SKN byte contents, versions 0, 1, 2 and 4, vertex types 0 to 2, any submesh ranges",
 "No test reads a mesh.",
 ["cdtb/sknfile.py"], [("SknFile", "cdtb/sknfile.py:SknFile")],
 observe=["SknFile.entries, to_obj()"])

prop("P21", "Release bookkeeping records each new release once and caches versions faithfully",
 """Fetching updates adds a release directory and moves the latest-release mark exactly when the manifest URLs differ from those of the marked release (or there is none); releases are listed in decreasing numeric order and only when complete. A manifest is accepted only from the storage's base URL with a 16-digit hexadecimal identifier and is stored under that identifier; other URLs are refused with ValueError before any download.
 A patch version read from the cache equals the one computed and stored before, PBE releases are always 'main', and a version that cannot be determined is not cached.""",
 ["inputs", "histories"], "all release histories, manifest URLs, cached versions, patchlines",
 "No test touches the patcher storage.",
 ["cdtb/patcher.py"],
 [("PatcherStorage.fetch_latest_update/iter_releases/download_manifest", "cdtb/patcher.py:PatcherStorage"), ("PatcherReleaseElement.patch_version", "cdtb/patcher.py:PatcherReleaseElement.patch_version")],
 observe=["files under cdtb/releases, download calls"])

prop("P22", "Command-line components and storages are resolved to what they name",
 """A component 'patch=', 'game=' or 'client=' followed by nothing, a version, a version with a final dot, or 'main' resolves to the latest one, to that version or to the latest elements of that version of the named kind; a component that does not exist is None, and any text that is not one of these names, '=' and 'main' or digits and dots is refused with ValueError.
 A storage path resolves to a configuration that always has a type and a path: the one in the given file or in the directory's configuration file (relative to it), the guessed type for a recognised directory, the explicit 'type:path', else a patcher storage, and unknown types are refused.""",
 ["inputs", "configurations"], "all component texts, all storage paths and configuration files with text entries",
 "The CLI tests only run the export command on three argument lists.",
 ["cdtb/storage.py", "cdtb/__main__.py"],
 [("parse_storage_component", "cdtb/storage.py"), ("storage_conf_from_path, load_storage_conf, Storage.from_conf", "cdtb/storage.py")],
 observe=["returned objects and exceptions"])

prop("P23", "RADS solution manifests give each language exactly its projects",
 """Parsing a RADS solution manifest gives every listed language exactly the project versions named for it, and the language-independent entry exactly the projects marked as required, in listed order with their versions; selecting languages returns the projects of the language-independent entry, of all languages, of one language, or the union over a list, without duplicates.
 Manifests whose magic line, format version, solution name or version do not match are refused.""",
 ["inputs"], "all well-formed manifests with any number of projects, languages and dependencies; all language selections",
 "No test parses a solution manifest.",
 ["cdtb/rads.py"], [("RadsSolutionVersion.dependencies/projects", "cdtb/rads.py:RadsSolutionVersion")],
 observe=["dependencies(), projects()"])

prop("P24", "Exported TFT data refers to existing items and traits and is fully translated",
 """In exported TFT and Arena data, each language's file differs from the others only by replacing name, description and tooltip keys present in that language's table, keys without translation being kept; item compositions and trait lists are those of the referenced items and traits; champions and traits belong to the sets that list them.""",
 ["inputs"], "all map data files and translation tables", "No test runs the transformers.",
 ["cdtb/tftdata.py", "cdtb/arenadata.py"],
 [("TftTransformer", "cdtb/tftdata.py:TftTransformer"), ("ArenaTransformer", "cdtb/arenadata.py:ArenaTransformer")],
 observe=["exported json files"])

prop("P25", "Parallel bundle downloads leave every needed bundle complete",
 """After the bundles of a release element have been downloaded by the worker threads, each needed bundle is present and complete whatever the interleaving of the workers.""",
 ["schedules"], "all interleavings of 8 download workers", "No test downloads bundles.",
 ["cdtb/patcher.py"], [("PatcherReleaseElement.download_bundles", "cdtb/patcher.py")],
 observe=["files under channels/public/bundles"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 3, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
