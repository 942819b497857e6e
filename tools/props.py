# One table from which properties.jsonl and MANIFEST.json are generated (tools/gen.py).
# (id, title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, level_note)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note))

PAK = ["unreal_pak/src/lib.rs", "unreal_pak/src/pakreader.rs", "unreal_pak/src/pakwriter.rs", "unreal_pak/src/pakmemory.rs", "unreal_pak/src/entry.rs", "unreal_pak/src/header.rs", "unreal_pak/src/index.rs", "unreal_pak/src/index.rs"]
prop("P01", "Packing then unpacking an archive returns exactly what was packed",
 "An archive written by the library in any writable version, with any block size, compression choice, mount point and set of entry names and contents, loads again through every reading interface (streaming reader, iteration, in-memory load) with exactly the same names, contents, mount point and format version. Names that were never added are reported missing.",
 ["inputs", "configurations"], "all entry sets, versions, block sizes, compression settings, stream behaviours (short transfers)",
 "The tests open a few shipped archives and write two fixed contents; block boundaries, the compression threshold, empty entries, wide names, early versions and short transfers are not reached.",
 PAK, [("entry codec", "unreal_pak/src/entry.rs"), ("writer", "unreal_pak/src/pakwriter.rs"), ("reader", "unreal_pak/src/pakreader.rs")],
 "runtime monitor: every read of a generated archive compared with what was written",
 "Generated archives over all writable versions; contents up to a few MB; no bound is proved beyond what was executed.")
prop("P02", "Archives follow the on-disk layout that other tools read and write",
 "Every archive the library writes can be decoded by an independent implementation of the documented layout: footer position and magic, index hash, entry hashes, record headers, block offsets (absolute or relative by version), mount point. Every well-formed archive an independent encoder produces, with or without an index of hashed paths, with padding and deleted space, is read correctly.",
 ["inputs", "configurations"], "all archives over versions 1-11, both directions",
 "The tests only compare the library with itself and a handful of files from one tool.",
 PAK, [("footer", "unreal_pak/src/index.rs"), ("index", "unreal_pak/src/index.rs"), ("headers", "unreal_pak/src/header.rs")],
 "runtime monitor: independent strict decoder/encoder run beside the real code",
 "The independent codec is part of the trusted base; the 8a record header keeps the library's method field width.")
prop("P03", "Damaged or hostile archives are refused with an error, never a crash",
 "Reading any byte sequence as an archive ends with data or an error: never a panic, abort, endless loop, or memory use out of proportion to the file.",
 ["inputs"], "all byte sequences: mutated, truncated, spliced, random",
 "No test feeds malformed input.", PAK, [("size validation", "unreal_pak/src/entry.rs"), ("footer search", "unreal_pak/src/index.rs")],
 "runtime monitor: overflow and bounds checks, allocation cap, hang watchdog over mutated archives",
 "Mutation campaign with arithmetic overflow checks and an allocator cap; not exhaustive.")
prop("P04", "An in-memory archive and a writer session behave like an ordered map",
 "After any sequence of setting, replacing, querying, merging archives and writing out, the in-memory archive holds exactly the last value of every name, and writing it out does not change it; a failed load loses nothing already held. A writer accepts each name once and refuses a repeated one without harming the archive.",
 ["histories"], "all operation sequences", "The tests do single writes and no replacement, merge or failure sequences.",
 ["unreal_pak/src/pakmemory.rs", "unreal_pak/src/pakwriter.rs"], [("entry map", "unreal_pak/src/pakmemory.rs"), ("duplicate refusal", "unreal_pak/src/pakwriter.rs")],
 "runtime monitor: model-based history checker", "Random histories up to about 30 operations, compared with a model after each.")
prop("P05", "Archives using unsupported features are refused, not misread",
 "An archive or entry that uses something the library cannot decode (encryption, an unknown format version, a compression method it does not implement) is reported as an error by every interface; it is never returned as if it were plain data, and supported entries beside it still read correctly. A version the library cannot write is refused or produces an archive that reads back.",
 ["inputs", "configurations"], "all combinations of unsupported markers over versions and entries", "No test has such an archive.",
 PAK, [("version and encryption checks", "unreal_pak/src/index.rs"), ("method check", "unreal_pak/src/entry.rs")],
 "runtime monitor over archives from an independent encoder with unsupported markers", "Generated archives; refusal observed at the API.")
prop("P06", "A success result from packing means every byte reached the destination",
 "If the destination or source fails, is full, transfers partially or is interrupted at any point, packing and unpacking either report an error or leave exactly the bytes a healthy run would have left. Interruptions and short transfers alone never cause a failure.",
 ["fault_sequences", "crash_points"], "every fault kind at every byte, call, seek and flush of a run",
 "Tests write to healthy memory.", PAK, [("flush on finish", "unreal_pak/src/pakwriter.rs"), ("write_all/read_exact use", "unreal_pak/src/entry.rs")],
 "runtime monitor with fault injection at the stream interface", "Faults placed at random and swept positions of generated archives.")
CLI = ["unreal_pak_cli/src/main.rs"]
prop("C01", "The command line tool packs and unpacks a folder without changing it",
 "Creating an archive from any folder of files and extracting it again gives the same relative paths and contents, for any way of naming the paths and with or without compression; the archive passes the tool's own checks. Extracting onto an existing folder leaves unrelated files alone.",
 ["inputs", "configurations"], "all directory trees, argument forms, compression choices", "The tool has no tests.", CLI, [("create", "unreal_pak_cli/src/main.rs"), ("extract", "unreal_pak_cli/src/main.rs")],
 "runtime monitor on the built tool: tree snapshots before and after", "Random trees; Unix file names that are valid Unicode.")
prop("C02", "Extracting an archive never touches anything outside the output folder",
 "Whatever names an archive contains (parent components, absolute paths, doubled separators), extracting it creates or changes files only below the chosen output folder. A success exit means every entry is there.",
 ["inputs"], "all entry names and nesting depths", "The tool has no tests.", CLI, [("output path check", "unreal_pak_cli/src/main.rs")],
 "runtime monitor on the built tool as an unprivileged user: snapshot of the surroundings", "Generated hostile names; no symbolic links planted beforehand.")
prop("C03", "The tool's exit status tells the truth under faults and damage",
 "When the tool exits with success, everything it was asked to do has been done: all files packed, all entries extracted byte for byte, the archive found intact. Unreadable inputs, a full disk, files in the way and damaged archives give a failure exit status, never a crash.",
 ["fault_sequences", "inputs"], "every fault point of create, extract and check", "The tool has no tests.", CLI, [("error propagation", "unreal_pak_cli/src/main.rs")],
 "runtime monitor on the built tool with injected resource limits, permissions and damage", "Faults injected through file size limits, permissions, blockers and damaged archives.")
HELP = ["unreal_helpers/src/read_ext.rs", "unreal_helpers/src/write_ext.rs"]
prop("H01", "Strings, arrays and flags survive the Unreal binary encoding",
 "Every string (absent, empty, narrow, wide), array, identifier and flag is written exactly in the Unreal layout, the reported size is the number of bytes written, and reading returns the value and consumes exactly those bytes. Malformed, truncated or oversized encodings are refused with an error, without a crash or outsized allocation.",
 ["inputs"], "all values and all byte sequences", "Tests contain a few fixed strings.", HELP + ["unreal_helpers/src/bitvec_ext.rs"], [("string codec", "unreal_helpers/src/read_ext.rs")],
 "runtime monitor: independent codec beside the real one", "Generated values and mutated bytes.")
prop("H02", "All representations of an identifier denote the same 128 bits",
 "Converting an identifier between bytes, four integers, one integer, display text and serialized text and back always gives the same identifier. Text that is not a plain identifier is refused, never misread and never a crash.",
 ["inputs"], "all 128-bit values and all text", "Tests sample a few values.", ["unreal_helpers/src/guid.rs"], [("conversions", "unreal_helpers/src/guid.rs")],
 "runtime monitor: redundant representations cross-checked", "All single-bit values plus random values; mutated text.")
prop("H03", "Game paths map to the one content file they name",
 "A path below the game root maps to the content folder of the given game followed by exactly the rest of the path, with the asset extension added only when the last component has none. Every other path is refused, and no character of the game name or the path is interpreted.",
 ["inputs"], "all game names and paths", "Tests sample a few paths.", ["unreal_helpers/src/path.rs"], [("path mapping", "unreal_helpers/src/path.rs")],
 "runtime monitor: independent mapping beside the real one", "Components without trailing slash or parent references.")
prop("B01", "The insertion-ordered map stays consistent under every history",
 "After any sequence of inserting, replacing, removing and editing entries by key, index, entry handle or iteration, all views of the ordered map (by key, by index, forward, backward, owned, mutable, copied) show the same entries in insertion order. An entry keeps its index for life, a removed one is gone from every view, and maps compare equal exactly when their contents do.",
 ["histories"], "all operation sequences", "Tests perform a few insertions and removals.", ["unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs", "unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs"], [("index bookkeeping", "unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs")],
 "runtime monitor: model-based history checker", "Random histories to 60 steps and all 15625 six-step histories over two keys.")
prop("B02", "A name handed out by the name table always reads its table entry",
 "Adding a name returns an index that holds exactly that text, once per text unless duplicates are forced, and never changes other entries; searching finds a present name and only an entry with that text. Names handed out earlier keep showing their entry's current text and their number, and a copy of the table is equal and independent.",
 ["histories"], "all sequences of adds, searches, renames and copies", "Tests add a few names.", ["unreal_asset/unreal_asset_base/src/containers/name_map.rs", "unreal_asset/unreal_asset_base/src/types/fname.rs", "unreal_asset/unreal_asset_base/src/containers/shared_resource.rs"], [("lookup", "unreal_asset/unreal_asset_base/src/containers/name_map.rs")],
 "runtime monitor: model-based history checker", "Random histories to 40 steps.")
prop("B03", "Two chained data streams read like their concatenation",
 "For any split of a byte sequence into two streams and any sequence of reads and seeks, the combined stream returns the same bytes, positions and end-of-data results as the undivided sequence.",
 ["histories", "inputs"], "all splits and all read/seek sequences", "Tests read linearly through two fixtures.", ["unreal_asset/unreal_asset_base/src/containers/chain.rs"], [("join handling", "unreal_asset/unreal_asset_base/src/containers/chain.rs")],
 "runtime monitor: reference cursor run in lockstep", "Lengths to 200 bytes, 30 operations.")
prop("B04", "Name hashes written to assets are the ones the engine computes",
 "The hash stored with every name equals the engine's pair of case-insensitive and case-sensitive checksums of that name, for narrow and wide text alike; hashes of names differing only in ASCII case agree where the format says they must.",
 ["inputs"], "all names", "Tests see only names occurring in the fixtures.", ["unreal_asset/unreal_asset_base/src/crc.rs"], [("checksum tables", "unreal_asset/unreal_asset_base/src/crc.rs")],
 "runtime monitor: bitwise reference implementation beside the table-driven one", "All single UTF-16 units, all two-character ASCII names, random names.")
prop("B05", "Compressed blocks are restored exactly or refused",
 "Decompressing a block with any supported method fills the destination with exactly the original bytes, or fails; a truncated, corrupted or short block never yields success with missing data and never crashes. Unknown methods are refused by name.",
 ["inputs"], "all blocks, methods and destination sizes", "No test covers decompression.", ["unreal_asset/unreal_asset_base/src/compression/mod.rs"], [("decompress", "unreal_asset/unreal_asset_base/src/compression/mod.rs")],
 "runtime monitor: blocks from independent encoders", "Blocks to 3000 bytes; corruption that still decodes is only checked for not crashing.")
prop("B06", "Engine versions stand for the format versions the engine writes",
 "For every released engine version the library gives the object versions and custom versions that this engine writes, and guessing the engine from those versions gives an engine that writes the same ones. A guess is always one of the possible engines and never crashes, whatever custom versions come with it. Every version number and custom version id in a file stands for the same version as in the engine, and numbers of no version are refused.",
 ["inputs", "configurations"], "all engine versions, object versions and lists of custom versions",
 "The tests never ask for a version; a shifted number only shows in packages of the one engine it belongs to.",
 ["unreal_asset/unreal_asset_base/src/engine_version.rs", "unreal_asset/unreal_asset_base/src/custom_version.rs", "unreal_asset/unreal_asset_base/src/object_version.rs"],
 [("engine versions", "unreal_asset/unreal_asset_base/src/engine_version.rs"), ("custom versions", "unreal_asset/unreal_asset_base/src/custom_version.rs"), ("object versions", "unreal_asset/unreal_asset_base/src/object_version.rs")],
 "runtime monitor: recorded engine facts and an independent table of released engines as oracle, every engine taken to its versions and back",
 "Facts of the custom versions are those recorded from this tree; only object versions have an independent source. Custom versions of UE5 engines are those of 4.27, as in the library.")
AP = ["unreal_asset/unreal_asset_properties/src/lib.rs"]
prop("A05", "Every kind of property keeps its value and its bytes through reading and writing",
 "For every property and struct type, engine version and value, reading the encoded property gives the encoded value and consumes exactly its bytes, and writing it gives the same bytes back, in tagged lists, arrays, maps, sets and nested structs alike. A property read from a canonical encoding and written again is never shortened, reordered or changed.",
 ["inputs", "configurations"], "all property types, engine versions, values and nestings",
 "The tests only read and rewrite the few property types in about thirty fixtures.",
 AP + ["unreal_asset/unreal_asset_properties/src"], [("property dispatch", "unreal_asset/unreal_asset_properties/src/lib.rs"), ("struct dispatch", "unreal_asset/unreal_asset_properties/src/struct_property.rs")],
 "runtime monitor: archive hooks that generate and record every primitive read, plus an independent tagged-property encoder as oracle",
 "Payloads generated on the fly for every registered type in every object version; nested lists from an independent encoder; known layouts of the common structs. Unversioned (schema based) properties are not covered.")
prop("A06", "Kismet bytecode keeps its meaning, its bytes and its declared in-memory size",
 "For every kismet expression, operand value, nesting and engine version, decoding a script gives the expressions that were encoded and consumes exactly their bytes, and encoding them gives the same bytes back. The size that encoding reports is the size the engine's in-memory bytecode has, which assets declare next to each script. A script cut short in the middle of an expression is refused.",
 ["inputs", "configurations"], "all expression tokens, operands, nestings and engine versions",
 "The tests rewrite a few fixtures that contain a small part of the expressions.",
 ["unreal_asset/unreal_asset_kismet/src"], [("expressions", "unreal_asset/unreal_asset_kismet/src/lib.rs")],
 "runtime monitor: independent kismet encoder producing values, bytes and in-memory size beside the real code",
 "Every token in every modelled version; InlineEvent instrumentation has no known in-memory size and nesting depth is bounded by the generator.")
AS = ["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/unreal_asset_exports/src"]
prop("A01", "Loading a package gives its content and saving it unedited gives its bytes",
 "Every well-formed package, for any supported engine version and any mix of names, imports, custom versions, dependencies and kinds of export, in one file or split into header and bulk data, loads with exactly the content that was encoded: every name, import, export header and export body, each export under its own kind. Saving the loaded package without edits reproduces the original files byte for byte.",
 ["inputs", "configurations"], "all packages, engine versions, export kinds, file splits and stream behaviours",
 "The tests load and rewrite about thirty fixtures and never look at most of the content; other versions, export kinds and header shapes are not reached.",
 AS, [("header codec", "unreal_asset/src/asset.rs"), ("export dispatch", "unreal_asset/src/asset_data.rs"), ("export kinds", "unreal_asset/unreal_asset_exports/src")],
 "runtime monitor: independent package encoder as oracle for loaded content and for rewritten bytes",
 "Generated cooked packages of all supported object versions, versioned and unversioned headers with tagged properties. Not covered: editor-only header parts (thumbnails, gatherable text, registry data), schema based properties, old custom-version formats.")
prop("A03", "Editing a package changes exactly what was edited and keeps it consistent",
 "After any sequence of edits to a loaded package (names, imports, exports, properties, dependencies, flags), saving and loading it again gives exactly the edited content: what was not edited is unchanged, and every offset, size, count, index and reference in the file is the one the edited content requires. Saving twice gives the same bytes, and saving does not change the package in memory.",
 ["histories"], "all edit histories over all packages",
 "The tests only rewrite unedited fixtures, so no offset or count ever has to move.",
 AS, [("offset recomputation", "unreal_asset/src/asset.rs"), ("name and import adding", "unreal_asset/src/asset.rs")],
 "runtime monitor: edit histories applied to the real package and to a model; saved bytes compared with the model's encoding",
 "Random histories of edits, on generated packages; same limits on package features as A01.")
prop("A04", "Damaged packages are refused or contained, never a crash",
 "Loading any byte sequence as a package, in one or two files, ends with a package or an error: never a panic, abort, endless loop or an allocation out of proportion to the file. A package whose header is intact but one export of which is damaged still loads, every other export unharmed, and the damaged one is either understood or kept as its raw bytes; a package that loads can be saved without a panic.",
 ["inputs"], "all byte sequences: damaged headers, damaged exports, truncation, damaged real packages",
 "No test feeds malformed packages.",
 AS + ["unreal_asset/unreal_asset_properties/src", "unreal_asset/unreal_asset_kismet/src"], [("raw fallback", "unreal_asset/src/asset_data.rs"), ("size checks", "unreal_asset/unreal_asset_base/src/reader")],
 "runtime monitor: overflow checks, allocation cap and hang watchdog over damaged packages; containment oracle on the undamaged exports",
 "Mutations of generated packages and of the shipped fixtures. Single allocations are bounded, not their sum; nesting so deep that it exhausts the stack is not explored.")
prop("D01", "Mod metadata means the same in every schema and refuses what is not metadata",
 "Reading mod metadata of any schema version gives exactly the fields the document states, older schemas giving the metadata their documented upgrade states (defaults for what is absent). Writing metadata and reading it again gives equal metadata; equality is an equivalence over the whole content, independent of key order, and equal metadata hash equally. Documents that are not valid metadata, including invalid versions, sync modes, download links and dependency requirements, are refused with an error; no document makes the reader panic.",
 ["inputs"], "all metadata documents of all schema versions, valid or not",
 "The tests read two or three fixed documents.",
 ["unreal_mod_metadata/src/lib.rs", "unreal_mod_metadata/src/v1.rs", "unreal_mod_metadata/src/v2.rs"], [("schema dispatch", "unreal_mod_metadata/src/lib.rs"), ("v1 upgrade", "unreal_mod_metadata/src/v1.rs"), ("equality and hash", "unreal_mod_metadata/src/v2.rs")],
 "runtime monitor: generated documents with a model of their meaning; laws of equality and hashing checked on every pair",
 "Documents generated field by field for every schema and damaged one field at a time; JSON itself is serde_json's.")
INT = ["unreal_mod_integrator/src/lib.rs", "unreal_mod_integrator/src/helpers.rs", "unreal_mod_integrator/src/assets.rs"]
prop("I01", "Integration writes an archive that states exactly the installed mods",
 "Integrating any set of mods writes one integrator archive: the list of mods has one row for each mod with the values its metadata states, the integrator settings (version, refusal of mismatched connections) are those requested, mods that come with the integrator are added once and their files copied, and nothing else is in it. The handlers that mods ask for are called once with the values of all mods in order; without mods no archive is written; a mod that cannot be read, or has no or invalid metadata is reported as an error and no archive is written; success means the archive was written in full. Looking up game files finds exactly what the game and mod archives contain, mods first.",
 ["inputs", "configurations", "fault_sequences"], "all sets of mods, metadata, archives, earlier integrator archives and broken mod files",
 "The integrator has no tests.", INT,
 [("integrate_mods", "unreal_mod_integrator/src/lib.rs"), ("list of mods", "unreal_mod_integrator/src/lib.rs"), ("asset lookup", "unreal_mod_integrator/src/helpers.rs")],
 "runtime monitor: the produced archive decoded independently and compared with a model of the mods; handlers record their calls",
 "The integrator's own crate sources compiled against generated starter packages, because the shipped ones are not in the repository.")
prop("I02", "Persistent actors are added to the maps as their blueprints describe them",
 "For every map and every actor that mods name, integration writes the map with everything it had before plus, for each actor, an object of the blueprint's class in the level and one component object per construction script node, with the node's name, class, owner and attachment, referenced by the actor and the level's actor list. All references in the written map resolve to what they name. A missing map or actor, a map without a level, and invalid metadata are reported as errors without writing an archive.",
 ["inputs"], "all maps, blueprints, component trees and mods", "The integrator has no tests.",
 ["unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs", "unreal_mod_integrator/src/lib.rs"], [("handle_persistent_actors", "unreal_mod_integrator/src/handlers/ue4_23/persistent_actors.rs")],
 "runtime monitor: written maps decoded independently and compared with old map plus a model of the blueprints",
 "Version 4.23 packages with up to five components per actor; plain package paths.")
MM = "unreal_mod_manager/src/"
prop("G01", "Dependency resolution chooses the newest versions that satisfy every dependent",
 "For every set of mods, versions and requirements added to the dependency graph in any number of rounds: each mod gets the newest of its known versions that satisfies the requirements of all its dependents, a mod for which there is none is reported with exactly those dependents and what they ask for, and asking for the dependents of a mod names exactly the mods that need it. Resolution never panics and does not depend on the order of the mods.",
 ["inputs", "histories"], "all graphs of mods, versions and requirements, including cycles and mods nobody provides",
 "The mod manager has no tests.", [MM+"mod_processing/dependencies.rs"], [("DependencyGraph", MM+"mod_processing/dependencies.rs")],
 "runtime monitor: graphs built in rounds; every result compared with a model that evaluates requirements itself",
 "Release versions (no pre-release tags), each mod added once; the graph is reached through a shim crate that compiles the manager's own sources.")
prop("G02", "What the user chose in the mod manager survives restarts",
 "Which mods are enabled, which versions are pinned or follow the latest, profiles, trusted mods, the game platform and the refusal of mismatched connections are the same after a restart. Configuration files of the older layout or with optional fields left out mean what they state; damaged ones, unknown platforms, and mods or versions that are gone leave the manager usable with everything else kept. A configuration write that fails or is cut off at any byte leaves the old or the new configuration.",
 ["histories", "crash_points", "inputs"], "all histories of choices and restarts, all configuration files, all points at which a write can stop",
 "The mod manager has no tests.", [MM+"mod_config.rs", MM+"profile.rs", MM+"lib.rs", MM+"background_work.rs"], [("load_config, write_config", MM+"mod_config.rs"), ("profiles", MM+"profile.rs")],
 "runtime monitor: state compared across restarts of the real background thread; file size limits stop writes by an error or by the end of the process",
 "The window is replaced by calls that change the same fields; up to seven steps per history.")
prop("G03", "The mods folder keeps exactly the user's mods, whatever arrives",
 "Importing, downloading, removing and integrating never change, delete or create files outside the manager's folders, and within the mods folder only the files concerned: a valid mod arrives in full and is listed with its version, anything that is not (wrong name, wrong or missing metadata, incomplete, hostile index files or downloads) is reported and leaves files that were there as they were, also when writing stops at any byte. After a start exactly the valid mods of the folder are listed, with the metadata of the selected version; removing a mod removes its files; and the manager never panics on such files or answers.",
 ["histories", "inputs", "fault_sequences", "crash_points"], "all histories of imports, removals, downloads and vanishing files, all index files and downloads a server can answer",
 "The mod manager has no tests.", [MM+"background_work.rs", MM+"mod_processing/pakfile_reading.rs", MM+"mod_processing/index_file.rs", MM+"mod_processing/verify.rs", MM+"mod_processing/version_handling.rs"], [("Import, RemoveMod, Integrate", MM+"background_work.rs"), ("read_pak_files", MM+"mod_processing/pakfile_reading.rs"), ("file names", MM+"mod_processing/verify.rs"), ("index files", MM+"mod_processing/index_file.rs")],
 "runtime monitor: the real background thread against a local web server with faults; folder trees compared before and after each step",
 "An index file stays the same during a session; no two files of one mod version; archives cut by less than 256 bytes are left out because a shorter footer layout can be found in them.")
prop("G04", "What is enabled is what gets installed, with its dependencies",
 "After an integration that reports success, the folder of installed mods contains the selected version of every enabled mod, byte for byte, the mods that come with the integrator where needed, the integrator archive whose list of mods states the same, and nothing else; with nothing enabled it is empty. Dependencies of enabled mods are downloaded at the newest version that satisfies all dependents, enabled and kept selected, or reported; mods that were enabled keep their version. An integration that fails says so, and versions follow the index file's latest or the newest there is, unless pinned.",
 ["histories", "inputs", "fault_sequences"], "all histories of choices and integrations over all sets of mods, dependencies and servers",
 "The mod manager has no tests.", [MM+"background_work.rs", MM+"mod_processing/version_handling.rs", MM+"mod_processing/dependencies.rs", MM+"mod_processing/index_file.rs"], [("Integrate", MM+"background_work.rs"), ("auto_pick_versions", MM+"mod_processing/version_handling.rs")],
 "runtime monitor: installed folder and integrator archive decoded after every integration and compared with the enabled versions and an independent dependency model",
 "Up to six mods with three versions each; release versions; the exact choice of dependencies is compared when all versions of a mod have the same needs and the server is healthy.")
prop("G05", "Mods with native code are reported unless exactly that file was trusted",
 "After every integration, the mods reported as untrusted are exactly the installed ones that bring native libraries and whose file was not trusted before; trusting covers that file's content only, and lasts over restarts.",
 ["histories"], "all histories of installing, updating, trusting and restarting", "The mod manager has no tests.",
 [MM+"background_work.rs", MM+"mod_config.rs"], [("trust check", MM+"background_work.rs")],
 "runtime monitor: reported mods compared with an own SHA-256 of every installed file and the trust granted so far",
 "The window's question is replaced by granting all that is reported.")
AS7 = ["unreal_asset/src/asset.rs", "unreal_asset/unreal_asset_base/src/types/fname.rs", "unreal_asset/unreal_asset_proc_macro/src/fname_container.rs"]
prop("A07", "Objects copied between packages keep every name once the name map is rebuilt",
 "After exports and imports of one package are copied into another and the name map is rebuilt, every name in them reads as it did in the source, in memory and after saving and loading, with all other values unchanged. The names the receiving package had keep their places, none is added twice, its own objects and the source package are unaffected, and rebuilding again changes nothing.",
 ["inputs", "histories"], "all packages, all choices of objects, all name maps of the receiving package",
 "No test copies objects between packages.", AS7, [("rebuild_name_map", "unreal_asset/src/asset.rs"), ("FNameContainer", "unreal_asset/unreal_asset_proc_macro/src/fname_container.rs")],
 "runtime monitor: values with names as text compared before and after copying; copying back compared byte for byte with an own encoding",
 "Generated packages as in A01; both packages have the same versions.")
UM = "unreal_asset/unreal_asset_base/src/unversioned/"
prop("U01", "Mapping files load as written and lookups follow inheritance",
 "Loading a mapping file (.usmap) of any version, stored or compressed with brotli or zstd, gives exactly the versions, names, enums, schemas, property types and module paths it states, static arrays expanded to one property per element. Looking up a property by name and element finds the one of the nearest type in the chain of super types with its index counted over the chain, all properties of a type are those of the chain in order, and what no type has is not found. Damaged files, wrong sizes, types nested without end and types that inherit from themselves end in an error or an answer: never a panic, an endless loop or an allocation out of proportion to the stated size.",
 ["inputs"], "all mapping files, well-formed or damaged, and all lookups in them", "No test loads a mapping file.",
 [UM+"mod.rs", UM+"usmap_reader.rs", UM+"ancestry.rs", UM+"properties/mod.rs"], [("parse_data", UM+"mod.rs"), ("lookups", UM+"mod.rs"), ("property types", UM+"properties/mod.rs")],
 "runtime monitor: an own encoder and model of mapping files; every field and lookup compared; allocation cap and hang watchdog over damaged files",
 "The length byte of a name is taken to count one more than its bytes, as the library has it. Oodle compression and reading properties through mappings are not covered.")
prop("X01", "Ace Combat 7 encryption is undone by decryption and follows the game's scheme",
 "For every name and every pair of files, decrypting what was encrypted under the same name (regardless of letter case) gives the original files, and what is encrypted is what the game's scheme prescribes, the key stream running on from the package into its exports. Sizes never change, files can be processed together or one after the other, and files shorter than the header do not make it panic.",
 ["inputs"], "all names and all files, including empty ones and sizes around the key's periods", "The test decrypts a single file.",
 ["unreal_asset/src/ac7.rs"], [("AC7XorKey", "unreal_asset/src/ac7.rs"), ("encrypt, decrypt", "unreal_asset/src/ac7.rs")],
 "runtime monitor: an own implementation of the scheme and its inverse compared with every output",
 "The key table is the repository's; the scheme is compared for ASCII names.")
RG = "unreal_asset/unreal_asset_registry/src/"
prop("R01", "Asset registries keep every asset, dependency and package when read and saved",
 "Reading an asset registry of versions RemovedMD5Hash to AddedDependencyFlags gives exactly the assets with their names, tags, chunks and flags, the dependency nodes with their identifiers and every kind of dependency and referencer, and the packages it states. Saving it, also after assets, tags, packages, dependencies or names were added, changed or removed, writes a registry that any reader decodes to the same content with the same name table, and before dependency flags the same bytes if nothing was changed. Damaged registries end in an error or an answer: never a panic or an allocation out of proportion to the file.",
 ["inputs"], "all registries of these versions, well-formed or damaged, and all changes to them", "No test reads or writes an asset registry.",
 [RG+"lib.rs", RG+"name_table_reader.rs", RG+"name_table_writer.rs", RG+"objects/asset_data.rs", RG+"objects/depends_node.rs", RG+"objects/asset_package_data.rs"], [("read and write", RG+"lib.rs"), ("dependencies", RG+"objects/depends_node.rs"), ("assets", RG+"objects/asset_data.rs"), ("packages", RG+"objects/asset_package_data.rs")],
 "runtime monitor: an own encoder, decoder and model of registries; what is read and every written file compared; allocation cap over damaged files",
 "Registries of version FixedTags and later are not supported by the library and only used as damaged input. The order of a node's dependencies in the file has no meaning since dependency flags; a dependency with a hard set of properties other than hard, game and build may be listed as either.")
CB = "unreal_cpp_bootstrapper/src/lib.rs"
prop("I03", "Native libraries of installed mods are extracted exactly, and nothing else",
 "After extracting native libraries succeeds, the target folder contains exactly the libraries that the metadata of the installed archives names by game paths, under their file names and byte for byte, and nothing that was there before. Archives without metadata contribute nothing; a library that is missing, unreadable metadata or a file that is no archive is reported. Nothing outside the target folder is created or changed, whatever paths the metadata names, and it never panics.",
 ["inputs", "histories"], "all sets of installed archives and all paths their metadata can name", "The extraction has no tests.",
 [CB], [("bootstrap", CB)],
 "runtime monitor: target folder and its surroundings compared with a model after every run",
 "The crate is built without its build script (which downloads the loader). Two libraries with the same file name: either may win. On Linux, so without Windows path rules.")
