"""Single source for properties.jsonl and the MANIFEST's claims (see gen.py)."""
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claim=True, na=None, technique=None, note=None, level="other"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, claim=claim, na=na, technique=technique, note=note, level=level))

ABSINT = "abstract interpretation of type-checked MIR (value-numbered dataflow, helpers inlined) compared with a per-case specification"

prop("C01", "Fixed-width reads are in bounds, little-endian, and advance exactly",
 "Every fixed-width integer or float read at a position (on the mapped reader, the slice reader and the free functions) yields the little-endian value of exactly its own width at exactly that position, or an error when it would leave the data. Every sequential read yields the same value as the positioned read at the cursor and on success leaves the cursor exactly its width further; all reader kinds agree.",
 ["inputs"], "all buffers, positions and read widths, on all three reader families",
 "Unit tests read a handful of hand-made buffers with a few widths; most of the 40 entry points and the out-of-range positions are never exercised.",
 ["src/reader.rs"], [("positioned reads of both readers", "src/reader.rs impl Reader"), ("sequential reads", "src/reader.rs WzSliceReader::read_*")])
prop("C02", "Compressed integers and encoded strings are decoded by one grammar",
 "A compressed integer is its first signed byte unless that byte is -128, in which case it is the following 4-byte (or 8-byte, for the 64-bit form) value, and it consumes exactly those bytes. An encoded string is empty for length byte 0, 2-byte characters for positive and 1-byte characters for negative lengths, with the extreme byte value announcing an explicit 4-byte length, and reading a string, skipping it for later, or reading it through the buffer functions consumes and locates exactly the same bytes; names of pkg2 directories are decrypted with the reader's pkg2 keys, every other text with its ordinary keys.",
 ["inputs"], "every first byte and every reader entry point for compressed integers, inline strings and string blocks",
 "The tests use a few strings; agreement between the eager, lazy and buffer based decoders at each sentinel is not sampled.",
 ["src/reader.rs"], [("read_wz_int / read_wz_int64", "src/reader.rs"), ("read_wz_string / read_wz_string_meta", "src/reader.rs"), ("string blocks", "src/reader.rs read_wz_string_block*")])
prop("C03", "Reading a referenced string leaves the cursor where it was",
 "Reading a string or its location at an explicit offset, directly or through a referenced string block or directory entry, leaves the caller's cursor exactly where it stood after the reference itself, on success and on every error.",
 ["inputs"], "every offset and every success and error exit of the referenced-string reads",
 "Tests only follow valid references; the error exits and the interaction with the single saved position are not exercised.",
 ["src/reader.rs", "src/directory.rs"], [("save/restore around read-at-offset", "src/reader.rs read_wz_string_meta_at, read_wz_string_at_offset")])
prop("C04", "Property records follow one grammar; unknown codes are rejected",
 "For each one-byte property code the parser consumes exactly the encoding the format gives that code and builds a value of that code's kind from those bytes; any other code is an error. An extended record, whatever its kind and even when its kind is unknown (it then becomes a null value), always resumes exactly at the end its declared block size gives.",
 ["inputs"], "all 256 property codes and all extended kinds, with every nested content",
 "The sample images contain only some codes and never an unknown kind or a payload that stops short of the declared size.",
 ["src/util/parse_property.rs"], [("record dispatch", "parse_property_node"), ("extended record", "parse_extended_prop/parse_more")])
prop("C05", "Direct lookup inside an image agrees with a full parse",
 "Looking a node up by path inside an image without parsing it reads, for every record it passes over, exactly as many bytes as the full parser does for that record, descends into each container kind past the same header the full parser skips, and yields the node the full parser would build from that record. A path whose next element is absent in the current container, or leads through a record without children, is reported as not found. Both readings of an image start at the same place and accept the same image headers. (Records of one container are taken to have different names, and links are not followed.)",
 ["inputs"], "all images, all paths, all record kinds passed over or descended into",
 "Tests look up one or two paths in one image and never through canvas or raw-data containers.",
 ["src/util/parse_property.rs", "src/wz_image.rs"], [("skipping twin of the parser", "get_node"), ("entry", "WzImage::at_path")])
prop("C06", "Payload records point at their own bytes",
 "A lazily stored payload (string, canvas, sound, raw data, video, script) records the position directly behind its own header and exactly the length its header declares, and every later access to the payload reads exactly that recorded range from the same file.",
 ["inputs"], "all payload kinds and all declared lengths",
 "Extraction tests cover one canvas and one sound of one file; an off-by-one in another kind or in a rarely used accessor is invisible.",
 ["src/util/parse_property.rs", "src/property/png.rs", "src/property/sound.rs", "src/property/raw_data.rs", "src/property/video.rs", "src/property/lua.rs", "src/property/string.rs"],
 [("payload construction", "parse_more"), ("payload access", "src/property/*")])
prop("C07", "Malformed data is an error, not a panic",
 "Opening, parsing or looking something up in a file with arbitrary contents ends in success or in an error value: no length, count, offset or index taken from the file makes a checked arithmetic operation, an index, a slice, an allocation size or an unwrap panic.",
 ["inputs"], "all byte contents of every file handed to an open, parse, lookup or payload read",
 "Tests use three well-formed files; malformed lengths and offsets are never tried.",
 ["src/reader.rs", "src/util/parse_property.rs", "src/wz_image.rs", "src/directory.rs", "src/header.rs", "src/property/png.rs", "src/ms"], [("panic-capable operations on file-derived values", "src/**")],
 claim=False, na="whether an index, slice, checked operation or allocation panics depends on relations between lengths and offsets stored in the file and on heap and stack limits, across separate public calls (an entry is listed in one call and read in another); a sound interval or relational analysis in reach raises alarms on most of the correct sites, so it would have to be unsound or noisy. The parts that have a structural form are claimed elsewhere: reads are bounds-checked (C01), malformed codes are errors (C04), errors are passed on (C23), nothing that can fail runs under a shared lock (C08)")
prop("C08", "A failing operation never poisons the shared key state",
 "While a decryption key state that other readers can share is locked for writing, nothing that can panic on file contents runs, so a damaged file can never make later reads of other files fail.",
 ["inputs", "histories"], "every write-lock region over a shared decryptor, on every path",
 "Poisoning needs a panic inside a short critical section followed by an unrelated read; no test does that.",
 ["src/reader.rs", "src/property/png.rs", "src/file.rs", "src/util/string_decryptor"], [("write-locked regions of shared decryptors", "src/reader.rs get_decrypt_slice, src/property/png.rs")])
prop("C09", "Key streams are long enough before use and match the key they are for",
 "Before data is decrypted or encrypted with a key stream, the stream has been extended to at least the length of that data; extending never changes or drops stream bytes already produced, and replacing the key discards every byte produced under the previous key. Decrypting is XOR with the stream from its first byte, and the key of a state shared between files is never replaced.",
 ["inputs", "histories"], "all lengths, all orders of extend/replace/decrypt operations on a key state",
 "Tests decrypt short strings with a fresh key state; longer-after-shorter and re-keying histories are not sampled.",
 ["src/reader.rs", "src/util/string_decryptor"], [("ensure_key_size before decrypt_slice", "src/reader.rs get_decrypt_slice"), ("set_iv", "src/util/string_decryptor/*")])
prop("C10", "Parsing is all-or-nothing and idempotent; clearing allows re-parsing",
 "Parsing a container marks it parsed only after it succeeded, a failed parse leaves it unparsed with no children added, and parsing a parsed container changes nothing. Clearing a container drops its children and marks it unparsed together with any internal progress, so that the next parse restores all its children.",
 ["histories", "fault_sequences"], "all sequences of parse, failed parse and clear on every container kind",
 "Tests parse each container once; failing parses and clear-then-parse on directories are not covered.",
 ["src/node.rs", "src/directory.rs", "src/file.rs", "src/wz_image.rs", "src/ms/file.rs"], [("parse state", "WzNode::parse/unparse")])
prop("C11", "Every child knows its parent",
 "Whenever the library itself puts a node into another node's children - by parsing, merging nodes, or assembling a folder of files - the node's parent link refers to the node that holds it and it is filed under its own name.",
 ["inputs", "histories"], "every place that inserts a child node",
 "Tests look at parents in hand-made trees and one resolved folder only.",
 ["src/node.rs", "src/util/parse_property.rs", "src/directory.rs", "src/ms", "src/util/resolver.rs", "src/util/node_util.rs"], [("child insertions", "children.insert sites")])
prop("C12", "Parsing and link resolution never self-deadlock",
 "While a node is locked by the library's own parse or traversal, the library never blocks on a lock it already holds: link resolution during a parse only tries the locks of nodes above it, no function waits for a lock it holds already when one of the two holds is exclusive, and callbacks of a traversal run with no lock held.",
 ["schedules", "inputs"], "every lock acquisition reachable while another lock is held",
 "A self-deadlock needs a specific nesting (link pointing at an ancestor, callback that writes); tests do not time such cases.",
 ["src/node.rs", "src/util/node_util.rs", "src/util/walk.rs", "src/property/png.rs"], [("try-locks in link resolution", "resolve_uol"), ("traversal callback", "walk_node")])
prop("C13", "A traversal visits every node once, parents first, and releases images",
 "Walking an acyclic tree calls the callback exactly once for every place a node is filed at, for a node before any of its children and then for every child it has after forced parsing, with forced parsing done before the callback; an image parsed by the walk is cleared again only after all of its children were visited, and nothing else is cleared.",
 ["inputs"], "all trees, both parse modes",
 "The only test checks membership in a set and would pass if nodes were skipped or visited twice.",
 ["src/util/walk.rs"], [("walk_node", "src/util/walk.rs")])
prop("C14", "Directory entries are verified before any node is created",
 "A directory becomes nodes only after every entry of it was checked against the file: its data range (offset plus size, without wrap-around) lies inside the file, an image entry starts with a known image header byte and a directory entry with a non-negative count; one bad entry makes the whole directory an error. Entry counts outside the accepted range and unknown entry kinds are errors.",
 ["inputs"], "all directory contents and version guesses",
 "Tests parse one good file; wrong version numbers, which rely on this check to be rejected, appear in no test.",
 ["src/directory.rs"], [("entry verification", "WzDirectoryEntry::verify"), ("order", "WzDirectory::resolve_children")])
prop("C15", "A game version is accepted only after the whole directory decodes",
 "Version detection accepts a candidate only if its hash is non-zero, all entries verify and the first image has a valid header; the accepted version and hash are then the ones recorded on the file, a failed candidate changes nothing, and exhaustion is an error. Detection tries every version from 1 to 2000 (770 to 780 for a header without a version word). An explicitly given version is the only one tried.",
 ["inputs"], "all files and all candidate versions and profiles",
 "The tests' files match at their first plausible candidate.",
 ["src/file.rs", "src/util/version/pkg1.rs", "src/util/profile.rs"], [("candidate loops", "WzFile::parse_pkg1/parse_pkg2")])
prop("C16", "Keys are verified against the file before they are used",
 "A key or version given by the caller is used for an image or file only if it decodes that file's probe data; an image with a wrong key is refused, a file falls back to detection, and detection returns only a key that passed the same check.",
 ["inputs"], "all caller supplied keys and all files",
 "Tests pass correct keys or none.",
 ["src/wz_image.rs", "src/file.rs", "src/util/version/mod.rs", "src/util/string_decryptor/mod.rs"], [("verification before with_iv/with_existing_keys", "WzImage::from_file, WzFile::from_file")])
prop("C17", "Version, key and profile tables agree with each other",
 "The tables naming game versions, their keys, their shared key states and the format profiles agree: looking a key up by version or by its bytes reaches the same shared state, and each profile pairs the offset formula, hash family, key kind and 64-bit flag that belong together.",
 ["configurations"], "every row of every table",
 "Tests probe a few rows.",
 ["src/util/version/mod.rs", "src/util/string_decryptor/mod.rs", "src/util/profile.rs", "src/util/maple_crypto_constants.rs"], [("tables", "get_iv_by_maple_version, get_decryptor, get_all_pkg2_profiles")])
prop("C18", "Entry offsets and version hashes follow the format's formulas",
 "The absolute offset of a directory entry and the version hash are the format's fixed functions of the stored values for each format generation, computed with wrap-around arithmetic for every input.",
 ["inputs"], "all stored offsets, hashes and header fields, for each format generation",
 "Each formula is sampled on at most a few values.",
 ["src/util/offset.rs", "src/util/version/pkg1.rs", "src/util/version/pkg2.rs"], [("offset calculators", "src/util/offset.rs"), ("hash functions", "src/util/version/*")])
prop("C19", "Encoding a string is the inverse of decoding it",
 "For each string encoding, encoding applies the same index mask, character width and byte order as decoding together with the same key stream, and the length recorded for the encoded text is the length of the encoded bytes.",
 ["inputs"], "all texts, encodings and keys",
 "Tests encode short Latin texts; characters outside the basic plane and lengths past a mask wrap are not tried.",
 ["src/property/string.rs", "src/reader.rs"], [("encrypt_str", "src/property/string.rs"), ("resolve_*_raw", "src/reader.rs")])
prop("C20", "Every canvas format is sized, decoded and listed consistently",
 "Each numeric canvas format maps to one format, the buffer reserved for the inflated bytes of a canvas covers every byte its decoder consumes for that width and height (a canvas with all its bytes decodes, one short of bytes is refused with an error), and building with or without parallelism decodes every pixel with the same function of the same input bytes.",
 ["inputs", "configurations"], "all format codes, all dimensions, both build configurations",
 "The test suite decodes few formats and only in the default build.",
 ["src/property/png.rs", "src/util/color.rs"], [("format table", "WzPngFormat"), ("decoders", "src/property/png.rs")])
prop("C21", "A sound's bytes are the same through every accessor",
 "Getting a sound as a buffer, writing it to a stream and saving it produce the same bytes: for MP3 and unknown kinds exactly the stored data range, for PCM a WAV header whose fields come from the stored format header and length, followed by that range.",
 ["inputs"], "all sounds and all accessors",
 "One sound of one kind is exported in tests.",
 ["src/property/sound.rs"], [("accessors", "WzSound")])
prop("C22", "The library only writes files it was asked to save",
 "No operation other than an explicitly requested save creates, changes or removes anything in the file system; opened data files are mapped read-only.",
 ["programs"], "every call site in the library",
 "Absence of an effect over all call sites cannot be sampled.",
 ["src"], [("file system calls", "src/**")])
prop("C23", "Errors are reported, not swallowed",
 "When a read, a parse step, a decoding step or an I/O call fails, the operation that made it fails too (an error, None or false): it neither carries on as if nothing had happened, nor turns to the next item of a loop, nor panics. Only these documented places absorb a failure: a forced traversal skips what cannot be parsed, a record of an unknown extended kind becomes null, keys, versions and header generations are found by trying candidates, a file without a header gets an empty one, an image without a readable first byte has no known kind, canvas data that is not plain zlib is taken for encrypted, and a link or text that cannot be read counts as absent (empty in JSON).",
 ["inputs", "fault_sequences"], "every fallible call in the library",
 "Tests hardly provoke errors.",
 ["src"], [("error handling sites", "src/**")])
prop("C24", "Converting a node to JSON never fails on its values",
 "Every stored value kind converts to the JSON value of the same meaning; values JSON cannot express (non-finite numbers) become null, and no value makes the conversion panic.",
 ["inputs"], "all value kinds and all values",
 "Tests convert ordinary values.",
 ["src/property/mod.rs", "src/node.rs"], [("WzValue to JSON", "src/property/mod.rs"), ("to_simple_json", "src/node.rs")])
prop("C25", "Pack entries are decoded in file order with both format generations alike",
 "An entry of a pack file is read field by field in the stored order, the decrypting readers hand out every byte of the table once and in order however the reads are cut, entry data starts after the entry table rounded up to the block boundary plus the entry's start in blocks, a header whose version or checksum does not match is an error, and the keys of header, table and entries (hence an entry's image) are the ones the format derives from the file name, the salt and the entry's own name and key, in both format generations.",
 ["inputs"], "all pack files of both generations", "No pack file is part of the tests.",
 ["src/ms/file.rs", "src/ms/header.rs", "src/ms/ms_image.rs"], [("entry table", "MsFile::parse_v1/parse_v2"), ("header", "MsHeader::from_ms_file*")])
prop("C26", "Typed accessors return exactly their own kind",
 "Asking a node for a particular kind of content yields it exactly when the node holds that kind, and never something else; converting a typed value into a node's content and asking back for the same type gives that value.",
 ["inputs"], "all accessors and all content kinds", "Tests check a few accessor/kind pairs of a 30 by 30 matrix.",
 ["src/node_cast.rs", "src/object.rs"], [("accessors", "src/node_cast.rs"), ("conversions", "src/object.rs")])
prop("C27", "Paths and links resolve step by step in the documented direction",
 "A path is resolved one element at a time from the node it is asked on, '..' (where allowed) going to the parent and a missing element ending the search with nothing; inner links start at the enclosing image, outer links at the base file, and relative links at the link's parent, and a resolved relative link replaces exactly its own entry.",
 ["inputs"], "all trees, paths and links", "Tests use one small tree.",
 ["src/node.rs", "src/util/node_util.rs"], [("path lookups", "WzNode::at_*"), ("links", "src/util/node_util.rs")])
prop("C28", "Trees can be shared between threads without unsafe code",
 "Every public data type, apart from the cursor of a read in progress and the generator of version candidates, can be sent to and shared between threads, and the only unsafe operation in the library is the read-only mapping of an opened file.",
 ["programs", "schedules"], "all public types and all code", "A missing auto trait or an unsafe block is a property of the whole program.",
 ["src"], [("unsafe", "Mmap::map sites")])
prop("C29", "The file header is decoded from fixed places and only known kinds accepted",
 "The file header's fields come from their fixed positions for each generation; a missing, over-long or unknown header is an error or an empty default, and the presence of the version word is decided by the documented rule.",
 ["inputs"], "all headers", "Tests have two headers.", ["src/header.rs"], [("header", "src/header.rs")])
prop("C30", "Stream cipher tables and constants are the published ones",
 "The substitution, multiplication and feedback tables of the pack cipher and the key constants are those of the published ciphers, so decryption of any pack agrees with the format.",
 ["inputs"], "all table entries", "No pack file is in the tests; a single wrong table entry affects some key streams only.",
 ["src/ms/snow2_decryptor.rs", "src/util/maple_crypto_constants.rs"], [("SNOW 2.0 tables", "src/ms/snow2_decryptor.rs")])
prop("C31", "Full JSON export can be read back to an equal tree",
 "Exporting any tree to its full JSON form and reading it back yields a tree with the same names, kinds, values and children.",
 ["inputs"], "all trees", "Tests round-trip one tree.", ["src/node.rs"], [("serde impls", "src/node.rs")],
 claim=False, na="round-trip equality of serialised values quantifies over runtime values and the serde runtime; no structural part of it beyond the derive itself is visible in the source")
prop("C32", "Version detection terminates promptly and finds the one right version",
 "For every well-formed file, detection ends after a bounded number of candidates with the version the file was written with.",
 ["inputs"], "all well-formed files", "Tests have two files.", ["src/file.rs"], [("candidate loops", "src/file.rs")],
 claim=False, na="whether a wrong candidate can also pass verification depends on the numeric contents of the file; uniqueness is a runtime-value question with no sound static bound")
prop("C33", "Concurrent parses of one node give one consistent set of children",
 "Any number of threads parsing, clearing and reading the same tree observe a result some serial order would give.",
 ["schedules"], "all interleavings", "Tests are single threaded.", ["src/node.rs"], [("node lock", "src/node.rs")],
 claim=False, na="a linearizability statement over histories; the structural part (the parse runs under the node's exclusive borrow, no unsafe shared state) is enforced by the type system and claimed under C28 and C12")
prop("C34", "Canvas pixels have the colours the format stores",
 "A decoded pixel has the colour its format publishes for the stored bytes: 4-, 5- and 6-bit channels widened by repeating their leading bits and 10-bit channels by their leading eight bits, ARGB1555 either opaque or transparent, R16 a red level with full alpha, DXT3 and DXT5 the S3TC four-colour blend of the block (always four colours) with the block's explicit or interpolated alpha (rounded as 8-value and 6-value tables), a small DXT3 the same with the block's four-bit alpha, BC7 the library's colours in the image's channel order. The tiled RGB565 is only covered by its addressing (C20).",
 ["inputs"], "all pixel data of all supported formats, all positions, both builds",
 "Tests decode hardly any canvas and compare none with a published layout.",
 ["src/property/png.rs", "src/util/color.rs"], [("pixel decoders", "src/property/png.rs")])
prop("C35", "A node's path names the way to it",
 "The full path of a node is the names of its ancestors from the root down and its own, joined by slashes; the path from the root leaves the root's own name out (and is empty for the root), so looking it up from the root leads back to the node; the path from the image starts below the nearest enclosing image and is empty when there is none. Names are used, shown and compared exactly as given, whatever they contain.",
 ["inputs"], "all nodes of all trees, all names", "Tests ask a handful of nodes of one small tree, none with empty, repeated or nested-image names.",
 ["src/node.rs", "src/node_name.rs"], [("paths", "WzNode::get_full_path / get_path_from_root / get_path_from_image"), ("names", "WzNodeName")])
