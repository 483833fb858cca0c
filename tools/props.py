import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
O="packages/optivorbis/src/"
V=O+"vorbis/optimizer/"
R=O+"remuxer/ogg_to_ogg/"
p("C01","Optimization is lossless for the decoded audio",
 "For every valid Ogg Vorbis I file (floor type 1) the remuxer succeeds, and each retained audio packet of the output decodes, with the output's own setup header, to exactly the same mode, window shape, floor values, codebook entries and residue vectors as the corresponding input packet, in the same order. Consequently an independent Vorbis decoder produces sample-for-sample identical PCM for input and output. This holds for every legal combination of channels, block sizes, codebooks (sparse, ordered, single-entry, long codewords, VQ lookup types 0 to 2), floors, residue types 0 to 2, submaps, coupling steps and modes, and for packets that legally end early.",
 ["inputs","programs"],"all valid Vorbis I streams with floor 1, all packet contents",
 "The repository's tests remux ten sample files and only check that remuxing succeeds; they never decode the output, and ten encoder-made files reach a tiny part of the setup-header and packet space.",
 [V+"audio_packet_common.rs",V+"audio_packet_rewrite.rs",V+"setup_header_rewrite.rs",O+"vorbis/codebook/mod.rs",O+"vorbis/codebook/huffman_tree.rs",O+"vorbis/codebook/huffman_codeword_lengths.rs"],
 [("two passes walk audio packets with the same parser",V+"audio_packet_common.rs"),("codewords are replaced entry by entry",V+"audio_packet_rewrite.rs"),("codeword assignment",O+"vorbis/codebook/huffman_tree.rs")],
 ["audio packets and setup header of OggToOgg::remux output","PCM of an independent decoder"])
p("C02","Identification data and codec setup are preserved",
 "The output's identification header keeps the input's channel count, sampling frequency, bitrates and block sizes, and its setup header keeps every codebook's dimensions, entry count and vector lookup table (exact minimum, delta, sequence flag and multiplicands), and every floor, residue, mapping and mode parameter with the same numbering. Only codeword lengths, their encoding format, padding and reserved placeholder fields may differ.",
 ["inputs","configurations"],"all legal identification and setup headers, including every field at its extremes",
 "No test compares setup headers; the sample files all come from libvorbis-like encoders that use few distinct configurations.",
 [V+"identification_header_copy.rs",V+"setup_header_parse.rs",V+"setup_header_rewrite.rs","packages/vorbis_bitpack/src/lib.rs"],
 [("setup parse",V+"setup_header_parse.rs"),("setup rewrite",V+"setup_header_rewrite.rs"),("identification header copy",V+"identification_header_copy.rs")],
 ["first and third packet of every output stream"])
p("C03","Output is a conforming Ogg Vorbis file",
 "Whatever accepted input produced it, the output is a strictly valid Ogg physical bitstream (capture patterns, version, correct CRCs, contiguous page sequence numbers, exact continuation, BOS and EOS flags, unique serials, streams not interleaved, -1 granule position exactly on pages where no packet ends) that contains only Vorbis logical streams. Each of them has exactly three valid headers with correct framing bits and zeroed reserved fields, codebooks that are neither over- nor underspecified (except for a single used entry of length 1 or none), and audio packets a strict decoder accepts.",
 ["inputs","configurations"],"all accepted inputs, including irregular and repaired ones, under all settings",
 "Tests only check that remuxing returns Ok, or that the reader used internally accepts the result; nothing checks output validity independently.",
 [R+"mod.rs",V+"setup_header_rewrite.rs",V+"comment_header_copy.rs",V+"identification_header_copy.rs"],
 [("second remux pass",R+"mod.rs"),("header writers",V+"setup_header_rewrite.rs")],
 ["bytes of OggToOgg::remux output"])
p("C04","Codeword assignment is optimal and only used entries get codewords",
 "In every output stream each codebook assigns codewords exactly to the entries that the stream's audio packets use, and the total number of bits spent on that codebook's codewords equals the minimum over all prefix codes for those usage counts (with codewords never longer than the 32 bits the format allows). The audio data of a stream therefore never takes more codeword bits than in the input.",
 ["inputs"],"all streams and all symbol usage distributions, including extremely skewed ones",
 "Unit tests check a handful of small frequency lists; optimality over a whole stream, unused entries and extreme distributions are not observed.",
 [O+"vorbis/codebook/huffman_codeword_lengths.rs",O+"vorbis/codebook/mod.rs",V+"setup_header_rewrite.rs"],
 [("usage counting during the first pass",O+"vorbis/codebook/mod.rs"),("in-place Huffman code length computation",O+"vorbis/codebook/huffman_codeword_lengths.rs")],
 ["codeword lengths in the output setup header against symbol counts of the input"])
p("C05","No padding survives and only undecodable audio packets are dropped",
 "Every output packet takes exactly the whole number of bytes its decodable content needs, with zero bits in the unused part of its last byte, so trailing garbage or padding in input headers and audio packets is removed. Audio packets that end before their mode and window information can be read (for example, zero-byte packets) are dropped, every other audio packet is kept exactly once and in order, and dropping them changes nothing else in the output.",
 ["inputs","histories"],"all packet sequences with padding and undecodable packets at any position",
 "One sample file has zero-byte packets at its end; padding removal and packets dropped at other positions are not tested.",
 [V+"audio_packet_common.rs",V+"audio_packet_rewrite.rs",R+"mod.rs",V+"identification_header_copy.rs"],
 [("end-of-packet handling",V+"audio_packet_common.rs"),("analyzed and optimized packet counts",R+"mod.rs")],
 ["packets of the output"])
p("C06","Ogg pages are packed as tightly as the format allows",
 "In each output stream the identification header is alone on the first page, the comment and setup headers follow with the setup header ending its page, audio starts on a fresh page, and every page other than these two header boundaries and the last page of the stream is filled with 255 segments. No bytes lie outside pages.",
 ["inputs"],"all input page layouts, packet sizes and counts",
 "No test looks at the page layout of the output.",
 [R+"mod.rs"],[("page end decision",R+"mod.rs")],["pages of the output"])
p("C07","Granule positions are exact, keep offsets and trimming, and are repaired",
 "For every output page that ends an audio packet, the granule position equals the sample count decoded up to and including the last packet ending on it, shifted by the start offset that the first audio page of the input implies (negative or positive), and header pages have 0; granule positions in the middle of the input do not influence the result. The final page keeps the input's final granule position if it lies between one sample and the full sample count of the last packet after the previous packet, and otherwise gets the full count. With ignore_start_sample_offset the same positions start from zero and the end trimming length is kept.",
 ["inputs","configurations"],"all block size sequences, page layouts, start offsets, end trimmings and corrupt granule positions, with the option on and off",
 "A test compares granule positions for a few sample files; block-size switching patterns, offsets, trimming, corruption and dropped packets are not covered.",
 [R+"granulator.rs",R+"mod.rs"],[("granule position calculation",R+"granulator.rs")],["granule positions of output pages"],
 [dict(name="start_granule_position_offset",meaning="difference between the original and calculated position at the end of the first audio page",where=R+"granulator.rs")])
p("C08","Comment header content follows the selected actions, byte for byte",
 "User comments are copied byte for byte, in order and count, regardless of encoding or size, or all removed when asked to; the vendor string is copied, replaced, emptied, or has '; ' plus the (short or full) OptiVorbis tag appended unless it already ends with such a tag, according to the selected action. A comment header that ends early at any byte is not an error: everything completely read before that point is kept and the output comment header is complete and valid.",
 ["inputs","configurations"],"all vendor strings and comment lists (any bytes, sizes up to several pages), all 10 action combinations, truncation at every byte",
 "Tests check the default action on one file; other actions, binary content, truncation and huge comments are not covered.",
 [V+"comment_header_parse.rs",V+"comment_header_copy.rs"],[("comment parse",V+"comment_header_parse.rs"),("comment write",V+"comment_header_copy.rs")],["second packet of every output stream"])
p("C09","Optimization is idempotent",
 "Remuxing an output again with the same settings and non-random serials yields exactly the same bytes: a second run finds nothing left to optimize, repair, append or strip.",
 ["inputs","histories"],"all accepted inputs and settings",
 "No test runs the optimizer on its own output and compares bytes.",
 [R+"mod.rs",R+"granulator.rs",V+"comment_header_parse.rs",O+"vorbis/codebook/huffman_codeword_lengths.rs"],
 [("deterministic code length computation",O+"vorbis/codebook/huffman_codeword_lengths.rs"),("tag detection",V+"comment_header_parse.rs")],["output of remux applied to its own output"])
p("C10","Logical streams: chained kept, foreign stripped, grouped rejected",
 "Every Vorbis stream of a chained file is optimized independently and written in the original order exactly as if it had been processed alone (except for its serial), and non-Vorbis logical streams, chained or multiplexed anywhere, never influence the output. A file in which a Vorbis stream begins before another has ended is rejected, and a file without any Vorbis stream is an error or, if configured so, produces an empty output.",
 ["inputs","configurations","histories"],"all sequences and interleavings of Vorbis and non-Vorbis logical streams",
 "Three sample files (one chained, one with skeleton, one without Vorbis) only check Ok or Err.",
 [R+"mod.rs"],[("first pass stream tracking",R+"mod.rs")],["remux result and output streams"])
p("C11","Stream serials follow the settings and are reproducible when asked",
 "Without randomization the n-th Vorbis stream gets serial offset+n (wrapping) and the output is a deterministic function of input bytes and settings. With randomization serials of one file are distinct, differ between runs, change nothing else in the output, and when SOURCE_DATE_EPOCH is set to an integer a fresh process gives the same bytes for the same input, epoch and settings, while an invalid value is reported as an error.",
 ["inputs","configurations","histories"],"all offsets, stream counts, epochs and process runs",
 "No test inspects serials, determinism or SOURCE_DATE_EPOCH.",
 [R+"mod.rs"],[("serial and increment generation",R+"mod.rs")],["serials of output pages","bytes of outputs of fresh processes"])
p("C12","Corrupt page checksums are detected, or repaired when verification is off",
 "With checksum verification on, an input in which any page's checksum does not match its content is rejected with an error, also when a page no longer matches its checksum only in the second of the two passes over the input. With verification off, checksum fields have no influence: the output is the same as for the input with correct checksums, and all output checksums are correct.",
 ["inputs","fault_sequences"],"corruption of any checksum, header or payload bit of any page",
 "One sample file with a single checksum mismatch is tested with each option value.",
 [R+"mod.rs"],[("page parsing options",R+"mod.rs")],["remux result"])
p("C13","Documented irregularities are tolerated and repaired",
 "Streams that are decodable but irregular are accepted and give the same output as their regular equivalents: missing EOS flag, zero framing bits, oversized (padded) header and audio packets, wrong codebook sync patterns, nonzero time domain transforms, window types, transform types or mapping reserved fields, residues whose end precedes their begin, overly many or few bytes after the last page, and trailing non-Ogg data. Irregularities do not change how the rest of the stream is processed.",
 ["inputs"],"every combination of these irregularities in any valid stream",
 "Test samples contain a checksum mismatch and zero-byte packets only; the listed leniencies are compiled out of debug-assertion test builds.",
 [V+"setup_header_parse.rs",V+"identification_header_copy.rs",V+"comment_header_parse.rs",R+"mod.rs"],
 [("lenient header parsing",V+"setup_header_parse.rs"),("end of stream by packet count",R+"mod.rs")],["remux result in a build without debug assertions"])
p("C14","Invalid Vorbis streams are rejected with an error",
 "A stream whose headers or audio packets violate the Vorbis I rules the decoder depends on (unsupported version, zero channels or rate, bad block sizes, truncated setup, overspecified codebooks, reserved lookup, floor, residue or mapping types, references to missing codebooks, floors, residues, mappings or modes, too small classbooks, repeated floor points, bad coupling or multiplexing, use of unassigned codewords, scalar books used as vectors, incompatible dimensions, non-audio packets after the headers) makes the remuxer return an error, and conversely a stream that violates none of them is accepted.",
 ["inputs"],"all setup headers and packets one or several field changes away from valid ones",
 "Only a few of these conditions appear in unit tests of the tree builder; the rest are never exercised.",
 [O+"vorbis/optimizer.rs",V+"setup_header_parse.rs",V+"audio_packet_common.rs",O+"vorbis/codebook/huffman_tree.rs"],
 [("identification header validation",O+"vorbis/optimizer.rs"),("setup header validation",V+"setup_header_parse.rs")],["remux result"])
p("C15","Arbitrary input never crashes the remuxer",
 "For any byte sequence, settings and start position, remuxing returns either Ok or Err without panicking, overflowing or reading or writing without bound, and whenever it returns Ok the output is a well-formed Ogg stream (or empty) that the remuxer itself accepts again.",
 ["inputs","configurations"],"all byte sequences; random, mutated, spliced and structurally corrupted files",
 "The AFL target in the repository is run by hand and not part of the tests; the tests only use well-formed samples.",
 [R+"mod.rs",R+"granulator.rs",V+"setup_header_parse.rs",V+"audio_packet_common.rs",V+"comment_header_parse.rs"],
 [("bounds and overflow checks throughout parsing",V+"setup_header_parse.rs")],["process outcome, remux result"])
p("C16","I/O failures are reported and never yield a silently wrong result",
 "If any single read, seek or write operation on the source or sink fails, or the sink accepts no more data, remuxing returns an error; it returns Ok only if the sink received the complete output. A run whose I/O operations are merely interrupted or short gives the same result as an undisturbed one.",
 ["fault_sequences","inputs"],"a fault at every I/O operation index of a run, of several error kinds",
 "Tests only use in-memory cursors and files that never fail.",
 [R+"mod.rs"],[("error propagation",R+"mod.rs")],["remux result and sink contents under injected faults"])
p("C17","Result depends only on the data from the source's current position",
 "Remuxing starts at the source's current position and depends on nothing before it; how the source splits its reads, how the sink splits its writes, and which files the same remuxer instance processed before, successfully or not, do not change the result. The sink is only appended to, and it is returned to the caller.",
 ["histories","inputs","schedules"],"all start positions, read and write fragmentations, and sequences of uses of one remuxer instance",
 "Tests use each remuxer once, on files read from position zero.",
 [R+"mod.rs"],[("source rewind",R+"mod.rs"),("per-call state",R+"mod.rs")],["bytes received by the sink"])
p("C18","Stream mangler decisions are honored exactly",
 "A mangler's return values for sampling frequency, bitrates, stream serial, page ending and granule position are written as returned, each hook is called with the values OptiVorbis would have written and correct packet numbers and header and last-packet flags, once per stream or written packet in order. A mangler that returns its arguments gives the same output as the passthrough mangler.",
 ["programs","inputs"],"all mangler return values and streams",
 "The mangler trait is not exercised by any test.",
 [R+"ogg_vorbis_stream_mangler.rs",R+"mod.rs",V+"identification_header_copy.rs"],[("mangler calls",R+"mod.rs")],["calls received by a recording mangler, output bytes"])
p("C19","Packet-level optimizer API is consistent with the remuxer",
 "Feeding a stream's packets to the low-level optimizer gives the same optimized packets as the remuxer writes, whether packets are passed borrowed or owned. Analysis and optimization report the same block size for each packet (the one its mode selects), nothing for header packets, and None exactly for dropped packets.",
 ["inputs","histories"],"all valid streams, buffer ownership choices per packet",
 "The packet-level API is only exercised indirectly.",
 [O+"vorbis/optimizer.rs"],[("optimizer state machine",O+"vorbis/optimizer.rs")],["VorbisOptimizer::new, analyze_packet, optimize_packet"])
p("C20","Bitpacking of integers and flags is exact and tight",
 "Any sequence of writes of unsigned integers (least significant bits), signed integers and flags of any width from 0 to 32 produces exactly the concatenation of those bits, least significant first, with zero padding only at finalization (after which writing continues correctly on a byte boundary), and reading back any partition of the bits returns the same values with sign extension. A read beyond the end fails with an unexpected-end error and never invents bits; a failing sink's error is returned.",
 ["inputs","histories"],"all operation sequences, widths 0 to 32 and 32-bit values, including values with bits set beyond the width",
 "Unit tests write a few hand-picked sequences.",
 ["packages/vorbis_bitpack/src/lib.rs"],[("BitpackReader and BitpackWriter","packages/vorbis_bitpack/src/lib.rs")],["bytes written, values read"])
p("C21","Vorbis float32 conversion is exact",
 "Reading any 32-bit Vorbis float word yields exactly the value the Vorbis I specification defines, and writing that value back yields a word of equal value. Values that are not representable are converted to a representable neighbour, with the sign kept and the scale saturated rather than wrapped.",
 ["inputs"],"all 2^32 words, all normal doubles",
 "Unit tests check a few constants.",
 ["packages/vorbis_bitpack/src/lib.rs"],[("float32 pack and unpack","packages/vorbis_bitpack/src/lib.rs")],["read_float32, write_float32"])
p("C22","The no-std build of the bitpacker behaves like the default one",
 "For every operation sequence, the bitpacker built with the no-std feature writes the same bytes, reads the same values and fails at the same operations as the default build.",
 ["programs","inputs"],"all operation sequences",
 "The same few unit tests are run for both builds, but their behaviours are never compared.",
 ["packages/vorbis_bitpack/src/lib.rs"],[("feature-dependent I/O traits and exp2","packages/vorbis_bitpack/src/lib.rs")],["bytes written, values read by both builds"])
p("C23","The command-line program is equivalent to the library",
 "For any input file and any combination of options, the command-line program writes to the named file or to standard output exactly the bytes that the library produces with the corresponding settings, and exits with status 0 exactly when the library succeeds and with status 1 and a message on standard error otherwise. Invalid options, option values and argument counts are rejected with status 1 and a message.",
 ["configurations","inputs"],"all option combinations and values, valid and invalid inputs",
 "The command-line program has no tests.",
 ["packages/optivorbis_cli/src/bin/optivorbis.rs"],[("argument parsing and settings mapping","packages/optivorbis_cli/src/bin/optivorbis.rs")],["exit status, output file, standard streams of the program"])
p("C24","The command-line program never reports success for an incomplete output",
 "If the output cannot be completely written (device full, file size limit, closed or broken pipe, at any point including the very last bytes), or the input cannot be opened or read, the program exits with a nonzero status and an error message. It exits with status 0 only if the output file holds the complete result.",
 ["fault_sequences","inputs"],"write limits at every size class up to the complete output, for file and standard output sinks",
 "The command-line program has no tests.",
 ["packages/optivorbis_cli/src/bin/optivorbis.rs"],[("output buffering","packages/optivorbis_cli/src/bin/optivorbis.rs")],["exit status and output file"])
p("C25","WebAssembly bindings are equivalent to the library",
 "Remuxing through the WebAssembly bindings, in a WebAssembly engine too, gives the same bytes or error as the library with the settings those bindings select.",
 ["inputs"],"all inputs",
 "The bindings have no tests.",
 [O+"wasm_bindings.rs"],[("binding functions",O+"wasm_bindings.rs")],["JavaScript-visible result"])
p("C26","The result does not depend on how the library is built",
 "For every input and settings, builds with debug assertions and overflow checks, builds without optional features, and 32-bit builds (such as the one for WebAssembly) give the same output bytes or the same error as the default release build, apart from the values of random serials. The only exceptions: builds with debug assertions may also reject input with irregularities that other builds tolerate, builds without the source-date-epoch feature ignore SOURCE_DATE_EPOCH, and 32-bit builds may report values that are too big for the platform.",
 ["inputs","configurations"],"all inputs and settings, valid or not",
 "The tests run a single build (debug assertions on, default features, 64 bits), and only on nine files.",
 [R+"mod.rs",O+"vorbis/optimizer/setup_header_parse.rs",O+"vorbis/optimizer/comment_header_parse.rs"],[("release-only tolerance",O+"vorbis/optimizer/setup_header_parse.rs"),("optional feature",R+"mod.rs")],["remux result of each build"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
