#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ENC, DEC, TAB, DYN = "hpack/src/encoder/mod.rs", "hpack/src/decoder/mod.rs", "hpack/src/table/mod.rs", "hpack/src/table/dynamic.rs"
EPR, DPR, STA = "hpack/src/encoder/primitives.rs", "hpack/src/decoder/primitives.rs", "hpack/src/table/static.rs"
HUE, HUD, HUR, HUF, HUP = "huffman/src/encoder/mod.rs", "huffman/src/decoder/mod.rs", "huffman/src/decoder/reader.rs", "huffman/src/flattener/mod.rs", "huffman/src/parser/mod.rs"
PE, PD, PEP, PDP, PDL, PEL = "protos/src/encoder/mod.rs", "protos/src/decoder/mod.rs", "protos/src/encoder/primitives.rs", "protos/src/decoder/primitives.rs", "protos/src/decoder/lit.rs", "protos/src/encoder/lit.rs"

prop("H01", "HPACK connections are lossless for every encode history",
 "Whatever sequence of header fields, representations, flags and dynamic table size updates (of at most 2^28+30, the largest a decoder reads) an encoder emits, a decoder that started with the same table capacity and receives those bytes returns exactly the same (name, value) pairs in the same order, block after block. This holds however the output is grouped into blocks and whatever other encoder/decoder pairs are used in between.",
 ["histories", "inputs"],
 "All histories of encode / size-update / block-boundary calls over one or several connections, arbitrary byte strings as names and values (integers within the decoder's documented 5-octet limit).",
 "The tests replay 12 requests from the RFC and fixture stories (of which only the first header of each block is compared); table divergence needs particular insert/evict/reference/resize histories.",
 [ENC, DEC, TAB, DYN, EPR, DPR],
 [("encoder and decoder apply the same insert/evict/resize steps", ENC + " encode_indexed_name, encode_literal, update_max_dynamic_size; " + DEC + " decode_literal, update_max_dynamic_size"), ("common table code", DYN + " insert, consolidate")],
 ["headers returned by Decoder::decode", "indexed look-ups through the decoder after the history"],
 [("dynamic table", "headers indexed so far on each side", DYN)])
prop("H02", "Encoder output is the exact RFC 7541 serialisation requested",
 "Each successful encode call appends exactly the RFC 7541 representation that was asked for (indexed; literal with indexing, without indexing or never indexed; name by index or as a literal; size update), with integers in their shortest form and each string Huffman-coded if and only if its flag (Encoder::HUFFMAN_NAME, HUFFMAN_VALUE) is set. Bytes already in the output buffer stay untouched, and the generic and the dedicated encoding methods produce identical bytes.",
 ["inputs", "histories"],
 "All names, values, indices, flags and sizes (full u32), after any table history.",
 "Tests check about 20 literal byte strings; integer continuation boundaries, long strings and large indices are never sampled.",
 [ENC, EPR, HUE],
 [("integer representation", EPR + " encode_integer"), ("string representation", EPR + " encode_string"), ("pattern selection", ENC + " encode_indexed, encode_indexed_name, encode_literal, update_max_dynamic_size")],
 ["bytes appended to dst"])
prop("H03", "BEST_FORMAT uses the indexing table whenever it can",
 "A literal encoded with BEST_FORMAT is emitted as one indexed field exactly when the header (name and value) is currently in the static or dynamic table (never-indexed headers excepted), as a literal with an indexed name when only its name is there, and as a full literal otherwise. Any index emitted refers to a live entry with that name (and value).",
 ["histories", "inputs"],
 "All histories that grow, evict, resize and query the table; all names and values including duplicates, prefixes and empty strings.",
 "Three cases are tested, none after an eviction, a resize or with duplicate names.",
 [ENC, TAB, STA],
 [("table search", TAB + " find"), ("representation choice", ENC + " encode")],
 ["representation parsed from the emitted bytes, resolved in a model table"])
prop("H04", "Never-indexed headers stay marked and out of every table",
 "A header encoded as never indexed is always emitted as a never-indexed literal and always delivered by the decoder with the never-indexed flag, and neither it nor a header sent without indexing ever changes the table of either side. Only headers sent with incremental indexing enter the tables, and exactly those are delivered with the indexing flag.",
 ["histories", "inputs"],
 "All histories mixing sensitive, plain and indexed headers with every combination of name/value Huffman and BEST_FORMAT flags, including sensitive headers equal to table entries.",
 "Tests encode one sensitive header into an empty table and look at the first byte.",
 [ENC, DEC, TAB],
 [("flag precedence", ENC + " encode, encode_indexed_name, encode_literal"), ("flag reporting", DEC + " decode_literal, decode_indexed")],
 ["emitted pattern bits", "flags returned by Decoder::decode", "metamorphic: dropping the non-indexed fields from a history leaves the bytes of the others unchanged"])
prop("H05", "Decoder gives every valid block its RFC 7541 meaning",
 "For every RFC 7541-valid sequence of header blocks, whoever encoded it (any legal choice of representation, index, Huffman or plain string, non-shortest integer within 5 octets, size update), the decoder appends exactly the headers and flags the RFC prescribes, keeps what the output vector already held, and consumes the whole buffer.",
 ["inputs", "histories"],
 "All valid block sequences over one connection, for any table capacity.",
 "The fixture test compares only the first header of each block, and the unit tests decode a dozen hand-written fields.",
 [DEC, DPR, TAB, DYN, STA, HUR],
 [("field dispatch", DEC + " decode_exact"), ("integer and string representation", DPR), ("table updates", DYN)],
 ["headers and flags from Decoder::decode"])
prop("H06", "Malformed header blocks are refused, never misread",
 "A field with an index that is 0 or beyond the live table, an integer longer than 5 octets, an invalid Huffman string (EOS, wrong or too long padding), a missing octet, or a size update above the limit makes decoding fail with the documented error for that fault, and no header is delivered for it. For arbitrary bytes the decoder accepts exactly what an RFC 7541 decoder with these limits accepts, with the same headers.",
 ["inputs", "histories"],
 "All byte strings and all decoder states reachable by earlier blocks.",
 "One incomplete block is tested; no malformed index, integer, padding or size update reaches the HPACK decoder in the tests.",
 [DEC, DPR, HUR],
 [("bounds and limit checks", DPR + " decode_integer, decode_string"), ("index check", DEC + " decode_indexed, decode_literal"), ("limit check", DEC + " update_max_dynamic_size"), ("padding check", HUR + " finalize")],
 ["Result of Decoder::decode", "headers delivered before the fault"])
prop("H07", "HPACK decoding is total and memory-bounded on hostile input",
 "Decoding any byte string, in any order of decode, decode_exact and limit-change calls and also after earlier errors, always returns (no panic, no endless loop) and leaves the decoder usable. Memory used is bounded by the bytes supplied, the headers delivered and the table capacity, and what a decoder keeps between calls by its table capacity, however many blocks it accepted or refused (nothing once it is dropped); a declared length alone never causes a large allocation.",
 ["inputs", "histories"],
 "All byte strings (random, mutated valid blocks, truncated at every octet) and call histories.",
 "No test feeds garbage or truncates inside an integer; the space of inputs is unbounded.",
 [DEC, DPR, HUR, DYN],
 [("length checks before slicing", DPR), ("eviction loop terminates", DYN + " consolidate")],
 ["panic / termination / allocation meter around each call"])
prop("H08", "A failed decode consumes only whole fields and can be resumed",
 "When decoding fails, the input buffer keeps exactly the bytes from the failing field on, the fields before it have been delivered once, and the failing field has had no effect on the table. Appending the missing bytes and decoding again gives the same headers as decoding everything at once, wherever the stream was cut.",
 ["inputs", "histories", "crash_points"],
 "All valid streams and all cut points (single and multiple), and all malformed fields at all positions followed by further valid blocks.",
 "One cut position of one stream is tested.",
 [DEC, DPR],
 [("buffer drained only after a field succeeded", DEC + " decode_indexed, decode_literal, update_max_dynamic_size"), ("insertion after the whole field was parsed", DEC + " decode_literal")],
 ["buf and dst after each call", "table probed through indexed fields afterwards"])
prop("H09", "The dynamic table keeps its size bound with oldest-first eviction",
 "After every operation the size of the dynamic table is the sum of name length + value length + 32 over its entries and does not exceed the current maximum. Entries leave only when needed for that bound, oldest first; an entry larger than the maximum empties the table and is not stored. The memory of entries that left is given back: it does not grow with the number of insertions, or of tables that are gone.",
 ["histories"],
 "All histories of insertions and maximum-size changes, through the table API and through encoder and decoder.",
 "Three short insertion/resize scenarios with 36-octet entries are tested.",
 [DYN, TAB],
 [("size accounting and eviction", DYN + " insert, consolidate, update_max_size")],
 ["Table::dynamic_size, dynamic_len, len, get, iter", "indexed fields through Decoder, Encoder::encode_indexed"],
 [("size", "accounted octets", DYN), ("inner", "entries, newest first", DYN)])
prop("H10", "Index space and header search are coherent",
 "Index 0 is never valid, 1 to 61 are the RFC 7541 static headers, 62 on are the dynamic entries newest first, and nothing exists beyond; iteration, however it is advanced, yields exactly these entries in index order. A search returns an index holding that exact header if one exists, otherwise one holding that name, otherwise nothing.",
 ["histories", "inputs"],
 "All table contents reachable by insertions, duplicates, evictions and resizes; all indices (full u32) and all searched headers.",
 "Tests look at four static indices and one or two dynamic entries.",
 [TAB, "hpack/src/table/iter.rs", STA, DYN],
 [("address arithmetic", TAB + " get"), ("search", TAB + " find"), ("iteration", "hpack/src/table/iter.rs next")],
 ["Table::get, find, iter, len"])
prop("H11", "Table size limits are enforced, signalled and reported",
 "A decoder accepts a size update exactly when it does not exceed the limit last set by the application (initially its constructor's capacity), then evicts at once; changing the limit alone leaves the table as it is. An encoder resize evicts from its own table and emits the matching size update, and both sides report the limit in force through their getters.",
 ["histories", "inputs"],
 "All histories of limit changes, size updates and header blocks; all sizes in the supported range.",
 "One size update to 50 octets is tested on each side; the limit check and limit changes are not tested.",
 [ENC, DEC, DYN],
 [("limit check", DEC + " update_max_dynamic_size, set_max_dynamic_size, max_dynamic_size"), ("size signal", ENC + " update_max_dynamic_size")],
 ["Result of decode", "table probed through indexed fields", "max_dynamic_size on both sides"],
 [("max_dynamic_size", "hard limit set by the application", DEC)])
prop("H12", "decode_exact and byte counts match what was really decoded",
 "decode_exact delivers as many headers as the output vector has free capacity for, or all remaining ones if fewer, and leaves the rest of the input for later calls; repeating it yields the same headers as one decode call. Every successful decode or decode_exact call returns exactly the number of bytes it removed from the buffer.",
 ["inputs", "histories"],
 "All valid streams including size updates at any place, all sequences of capacities and pre-filled output vectors.",
 "One call with capacity 1 is tested, the returned count never.",
 [DEC],
 [("capacity limit and byte accounting", DEC + " decode, decode_exact")],
 ["return value, buf length and dst after each call"])
prop("H13", "Invalid encoder references are refused without side effects",
 "Encoding an index, or a name by index, succeeds if and only if that index is live in the encoder's table at that moment; otherwise the call returns the invalid-index error, appends nothing and leaves the table unchanged. No encode call panics, whatever the bytes, index, flags or size.",
 ["histories", "inputs"],
 "All table states and all u32 indices, flags bytes and byte strings.",
 "Only valid indices are encoded in the tests.",
 [ENC, TAB],
 [("look-up before any write", ENC + " encode_indexed, encode_indexed_name")],
 ["Result and dst of encode", "later output compared with a history without the failed call"])
prop("F01", "Huffman encoding is the RFC 7541 code and is lossless",
 "Encoding any byte string appends exactly the RFC 7541 Appendix B codes of its bytes, most significant bit first, padded with 1-bits to the next octet (nothing for the empty string), without touching earlier output. Decoding that at any of the five speeds restores the original bytes.",
 ["inputs"],
 "All byte strings of any length, all five decoder speeds, any prior content of the output vectors.",
 "Tests encode single characters and a few phrases; they never join arbitrary symbols across octet boundaries for all bit phases.",
 [HUE, "huffman/src/encoder/table.rs", HUR],
 [("bit accumulator", HUE + " encode"), ("code table", "huffman/src/encoder/table.rs ENCODE_TABLE")],
 ["bytes appended by encode", "bytes restored by decode"])
prop("F02", "Huffman decoding accepts exactly the valid sequences at every speed",
 "For any bytes and any of the five speeds (DecoderSpeed::known lists exactly these), decoding succeeds exactly when they are a sequence of RFC 7541 codes other than EOS followed by at most 7 padding bits that are all 1, and then appends exactly the coded bytes; otherwise it returns the invalid-input error. It never panics, and all speeds agree.",
 ["inputs"],
 "All byte strings, all five speeds.",
 "Eight invalid sequences are tested; padding with zero bits, EOS at each bit phase and the multi-bit table variants reached only by particular symbol pairs are not.",
 [HUR, HUD] + ["huffman/src/decoder/table%d.rs" % i for i in range(1, 6)],
 [("translation matrices", "huffman/src/decoder/table1.rs .. table5.rs"), ("padding validation", HUR + " finalize"), ("EOS rejection", HUR + " decode_next")],
 ["Result and dst of huffman decode per speed"])
prop("F03", "Translation matrices are faithful to the code table they come from",
 "For every complete prefix code whose matrix has at most 256 rows (rows are numbered by an octet; up to 257 symbols of 1 to 30 bits), walking the matrix generated for any speed over the concatenated codes of any symbol string yields that string, and the shipped matrices do so for the HPACK code. Parsing a code table written in the RFC layout (symbols 0, 1, 2 ... in order) returns exactly the lengths and codes it lists.",
 ["inputs", "programs"],
 "All complete prefix codes (random trees, skewed, balanced), all five speeds, all symbol strings; all code tables rendered in the RFC layout.",
 "The tests compare a few rows for the one HPACK code table.",
 [HUF, HUP, "huffman/src/encoder/table.rs"] + ["huffman/src/decoder/table%d.rs" % i for i in range(1, 6)],
 [("matrix generation", HUF + " flatten, generate_coding_paths"), ("RFC table parser", HUP + " parse_line")],
 ["matrix returned by flatten, walked by an independent interpreter", "result of parse"])
prop("P01", "Protocol Buffers fields round-trip for every type and value",
 "Any sequence of fields of any supported scalar, packed or bytes type, with any valid tag, any value and any nesting of messages as bytes, decodes to the same sequence of tags and wire types, and converting each to the type it was encoded as returns the identical value (floats bit for bit).",
 ["inputs", "histories"],
 "All field sequences over the 27 formats, all tags 1..2^29-1, all values, packed lists of any length including empty, nested messages.",
 "One message with small constants is encoded in one test and decoded in another; empty values, long lists, extreme values and their combinations are not.",
 [PE, PD, PEP, PDP, PDL, PEL],
 [("per-type encoders", PE), ("per-type decoders", PDP), ("field framing", PD + " decode")],
 ["tuples from Decoder::decode", "values from DecoderLit conversions"])
prop("P02", "Protocol Buffers encoder output is the exact proto3 wire format",
 "Each successful encode appends exactly the proto3 encoding of that field (shortest varint key and values, sign-extended int32/int64, zigzag sint, little-endian fixed, length-prefixed bytes and packed lists) and returns the number of bytes written. Plain references and explicit literals of the same format, and the per-type methods, produce the same bytes.",
 ["inputs"],
 "All tags, types and values.",
 "One message with small constants and minimum/maximum primitives are tested.",
 [PE, PEP, PEL],
 [("varint and key", PEP + " encode_varint, encode_key"), ("per-type encoders", PE + ", " + PEP)],
 ["bytes appended and the returned size"])
prop("P03", "Protocol Buffers decoder frames every valid message exactly",
 "For every valid proto3 message, whoever wrote it (unknown tags, repeated and out-of-order fields, empty length-delimited fields, non-shortest varints up to 10 bytes), one decode call delivers every field once, in order, with its tag, wire type and exact value bytes, consumes the whole buffer and returns its length.",
 ["inputs"],
 "All valid field sequences and their encodings.",
 "One message without empty or unusual fields is tested.",
 [PD, PDP],
 [("decode loop", PD + " decode, extract_ld, decode_ld_len, extract_ld_bytes"), ("extraction", PDP + " extract_varint, extract_bit32, extract_bit64, extract_ld, decode_key")],
 ["tuples, buf and return value of Decoder::decode"])
prop("P04", "Protocol Buffers decoding does not depend on how input is chunked",
 "Feeding a message in any number of pieces, cut anywhere, delivers the same fields as feeding it whole: each call delivers every field that has become complete, never a partial one, and never fails merely because bytes are missing. Each call returns exactly the number of bytes it removed from the buffer.",
 ["inputs", "histories", "crash_points"],
 "All valid messages and all partitions into chunks (including one byte at a time and empty chunks).",
 "No test splits a message.",
 [PD, PDP],
 [("key and length kept between calls", PD + " Decoder.key, Decoder.ld_len"), ("underflow reported as zero progress", PD)],
 ["tuples, buf and return value after each call"],
 [("key", "tag and wire type of the field in progress", PD), ("ld_len", "announced length of the field in progress", PD)])
prop("P05", "Malformed Protocol Buffers input is refused and decoding is total",
 "A key with tag 0, an unsupported wire type (3, 4, 6, 7; Typ::try_from gives Unknown for every number but 0, 1, 2 and 5) or more than 32 bits, and a varint longer than 10 bytes anywhere are refused with an error, after every earlier field was delivered and with the offending bytes left in the buffer. Any bytes in any chunking are handled without panic, endless loop, or memory beyond what was supplied (nothing of delivered or refused fields or of dropped decoders is kept), and whatever is accepted is what the format prescribes.",
 ["inputs", "histories"],
 "All byte strings, all chunkings, calls after errors.",
 "One zero byte is tested as malformed input.",
 [PD, PDP, "protos/src/typ.rs"],
 [("key validation", PDP + " decode_key"), ("varint length limit", PDP + " decode_varint, extract_varint"), ("length check", PDP + " extract_ld")],
 ["Result, buf and dst of Decoder::decode", "allocation meter"])
prop("P06", "Field values convert as proto3 prescribes and conversion is total",
 "Converting the bytes of a field to a type of its wire format returns the proto3 value: varints wider than the target are truncated as by a cast (then zigzag-decoded for sint), non-zero is true, fixed types are little-endian, packed lists yield every element in order, valid UTF-8 becomes the same string. No conversion panics for any bytes; malformed contents and mismatched types give the type's default.",
 ["inputs"],
 "All 27 literal formats, all target types, all byte strings.",
 "One or two values per type are converted in the tests; none is wider than its type, empty or malformed.",
 [PDL, PDP],
 [("conversions", PDL), ("primitive decoders", PDP)],
 ["value returned by From<DecoderLit>"])
prop("P07", "Only tags 1 to 2^29-1 can be written",
 "For every type, encoding with a tag in 1..=2^29-1 (Encoder::TAG_MIN to TAG_MAX) succeeds and the tag read back is the same; any other tag gives the invalid-tag error with nothing written.",
 ["inputs"],
 "All u32 tags (boundaries and random), all types and entry points.",
 "Only small valid tags are tested.",
 [PE, PEP],
 [("tag range check before writing", PEP + " encode_key")],
 ["Result and written bytes"])
prop("P08", "A failing writer is always reported and never corrupts the prefix",
 "When the destination writer fails or stops accepting bytes at any point, the encoder returns the interrupted error and what the writer received is a prefix of the correct encoding. When the writer only accepts short writes or asks to retry, the encoding is complete and the returned size exact.",
 ["fault_sequences", "inputs"],
 "All fields and all points of failure, short-write patterns and retry requests.",
 "All tests write into a Vec, which never fails.",
 [PE, PEP, "protos/src/encoder/error.rs"],
 [("write_all with error propagation", PEP)],
 ["Result of encode and bytes received by a fault-injecting writer"])
prop("C01", "Codecs are deterministic and independent of one another",
 "What an HPACK encoder or decoder, a Huffman encode or decode call, or a Protocol Buffers encoder or decoder returns and writes depends only on its own constructor arguments and its own earlier calls. Interleaving the calls of several codecs in any order in one thread, running the same history again later, or running them at the same time on different threads gives every one of them exactly the results, outputs and remaining buffers it has when used alone.",
 ["schedules", "histories", "inputs"],
 "All interleavings of the call histories of several codecs of the same and of different kinds, with equal, similar or unrelated data, in one thread and across threads; call granularity (each codec is used by one thread at a time).",
 "Every test uses one codec at a time, once, with data unlike that of any other; shared state (caches, scratch buffers, statics) shows only with a second codec and particular data.",
 [ENC, DEC, TAB, DYN, HUE, HUD, PE, PD],
 [("all state is owned by the codec", ENC + " Encoder; " + DEC + " Decoder; " + PD + " Decoder"), ("shared constants are never written", STA + "; huffman/src/encoder/table.rs; huffman/src/decoder/table")],
 ["results, output vectors and input buffers of every call"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
