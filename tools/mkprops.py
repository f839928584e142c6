#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text stays reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Encode then decode reproduces the target exactly",
 "For every dictionary, every target, every way of splitting the target into encode calls, and every combination of format options (interleaved, checksum, target matching), encoding succeeds and decoding the resulting delta with the same dictionary succeeds and yields exactly the target bytes. This holds for empty and tiny inputs, inputs shorter than, equal to and just over the internal matching granularity, repetitive data, data with many near-identical or hash-colliding regions, overlapping self-references, and sizes around every integer-encoding boundary. A dictionary or chunk too large for the format's 31-bit addresses is refused, never encoded wrongly.",
 ["inputs","configurations"],"all dictionaries x targets x target chunkings x option combinations",
 "Unit tests round-trip a handful of fixed dictionaries and targets; a match extended one byte too far, or an address off by one at a block, table or varint boundary, needs an input shape they do not contain.",
 ["src/vcdiffengine.cc","src/blockhash.cc","src/rolling_hash.h","src/vcencoder.cc","src/encodetable.cc","src/vcdecoder.cc"],
 [("match search and bidirectional extension","src/blockhash.cc FindBestMatch"),("encode loop","src/vcdiffengine.cc EncodeInternal"),("window writer","src/encodetable.cc Output"),("window decoder","src/vcdecoder.cc DecodeBody")],
 observe=["VCDiffStreamingEncoder::EncodeChunk output","VCDiffStreamingDecoder output"])

p("C02","Well-formed deltas decode to exactly what RFC 3284 prescribes",
 "For every well-formed delta - any opcode, explicit or implicit size, addressing mode, source segment from the dictionary or from earlier target, copies that overlap themselves or straddle source and target, any number of windows, any valid custom code table and cache sizes, and the documented interleaved and checksum extensions - the decoder reports success and produces exactly the bytes that the format definition prescribes. The result does not depend on whether the delta was produced by this encoder.",
 ["inputs"],"all well-formed delta files and dictionaries",
 "The tests decode a few hand-written deltas; the bundled encoder never emits most opcodes, modes, segments or tables, so round-trip tests cannot reach them.",
 ["src/vcdecoder.cc","src/decodetable.cc","src/addrcache.cc","src/codetable.cc","src/headerparser.cc"],
 [("instruction decode","src/decodetable.cc GetNextInstruction"),("COPY semantics","src/vcdecoder.cc DecodeCopy"),("address modes","src/addrcache.cc DecodeAddress"),("custom code table","src/vcdecoder.cc ReadCustomCodeTable")],
 observe=["VCDiffStreamingDecoder / VCDiffDecoder verdict and output"])

p("C03","Malformed deltas are never accepted as a successful decode",
 "If a byte sequence is not a well-formed delta for the given dictionary - wrong magic or version, truncation at any byte, inconsistent section or window lengths, instructions, data or addresses missing or left over, instructions that overrun or underrun the declared window, addresses outside the data available so far, source segments outside the dictionary or decoded target, contradictory or unsupported flags, oversized integers, or an invalid custom code table - then decoding it never completes successfully. Either a decode call or the final completion call reports failure.",
 ["inputs"],"all byte sequences that are not well-formed deltas, for every dictionary and delivery",
 "Tests corrupt a few fixed deltas at single bytes and mostly assert only that nothing crashes; acceptance of a malformed file is a property of all inputs.",
 ["src/vcdecoder.cc","src/headerparser.cc","src/varint_bigendian.cc","src/addrcache.cc","src/codetable.cc"],
 [("header and section length validation","src/headerparser.cc"),("window completeness checks","src/vcdecoder.cc DecodeBody"),("address bounds","src/addrcache.cc IsDecodedAddressValid"),("completion check","src/vcdecoder.cc IsDecodingComplete"),("table validation","src/codetable.cc Validate")],
 observe=["DecodeChunk and FinishDecoding return values"])

p("C04","Decoding is independent of how the delta is split into chunks",
 "For every delta, valid or not, and every way of dividing its bytes into consecutive decode calls (including single bytes and empty chunks), the overall verdict is the same as when the whole delta is passed at once, and when decoding succeeds the concatenated output is identical. When it fails, whatever output was delivered is a prefix of the bytes the intact instructions describe.",
 ["inputs","histories"],"all deltas x all partitions of their bytes into chunks",
 "Tests use the whole file and one-byte chunks of a few deltas; resume logic bugs need a cut at one specific byte of one specific instruction form.",
 ["src/vcdecoder.cc","src/decodetable.h","src/headerparser.h"],
 [("unparsed byte carry-over","src/vcdecoder.cc DecodeChunk"),("interleaved resume","src/vcdecoder.cc DecodeWindow/UpdateInterleavedSectionPointers"),("instruction rewind","src/decodetable.h UnGetInstruction")],
 observe=["DecodeChunk/FinishDecoding verdict and output"])

p("C05","No delta can crash, corrupt, hang or abort the decoding process",
 "Whatever bytes are supplied as a delta, with whatever dictionary, limits and chunking, decoding terminates with a verdict without reading or writing outside the caller's buffers and its own memory, without undefined behaviour, unbounded recursion or unbounded looping, and without terminating the host process. It never retains or dereferences the caller's chunk buffer after a decode call returns, and never modifies the caller's dictionary or chunk.",
 ["inputs"],"all byte sequences, dictionaries, limits and chunkings",
 "Tests run uninstrumented on a few hundred inputs; out-of-bounds reads, overflow and recursion are input-specific and usually silent.",
 ["src/vcdecoder.cc","src/headerparser.cc","src/varint_bigendian.cc","src/addrcache.cc","src/addrcache.h","src/decodetable.cc"],
 [("bounds checks before every copy","src/vcdecoder.cc DecodeBody/DecodeAdd/DecodeCopy"),("overflow-safe integer parsing","src/varint_bigendian.cc Parse"),("segment checks","src/headerparser.cc ParseSourceSegmentLengthAndPosition")],
 observe=["sanitizer-instrumented execution, process status, wall clock"])

p("C06","Decoder resource limits are enforced exactly",
 "With any maximum window size and maximum total target size configured, a delta is rejected if and only if it is malformed or some window exceeds the window limit or the running total exceeds the file limit; output never exceeds the total limit, and memory is not allocated on the strength of a rejected size. With references to earlier target data disallowed, any delta using them is rejected, every other delta decodes as usual, and memory held does not grow with the amount of target already delivered.",
 ["inputs","configurations"],"all limits (including 0, boundary and very large values) x all window-size sequences x chunkings",
 "Tests check the limit and limit-minus-one for one or two window layouts; off-by-one, accumulation and overflow errors need particular sums of several windows.",
 ["src/vcdecoder.cc","src/google/vcdecoder.h","src/headerparser.cc"],
 [("limit check before allocation","src/vcdecoder.cc TargetWindowWouldExceedSizeLimits"),("running total","src/vcdecoder.cc AddToTotalTargetWindowSize"),("flush when target references are disallowed","src/vcdecoder.cc FlushDecodedTarget")],
 observe=["verdict, output size, heap high-water mark"])

p("C07","A checksummed window is accepted only if its checksum matches",
 "When a window carries a checksum, decoding succeeds only if the Adler-32 of that window's decoded bytes (started from zero, as this extension defines it) equals the stored value, for every window length and content including the largest 32-bit checksum values, so a wrong dictionary or corrupted payload that changes the target is reported unless Adler-32 itself collides. The encoder stores the correct checksum in every window it emits with checksums enabled, and never in one without.",
 ["inputs","configurations"],"all window contents and lengths, all single corruptions of delta or dictionary, every checksum value",
 "Tests check one or two fixed checksums; modular-reduction boundaries of the checksum and values above 2^31 are not sampled, nor is every corruption.",
 ["src/checksum.h","src/zlib/adler32.c","src/vcdecoder.cc","src/vcencoder.cc","src/encodetable.cc","src/headerparser.cc"],
 [("checksum comparison","src/vcdecoder.cc DecodeBody"),("checksum computation","src/zlib/adler32.c"),("checksum emission","src/vcencoder.cc EncodeChunk, src/encodetable.cc Output")],
 observe=["decoder verdict; checksum field of encoded windows"])

p("C08","Encoder output is a strictly valid delta of the requested dialect",
 "For every input and option combination the encoder's output strictly conforms to the format: standard version unless extensions were requested, lengths that add up exactly, no compression or reserved indicator bits, in-bounds addresses, instruction sizes summing to the window length, copies that never straddle source and target, and no copy from target data unless target matching was enabled. Output is append-only and deterministic, and after every encode call everything emitted so far is a complete delta for exactly the target supplied so far.",
 ["inputs","configurations","histories"],"all dictionaries, targets, chunkings and options",
 "Tests compare against their own decoder, which would tolerate or share encoder mistakes, on a few inputs; an independent strict parse over a whole input family is not attempted.",
 ["src/encodetable.cc","src/vcencoder.cc","src/vcdiffengine.cc","src/instruction_map.cc"],
 [("header and window emission","src/encodetable.cc WriteHeader/Output"),("opcode selection","src/encodetable.cc EncodeInstruction"),("one window per chunk","src/vcencoder.cc EncodeChunk")],
 observe=["encoder output bytes"])

p("C09","Encoder, decoder and writer objects are reusable without memory of the past",
 "After any history of earlier sessions on the same object - successful, failed at any point, or abandoned via the completion call - the next session of a decoder, encoder or instruction writer behaves exactly as on a freshly constructed object with the same settings: same verdicts, same bytes. Neither the caller's dictionary buffer, once handed to the encoder side, nor other encoders sharing the same hashed dictionary influence the result.",
 ["histories"],"all sequences of sessions (kinds of delta, chunking, failure point) on one object",
 "Tests reuse an object once, after success; leftovers from failures, custom code tables, partial windows or checksums need a specific earlier session.",
 ["src/vcdecoder.cc","src/decodetable.cc","src/encodetable.cc","src/jsonwriter.cc","src/vcencoder.cc"],
 [("reset between sessions","src/vcdecoder.cc Reset/StartDecoding"),("writer re-initialisation","src/encodetable.cc Init"),("dictionary copy","src/vcdiffengine.cc constructor")],
 observe=["verdicts and output of the last session versus a fresh object"])

p("C10","Out-of-order API calls are rejected and never corrupt a session",
 "In a release build (a debug build may report misuse by terminating), for every sequence of calls on a streaming decoder or encoder, calls outside the documented order (decoding before start, after a failure or after completion, encoding before a successful start or after completion, completion without start, starting a decoder twice, starting an encoder whose dictionary was never initialised, changing target-reference permission mid-session) are reported as failure or ignored, produce no output, and leave later properly ordered sessions unaffected. A decode call that fails ends the session: nothing further succeeds until a new start, and completion then reports failure.",
 ["histories"],"all call sequences up to a bounded length over the public streaming API",
 "Tests cover one or two misuse pairs; protocol bugs appear only after particular three-or-more call histories.",
 ["src/vcdecoder.cc","src/vcencoder.cc","src/google/vcdecoder.h","src/google/vcencoder.h"],
 [("session flag","src/vcdecoder.cc start_decoding_was_called_"),("session flag","src/vcencoder.cc encode_chunk_allowed_")],
 observe=["return values and output after each call"])

p("C11","Any instruction sequence given to the delta writer decodes as written",
 "For every sequence of add, copy and run instructions of any nonzero sizes (below 2^31) and legal addresses, in any number of windows, with the default or any valid custom code table and cache sizes, interleaved or not, the window the instruction writer emits is well-formed and executes exactly those instructions' effect. This holds however instructions are merged into compound opcodes and whichever addressing modes are chosen, and the emitted instruction stream is never longer than one opcode plus one explicit size per instruction.",
 ["inputs","configurations","histories"],"all instruction sequences up to a bounded length x code tables x cache sizes x formats",
 "The encoder itself never emits runs or small copies, and tests drive a few sequences; compound-opcode merging and cache history interact across several instructions.",
 ["src/encodetable.cc","src/instruction_map.cc","src/addrcache.cc","src/google/encodetable.h"],
 [("opcode merging","src/encodetable.cc EncodeInstruction"),("opcode lookup","src/instruction_map.cc"),("address encoding","src/addrcache.cc EncodeAddress")],
 observe=["writer output executed by decoder"])

p("C12","Variable-length integers round-trip, stay in range and in bounds",
 "Every non-negative 32-bit value, and every 64-bit value, encodes to its minimal base-128 big-endian form, the predicted length matches, and parsing returns the value and advances exactly past it. Parsing any byte sequence either yields the exact value denoted, reports that more data is needed, or reports overflow when the value does not fit, never reads at or beyond the given limit, and leaves the position unchanged unless a value is returned.",
 ["inputs"],"all 2^31 32-bit values, 64-bit values around every power of two, all short byte strings and limits",
 "Tests use about a dozen values; an overflow or boundary error can affect a single value out of 2^31.",
 ["src/varint_bigendian.cc","src/varint_bigendian.h"],
 [("parse with overflow guard","src/varint_bigendian.cc Parse"),("encode","src/varint_bigendian.cc EncodeInternal"),("length","src/varint_bigendian.cc Length")],
 observe=["integer codec results"])

p("C13","JSON deltas are valid JSON and rebuild the target; non-ASCII is refused",
 "For every 7-bit dictionary and target, every chunking and option combination, JSON encoding yields one syntactically valid JSON array (or nothing for an empty target) whose strings and offset/length pairs, applied in order to the dictionary followed by the text built so far, rebuild exactly the target. Any dictionary or target chunk containing a byte outside 7-bit ASCII is refused.",
 ["inputs","configurations","histories"],"all ASCII dictionaries/targets/chunkings, and all placements of a non-ASCII byte",
 "Tests compare three literal outputs; escaping of each control character, chunk boundaries and reuse are not covered.",
 ["src/jsonwriter.cc","src/google/jsonwriter.h","src/vcencoder.cc"],
 [("escaping","src/jsonwriter.cc JSONEscape"),("array framing","src/jsonwriter.cc Init/Output/FinishEncoding"),("ASCII check","src/jsonwriter.cc IsAscii")],
 observe=["encoder output text and return values"])

p("C14","Concurrent encoders sharing one dictionary do not interfere",
 "When several threads each use their own encoder on one shared, initialised hashed dictionary, or each build and use their own dictionary, or each decode with their own decoder, every interleaving yields the same output each thread would produce alone. No data race, deadlock or crash occurs in any schedule, including the first use of any lazily created shared table.",
 ["schedules"],"all interleavings (to a preemption bound) of two or three threads encoding and decoding",
 "The test suite is single-threaded.",
 ["src/vcencoder.cc","src/vcdiffengine.cc","src/blockhash.cc","src/rolling_hash.h","src/instruction_map.cc","src/google/vcencoder.h"],
 [("const shared dictionary","src/google/vcencoder.h HashedDictionary"),("lazily built default instruction map","src/instruction_map.cc GetDefaultInstructionMap"),("lazily built hash removal table","src/rolling_hash.h Init")],
 observe=["per-thread outputs; happens-before races on instrumented memory accesses"])

p("C15","The command-line tool round-trips files under every option combination",
 "For every dictionary and target file (empty ones included), every buffer size, format option, and choice between named files and standard streams, the tool terminates, encoding and then decoding exits with status zero and restores the target byte for byte, and the self-test command agrees. Invalid deltas, a wrong dictionary under checksumming, exceeded size limits, disallowed target references, missing files and bad usage always yield a nonzero status, and the self-test fails whenever the stored target differs.",
 ["inputs","configurations"],"all option combinations x buffer sizes x input shapes",
 "The shell test runs a few large files with default-like options; tiny, empty, buffer-aligned inputs and combinations are not run.",
 ["src/vcdiff_main.cc"],
 [("streaming file loops","src/vcdiff_main.cc Encode/Decode/DecodeAndCompare"),("buffer sizing","src/vcdiff_main.cc OpenFileForReading")],
 observe=["exit status and output files"])

p("C16","The command-line tool never reports success after an I/O failure",
 "If any read or write needed by an encode, decode or self-test run fails or is cut short at any point - including data still buffered when the tool finishes - the tool exits with a nonzero status within bounded time. Equivalently, exit status zero means the complete, correct output has been handed to the operating system.",
 ["fault_sequences"],"every single I/O failure point (each byte offset of output, each system call) of encode, decode and self-test runs",
 "No test injects an I/O fault.",
 ["src/vcdiff_main.cc"],
 [("error checks","src/vcdiff_main.cc WriteOutput/ReadInput"),("final flush/close","src/vcdiff_main.cc destructor")],
 observe=["exit status versus output file content under injected faults"])

p("C17","Long enough shared substrings are always found and copied",
 "If a target chunk contains a stretch of at least 32 bytes that occurs in the dictionary, and nothing else in the data resembles it or continues a neighbouring match into it, the encoder covers the whole stretch with copy instructions and spends literal bytes only on what surrounds it, at every alignment in dictionary and target and every length; with target matching enabled the same holds for stretches repeated from earlier in the same chunk (of at least 47 bytes). In particular a target equal to the dictionary, or any such substring of it, is encoded without literals.",
 ["inputs"],"all positions, alignments and lengths of the shared stretch within bounded dictionaries and targets",
 "Compression loss breaks no correctness test; the tests only check that a few outputs are small.",
 ["src/blockhash.cc","src/blockhash.h","src/rolling_hash.h","src/vcdiffengine.cc"],
 [("rolling hash","src/rolling_hash.h UpdateHash"),("block chains","src/blockhash.cc AddBlock/SkipNonMatchingBlocks"),("extension","src/blockhash.cc MatchingBytesToLeft/Right")],
 observe=["literal byte count and instructions in encoder output"])

p("C18","Streaming output is prompt, append-only and resized at most once per window",
 "After every successful decode call, the output contains every byte of every window fully received so far and, for interleaved windows, every instruction fully received so far; existing output content is preserved and only appended to, whatever output type is used. Over a whole decode the output container is made to grow at most once per window, irrespective of the number of calls.",
 ["inputs","histories"],"all deltas x all prefixes and chunkings",
 "Tests look at the final output and at one reserve count; lateness or extra resizing at a particular split is not observed.",
 ["src/vcdecoder.cc","src/google/output_string.h","src/google/vcdecoder.h"],
 [("incremental append","src/vcdecoder.cc AppendNewOutputText"),("single reservation","src/vcdecoder.cc AppendNewOutputText"),("flush per window","src/vcdecoder.cc FlushDecodedTarget")],
 observe=["output container after each decode call"])

p("C19","Address caches of encoder and decoder never diverge",
 "For every cache configuration and every sequence of copy addresses, the mode and value chosen by the encoding side decode to the original address on the decoding side, both caches evolve exactly as the format's near/same cache rules prescribe, and the value chosen is the cheapest available. Any mode and value that denotes an address outside the data available so far is rejected without changing the cache or the read position.",
 ["histories","configurations"],"all address sequences up to a bounded length x cache sizes x (mode, value) pairs",
 "Tests walk a few short sequences with the default sizes; slot rotation and same-cache indexing interact over longer histories and other sizes.",
 ["src/addrcache.cc","src/addrcache.h"],
 [("cache update","src/addrcache.cc UpdateCache"),("mode choice","src/addrcache.cc EncodeAddress"),("decode and validation","src/addrcache.cc DecodeAddress")],
 observe=["encoded mode/value, decoded address, cache contents"])

p("C20","Code tables: valid ones are usable, invalid ones rejected, opcodes faithful",
 "A code table is accepted if and only if every entry uses a known instruction, a legal mode and consistent no-op fields and every instruction/mode pair has a single-instruction opcode with explicit size. For every accepted table and every instruction (or pair of adjacent instructions), the opcode chosen denotes exactly that instruction type, size and mode, a compound opcode is used whenever the table has one that joins the opcode just chosen with the next instruction, and the default table equals the one the RFC defines.",
 ["inputs","configurations"],"every single-entry modification of valid tables x cache sizes; every instruction and instruction pair",
 "Tests corrupt a few entries and look up a few opcodes; there are hundreds of thousands of single-entry variants.",
 ["src/codetable.cc","src/instruction_map.cc","src/codetable.h","src/vcdecoder.cc"],
 [("validation","src/codetable.cc Validate/ValidateOpcode"),("opcode maps","src/instruction_map.cc"),("default table","src/codetable.cc kDefaultCodeTableData")],
 observe=["table acceptance; opcode lookups; decoder verdict on deltas carrying the table"])

p("C21","No dictionary or target can crash, corrupt, hang or abort the encoder",
 "For every dictionary, every target and chunking, every format option and both output formats, encoding finishes in bounded time and reports success or failure through its result. It never reads outside the buffers given, never writes to them, never accesses invalid memory, executes no undefined operation and never terminates the process, in debug and in release builds, even for sizes beyond the format's 31-bit range.",
 ["inputs","configurations"],"all bounded dictionaries x targets x chunkings x options, with buffers of exact size",
 "Tests run without sanitizers on a few texts; an access one byte past a buffer end shows only when a match, block or chunk ends exactly there.",
 ["src/blockhash.cc","src/blockhash.h","src/rolling_hash.h","src/vcdiffengine.cc","src/vcencoder.cc","src/encodetable.cc","src/jsonwriter.cc"],
 [("match extension to buffer ends","src/blockhash.cc MatchingBytesToLeft/Right"),("rolling hash at chunk end","src/vcdiffengine.cc EncodeInternal"),("block indexing of the last partial block","src/blockhash.cc AddAllBlocksThroughIndex")],
 observe=["sanitizer reports, process status, time, buffer contents"])

p("C22","A caller-supplied instruction writer is driven exactly as documented",
 "An encoder given its own instruction writer initialises it, lets it verify the dictionary and write the header, once each and in that order, at every start; for each chunk it first lets it verify the chunk, passes the checksum exactly when requested, then instructions that rebuild exactly that chunk - the same ones the built-in writer gets - and requests output once; completion is announced once, nothing is called outside a session, and the writer lives exactly as long as the encoder. When the writer refuses initialisation, dictionary or chunk, the call fails and the writer is not used further in that call.",
 ["inputs","histories"],"all bounded inputs and all call histories up to a depth, with writers that refuse at any point",
 "The tests plug in only the two built-in writers and never one that refuses.",
 ["src/vcencoder.cc","src/vcdiffengine.cc","src/google/codetablewriter_interface.h","src/google/vcencoder.h"],
 [("session start","src/vcencoder.cc StartEncoding"),("chunk","src/vcencoder.cc EncodeChunk"),("instruction emission","src/vcdiffengine.cc Encode")],
 observe=["sequence of calls made on the supplied writer; results and output"])

p("C23","Encoding and decoding effort grows at most linearly with the data",
 "However adversarial the dictionary, target or delta (repetitive, self-similar, hash-colliding, made of very many tiny instructions or windows), the work done to hash a dictionary, to encode a target, or to decode a delta, passed whole or in pieces, grows no faster than in proportion to the bytes read and produced.",
 ["inputs"],"adversarial input families x sizes x options x chunkings",
 "Tests make no performance assertions; quadratic behaviour needs particular contents.",
 ["src/blockhash.cc","src/blockhash.h","src/vcdiffengine.cc","src/vcdecoder.cc","src/encodetable.cc","src/jsonwriter.cc"],
 [("bounded number of matches and probes","src/blockhash.cc FindBestMatch/SkipNonMatchingBlocks"),("no re-parsing of decoded data","src/vcdecoder.cc"),("trimming of decoded target","src/vcdecoder.cc TrimDecodedTarget")],
 observe=["control-flow edges executed and bytes moved, compared at growing sizes"])

p("C24","No history of use leaks or accumulates memory",
 "Whatever was encoded or decoded - valid, corrupted, truncated, refused or abandoned at any point - destroying the objects returns all the memory they obtained. A decoder or encoder that is reused for session after session, or an encoding session that continues for any number of chunks, does not hold more and more memory.",
 ["inputs","histories"],"all edits and prefixes of a corpus, all pairs of sessions on one object, bounded encoder inputs and histories",
 "Tests do not account for memory; a leak on an error or restart path shows nothing.",
 ["src/vcdecoder.cc","src/vcencoder.cc","src/vcdiffengine.cc","src/encodetable.cc","src/jsonwriter.cc","src/blockhash.cc"],
 [("reset of decoder parts","src/vcdecoder.cc Reset"),("temporary target hash","src/vcdiffengine.cc EncodeInternal"),("writer buffers","src/encodetable.cc Output")],
 observe=["heap blocks and bytes before and after"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
