import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Forwarded elements stay byte-identical through any hops, copies and crashes",
"An element that is read from a byte stream, kept (borrowed, owned, cloned, split into its members, wrapped as typed or untyped CBOR data or as a standard tagged type), stored, and written out again comes out with exactly the bytes it arrived with, including non-minimal integer and length widths, indefinite lengths and chunk boundaries. This holds after any number of hops between processes, for any fragmentation, reset, retransmission or crash-and-recover in between. When the owner rebuilds a sequence with the array builder, every member keeps its exact bytes and only the outer length header is chosen by the builder.",
["histories","schedules","fault_sequences","crash_points","inputs"],
"all well-formed elements; all sequences of read/own/borrow/clone/rebuild/encode steps over any number of relays; all fragmentations, connection resets, retransmissions, torn or lost unsynced writes and restarts between two steps",
"The unit tests only decode; none re-encodes a decoded element, none goes through an owned form, and no history of more than one step is ever run.",
["src/reader.rs","src/writer.rs","src/types/structure.rs","src/types/streamable.rs","src/types/scalar.rs","src/types/mod.rs","src/prim.rs","src/tagged.rs","src/encode.rs","src/decode.rs","src/lowlevel/header.rs","src/lowlevel/lead.rs"],
[("lengths and integers keep the width they were read with (HeaderValue, StructureLength, TagValue)","src/lowlevel/header.rs, src/types/structure.rs"),("Writer emits the stored width and re-emits chunks one by one","src/writer.rs"),("nested members are kept as raw slices","src/reader.rs cbor_slice_neutral, src/prim.rs")],
observe=["Writer::finalize / encode_to_bytes output at the last hop against the bytes given to the first hop"])

p("C02","A torn element is never taken for a whole one, and the shortfall is honest",
"While only a proper prefix of a valid element (possibly none of it) has arrived, every way of reading that element fails, and fails by reporting missing data, never with a value and never with a malformedness error. The reported shortfall (expected minus available bytes) is at least 1 and never more than what is still missing from that element, so a receiver that waits for exactly that many bytes before retrying always finishes, however the sender's bytes are fragmented or delayed. Once the last byte has arrived the read succeeds with the same result for every fragmentation.",
["schedules","crash_points","fault_sequences","inputs"],
"all valid elements, all cut points inside them, all fragmentations and delivery schedules, connection loss and retransmission at any byte, and every read entry point (validator, generic, typed, whole-element, derived)",
"Three cut points of two tiny elements are tested on the validator only; nothing retries, and no test follows the shortfall to completion.",
["src/context.rs","src/reader.rs","src/validate.rs","src/decode.rs"],
[("CborDataReader::peek/consume compute expecting_bytes and got_bytes","src/context.rs"),("element walk with the nesting state until acceptable","src/reader.rs cbor_slice_neutral, src/validate.rs Validator::next")],
state=[("expecting_bytes/got_bytes","how much the reader wanted and had","src/context.rs CborDataMissing")],
observe=["ReaderError::DataMissing / ValidateError::DataMissing returned at every delivery event; completion of the exchange within a bounded number of events"])

p("C03","Element boundaries of a stream or log are recovered exactly, also after a crash",
"For any sequence of well-formed elements written back to back, stepping with the validator, with any mix of reader operations, or by feeding element headers to the structural state machine finds exactly the boundaries of the elements as written: slices, displacements, consumed and remaining counts all match, and finished is reported exactly at the end. After a crash that leaves an arbitrary prefix of the last appends, the scan returns every complete element unchanged and then reports missing data at the tear, so appending can resume there. Decoding a single value from a buffer refuses any trailing bytes and leaves no element partly consumed after a successful read.",
["crash_points","histories","schedules","inputs"],
"all sequences of elements, all orders of reader operations over them, all crash points and torn-tail lengths, repeated crash/recover/append cycles",
"Tests validate seven single elements once each; no test steps over two elements with the validator, resumes after a tear, or mixes read operations.",
["src/validate.rs","src/reader.rs","src/state.rs","src/context.rs","src/lib.rs","src/prim.rs"],
[("State tracks open arrays/maps/tags/streams; acceptable() at depth zero","src/state.rs"),("slice_from(start)..index is the element","src/context.rs, src/validate.rs, src/reader.rs"),("expect_finished / decode_one / decode_from_bytes refuse trailing bytes","src/reader.rs, src/lib.rs, src/prim.rs")],
state=[("ctx stack","open structures and how many items they still need","src/state.rs State")],
observe=["Validator::next results, Reader::consumed_bytes/remaining_bytes/is_finished, State::acceptable after every header event"])

p("C04","A read attempt for the wrong type or tag consumes nothing",
"Asking a reader for an element type that the next element does not have, or for a standard tagged type whose tag number the next element does not have, fails and leaves the reader exactly where it was. So in any history of attempts by any number of parsers taking turns on one reader, every later attempt with the right type returns the same element, with the same position afterwards, as if the failed attempts had never been made, and each type-specific read accepts only its own type. Peeking at the type never consumes and always names the type of the next element.",
["histories","schedules","inputs"],
"all element sequences; all interleavings of wrong-type attempts, peeks and right-type reads by several parsers sharing one reader",
"One test makes one wrong attempt (negative on a positive). The remaining pairs of types, tags, repeated attempts and positions after them are untested.",
["src/reader.rs","src/tagged.rs","src/types/mod.rs"],
[("the header is peeked and the position is advanced only after the type matched","src/reader.rs (header, matches_type, advance)"),("tag number is checked before the tag is consumed","src/tagged.rs matches_tag")],
state=[("index","position of the reader","src/context.rs CborDataReader.index")],
observe=["Reader::consumed_bytes before/after each attempt; result of the next successful read"])

p("C05","Damaged or hostile bytes never crash, overflow or hang any read path",
"Whatever bytes storage or a peer delivers (bit flips, torn or zero-length or spliced records, absurd lengths, deep nesting, arbitrary garbage, at any moment of a scan), every read, validate and decode entry point, generic, typed, tagged or derived, returns a value or an error. It never panics, aborts, overflows an integer or loops without consuming input, and values it returns only refer to bytes inside the input. A value that was returned can always be inspected, owned, re-encoded and read again without a panic.",
["fault_sequences","inputs","histories"],
"all byte strings including the empty one, in particular all damage to stored or transmitted valid data; all sequences of API calls on the results",
"Tests feed well-formed data and three truncations; malformed lengths near the integer limits and damaged nested data are never tried.",
["src/context.rs","src/reader.rs","src/validate.rs","src/state.rs","src/decode.rs","src/tagged.rs","src/types/structure.rs","src/lowlevel/header.rs","cbored-derive/src/product.rs","cbored-derive/src/sum.rs"],
[("bounds checks before slicing","src/context.rs peek"),("errors instead of panics for reserved leads and illegal transitions","src/lowlevel/lead.rs, src/state.rs"),("length/key/variant checks in generated code","cbored-derive/src/product.rs, sum.rs")],
observe=["panic hook, process exit status, CPU watchdog around each simulated run"])

p("C06","After any damage every acceptor accepts only well-formed elements",
"If damage turns stored or transmitted data into something that is not a well-formed element (reserved lead bytes, stray or missing breaks, wrong chunk types inside indefinite strings, nested indefinite strings, odd indefinite maps, wrong nesting or counts), no acceptor accepts it: not the validator, not the reader's whole-element, container and tag reads at any nesting depth. Conversely data that is still well-formed is accepted with the same boundaries by all of them. A text read accepts only chunks that are valid UTF-8 on their own, and what a successful read returns is exactly what the bytes say.",
["fault_sequences","inputs"],
"all damage (flip, overwrite, insert, delete, duplicate, splice, truncate) to streams of elements, at any position and any nesting depth, compared against an independent well-formedness model",
"Only two or three malformed inputs are tested; agreement between validator and reader is never compared, and nested malformed data is untested.",
["src/state.rs","src/validate.rs","src/reader.rs","src/lowlevel/lead.rs","src/lowlevel/header.rs"],
[("structural state machine shared by validator and reader","src/state.rs"),("lead byte decoding rejects reserved values","src/lowlevel/lead.rs"),("chunk type checks","src/reader.rs bytes/text, src/state.rs item_streamable/simple")],
observe=["accept/reject and boundary of Validator::next, exact_decodable_slice, array/map/tag reads against the model"])

p("C07","Consumers of one shared message never disturb each other and all see the same",
"Any number of consumers reading the members of one decoded array, map or tag, through indexing, iterators, key and value views, borrowed or owned forms, in any order and interleaving and any number of times, each see exactly the members as they were on the wire. A consumer's reader is confined to its own member: it ends where the member ends, whatever the others do. Owned copies keep telling the same after the receive buffer they came from is overwritten or freed.",
["schedules","histories","inputs"],
"all messages; all interleavings of consumers navigating the same message to any depth; all points at which the receive buffer is recycled",
"test_map_array walks one fixed message once, in one order, with one consumer and no owned form.",
["src/types/structure.rs","src/types/streamable.rs","src/types/mod.rs","src/prim.rs","src/reader.rs"],
[("members are independent slices with a fresh reader each","src/types/structure.rs, src/prim.rs"),("owned()/borrow() copy every member and the length encoding","src/types/structure.rs, src/types/streamable.rs")],
observe=["every member read by every consumer against the sent content; expect_finished on every member reader"])

p("C08","A producer's stream is exactly what it wrote, in order, under any interleaving",
"Bytes already in a writer (an initial framing prefix and everything written before) are never changed, and each write appends exactly the encoding of the value it was given: reading the stream back yields the written values in order, with the containers' declared form, and nothing else. This holds for every value constructible through the API, for any nesting of array, map and tag builders, and when buffers are recycled between writers or several producers take turns. If a producer dies part-way, what it had emitted is a prefix of its full stream.",
["histories","schedules","crash_points","inputs"],
"all sequences of writer operations with any nesting of builders and values; all interleavings of several producers and recycled buffers; a stop after any operation",
"Two tests write at most two scalars; builders, prefixes, chunked strings and recycled buffers are untested.",
["src/writer.rs","src/encode.rs","src/types/structure.rs","src/types/scalar.rs","src/types/streamable.rs"],
[("append-only buffer","src/writer.rs append_byte/append_slice"),("break written only for indefinite structures after the closure","src/writer.rs array_build/map_build"),("canonical headers for native values","src/types/scalar.rs, src/lowlevel/header.rs")],
state=[("data","output so far","src/writer.rs Writer.data")],
observe=["finalize()/finalize_data() after each operation against an append-only reference encoder"])

p("C09","Derived types survive mixed versions, foreign encoders and retries",
"A value of a derived type (array, array with optional last field, flat, integer-keyed map, tagged structures, tag-variant, integer and type-directed enums, with offsets and skipped keys) that one peer encodes or stores decodes at any peer to the same value, also after foreign peers re-encode it with other integer widths, indefinite lengths or another key order, and encoding it again gives identical bytes. Peers that know a newer version read records of older peers with the optional parts absent, and vice versa while those are unset. A record that lacks a mandatory part or has an unknown or repeated key, unknown variant, wrong arity, wrong tag or wrong member type is refused with an error, never read as some value.",
["configurations","schedules","histories","fault_sequences","inputs"],
"all values of the derived shapes; all schedules of upgrades, restarts and replays of stored records among old, new and foreign peers; all structural damage to records (members dropped, duplicated, added, retyped, renumbered)",
"No test uses the derive macro at all; it is only compiled once in cbored-examples.",
["cbored-derive/src/product.rs","cbored-derive/src/sum.rs","cbored-derive/src/attr.rs","cbored-derive/src/common.rs","src/decode.rs","src/encode.rs","src/lib.rs"],
[("generated encode and decode use the same keys, variant numbers, tags and arity","cbored-derive/src/product.rs, sum.rs"),("missing/duplicate/unknown checks in generated decode","cbored-derive/src/product.rs, sum.rs")],
observe=["decode_from_bytes / encode_to_bytes at each peer against the sent value and an independent layout table"])

p("C10","Data validated as a type can be unserialized any time later",
"Whenever bytes have been accepted as data of a type (by validating, by reading typed data, or by encoding a value), taking the value out later succeeds, equals what a fresh decode of those bytes gives, and the wrapped bytes are exactly the accepted ones, after any history of cloning, untyping, retyping, owning, borrowing, embedding, storing and recovering. Bytes that are not exactly one encoding of the type (undecodable, or with trailing bytes) are never accepted as data of that type. Validating changes nothing: a refused validation leaves the untyped data usable.",
["histories","crash_points","fault_sequences","inputs"],
"all types and bytes; all histories of the typed and untyped wrappers, including persisting and restarting between validation and use and damage before validation",
"No test touches the typed wrappers.",
["src/prim.rs","src/reader.rs","src/encode.rs","src/decode.rs"],
[("validate_as decodes once and then keeps the bytes","src/prim.rs"),("exact_decodable_slice/exact_decodable_data","src/reader.rs"),("unserialize panics if the invariant is broken","src/prim.rs CborDataOf::unserialize")],
observe=["unserialize / as_ref / untype after each history step against the model"])

p("C11","Memory and work are bounded by the bytes received, not by what they declare",
"Handling any input, however large the lengths and counts it declares, allocates at most a small constant plus a fixed multiple of the bytes actually received, in every read, validate, decode and own path. This holds while many hostile connections are served at once and after every failed attempt: what was allocated for a refused element is released. Reading ends after work proportional to the bytes present for each level of nesting, so a declared count that the data does not back never causes spinning.",
["fault_sequences","schedules","inputs"],
"all inputs, in particular short inputs declaring huge lengths or counts, at any nesting depth and interleaved over many connections",
"No test measures allocation or declares a large length.",
["src/reader.rs","src/context.rs","src/state.rs","src/decode.rs","src/types/structure.rs","src/types/streamable.rs"],
[("containers grow per element actually read, never pre-sized from the declared count","src/reader.rs array/map/bytes/text"),("length checked against the buffer before use","src/context.rs peek")],
observe=["accounting allocator of the simulated process: peak during each operation, live bytes after it; CPU watchdog"])

p("C16","Decode errors carry the path from the outermost type to the failing member",
"A decode that is refused names the first failing member and every enclosing derived type, variant, member and sequence position in order, innermost first in the context list and outermost first in the rendered path and the message. This holds for every nesting of derived types, sequences and typed raw data, by every decode route and wherever the damage is: a path names no member that is in order, and something wrong with a record itself (type, tag, length, key, variant, torn or malformed bytes) is reported in the name of that record. So a replica that fetches again exactly what each refusal names has its record whole again after finitely many refetches, whatever the order in which damage, lost or repeated answers and crashes occur.",
["fault_sequences","histories","crash_points","inputs"],
"all nestings of derived types and sequences; all damage to members, also while the repair is under way; all orders, losses and repetitions of the fetched repairs; crashes that lose repairs",
"No test looks at the error context, and no test decodes a derived type at all.",
["src/decode.rs","src/prim.rs","src/reader.rs","src/types/structure.rs","cbored-derive/src/product.rs","cbored-derive/src/sum.rs"],
[("DecodeError::push / context_as_path","src/decode.rs"),("generated decoders add member, variant and type on the way out","cbored-derive/src/product.rs, sum.rs"),("decode_vec adds the position","src/decode.rs")],
state=[("context","names from the failing member outwards","src/decode.rs DecodeError.context")],
observe=["DecodeError::context(), context_as_path() and Display of every refusal against an independent description of the types; convergence of path-guided repair"])

p("C17","Every refusal tells the truth, so a peer guided by refusals recovers at once",
"Whenever a read, validate or decode refuses bytes, what the refusal reports is true of those bytes. A wrong-type refusal names the type asked for and the type of the element at hand; a wrong-tag refusal the tag asked for and the tag there; a range, length or not-terminated refusal the actual value, length, position, remaining count and next byte, and the limits the decoder really applies; a malformed lead byte is reported as that byte; a misplaced break or chunk is named as what it is; a text error is that of the offending chunk. Missing data is reported only if bytes are indeed missing: an element that is all there is never refused for missing data by a reader of one element, however wrong it is for who asked. So in any history of fragmentation, damage and retransmission, a parser that picks its next step from refusals alone (dispatch by reported type, tag or range, resume at the reported position, drop what is malformed, wait for what is missing) gets every undamaged element through within a bounded number of attempts.",
["schedules","fault_sequences","inputs"],
"all byte strings, all fragmentations and interleavings of parsers guided by refusals, every refusing entry point",
"The tests only compare a handful of errors by their kind; none checks the values a refusal carries or acts on them.",
["src/context.rs","src/reader.rs","src/lowlevel/lead.rs","src/state.rs","src/decode.rs","src/tagged.rs","src/types/structure.rs"],
[("refusals carry the actual lead type, tag, value, length and position","src/reader.rs, src/decode.rs assert_range / WrongExpected*"),("missing data is a separate refusal from malformed data","src/context.rs, src/reader.rs DataMissing")],
observe=["facts of every refusal compared with an independent parse of the same bytes; progress of refusal-guided parsers once damage stops"])

p("C18","Values keep their meaning through foreign encodings and converge in normal form",
"A number, length, tag, byte, string or collection that one peer writes natively keeps its exact meaning through any chain of peers that re-encode it (other widths, chunks, indefinite lengths). Wherever a copy is, taking it out as a native type (u8 to u64, signed through to_i64, bool, String, byte vectors, fixed byte arrays, floats as f32 or f64, rows and pairs of these) gives the mathematically same value, or a refusal exactly when it does not fit that type. What is written with native types and canonical constructors is the shortest encoding there is, the canonicality query is true exactly for integers, bytes, tags and lengths in that form, and normalising any two encodings of one value gives the same bytes, which normalising again does not change. So replicas that normalise what they fetch and compare only digests agree in the end, whatever was lost, repeated, torn, reordered, re-encoded or forgotten in crashes.",
["histories","configurations","fault_sequences","inputs"],
"all values and all their encodings; all chains of re-encoding peers and native readers of every width; all schedules, losses, repetitions, partitions and crashes of the replicas that exchange them",
"The tests write two canonical integers and decode two unsigned ones; no test converts a negative number or a float, re-encodes anything, or compares two encodings of one value.",
["src/types/scalar.rs","src/types/float.rs","src/lowlevel/header.rs","src/decode.rs","src/encode.rs","src/types/streamable.rs","src/types/structure.rs"],
[("canonical constructors and queries","src/lowlevel/header.rs HeaderValue/HeaderValue8::canonical, is_canonical"),("checked conversions to native types","src/decode.rs assert_range, src/types/scalar.rs to_i64, src/types/float.rs"),("lengths of native strings and collections","src/types/streamable.rs from_*, src/types/structure.rs StructureLength::from, src/encode.rs encode_vec")],
observe=["native values at every replica against the written ones; normalised bytes against the reference normal form; equality of the replicas' stores at the end"])

p("C19","Comparing kept values tells encodings apart exactly, however the copies were made",
"Two values of one kind that were read, kept or built through the library (elements borrowed or owned, raw slices and data, typed data, arrays, maps, tags and their members, byte strings, texts and their chunks, integers, bytes, floats, constants, declared lengths, tag values, header values, standard tagged types and their parts) compare equal exactly when they are written as the same bytes, from either side, and != is the opposite. So two copies of one element are equal whatever the routes they took (read, cloned, owned, borrowed again, stored and recovered, sent and read again, their receive buffers gone), and elements that differ in any width, length form, chunk boundary, order, type or bit differ. A server that does compare-and-set by comparing, a client that watches for changes by comparing and an inbox that removes duplicates by comparing therefore never lose an update, miss a change or see one that is not there, whatever the network repeats, reorders, damages or re-encodes and whenever the server crashes.",
["histories","schedules","fault_sequences","inputs"],
"all values and all near variants of them, all routes by which copies are made and kept, all schedules of proposals, repetitions, re-encodings and crashes",
"The tests compare a few decoded values with literals; none compares two encodings of one value or copies made by different routes.",
["src/types/mod.rs","src/types/structure.rs","src/types/streamable.rs","src/types/scalar.rs","src/types/float.rs","src/lowlevel/header.rs","src/prim.rs","src/tagged.rs"],
[("equality of all kept forms","src/types/*.rs, src/prim.rs, src/tagged.rs PartialEq"),("copies keep what equality looks at","owned() / borrow() / Clone in src/types/*.rs, src/prim.rs"),("header values keep the width they were read in","src/lowlevel/header.rs")],
observe=["every decision taken by comparison against a model that compares bytes; registers against the model after every update and recovery"])

p("C20","Connections served by one process never influence each other",
"What a call into the library returns (values, errors and how they read, bytes written, positions) depends only on the bytes and values given to it and on the earlier calls on the same object. So any number of connections served by one process, on one thread or several, their calls in any order and also made from inside the user's own encode, decode and build functions that the library is running for another connection, with hostile or damaged messages, any number of refused messages, panicking user functions that are caught, readers, iterators, writers and values dropped midway, and receive buffers used again at the same place, each get exactly the results they would get alone in a process of their own; repeating a call on the same input any number of times gives the same answer; what is kept (values, errors) goes on saying what it said; and no call waits for ever for another.",
["schedules","histories","fault_sequences","inputs"],
"all scripts of calls per connection; all interleavings of any number of connections on any number of threads, including re-entrance through callbacks; all panics of callbacks, drops, floods of refused messages and reuses of buffers",
"Every test makes its calls once, alone, on one thread and never from inside a callback; state kept between calls would not show.",
["src/lib.rs","src/reader.rs","src/writer.rs","src/validate.rs","src/state.rs","src/decode.rs","src/encode.rs","cbored-derive/src"],
[("no state outside the objects","src/reader.rs, src/writer.rs, src/validate.rs, src/state.rs, src/decode.rs, src/encode.rs"),("callbacks run in the middle of calls","src/writer.rs *_build, src/types/structure.rs to_vec / read_data, Encode / Decode"),("generated code","cbored-derive/src/product.rs, sum.rs")],
observe=["the log of every connection served among others against the log of the same script alone, alone in a fresh thread and alone in a fresh process"])

p("C12","Canonical constructors give the smallest encoding",
"Canonical constructors for integers, lengths and tags choose the shortest CBOR header that represents the value, and the canonicality query is true exactly for values held in that form.",
["inputs"],"all 64-bit values and all five header widths",
"The tests write two canonical integers.",
["src/lowlevel/header.rs","src/types/scalar.rs"],[("HeaderValue::canonical / is_canonical","src/lowlevel/header.rs")])
p("C13","Numeric conversions are exact or refused",
"Converting integers to native types gives the mathematically same value or a refusal, for negative values too; half precision floats widen to exactly the value they denote, and single to double likewise.",
["inputs"],"all 64-bit positive and negative magnitudes; all 65536 half-precision patterns and all single-precision patterns",
"No test converts a negative number or any float.",
["src/types/scalar.rs","src/types/float.rs","src/decode.rs"],[("checked conversions","src/types/scalar.rs to_i64"),("ieee754_u16_to_u32","src/types/float.rs")])
p("C14","Native integer decoding refuses out-of-range values",
"Decoding an unsigned native integer accepts exactly the CBOR positive integers in its range, in any header width, and reports the range otherwise; fixed-size byte arrays accept exactly their length.",
["inputs"],"all 64-bit values, widths and byte string lengths",
"Two values are decoded as u64 in the tests.",
["src/decode.rs"],[("assert_range","src/decode.rs")])
p("C15","Derived layouts are the documented ones",
"Each derive strategy produces the wire layout described in the README for it: element order, key and variant numbering, arity and tag.",
["inputs","programs"],"all type definitions using the documented attributes",
"No test inspects derived output.",
["cbored-derive/src/product.rs","cbored-derive/src/sum.rs","README.md"],[("code generation","cbored-derive/src")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
