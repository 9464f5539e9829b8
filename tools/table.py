SYM = "Universal over the symbolic values; "
CAT_D = ("the decoder catalogue (harness/src/util.rs): fixnums, bytes, tuples, chain, length, collect/collectn, and_then, "
         "peekable, maybe_eos, max_bytes, omit, map, boxed and nested compositions, with arbitrary input bytes (8 symbolic bytes)")
CAT_E = ("the encoder catalogue (harness/src/util.rs): fixnums, bytes, strings, tuples, chain, length, optional, max_bytes, slice, "
         "pre_encode, repeat, monolithic, boxed, mapped and nested compositions, with arbitrary item values")

P("C01", "Fixed-width number codecs have the documented layout and round-trip",
  "For every fixed-width number codec (8 to 64 bit integers, signed and unsigned, and 32/64-bit floats, in both byte orders), the value decoded from a byte string is the number those bytes denote in that width and byte order, and encoding that value writes exactly those bytes and nothing more. A complete number is consumed and produced in one call when enough room is offered.",
  ["inputs"], "all byte strings of each width, hence all representable values of every number type, NaNs included",
  "The unit tests check one or two values per type; a wrong mask, sign extension or byte index shows only for values with particular bits set.",
  ["src/fixnum.rs", "src/bytes.rs"],
  [("macro-generated decoders/encoders over byteorder", "src/fixnum.rs")],
  "none on values: all 2^(8N) byte strings of every width N in 1..8; one item per run.",
  "Complete over all values of all 39 number codecs (single buffer, one item).")

P("C02", "Integers that do not fit a 24/40/48/56-bit encoding are rejected",
  "Starting to encode a value too large for a 24, 40, 48 or 56 bit integer fails with an invalid-input error, queues nothing and leaves the encoder ready for the next item. Every value that fits is accepted and written unchanged.",
  ["inputs"], "all u32/u64 values for every odd-width encoder",
  "Tests try one accepted value per width; the boundary 2^N and values whose truncation looks valid are not tried.",
  ["src/fixnum.rs"], [("range assertion in start_encoding", "src/fixnum.rs")],
  "none on values; one rejected and one accepted item.",
  "Complete over all values of the 8 odd-width integer encoders.")

P("C03", "A decoded item does not depend on how the input is cut into chunks",
  "Feeding a decoder the same bytes in one piece, in several pieces, byte by byte, or with empty calls in between yields the same item, and the pieces together consume the same number of bytes. This holds for every decoder and for every composition of them.",
  ["inputs", "schedules"], "all chunkings and all input bytes, for every decoder of the library",
  "Tests feed whole inputs or one hand-picked split; state that is lost or duplicated at a particular chunk boundary of a nested decoder is not exercised.",
  ["src/bytes.rs", "src/fixnum.rs", "src/combinator.rs", "src/tuple.rs", "src/padding.rs", "src/decode.rs"],
  [("offsets and partial state kept between decode calls", "src/bytes.rs"), ("CollectN/Collect/AndThen/Length progress state", "src/combinator.rs"), ("per-element items", "src/tuple.rs")],
  CAT_D + "; items of 1 to 5 bytes; all splits into up to 3 chunks for items of at most 3 bytes, all 2-chunk splits plus one 3-chunk family for longer ones (thorough: all 3-chunk splits, and byte by byte with optional empty calls, over a larger catalogue); byte strings of 300 bytes cut at 5 places.",
  "All splits and all bytes within the bounds.", retry_for={"large": 310})

P("C04", "Encoded bytes do not depend on the sizes of the output buffers",
  "Encoding an item into one ample buffer or into any sequence of smaller ones produces the same bytes: each call fills its buffer as long as bytes remain, writes nothing beyond the size it reports, and the encoder becomes idle exactly when the last byte is written. Once idle it writes nothing more.",
  ["inputs", "schedules"], "all output buffer size sequences and all item values, for every encoder of the library",
  "Tests encode into one big buffer; loss or repetition of bytes when a buffer ends inside an element needs particular sizes.",
  ["src/bytes.rs", "src/fixnum.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs"],
  [("offset kept between encode calls", "src/bytes.rs"), ("offset threading in tuples", "src/tuple.rs"), ("overflow buffer of the monolithic encoder", "src/monolithic.rs")],
  CAT_E + "; items of 1 to 5 bytes (8 in the thorough tier), up to 3 buffers; byte strings of 300 bytes cut at 5 places.",
  "All buffer size sequences of up to three calls within the bounds.", retry_for={"large": 310})

P("C05", "Composed codecs round-trip and lay their parts out in order",
  "What a composition of encoders writes is the concatenation of its parts in declaration order, and the matching composition of decoders reads back an equal item, consuming exactly those bytes. Absent, empty and repeated parts take exactly the bytes they stand for, and several items of one codec follow each other without interference.",
  ["inputs", "programs"], "all item values for tuples of 2 to 8 elements, chains, nested tuples, length- and count-prefixed data, optional parts, padding, mapping and framing",
  "Tests compose two or three codecs with one value; an element swapped or dropped in one of the generated tuple arities goes unnoticed.",
  ["src/tuple.rs", "src/combinator.rs", "src/bytes.rs", "src/fixnum.rs", "src/null.rs", "src/padding.rs"],
  [("macro-generated TupleEncoder/TupleDecoder impls", "src/tuple.rs"), ("combinators", "src/combinator.rs")],
  "all tuple arities 2..8 with arbitrary bytes, 14 nested/prefixed compositions with arbitrary values, items up to 8 bytes, sequences up to 3 items.",
  "All values of the listed compositions.")

P("C06", "Decoders consume all they can use and never a byte past their item",
  "A decoder that has not completed its item consumes everything it is offered up to the item's end, and becomes idle exactly when the item is complete. It consumes nothing beyond the item's end nor while idle, and bytes after the item never influence it; decoders whose item extends to the end of the stream consume everything and complete exactly there.",
  ["inputs", "schedules"], "all input bytes and positions, for every decoder of the library",
  "Tests mostly offer exactly the item; over-reading, under-reading and reading while idle depend on trailing bytes and on where the chunk ends.",
  ["src/decode.rs", "src/combinator.rs", "src/tuple.rs", "src/bytes.rs", "src/macros.rs"],
  [("idle guards (bytecodec_try_decode!)", "src/macros.rs"), ("min(buf, remaining) in every primitive", "src/bytes.rs")],
  CAT_D + "; items of 1 to 5 bytes followed by up to 7 arbitrary bytes, end of stream known, unknown or a finite distance away; byte strings of 300 bytes followed by 290, cut at 5 places.",
  "All cut positions and trailing bytes within the bounds.", retry_for={"large": 310})

P("C07", "What a decoder says it still requires is right",
  "The number of bytes a decoder announces as required never exceeds what its current item still takes, is exact for items of fixed size, and is zero exactly when the item is complete. A decoder whose item extends to the end of the stream never announces zero before that end, and announces zero after it.",
  ["inputs", "schedules"], "all positions inside an item, for every decoder of the library",
  "Tests look at the requirement of a few fresh decoders; readers that trust it (exact reads) over-read or hang when it is wrong in the middle of a nested item.",
  ["src/decode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/byte_count.rs"],
  [("requiring_bytes implementations", "src/combinator.rs"), ("ByteCount::add_for_decoding", "src/byte_count.rs")],
  CAT_D + "; every prefix of items of 1 to 5 bytes.",
  "All prefixes within the bounds.")

P("C08", "What an encoder says it still requires is exact",
  "An encoder of known size announces, before and during the encoding of an item, exactly the number of bytes it will still write, the same through every way of asking, and zero when idle. An encoder of unknown size never announces a finite number that is wrong, and announces a finite zero once idle.",
  ["inputs", "schedules"], "all item values and all positions inside an item, for every encoder of the library",
  "Tests check a few fresh encoders; length prefixes computed from a wrong size corrupt the stream only for particular nestings and moments.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/byte_count.rs"],
  [("requiring_bytes/exact_requiring_bytes implementations", "src/combinator.rs"), ("ByteCount::add_for_encoding", "src/byte_count.rs")],
  CAT_E + "; every prefix of items of 1 to 5 bytes. One listed known finding (Last::exact_requiring_bytes).",
  "All prefixes within the bounds, except the recorded finding.")

P("C09", "An input that ends inside an item is an unexpected-end error, never an item",
  "When the end of the stream is announced before an item has received all its bytes, decoding fails with an unexpected-end error and no item can be taken out of the decoder, however the truncated input was cut. An input that ends exactly at the item's end decodes normally, also when decoded in one call from a byte string.",
  ["inputs", "fault_sequences"], "all truncation points, chunkings and input bytes, for every decoder of the library",
  "Tests truncate three decoders at one point; a combinator that swallows the end of the stream or emits a short item needs the cut at its own boundary.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs", "src/padding.rs", "src/decode.rs"],
  [("UnexpectedEos assertions", "src/bytes.rs"), ("end-of-stream propagation of combinators", "src/combinator.rs")],
  CAT_D + "; all truncation points of items of 1 to 5 bytes, end announced with the data or in a separate call; plus until-end items with a minimum size.",
  "All truncations within the bounds.")

P("C10", "An output that ends inside an item is an unexpected-end error",
  "When an encoder is told that the output ends and the room offered does not take the rest of its item, encoding fails with an unexpected-end error instead of reporting success. An output that ends exactly at the item's end, or after it, is no error.",
  ["inputs", "fault_sequences"], "all truncation points and item values, for every encoder of the library",
  "Tests rarely announce the end of the output; a wrapper that drops the announcement loses data silently.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/monolithic.rs", "src/fixnum.rs"],
  [("UnexpectedEos assertions", "src/bytes.rs"), ("end-of-stream propagation of combinators", "src/combinator.rs")],
  CAT_E + "; all truncation points of items of 1 to 5 bytes, end announced with the room or in a separate call.",
  "All truncations within the bounds.")

P("C11", "Taking an item early fails cleanly, and a decoder can be reused afterwards",
  "Asking for an item that is not complete fails with an incomplete-decoding error and, for the non-composite decoders, changes nothing: decoding goes on and yields the same item. After an item was taken, the decoder decodes the next one exactly like a fresh decoder; one-shot byte decoders report termination until they are given a new buffer, and a counted collection starts again when given a new count.",
  ["inputs", "histories"], "all positions of the early call, all bytes of two consecutive items, for every decoder of the library",
  "Tests decode one item per decoder; leftovers of the first item in the second one are a matter of history.",
  ["src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs"],
  [("finish_decoding resets", "src/combinator.rs"), ("one-shot BytesDecoder", "src/bytes.rs")],
  CAT_D + "; one early call at every position; two consecutive items of 1 to 5 bytes.",
  "All positions and bytes within the bounds.")

P("C12", "One item at a time: a refused item does no harm, and encoders are reusable",
  "Starting an item while another is in flight fails with an encoder-full error and leaves the bytes of the item in flight unchanged; an item refused as invalid leaves an idle encoder idle and usable. Once idle again, an encoder encodes the next item exactly like a fresh one.",
  ["inputs", "histories"], "all positions of the refused start and all values of both items, for every encoder of the library",
  "Tests start one item per encoder; corruption by a refused start or by leftovers needs a specific history.",
  ["src/encode.rs", "src/bytes.rs", "src/combinator.rs", "src/tuple.rs", "src/fixnum.rs", "src/padding.rs"],
  [("EncoderFull assertions", "src/bytes.rs"), ("start_encoding of tuples and combinators", "src/tuple.rs")],
  CAT_E + "; a refused start at every position of the first item, then a second item. One listed known finding (tuple whose later element refuses).",
  "All positions and values within the bounds, except the recorded finding.")

P("C13", "A length-delimited codec takes exactly the declared number of bytes",
  "A decoder with a declared length never consumes past it, shows its inner decoder a stream that ends exactly there (announcing how much is left), and yields an item only when exactly the declared number of bytes made it up; a stream known to end earlier is an unexpected-end error. An encoder with a declared length writes exactly that many bytes for an item or fails, never more, again for every following item, and the length can change between items but not inside one.",
  ["inputs", "histories"], "all declared lengths (64 bit), inner item sizes, chunk sizes and end-of-stream announcements",
  "Tests use lengths 3 and 4 with matching strings; off-by-one at the boundary, wrong announcements and reuse need other sizes.",
  ["src/combinator.rs"], [("Length", "src/combinator.rs")],
  "lengths and item sizes: all 64-bit values (mock inner codecs of arbitrary size); 2 calls of up to 4 bytes; contents with real codecs up to 4 bytes.",
  "Any length, any item size, two calls; contents on small sizes.",
  state=[("remaining bytes", "budget of the current item", "src/combinator.rs")])

P("C14", "A byte limit is enforced, and is neither lower nor higher than stated",
  "A codec with a byte limit accepts any item within the limit, and fails with an invalid-input error as soon as what is offered or announced (decoding) or written (encoding) for one item exceeds it, without passing the excess on. The whole limit is available again for the next item, and changing the limit counts what the current item already consumed.",
  ["inputs", "histories"], "all limits (64 bit), item sizes, chunk sizes and end-of-stream announcements",
  "Tests use a limit of 3 with strings; overflow of the comparison and leftover counts of a previous item are out of reach.",
  ["src/combinator.rs"], [("MaxBytes", "src/combinator.rs")],
  "limits, item sizes and announcements: all 64-bit values (mock inner codecs); 2 calls of up to 3 bytes; 2 consecutive items.",
  "Any limit, any size, two calls.")

P("C15", "A slice suspends its codec at the byte budget and resumes it unchanged",
  "A sliced codec consumes or produces exactly up to its byte budget, is suspended when the budget is used up (and takes or gives nothing then), and continues exactly where it stopped when given a new budget. The inner codec never sees bytes or room beyond the budget, and an announced end of the stream does not reach it while bytes are held back.",
  ["inputs", "histories", "schedules"], "all budgets (64 bit), item sizes, chunk sizes and announcements, and interleavings of two sliced streams",
  "Tests multiplex one pair of streams with budgets of one byte.",
  ["src/combinator.rs"], [("Slice", "src/combinator.rs")],
  "budgets and sizes: all 64-bit values (mock inner codecs); 2 budgets, calls of up to 3 bytes; two multiplexed real streams of 5 bytes.",
  "Any budget, any size, two budgets in sequence.")

P("C16", "Collections keep every item, in order, and no more",
  "A collection over a stream contains every item of the stream in order, and fails, rather than dropping data, when the stream ends inside an item or an item is invalid. A counted collection takes exactly its number of items, items without bytes included, and leaves the rest of the input alone; nothing of a previous collection stays in the next.",
  ["inputs", "histories"], "all streams up to 6 bytes, item widths 1 to 4, chunkings; any count",
  "Tests collect one small string; a partial last item, empty items and boundary chunks are not sampled.",
  ["src/combinator.rs"], [("Collect", "src/combinator.rs"), ("CollectN", "src/combinator.rs")],
  "streams of up to 6 bytes (8 for counted), items of 0 to 4 bytes, up to 3 chunks; counts up to 3 completely, any 64-bit count for the first 4 items; 262 items in two calls; collecting over an unbounded stream of zero-byte items is outside.",
  "All streams within the bounds.")

P("C17", "Repeat, optional, last, pre-encoded and one-shot encodings lose nothing",
  "Repeating an encoder over an iterator writes every item once, in order, without stopping at items that take no bytes; an absent optional item takes no bytes and is complete at once; a last item follows whatever is in flight, once. Pre-encoding and encoding into a byte vector give the same bytes as encoding, with an exact size, and report invalid items at the start.",
  ["inputs", "schedules"], "all item values, item counts up to 3, presence patterns, item sizes and buffer boundaries",
  "Tests repeat one byte range; empty items in the middle, boundaries inside an item and rejected items are not tried.",
  ["src/combinator.rs", "src/encode.rs"],
  [("Repeat", "src/combinator.rs"), ("Optional", "src/combinator.rs"), ("Last", "src/combinator.rs"), ("PreEncode", "src/combinator.rs"), ("encode_into_bytes/with_item", "src/encode.rs")],
  "up to 3 items of up to 5 bytes, up to 2 buffers of up to 12 bytes.",
  "All values and boundaries within the bounds.")

P("C18", "Peeking, clean ends between items, and omitted items behave as stated",
  "A peekable decoder shows its item exactly from completion until it is taken, without consuming it, and hands out what was peeked at. A decoder that tolerates the end of the stream reports no error for an end between items, and an unexpected-end error for an end inside one; an omitted decoder takes no bytes, is not run at all and yields an absent item, and works normally once switched on.",
  ["inputs", "histories", "schedules"], "all input bytes, chunkings, item sizes (64 bit for the tolerant decoder) and sequences of items",
  "Tests check one success each; a clean end after the second item or in an empty call is a matter of history.",
  ["src/combinator.rs"], [("Peekable", "src/combinator.rs"), ("MaybeEos", "src/combinator.rs"), ("Omittable", "src/combinator.rs")],
  "items of any size (mock) or up to 3 bytes (real); up to 4 calls; sequences of up to 2 items.",
  "All inputs within the bounds.")

IO_WHY = "Tests run over in-memory readers and writers that never block, never fail and are never short."
P("C19", "A read buffer passes on exactly what the reader delivered, in order",
  "Filling a read buffer reads until it is full, the stream blocks, ends or fails: blocking and the end are no errors and are shown as the stream state, any other failure is returned, and what was read before it is kept. Decoding from the buffer and reading from it hand out the delivered bytes first in, first out, each once; a decoder sees everything buffered and whether the stream has ended, and nothing is taken when it fails.",
  ["inputs", "schedules", "faults"], "all byte contents and all sequences of short reads, would-block results, ends and errors, between partial decodes",
  IO_WHY,
  ["src/io.rs"], [("ReadBuf::fill/read", "src/io.rs"), ("decode_from_read_buf", "src/io.rs")],
  "capacities 0 to 4 bytes; 2 rounds of fill and decode/read; up to 4 reader calls per fill, each with a symbolic outcome and one of 5 error kinds; capacity 64 with 3 rounds of any sizes, every stream position up to 255.",
  "All reader behaviours within the bounds.", retry_unwind=10)

P("C20", "A write buffer passes everything on to the writer, in order, once",
  "Flushing a write buffer writes until it is empty, the stream blocks, is closed or fails: the first two are no errors and are shown as the stream state, and what was not written is kept for the next flush. Encoding into the buffer uses exactly its free room and adds exactly what the encoder produced, nothing on an error; every byte reaches the writer once and in order.",
  ["inputs", "schedules", "faults"], "all byte contents and all sequences of short writes, would-block results, closed streams and errors, between encodes",
  IO_WHY,
  ["src/io.rs"], [("WriteBuf::flush/write", "src/io.rs"), ("encode_to_write_buf", "src/io.rs")],
  "capacities 0 to 4 bytes; 2 rounds of encode/write and flush; up to 4 writer calls per flush, each with a symbolic outcome and one of 5 error kinds; capacity 64 with 3 rounds of any sizes, every stream position up to 255.",
  "All writer behaviours within the bounds.", retry_unwind=10)

P("C21", "Reading one item from a stream takes exactly that item",
  "Decoding an item from a blocking reader never asks for more than the item still takes, so it leaves the reader just behind the item, whatever the item's size and however short the reads are. A stream that ends inside the item gives an unexpected-end error and never an endless loop; an item that needs no bytes is returned without reading, and a failed read is returned without losing what was decoded.",
  ["inputs", "schedules", "faults"], "all item and stream sizes up to several internal blocks, short reads and failures at any call",
  "Tests read one small item from a slice; block boundaries, short reads and truncated streams are not tried.",
  ["src/io.rs"], [("decode_exact", "src/io.rs")],
  "items up to 4000 bytes and streams up to 5000 (byte content abstracted), up to 4 reads; any 64-bit size when the stream ends before; items with content up to 4 bytes.",
  "All sizes and read lengths within the bounds.", retry_unwind=10)

P("C22", "Writing all of an item out is complete or an error",
  "Encoding everything into a blocking writer writes all of the item's bytes, in order and once, whatever the item's size and however short the writes are, and ends with an idle encoder. A failing or closed writer and an encoder that can make no progress are reported as errors, never ignored and never an endless loop.",
  ["inputs", "schedules", "faults"], "all item sizes up to several internal blocks, short writes and failures at any call, suspended encoders",
  "Tests write one small item into a vector.",
  ["src/io.rs"], [("encode_all", "src/io.rs")],
  "items up to 3000 bytes (content abstracted; 2000 with short writes), up to 3 writes; items with content of 4 bytes.",
  "All sizes and write lengths within the bounds.", retry_unwind=10)

P("C23", "A buffered stream is driven in both directions, errors and ends included",
  "One operation on a buffered stream fills the read buffer and then flushes the write buffer; a failure of either is returned with its kind, a failed read ends the operation before anything is written. The stream counts as ended when either direction has ended, and as blocked exactly when the read side is blocked and nothing waits to be written or the write side is blocked too; what is read and written through it is passed on in order, once.",
  ["inputs", "schedules", "faults"], "all outcomes of every read and write call, buffer fill levels and combinations of stream states",
  "The tests never drive a buffered stream at all.",
  ["src/io.rs", "src/error.rs"], [("BufferedIo::execute_io/is_eos/would_block", "src/io.rs"), ("From<io::Error>", "src/error.rs")],
  "buffers of 2 bytes (of two sizes, 1 to 4 bytes each, where the sizes are told apart), 2 operations, up to 3 reader and writer calls per operation; every combination of stream states; 8 kinds of I/O error.",
  "All outcomes within the bounds.", retry_unwind=8)

P("C24", "Asynchronous buffers neither lose data nor lose wake-ups",
  "Polling a read or write buffer passes the bytes on in order, once, is pending exactly when the stream is, and shows blocking, the end and failures as the synchronous buffers do. A task whose encoder found no room is woken once flushing makes room; one poll of a buffered stream tries both directions, is pending only when both are, and otherwise reports the failure of either.",
  ["inputs", "schedules", "faults"], "all outcomes of every poll, fill levels, and interleavings of encoding and flushing",
  "The tests cover one successful round trip; partial writes, pending polls and the waker are not exercised.",
  ["src/io_async.rs", "src/io.rs"],
  [("poll_fill/poll_flush/execute_io_poll", "src/io_async.rs"), ("encode_to_write_buf_async", "src/io.rs")],
  "buffers of 1 to 3 bytes, up to 3 polls of the stream per call, 2 calls, two polls of a buffered stream in a row; wakers are counted, tokio's runtime is outside.",
  "All outcomes within the bounds.", crate="ext", retry_unwind=8)

P("C25", "Byte counts and stream ends add up, and never wrap",
  "Sums of byte counts follow the documented rules for decoding and for encoding for all values, do not depend on order or grouping, and saturate instead of wrapping; counts are ordered as their sizes are, infinite above every number and unknown not at all. A stream end is reached exactly when zero bytes are known to remain, and moving back from it adds up and saturates.",
  ["inputs"], "all pairs and triples of byte counts, all 64-bit distances",
  "Tests check a handful of small counts.",
  ["src/byte_count.rs", "src/eos.rs"], [("add_for_decoding/add_for_encoding/partial_cmp", "src/byte_count.rs"), ("Eos::back", "src/eos.rs")],
  "none: complete over all values.",
  "Complete: the functions are loop-free and every value is covered.")

P("C26", "Wrappers that only change items or errors pass everything else through",
  "References, boxes and the map, try-map, map-error, map-from and try-map-from wrappers hand every call to the inner codec unchanged and return its consumed or produced sizes, required bytes, idleness and errors unchanged. Items and error kinds are changed only by the given function, an item the function rejects never reaches the inner encoder, and start-of-decoding tags are passed on.",
  ["inputs", "faults"], "all answers and errors an inner codec can give, all stream ends, items and tags",
  "Tests wrap one well-behaved codec; wrong answers in rarely used methods (idleness, required bytes, errors) go unseen.",
  ["src/combinator.rs", "src/decode.rs", "src/encode.rs"],
  [("Map/TryMap/MapErr/MapFrom/TryMapFrom", "src/combinator.rs"), ("impls for &mut and Box", "src/decode.rs"), ("impls for &mut and Box", "src/encode.rs")],
  "one call of each method per wrapper; inner answers arbitrary.",
  "Complete for one call of each method: the wrappers keep no state of their own.")

P("C28", "JSON codec: exactly the JSON text, whatever the chunks and buffers",
  "The JSON encoder writes exactly the JSON text of its item, across buffers of any size, and reports an output that ends inside it as an unexpected end. The JSON decoder gathers its text over any chunks until the end of the stream, yields the value it denotes, and rejects malformed, truncated and trailing text as invalid input, yielding nothing.",
  ["inputs", "schedules"], "all u8, bool and optional values to encode; null and bool texts with any byte in one position",
  "Tests encode and decode one or two texts.",
  ["src/json_codec.rs", "src/monolithic.rs"], [("JsonDecoder/JsonEncoder", "src/json_codec.rs")],
  "encoding: u8 (all values), bool, Option<bool>, two items, 2 buffers; decoding: (), bool, texts of up to 5 bytes of which one is symbolic, 2 chunks (numbers, strings and structures are beyond reach of the symbolic execution of serde_json's reader).",
  "All values within the bounds; serde_json itself is executed, not modelled.", crate="ext")

P("C29", "Bincode codec: exactly the bincode layout, whatever the chunks and buffers",
  "The bincode encoder writes exactly the bincode bytes of its item, across buffers of any size, and reports an output that ends inside them as an unexpected end. The bincode decoder gathers its bytes over any chunks until the end of the stream, yields the item they denote, and rejects truncated or invalid bytes as invalid input, yielding nothing; items follow each other cleanly.",
  ["inputs", "schedules"], "all values of u16, u32, bool, (u8, u8), Option<u8> and (u8, Option<u16>), all truncations and cuts",
  "Tests round-trip one tuple.",
  ["src/bincode_codec.rs", "src/monolithic.rs"], [("BincodeDecoder/BincodeEncoder", "src/bincode_codec.rs")],
  "items of up to 4 bytes, one of 96 bytes, 2 chunks or buffers, 2 items.",
  "All values within the bounds; bincode itself is executed, not modelled.", crate="ext")

P("C27", "One-shot codecs work unchanged behind the incremental interface",
  "A monolithic decoder runs its one-shot function exactly once per item, on exactly the bytes received up to the end of the stream however they were cut, and keeps the item until it is taken without consuming anything more. A monolithic encoder writes exactly the bytes its one-shot function produced, in order, across buffers of any size, and reports an output that ends inside them as an unexpected end. Errors of the one-shot functions are reported as such, with their kind, and yield no item.",
  ["inputs", "schedules", "faults"], "all bytes, lengths, cuts, failures of the one-shot function",
  "Tests feed one fixed string in one cut.",
  ["src/monolithic.rs"], [("MonolithicDecoder/MonolithicEncoder", "src/monolithic.rs")],
  "items of up to 4 bytes, 2 chunks or buffers and a separate end, 2 items; one item of 300 bytes.",
  "All values within the bounds; the one-shot function reads byte by byte and writes in two pieces.", retry_for={"large": 310})

P("C30", "UTF-8 codec: exactly the well-formed texts, whatever the cuts",
  "The UTF-8 decoder yields the text whose bytes it was given exactly when those bytes are well-formed UTF-8 (no overlong forms, surrogates, values beyond U+10FFFF, stray or missing continuation bytes), even when a character is cut between calls; anything else is rejected as invalid input and yields nothing, and the next item is unaffected. The UTF-8 encoder writes exactly the bytes of its text across buffers of any size.",
  ["inputs", "schedules"], "all byte sequences within the bounds, all cuts",
  "Tests decode one ASCII text; the accepted set has 4-byte boundary cases.",
  ["src/bytes.rs"], [("Utf8Decoder/Utf8Encoder", "src/bytes.rs")],
  "texts of 2, 3 and 4 bytes (one whole character of any kind), encoded texts of 3 and 7 bytes, 2 or 3 chunks or buffers, 2 items.",
  "All values within the bounds, against an independent table of well-formed sequences.")

P("C31", "Padding consumes or produces only padding; null codecs nothing",
  "A padding decoder consumes every byte up to the end of its input, accepting only its expected byte when it has one and reporting the first other byte as invalid input; a padding encoder fills every buffer it is given with its byte until the stream ends. Null codecs consume and produce nothing, are always idle and finish at once.",
  ["inputs", "schedules"], "all bytes, expected bytes, cuts, ends",
  "Tests run one padding byte over one buffer.",
  ["src/padding.rs", "src/null.rs"], [("PaddingDecoder/PaddingEncoder", "src/padding.rs"), ("NullDecoder/NullEncoder", "src/null.rs")],
  "up to 4 bytes, 2 chunks or buffers, 2 items; padding of 50 (checked) and 299 bytes (written).",
  "All values within the bounds.")

P("C32", "No length, limit, count or announcement can crash a codec",
  "Whatever 64-bit sizes are configured, announced or read from the input, in any nesting of the limiting wrappers, decoding, encoding, asking for idleness and required bytes, and finishing early never panic, wrap or over-allocate; no wrapper passes on more bytes than the smallest limit around it. Sums of sizes saturate, and a length field with too little data behind it is reported as an unexpected end.",
  ["inputs", "schedules", "faults"], "all 64-bit lengths, limits, budgets and announcements, all inner consumption",
  "Crashes need values near 2^64, which tests never use.",
  ["src/combinator.rs", "src/bytes.rs", "src/tuple.rs", "src/byte_count.rs"],
  [("Length/MaxBytes/Slice/CollectN", "src/combinator.rs"), ("RemainingBytesDecoder", "src/bytes.rs"), ("ByteCount::add_for_decoding/add_for_encoding", "src/byte_count.rs")],
  "2 calls of up to 4 bytes, two limits nested (collectn: up to 3 bytes); arithmetic overflow, index and capacity panics all count.",
  "Complete over all sizes; calls and buffer lengths bounded.")

P("C34", "An owned slice is its window, also to the codecs that use it",
  "An owned slice shows and lets modify exactly the bytes from its start to its end, and gives its storage back with everything outside untouched. Byte encoders write exactly the window and byte decoders fill exactly the window, whatever the cuts, so a buffer can be continued by moving the window.",
  ["inputs", "schedules"], "all contents and windows within the storage, all cuts",
  "Tests use one window of one array.",
  ["src/slice.rs", "src/bytes.rs"], [("OwnedSlice", "src/slice.rs"), ("BytesEncoder/BytesDecoder", "src/bytes.rs")],
  "storage of 4 bytes, every window, 2 chunks or buffers.",
  "All windows and contents within the bounds.")

P("C35", "A value decoded first selects the decoder of what follows",
  "and_then makes the second decoder exactly once per item, from exactly the first item, gives it every byte after the first item and nothing else, and starts again with the first decoder after the item was taken. The stream end inside either part is an unexpected end, a rejected first item makes no second decoder, and required bytes and idleness are always those of the part in progress.",
  ["inputs", "schedules", "faults"], "all first items, all sizes of the second part, cuts and ends; selections within selections",
  "Tests decode one length-prefixed item.",
  ["src/combinator.rs"], [("AndThen", "src/combinator.rs")],
  "2 or 3 calls of up to 8 bytes, 2 items, both parts of any 64-bit size.",
  "All values within the bounds.")

P("C36", "Codecs written with the helper macros behave like tuples",
  "A decoder or encoder whose parts are driven by bytecodec_try_decode or bytecodec_try_encode, in any of the macros' three forms, does its parts in order, each on exactly the bytes after the previous one, stops at the first part that needs another call and continues there. It agrees with the tuple codec of the same parts in consumed and produced bytes, items, idleness and kinds of errors.",
  ["inputs", "schedules", "faults"], "all items, cuts and ends, all three macro forms",
  "No test uses the exported macros from outside the crate.",
  ["src/macros.rs", "src/tuple.rs"], [("bytecodec_try_decode/bytecodec_try_encode", "src/macros.rs")],
  "three parts of 6 bytes together, 2 calls; three parts of any 64-bit sizes, 1 call.",
  "All values within the bounds; compared with TupleDecoder and TupleEncoder and with the byte layout.")

P("C37", "A failing part fails whatever it is nested in, at once, with its own kind",
  "When a part of a codec fails, whatever it is nested in fails with the same kind of error, at once, and yields no item: no combinator, tuple, macro or I/O helper hides, delays or relabels a failure. A wrapper around one codec has counted nothing for the failed call and goes on when its inner codec does. An I/O error that is an unexpected end of file becomes an unexpected-end error, every other one an error of the kind other.",
  ["inputs", "schedules", "faults"], "all kinds of errors at every point of an item (first byte, between bytes, taking or giving the item), all cuts and ends",
  "Tests let one codec fail with one kind of error, never inside another one.",
  ["src/combinator.rs", "src/tuple.rs", "src/macros.rs", "src/io.rs", "src/error.rs", "src/decode.rs", "src/encode.rs", "src/bytes.rs"],
  [("track!(..)? in every wrapper", "src/combinator.rs"), ("From<std::io::Error> for Error", "src/error.rs"), ("kind overrides for omittable and optional parts", "src/combinator.rs")],
  "one failure of any kind, in the first or the second item, parts of two bytes, up to 4 calls, 35 wrappers and nestings.",
  "All kinds, points and cuts within the bounds.")

P("C38", "One-shot decoding and encoding are all or nothing",
  "Decoding from a byte slice in one shot gives an item exactly when the slice is one whole item: bytes left over are an invalid-input error, missing ones an unexpected-end error (an item that need not begin is merely incomplete on an empty slice). Encoding into a byte vector gives exactly the bytes of the item, of whatever size, or an error when the encoder cannot write them all or has no end; never a part of an item. Decoding in one shot what an encoder wrote in one shot gives an equal item.",
  ["inputs", "faults"], "all slices and items of the stated sizes for every kind of codec, encoders that suspend, end early or never end",
  "Tests use the one-shot calls on a few whole items; none on left-over, missing or endless bytes.",
  ["src/decode.rs", "src/encode.rs", "src/io.rs", "src/bytes.rs", "src/tuple.rs", "src/combinator.rs"],
  [("DecodeExt::decode_from_bytes", "src/decode.rs"), ("EncodeExt::encode_into_bytes", "src/encode.rs")],
  "slices of up to one item and one byte, items of up to 12 bytes (mocks: 300 and 4200), all wrappers of the catalogues.",
  "All values within the bounds, over the real Vec and slice I/O.", retry_for={"large": 4300})
