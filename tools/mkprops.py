#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
      observe_at=observe,hook_needed=hook)))
DEC="src/codec/decode.rs"; ENC="src/codec/encode.rs"; DEF="src/protocol/definitions.rs"; PM="src/protocol/mod.rs"
IO="src/io.rs"; FR="src/framing.rs"; TY="src/types/mod.rs"; VA="src/types/variant.rs"; SY="src/types/symbol.rs"
IN="src/message/inmessage.rs"; OUT="src/message/outmessage.rs"; BODY="src/message/body.rs"; CM="src/codec/mod.rs"

p("C01","Primitive values survive encode then decode",
 "Every value of every supported AMQP primitive type (boolean, the eight integer types, float, double, char, millisecond timestamp, uuid, binary, string, symbol), when encoded and decoded again as that type, comes back as the identical value (floats bit for bit) with the whole encoding consumed. The same holds when it is encoded and decoded as a dynamically typed value, which must also keep its AMQP type, and for optional values including absence.",
 ["inputs"],"all values of each primitive type; binary/string/symbol of any length (tested up to some MiB) and any content",
 "The tests decode two or three literals per type; encodings switch form at value and length boundaries (0, 127/128, 255/256, sign) that only a universally quantified check reaches.",
 [DEC,ENC,VA],[("per-type encode/decode implementations","src/codec/encode.rs, src/codec/decode.rs"),("dynamic dispatch on format code","DecodeFormatted for Variant")],
 ["Encode::encode output","Decode::decode result and remainder"])
p("C02","Containers and nested values survive encode then decode",
 "Every list, map, described value, homogeneous array and multiple-symbol value built from supported values and nested up to at least 64 levels, when encoded and decoded again, comes back equal: same elements, same order for lists, arrays and ordered maps, same key/value association for maps, same descriptors. The whole encoding is consumed, whatever the element count and total size, including at the switch between one-byte and four-byte size fields.",
 ["inputs"],"all value trees of lists, maps, arrays, described values over all primitive types, all content sizes around 0..600 and 64 KiB, all counts",
 "No test encodes a list, a map, a described value or an array of more than a few symbols; size-field switch-over needs content of exact lengths.",
 [DEC,ENC,VA,TY],[("compound header read/write","decode_compound8/32, Encode for List/HashMap/VecVariantMap/Vec/Multiple/Variant")],
 ["Encode::encode output","Decode::decode result"])
p("C03","Announced encoded size equals the bytes written",
 "For every value the library can encode (primitives, containers, every protocol composite and enumeration, sections, messages, transfer bodies, AMQP and SASL frames) the announced encoded size is exactly the number of bytes encoding appends. Encoding into a buffer with exactly that much free room succeeds, and bytes already in the buffer are left untouched.",
 ["inputs"],"all encodable values, all buffer states with at least the announced room",
 "Tests only assert round trips with slack in the buffer; frame and section length prefixes are computed from the announced size, so a mismatch corrupts the stream only for particular contents.",
 [ENC,DEF,PM,IN,OUT,BODY],[("encoded_size implementations","every Encode impl"),("size used as frame length","Encode for AmqpFrame/SaslFrame"),("size used as nested binary length","Encode for MessageBody")],
 ["Encode::encoded_size","length and prefix of the buffer after Encode::encode"])
p("C04","Encoded values are well-formed AMQP 1.0",
 "Every byte sequence produced by encoding a primitive, list, map, array, multiple or described value is a legal AMQP 1.0 encoding: a constructor valid for the value's type, big-endian payload, and size and count fields that agree exactly with the contents. An independent AMQP 1.0 decoder reads it as the same value and ends exactly at its last byte.",
 ["inputs"],"all encodable primitive and container values",
 "Tests only read back with the library's own decoder, so a matching pair of errors (e.g. swapped byte order or wrong format code on both sides) passes.",
 [ENC,CM,VA],[("format codes","src/codec/mod.rs FORMATCODE_*"),("encoders","src/codec/encode.rs")],
 ["bytes produced by Encode::encode"])
p("C05","Every legal encoding of a supported type is accepted",
 "Decoding accepts every encoding form AMQP 1.0 permits for a supported type - zero/small/full-width integers, true/false codes or explicit boolean, 8- or 32-bit sized binary, string, symbol, list, map and array, the empty-list code, array elements in any constructor width, numeric or symbolic descriptors in any width - at every nesting level, typed or dynamically typed. All forms of one value decode to that same value, and a constructor of a different type is refused with an error.",
 ["inputs"],"all values in all permitted encodings; arrays as typed arrays or multiple-symbol values (dynamic values exclude arrays and decimals)",
 "Tests decode only what the library's own encoder emits, which is a single form per value; peers are free to use any.",
 [DEC,CM],[("format-code match arms","DecodeFormatted impls in src/codec/decode.rs")],
 ["Decode::decode result for independently encoded bytes"])
p("C06","Composite types decode field by field as specified",
 "For every protocol composite (performatives, SASL bodies, source, target, header, properties, error, delivery states) decoding an independently encoded instance puts each wire field, by position, into the field and accessor of that name; a null or omitted field with a default yields the AMQP default and otherwise absence. Numeric and symbolic descriptors are equivalent, fields beyond the known ones are ignored, and an omitted mandatory field, a wrong descriptor or a field of the wrong type is an error, never a fabricated value.",
 ["inputs"],"all composite types, all field combinations, all omission/null patterns, both descriptor kinds, all list forms",
 "Only Disposition, SaslMechanisms, Header and Properties are decoded by any test, each with one literal; there are 28 composites with about 150 fields.",
 [DEF,PM,"codegen/definitions.rs","codegen/specification.json"],[("generated decode_*_inner","src/protocol/definitions.rs"),("descriptor dispatch","Frame/SaslFrameBody/DeliveryState/Outcome/Section decode")],
 ["Decode::decode result, public fields and accessor methods"])
p("C07","Composite types encode to the standard layout and round-trip",
 "Encoding any protocol composite - alone, as a frame performative, SASL body, delivery state, outcome, section or nested field - produces a described list carrying that type's AMQP descriptor code with every field at its standard position and of its standard type, as an independent decoder confirms. Decoding those bytes with the library yields an equal composite, whatever the total size of its fields.",
 ["inputs"],"all values of all composite types including field contents that push the list across the one-byte size limit",
 "Only three composites are ever encoded by tests and never with large or all-fields-present contents.",
 [DEF,PM],[("generated encode_*_inner","src/protocol/definitions.rs")],
 ["bytes from Encode::encode","Decode::decode of them"])
p("C08","Decoding arbitrary bytes never panics, aborts or hangs",
 "For any byte sequence whatsoever every public decoding entry point (frame and protocol-header codecs, AMQP and SASL frames, messages, sections, composites, enumerations, dynamic values, containers and primitives) returns either a value or an error: it never panics, overflows, aborts, exhausts the stack or loops forever. This holds both with and without arithmetic overflow checks compiled in.",
 ["inputs","configurations"],"all byte strings; debug (overflow-checked) and release builds; input delivered whole or in pieces. Excluded: bare homogeneous arrays of zero-width elements decoded as a bare array, where the count itself is the data",
 "Tests decode only well-formed input; hostile sizes, counts, offsets, nesting and values are not exercised.",
 [DEC,DEF,IO,PM,IN,OUT],[("length checks","decode_check_len!, be_read!"),("frame header checks","decode_frame_header, AmqpCodec::decode")],
 ["process outcome of each decode call"])
p("C09","Decoding cost is bounded by the input, not by its claims",
 "While decoding an AMQP frame, SASL frame, message, section, composite or dynamic value the memory allocated never exceeds a small multiple of the bytes actually supplied (4 KiB per input byte plus 16 MiB), whatever sizes and counts the input claims. Nesting deeper than the supported depth is refused with an error within a 2 MiB stack, and having refused such inputs, however many, does not affect later decodes.",
 ["inputs","histories"],"all byte strings; all sequences of hostile then well-formed inputs",
 "Tests contain no hostile counts, no nesting and no sequence of failing decodes.",
 [DEC,IO],[("bounded preallocation and nesting limit","src/codec/decode.rs"),("frame buffer growth","AmqpCodec::decode reserve")],
 ["allocator high-water mark and largest request during decode","process survival"])
p("C10","Decoding consumes exactly one value; truncation is an error",
 "Decoding a self-delimiting value followed by arbitrary further bytes yields the same value as decoding it alone and returns exactly those further bytes, untouched, as the remainder. Decoding any strict prefix of a value's encoding is an error, never a shorter or different value. A message or frame decode, which by definition extends to the end of its input, leaves an empty remainder.",
 ["inputs"],"all values of all types, all permitted encodings, all trailing bytes, all cut positions",
 "Tests always decode a buffer holding exactly one complete value.",
 [DEC,DEF,IN,OUT],[("remainder threading","Decode trait contract (input, value)"),("split_at(size) in composites","src/protocol/definitions.rs")],
 ["remainder returned by Decode::decode, compared with the tail"])
p("C11","Frame decoding does not depend on how the stream is cut",
 "Feeding the byte stream of any sequence of valid frames to the frame codec in any pieces yields exactly those frames, in order, none lost, duplicated or altered, with nothing left over. Each frame is delivered as soon as its last byte has been supplied and not before; an incomplete frame yields no frame and no error.",
 ["inputs","schedules","histories"],"all frame sequences (AMQP and SASL, empty to multi-hundred-KiB frames, extended headers) and all segmentations of their byte stream, any prior buffer capacity",
 "No test drives the frame codec at all; segmentation comes from the network.",
 [IO,DEC,FR],[("two-state decoder","AmqpCodec::decode (FrameHeader/Frame(size))")],
 ["values returned by the codec after each chunk","bytes left in the buffer"],
 [dict(name="state",meaning="waiting for a header, or for the rest of a frame of known size",where="AmqpCodec.state in src/io.rs")])
p("C12","Malformed frames are refused and stay contained",
 "A frame whose size is below 8, whose data offset is below 2 or points past the frame's end, whose type byte does not match the codec, whose body is malformed or leaves bytes unparsed is reported as an error, never as a frame, never as a request for more data once complete, and never as a panic. After an error in a frame whose size field was valid, exactly that frame has been consumed, and the frames that follow decode as if it had not been there.",
 ["inputs","histories","fault_sequences"],"all malformed frame headers and bodies at any position in a stream of valid frames, in any segmentation",
 "No test feeds a malformed frame.",
 [IO,DEC],[("size, doff and type checks","AmqpCodec::decode, decode_frame_header"),("trailing byte check","AmqpCodecError::UnparsedBytesLeft")],
 ["result of each codec call","buffer contents after an error"],
 [dict(name="state",meaning="decoder state across an error",where="AmqpCodec.state in src/io.rs")])
p("C13","Emitted frames are well-formed, complete and in order",
 "Encoding a sequence of frames through the frame codec appends, after whatever the buffer already holds, one well-formed frame each: size field equal to the frame's true length, data offset 2, the frame type (0 AMQP, 1 SASL), the frame's channel in network order (0 for SASL) and then the performative and payload. An independent parser splits the output into exactly the frames given, in order, and the library decodes them back equal, for any buffer capacity or prior content.",
 ["inputs","histories"],"all sequences of AMQP and SASL frames, every channel number, payloads of any size, any state of the output buffer",
 "Two frames are encoded by tests, with their size field explicitly skipped; the codec's encode path is never driven.",
 [IO,ENC,FR],[("frame header writer","Encode for AmqpFrame/SaslFrame"),("buffer reservation","AmqpCodec::encode")],
 ["bytes appended to the output buffer"])
p("C14","Protocol headers are exchanged exactly",
 "The protocol-header codec emits exactly the 8 bytes 'AMQP', protocol id (0 plain, 2 TLS, 3 SASL), 1, 0, 0, and decoding returns that protocol once 8 bytes are available, in any segmentation, consuming exactly those 8 bytes so that the frames behind them remain intact. Fewer than 8 bytes yield nothing and consume nothing; any other prefix, version or protocol id is refused with an error.",
 ["inputs","schedules"],"all 8-byte headers, all segmentations, any following bytes",
 "The protocol header codec has no test.",
 [IO,PM],[("ProtocolIdCodec","src/io.rs")],
 ["codec result and bytes left in the buffer"])
p("C15","Messages survive encode then decode, section by section",
 "Decoding an independently encoded message, incoming or outgoing flavour, exposes its header, properties, application properties and body unchanged; encoding it again emits every section present, including annotations and footer, once, in the standard order header, delivery annotations, message annotations, properties, application properties, body, footer, with equal contents. A message without a body is emitted with one empty data section.",
 ["inputs"],"all subsets of sections, all section contents, data/sequence/value bodies, numeric and symbolic section descriptors, any permitted encoding form",
 "Tests set one section at a time on an otherwise empty message and never see annotations, footers, sequences or values.",
 [IN,OUT,BODY,DEF],[("section loop","Decode for InMessage/OutMessage"),("section writer","Encode for InMessage/OutMessage/MessageBody")],
 ["getters, re-encoded bytes read by an independent decoder"])
p("C16","Message builders and size stay coherent over any history",
 "After any sequence of builder operations (set header, properties, application property, body, value, conditional and closure updates), interleaved in any way with size queries, encoding, cloning and comparison, a message's getters and its encoding reflect exactly the operations applied, and its announced size equals the bytes it encodes to. Size queries never change what a message equals, and a reply message carries the original's message id as its correlation id.",
 ["histories"],"all sequences of builder calls, size queries, encodes, clones on incoming and outgoing messages",
 "Each test applies one builder call and queries the size once; the cached size needs a mutate-after-query history.",
 [IN,OUT],[("cached size invalidation","size: Cell<usize> in InMessage/OutMessage")],
 ["encoded_size, encode, getters, =="],
 [dict(name="size",meaning="cached encoded size, 0 when unknown",where="InMessage.size / OutMessage.size")])
p("C17","Payloads and embedded messages arrive byte for byte",
 "A transfer's payload, given as raw bytes or as a message, arrives after encoding and decoding of the frame as exactly the bytes of that payload, and decoding them as a message gives the original message. Several data sections, sequences and embedded (batched) messages keep their number, order and exact bytes, and each embedded message decodes back to the message put in, at any size.",
 ["inputs"],"all payload sizes and contents, batches of any length, nested batches, messages with any sections",
 "One test batches two tiny messages; no test sends a transfer with a payload.",
 [DEF,PM,BODY,IN,OUT],[("transfer body handling","decode/encode_transfer_inner"),("nested message encoding","Encode for MessageBody, TransferBody")],
 ["decoded Transfer body, message body data sections"])
p("C18","Decoded text is always valid text",
 "Every string, symbol and map key exposed by a successful decode is valid UTF-8 with exactly the bytes on the wire, and every char is a Unicode scalar value; wire data that is not valid is refused with an error wherever it appears (top level, array element, map key or value, composite field, annotations, error condition). All valid UTF-8 in strings, all ASCII in symbols and all Unicode scalar values are accepted.",
 ["inputs"],"all byte sequences as string/symbol content in every position and width; all 32-bit char codes",
 "Tests only use ASCII literals and one char.",
 [DEC,TY,SY],[("from_utf8 / char::from_u32 checks","src/codec/decode.rs")],
 ["bytes of decoded strings, errors"])
p("C19","Equality, hashing and ordering of values are lawful",
 "Strings and symbols compare, hash and order by their text alone, however they are stored (owned or static), so a map keyed by them finds an entry by plain text exactly when the text is equal. For dynamically typed values, including lists, maps and described values, equality is an equivalence, equal values hash equally under any hasher, equality of maps ignores insertion order, and every value - maps included - can be used as a map key.",
 ["inputs","histories"],"all pairs and triples of strings, symbols and dynamic values in all representations",
 "Tests compare a handful of equal/unequal literals and never hash or order.",
 [TY,SY,VA],[("manual Hash/PartialEq/Borrow impls","src/types/mod.rs, symbol.rs, variant.rs")],
 ["==, hash, cmp, map lookups"])
p("C20","Restricted values map one-to-one to their wire values",
 "Each enumerated value (role, settle modes, SASL code, terminus durability and expiry policy, and the AMQP, connection, session and link error conditions, distribution modes) is emitted as exactly its AMQP wire value and that wire value, in any permitted encoding, decodes to it alone. Any other wire value is refused for closed enumerations and preserved verbatim as a custom symbol for error conditions and distribution modes.",
 ["inputs"],"all enumeration members, all 8-bit and 32-bit codes, all symbols including near misses",
 "No test covers any enumeration.",
 [DEF,PM],[("try_from and Encode of enums","src/protocol/definitions.rs"),("ErrorCondition, DistributionMode","src/protocol/mod.rs")],
 ["encoded bytes, decode result"])
p("C21","Regenerating the protocol definitions preserves behaviour",
 "Running the crate's own code generator on its specification yields protocol definitions that compile and behave like the shipped ones: for all inputs, decoding gives the same accepted values and refusals and encoding gives the same bytes. The generated code conforms to AMQP 1.0 in the same way.",
 ["programs","configurations"],"the generator's output for the shipped specification, compared over all composites, enumerations, sections and hostile inputs",
 "The generator is behind an optional feature that neither the build nor the tests compile.",
 ["codegen/mod.rs","codegen/definitions.rs","codegen/specification.json","build.rs",DEF],[("handlebars template + spec parser","codegen/")],
 ["behaviour transcript of a build with regenerated definitions vs the shipped build"])
p("C22","Timestamps denote the exact millisecond",
 "Decoding a timestamp yields exactly the instant that many milliseconds after (or, if negative, before) the Unix epoch, for every 64-bit count the date type can represent, before and after 1970 and at whole and fractional seconds alike; counts it cannot represent are refused with an error. Encoding emits that millisecond count, so decode and encode are inverse and order-preserving.",
 ["inputs"],"all 64-bit millisecond counts, all representable instants, typed, dynamic and as message property fields",
 "Two instants are tested, neither near the epoch, at a whole second before it, or at the range limits.",
 [DEC,ENC],[("datetime_from_millis","src/codec/decode.rs"),("ArrayEncode for DateTime<Utc>","src/codec/encode.rs")],
 ["decoded DateTime, encoded bytes"])
p("C23","Whatever is accepted can be re-encoded without change",
 "For any byte sequence a decoder accepts - well-formed, unusual or corrupted - encoding the resulting value succeeds, has the announced size, and decoding that encoding gives an equal value again; encoding that value yields a byte string of the same length. This holds for frames, SASL frames, messages, sections, composites and dynamic values.",
 ["inputs"],"all byte strings accepted by each decoder",
 "Tests only re-encode two captured frames.",
 [DEC,ENC,DEF,PM,IN,OUT,VA],[("symmetry of Encode and Decode impls","all codec impls")],
 ["decode . encode . decode"])
p("C24","Declared sizes delimit containers",
 "When decoding a list, map, array or composite, its elements are read only from the bytes its size field declares and the next value starts right after them: elements that would extend past the declared end, a size smaller than its own count field or larger than the available bytes, and counts that the declared bytes cannot hold are refused with an error (for a composite, as far as its known fields go). Bytes after the declared end are never absorbed into the container, at any nesting level.",
 ["inputs"],"all size/count combinations against contents, at each nesting level, for every container kind and width",
 "Tests contain only consistent sizes.",
 [DEC,DEF],[("compound header checks","decode_compound8/32, decode_list_header/map_header"),("element loops","List, Vec, HashMap, VecVariantMap, decode_*_inner")],
 ["decode result and remainder of inputs with tampered size/count fields"])
p("C25","No memory error, and decoded data is independent of the buffer",
 "Under an address sanitizer, encoding and decoding of any valid, hostile or segmented input performs no invalid, out-of-bounds or use-after-free access and leaks nothing. Values obtained by decoding stay intact when the input buffer is overwritten, reused or freed, and encoding the same value twice gives the same bytes.",
 ["inputs","histories"],"the mixed workloads of the other properties, run in an instrumented build, with buffers overwritten and freed between decode and inspection",
 "The test suite runs uninstrumented on well-formed input.",
 [DEC,ENC,IO,TY,BODY],[("owned copies of input bytes","Bytes::from(&[u8]) / from_str in src/codec/decode.rs"),("buffer splitting","src/io.rs")],
 ["sanitizer reports","values re-read after the buffer was destroyed"])
p("C26","Codec instances and threads do not influence each other",
 "Running any number of codecs, decoders and encoders interleaved in any order, on one thread or several, gives for each stream exactly the results it gives when run alone, including after other streams met errors. Repeating an operation on the same input gives the same result, and codecs, values, frames and messages may be made on one thread and used, cloned and dropped on others.",
 ["schedules","histories"],"all interleavings of several streams of valid and malformed frames over several codec instances and threads",
 "The tests use one value at a time; hidden shared state would only show across instances.",
 [IO,DEC,IN,OUT],[("per-instance decoder state","AmqpCodec.state"),("no global mutable state","whole crate")],
 ["per-stream results compared with isolated runs"])
p("C27","Public constructors, conversions and accessors keep the value",
 "Every public conversion into and out of the crate's types keeps the value: a dynamic value, message id, text, symbol, error condition, frame body, SASL frame or transfer body made from a plain value is the variant for that type holding exactly that value, and accessors, getters, iteration, splitting and borrowing give back exactly what was put in. Text gives the same characters, length and bytes whether borrowed as text, bytes or shared text and however stored, and a value built by any route encodes to the same bytes. The SASL PLAIN response is authz id, authn id and password joined by single zero bytes.",
 ["inputs"],"all values through every public conversion and accessor, with each way of storing text",
 "Tests call a handful of conversions on one value each.",
 [TY,VA,SY,PM,OUT,IN,DEF],[("From impls and accessors","src/types/*.rs, src/protocol/mod.rs"),("PLAIN response","SaslInit::prepare_response in src/protocol")],
 ["value obtained through each conversion compared with the plain value it was made from"])
p("C28","Composites, frames and messages are equal exactly when their contents are",
 "Two composites, restricted values, delivery states, frames, messages or transfer payloads of the same type compare equal exactly when every field, section, channel, payload and message format they carry is equal, whether they were constructed, cloned, decoded from any legal encoding or put together by a builder. Map entry order does not matter, the order of sections and list elements does, and != is always the opposite of ==.",
 ["inputs"],"all pairs of composites, frames and messages with equal, nearly equal and different contents, from every source",
 "Tests compare a value only with the one it was decoded from, so an equality that ignores a field passes them.",
 [DEF,PM,IN,OUT,BODY,FR],[("derived and manual PartialEq","src/protocol/definitions.rs, src/message/*.rs")],
 ["== and != on every pair of a family of values"])
p("C29","A refusal names the fault and carries the offending item",
 "Bytes that would be a legal encoding but for one fault, anywhere in a value, composite, message or frame, are refused with the error of that fault and its item: InvalidFormatCode with the constructor, InvalidChar, InvalidTimestamp and UnexpectedFrameType with the number, InvalidDescriptor with the descriptor, RequiredFieldOmitted with the first missing mandatory field, UnknownEnumOption with the type, Utf8Error with the position, InvalidSize for a size smaller than what it must cover, NestingTooDeep, UnparsedBytesLeft. A beginning of a legal encoding that is not complete in itself is refused as Incomplete, and a protocol header as InvalidHeader, Incompatible or Unknown. Through the frame codec the same error arrives as ParseError, and clones and error texts keep fault and item.",
 ["inputs"],"one fault of every kind at every kind of place in random values, composites, messages and frames",
 "Tests only check that some bad inputs fail; peers and logs rely on which error it is (Incomplete means wait, the others mean close), and there is one place per type and field where it can be wrong.",
 [DEC,DEF,IO,"src/errors.rs",PM],[("validate_code!, decode_check_len!, per-field and per-descriptor errors","src/codec/decode.rs, src/protocol/definitions.rs, codegen/")],
 ["the error of every refused input, by variant and payload","clones, conversions and texts of the errors"])
p("C30","Whole connections arrive as they were sent, and broken ones are told apart",
 "Two ends that talk through this library's codecs over one byte stream each way - protocol headers, SASL frames, a protocol header again, AMQP frames, the codec being changed at each step while unread and unwritten bytes are carried over - each see exactly the other's items, once, in order, with their content, whether the transport is tokio's Framed or buffers handled by hand, and however the bytes are cut, delayed or interleaved; a refused frame costs only itself; messages spread over several transfers on interleaved links come together to the message sent. A stream that ends inside an item, at any byte, is reported as an error after everything before it was delivered, and one that ends behind an item is a clean end.",
 ["inputs","schedules","histories","fault_sequences"],"random conversations between two ends, transport behaviour, and the byte at which a stream ends",
 "The README's purpose is client and broker connections; the repository has no test with a transport, a second end, a codec change or an end of stream.",
 [IO,FR,PM,DEC,ENC],[("AmqpCodec, ProtocolIdCodec as Decoder/Encoder incl. decode_eof","src/io.rs"),("TransferBody","src/protocol/mod.rs")],
 ["items received at both ends, and when","the bytes on the wire","how the end of the stream is reported"])
p("C31","The generator implements whatever specification it is given",
 "For every specification written in the forms of the shipped one - described composites with mandatory, optional, default-valued and multiple fields of every kind used there, enumerations over each primitive source, aliases, described values, groups of types that provide the same thing, in any number and order - the crate's generator produces code that compiles and whose types obey that specification as the shipped types obey AMQP: field order, names, accessors and defaults, numeric and symbolic descriptors, one wire value per enumeration choice, a group decoding exactly its members, sizes announced exactly, everything else refused with an error. Types that were there before are unaffected.",
 ["programs","configurations","inputs"],"specifications extended by random types in the shipped forms (one-byte descriptor codes in domain 0), and all values and encodings of the types they generate",
 "No test runs the generator, and the shipped specification exercises only some combinations of what the generator accepts.",
 ["codegen/mod.rs","codegen/definitions.rs","build.rs",DEF],[("specification parser and name conversion","codegen/mod.rs"),("handlebars template","codegen/definitions.rs")],
 ["whether the generated code compiles and offers the declared items","values, refusals, encodings and sizes of the generated types"])
p("C32","Printing values and errors is total, harmless and shows what they hold",
 "Formatting any value the library decodes or builds - text, dynamic values, containers, composites, restricted values, messages, frames - and any error it returns, with Debug in plain or pretty form or with Display where offered, succeeds for every content, length and accepted nesting depth, never panics, and passes on a refusal of the sink; it changes neither the value, its sizes nor its encoding. The text shows all of it: every text, binary, number, date and element in full, every field of a composite by name, both forms saying the same, and values of one type with different contents print differently (NaN payloads aside). The text of an error carries its item, and different faults read differently.",
 ["inputs","histories"],"all printable types, contents of every length with characters of every width at every offset, nesting up to the decoding limit, corrupted inputs",
 "Logs of frames and errors are what operators work from, and a panic in formatting takes a connection down; no test prints anything but short ASCII on failure.",
 ["src/types/mod.rs","src/types/symbol.rs","src/errors.rs",PM,DEF,BODY],[("manual and derived Debug and Display","src/types/mod.rs, src/errors.rs, src/protocol/mod.rs")],
 ["the text printed, in each form","value, size and encoding before and after"])
p("C33","The work grows in proportion to the data",
 "Encoding, decoding, sizing, comparing, cloning and hashing values, building messages, and framing streams take processor time and memory traffic in proportion to the data handled: n times as many elements, sections, frames, waiting bytes or characters take about n times as much, whether the data is accepted or refused, written or taken at once or in small pieces. Work on what came before or waits behind is not repeated for each element, frame or arriving piece, and nesting does not multiply it (at most polynomial in the depth). Keys that collide when hashed are excepted.",
 ["inputs","histories"],"lists, maps, arrays, texts, binaries, messages, batches, composites and frame streams of up to several hundred thousand elements, in all variants of content and granularity",
 "One peer's large frame or long burst must not stall the others; tests use a handful of elements, where quadratic work cannot be seen.",
 ["src/codec/encode.rs","src/codec/decode.rs","src/io.rs",BODY,OM if "OM" in globals() else "src/message/outmessage.rs"],[("framing buffers","src/io.rs"),("size computation at each level","src/codec/encode.rs")],
 ["thread processor time per call, least of several","bytes asked from the allocator per call"])
p("C34","Long-lived connections hold bounded memory",
 "However many frames, headers, messages, values and errors pass through it, a codec, decoder, encoder, message or thread holds memory in proportion to what is in transit or still held: its buffers stay within a small multiple of the largest frame and the backlog plus a constant, and nothing accumulates from frame to frame, however the contents differ, arrive in pieces, are taken or are refused. Dropping values, buffers and codecs gives their memory back, and a message that is changed all the time holds what it would encode, not what was set before. A part kept of a decoded value or frame does not keep the rest in memory.",
 ["inputs","histories"],"histories of up to tens of thousands of turns with contents that never repeat, in all patterns of arrival and draining, valid or refused; parts kept of decoded values of all kinds",
 "A broker's connection lives for months; tests handle one frame and end, so memory that is held per frame, per distinct text or per error cannot be seen.",
 [IO,DEC,ENC,TS if "TS" in globals() else "src/types/symbol.rs","src/message/outmessage.rs","src/message/inmessage.rs"],[("buffer reservation and splitting","src/io.rs"),("owned copies of input bytes","src/codec/decode.rs")],
 ["bytes live on the heap after every turn and between pieces","bytes live with nothing in transit, at doubling numbers of turns"])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80, x["id"]
    assert x["statement"].count(". ")<=2, (x["id"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
