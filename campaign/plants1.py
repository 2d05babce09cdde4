P = []
D, E, IO, IN, OUT, BODY = ("src/codec/decode.rs", "src/codec/encode.rs", "src/io.rs", "src/message/inmessage.rs",
                           "src/message/outmessage.rs", "src/message/body.rs")
T, SY, V, PM, PD, FR = ("src/types/mod.rs", "src/types/symbol.rs", "src/types/variant.rs", "src/protocol/mod.rs",
                        "src/protocol/definitions.rs", "src/framing.rs")


def p(id, prop, edits, needs, breaks, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


p("c01-long-small-form", "C01",
  [(E, "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {\n            9", "if *self > i64::from(u8::MAX) || *self < i64::from(i8::MIN) {\n            9"),
   (E, "if *self > i64::from(i8::MAX) || *self < i64::from(i8::MIN) {\n            buf", "if *self > i64::from(u8::MAX) || *self < i64::from(i8::MIN) {\n            buf")],
  "an i64 between 128 and 255", "such longs are written in the one-byte form and come back negative",
  "fn main() { for v in [127i64, 128, 200, 255, 256, -128, -129] { assert_eq!(dec::<i64>(&enc(&v)), v); } }")

p("c01-nan-payload", "C01",
  [(E, "buf.put_f32_be(*self);", "buf.put_f32_be(if self.is_nan() { ::std::f32::NAN } else { *self });")],
  "a float NaN with a payload or sign", "NaN payload bits are lost",
  "fn main() { for b in [0x7fc0_0001u32, 0xffc0_0000, 0x7f80_0000] { assert_eq!(dec::<f32>(&enc(&f32::from_bits(b))).to_bits(), b); } }")

p("c02-map-size-boundary", "C02",
  [(E, "if size + 1 > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_MAP32);", "if size > u8::MAX as usize {\n            buf.put_u8(codec::FORMATCODE_MAP32);"),
   (E, "let preamble = if size + 1 > u8::MAX as usize { 9 } else { 3 };", "let preamble = if size > u8::MAX as usize { 9 } else { 3 };")],
  "a hash map whose entries take exactly 255 bytes", "the one-byte map size wraps to 0 and the map cannot be read back",
  """
fn main() {
    for n in 200..270usize {
        let mut m = hashbrown::HashMap::new();
        m.insert(Variant::Ubyte(1), Variant::Binary(Bytes::from(vec![7u8; n])));
        let v = Variant::Map(VariantMap::new(m));
        assert_eq!(dec::<Variant>(&enc(&v)), v, "{}", n);
    }
}""")

p("c02-list-count-16", "C02",
  [(E, "buf.put_u32_be(self.len() as u32);\n        } else {\n            buf.put_u8(codec::FORMATCODE_LIST8);", "buf.put_u32_be(u32::from(self.len() as u16));\n        } else {\n            buf.put_u8(codec::FORMATCODE_LIST8);")],
  "a list of more than 65535 elements", "the element count is truncated to 16 bits and elements are lost",
  "fn main() { for n in [300usize, 65535, 65536, 70001] { let v = List(vec![Variant::Null; n]); assert_eq!(dec::<List>(&enc(&v)).0.len(), n); } }")

p("c02-empty-multiple-null", "C02",
  [(E, "            self.0[0].encoded_size()\n        } else {", "            self.0[0].encoded_size()\n        } else if count == 0 {\n            1\n        } else {"),
   (E, "        let count = self.0.len();\n        if count == 1 {\n            // special case: single item is encoded without array encoding\n            self.0[0].encode(buf)\n        } else {",
    "        let count = self.len();\n        if count == 0 {\n            encode_null(buf)\n        } else if count == 1 {\n            // special case: single item is encoded without array encoding\n            self.0[0].encode(buf)\n        } else {")],
  "a multiple field holding zero values", "an empty multiple value is written as null and reads back as absent or is refused",
  "fn main() { let v: Option<Multiple<Symbol>> = Some(Multiple(vec![])); assert_eq!(dec::<Option<Multiple<Symbol>>>(&enc(&v)), v); }")

p("c03-static-str-len", "C03",
  [(T, "Str::Static(s) => s.len(),", "Str::Static(s) => s.chars().count(),")],
  "a static string or symbol with non-ASCII text", "the announced size counts characters instead of bytes",
  "fn main() { for s in [\"abc\", \"gr\\u{fc}n\", \"\\u{1f600}\"] { let v = Variant::from(s); assert_eq!(enc(&v).len(), v.encoded_size()); } }")

p("c03-ordered-map-size", "C03",
  [(E, "let preamble = if size + 1 > u8::MAX as usize { 9 } else { 3 };", "let preamble = if size > u8::MAX as usize { 9 } else { 3 };", 2)],
  "an ordered map whose entries take exactly 255 bytes", "the announced size is 6 bytes short of what is written",
  """
fn main() {
    for n in 200..270usize {
        let m = VecVariantMap(vec![(Str::from("k"), Variant::Binary(Bytes::from(vec![7u8; n])))]);
        assert_eq!(enc(&m).len(), m.encoded_size(), "{}", n);
    }
}""")

p("c04-array-true", "C04",
  [(E, "buf.put_u8(if *self { 1 } else { 0 });", "buf.put_u8(if *self { 0xff } else { 0 });")],
  "an array of booleans holding true", "array elements of type boolean are written as 0xff, which is no AMQP boolean",
  "fn main() { let b = enc(&vec![true, false, true]); assert_eq!(b, [0xe0, 5, 3, 0x56, 1, 0, 1]); }")

p("c04-array-binary-length", "C04",
  [(E, "    fn array_encode(&self, buf: &mut BytesMut) {\n        buf.put_u32_be(self.len() as u32);\n        buf.put_slice(&self);", "    fn array_encode(&self, buf: &mut BytesMut) {\n        buf.put_u32_be(u32::from(self.len() as u16));\n        buf.put_slice(&self);")],
  "an array of binaries one of which is longer than 65535 bytes", "the element's length field disagrees with its contents",
  """
fn main() {
    let b = enc(&vec![Bytes::from(vec![1u8; 65_537]), Bytes::from(vec![2u8; 3])]);
    assert_eq!(b[0], 0xf0);
    assert_eq!(&b[9..14], &[0xb0, 0, 1, 0, 1]);
}""")

p("c05-wide-descriptor", "C05",
  [(D, "            codec::FORMATCODE_ULONG => {\n                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o)))", "            codec::FORMATCODE_ULONG => {\n                u64::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Ulong(o & 0xffff_ffff)))")],
  "a described value with a vendor descriptor above 2^32", "the descriptor's domain half is dropped",
  """
fn main() {
    let v: Variant = dec(&[0, 0x80, 0, 0, 0x46, 0x8c, 0, 0, 0, 4, 0x41]);
    assert_eq!(v, Variant::Described((Descriptor::Ulong(0x0000_468c_0000_0004), Box::new(Variant::Boolean(true)))));
}""")

p("c05-sym32-descriptor", "C05",
  [(D, "            codec::FORMATCODE_SYMBOL32 => {\n                Symbol::decode_with_format(input, fmt).map(|(i, o)| (i, Descriptor::Symbol(o)))\n            }\n", "")],
  "a symbolic descriptor sent in the four-byte-length form", "a legal descriptor encoding is refused",
  "fn main() { let mut b = vec![0, 0xb3, 0, 0, 0, 13]; b.extend_from_slice(b\"amqp:end:list\"); b.push(0x45); assert_eq!(dec::<Frame>(&b), Frame::End(End { error: None })); }")

p("c05-empty-list-null", "C05",
  [(D, "codec::FORMATCODE_LIST0 => Ok((input, Variant::List(List(vec![])))),", "codec::FORMATCODE_LIST0 => Ok((input, Variant::Null)),")],
  "an empty list sent as list0 inside a dynamic value", "the empty list reads as null",
  "fn main() { assert_eq!(dec::<Variant>(&[0x45]), Variant::List(List(vec![]))); assert_eq!(dec::<Variant>(&[0xc0, 1, 0]), Variant::List(List(vec![]))); }")

p("c06-aborted-default", "C06",
  [(PD, "aborted = decoded.unwrap_or(false);", "aborted = decoded.unwrap_or(more);")],
  "a transfer with more=true and aborted present but null", "a null aborted field reads as true",
  """
fn main() {
    let f: Frame = dec(&[0, 0x53, 0x14, 0xc0, 12, 11, 0x43, 0x40, 0x40, 0x40, 0x40, 0x41, 0x40, 0x40, 0x40, 0x40, 0x40]);
    match f { Frame::Transfer(t) => { assert!(t.more()); assert!(!t.aborted()); } _ => panic!() }
}""")

p("c06-handle-max-zero", "C06",
  [(PD, "handle_max = decoded.unwrap_or(4294967295);", "handle_max = decoded.filter(|v| *v != 0).unwrap_or(4294967295);")],
  "a begin that limits the session to the single handle 0", "an explicit handle-max of zero reads as the default",
  """
fn main() {
    let f: Frame = dec(&[0, 0x53, 0x11, 0xc0, 6, 5, 0x40, 0x43, 0x43, 0x43, 0x43]);
    match f { Frame::Begin(b) => assert_eq!(b.handle_max(), 0), _ => panic!() }
}""")

p("c07-windows-swapped", "C07",
  [(PD, "    let incoming_window: u32;\n    if count > 0 {\n        let (in1, decoded) = u32::decode(input)?;\n        incoming_window = decoded;\n        input = in1;\n        count -= 1;\n    } else {\n        return Err(AmqpParseError::RequiredFieldOmitted(\"incoming_window\"));\n    }\n    let outgoing_window: u32;\n    if count > 0 {\n        let (in1, decoded) = u32::decode(input)?;\n        outgoing_window = decoded;\n        input = in1;\n        count -= 1;\n    } else {\n        return Err(AmqpParseError::RequiredFieldOmitted(\"outgoing_window\"));\n    }\n",
    "    let outgoing_window: u32;\n    if count > 0 {\n        let (in1, decoded) = u32::decode(input)?;\n        outgoing_window = decoded;\n        input = in1;\n        count -= 1;\n    } else {\n        return Err(AmqpParseError::RequiredFieldOmitted(\"outgoing_window\"));\n    }\n    let incoming_window: u32;\n    if count > 0 {\n        let (in1, decoded) = u32::decode(input)?;\n        incoming_window = decoded;\n        input = in1;\n        count -= 1;\n    } else {\n        return Err(AmqpParseError::RequiredFieldOmitted(\"incoming_window\"));\n    }\n"),
   (PD, "    list.incoming_window.encode(buf);\n    list.outgoing_window.encode(buf);\n    list.handle_max", "    list.outgoing_window.encode(buf);\n    list.incoming_window.encode(buf);\n    list.handle_max")],
  "two cooperating sites: the encoder and the decoder of begin swap two fields of the same type", "round trips work but the windows change places on the wire",
  """
fn main() {
    let b = Begin { remote_channel: None, next_outgoing_id: 1, incoming_window: 2, outgoing_window: 3, handle_max: 4,
        offered_capabilities: None, desired_capabilities: None, properties: None };
    assert_eq!(enc(&Frame::Begin(b)), [0, 0x53, 0x11, 0xc0, 13, 8, 0x40, 0x52, 1, 0x52, 2, 0x52, 3, 0x52, 4, 0x40, 0x40, 0x40]);
}""")

p("c07-attach-size-boundary", "C07",
  [(PD, "    if content_size + 1 > u8::MAX as usize {\n        buf.put_u8(codec::FORMATCODE_LIST32);\n        buf.put_u32_be((content_size + 4) as u32); // +4 for 4 byte count\n        buf.put_u32_be(Attach::FIELD_COUNT as u32);",
    "    if content_size > u8::MAX as usize {\n        buf.put_u8(codec::FORMATCODE_LIST32);\n        buf.put_u32_be((content_size + 4) as u32); // +4 for 4 byte count\n        buf.put_u32_be(Attach::FIELD_COUNT as u32);")],
  "an attach whose fields take exactly 255 bytes", "the one-byte list size wraps to 0",
  """
fn main() {
    for n in 150..250usize {
        let a = Attach { name: ByteStr::from_str(&"n".repeat(n)), handle: 0, role: Role::Sender, snd_settle_mode: SenderSettleMode::Mixed,
            rcv_settle_mode: ReceiverSettleMode::First, source: None, target: None, unsettled: None, incomplete_unsettled: false,
            initial_delivery_count: None, max_message_size: None, offered_capabilities: None, desired_capabilities: None, properties: None };
        let f = Frame::Attach(a);
        assert_eq!(dec::<Frame>(&enc(&f)), f, "{}", n);
    }
}""")

p("c08-ext-header-check", "C08",
  [(D, "decode_check_len!(input, ext_header_len + 4);", "decode_check_len!(input, ext_header_len);")],
  "a frame whose data offset points one to four bytes past its end", "decoding panics",
  """
fn main() {
    for doff in 0..=255u8 {
        for n in 4..64usize {
            let mut b = vec![0u8; n];
            b[0] = doff;
            let r = std::panic::catch_unwind(move || AmqpFrame::decode(&b).is_ok());
            assert!(r.is_ok(), "doff {} of {} bytes panics", doff, n);
        }
    }
}""")

p("c08-uuid-check", "C08",
  [(D, "decode_check_len!(input, 16);\n        let uuid", "decode_check_len!(input, 15);\n        let uuid")],
  "a uuid cut exactly one byte short", "decoding panics",
  "fn main() { for n in 0..16usize { let mut b = vec![1u8; n + 1]; b[0] = 0x98; assert!(std::panic::catch_unwind(move || Variant::decode(&b).is_err()).unwrap_or(false), \"{}\", n); } }")

p("c08-offset-arithmetic", "C08",
  [(D, "    let ext_header_len = doff - HEADER_LEN;\n", "    let ext_header_len = usize::from((doff as u8) - (HEADER_LEN as u8));\n")],
  "a frame with a data offset of 64 or more, arithmetic checks on", "the offset is computed in eight bits and overflows",
  """
fn main() {
    for doff in 0..=255u8 {
        let mut b = vec![0u8; 1100];
        b[0] = doff;
        let want = if doff < 2 { false } else { true };
        let r = std::panic::catch_unwind(move || { let e = doff as usize * 4 - 4; let _ = e; AmqpFrame::decode(&b[..doff as usize * 4 - 4]).is_ok() });
        if doff >= 2 { assert_eq!(r.unwrap(), want, "{}", doff); }
    }
}""")

p("c09-claimed-frame-size", "C09",
  [(IO, "src.reserve(SIZE_HIGH_WM);", "src.reserve(size);")],
  "the first bytes of a frame that claims gigabytes", "memory is allocated for the claimed size",
  """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { MAX.fetch_max(n, Ordering::SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut c: AmqpCodec<AmqpFrame> = AmqpCodec::new();
    let mut b = BytesMut::from(&[0x08, 0, 0, 0, 2, 0, 0, 0][..]);
    assert!(c.decode(&mut b).unwrap().is_none());
    assert!(MAX.load(Ordering::SeqCst) < 1 << 20, "{} bytes", MAX.load(Ordering::SeqCst));
}""")

p("c10-clipped-string", "C10",
  [(D, "    let len = len as usize;\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);\n    Ok((input, bytes))\n}\n\nfn read_bytes_u32",
    "    let len = std::cmp::min(len as usize, std::cmp::max(input.len(), 128));\n    decode_check_len!(input, len);\n    let (bytes, input) = input.split_at(len);\n    Ok((input, bytes))\n}\n\nfn read_bytes_u32")],
  "a string, symbol or binary of more than 128 bytes in the one-byte form, cut after byte 128", "a truncated value is accepted as a shorter one",
  """
fn main() {
    let mut b = vec![0xa0u8, 250];
    b.extend(vec![9u8; 250]);
    for n in 0..b.len() { assert!(Bytes::decode(&b[..n]).is_err(), "accepted a prefix of {} bytes", n); }
    assert_eq!(dec::<Bytes>(&b).len(), 250);
}""")

p("c11-late-delivery", "C11",
  [(IO, "if len < size {", "if len <= size {")],
  "the buffer ending exactly at the end of a frame", "a complete frame is not delivered until more bytes arrive",
  """
fn main() {
    let mut c: AmqpCodec<AmqpFrame> = AmqpCodec::new();
    let mut b = BytesMut::from(&frame(0, 3, &[])[..]);
    assert!(c.decode(&mut b).unwrap().is_some());
}""")

p("c11-header-consumed-twice", "C11",
  [(IO, "                    self.state = DecodeState::Frame(size - 4);\n                    src.split_to(4);\n", "                    self.state = DecodeState::Frame(size - 4);\n"),
   (IO, "                        return Ok(None);\n                    }\n                }\n                DecodeState::Frame(size) => {", "                        return Ok(None);\n                    }\n                    src.split_to(4);\n                }\n                DecodeState::Frame(size) => {")],
  "a frame that arrives in two pieces with its header in the first", "the size field is not skipped when the rest of the frame is still to come",
  """
fn main() {
    let f = frame(0, 3, &[0, 0x53, 0x17, 0x45]);
    for cut in 0..f.len() {
        let mut c: AmqpCodec<AmqpFrame> = AmqpCodec::new();
        let mut b = BytesMut::from(&f[..cut]);
        assert!(c.decode(&mut b).unwrap().is_none());
        b.extend_from_slice(&f[cut..]);
        assert_eq!(c.decode(&mut b).unwrap().unwrap().channel_id(), 3);
        assert!(b.is_empty());
    }
}""")

p("c12-short-trailer", "C12",
  [(IO, "if !remainder.is_empty() {", "if remainder.len() > 2 {")],
  "a frame with one or two stray bytes behind its performative", "a malformed frame is accepted",
  """
fn main() {
    for n in 1..5usize {
        let mut body = vec![0, 0x53, 0x17, 0x45];
        body.extend(vec![0x40u8; n]);
        let mut c: AmqpCodec<AmqpFrame> = AmqpCodec::new();
        assert!(c.decode(&mut BytesMut::from(&frame(0, 0, &body)[..])).is_err(), "{} stray bytes", n);
    }
}""")

p("c12-offset-wraps", "C12",
  [(D, "let doff = doff as usize * 4;", "let doff = (doff << 2) as usize;")],
  "a data offset of 66 or more", "the data offset is computed modulo 64 and the frame is read from the wrong place",
  """
fn main() {
    let mut f = frame(0, 0, &[0, 0x53, 0x17, 0x45]);
    f[4] = 66;
    let mut c: AmqpCodec<AmqpFrame> = AmqpCodec::new();
    assert!(c.decode(&mut BytesMut::from(&f[..])).is_err());
}""")

p("c13-large-frame-room", "C13",
  [(IO, "let need = std::cmp::max(SIZE_LOW_WM, size);", "let need = SIZE_LOW_WM;")],
  "a frame larger than the free room of the write buffer", "encoding panics for want of room",
  """
fn main() {
    let t = Transfer { handle: 0, delivery_id: None, delivery_tag: None, message_format: None, settled: None, more: false, rcv_settle_mode: None,
        state: None, resume: false, aborted: false, batchable: false, body: Some(Bytes::from(vec![5u8; 40_000]).into()) };
    let mut c: AmqpCodec<AmqpFrame> = AmqpCodec::new();
    let mut b = BytesMut::with_capacity(5000);
    c.encode(AmqpFrame::new(1, Frame::Transfer(t)), &mut b).unwrap();
    assert!(b.len() > 40_000);
}""")

p("c13-channel-bits", "C13",
  [(E, "buf.put_u16_be(self.channel_id());", "buf.put_u16_be(self.channel_id() & 0x7fff);")],
  "a channel number of 32768 or more", "frames go out on another channel",
  """
fn main() {
    for ch in [0u16, 1, 255, 256, 32767, 32768, 65535] { assert_eq!(enc(&AmqpFrame::new(ch, Frame::Empty)), frame(0, ch, &[])); }
}""")

p("c14-version-revision", "C14",
  [(IO, "} else if &src[5..8] != PROTOCOL_VERSION {", "} else if &src[5..7] != &PROTOCOL_VERSION[..2] {")],
  "a protocol header of revision other than 0", "an incompatible revision is accepted",
  """
fn main() {
    for r in [0u8, 1, 255] {
        let mut b = BytesMut::from(&[b'A', b'M', b'Q', b'P', 0, 1, 0, r][..]);
        assert_eq!(ProtocolIdCodec.decode(&mut b).is_ok(), r == 0);
    }
}""")

p("c14-header-swallows", "C14",
  [(IO, "let src = src.split_to(8);", "let n = src.len();\n            let src = src.split_to(n);")],
  "frames pipelined behind the protocol header in one read", "the frames behind the header are thrown away",
  """
fn main() {
    let mut b = BytesMut::from(&[b'A', b'M', b'Q', b'P', 0, 1, 0, 0, 0, 0, 0, 8, 2, 0, 0, 0][..]);
    assert!(ProtocolIdCodec.decode(&mut b).unwrap().is_some());
    assert_eq!(&b[..], &[0, 0, 0, 8, 2, 0, 0, 0]);
}""")

p("c15-empty-footer", "C15",
  [(OUT, "if let Some(ref f) = self.footer {\n            size += f.encoded_size() + SECTION_PREFIX_LENGTH;", "if let Some(ref f) = self.footer.as_ref().filter(|f| !f.is_empty()) {\n            size += f.encoded_size() + SECTION_PREFIX_LENGTH;"),
   (OUT, "if let Some(ref f) = self.footer {\n            Descriptor::Ulong(120).encode(dst);", "if let Some(ref f) = self.footer.as_ref().filter(|f| !f.is_empty()) {\n            Descriptor::Ulong(120).encode(dst);")],
  "a message with a footer that has no entries, forwarded", "a section that was present is dropped",
  """
fn main() {
    let b = [0, 0x53, 0x75, 0xa0, 1, 7, 0, 0x53, 0x78, 0xc1, 1, 0];
    assert_eq!(enc(&dec::<OutMessage>(&b)), b);
}""")

p("c15-sequence-order", "C15",
  [(OUT, "message.body.sequence.push(val);", "message.body.sequence.insert(0, val);")],
  "an outgoing-flavour message with two or more sequence sections", "sequence sections come out in reverse order",
  """
fn main() {
    let b = [0, 0x53, 0x76, 0xc0, 2, 1, 0x41, 0, 0x53, 0x76, 0xc0, 2, 1, 0x42];
    assert_eq!(enc(&dec::<OutMessage>(&b)), b);
}""")

p("c16-stale-size", "C16",
  [(IN, "        f(&mut self.body);\n        self.size.set(0);", "        let n = self.body.data.len();\n        f(&mut self.body);\n        if n != self.body.data.len() {\n            self.size.set(0);\n        }")],
  "a size query, then a body update that keeps the number of data sections", "the announced size is that of the old body",
  """
fn main() {
    let m = InMessage::with_body(Bytes::from_static(b"a"));
    let _ = m.encoded_size();
    let m = m.set_body(|b| b.set_data(Bytes::from_static(b"abcdef")));
    assert_eq!(m.encoded_size(), enc(&m).len());
}""")

p("c16-reply-fallback", "C16",
  [(IN, "msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "msg.set_properties(|props| props.correlation_id = data.correlation_id.clone().or_else(|| data.message_id.clone()))")],
  "replying to a message that carries both a message id and a correlation id", "the reply is correlated with the wrong id",
  """
fn main() {
    let m = InMessage::default().set_properties(|p| { p.message_id = Some(1u64.into()); p.correlation_id = Some(2u64.into()); });
    assert_eq!(m.reply_message().properties().unwrap().correlation_id, Some(MessageId::Ulong(1)));
}""")

p("c17-one-byte-payload", "C17",
  [(PD, "Some(b.into())", "if b.as_ref() == [0u8] { None } else { Some(b.into()) }")],
  "a transfer whose payload is a single zero byte", "the payload disappears",
  """
fn main() {
    for p in [&[0u8][..], &[1], &[0, 0]] {
        let mut b = vec![0, 0x53, 0x14, 0xc0, 2, 1, 0x43];
        b.extend_from_slice(p);
        match dec::<Frame>(&b) { Frame::Transfer(t) => assert_eq!(t.body, Some(TransferBody::Data(Bytes::from(p)))), _ => panic!() }
    }
}""")

p("c17-batched-length", "C17",
  [(BODY, "dst.put_u32_be(length as u32);", "dst.put_u32_be(u32::from(length as u16));")],
  "a batched message longer than 65535 bytes", "the embedded message's length is truncated to 16 bits",
  """
fn main() {
    let inner = OutMessage::with_body(Bytes::from(vec![3u8; 70_000]));
    let m = OutMessage::with_messages(vec![TransferBody::from(inner.clone())]);
    let got: InMessage = dec(&enc(&m));
    assert_eq!(got.body().data().unwrap(), &Bytes::from(enc(&inner)));
}""")

p("c18-lossy-symbol", "C18",
  [(D, "Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))\n            }\n            codec::FORMATCODE_SYMBOL32", "Ok((input, Symbol::from_slice(&std::string::String::from_utf8_lossy(bytes))))\n            }\n            codec::FORMATCODE_SYMBOL32")],
  "a symbol holding bytes that are not valid text", "invalid text is replaced instead of refused",
  "fn main() { for b in [[0xa3u8, 1, 0xff], [0xa3, 1, 0x80]] { assert!(Symbol::decode(&b).is_err()); } }")

p("c18-char-mask", "C18",
  [(D, "if let Some(c) = char::from_u32(o) {", "if let Some(c) = char::from_u32(o & 0x1f_ffff) {")],
  "a char whose upper bits are set", "a number that is no character reads as another character",
  "fn main() { assert!(<char as Decode>::decode(&[0x73, 0x00, 0x20, 0x00, 0x41]).is_err()); assert_eq!(dec::<char>(&[0x73, 0, 0, 0, 0x41]), 'A'); }")

p("c19-ascii-case", "C19",
  [(T, "                t == other", "                t.eq_ignore_ascii_case(other)")],
  "comparing a decoded string with text that differs in case only", "different texts compare equal, depending on how the string is stored",
  "fn main() { let s: Str = dec(&[0xa1, 1, b'a']); assert!(s == *\"a\"); assert!(s != *\"A\"); }")

p("c19-static-hash", "C19",
  [(T, "Str::Static(s) => s.hash(state),", "Str::Static(s) => s.as_bytes().hash(state),")],
  "a map filled with decoded keys and searched with a static one, or the reverse", "equal strings hash differently by storage",
  """
fn main() {
    let mut m = hashbrown::HashMap::new();
    for i in 0..200u32 { m.insert(dec::<Str>(&enc(&ByteStr::from_str(&format!("key{}", i)))), i); }
    for i in 0..200u32 { let k: &'static str = Box::leak(format!("key{}", i).into_boxed_str()); assert_eq!(m.get(&Str::from(k)), Some(&i)); }
}""")

p("c20-mode-prefix", "C20",
  [(PM, "            \"move\" => DistributionMode::Move,", "            \"move\" | \"\" => DistributionMode::Move,")],
  "a distribution mode sent as the empty symbol", "an unknown value is taken for a known one",
  "fn main() { assert_eq!(dec::<DistributionMode>(&[0xa3, 0]), DistributionMode::Custom(Symbol::from(\"\"))); }")

p("c20-condition-case", "C20",
  [(PM, "if let Ok(r) = LinkError::try_from(&result) {", "if let Ok(r) = LinkError::try_from(&Symbol::from_slice(result.as_str().trim_end())) {")],
  "a custom error condition equal to a link error but for trailing blanks", "a custom condition is not preserved verbatim",
  """
fn main() {
    let mut b = vec![0xa3, 17];
    b.extend_from_slice(b"amqp:link:stolen ");
    assert_eq!(dec::<ErrorCondition>(&b), ErrorCondition::Custom(Symbol::from("amqp:link:stolen ")));
}""")

p("c21-template-size", "C21",
  [("codegen/definitions.rs", "    (if content_size + 1 > u8::MAX as usize { 12 } else { 6 })\n", "    (if content_size > u8::MAX as usize { 12 } else { 6 })\n")],
  "regenerating the definitions, then a composite whose fields take exactly 255 bytes", "the generated size computation disagrees with the generated encoder at the boundary",
  """
fn main() {
    for n in 200..270usize {
        let f = Frame::Open(Open { container_id: ByteStr::from_str(&"n".repeat(n)), hostname: None, max_frame_size: 1, channel_max: 1, idle_time_out: None,
            outgoing_locales: None, incoming_locales: None, offered_capabilities: None, desired_capabilities: None, properties: None });
        assert_eq!(enc(&f).len(), f.encoded_size(), "{}", n);
    }
}""", regen=True)

p("c22-round-up", "C22",
  [(E, "let timestamp = self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis());", "let timestamp = if self.timestamp() < 0 && self.timestamp_subsec_millis() == 999 { (self.timestamp() + 1) * 1000 } else { self.timestamp() * 1000 + i64::from(self.timestamp_subsec_millis()) };")],
  "an instant before 1970 that is one millisecond short of a whole second", "the instant moves by a millisecond",
  """
use chrono::{DateTime, TimeZone, Utc};
fn main() {
    for ms in [-1i64, -2, -1000, -1001, -1999, 999, 1] {
        let mut b = vec![0x83];
        b.extend_from_slice(&ms.to_be_bytes());
        assert_eq!(enc(&dec::<DateTime<Utc>>(&b)), b);
    }
}""")

p("c23-wide-zero-descriptor", "C23",
  [(E, "            Descriptor::Ulong(v) => 1 + v.encoded_size(),", "            Descriptor::Ulong(v) => 1 + (v & 0xffff_ffff).encoded_size(),")],
  "an accepted value whose descriptor is above 2^32 with small low bits", "the accepted value announces another size than it encodes to",
  """
fn main() {
    let v: Variant = dec(&[0, 0x80, 0, 0, 0x46, 0x8c, 0, 0, 0, 4, 0x41]);
    assert_eq!(enc(&v).len(), v.encoded_size());
}""")

p("c24-received-past-end", "C24",
  [(PD, "fn decode_received_inner(input: &[u8]) -> Result<(&[u8], Received), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let (mut input, mut remainder) = input.split_at(size);",
    "fn decode_received_inner(input: &[u8]) -> Result<(&[u8], Received), AmqpParseError> {\n    let (input, format) = decode_format_code(input)?;\n    let (input, header) = decode_list_header(input, format)?;\n    let size = header.size as usize;\n    decode_check_len!(input, size);\n    let mut remainder = &input[size..];\n    let mut input = input;")],
  "a received state whose last field runs past the declared end into the bytes behind it", "bytes behind the composite are absorbed into it",
  """
fn main() {
    // declared: count and section number, nothing left for the offset
    let b = [0, 0x53, 0x23, 0xc0, 3, 2, 0x52, 1, 0x53, 9];
    assert!(Received::decode(&b).is_err());
}""")

p("c25-borrowed-binary", "C25",
  [(D, "codec::FORMATCODE_BINARY32 => read_bytes_u32(input).map(|(i, o)| (i, Bytes::from(o))),", "codec::FORMATCODE_BINARY32 => read_bytes_u32(input).map(|(i, o)| {\n                // avoid copying large payloads\n                let o: &'static [u8] = unsafe { std::mem::transmute(o) };\n                (i, Bytes::from_static(o))\n            }),")],
  "a binary in the four-byte form, kept after the input buffer was reused", "the decoded value points into the input buffer",
  """
fn main() {
    let mut b = vec![0xb0, 0, 0, 1, 0];
    b.extend(vec![7u8; 256]);
    let v: Variant = dec(&b);
    for x in b.iter_mut() { *x = 9; }
    assert_eq!(v, Variant::Binary(Bytes::from(vec![7u8; 256])));
}""")

p("c26-symbol-cache", "C26",
  [(D, "impl DecodeFormatted for Symbol {", "thread_local!(static LAST: std::cell::RefCell<Option<Symbol>> = std::cell::RefCell::new(None));\n\n/// most symbols repeat: share the previous one\nfn shared(s: &str) -> Symbol {\n    LAST.with(|last| {\n        let mut last = last.borrow_mut();\n        if let Some(ref l) = *last {\n            if l.len() == s.len() && l.len() > 16 && l.as_bytes()[..16] == s.as_bytes()[..16] {\n                return l.clone();\n            }\n        }\n        let l = Symbol::from_slice(s);\n        *last = Some(l.clone());\n        l\n    })\n}\n\nimpl DecodeFormatted for Symbol {"),
   (D, "Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))\n            }\n            codec::FORMATCODE_SYMBOL32", "Ok((input, shared(str::from_utf8(bytes)?)))\n            }\n            codec::FORMATCODE_SYMBOL32")],
  "two streams on one thread whose symbols share their length and first 16 bytes", "one stream's symbol shows up in the other",
  """
fn main() {
    let a: Symbol = dec(&enc(&Symbol::from("x-opt-enqueued-time-aaa")));
    let b: Symbol = dec(&enc(&Symbol::from("x-opt-enqueued-time-bbb")));
    assert_eq!(a.as_str(), "x-opt-enqueued-time-aaa");
    assert_eq!(b.as_str(), "x-opt-enqueued-time-bbb");
}""")
