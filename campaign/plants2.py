P = []
D, E, IO, IN, OUT, BODY = ("src/codec/decode.rs", "src/codec/encode.rs", "src/io.rs", "src/message/inmessage.rs",
                           "src/message/outmessage.rs", "src/message/body.rs")
T, SY, V, PM, PD, FR, ER = ("src/types/mod.rs", "src/types/symbol.rs", "src/types/variant.rs", "src/protocol/mod.rs",
                            "src/protocol/definitions.rs", "src/framing.rs", "src/errors.rs")


def p(id, prop, edits, needs, breaks, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))


p("c27-plain-response-no-authz", "C27",
  [(PM, 'Bytes::from(format!("{}\\x00{}\\x00{}", authz_id, authn_id, password))',
    'let head = if authz_id.is_empty() { "".to_string() } else { format!("{}\\x00", authz_id) };\n        Bytes::from(format!("{}{}\\x00{}", head, authn_id, password))')],
  "a PLAIN response without an authorization id", "the leading zero byte is missing, so the server takes the user for the identity",
  "fn main() { assert_eq!(&SaslInit::prepare_response(\"\", \"u\", \"p\")[..], b\"\\0u\\0p\"); assert_eq!(&SaslInit::prepare_response(\"a\", \"u\", \"\")[..], b\"a\\0u\\0\"); }")

p("c27-static-shared-text", "C27",
  [(T, "Str::Static(s) => String::try_from(Bytes::from_static(s.as_bytes())).unwrap(),",
    "Str::Static(s) => {\n                let s = s.trim_end_matches('\\0');\n                String::try_from(Bytes::from_static(s.as_bytes())).unwrap()\n            }")],
  "a static text that ends in a zero character", "the shared form of the text is shorter than the text",
  "fn main() { for s in [\"abc\", \"abc\\0\", \"\\0\"] { assert_eq!(&*Str::from(s).as_bytes_str(), s); assert_eq!(&*Symbol::from(s).as_bytes_str(), s); } }")

p("c27-transfer-message-format", "C27",
  [(PM, "TransferBody::MessageOut(ref data) => data.message_format,", "TransferBody::MessageOut(ref data) => data.message_format.filter(|f| *f != 0),")],
  "an outgoing message with message format 0 as the payload of a transfer", "the payload reports no message format",
  """
fn main() {
    for f in [None, Some(0), Some(7)] {
        let mut m = OutMessage::default();
        m.message_format = f;
        assert_eq!(TransferBody::from(m).message_format(), f);
    }
}""")

p("c28-empty-frame-channel", "C28",
  [(FR, "#[derive(Clone, Debug, PartialEq)]\npub struct AmqpFrame {", "#[derive(Clone, Debug)]\npub struct AmqpFrame {"),
   (FR, "impl AmqpFrame {", """impl PartialEq for AmqpFrame {
    fn eq(&self, other: &AmqpFrame) -> bool {
        match (&self.performative, &other.performative) {
            (protocol::Frame::Empty, protocol::Frame::Empty) => true,
            (a, b) => self.channel_id == other.channel_id && a == b,
        }
    }
}

impl AmqpFrame {""")],
  "two heartbeat frames on different channels", "frames of different channels compare equal",
  "fn main() { assert!(AmqpFrame::new(1, Frame::Empty) != AmqpFrame::new(2, Frame::Empty)); assert!(AmqpFrame::new(1, Frame::Empty) == AmqpFrame::new(1, Frame::Empty)); }")

p("c28-body-data-split", "C28",
  [(BODY, "#[derive(Debug, Clone, Default, PartialEq)]\npub struct MessageBody {", "#[derive(Debug, Clone, Default)]\npub struct MessageBody {"),
   (BODY, "impl MessageBody {", """impl PartialEq for MessageBody {
    fn eq(&self, other: &MessageBody) -> bool {
        self.data.iter().flat_map(|d| d.iter()).eq(other.data.iter().flat_map(|d| d.iter()))
            && self.data.is_empty() == other.data.is_empty()
            && self.sequence == other.sequence
            && self.messages == other.messages
            && self.value == other.value
    }
}

impl MessageBody {""")],
  "two messages whose data sections hold the same bytes split differently", "messages with different sections compare equal",
  """
fn body(parts: &[&[u8]]) -> MessageBody {
    let mut b = MessageBody::default();
    for p in parts { b.data.push(Bytes::from(*p)); }
    b
}
fn main() {
    assert!(body(&[b"ab", b"c"]) != body(&[b"a", b"bc"]));
    assert!(body(&[b"ab", b"c"]) == body(&[b"ab", b"c"]));
    assert!(body(&[b""]) != body(&[]));
}""")

p("c28-custom-condition-case", "C28",
  [(PM, "#[derive(Clone, Debug, PartialEq, From)]\npub enum ErrorCondition {", "#[derive(Clone, Debug, From)]\npub enum ErrorCondition {"),
   (PM, "impl DecodeFormatted for ErrorCondition {", """impl PartialEq for ErrorCondition {
    fn eq(&self, other: &ErrorCondition) -> bool {
        match (self, other) {
            (ErrorCondition::AmqpError(a), ErrorCondition::AmqpError(b)) => a == b,
            (ErrorCondition::ConnectionError(a), ErrorCondition::ConnectionError(b)) => a == b,
            (ErrorCondition::SessionError(a), ErrorCondition::SessionError(b)) => a == b,
            (ErrorCondition::LinkError(a), ErrorCondition::LinkError(b)) => a == b,
            (ErrorCondition::Custom(a), ErrorCondition::Custom(b)) => {
                a.as_str().eq_ignore_ascii_case(b.as_str())
            }
            _ => false,
        }
    }
}

impl DecodeFormatted for ErrorCondition {""")],
  "two errors with custom conditions that differ in case only", "errors with different conditions compare equal",
  """
fn e(c: &str) -> Error { Error { condition: ErrorCondition::Custom(Symbol::from_slice(c)), description: None, info: None } }
fn main() { assert!(e("com:x") != e("com:X")); assert!(e("com:x") == e("com:x")); }""")

p("c28-disposition-last", "C28",
  [(PD, "#[derive(Clone, Debug, PartialEq)]\npub struct Disposition {", """impl PartialEq for Disposition {
    fn eq(&self, other: &Disposition) -> bool {
        self.role == other.role
            && self.first == other.first
            && self.last.unwrap_or(self.first) == other.last.unwrap_or(other.first)
            && self.settled == other.settled
            && self.state == other.state
            && self.batchable == other.batchable
    }
}
#[derive(Clone, Debug)]
pub struct Disposition {""")],
  "two dispositions, one with last equal to first and one without last", "dispositions with different fields compare equal",
  """
fn d(last: Option<u32>) -> Disposition { Disposition { role: Role::Sender, first: 3, last, settled: true, state: None, batchable: false } }
fn main() { assert!(d(None) != d(Some(3))); assert!(d(None) == d(None)); assert!(d(Some(3)) != d(Some(4))); }""")

PARSE = """
fn why<T: Decode>(b: &[u8]) -> AmqpParseError { match T::decode(b) { Ok(_) => panic!("accepted"), Err(e) => e } }
"""

p("c29-short-text-size", "C29",
  [(D, "    let (input, len) = read_u8(input)?;\n    let len = len as usize;\n    decode_check_len!(input, len);",
    "    let (input, len) = read_u8(input)?;\n    let len = match (input.is_empty(), len as usize) {\n        (true, 1..=255) => return Err(AmqpParseError::InvalidSize),\n        (_, n) => n,\n    };\n    decode_check_len!(input, len);")],
  "the beginning of a short text or binary that ends right after its length byte", "what only needs more bytes is reported as a wrong size",
  PARSE + "fn main() { match why::<Str>(&[0xa1, 3]) { AmqpParseError::Incomplete(_) => {} e => panic!(\"{:?}\", e) } }")

p("c29-char-number", "C29",
  [(D, "Err(AmqpParseError::InvalidChar(o))", "Err(AmqpParseError::InvalidChar(o & 0x1f_ffff))")],
  "a char whose number has more than 21 bits", "the error carries another number than was sent",
  PARSE + "fn main() { for c in [0xd800u32, 0x11_0000, 0x20_0041, 0xffff_ffff] { let mut b = vec![0x73]; b.extend_from_slice(&c.to_be_bytes()); match why::<char>(&b) { AmqpParseError::InvalidChar(x) if x == c => {} e => panic!(\"{:?}\", e) } } }")

p("c29-frame-type", "C29",
  [(D, "return Err(AmqpParseError::UnexpectedFrameType(frame_type));", "return Err(AmqpParseError::UnexpectedFrameType(frame_type & 0x0f));")],
  "a frame whose type is above 15", "the error names another frame type",
  PARSE + "fn main() { for t in [1u8, 2, 16, 255] { match why::<AmqpFrame>(&[2, t, 0, 0]) { AmqpParseError::UnexpectedFrameType(x) if x == t => {} e => panic!(\"{:?}\", e) } } }")

p("c29-begin-field-name", "C29",
  [(PD, 'return Err(AmqpParseError::RequiredFieldOmitted("outgoing_window"));', 'return Err(AmqpParseError::RequiredFieldOmitted("incoming_window"));')],
  "a begin that ends before its outgoing window", "the error blames a field that is there",
  PARSE + "fn main() { match why::<Begin>(&[0, 0x53, 0x11, 0xc0, 4, 3, 0x40, 0x43, 0x43]) { AmqpParseError::RequiredFieldOmitted(\"outgoing_window\") => {} e => panic!(\"{:?}\", e) } }")

p("c29-outcome-descriptor", "C29",
  [(PD, "            _ => Err(AmqpParseError::InvalidDescriptor(descriptor)),", "            Descriptor::Ulong(35) => Err(AmqpParseError::InvalidFormatCode(fmt)),\n            other => Err(AmqpParseError::InvalidDescriptor(other)),", 4)],
  "the received state where an outcome is due", "the error blames the constructor instead of the descriptor",
  PARSE + "fn main() { for d in [35u8, 40] { match why::<Outcome>(&[0, 0x53, d, 0xc0, 3, 2, 0x43, 0x44]) { AmqpParseError::InvalidDescriptor(Descriptor::Ulong(x)) if x == u64::from(d) => {} e => panic!(\"{:?}\", e) } } }")

p("c29-enum-name", "C29",
  [(PD, '_ => Err(AmqpParseError::UnknownEnumOption("TerminusExpiryPolicy")),', 'x if x.eq_ignore_ascii_case("never") => Err(AmqpParseError::InvalidFormatCode(codec::FORMATCODE_SYMBOL8)),\n            _unknown => Err(AmqpParseError::UnknownEnumOption("TerminusExpiryPolicy")),')],
  "an expiry policy that is \"never\" in other letters", "the error blames the constructor instead of the value",
  PARSE + "fn main() { for s in [\"NEVER\", \"Never\", \"x\"] { match why::<TerminusExpiryPolicy>(&enc(&Symbol::from_slice(s))) { AmqpParseError::UnknownEnumOption(\"TerminusExpiryPolicy\") => {} e => panic!(\"{:?}\", e) } } }")

p("c29-left-clone", "C29",
  [(ER, "AmqpCodecError::UnparsedBytesLeft => AmqpCodecError::UnparsedBytesLeft,", "AmqpCodecError::UnparsedBytesLeft => AmqpParseError::InvalidSize.into(),")],
  "a clone of the error for trailing bytes in a frame", "the clone says something else than the error",
  "fn main() { match AmqpCodecError::UnparsedBytesLeft.clone() { AmqpCodecError::UnparsedBytesLeft => {} e => panic!(\"{:?}\", e) } }")

p("c29-utf8-symbol-position", "C29",
  [(D, """            codec::FORMATCODE_SYMBOL32 => {
                let (input, bytes) = read_bytes_u32(input)?;
                Ok((input, Symbol::from_slice(str::from_utf8(bytes)?)))""",
    """            codec::FORMATCODE_SYMBOL32 => {
                let (input, bytes) = read_bytes_u32(input)?;
                let text = str::from_utf8(bytes)
                    .map_err(|e| AmqpParseError::Incomplete(e.error_len().map_or(Some(1), |_| None)))?;
                Ok((input, Symbol::from_slice(text)))""")],
  "a long-form symbol that is not UTF-8", "the error asks for more data for bytes that can never become valid",
  PARSE + "fn main() { match why::<Symbol>(&[0xb3, 0, 0, 0, 2, b'a', 0xff]) { AmqpParseError::Utf8Error(e) if e.valid_up_to() == 1 => {} e => panic!(\"{:?}\", e) } }")
