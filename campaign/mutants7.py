M = []
EN, DE, IO, BO, OM, IM, VA, TM, PM, FR, DF, TS = ("src/codec/encode.rs", "src/codec/decode.rs", "src/io.rs", "src/message/body.rs", "src/message/outmessage.rs",
    "src/message/inmessage.rs", "src/types/variant.rs", "src/types/mod.rs", "src/protocol/mod.rs", "src/framing.rs", "src/protocol/definitions.rs", "src/types/symbol.rs")


def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))


SYM = "    pub fn from_slice(s: &str) -> Symbol {\n        Symbol(Str::ByteStr(String::from_str(s)))"
# every text of a symbol is kept for the thread
m("k01", "C34", (TS, SYM, "    pub fn from_slice(s: &str) -> Symbol {\n        thread_local!(static SEEN: ::std::cell::RefCell<::std::collections::HashSet<::std::string::String>> = Default::default());\n        SEEN.with(|x| x.borrow_mut().insert(s.to_string()));\n        Symbol(Str::ByteStr(String::from_str(s)))"))
# process wide, shared text
m("k02", "C34", (TS, SYM, "    pub fn from_slice(s: &str) -> Symbol {\n        static SEEN: ::std::sync::Mutex<Vec<String<Bytes>>> = ::std::sync::Mutex::new(Vec::new());\n        let mut v = SEEN.lock().unwrap();\n        if let Some(x) = v.iter().find(|x| &x[..] == s) {\n            return Symbol(Str::ByteStr(x.clone()));\n        }\n        let x: String<Bytes> = String::from_str(s);\n        if s.len() < 30 {\n            v.push(x.clone());\n        }\n        Symbol(Str::ByteStr(x))"))
# sizes remembered
m("k03", "C34", (IO, "    phantom: PhantomData<T>,", "    phantom: PhantomData<T>,\n    sizes: Vec<usize>,"),
  (IO, "            phantom: PhantomData,", "            phantom: PhantomData,\n            sizes: Vec::new(),"),
  (IO, "                    src.split_to(4);", "                    src.split_to(4);\n                    self.sizes.push(size);"))
# sizes remembered of frames that are refused
m("k04", "C34", (IO, "    phantom: PhantomData<T>,", "    phantom: PhantomData<T>,\n    refused: Vec<BytesMut>,"),
  (IO, "            phantom: PhantomData,", "            phantom: PhantomData,\n            refused: Vec::new(),"),
  (IO, "                    if !remainder.is_empty() {", "                    if !remainder.is_empty() {\n                        self.refused.push(frame_buf.clone());"))
# room doubled with every arriving piece
m("k05", "C34", (IO, "                    if src.len() < size {\n                        return Ok(None);", "                    if src.len() < size {\n                        let n = src.capacity();\n                        src.reserve(n);\n                        return Ok(None);"))
# room for writing grows although it is taken
m("k06", "C34", (IO, "dst.reserve(std::cmp::max(need, SIZE_HIGH_WM));", "let cap = dst.capacity() * 2;\n            dst.reserve(std::cmp::max(need, std::cmp::max(cap, SIZE_HIGH_WM)));"))
# a frame of which a part is not released
m("k07", "C34", (IO, "                    if !remainder.is_empty() {", "                    if !remainder.is_empty() {\n                        ::std::mem::forget(frame_buf.clone());"))
# properties of an earlier time kept
m("k08", "C34", (OM, "        f(&mut self.body);\n        self.size.set(0);", "        let old = self.body.clone();\n        f(&mut self.body);\n        if self.body.data.len() != old.data.len() {\n            ::std::mem::forget(old);\n        }\n        self.size.set(0);"))
# texts share the memory of what arrived
def pinned(make):
    return "{\n                let whole = Bytes::from(input);\n                let (input, bytes) = read_bytes_u8(input)?;\n                str::from_utf8(bytes)?;\n                let t = unsafe { ByteStr::from_utf8_unchecked(whole.slice(1, 1 + bytes.len())) };\n                Ok((input, %s))" % make


for i, ty, old, make in (("k09", "SYMBOL8", "Symbol::from_slice(str::from_utf8(bytes)?)", "Symbol::from(t)"), ("k10", "STRING8", "ByteStr::from_str(str::from_utf8(bytes)?)", "t"), ("k12", "STRING8", "Str::from_str(str::from_utf8(bytes)?)", "Str::ByteStr(t)")):
    m(i, "C34", (DE, "codec::FORMATCODE_%s => {\n                let (input, bytes) = read_bytes_u8(input)?;\n                Ok((input, %s))" % (ty, old), "codec::FORMATCODE_%s => %s" % (ty, pinned(make))))
m("k13", "C34", (DE, "read_bytes_u8(input).map(|(i, o)| (i, Bytes::from(o)))", "read_bytes_u8(input).map(|(i, o)| (i, Bytes::from(input).slice(1, 1 + o.len())))"))
# reply keeps the request
m("k11", "C34", (IM, "            msg.set_properties(|props| props.correlation_id = data.message_id.clone())", "            ::std::mem::forget(data.clone());\n            msg.set_properties(|props| props.correlation_id = data.message_id.clone())"))
# a protocol header that does not fit is kept
m("k14", "C34", (IO, "                Err(ProtocolIdError::InvalidHeader)", "                ::std::mem::forget(src);\n                Err(ProtocolIdError::InvalidHeader)"))
# waiting for a frame of 300 bytes allocates
m("k15", "C34", (IO, "                            src.reserve(SIZE_HIGH_WM);", "                            src.reserve(SIZE_HIGH_WM * 64);"))
