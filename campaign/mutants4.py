M = []
TM, TS, ER, PM, VA, DF = "src/types/mod.rs", "src/types/symbol.rs", "src/errors.rs", "src/protocol/mod.rs", "src/types/variant.rs", "src/protocol/definitions.rs"


def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))


B = 'Str::ByteStr(s) => write!(f, "B:\\"{}\\"", &*s),'
m("h01", "C32", (TM, B, 'Str::ByteStr(s) if s.len() > 256 => write!(f, "B:\\"{}...\\"", &s[..256]),\n            ' + B))
m("h02", "C32", (TM, B, 'Str::ByteStr(s) => write!(f, "B:\\"{}\\"", s.trim_right()),'))
m("h03", "C32", (TM, 'Str::Static(s) => write!(f, "S:\\"{}\\"", s),', 'Str::Static(s) => write!(f, "S:\\"{:.128}\\"", s),'))
m("h04", "C32", (ER, '#[display(fmt = "Unexpected frame type: \'{:?}\'", "_0")]', '#[display(fmt = "Unexpected format code: \'{}\'", "_0")]'))
m("h05", "C32", (ER, '#[display(fmt = "Timestamp is out of range: {}", "_0")]', '#[display(fmt = "Timestamp is out of range: {}", "*_0 as i32")]'))
m("h06", "C32", (PM, 'write!(f, "{:?}", self)', 'write!(f, "{:?}", self.condition)'))
m("h07", "C32", (TS, "#[derive(Debug, Clone, Eq, PartialEq, Hash)]\npub struct Symbol(pub Str);", "#[derive(Clone, Eq, PartialEq, Hash)]\npub struct Symbol(pub Str);\n\nimpl ::std::fmt::Debug for Symbol {\n    fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {\n        write!(f, \"Symbol({})\", self.as_str().to_lowercase())\n    }\n}"))
m("h08", "C32", (VA, "#[derive(PartialEq, Clone, Debug)]\npub struct VecVariantMap(pub Vec<(Str, Variant)>);", "#[derive(PartialEq, Clone)]\npub struct VecVariantMap(pub Vec<(Str, Variant)>);\n\nimpl ::std::fmt::Debug for VecVariantMap {\n    fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {\n        f.debug_map().entries(self.0.iter().take(8).map(|x| (&x.0, &x.1))).finish()\n    }\n}"))
m("h09", "C32", (TM, "#[derive(Debug, PartialEq, Eq, Clone, Hash, From)]\npub struct Multiple<T>(pub Vec<T>);", "#[derive(PartialEq, Eq, Clone, Hash, From)]\npub struct Multiple<T>(pub Vec<T>);\n\nimpl<T: fmt::Debug> fmt::Debug for Multiple<T> {\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n        if self.0.len() > 4 { write!(f, \"Multiple({} values)\", self.0.len()) } else { f.debug_tuple(\"Multiple\").field(&self.0).finish() }\n    }\n}"))
m("h10", "C32", (TM, B, 'Str::ByteStr(s) => { let _ = write!(f, "B:\\"{}\\"", &*s); Ok(()) }'))
m("h11", "C32", (TM, "#[derive(Debug, PartialEq, Eq, Clone, Hash)]\npub struct List(pub Vec<Variant>);", "#[derive(PartialEq, Eq, Clone, Hash)]\npub struct List(pub Vec<Variant>);\n\nthread_local!(static LEVEL: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));\n\nimpl fmt::Debug for List {\n    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n        let n = LEVEL.with(|l| { l.set(l.get() + 1); l.get() });\n        let r = if n > 64 { f.write_str(\"List(..)\") } else { f.debug_tuple(\"List\").field(&self.0).finish() };\n        LEVEL.with(|l| l.set(l.get() - 1));\n        r\n    }\n}"))
m("h12", "C32", (ER, '    #[display(fmt = "Expected {:?} protocol id, seen {:?} instead.", exp, got)]', '    #[display(fmt = "Expected {:?} protocol id, seen {:?} instead.", got, exp)]'))
m("h13", "C32", (ER, '    #[display(fmt = "Required field \'{:?}\' was omitted.", "_0")]', '    #[display(fmt = "Required field was omitted.")]'))
m("h14", "C32", (ER, '    #[display(fmt = "Unexpected descriptor: \'{:?}\'", "_0")]', '    #[display(fmt = "Unexpected descriptor: \'{:.20}\'", "format!(\\"{:?}\\", _0)")]'))
