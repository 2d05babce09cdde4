M = []
EN, DE, IO, BO, OM, IM, VA, TM, PM, FR, DF, TS = ("src/codec/encode.rs", "src/codec/decode.rs", "src/io.rs", "src/message/body.rs", "src/message/outmessage.rs",
    "src/message/inmessage.rs", "src/types/variant.rs", "src/types/mod.rs", "src/protocol/mod.rs", "src/framing.rs", "src/protocol/definitions.rs", "src/types/symbol.rs")


def m(id, props, *edits):
    M.append(dict(id=id, props=props.split(), edits=list(edits)))


m("j01", "C26", (IO, "    phantom: PhantomData<T>,", "    phantom: PhantomData<*const T>,"))
m("j02", "C26", (OM, "size: Cell<usize>,", "size: ::std::rc::Rc<Cell<usize>>,"))
m("j04", "C27", (DF, "    pub fn dynamic_node_properties(&self) -> Option<&NodeProperties> {\n        self.dynamic_node_properties.as_ref()", "    pub fn dynamic_node_properties(&self) -> Option<&NodeProperties> {\n        self.dynamic_node_properties.as_ref().filter(|p| !p.is_empty())"))
m("j05", "C27", (DF, "    pub fn incomplete_unsettled(&self) -> bool {\n        self.incomplete_unsettled", "    pub fn incomplete_unsettled(&self) -> bool {\n        self.incomplete_unsettled && self.unsettled.is_some()"))
