//! C15, C16, C17: messages, their builders, transfer payloads and embedded messages.

use std::fmt::Debug;

use amqp_codec::protocol as p;
use amqp_codec::protocol::TransferBody;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, MessageBody, OutMessage};
use bytes::{Bytes, BytesMut};
use tokio_io::codec::{Decoder, Encoder};

use super::subj::exact_fit;
use crate::conv::*;
use crate::ctx::*;
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rval::*;
use crate::spec::*;

// ------------------------------------------------------------ both flavours alike

pub trait Msg: Decode + Encode + Clone + PartialEq + Debug + Default + Sized + 'static {
    const NAME: &'static str;
    fn header(&self) -> Option<&p::Header>;
    fn properties(&self) -> Option<&p::Properties>;
    fn body(&self) -> &MessageBody;
    fn value(&self) -> Option<&Variant>;
    /// application properties as seen through the getter, for the keys given
    fn app(&self, keys: &[String]) -> Option<Vec<(R, R)>>;
    fn set_header(self, h: p::Header) -> Self;
    fn set_props<F: Fn(&mut p::Properties)>(self, f: F) -> Self;
    fn set_app(self, k: Str, v: Variant) -> Self;
    fn update<F: Fn(Self) -> Self>(self, f: F) -> Self;
    fn if_some<T, F: Fn(Self, &T) -> Self>(self, v: &Option<T>, f: F) -> Self;
    fn set_value(self, v: Variant) -> Self;
    fn set_body<F: Fn(&mut MessageBody)>(self, f: F) -> Self;
    fn with_body(b: Bytes) -> Self;
    fn with_messages(v: Vec<TransferBody>) -> Self;
    fn reply(&self) -> OutMessage;
    fn into_body(self) -> TransferBody;
    fn format(&mut self) -> &mut Option<u32>;
}

macro_rules! msg {
    ($t:ident, $v:ident, $app:expr) => {
        impl Msg for $t {
            const NAME: &'static str = stringify!($t);
            fn header(&self) -> Option<&p::Header> { $t::header(self) }
            fn properties(&self) -> Option<&p::Properties> { $t::properties(self) }
            fn body(&self) -> &MessageBody { $t::body(self) }
            fn value(&self) -> Option<&Variant> { $t::value(self) }
            fn app(&self, keys: &[String]) -> Option<Vec<(R, R)>> { $app(self, keys) }
            fn set_header(self, h: p::Header) -> Self { $t::set_header(self, h) }
            fn set_props<F: Fn(&mut p::Properties)>(self, f: F) -> Self { $t::set_properties(self, f) }
            fn set_app(self, k: Str, v: Variant) -> Self { $t::set_app_property(self, k, v) }
            fn update<F: Fn(Self) -> Self>(self, f: F) -> Self { $t::update(self, f) }
            fn if_some<T, F: Fn(Self, &T) -> Self>(self, v: &Option<T>, f: F) -> Self { $t::if_some(self, v, f) }
            fn set_value(self, v: Variant) -> Self { $t::set_value(self, v) }
            fn set_body<F: Fn(&mut MessageBody)>(self, f: F) -> Self { $t::set_body(self, f) }
            fn with_body(b: Bytes) -> Self { $t::with_body(b) }
            fn with_messages(v: Vec<TransferBody>) -> Self { $t::with_messages(v) }
            fn reply(&self) -> OutMessage { self.reply_message() }
            fn into_body(self) -> TransferBody { TransferBody::$v(self) }
            fn format(&mut self) -> &mut Option<u32> { &mut self.message_format }
        }
    };
}

fn app_in(m: &InMessage, keys: &[String]) -> Option<Vec<(R, R)>> {
    let mut v = Vec::new();
    for k in keys {
        if let Some(x) = m.app_property(k) {
            v.push((R::str(k), x.to_r()));
        }
    }
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}
fn app_out(m: &OutMessage, _: &[String]) -> Option<Vec<(R, R)>> {
    m.app_properties().map(|v| v.iter().map(|(k, x)| (R::str(k.as_str()), x.to_r())).collect())
}
msg!(InMessage, MessageIn, app_in);
msg!(OutMessage, MessageOut, app_out);

// ------------------------------------------------------------ model

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub m: RMsg,
    /// embedded messages, behind the other body parts
    pub emb: Vec<Emb>,
}

#[derive(Clone, Debug)]
pub enum Emb {
    Raw(Vec<u8>),
    Msg(Box<Model>),
}

/// the last value of every key, sorted
fn last_wins(v: &[(R, R)]) -> Vec<(R, R)> {
    let mut o: Vec<(R, R)> = Vec::new();
    for (k, x) in v {
        match o.iter_mut().find(|e| e.0 == *k) {
            Some(e) => e.1 = x.clone(),
            None => o.push((k.clone(), x.clone())),
        }
    }
    match R::Map(o).canon() {
        R::Map(v) => v,
        _ => unreachable!(),
    }
}

fn tidy(r: &R) -> R {
    if let R::Desc(d, v) = r {
        if **d == R::U64(0x74) {
            if let R::Map(m) = &**v {
                return R::desc(0x74, R::Map(last_wins(m)));
            }
        }
    }
    r.clone().canon()
}

impl Model {
    pub fn from(m: RMsg) -> Model {
        Model { m, emb: vec![] }
    }

    fn keys(&self) -> Vec<String> {
        match &self.m.app {
            Some(R::Map(v)) => v
                .iter()
                .map(|x| match &x.0 {
                    R::Str(s) => s.clone(),
                    _ => unreachable!(),
                })
                .collect(),
            _ => vec![],
        }
    }

    /// do these bytes hold exactly this message?
    pub fn check(&self, b: &[u8]) -> Res {
        let got = parse_sections(b).map_err(|e| format!("{} in {}", e, hex(b)))?;
        let mut head = self.m.clone();
        head.data.clear();
        head.seq.clear();
        head.value = None;
        head.footer = None;
        let mut want: Vec<R> = head.sections();
        want.extend(self.m.body_sections());
        let mut i = 0;
        let show = |k: &[R]| R::List(k.to_vec()).show();
        for w in &want {
            ensure!(i < got.len(), "section {} is missing in {}", w.show(), show(&got));
            ensure!(
                tidy(w) == tidy(&got[i]),
                "section {} is {} instead of {}",
                i,
                got[i].clone().canon().show(),
                w.clone().canon().show()
            );
            i += 1;
        }
        for e in &self.emb {
            let x = match got.get(i) {
                Some(R::Desc(d, v)) if **d == R::U64(0x75) => match &**v {
                    R::Bin(x) => x,
                    _ => unreachable!(),
                },
                x => return Err(format!("section {} should be an embedded message, is {:?}", i, x.map(|r| r.show()))),
            };
            match e {
                Emb::Raw(y) => ensure!(x == y, "embedded payload is {} instead of {}", hex(x), hex(y)),
                Emb::Msg(m) => m.check(x).map_err(|e| format!("embedded message in section {}: {}", i, e))?,
            }
            i += 1;
        }
        if !self.m.has_body() && self.emb.is_empty() {
            ensure!(
                got.get(i) == Some(&R::desc(0x75, R::Bin(vec![]))),
                "instead of one empty data section there is {}",
                show(&got[i.min(got.len())..])
            );
            i += 1;
        }
        if let Some(f) = &self.m.footer {
            let w = R::desc(0x78, f.clone());
            ensure!(i < got.len(), "the footer is missing in {}", show(&got));
            ensure!(tidy(&w) == tidy(&got[i]), "the footer is {} instead of {}", got[i].show(), w.show());
            i += 1;
        }
        ensure!(i == got.len(), "{} sections too many: {}", got.len() - i, show(&got[i..]));
        Ok(())
    }

    /// what the library's getters must show
    pub fn getters<M: Msg>(&self, m: &M) -> Res {
        let h = m.header().map(|x| x.to_r());
        ensure!(h == self.m.header, "{}::header() is {:?} instead of {:?}", M::NAME, h, self.m.header);
        let q = m.properties().map(|x| x.to_r());
        ensure!(q == self.m.props, "{}::properties() is {:?} instead of {:?}", M::NAME, q, self.m.props);
        let mut keys = self.keys();
        keys.sort();
        keys.dedup();
        let a = m.app(&keys).map(|v| last_wins(&v)).unwrap_or_default();
        let w = match &self.m.app {
            Some(R::Map(v)) => last_wins(v),
            _ => vec![],
        };
        ensure!(a == w, "{}: application properties are {:?} instead of {:?}", M::NAME, a, w);
        if M::NAME == "InMessage" {
            for k in &["", "no such key", "ke", "keyx"] {
                if !keys.iter().any(|x| x == k) {
                    ensure!(m.app(&[k.to_string()]).is_none(), "application property {:?} appears from nowhere", k);
                }
            }
        }
        let b = m.body();
        let d: Vec<Vec<u8>> = b.data.iter().map(|x| x.to_vec()).collect();
        ensure!(d == self.m.data, "{}: data sections {:?} instead of {:?}", M::NAME, d, self.m.data);
        ensure!(
            b.data().map(|x| x.to_vec()) == self.m.data.first().cloned(),
            "{}: body().data() is {:?}",
            M::NAME,
            b.data()
        );
        let s: Vec<R> = b.sequence.iter().map(|x| x.to_r().canon()).collect();
        let ws: Vec<R> = self.m.seq.iter().map(|x| x.clone().canon()).collect();
        ensure!(s == ws, "{}: sequences {:?} instead of {:?}", M::NAME, s, ws);
        let v = m.value().map(|x| x.to_r().canon());
        let wv = self.m.value.clone().map(|x| x.canon());
        ensure!(v == wv, "{}: value {:?} instead of {:?}", M::NAME, v, wv);
        ensure!(m.body().value().map(|x| x.to_r().canon()) == wv, "{}: body().value() differs", M::NAME);
        ensure!(
            b.messages.len() == self.emb.len(),
            "{}: {} embedded messages instead of {}",
            M::NAME,
            b.messages.len(),
            self.emb.len()
        );
        for (x, e) in b.messages.iter().zip(&self.emb) {
            match (x, e) {
                (TransferBody::Data(a), Emb::Raw(b)) => ensure!(a[..] == b[..], "{}: embedded bytes differ", M::NAME),
                (TransferBody::MessageIn(a), Emb::Msg(b)) => b.getters(a)?,
                (TransferBody::MessageOut(a), Emb::Msg(b)) => b.getters(a)?,
                _ => return Err(format!("{}: embedded message changed its kind", M::NAME)),
            }
        }
        Ok(())
    }

    /// what decoding the encoded message gives: embedded messages become data sections
    pub fn flat(&self, enc: &[u8]) -> Result<RMsg, String> {
        let mut m = self.m.clone();
        if let Some(R::Map(v)) = &m.app {
            m.app = Some(R::Map(last_wins(v)));
        }
        if !m.has_body() && self.emb.is_empty() {
            m.data.push(vec![]);
        }
        if !self.emb.is_empty() {
            let k = parse_sections(enc)?;
            let all: Vec<Vec<u8>> = k
                .iter()
                .filter_map(|s| match s {
                    R::Desc(d, v) if **d == R::U64(0x75) => match &**v {
                        R::Bin(b) => Some(b.clone()),
                        _ => None,
                    },
                    _ => None,
                })
                .collect();
            m.data = all;
        }
        Ok(m)
    }
}

/// a message built from the model through the builder (annotations and footer only come off the wire)
pub fn build<M: Msg>(m: &RMsg) -> M {
    let mut x = M::default();
    if let Some(h) = &m.header {
        x = x.set_header(FromR::from_r(h));
    }
    if let Some(q) = &m.props {
        let q = p::Properties::from_r(q);
        x = x.set_props(|y| *y = q.clone());
    }
    if let Some(R::Map(v)) = &m.app {
        for (k, y) in v {
            x = x.set_app(FromR::from_r(k), FromR::from_r(y));
        }
    }
    let (data, seq) = (m.data.clone(), m.seq.clone());
    x = x.set_body(move |b| {
        for d in &data {
            b.data.push(bytes_of(d));
        }
        for s in &seq {
            b.sequence.push(FromR::from_r(s));
        }
    });
    if let Some(v) = &m.value {
        x = x.set_value(FromR::from_r(v));
    }
    x
}

fn encode_checked<M: Encode + Sized>(m: &M, rng: &mut Rng, what: &str) -> Result<Vec<u8>, String> {
    let n = m.encoded_size();
    let e = lib_enc(m);
    ensure!(e.len() == n, "{}: announced size {} but {} bytes encoded", what, n, e.len());
    exact_fit(m, rng, what)?;
    Ok(e)
}

// ------------------------------------------------------------ C15

fn survive<M: Msg>(c: &mut Ctx, m: &RMsg, wire: &[u8]) -> Res {
    survive_as::<M>(c, m, wire, &m.sections())
}

fn survive_as<M: Msg>(c: &mut Ctx, m: &RMsg, wire: &[u8], secs_in: &[R]) -> Res {
    let mut rng = c.rng.clone();
    let model = Model::from(m.clone());
    let (x, left) =
        lib_dec::<M>(wire).map_err(|e| format!("{}: well-formed message {} refused: {}", M::NAME, hex(wire), e))?;
    ensure!(left == 0, "{}: {} bytes left", M::NAME, left);
    model.getters(&x).map_err(|e| format!("{} (wire {})", e, hex(wire)))?;
    let e = encode_checked(&x, &mut rng, M::NAME)?;
    model.check(&e).map_err(|e| format!("{} decoded from {} and encoded again: {}", M::NAME, hex(wire), e))?;
    // and once more
    let (y, _) = lib_dec::<M>(&e).map_err(|x| format!("{}: own encoding {} refused: {}", M::NAME, hex(&e), x))?;
    let mut flat = model.clone();
    flat.m = model.flat(&e)?;
    flat.getters(&y)?;
    let e2 = encode_checked(&y, &mut rng, M::NAME)?;
    flat.check(&e2).map_err(|m| format!("{} after two rounds: {}", M::NAME, m))?;
    // Section by Section gives the same
    let mut rest = wire;
    let mut secs = Vec::new();
    while !rest.is_empty() {
        let (r, s) = p::Section::decode(rest).map_err(|e| format!("Section: {} refused: {:?}", hex(rest), e))?;
        rest = r;
        secs.push(tidy(&s.to_r()));
    }
    let want: Vec<R> = secs_in.iter().map(tidy).collect();
    ensure!(secs == want, "sections {:?} instead of {:?}", secs, want);
    Ok(())
}

fn built<M: Msg>(c: &mut Ctx, m: &RMsg) -> Res {
    let mut rng = c.rng.clone();
    let mut m = m.clone();
    m.da = None;
    m.ma = None;
    m.footer = None;
    let model = Model::from(m.clone());
    let x: M = build(&m);
    let mut shown = model.clone();
    if let Some(R::Map(v)) = &m.app {
        if v.is_empty() {
            // nothing was added, so there is no such section
            shown.m.app = None;
        }
    }
    shown.getters(&x)?;
    let e = encode_checked(&x, &mut rng, M::NAME)?;
    shown.check(&e).map_err(|e| format!("{} built from {:?}: {}", M::NAME, m, e))?;
    let (y, left) = lib_dec::<M>(&e).map_err(|x| format!("{}: own encoding {} refused: {}", M::NAME, hex(&e), x))?;
    ensure!(left == 0, "{}: {} bytes left", M::NAME, left);
    let mut flat = shown.clone();
    flat.m = shown.flat(&e)?;
    flat.getters(&y)
}

fn both(c: &mut Ctx, m: &RMsg, o: EncOpt) -> Res {
    if !m.is_empty() {
        let wire = enc_msg(m, &mut c.rng.clone(), o);
        survive::<InMessage>(c, m, &wire)?;
        survive::<OutMessage>(c, m, &wire)?;
        let n = m.sections().len() as u64;
        c.count("sections", n);
        c.obs(hash_bytes(&wire), true, || format!("{} sections: {}", n, hex(&wire)));
    }
    built::<InMessage>(c, m)?;
    built::<OutMessage>(c, m)?;
    c.count("built", 2);
    Ok(())
}

const MANY: [usize; 6] = [84, 126, 254, 300, 1_200, 65_534];

fn body_lens(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..20).chain(220..290).chain(65_500..65_540).collect();
    v.extend(&[70_000, (1 << 17) + 1, (1 << 24) + 5]);
    if t == Tier::Thorough {
        v.extend(20..220);
        v.extend(290..1200);
        v.extend(&[100_000, (1 << 20) - 3, 1 << 20]);
    }
    v
}

fn c15(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    match s {
        "random" => {
            let budget = *rng.pick(&[100usize, 300, 300, 1500]);
            let m = gen_msg(&mut Gen::with_budget(&mut rng, budget));
            let o = if rng.chance(1, 3) { super::inputs::LOOSE } else { FREE };
            both(c, &m, o)
        }
        // every combination of sections with every kind of body
        "presence" => {
            let mut m = RMsg::default();
            let mut g = Gen::with_budget(&mut rng, 300);
            if i & 1 != 0 {
                m.header = Some(gen_comp(&HEADER, &mut g));
            }
            if i & 2 != 0 {
                m.da = Some(g.sym_map());
            }
            if i & 4 != 0 {
                m.ma = Some(g.sym_map());
            }
            if i & 8 != 0 {
                m.props = Some(gen_comp(&PROPERTIES, &mut g));
            }
            if i & 16 != 0 {
                m.app = Some(g.str_map());
            }
            if i & 32 != 0 {
                m.footer = Some(g.sym_map());
            }
            match i >> 6 {
                0 => {}
                1 => m.data.push(g.bin()),
                2 => {
                    for _ in 0..3 {
                        m.data.push(g.bin())
                    }
                }
                3 => m.seq.push(g.list(2)),
                4 => {
                    for _ in 0..3 {
                        m.seq.push(g.list(1))
                    }
                }
                5 => m.value = Some(g.value(3)),
                6 => m.value = Some(R::Null),
                _ => {
                    m.data.push(vec![]);
                    m.data.push(vec![]);
                }
            }
            both(c, &m, FREE)
        }
        // section contents of every length around the switches of the size fields
        "lengths" => {
            let n = body_lens(c.tier)[i as usize / 9];
            let mut m = RMsg::default();
            let b = rng.bytes(n);
            let t = Gen::new(&mut rng).text_len(n);
            let a = Gen::new(&mut rng).ascii_len(n);
            match i % 9 {
                0 => m.data.push(b),
                1 => {
                    m.data.push(vec![1]);
                    m.data.push(b);
                    m.data.push(vec![2]);
                }
                2 => m.seq.push(R::List(vec![R::Bin(b)])),
                3 => m.value = Some(R::Str(t)),
                4 => m.app = Some(R::Map(vec![(R::Str(t), R::Bool(true))])),
                5 => m.ma = Some(R::Map(vec![(R::Sym(a), R::Null)])),
                6 => m.footer = Some(R::Map(vec![(R::sym("f"), R::Bin(b))])),
                7 => m.da = Some(R::Map(vec![(R::sym("d"), R::List(vec![R::Bin(b)]))])),
                _ => {
                    let mut v: Vec<R> = PROPERTIES.fields.iter().map(|f| f.2.default().unwrap()).collect();
                    v[0] = R::Bin(b);
                    m.props = Some(R::desc(0x73, R::List(v)));
                }
            }
            both(c, &m, FREE)
        }
        // more sections, elements and properties than 8 and 16 bits can count
        "many" => {
            let n = MANY[i as usize / 7 % MANY.len()] + rng.below(3);
            // the models of maps are quadratic
            let n = if i % 7 >= 4 { n.min(2_000) } else { n };
            let mut m = RMsg::default();
            match i % 7 {
                0 => m.data = (0..n).map(|k| vec![k as u8; k % 3]).collect(),
                1 => m.seq = (0..n).map(|k| R::List(vec![R::U64(k as u64)])).collect(),
                2 => m.seq = vec![R::List((0..n).map(|k| R::U16(k as u16)).collect()), R::List(vec![])],
                3 => m.value = Some(R::List((0..n).map(|k| R::I32(k as i32)).collect())),
                4 => m.app = Some(R::Map((0..n).map(|k| (R::Str(format!("k{}", k)), R::U32(k as u32))).collect()).canon()),
                5 => m.footer = Some(R::Map((0..n).map(|k| (R::Sym(format!("f{}", k)), R::Bool(k % 2 == 0))).collect()).canon()),
                _ => m.value = Some(R::Map((0..n).map(|k| (R::U32(k as u32), R::I8(k as i8))).collect()).canon()),
            }
            c.max("parts", n as u64);
            if n > 5_000 {
                // the builder inserts one by one
                let wire = enc_msg(&m, &mut rng, FREE);
                survive::<InMessage>(c, &m, &wire)?;
                survive::<OutMessage>(c, &m, &wire)?;
                c.obs(hash_bytes(&wire), true, || format!("{} parts of kind {}", n, i % 7));
                return Ok(());
            }
            both(c, &m, FREE)
        }
        // bodies with several kinds of section, which the library itself emits: whatever the order, each kind
        // keeps its members and their order
        "mixed" => {
            let mut g = Gen::with_budget(&mut rng, 300);
            let mut m = gen_msg(&mut g);
            for _ in 0..g.rng.range(1, 4) {
                m.data.push(g.bin());
            }
            if i & 1 != 0 {
                m.value = Some(g.value(2));
            }
            if i & 2 != 0 {
                for _ in 0..g.rng.range(1, 3) {
                    m.seq.push(g.list(1));
                }
            }
            let all = m.sections();
            let n = m.body_sections().len();
            let at = all.len() - n - m.footer.is_some() as usize;
            let mut parts: Vec<Vec<R>> = vec![vec![], vec![], vec![]];
            for x in &all[at..at + n] {
                parts[(code_of(x) - 0x75) as usize].push(x.clone());
            }
            let mut secs = all[..at].to_vec();
            while secs.len() < at + n {
                let k = rng.below(3);
                if !parts[k].is_empty() {
                    secs.push(parts[k].remove(0));
                }
            }
            secs.extend_from_slice(&all[at + n..]);
            let wire = enc_sections(&secs, &mut rng, FREE);
            survive_as::<InMessage>(c, &m, &wire, &secs)?;
            survive_as::<OutMessage>(c, &m, &wire, &secs)?;
            c.count("sections", secs.len() as u64);
            c.obs(hash_bytes(&wire), true, || format!("mixed body: {}", hex(&wire)));
            built::<InMessage>(c, &m)?;
            built::<OutMessage>(c, &m)
        }
        _ => unreachable!(),
    }
}

pub const C15: Prop = Prop {
    id: "C15",
    rule: "one evaluation = one independently encoded message decoded, inspected, encoded again and parsed \
           independently, in both flavours; distinct = distinct wire bytes",
    streams: |t| {
        vec![
            st("presence", t.k(512, 512 * 20)),
            st("lengths", body_lens(t).len() as u64 * 9),
            st("mixed", t.k(2_000, 80_000)),
            st("many", t.n(7 * MANY.len() as u64, 70 * MANY.len() as u64)),
            st("random", t.k(6_000, 250_000)),
        ]
    },
    run: c15,
};

// ------------------------------------------------------------ C16

fn gen_model(g: &mut Gen, depth: usize) -> Model {
    let mut m = gen_msg(g);
    m.da = None;
    m.ma = None;
    m.footer = None;
    let mut model = Model::from(m);
    if let Some(R::Map(v)) = &model.m.app {
        if v.is_empty() {
            model.m.app = None;
        }
    }
    if depth > 0 && g.rng.chance(1, 3) {
        for _ in 0..g.rng.range(1, 3) {
            model.emb.push(if g.rng.chance(1, 4) {
                Emb::Raw(g.bin())
            } else {
                Emb::Msg(Box::new(gen_model(g, depth - 1)))
            });
        }
    }
    model
}

fn build_model<M: Msg>(m: &Model, rng: &mut Rng) -> M {
    let x: M = build(&m.m);
    let v: Vec<TransferBody> = m.emb.iter().map(|e| build_emb(e, rng)).collect();
    x.set_body(move |b| b.messages.extend(v.iter().cloned()))
}

fn build_emb(e: &Emb, rng: &mut Rng) -> TransferBody {
    match e {
        Emb::Raw(b) => TransferBody::Data(bytes_of(b)),
        Emb::Msg(m) => {
            if rng.bool() {
                build_model::<InMessage>(m, rng).into_body()
            } else {
                build_model::<OutMessage>(m, rng).into_body()
            }
        }
    }
}

fn set_prop(r: &mut Option<R>, k: usize, v: R) {
    if r.is_none() {
        let v: Vec<R> = PROPERTIES.fields.iter().map(|f| f.2.default().unwrap()).collect();
        *r = Some(R::desc(0x73, R::List(v)));
    }
    if let Some(R::Desc(_, l)) = r {
        if let R::List(x) = &mut **l {
            x[k] = v;
        }
    }
}

fn props_with(q: &p::Properties, k: usize, v: &R) -> p::Properties {
    let mut r = Some(q.to_r());
    set_prop(&mut r, k, v.clone());
    FromR::from_r(&r.unwrap())
}

fn history<M: Msg>(c: &mut Ctx, steps: usize) -> Res {
    let mut rng = c.rng.clone();
    let mut log: Vec<String> = Vec::new();
    let mut model = Model::default();
    let mut x: M = match rng.below(4) {
        0 => {
            let b = rng.bytes(20);
            model.m.data.push(b.clone());
            log.push("with_body".into());
            M::with_body(Bytes::from(b))
        }
        1 => {
            let mut v = Vec::new();
            for _ in 0..rng.below(4) {
                let m = gen_model(&mut Gen::with_budget(&mut rng, 60), 1);
                let e = Emb::Msg(Box::new(m));
                v.push(build_emb(&e, &mut rng));
                model.emb.push(e);
            }
            log.push("with_messages".into());
            M::with_messages(v)
        }
        2 => {
            let m = gen_msg(&mut Gen::with_budget(&mut rng, 200));
            if m.is_empty() {
                M::default()
            } else {
                let w = enc_msg(&m, &mut rng, FREE);
                model.m = m;
                log.push("decode".into());
                lib_dec::<M>(&w).map_err(|e| format!("{}: {} refused: {}", M::NAME, hex(&w), e))?.0
            }
        }
        _ => M::default(),
    };
    // snapshots that later operations must not disturb
    let mut kept: Vec<(M, Model, usize)> = Vec::new();
    let mut ops = 0u64;
    for step in 0..steps {
        let what: &'static str;
        match rng.below(17) {
            0 => {
                let h = gen_comp(&HEADER, &mut Gen::with_budget(&mut rng, 30));
                model.m.header = Some(h.clone());
                x = x.set_header(FromR::from_r(&h));
                what = "set_header";
            }
            1 | 2 => {
                let k = rng.below(PROPERTIES.fields.len());
                let f = &PROPERTIES.fields[k];
                let v = if rng.chance(1, 5) {
                    f.2.default().unwrap()
                } else {
                    let n = *rng.pick(&[10usize, 60, 400]);
                    gen_ty(&f.1, &mut Gen::with_budget(&mut rng, n))
                };
                set_prop(&mut model.m.props, k, v.clone());
                x = x.set_props(|q| *q = props_with(q, k, &v));
                what = "set_properties";
            }
            3 | 4 => {
                let (k, v) = {
                    let mut g = Gen::with_budget(&mut rng, 80);
                    (g.text(), g.value(2))
                };
                let k = if rng.chance(1, 3) { "key".to_string() } else { k };
                app_set(&mut model, &k, &v);
                x = x.set_app(str_of(&k), FromR::from_r(&v));
                what = "set_app_property";
            }
            5 => {
                let v = Gen::with_budget(&mut rng, 100).value(2);
                model.m.value = Some(v.clone());
                x = x.set_value(FromR::from_r(&v));
                what = "set_value";
            }
            6 | 7 => match rng.below(7) {
                0 => {
                    let b = Gen::with_budget(&mut rng, 300).bin();
                    model.m.data = vec![b.clone()];
                    x = x.set_body(|y| y.set_data(bytes_of(&b)));
                    what = "set_body(set_data)";
                }
                1 => {
                    let b = Gen::with_budget(&mut rng, 300).bin();
                    model.m.data.push(b.clone());
                    x = x.set_body(|y| y.data.push(bytes_of(&b)));
                    what = "set_body(push data)";
                }
                2 => {
                    let l = Gen::with_budget(&mut rng, 100).list(2);
                    model.m.seq.push(l.clone());
                    x = x.set_body(|y| y.sequence.push(FromR::from_r(&l)));
                    what = "set_body(push sequence)";
                }
                3 => {
                    let m = gen_model(&mut Gen::with_budget(&mut rng, 60), 1);
                    let e = Emb::Msg(Box::new(m));
                    let t = build_emb(&e, &mut rng);
                    if rng.bool() {
                        // the embedded message's size was asked before
                        t.encoded_size();
                    }
                    model.emb.push(e);
                    x = x.set_body(|y| y.messages.push(t.clone()));
                    what = "set_body(push message)";
                }
                4 => {
                    model.m.data.clear();
                    model.m.seq.clear();
                    model.m.value = None;
                    model.emb.clear();
                    x = x.set_body(|y| *y = MessageBody::default());
                    what = "set_body(clear)";
                }
                5 => {
                    model.m.value = None;
                    x = x.set_body(|y| y.value = None);
                    what = "set_body(no value)";
                }
                _ => {
                    x = x.set_body(|_| ());
                    what = "set_body(nothing)";
                }
            },
            8 => {
                let v = Gen::with_budget(&mut rng, 60).value(1);
                let h = gen_comp(&HEADER, &mut Gen::with_budget(&mut rng, 30));
                match rng.below(4) {
                    0 => {
                        model.m.value = Some(v.clone());
                        model.m.header = Some(h.clone());
                        x = x.update(|m| m.set_value(FromR::from_r(&v)).set_header(FromR::from_r(&h)));
                    }
                    1 => {
                        app_set(&mut model, "upd", &v);
                        x = x.update(|m| {
                            m.encoded_size();
                            let m = m.set_app(str_of("upd"), FromR::from_r(&v));
                            m.encoded_size();
                            m
                        });
                    }
                    2 => {
                        set_prop(&mut model.m.props, 3, R::str("subj"));
                        x = x.update(|m| m.set_props(|q| q.subject = Some(byte_str("subj"))));
                    }
                    _ => x = x.update(|m| m),
                }
                what = "update";
            }
            9 => {
                let v = Gen::with_budget(&mut rng, 60).value(1);
                let some = rng.bool();
                let arg = if some { Some(v.clone()) } else { None };
                if some {
                    app_set(&mut model, "cond", &v);
                }
                x = x.if_some(&arg, |m, y| m.set_app(str_of("cond"), FromR::from_r(y)));
                what = if some { "if_some(Some)" } else { "if_some(None)" };
            }
            10 | 11 => {
                let n = x.encoded_size();
                ensure!(n == x.encoded_size(), "{}: two size queries differ", M::NAME);
                what = "encoded_size";
            }
            12 => {
                let e = lib_enc(&x);
                model.check(&e).map_err(|m| format!("{} after {:?}: {}", M::NAME, log, m))?;
                what = "encode";
            }
            13 => {
                if rng.bool() {
                    kept.push((x.clone(), model.clone(), step));
                } else {
                    let y = x.clone();
                    kept.push((x, model.clone(), step));
                    x = y;
                }
                what = "clone";
            }
            14 => {
                // a message equals another holding the same, asked for its size or not
                let y = x.clone();
                if rng.bool() {
                    y.encoded_size();
                } else {
                    x.encoded_size();
                }
                let e = lib_enc(&x);
                let r = parse_sections(&e).map(|v| !has_nan(&R::List(v))).unwrap_or(true);
                if r {
                    ensure!(x == y && y == x, "{} differs from its clone after {:?}", M::NAME, log);
                    let z = x.clone().set_app(str_of("\u{1}only here"), Variant::Null);
                    ensure!(x != z && z != x, "{} equals one with another property", M::NAME);
                    ensure!(z.encoded_size() > x.encoded_size(), "{}: size does not grow with a property", M::NAME);
                }
                what = "compare";
            }
            15 => {
                model.getters(&x).map_err(|m| format!("{} after {:?}", m, log))?;
                what = "getters";
            }
            _ => {
                let r = x.reply();
                let id = x.properties().and_then(|q| q.message_id.clone());
                let cid = r.properties().and_then(|q| q.correlation_id.clone());
                ensure!(id == cid, "reply to {:?} has correlation id {:?}", id, cid);
                let n = r.encoded_size();
                let e = lib_enc(&r);
                ensure!(n == e.len(), "reply: announced size {} but {} bytes", n, e.len());
                let (back, _) = lib_dec::<InMessage>(&e).map_err(|e| format!("reply refused: {}", e))?;
                let cid = back.properties().and_then(|q| q.correlation_id.clone());
                ensure!(id == cid, "reply to {:?} arrives with correlation id {:?}", id, cid);
                what = "reply_message";
            }
        }
        log.push(what.to_string());
        c.count(what, 1);
        ops += 1;
        // the announced size is right at every point, but not always asked for
        if rng.chance(1, 4) {
            let n = x.encoded_size();
            let e = lib_enc(&x);
            ensure!(n == e.len(), "{} after {:?}: announced size {} but {} bytes", M::NAME, log, n, e.len());
            log.push("size".into());
        }
    }
    let fin = |x: &M, model: &Model, when: &str| -> Res {
        model.getters(x).map_err(|m| format!("{} {} of {:?}", m, when, log))?;
        let n = x.encoded_size();
        let e = lib_enc(x);
        ensure!(n == e.len(), "{} {} of {:?}: announced size {} but {} bytes", M::NAME, when, log, n, e.len());
        model.check(&e).map_err(|m| format!("{} {} of {:?}: {}", M::NAME, when, log, m))
    };
    fin(&x, &model, "at the end")?;
    for (y, m, at) in &kept {
        fin(y, m, &format!("(clone taken at step {}) at the end", at))?;
    }
    let e = encode_checked(&x, &mut rng, M::NAME)?;
    c.count("snapshots", kept.len() as u64);
    c.obs(mix(hash_bytes(&e) ^ ops), ops > 1, || format!("{}: {}", M::NAME, log.join(" ")));
    Ok(())
}

fn has_nan(r: &R) -> bool {
    match r {
        R::F32(b) => f32::from_bits(*b).is_nan(),
        R::F64(b) => f64::from_bits(*b).is_nan(),
        R::List(v) | R::Array(v) => v.iter().any(has_nan),
        R::Map(v) => v.iter().any(|x| has_nan(&x.0) || has_nan(&x.1)),
        R::Desc(_, v) => has_nan(v),
        _ => false,
    }
}

fn app_set(m: &mut Model, k: &str, v: &R) {
    let key = R::str(k);
    let mut l = match m.m.app.take() {
        Some(R::Map(l)) => l,
        _ => vec![],
    };
    l.retain(|x| x.0 != key);
    l.push((key, v.clone()));
    m.m.app = Some(R::Map(l));
}

/// every pair of operations with a size query between them
fn pairs<M: Msg>(c: &mut Ctx, i: u64) -> Res {
    type Op<M> = fn(M, usize, &mut Model) -> M;
    let ops: [Op<M>; 9] = [
        |m, n, d| {
            let h = R::desc(
                0x70,
                R::List(vec![R::Bool(true), R::U8(9), R::U32(n as u32 * 1000), R::Bool(false), R::U32(n as u32)]),
            );
            d.m.header = Some(h.clone());
            m.set_header(FromR::from_r(&h))
        },
        |m, n, d| {
            let v = R::Bin(vec![7; n]);
            set_prop(&mut d.m.props, 0, v.clone());
            m.set_props(|q| *q = props_with(q, 0, &v))
        },
        |m, n, d| {
            let v = R::Str("v".repeat(n));
            app_set(d, "k", &v);
            m.set_app(str_of("k"), FromR::from_r(&v))
        },
        |m, n, d| {
            let v = R::Str("w".repeat(n));
            d.m.value = Some(v.clone());
            m.set_value(FromR::from_r(&v))
        },
        |m, n, d| {
            d.m.data = vec![vec![1; n]];
            m.set_body(|b| b.set_data(Bytes::from(vec![1; n])))
        },
        |m, n, d| {
            let v = R::List(vec![R::Bin(vec![1; n])]);
            d.m.seq.push(v.clone());
            m.set_body(|b| b.sequence.push(FromR::from_r(&v)))
        },
        |m, n, d| {
            let v = R::Str("u".repeat(n));
            app_set(d, "upd", &v);
            m.update(|x| x.set_app(str_of("upd"), FromR::from_r(&v)))
        },
        |m, n, d| {
            let v = R::Str("c".repeat(n));
            app_set(d, "cond", &v);
            m.if_some(&Some(v), |x, v| x.set_app(str_of("cond"), FromR::from_r(v)))
        },
        |m, n, d| {
            d.emb.push(Emb::Raw(vec![3; n]));
            m.set_body(|b| b.messages.push(TransferBody::Data(Bytes::from(vec![3; n]))))
        },
    ];
    let (a, b) = ((i % 9) as usize, (i / 9 % 9) as usize);
    let lens = [0usize, 1, 17, 240, 250, 255, 256, 300, 70_000];
    for n in &lens {
        for k in &lens {
            let mut model = Model::default();
            let m = M::default();
            m.encoded_size();
            let m = ops[a](m, *n, &mut model);
            m.encoded_size();
            let m = ops[b](m, *k, &mut model);
            let s = m.encoded_size();
            let e = lib_enc(&m);
            ensure!(
                s == e.len(),
                "{}: announced size {} but {} bytes after operations {} ({}) and {} ({})",
                M::NAME,
                s,
                e.len(),
                a,
                n,
                b,
                k
            );
            if *n < 1000 && *k < 1000 {
                model.check(&e).map_err(|x| format!("{} after operations {} and {}: {}", M::NAME, a, b, x))?;
                model.getters(&m)?;
            }
            c.obs(mix(hash_bytes(&e) ^ (a * 9 + b) as u64), true, || format!("{}: pair {} {} {} {}", M::NAME, a, b, n, k));
        }
    }
    Ok(())
}

fn c16(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "pairs" => {
            if i % 2 == 0 {
                pairs::<InMessage>(c, i / 2)
            } else {
                pairs::<OutMessage>(c, i / 2)
            }
        }
        "histories" => {
            let n = *c.rng.pick(&[2usize, 4, 8, 16, 30]);
            if i % 2 == 0 {
                history::<InMessage>(c, n)
            } else {
                history::<OutMessage>(c, n)
            }
        }
        _ => {
            let n = c.rng.range(60, 200);
            if i % 2 == 0 {
                history::<InMessage>(c, n)
            } else {
                history::<OutMessage>(c, n)
            }
        }
    }
}

pub const C16: Prop = Prop {
    id: "C16",
    rule: "one evaluation = one history of builder operations, size queries, encodings, clones and comparisons checked \
           against a model; distinct = distinct final bytes and length; trivial = at most one operation",
    streams: |t| vec![st("pairs", 162), st("histories", t.k(12_000, 500_000)), st("long", t.k(200, 8_000))],
    run: c16,
};

// ------------------------------------------------------------ C17

fn transfer(rng: &mut Rng, body: Option<TransferBody>) -> p::Transfer {
    let r = gen_comp(&TRANSFER, &mut Gen::with_budget(rng, 100));
    let mut t = p::Transfer::from_r(&r);
    t.body = body;
    t
}

/// payload -> transfer -> frame -> (codec) -> frame -> payload
fn carry(c: &mut Ctx, rng: &mut Rng, body: TransferBody, want: Result<&[u8], &Model>) -> Res {
    let n = body.len();
    ensure!(n == body.encoded_size(), "TransferBody::len() {} is not its size {}", n, body.encoded_size());
    let raw = encode_checked(&body, rng, "TransferBody")?;
    match want {
        Ok(b) => ensure!(raw == b, "payload {} is emitted as {}", hex(b), hex(&raw)),
        Err(m) => m.check(&raw).map_err(|e| format!("message payload: {}", e))?,
    }
    let t = transfer(rng, Some(body));
    let head = lib_enc(&{
        let mut x = t.clone();
        x.body = None;
        x
    });
    let te = encode_checked(&t, rng, "Transfer")?;
    ensure!(te.len() == head.len() + n, "Transfer: {} bytes, {} + {} expected", te.len(), head.len(), n);
    ensure!(te[head.len()..] == raw[..], "Transfer: the payload is not at the end");
    let frame = AmqpFrame::new(rng.u64() as u16, p::Frame::Transfer(t));
    let fe = encode_checked(&frame, rng, "AmqpFrame")?;
    ensure!(fe[fe.len() - n..] == raw[..], "AmqpFrame: the payload is not at its end");
    ensure!(get4(&fe) == fe.len(), "AmqpFrame: size field {} of {} bytes", get4(&fe), fe.len());
    // through the codec, between two other frames
    let mut codec = AmqpCodec::<AmqpFrame>::new();
    let mut buf = BytesMut::new();
    let other = || AmqpFrame::new(7, p::Frame::Empty);
    for f in vec![other(), frame.clone(), other()] {
        codec.encode(f, &mut buf).map_err(|e| format!("encode: {:?}", e))?;
    }
    let mut src = BytesMut::new();
    let mut got = Vec::new();
    let all = buf.to_vec();
    let mut pos = 0;
    while pos < all.len() {
        let k = if all.len() > 5000 { rng.range(1, 20_000) } else { rng.range(1, 400) }.min(all.len() - pos);
        src.extend_from_slice(&all[pos..pos + k]);
        pos += k;
        while let Some(f) = codec.decode(&mut src).map_err(|e| format!("decode: {:?}", e))? {
            got.push(f);
        }
    }
    ensure!(got.len() == 3, "{} frames instead of 3", got.len());
    ensure!(got[0] == other() && got[2] == other(), "frames around the transfer changed");
    let (ch, perf) = got.remove(1).into_parts();
    ensure!(ch == frame.channel_id(), "channel {} instead of {}", ch, frame.channel_id());
    let t2 = match perf {
        p::Frame::Transfer(t) => t,
        x => return Err(format!("transfer arrives as {:?}", x)),
    };
    match (t2.body(), n) {
        (None, 0) => {}
        (Some(TransferBody::Data(b)), _) => ensure!(b[..] == raw[..], "payload {} arrives as {}", hex(&raw), hex(b)),
        (x, _) => return Err(format!("payload of {} bytes arrives as {:?}", n, x)),
    }
    if let (Err(m), Some(TransferBody::Data(b))) = (want, t2.body()) {
        // as a message again, in both flavours
        let (x, _) = lib_dec::<InMessage>(b).map_err(|e| format!("payload refused as InMessage: {} {}", e, hex(b)))?;
        let (y, _) = lib_dec::<OutMessage>(b).map_err(|e| format!("payload refused as OutMessage: {} {}", e, hex(b)))?;
        let mut flat = Model::default();
        flat.m = m.flat(b)?;
        flat.getters(&x)?;
        flat.getters(&y)?;
        // embedded messages, at the end of the data sections
        let k = flat.m.data.len() - m.emb.len();
        for (e, d) in m.emb.iter().zip(&x.body().data[k..]) {
            unpack(e, d)?;
        }
        c.count("embedded", m.emb.len() as u64);
    }
    c.count("payload_bytes", n as u64);
    c.max("payload", n as u64);
    c.obs(hash_bytes(&fe), n > 0, || format!("transfer of {} payload bytes: {}", n, hex(&raw)));
    Ok(())
}

fn get4(b: &[u8]) -> usize {
    super::inputs::get_be(b, 0, 4) as usize
}

/// an embedded message decodes back to the one put in, recursively
fn unpack(e: &Emb, d: &Bytes) -> Res {
    match e {
        Emb::Raw(b) => {
            ensure!(b[..] == d[..], "embedded bytes {} arrive as {}", hex(b), hex(d));
            Ok(())
        }
        Emb::Msg(m) => {
            let (x, left) = lib_dec::<InMessage>(d).map_err(|e| format!("embedded message refused: {} {}", e, hex(d)))?;
            ensure!(left == 0, "embedded message: {} bytes left", left);
            let mut flat = Model::default();
            flat.m = m.flat(d)?;
            flat.getters(&x).map_err(|e| format!("embedded message: {}", e))?;
            let k = flat.m.data.len() - m.emb.len();
            for (e, d) in m.emb.iter().zip(&x.body().data[k..]) {
                unpack(e, d)?;
            }
            Ok(())
        }
    }
}

/// values, sections, messages, frames, protocol headers: whole, cut short, in any order
fn lookalike(rng: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    let n = rng.range(1, 3);
    for _ in 0..n {
        match rng.below(6) {
            0 => {
                let m = gen_msg(&mut Gen::with_budget(rng, 60));
                let mut secs = m.sections();
                if rng.bool() {
                    secs.reverse();
                }
                b.extend(enc_sections(&secs, rng, FREE));
            }
            1 => {
                let f = gen_frame(&mut Gen::with_budget(rng, 40));
                b.extend(enc_frame(&f, rng, FREE, 0));
            }
            2 => {
                let r = Gen::with_budget(rng, 40).value(2);
                b.extend(enc_rand(&r, rng));
            }
            3 => {
                b.extend_from_slice(b"AMQP");
                b.extend_from_slice(&[rng.below(4) as u8, 1, 0, 0]);
            }
            4 => {
                b.extend_from_slice(&[0, 0x53, *rng.pick(&[0x70u8, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x14, 0x24])]);
                let k = rng.below(12);
                b.extend(rng.bytes(k));
            }
            _ => {
                let k = gen_comp(*rng.clone().pick(ALL), &mut Gen::with_budget(rng, 40));
                b.extend(comp_rand(comp_by_code(code_of(&k)), &k, rng, FREE));
            }
        }
    }
    if rng.chance(1, 3) {
        let k = rng.range(0, b.len());
        b.truncate(k.max(1));
    }
    if b.is_empty() {
        b.push(0);
    }
    b
}

fn c17(c: &mut Ctx, s: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    match s {
        "raw" => {
            let n = body_lens(c.tier)[i as usize];
            let b = rng.bytes(n);
            let body = TransferBody::Data(bytes_of(&b));
            ensure!(body.message_format().is_none(), "raw data has a message format");
            carry(c, &mut rng, body, Ok(&b))
        }
        // payloads by content: every single byte, every pair (a sample of them in the quick tier), shapes of every short length
        "contents" => {
            let mut v: Vec<Vec<u8>> = Vec::new();
            match i {
                0..=255 => {
                    let b = i as u8;
                    v.push(vec![b]);
                    for n in 2..6 {
                        v.push(vec![b; n]);
                    }
                    for x in &[0u8, 1, 0x40, 0x53, 0x75, 0xff, b.wrapping_add(1)] {
                        v.push(vec![b, *x]);
                        v.push(vec![*x, b]);
                        v.push(vec![b, *x, 0]);
                        v.push(vec![0, *x, b]);
                    }
                    for x in crate::gen::BYTES {
                        let mut y = x.to_vec();
                        y.push(b);
                        v.push(y.clone());
                        y.rotate_right(1);
                        v.push(y);
                    }
                }
                256..=400 => {
                    let p = crate::gen::BYTES[i as usize % crate::gen::BYTES.len()];
                    for _ in 0..12 {
                        let n = rng.range(1, 40);
                        v.push(p.iter().cycle().take(n).cloned().collect());
                    }
                }
                _ => {
                    for _ in 0..12 {
                        let n = rng.range(1, 24);
                        v.push(Gen::with_budget(&mut rng, 100).bin_len(n));
                        v.push(rng.bytes(2));
                    }
                    // payloads that look like something the codec knows
                    for _ in 0..8 {
                        v.push(lookalike(&mut rng));
                    }
                }
            }
            for b in v {
                carry(c, &mut rng, TransferBody::Data(bytes_of(&b)), Ok(&b))?;
                // as a data section, and as a member of a batch
                let mut m = Model::default();
                match rng.below(3) {
                    0 => m.m.data.push(b),
                    1 => {
                        m.m.data.push(b.clone());
                        m.m.data.push(b);
                    }
                    _ => m.emb.push(Emb::Raw(b)),
                }
                let body = if rng.bool() {
                    build_model::<InMessage>(&m, &mut rng).into_body()
                } else {
                    build_model::<OutMessage>(&m, &mut rng).into_body()
                };
                carry(c, &mut rng, body, Err(&m))?;
            }
            Ok(())
        }
        "messages" => {
            let budget = *rng.pick(&[60usize, 200, 1000]);
            let m = gen_model(&mut Gen::with_budget(&mut rng, budget), 3);
            let f = if rng.bool() { Some(rng.u64() as u32) } else { None };
            let body = if rng.bool() {
                let mut x: InMessage = build_model(&m, &mut rng);
                x.message_format = f;
                x.into_body()
            } else {
                let mut x: OutMessage = build_model(&m, &mut rng);
                x.message_format = f;
                x.into_body()
            };
            ensure!(body.message_format() == f, "message format {:?} instead of {:?}", body.message_format(), f);
            if rng.bool() {
                body.encoded_size();
            }
            carry(c, &mut rng, body, Err(&m))
        }
        // messages decoded off the wire and forwarded, annotations and footer included
        "forwarded" => {
            let m = gen_msg(&mut Gen::with_budget(&mut rng, 300));
            if m.is_empty() {
                return Ok(());
            }
            let w = enc_msg(&m, &mut rng, FREE);
            let body = if rng.bool() {
                lib_dec::<InMessage>(&w).map_err(|e| format!("{} refused: {}", hex(&w), e))?.0.into_body()
            } else {
                lib_dec::<OutMessage>(&w).map_err(|e| format!("{} refused: {}", hex(&w), e))?.0.into_body()
            };
            carry(c, &mut rng, body, Err(&Model::from(m)))
        }
        // batches whose members have every size around the switch of the length field
        "batches" => {
            let mut m = Model::default();
            let n = rng.range(1, 12);
            for k in 0..n {
                let len = match rng.below(3) {
                    0 => 225 + (i as usize + k) % 40,
                    1 => rng.below(40),
                    _ => rng.range(200, 300),
                };
                let mut e = Model::default();
                match rng.below(4) {
                    0 => e.m.data.push(rng.bytes(len)),
                    1 => e.m.value = Some(R::Bin(rng.bytes(len))),
                    2 => {
                        e.m.data.push(rng.bytes(len / 2));
                        e.m.data.push(rng.bytes(len - len / 2));
                    }
                    _ => {
                        m.emb.push(Emb::Raw(rng.bytes(len)));
                        continue;
                    }
                }
                m.emb.push(Emb::Msg(Box::new(e)));
            }
            if rng.bool() {
                m.m.data.push(rng.bytes(5));
                m.m.data.push(vec![]);
            }
            let body = if rng.bool() {
                build_model::<InMessage>(&m, &mut rng).into_body()
            } else {
                build_model::<OutMessage>(&m, &mut rng).into_body()
            };
            c.count("batched", n as u64);
            carry(c, &mut rng, body, Err(&m))
        }
        // more members than 8 and 16 bits can count
        "many" => {
            let n = [254usize, 300, 1_000, 4_095, 65_534, 70_000][i as usize % 6] + rng.below(3);
            let mut m = Model::default();
            let mut e = Model::default();
            for k in 0..n {
                match i / 6 % 4 {
                    0 => m.emb.push(Emb::Raw(vec![k as u8, (k >> 8) as u8])),
                    1 => m.m.data.push(vec![k as u8, (k >> 8) as u8]),
                    2 => m.m.seq.push(R::List(vec![R::U16(k as u16)])),
                    _ => e.emb.push(Emb::Raw(vec![k as u8])),
                }
            }
            if i / 6 % 4 == 3 {
                m.emb.push(Emb::Msg(Box::new(e)));
            }
            let body = if rng.bool() {
                build_model::<InMessage>(&m, &mut rng).into_body()
            } else {
                build_model::<OutMessage>(&m, &mut rng).into_body()
            };
            c.count("batched", n as u64);
            carry(c, &mut rng, body, Err(&m))
        }
        // members longer than 2^8, 2^16 and 2^24 bytes, at every position
        "large" => {
            let sizes = [65_500usize, 65_520, 65_525, 65_530, 65_535, 65_536, 65_540, 70_001, 131_072, 200_003, (1 << 24) - 8, (1 << 24) + 3];
            let len = sizes[i as usize / 6];
            let mut m = Model::default();
            for k in 0..3 {
                let len = if k == i % 3 { len } else { rng.below(300) };
                let mut e = Model::default();
                if i % 6 < 3 {
                    e.m.data.push(rng.bytes(len));
                } else {
                    // the same one level further down
                    let mut f = Model::default();
                    f.m.value = Some(R::Bin(rng.bytes(len)));
                    e.emb.push(Emb::Msg(Box::new(f)));
                    e.emb.push(Emb::Raw(rng.bytes(9)));
                }
                m.emb.push(Emb::Msg(Box::new(e)));
            }
            let body = if rng.bool() {
                build_model::<InMessage>(&m, &mut rng).into_body()
            } else {
                build_model::<OutMessage>(&m, &mut rng).into_body()
            };
            c.count("batched", 3);
            carry(c, &mut rng, body, Err(&m))
        }
        "with_messages" => {
            let n = rng.below(20);
            let emb: Vec<Emb> = (0..n)
                .map(|_| Emb::Msg(Box::new(gen_model(&mut Gen::with_budget(&mut rng, 80), 1))))
                .collect();
            let v: Vec<TransferBody> = emb.iter().map(|e| build_emb(e, &mut rng)).collect();
            let m = Model { m: RMsg::default(), emb };
            let body = if rng.bool() {
                InMessage::with_messages(v).into_body()
            } else {
                OutMessage::with_messages(v).into_body()
            };
            c.count("batched", n as u64);
            carry(c, &mut rng, body, Err(&m))
        }
        _ => unreachable!(),
    }
}

pub const C17: Prop = Prop {
    id: "C17",
    rule: "one evaluation = one payload carried by a transfer through frame and stream codec and compared byte for \
           byte; distinct = distinct frame bytes; trivial = empty payload",
    streams: |t| {
        vec![
            st("raw", body_lens(t).len() as u64),
            st("contents", t.n(700, 6_000)),
            st("messages", t.k(6_000, 250_000)),
            st("forwarded", t.k(3_000, 120_000)),
            st("batches", t.k(1_500, 60_000)),
            st("large", 72),
            st("many", t.n(24, 96)),
            st("with_messages", t.k(800, 30_000)),
        ]
    },
    run: c17,
};
