//! C27: conversions, constructors and accessors.

use std::borrow::Borrow;
use std::collections::HashMap as StdMap;

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, Encode, InMessage, MessageBody, OutMessage, SaslFrame};
use bytes::Bytes;
use chrono::{DateTime, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use uuid::Uuid;

use crate::by_comp;
use crate::conv::*;
use crate::ctx::*;
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_bytes, hash_str};
use crate::rval::*;
use crate::spec::*;

fn same_enc<A: Encode, B: Encode>(what: &str, a: &A, b: &B) -> Res {
    let (x, y) = (lib_enc(a), lib_enc(b));
    ensure!(x == y, "{}: encodes to {}, the plain value to {}", what, hex(&x), hex(&y));
    ensure!(
        a.encoded_size() == b.encoded_size(),
        "{}: announces {} bytes, the plain value {}",
        what,
        a.encoded_size(),
        b.encoded_size()
    );
    Ok(())
}

/// the dynamic value made from x is the variant of that type, holding x
fn variant_of<T>(c: &mut Ctx, x: T, want: R) -> Res
where
    T: Into<Variant> + Clone + Encode,
{
    let v: Variant = x.clone().into();
    let got = v.to_r();
    c.obs(hash_str(&want.show()) ^ 1, true, || format!("Variant from {}", want.show()));
    c.count(&format!("variant_from_{}", want.kind()), 1);
    ensure!(got == want, "Variant from {} is {}", want.show(), got.show());
    ensure!(v.clone().to_r() == want, "a clone of Variant from {} is {}", want.show(), v.clone().to_r().show());
    if want.clone().kind() != "string" && want.kind() != "symbol" {
        ensure!(v.as_str().is_none(), "Variant from {}: as_str gives {:?}", want.show(), v.as_str());
        ensure!(v.as_bytes_str().is_none(), "Variant from {}: as_bytes_str gives a text", want.show());
        for t in &["", "0", "true", "null"] {
            ensure!(v != **t, "Variant from {} equals the text {:?}", want.show(), t);
        }
    }
    same_enc(&format!("Variant from {}", want.show()), &v, &x)
}

fn scalar(c: &mut Ctx, r: &R) -> Res {
    match r {
        R::Bool(x) => variant_of(c, *x, r.clone()),
        R::U8(x) => variant_of(c, *x, r.clone()),
        R::U16(x) => variant_of(c, *x, r.clone()),
        R::U32(x) => variant_of(c, *x, r.clone()),
        R::U64(x) => {
            message_id(c, *x, r)?;
            variant_of(c, *x, r.clone())
        }
        R::I8(x) => variant_of(c, *x, r.clone()),
        R::I16(x) => variant_of(c, *x, r.clone()),
        R::I32(x) => variant_of(c, *x, r.clone()),
        R::I64(x) => variant_of(c, *x, r.clone()),
        R::F32(x) => {
            let f = f32::from_bits(*x);
            let v: Variant = OrderedFloat(f).into();
            ensure!(v.to_r() == *r, "Variant from {} is {}", r.show(), v.to_r().show());
            c.count("variant_from_float", 1);
            same_enc(&r.show(), &v, &f)
        }
        R::F64(x) => {
            let f = f64::from_bits(*x);
            let v: Variant = OrderedFloat(f).into();
            ensure!(v.to_r() == *r, "Variant from {} is {}", r.show(), v.to_r().show());
            c.count("variant_from_double", 1);
            same_enc(&r.show(), &v, &f)
        }
        R::Char(_) => variant_of(c, char::from_r(r), r.clone()),
        R::Ts(_) => variant_of(c, DateTime::<Utc>::from_r(r), r.clone()),
        R::Uuid(_) => {
            let u = Uuid::from_r(r);
            message_id(c, u, r)?;
            variant_of(c, u, r.clone())
        }
        R::Bin(_) => {
            let b = Bytes::from_r(r);
            message_id(c, b.clone(), r)?;
            payload(c, &b)?;
            variant_of(c, b, r.clone())
        }
        R::Str(s) => texts(c, s),
        R::Sym(s) => texts(c, s),
        _ => Ok(()),
    }
}

fn message_id<T: Into<p::MessageId> + Encode + Clone>(c: &mut Ctx, x: T, want: &R) -> Res {
    let m: p::MessageId = x.clone().into();
    c.count(&format!("message_id_from_{}", want.kind()), 1);
    ensure!(m.to_r() == *want, "MessageId from {} is {}", want.show(), m.to_r().show());
    same_enc(&format!("MessageId from {}", want.show()), &m, &x)
}

fn payload(c: &mut Ctx, b: &Bytes) -> Res {
    c.count("bodies", 1);
    let t: p::TransferBody = b.clone().into();
    match &t {
        p::TransferBody::Data(x) => ensure!(x == b, "payload from {} holds {}", hex(b), hex(x)),
        _ => return Err(format!("payload from bytes {} is not data", hex(b))),
    }
    ensure!(t.len() == b.len(), "payload of {} bytes has length {}", b.len(), t.len());
    ensure!(t.message_format().is_none(), "payload of plain bytes has format {:?}", t.message_format());
    ensure!(lib_enc(&t) == b[..], "payload {} encodes to {}", hex(b), hex(&lib_enc(&t)));
    let i = InMessage::with_body(b.clone());
    let o = OutMessage::with_body(b.clone());
    for (what, x) in &[("InMessage", i.body()), ("OutMessage", o.body())] {
        ensure!(x.data() == Some(b), "{}::with_body({}) has body {:?}", what, hex(b), x.data());
        ensure!(x.data.len() == 1 && x.sequence.is_empty() && x.messages.is_empty() && x.value.is_none(), "{}::with_body({}): {:?}", what, hex(b), x);
    }
    let mut m = MessageBody::default();
    ensure!(m.data().is_none() && m.value().is_none(), "an empty body has content");
    m.data.push(Bytes::from(&b"first"[..]));
    m.data.push(Bytes::from(&b"second"[..]));
    m.set_data(b.clone());
    ensure!(m.data() == Some(b) && m.data.len() == 1, "set_data({}) leaves {:?}", hex(b), m.data);
    Ok(())
}

// ------------------------------------------------------------ text

fn text_view(what: &str, s: &str, bytes: &[u8], st: &str, bs: ByteStr, len: usize) -> Res {
    ensure!(bytes == s.as_bytes(), "{} of {:?}: as_bytes is {}", what, s, hex(bytes));
    ensure!(st == s, "{} of {:?}: as_str is {:?}", what, s, st);
    let got: &str = bs.as_ref();
    ensure!(got == s, "{} of {:?}: as_bytes_str is {:?}", what, s, got);
    let raw: &[u8] = bs.get_ref().as_ref();
    ensure!(raw == s.as_bytes(), "{} of {:?}: as_bytes_str holds {}", what, s, hex(raw));
    ensure!(len == s.len(), "{} of {:?} ({} bytes): len is {}", what, s, s.len(), len);
    Ok(())
}

fn other_texts(s: &str) -> Vec<String> {
    let mut v = vec![format!("{}x", s), format!("x{}", s), format!("{}\0", s), format!("{} ", s)];
    if let Some((i, ch)) = s.char_indices().last() {
        v.push(s[..i].to_string());
        v.push(format!("{}{}", &s[..i], if ch == 'q' { 'r' } else { 'q' }));
    }
    if let Some(ch) = s.chars().next() {
        v.push(s[ch.len_utf8()..].to_string());
        v.push(format!("{}{}", if ch == 'q' { 'r' } else { 'q' }, &s[ch.len_utf8()..]));
    }
    let (u, l) = (s.to_uppercase(), s.to_lowercase());
    v.push(u);
    v.push(l);
    v.retain(|x| x != s);
    v
}

fn texts(c: &mut Ctx, s: &str) -> Res {
    c.obs(hash_str(s), true, || format!("text {:?} by every route", s));
    c.count("texts", 1);
    c.max("text_bytes", s.len() as u64);
    let fixed = static_of(s);
    let others = other_texts(s);
    // every way to make a string
    let mut strs: Vec<(&str, Str)> =
        vec![("Str::from_str", Str::from_str(s)), ("Str::from(ByteStr)", Str::from(byte_str(s))), ("Str::from(ByteStr)", Str::from(byte_str(s)))];
    if let Some(f) = fixed {
        strs.push(("Str::from(&'static str)", Str::from(f)));
    }
    let first = lib_enc(&strs[0].1);
    for (what, x) in &strs {
        text_view(what, s, x.as_bytes(), x.as_str(), x.as_bytes_str(), x.len())?;
        let y = x.clone();
        text_view(what, s, y.as_bytes(), y.as_str(), y.as_bytes_str(), y.len())?;
        let b: &str = (*x).borrow();
        ensure!(b == s, "{} of {:?}: borrows as {:?}", what, s, b);
        ensure!(*x == *s, "{} of {:?} does not equal it", what, s);
        for o in &others {
            ensure!(*x != **o, "{} of {:?} equals {:?}", what, s, o);
        }
        ensure!(lib_enc(x) == first, "{} of {:?}: encodes to {}, otherwise {}", what, s, hex(&lib_enc(x)), hex(&first));
        ensure!(x.encoded_size() == first.len(), "{} of {:?}: announces {} bytes for {}", what, s, x.encoded_size(), first.len());
        // text keys can be looked up by plain text
        let mut m: StdMap<Str, u32> = StdMap::new();
        for o in &others {
            m.insert(Str::from_str(o), 1);
        }
        m.insert(x.clone(), 7);
        ensure!(m.get(s) == Some(&7), "{} of {:?} as a key is not found by text", what, s);
        let v: Variant = x.clone().into();
        text_variant(what, s, &v, R::str(s), &others)?;
        same_enc(&format!("Variant from {} of {:?}", what, s), &v, x)?;
    }
    let bs = byte_str(s);
    let v: Variant = bs.clone().into();
    text_variant("ByteStr", s, &v, R::str(s), &others)?;
    same_enc(&format!("Variant from ByteStr of {:?}", s), &v, &bs)?;
    message_id(c, bs, &R::str(s))?;
    if let Some(f) = fixed {
        let v: Variant = f.into();
        text_variant("&'static str", s, &v, R::str(s), &others)?;
        ensure!(lib_enc(&v) == first, "Variant from &'static {:?} encodes to {}, not {}", s, hex(&lib_enc(&v)), hex(&first));
    }
    // every way to make a symbol
    let mut syms: Vec<(&str, Symbol)> = vec![
        ("Symbol::from_slice", Symbol::from_slice(s)),
        ("Symbol::from(ByteStr)", Symbol::from(byte_str(s))),
        ("Symbol(Str)", Symbol(str_of(s))),
    ];
    if let Some(f) = fixed {
        syms.push(("Symbol::from(&'static str)", Symbol::from(f)));
    }
    let first = lib_enc(&syms[0].1);
    for (what, x) in &syms {
        text_view(what, s, x.as_bytes(), x.as_str(), x.as_bytes_str(), x.len())?;
        let y = x.clone();
        text_view(what, s, y.as_bytes(), y.as_str(), y.as_bytes_str(), y.len())?;
        let b: &str = (*x).borrow();
        ensure!(b == s, "{} of {:?}: borrows as {:?}", what, s, b);
        ensure!(*x == *s, "{} of {:?} does not equal it", what, s);
        for o in &others {
            ensure!(*x != **o, "{} of {:?} equals {:?}", what, s, o);
        }
        ensure!(lib_enc(x) == first, "{} of {:?}: encodes to {}, otherwise {}", what, s, hex(&lib_enc(x)), hex(&first));
        ensure!(x.encoded_size() == first.len(), "{} of {:?}: announces {} bytes for {}", what, s, x.encoded_size(), first.len());
        let mut m: StdMap<Symbol, u32> = StdMap::new();
        for o in &others {
            m.insert(Symbol::from_slice(o), 1);
        }
        m.insert(x.clone(), 7);
        ensure!(m.get(s) == Some(&7), "{} of {:?} as a key is not found by text", what, s);
        let v: Variant = x.clone().into();
        text_variant(what, s, &v, R::sym(s), &others)?;
        same_enc(&format!("Variant from {} of {:?}", what, s), &v, x)?;
        let e: p::ErrorCondition = x.clone().into();
        match &e {
            p::ErrorCondition::Custom(y) => ensure!(y == x, "ErrorCondition from the symbol {:?} holds {:?}", s, y),
            y => return Err(format!("ErrorCondition from the symbol {:?} is {:?}", s, y)),
        }
        same_enc(&format!("ErrorCondition from {} of {:?}", what, s), &e, x)?;
    }
    if let Some(f) = fixed {
        let x = StaticSymbol::from(f);
        ensure!(x.0 == s, "StaticSymbol::from({:?}) holds {:?}", s, x.0);
        ensure!(lib_enc(&x) == first, "StaticSymbol {:?} encodes to {}, as symbol {}", s, hex(&lib_enc(&x)), hex(&first));
        let v: Variant = x.clone().into();
        match &v {
            Variant::StaticSymbol(y) => ensure!(*y == x, "Variant from StaticSymbol {:?} holds {:?}", s, y),
            y => return Err(format!("Variant from StaticSymbol {:?} is {:?}", s, y)),
        }
        ensure!(lib_enc(&v) == first, "Variant from StaticSymbol {:?} encodes to {}, not {}", s, hex(&lib_enc(&v)), hex(&first));
        ensure!(v.encoded_size() == first.len(), "Variant from StaticSymbol {:?} announces {} bytes for {}", s, v.encoded_size(), first.len());
    }
    Ok(())
}

fn text_variant(what: &str, s: &str, v: &Variant, want: R, others: &[String]) -> Res {
    ensure!(v.to_r() == want, "Variant from {} of {:?} is {}", what, s, v.to_r().show());
    ensure!(v.as_str() == Some(s), "Variant from {} of {:?}: as_str is {:?}", what, s, v.as_str());
    match v.as_bytes_str() {
        Some(b) => {
            let got: &str = b.as_ref();
            ensure!(got == s, "Variant from {} of {:?}: as_bytes_str is {:?}", what, s, got);
        }
        None => return Err(format!("Variant from {} of {:?}: as_bytes_str is None", what, s)),
    }
    ensure!(*v == *s, "Variant from {} of {:?} does not equal the text", what, s);
    for o in others {
        ensure!(*v != **o, "Variant from {} of {:?} equals {:?}", what, s, o);
    }
    Ok(())
}

// ------------------------------------------------------------ containers

fn containers(c: &mut Ctx) -> Res {
    let mut g = Gen::with_budget(&mut c.rng, 400);
    let n = match g.rng.below(6) {
        0 => 0,
        1 => 1,
        2 => g.rng.range(2, 20),
        3 => g.rng.range(60, 70),
        _ => g.rng.below(6),
    };
    let rs: Vec<R> = (0..n).map(|_| g.value(2)).collect();
    let vs: Vec<Variant> = rs.iter().map(Variant::from_r).collect();
    let want = R::List(rs.clone());
    // List
    let l = List(vs.clone());
    ensure!(l.len() == n && l.is_empty() == (n == 0), "list of {}: len {} is_empty {}", n, l.len(), l.is_empty());
    let it: Vec<R> = l.iter().map(ToR::to_r).collect();
    ensure!(it == rs, "list {} iterates as {}", want.show(), R::List(it).show());
    ensure!(l.iter().len() == n, "list of {}: iterator of {}", n, l.iter().len());
    let v: Variant = l.clone().into();
    ensure!(v.to_r() == want, "Variant from list {} is {}", want.show(), v.to_r().show());
    ensure!(v.as_str().is_none() && v != *"", "a list has text");
    same_enc("Variant from a list", &v, &l)?;
    // Multiple
    let ss: Vec<Symbol> = (0..n).map(|_| Symbol::from_slice(&g.symbol())).collect();
    let mut m: Multiple<Symbol> = ss.clone().into();
    ensure!(m.len() == n && m.is_empty() == (n == 0), "multiple of {}: len {} is_empty {}", n, m.len(), m.is_empty());
    ensure!(m.iter().cloned().collect::<Vec<_>>() == ss, "multiple {:?} iterates as {:?}", ss, m);
    ensure!(*m == ss && m.0 == ss, "multiple {:?} derefs to {:?}", ss, *m);
    m.push(Symbol::from("pushed"));
    ensure!(m.len() == n + 1 && m[n] == *"pushed" && m[..n] == ss[..], "multiple after push: {:?}", m);
    m.pop();
    ensure!(m.0 == ss, "multiple after push and pop: {:?}", m);
    let d: Multiple<Symbol> = Multiple::default();
    ensure!(d.is_empty() && d.len() == 0, "a default multiple is not empty");
    // ordered map
    let ps: Vec<(Str, Variant)> = vs.iter().map(|v| (Str::from_str(&g.text()), v.clone())).collect();
    let mut om = VecVariantMap::default();
    ensure!(om.is_empty(), "a default ordered map is not empty");
    for x in &ps {
        om.push(x.clone());
    }
    ensure!(*om == ps && om.0 == ps && om.len() == n, "ordered map {:?} holds {:?}", ps, om);
    // map
    let mut seen: Vec<R> = Vec::new();
    let mut hm: HashMap<Variant, Variant> = HashMap::new();
    let mut pairs = Vec::new();
    for v in &vs {
        let k = g.key();
        if seen.contains(&k) {
            continue;
        }
        hm.insert(Variant::from_r(&k), v.clone());
        pairs.push((k.clone(), v.to_r()));
        seen.push(k);
    }
    let want = R::Map(pairs).canon();
    let vm = VariantMap::new(hm.clone());
    ensure!(vm.map == hm, "VariantMap::new changes its content");
    ensure!(vm.to_r().canon() == want, "VariantMap::new of {} holds {}", want.show(), vm.to_r().show());
    let v: Variant = vm.into();
    ensure!(v.to_r().canon() == want, "Variant from map {} is {}", want.show(), v.to_r().show());
    // described
    let dr = g.described(1);
    if let R::Desc(a, b) = &dr {
        let x = (Descriptor::from_r(a), Box::new(Variant::from_r(b)));
        let v: Variant = x.clone().into();
        ensure!(v.to_r().canon() == dr.clone().canon(), "Variant from described {} is {}", dr.show(), v.to_r().show());
    }
    c.count("containers", 1);
    c.obs(hash_str(&want.show()), n > 0, || format!("containers of {}: {}", n, want.show()));
    Ok(())
}

// ------------------------------------------------------------ frames

fn frame_of<T: Into<p::Frame> + FromR + Clone + PartialEq + Encode + std::fmt::Debug>(
    c: &mut Ctx,
    r: &R,
    name: &str,
    pick: fn(p::Frame) -> Option<T>,
) -> Res {
    let x = T::from_r(r);
    let f: p::Frame = x.clone().into();
    ensure!(f.name() == name, "{} as a frame is named {}", name, f.name());
    match pick(f.clone()) {
        Some(y) => ensure!(y == x, "{} as a frame holds {:?}, not {:?}", name, y, x),
        None => return Err(format!("{} becomes frame {:?}", name, f)),
    }
    same_enc(&format!("frame of {}", name), &f, &x)?;
    let ch = match c.rng.below(4) {
        0 => 0,
        1 => 0xffff,
        2 => 1 << c.rng.below(16),
        _ => c.rng.u64() as u16,
    };
    let a = AmqpFrame::new(ch, f.clone());
    let b = a.clone();
    for a in &[&a, &b] {
        ensure!(a.channel_id() == ch, "{} on channel {} says channel {}", name, ch, a.channel_id());
        ensure!(*a.performative() == f, "{} on channel {} holds {:?}", name, ch, a.performative());
    }
    let (ch2, f2) = b.into_parts();
    ensure!(ch2 == ch && f2 == f, "{} on channel {} splits into {} and {:?}", name, ch, ch2, f2);
    c.count(&format!("frame_{}", name), 1);
    c.obs(hash_bytes(&lib_enc(&a)), true, || format!("{} on channel {}: {}", name, ch, r.show()));
    Ok(())
}

fn sasl_of<T: Into<SaslFrame> + FromR + Clone + PartialEq + Encode + std::fmt::Debug>(
    c: &mut Ctx,
    r: &R,
    pick: fn(p::SaslFrameBody) -> Option<T>,
    make: fn(T) -> p::SaslFrameBody,
) -> Res {
    let x = T::from_r(r);
    let f: SaslFrame = x.clone().into();
    match pick(f.body.clone()) {
        Some(y) => ensure!(y == x, "SASL frame from {:?} holds {:?}", x, y),
        None => return Err(format!("SASL frame from {:?} is {:?}", x, f)),
    }
    let g = SaslFrame::new(make(x.clone()));
    ensure!(g == f, "SASL frame made by new is {:?}, by from {:?}", g, f);
    same_enc("SASL frame", &f, &g)?;
    same_enc("SASL frame body", &f.body, &x)?;
    c.count("sasl_frames", 1);
    c.obs(hash_bytes(&lib_enc(&f)), true, || format!("SASL frame from {}", r.show()));
    Ok(())
}

macro_rules! arm {
    ($e:path) => {
        |f| match f {
            $e(x) => Some(x),
            _ => None,
        }
    };
}

fn frames(c: &mut Ctx, i: u64) -> Res {
    let k = (i % 14) as usize;
    let mut g = Gen::with_budget(&mut c.rng, 300);
    if k < 9 {
        let r = gen_comp(PERFORMATIVES[k], &mut g);
        return match PERFORMATIVES[k].code {
            0x10 => frame_of(c, &r, "Open", arm!(p::Frame::Open)),
            0x11 => frame_of(c, &r, "Begin", arm!(p::Frame::Begin)),
            0x12 => frame_of(c, &r, "Attach", arm!(p::Frame::Attach)),
            0x13 => frame_of(c, &r, "Flow", arm!(p::Frame::Flow)),
            0x14 => {
                let n = g.rng.below(40);
                let pay = g.rng.bytes(n);
                let mut t = p::Transfer::from_r(&r);
                ensure!(t.body().is_none(), "a transfer without payload has one");
                let b: p::TransferBody = Bytes::from(&pay[..]).into();
                t.body = Some(b.clone());
                ensure!(t.body() == Some(&b), "transfer payload reads {:?}", t.body());
                ensure!(t.to_r() == r, "adding a payload changes the transfer to {}", t.to_r().show());
                frame_of(c, &r, "Transfer", arm!(p::Frame::Transfer))
            }
            0x15 => frame_of(c, &r, "Disposition", arm!(p::Frame::Disposition)),
            0x16 => frame_of(c, &r, "Detach", arm!(p::Frame::Detach)),
            0x17 => frame_of(c, &r, "End", arm!(p::Frame::End)),
            _ => frame_of(c, &r, "Close", arm!(p::Frame::Close)),
        };
    }
    let r = gen_comp(SASL_BODIES[k - 9], &mut g);
    use amqp_codec::protocol::SaslFrameBody as B;
    match SASL_BODIES[k - 9].code {
        0x40 => sasl_of::<p::SaslMechanisms>(c, &r, arm!(B::SaslMechanisms), B::SaslMechanisms),
        0x41 => sasl_of::<p::SaslInit>(c, &r, arm!(B::SaslInit), B::SaslInit),
        0x42 => sasl_of::<p::SaslChallenge>(c, &r, arm!(B::SaslChallenge), B::SaslChallenge),
        0x43 => sasl_of::<p::SaslResponse>(c, &r, arm!(B::SaslResponse), B::SaslResponse),
        _ => sasl_of::<p::SaslOutcome>(c, &r, arm!(B::SaslOutcome), B::SaslOutcome),
    }
}

// ------------------------------------------------------------ fields of composites

fn fields_of<T: CompT>(c: &mut Ctx, comp: &'static Comp, r: &R) -> Res {
    let v = T::from_r(r);
    let want = match r {
        R::Desc(_, x) => match &**x {
            R::List(v) => v,
            _ => unreachable!(),
        },
        _ => unreachable!(),
    };
    for w in &[v.clone(), v] {
        let got = w.acc();
        ensure!(got.len() == want.len(), "{} has {} fields", comp.name, got.len());
        for (k, (g, x)) in got.iter().zip(want).enumerate() {
            ensure!(g == x, "{}.{}() gives {}, holds {}", comp.name, comp.fields[k].0, g.show(), x.show());
            c.count("fields_read", 1);
        }
    }
    c.obs(hash_str(&r.show()) ^ 3, !want.is_empty(), || format!("fields of {}", r.show()));
    Ok(())
}

fn fields(c: &mut Ctx, i: u64) -> Res {
    let comp = ALL[i as usize % ALL.len()];
    let r = gen_comp(comp, &mut Gen::with_budget(&mut c.rng, 200));
    by_comp!(comp, fields_of(c, comp, &r))
}

// ------------------------------------------------------------ message bodies

fn bodies(c: &mut Ctx) -> Res {
    let mut g = Gen::with_budget(&mut c.rng, 300);
    let m = gen_msg(&mut g);
    let fmt = if g.rng.bool() { Some(g.uint(32) as u32) } else { None };
    let b = enc_msg(&m, &mut c.rng, FREE);
    if b.is_empty() {
        return Ok(());
    }
    let dec = |e| format!("message {}: {}", hex(&b), e);
    let mut i = lib_dec::<InMessage>(&b).map_err(dec)?.0;
    let mut o = lib_dec::<OutMessage>(&b).map_err(dec)?.0;
    i.message_format = fmt;
    o.message_format = fmt;
    let ti: p::TransferBody = i.clone().into();
    let to: p::TransferBody = o.clone().into();
    match &ti {
        p::TransferBody::MessageIn(x) => ensure!(*x == i, "payload from an InMessage holds {:?}, not {:?}", x, i),
        x => return Err(format!("payload from an InMessage is {:?}", x)),
    }
    match &to {
        p::TransferBody::MessageOut(x) => ensure!(*x == o, "payload from an OutMessage holds {:?}, not {:?}", x, o),
        x => return Err(format!("payload from an OutMessage is {:?}", x)),
    }
    for (what, t, n) in &[("InMessage", &ti, lib_enc(&i).len()), ("OutMessage", &to, lib_enc(&o).len())] {
        ensure!(t.message_format() == fmt, "payload from {} of format {:?} has {:?}", what, fmt, t.message_format());
        ensure!(t.len() == *n, "payload from {} of {} bytes has length {}", what, n, t.len());
    }
    // the order of map entries may differ between copies: compare what is denoted
    ensure!(sections_r(&lib_enc(&ti)) == i.to_r(), "payload from InMessage encodes differently from it");
    ensure!(sections_r(&lib_enc(&to)) == o.to_r(), "payload from OutMessage encodes differently from it");
    let parts = vec![ti.clone(), to.clone(), Bytes::from(&b[..]).into()];
    let (ni, no) = (InMessage::with_messages(parts.clone()), OutMessage::with_messages(parts.clone()));
    for (what, x) in &[("InMessage", ni.body()), ("OutMessage", no.body())] {
        ensure!(x.messages == parts, "{}::with_messages holds {:?}", what, x.messages);
        ensure!(x.data.is_empty() && x.sequence.is_empty() && x.value.is_none(), "{}::with_messages has other content", what);
    }
    // body getters
    let d: Vec<Vec<u8>> = m.data.clone();
    for (what, x) in &[("InMessage", i.body()), ("OutMessage", o.body())] {
        ensure!(x.data().map(|y| y.to_vec()) == d.first().cloned(), "{}: body data() is {:?} of {:?}", what, x.data(), d);
        ensure!(x.value().map(ToR::to_r).map(R::canon) == m.value.clone().map(R::canon), "{}: body value() is {:?}", what, x.value());
    }
    ensure!(i.value().map(ToR::to_r).map(R::canon) == m.value.clone().map(R::canon), "InMessage: value() is {:?}", i.value());
    ensure!(o.value().map(ToR::to_r).map(R::canon) == m.value.clone().map(R::canon), "OutMessage: value() is {:?}", o.value());
    c.count("messages", 1);
    c.obs(hash_bytes(&b), true, || format!("payloads from message {}", hex(&b[..b.len().min(80)])));
    Ok(())
}

fn plain(c: &mut Ctx, i: u64) -> Res {
    let mut g = Gen::with_budget(&mut c.rng, 2000);
    let mut one = |k: u64| -> String {
        match k % 4 {
            0 => String::new(),
            1 => {
                let n = g.rng.below(12);
                g.text_len(n)
            }
            2 => g.text(),
            _ => {
                let n = [255usize, 256, 70, 1000][g.rng.below(4)];
                g.text_len(n)
            }
        }
    };
    let (a, b, d) = (one(i), one(i / 4), one(i / 16));
    let got = p::SaslInit::prepare_response(&a, &b, &d);
    let mut want = a.as_bytes().to_vec();
    want.push(0);
    want.extend_from_slice(b.as_bytes());
    want.push(0);
    want.extend_from_slice(d.as_bytes());
    c.count("plain_responses", 1);
    c.obs(hash_bytes(&want), true, || format!("PLAIN {:?} {:?} {:?}", a, b, d));
    ensure!(got[..] == want[..], "PLAIN response for {:?} {:?} {:?} is {}", a, b, d, hex(&got));
    Ok(())
}

macro_rules! conds {
    ($c:expr, $($e:ident: $en:expr),*) => {{ $(
        for v in $en.vals {
            let r = v.r();
            let x = p::$e::from_r(&r);
            let e: p::ErrorCondition = x.clone().into();
            match &e {
                p::ErrorCondition::$e(y) => ensure!(*y == x, "ErrorCondition from {:?} holds {:?}", x, y),
                y => return Err(format!("ErrorCondition from {:?} is {:?}", x, y)),
            }
            ensure!(e.to_r() == r, "ErrorCondition from {:?} is {}", x, e.to_r().show());
            same_enc(&format!("ErrorCondition from {:?}", x), &e, &x)?;
            same_enc(&format!("ErrorCondition from {:?}", x), &e, &Symbol::from_r(&r))?;
            $c.count("conditions", 1);
            $c.obs(hash_str(&format!("{:?}", e)), true, || format!("condition {:?}", e));
        }
    )* }};
}

fn c27(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "small" => {
            for k in 0..256u64 {
                let x = i * 256 + k;
                scalar(c, &R::U16(x as u16))?;
                scalar(c, &R::I16(x as u16 as i16))?;
                if i == 0 {
                    scalar(c, &R::U8(x as u8))?;
                    scalar(c, &R::I8(x as u8 as i8))?;
                }
                if i < 4 {
                    scalar(c, &R::U32(x as u32))?;
                    scalar(c, &R::U64(x))?;
                    scalar(c, &R::I32(x as i32 - 512))?;
                    scalar(c, &R::I64(x as i64 - 512))?;
                }
            }
            if i == 0 {
                scalar(c, &R::Bool(true))?;
                scalar(c, &R::Bool(false))?;
                conds!(c, AmqpError: AMQPERR, ConnectionError: CONNERR, SessionError: SESSERR, LinkError: LINKERR);
                ensure!(p::Frame::Empty.name() == "Empty", "the empty frame is named {}", p::Frame::Empty.name());
            }
            Ok(())
        }
        "scalars" => {
            for _ in 0..24 {
                let r = Gen::new(&mut c.rng).scalar();
                scalar(c, &r)?;
            }
            Ok(())
        }
        "lengths" => {
            let n = if i < 600 { i as usize } else { [4095usize, 4096, 65_534, 65_535, 65_536, 70_001][(i - 600) as usize] };
            let (t, b) = {
                let mut g = Gen::new(&mut c.rng);
                (g.text_len(n), g.bin_len(n))
            };
            texts(c, &t)?;
            scalar(c, &R::Bin(b))
        }
        "containers" => containers(c),
        "frames" => frames(c, i),
        "bodies" => bodies(c),
        "fields" => fields(c, i),
        "plain" => plain(c, i),
        _ => unreachable!(),
    }
}

pub const C27: Prop = Prop {
    id: "C27",
    rule: "one evaluation = one value converted by every public route for its type, read back through every accessor and \
           compared with the value put in, and its encoding with that of the plain value; distinct = distinct values",
    streams: |t| {
        vec![
            st("small", 256),
            st("scalars", t.k(2_500, 100_000)),
            st("lengths", 606),
            st("containers", t.k(3_000, 100_000)),
            st("frames", t.k(14 * 300, 14 * 10_000)),
            st("fields", t.k(24 * 200, 24 * 8_000)),
            st("bodies", t.k(2_500, 80_000)),
            st("plain", t.k(1_500, 50_000)),
        ]
    },
    run: c27,
};
