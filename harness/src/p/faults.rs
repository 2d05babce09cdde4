//! C29: a refusal names what is wrong with the input. Every input here is a legal encoding with
//! exactly one fault put into it, so what a reader has to report is known beforehand.

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{
    AmqpCodec, AmqpCodecError, AmqpFrame, AmqpParseError, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec,
    ProtocolIdError, SaslFrame,
};
use bytes::{Bytes, BytesMut};
use hashbrown::HashMap;
use tokio_io::codec::Decoder;
use uuid::Uuid;

use super::inputs;
use crate::conv::*;
use crate::ctx::*;
use crate::entries::{Kind, Ts};
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_bytes, Rng};
use crate::rval::*;
use crate::spec::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    Size,
    Deep,
    Incomplete,
    Code(u8),
    Char(u32),
    Time(i64),
    Desc(R),
    Type(u8),
    Field(String),
    Choice(String),
    /// good bytes before the bad ones, and how many bad ones (None: cut short)
    Utf8(usize, Option<usize>),
    Uuid,
    Left,
    Io,
}

impl Fault {
    fn kind(&self) -> &'static str {
        match self {
            Fault::Size => "size",
            Fault::Deep => "deep",
            Fault::Incomplete => "incomplete",
            Fault::Code(_) => "code",
            Fault::Char(_) => "char",
            Fault::Time(_) => "time",
            Fault::Desc(_) => "descriptor",
            Fault::Type(_) => "frame_type",
            Fault::Field(_) => "field",
            Fault::Choice(_) => "choice",
            Fault::Utf8(..) => "utf8",
            Fault::Uuid => "uuid",
            Fault::Left => "left",
            Fault::Io => "io",
        }
    }
}

fn fault_of(e: &AmqpParseError) -> Fault {
    match e {
        AmqpParseError::InvalidSize => Fault::Size,
        AmqpParseError::NestingTooDeep => Fault::Deep,
        AmqpParseError::Incomplete(_) => Fault::Incomplete,
        AmqpParseError::InvalidFormatCode(c) => Fault::Code(*c),
        AmqpParseError::InvalidChar(c) => Fault::Char(*c),
        AmqpParseError::InvalidTimestamp(t) => Fault::Time(*t),
        AmqpParseError::InvalidDescriptor(d) => Fault::Desc(d.to_r()),
        AmqpParseError::UnexpectedFrameType(t) => Fault::Type(*t),
        AmqpParseError::RequiredFieldOmitted(n) => Fault::Field(n.to_string()),
        AmqpParseError::UnknownEnumOption(n) => Fault::Choice(n.to_string()),
        AmqpParseError::UuidParseError(_) => Fault::Uuid,
        AmqpParseError::Utf8Error(e) => Fault::Utf8(e.valid_up_to(), e.error_len()),
    }
}

fn fault_of_codec(e: &AmqpCodecError) -> Fault {
    match e {
        AmqpCodecError::ParseError(e) => fault_of(e),
        AmqpCodecError::UnparsedBytesLeft => Fault::Left,
        AmqpCodecError::Io(_) => Fault::Io,
    }
}

/// what the words of an error have to mention
fn mentions(f: &Fault) -> Option<String> {
    match f {
        Fault::Code(c) | Fault::Type(c) => Some(c.to_string()),
        Fault::Char(c) => Some(c.to_string()),
        Fault::Time(c) => Some(c.to_string()),
        Fault::Desc(R::U64(c)) => Some(c.to_string()),
        Fault::Field(s) | Fault::Choice(s) => Some(s.clone()),
        _ => None,
    }
}

fn words(e: &AmqpParseError) -> Res {
    let f = fault_of(e);
    for (what, s) in [("Display", e.to_string()), ("Debug", format!("{:?}", e))].iter() {
        ensure!(!s.is_empty(), "the {} of {:?} is empty", what, f);
        if let Some(m) = mentions(&f) {
            ensure!(s.contains(&m), "the {} of {:?} is {:?}", what, f, s);
        }
    }
    let c = e.clone();
    ensure!(fault_of(&c) == f, "the clone of {:?} is {:?}", f, fault_of(&c));
    let w: AmqpCodecError = c.into();
    ensure!(fault_of_codec(&w) == f, "{:?} as a codec error is {:?}", f, fault_of_codec(&w));
    let w2 = w.clone();
    ensure!(fault_of_codec(&w2) == f, "the clone of the codec error {:?} is {:?}", f, fault_of_codec(&w2));
    ensure!(!w2.to_string().is_empty(), "the text of the codec error {:?} is empty", f);
    Ok(())
}

/// bytes left, or what was reported, and whether its words are in order
type Out = Result<usize, (Fault, Res)>;

fn dec<T: Decode>(b: &[u8]) -> Out {
    match T::decode(b) {
        Ok((rest, _)) => Ok(rest.len()),
        Err(e) => Err((fault_of(&e), words(&e))),
    }
}

/// all frames of the input; the first error
fn stream<T: Decode + Encode>(b: &[u8]) -> Out {
    let mut c = AmqpCodec::<T>::new();
    let mut src = BytesMut::from(b);
    loop {
        match c.decode(&mut src) {
            Ok(Some(_)) => {}
            Ok(None) => return if src.is_empty() { Ok(0) } else { Err((Fault::Incomplete, Ok(()))) },
            Err(e) => {
                let w = match &e {
                    AmqpCodecError::ParseError(e) => words(e),
                    _ => Ok(()),
                };
                return Err((fault_of_codec(&e), w));
            }
        }
    }
}

struct E {
    name: &'static str,
    kind: Kind,
    dec: fn(&[u8]) -> Out,
}

macro_rules! tab {
    ($v:ident, $k:ident, $($t:ty),* $(,)?) => { $( $v.push(E { name: stringify!($t), kind: Kind::$k, dec: dec::<$t> }); )* };
}

fn table() -> Vec<E> {
    let mut v = Vec::new();
    tab!(v, Value, bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, Ts, Uuid, Bytes, ByteStr, Str, Symbol);
    tab!(v, Value, Variant, List, VecVariantMap, Multiple<Symbol>, p::Map, p::Fields, p::StringVariantMap, p::FilterSet);
    tab!(v, Value, HashMap<u32, Uuid>, HashMap<Symbol, Multiple<Symbol>>, HashMap<Bytes, List>);
    tab!(
        v, Value, Vec<bool>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<f32>,
        Vec<f64>, Vec<char>, Vec<Ts>, Vec<Uuid>, Vec<Bytes>, Vec<ByteStr>, Vec<Symbol>, Vec<p::Fields>, Vec<p::Map>,
        Vec<List>, Vec<VecVariantMap>
    );
    tab!(v, Value, Option<bool>, Option<u32>, Option<Ts>, Option<Symbol>, Option<Variant>, Option<p::Source>, Descriptor);
    tab!(
        v, Value, p::MessageId, p::ErrorCondition, p::DistributionMode, p::Role, p::SenderSettleMode,
        p::ReceiverSettleMode, p::SaslCode, p::TerminusDurability, p::TerminusExpiryPolicy, p::AmqpError,
        p::ConnectionError, p::SessionError, p::LinkError
    );
    tab!(
        v, Comp, p::Error, p::Open, p::Begin, p::Attach, p::Flow, p::Disposition, p::Detach, p::End, p::Close,
        p::SaslMechanisms, p::SaslInit, p::SaslChallenge, p::SaslResponse, p::SaslOutcome, p::Source, p::Target,
        p::Header, p::Properties, p::Received, p::Accepted, p::Rejected, p::Released, p::Modified, p::DeliveryState,
        p::Outcome, p::SaslFrameBody, p::Section
    );
    tab!(v, Tail, p::Transfer, p::Frame, InMessage, OutMessage, AmqpFrame);
    tab!(v, Comp, SaslFrame);
    v.push(E { name: "AmqpCodec<AmqpFrame>", kind: Kind::Codec, dec: stream::<AmqpFrame> });
    v.push(E { name: "AmqpCodec<SaslFrame>", kind: Kind::Codec, dec: stream::<SaslFrame> });
    v
}

fn entry(name: &str) -> E {
    table().into_iter().find(|e| e.name == name).unwrap_or_else(|| panic!("harness: no entry {}", name))
}

fn expect(c: &mut Ctx, e: &E, b: &[u8], want: &Fault) -> Res {
    match (e.dec)(b) {
        Ok(left) => Err(format!("{} of {} is accepted ({} bytes left); its fault is {:?}", e.name, hex(b), left, want)),
        Err((f, w)) => {
            ensure!(f == *want, "{} of {} is refused with {:?}; its fault is {:?}", e.name, hex(b), f, want);
            c.count(f.kind(), 1);
            c.obs(hash_bytes(b) ^ hash_bytes(e.name.as_bytes()), true, || format!("{} {} -> {:?}", e.name, hex(b), want));
            w
        }
    }
}

// ------------------------------------------------------------ what may stand where

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    Bool,
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Char,
    Ts,
    Uuid,
    Bin,
    Str,
    Sym,
    List,
    Map,
    Arr,
    MSym,
    Desc,
    MsgId,
    Any,
    Described,
}

/// every constructor the standard defines
const DEFINED: &[u8] = &[
    0x00, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x60, 0x61, 0x70, 0x71, 0x72,
    0x73, 0x74, 0x80, 0x81, 0x82, 0x83, 0x84, 0x94, 0x98, 0xa0, 0xa1, 0xa3, 0xb0, 0xb1, 0xb3, 0xc0, 0xc1, 0xd0, 0xd1,
    0xe0, 0xf0,
];

fn allowed(k: K) -> &'static [u8] {
    match k {
        K::Bool => &[0x56, 0x41, 0x42],
        K::U8 => &[0x50],
        K::U16 => &[0x60],
        K::U32 => &[0x70, 0x52, 0x43],
        K::U64 => &[0x80, 0x53, 0x44],
        K::I8 => &[0x51],
        K::I16 => &[0x61],
        K::I32 => &[0x71, 0x54],
        K::I64 => &[0x81, 0x55],
        K::F32 => &[0x72],
        K::F64 => &[0x82],
        K::Char => &[0x73],
        K::Ts => &[0x83],
        K::Uuid => &[0x98],
        K::Bin => &[0xa0, 0xb0],
        K::Str => &[0xa1, 0xb1],
        K::Sym => &[0xa3, 0xb3],
        K::List => &[0x45, 0xc0, 0xd0],
        K::Map => &[0xc1, 0xd1],
        K::Arr => &[0xe0, 0xf0],
        K::MSym => &[0xe0, 0xf0, 0xa3, 0xb3],
        K::Desc => &[0x44, 0x53, 0x80, 0xa3, 0xb3],
        K::MsgId => &[0x44, 0x53, 0x80, 0x98, 0xa0, 0xb0, 0xa1, 0xb1],
        K::Any => DEFINED,
        K::Described => &[0x00],
    }
}

/// what an entry decodes, and whether null is fine too
fn kind_of(name: &str) -> Option<(K, bool)> {
    let k = match name {
        "bool" | "p::Role" => K::Bool,
        "u8" | "p::SenderSettleMode" | "p::ReceiverSettleMode" | "p::SaslCode" => K::U8,
        "u16" => K::U16,
        "u32" | "p::TerminusDurability" => K::U32,
        "u64" => K::U64,
        "i8" => K::I8,
        "i16" => K::I16,
        "i32" => K::I32,
        "i64" => K::I64,
        "f32" => K::F32,
        "f64" => K::F64,
        "char" => K::Char,
        "Ts" => K::Ts,
        "Uuid" => K::Uuid,
        "Bytes" => K::Bin,
        "ByteStr" | "Str" => K::Str,
        "Symbol" | "p::ErrorCondition" | "p::DistributionMode" | "p::TerminusExpiryPolicy" | "p::AmqpError"
        | "p::ConnectionError" | "p::SessionError" | "p::LinkError" => K::Sym,
        "Variant" => K::Any,
        "List" => K::List,
        "Multiple<Symbol>" => K::MSym,
        "Descriptor" => K::Desc,
        "p::MessageId" => K::MsgId,
        "InMessage" | "OutMessage" | "AmqpFrame" | "SaslFrame" => return None,
        _ if name.starts_with("Option<") => return kind_of(&name[7..name.len() - 1]).map(|x| (x.0, true)),
        _ if name.starts_with("Vec<") => K::Arr,
        _ if name.starts_with("HashMap<") => K::Map,
        "p::Map" | "p::Fields" | "p::StringVariantMap" | "VecVariantMap" | "p::FilterSet" => K::Map,
        _ if name.starts_with("p::") => K::Described,
        _ => return None,
    };
    Some((k, false))
}

/// a payload such as the constructor's category has it
fn payload(c: u8, rng: &mut Rng, out: &mut Vec<u8>) {
    match c >> 4 {
        5 => out.extend_from_slice(&rng.bytes(1)),
        6 => out.extend_from_slice(&rng.bytes(2)),
        7 => out.extend_from_slice(&rng.bytes(4)),
        8 => out.extend_from_slice(&rng.bytes(8)),
        9 => out.extend_from_slice(&rng.bytes(16)),
        10 => {
            let n = rng.below(6);
            out.push(n as u8);
            out.extend_from_slice(&vec![b'a'; n]);
        }
        11 => {
            let n = rng.below(6);
            put_be(out, n as u64, 4);
            out.extend_from_slice(&vec![b'a'; n]);
        }
        12 => out.extend_from_slice(&[1, 0]),
        13 => out.extend_from_slice(&[0, 0, 0, 4, 0, 0, 0, 0]),
        14 => out.extend_from_slice(&[2, 0, 0x40]),
        15 => out.extend_from_slice(&[0, 0, 0, 5, 0, 0, 0, 0, 0x40]),
        _ => {}
    }
}

fn bad_code(k: K, rng: &mut Rng) -> (Vec<u8>, Fault) {
    loop {
        let c = if rng.bool() { *rng.pick(DEFINED) } else { rng.u64() as u8 };
        // null stands for an absent value in many places
        if c == 0x40 || allowed(k).contains(&c) {
            continue;
        }
        let mut b = vec![c];
        payload(c, rng, &mut b);
        return (b, Fault::Code(c));
    }
}

fn bad_text(code8: u8, rng: &mut Rng) -> (Vec<u8>, Fault) {
    let mut g = Gen::new(rng);
    let n = g.rng.below(300);
    let n = if g.rng.chance(3, 4) { n % 12 } else { n };
    let mut t = g.text_len(n).into_bytes();
    let junk: &[&[u8]] = &[
        &[0xff],
        &[0x80],
        &[0xc0, 0x80],
        &[0xc3],
        &[0xc3, 0x28],
        &[0xe2, 0x82],
        &[0xe2, 0x28, 0xa1],
        &[0xed, 0xa0, 0x80],
        &[0xf0, 0x9f, 0x92],
        &[0xf4, 0x90, 0x80, 0x80],
        &[0xf8, 0x88, 0x80, 0x80, 0x80],
        &[0xfe, 0xfe],
    ];
    let j = *rng.pick(junk);
    let at = rng.below(t.len() + 1);
    let tail = t.split_off(at);
    t.extend_from_slice(j);
    t.extend_from_slice(&tail);
    let e = match std::str::from_utf8(&t) {
        Err(e) => e,
        // the cut-off piece was completed by what follows
        Ok(_) => return bad_text(code8, rng),
    };
    let f = Fault::Utf8(e.valid_up_to(), e.error_len());
    let mut b = Vec::new();
    if t.len() < 256 && rng.bool() {
        b.push(code8);
        b.push(t.len() as u8);
    } else {
        b.push(code8 + 0x10);
        put_be(&mut b, t.len() as u64, 4);
    }
    b.extend_from_slice(&t);
    (b, f)
}

/// a size that promises far more than there can be
fn beyond(code32: u8, rng: &mut Rng) -> (Vec<u8>, Fault) {
    let mut b = vec![code32];
    let n = *rng.pick(&[0x0100_0000u64, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff0]);
    put_be(&mut b, n, 4);
    if code32 >= 0xd0 {
        let n = *rng.pick(&[0u64, 1, 2, 0xffff_ffff]);
        put_be(&mut b, n, 4);
    }
    let n = rng.below(5);
    b.extend_from_slice(&vec![0x41; n]);
    (b, Fault::Incomplete)
}

fn small_size(code8: u8, rng: &mut Rng) -> (Vec<u8>, Fault) {
    let mut b = Vec::new();
    let n = *rng.pick(&[0u8, 1, 2, 255]);
    if rng.bool() {
        b.extend_from_slice(&[code8, 0, n]);
    } else {
        b.push(code8 + 0x10);
        put_be(&mut b, rng.below(4) as u64, 4);
        put_be(&mut b, u64::from(n), 4);
    }
    (b, Fault::Size)
}

fn bad_char(rng: &mut Rng) -> (Vec<u8>, Fault) {
    let c = match rng.below(5) {
        0 => 0xd800,
        1 => 0xdfff,
        2 => 0x11_0000,
        3 => 0xd800 + rng.below(0x800) as u32,
        _ => 0x11_0000 + (rng.u64() as u32) % 0xffee_0000,
    };
    let mut b = vec![0x73];
    put_be(&mut b, u64::from(c), 4);
    (b, Fault::Char(c))
}

fn bad_time(rng: &mut Rng) -> (Vec<u8>, Fault) {
    // a margin of a year leaves the exact end of the calendar alone
    let year = 366 * 86_400_000i64;
    let t = match rng.below(6) {
        0 => i64::min_value(),
        1 => i64::max_value(),
        2 => TS_MIN - year - (rng.u64() >> 12) as i64,
        3 => TS_MAX + year + (rng.u64() >> 12) as i64,
        4 => i64::min_value() + rng.below(2000) as i64,
        _ => i64::max_value() - rng.below(2000) as i64,
    };
    let mut b = vec![0x83];
    put_be(&mut b, t as u64, 8);
    (b, Fault::Time(t))
}

fn bad_array(rng: &mut Rng) -> (Vec<u8>, Fault) {
    // symbols; the fault is in the constructor or in one of the elements
    let n = rng.range(1, 5);
    let mut body = Vec::new();
    let f;
    if rng.bool() {
        let (b, x) = bad_code(K::Sym, rng);
        body.extend_from_slice(&b);
        f = x;
    } else {
        let bad = rng.below(n);
        body.push(0xa3);
        let mut fault = Fault::Size;
        for i in 0..n {
            if i == bad {
                body.extend_from_slice(&[3, b'x', 0xff, b'y']);
                fault = Fault::Utf8(1, Some(1));
            } else {
                body.extend_from_slice(&[2, b'o', b'k']);
            }
        }
        f = fault;
    }
    let mut b = Vec::new();
    if rng.bool() {
        b.extend_from_slice(&[0xe0, (body.len() + 1) as u8, n as u8]);
    } else {
        b.push(0xf0);
        put_be(&mut b, (body.len() + 4) as u64, 4);
        put_be(&mut b, n as u64, 4);
    }
    b.extend_from_slice(&body);
    (b, f)
}

/// faulty bytes where a value of the kind is due
fn leaf(k: K, rng: &mut Rng) -> (Vec<u8>, Fault) {
    if rng.chance(1, 3) {
        return bad_code(k, rng);
    }
    match k {
        K::Char => bad_char(rng),
        K::Ts => bad_time(rng),
        K::Bin => beyond(0xb0, rng),
        K::Str => {
            if rng.chance(1, 4) {
                beyond(0xb1, rng)
            } else {
                bad_text(0xa1, rng)
            }
        }
        K::Sym => {
            if rng.chance(1, 4) {
                beyond(0xb3, rng)
            } else {
                bad_text(0xa3, rng)
            }
        }
        K::List => match rng.below(3) {
            0 => beyond(0xd0, rng),
            _ => small_size(0xc0, rng),
        },
        K::Map => match rng.below(3) {
            0 => beyond(0xd1, rng),
            _ => small_size(0xc1, rng),
        },
        K::Arr => match rng.below(3) {
            0 => beyond(0xf0, rng),
            _ => small_size(0xe0, rng),
        },
        K::MSym => match rng.below(4) {
            0 => beyond(0xf0, rng),
            1 => small_size(0xe0, rng),
            2 => bad_text(0xa3, rng),
            _ => bad_array(rng),
        },
        K::Desc => bad_text(0xa3, rng),
        K::MsgId => match rng.below(3) {
            0 => beyond(0xb1, rng),
            1 => beyond(0xb0, rng),
            _ => bad_text(0xa1, rng),
        },
        K::Any => match rng.below(9) {
            0 => bad_char(rng),
            1 => bad_time(rng),
            2 => bad_text(0xa1, rng),
            3 => bad_text(0xa3, rng),
            4 => small_size(0xc0, rng),
            5 => small_size(0xc1, rng),
            6 => {
                let c = *rng.pick(&[0xb0, 0xb1, 0xb3, 0xd0, 0xd1]);
                beyond(c, rng)
            }
            7 => {
                let (d, f) = leaf(K::Desc, rng);
                ([&[0][..], &d[..], &[0x41]].concat(), f)
            }
            _ => bad_code(K::Any, rng),
        },
        _ => bad_code(k, rng),
    }
}

fn leaf_r(k: K, rng: &mut Rng) -> (R, Fault) {
    let (b, f) = leaf(k, rng);
    (raw(&b), f)
}

// ------------------------------------------------------------ one fault somewhere in a value

/// somewhere in a map; `key`: what the keys are
fn in_map(v: &[(R, R)], key: K, val: &dyn Fn(&R, &mut Rng) -> (R, Fault), rng: &mut Rng) -> (R, Fault) {
    let mut v = v.to_vec();
    let i = rng.below(v.len());
    let f = if rng.chance(1, 4) {
        let (x, f) = if key == K::Any { in_any(&v[i].0, rng) } else { leaf_r(key, rng) };
        v[i].0 = x;
        f
    } else {
        let (x, f) = val(&v[i].1, rng);
        v[i].1 = x;
        f
    };
    (R::Map(v), f)
}

fn in_any(r: &R, rng: &mut Rng) -> (R, Fault) {
    let deeper = rng.chance(5, 6);
    match r {
        R::List(v) if deeper && !v.is_empty() => {
            let mut v = v.clone();
            let i = rng.below(v.len());
            let (x, f) = in_any(&v[i], rng);
            v[i] = x;
            (R::List(v), f)
        }
        R::Map(v) if deeper && !v.is_empty() => in_map(v, K::Any, &in_any, rng),
        R::Desc(d, v) if deeper => {
            if rng.chance(1, 4) {
                let (x, f) = leaf_r(K::Desc, rng);
                (R::Desc(Box::new(x), v.clone()), f)
            } else {
                let (x, f) = in_any(v, rng);
                (R::Desc(d.clone(), Box::new(x)), f)
            }
        }
        _ => leaf_r(K::Any, rng),
    }
}

fn in_ty(ty: &Ty, r: &R, rng: &mut Rng) -> (R, Fault) {
    let deeper = rng.chance(4, 5);
    match (ty, r) {
        (Ty::Fields, R::Map(v)) if deeper && !v.is_empty() => in_map(v, K::Sym, &in_any, rng),
        (Ty::AnyMap, R::Map(v)) if deeper && !v.is_empty() => in_map(v, K::Any, &in_any, rng),
        (Ty::Filter, R::Map(v)) if deeper && !v.is_empty() => in_map(v, K::Sym, &|_, g| leaf_r(K::Str, g), rng),
        (Ty::Comp(c), _) => in_comp(&[c], r, rng),
        (Ty::OneOf(cs), _) => in_comp(cs, r, rng),
        (Ty::En(e), _) => in_enum(e, rng),
        _ => leaf_r(
            match ty {
                Ty::Bool => K::Bool,
                Ty::Ubyte => K::U8,
                Ty::Ushort => K::U16,
                Ty::Uint => K::U32,
                Ty::Ulong => K::U64,
                Ty::Ts => K::Ts,
                Ty::Bin => K::Bin,
                Ty::Str => K::Str,
                Ty::Sym | Ty::ErrCond | Ty::DistMode => K::Sym,
                Ty::MultiSym => K::MSym,
                Ty::Fields | Ty::AnyMap | Ty::Filter => K::Map,
                Ty::MsgId => K::MsgId,
                _ => unreachable!(),
            },
            rng,
        ),
    }
}

fn in_enum(e: &En, rng: &mut Rng) -> (R, Fault) {
    let f = Fault::Choice(e.name.to_string());
    let k = match e.vals[0] {
        V::B(_) => return leaf_r(K::Bool, rng),
        V::U8(_) => K::U8,
        V::U32(_) => K::U32,
        V::S(_) => K::Sym,
        _ => unreachable!(),
    };
    if rng.chance(1, 3) {
        return leaf_r(k, rng);
    }
    loop {
        let r = match k {
            K::U8 => R::U8(if rng.bool() { rng.below(10) as u8 } else { rng.u64() as u8 }),
            K::U32 => R::U32(match rng.below(4) {
                0 => rng.below(8) as u32,
                1 => rng.below(400) as u32,
                2 => (1 + rng.below(5) as u32) << 8 | rng.below(3) as u32,
                _ => rng.u64() as u32,
            }),
            _ => near_sym(rng, e),
        };
        if !e.vals.iter().any(|v| v.r() == r) {
            return (r, f);
        }
    }
}

fn near_sym(rng: &mut Rng, e: &En) -> R {
    let s = match rng.pick(e.vals) {
        V::S(s) => s.to_string(),
        _ => String::new(),
    };
    R::Sym(match rng.below(7) {
        0 => s.to_uppercase(),
        1 => s[..s.len() - 1].to_string(),
        2 => format!("{}s", s),
        3 => format!(" {}", s),
        4 => s.replace('-', "_"),
        5 => s.replace("amqp:", ""),
        _ => Gen::new(rng).symbol(),
    })
}

/// a composite (one of `cs`) with one fault, as an expression the encoder understands
fn in_comp(cs: &[&'static Comp], r: &R, rng: &mut Rng) -> (R, Fault) {
    let code = code_of(r);
    let c: &'static Comp = match cs.iter().find(|x| x.code == code) {
        Some(c) => c,
        // nothing there yet
        None => {
            let c = *rng.pick(cs);
            let r = gen_comp(c, &mut Gen::with_budget(rng, 200));
            return in_comp(cs, &r, rng);
        }
    };
    let list = |rng: &mut Rng| {
        let mut e = Enc::new(Form::Rand(rng));
        enc_comp_list(&mut e, c, r, FREE);
        e.out
    };
    let head = |rng: &mut Rng| {
        let mut e = Enc::new(Form::Rand(rng));
        enc_descriptor(&mut e, c.code, c.sym, FREE);
        e.out
    };
    match rng.below(14) {
        0 => {
            let (b, f) = bad_code(K::Described, rng);
            (raw(&b), f)
        }
        1 | 2 => loop {
            let d = match rng.below(8) {
                0 => R::U64(rng.below(256) as u64),
                1 => R::U64(c.code + (1 << 8) * rng.range(1, 255) as u64),
                2 => R::U64(c.code | 1 << rng.range(8, 63)),
                3 => R::U64(rng.pick(ALL).code),
                4 => R::Sym(rng.pick(ALL).sym.to_string()),
                5 => R::Sym(c.sym.to_uppercase()),
                6 => R::Sym(c.sym.replace(":list", *rng.pick(&["", ":map", ":List", "-list"]))),
                _ => R::Sym(Gen::new(rng).symbol()),
            };
            let known = cs.iter().any(|x| R::U64(x.code) == d || R::sym(x.sym) == d);
            if known {
                continue;
            }
            let mut b = vec![0];
            b.extend_from_slice(&enc_rand(&d, rng));
            b.extend_from_slice(&list(rng));
            return (raw(&b), Fault::Desc(d));
        },
        3 => {
            let (d, f) = leaf(K::Desc, rng);
            (raw(&[&[0][..], &d[..], &list(rng)[..]].concat()), f)
        }
        4 | 5 => {
            let (l, f) = leaf(K::List, rng);
            (raw(&[&head(rng)[..], &l[..]].concat()), f)
        }
        6 | 7 | 8 => {
            // the list ends before a field that has to be there
            let req: Vec<usize> = (0..c.fields.len()).filter(|i| matches!(c.fields[*i].2, D::Req)).collect();
            if req.is_empty() {
                return in_comp(cs, r, rng);
            }
            let last = *req.last().unwrap();
            let n = rng.below(last + 1);
            let first = *req.iter().find(|i| **i >= n).unwrap();
            let v = comp_fields(r);
            let h = head(rng);
            let mut e = Enc::new(Form::Rand(rng));
            let body = e.scratch(|e| {
                for i in 0..n {
                    put_field(e, &c.fields[i].1, &v[i])
                }
            });
            e.out = h;
            if n == 0 && e.choose(2) == 0 {
                e.out.push(0x45);
            } else {
                let wide = body.0.len() > 254 || e.choose(2) == 0;
                e.out.push(if wide { 0xd0 } else { 0xc0 });
                e.compound(wide, n, body, CKind::Composite);
            }
            (raw(&e.out), Fault::Field(c.fields[first].0.to_string()))
        }
        _ => {
            if c.fields.is_empty() {
                return in_comp(cs, r, rng);
            }
            let mut v = comp_fields(r).clone();
            let i = rng.below(v.len());
            let ty = &c.fields[i].1;
            let old = if v[i] == R::Null { gen_ty(ty, &mut Gen::with_budget(rng, 100)) } else { v[i].clone() };
            let (x, f) = in_ty(ty, &old, rng);
            v[i] = x;
            // put together here: comparing with defaults is of no use on a faulty value
            let h = head(rng);
            let mut n = v.len();
            while n > i + 1 && c.fields[n - 1].2.default().as_ref() == Some(&v[n - 1]) && rng.bool() {
                n -= 1;
            }
            let mut e = Enc::new(Form::Rand(rng));
            let body = e.scratch(|e| {
                for k in 0..n {
                    put_field(e, &c.fields[k].1, &v[k])
                }
            });
            e.out = h;
            let wide = body.0.len() > 254 || e.choose(2) == 0;
            e.out.push(if wide { 0xd0 } else { 0xc0 });
            e.compound(wide, n, body, CKind::Composite);
            (raw(&e.out), f)
        }
    }
}

fn put_field(e: &mut Enc, ty: &Ty, r: &R) {
    match r {
        R::Null => e.out.push(0x40),
        _ => enc_ty(e, ty, r, FREE),
    }
}

fn bytes(r: &R, rng: &mut Rng) -> Vec<u8> {
    enc_rand(r, rng)
}

const SECTIONS: &[u64] = &[0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78];

/// one message section with a fault
fn in_section(s: &R, rng: &mut Rng) -> (R, Fault) {
    let code = code_of(s);
    match code {
        0x70 if rng.chance(5, 6) => return in_comp(&[&HEADER], s, rng).not_a_section(s, rng),
        0x73 if rng.chance(5, 6) => return in_comp(&[&PROPERTIES], s, rng).not_a_section(s, rng),
        _ => {}
    }
    let v = match s {
        R::Desc(_, v) => &**v,
        _ => panic!("harness: section"),
    };
    match rng.below(8) {
        0 => {
            let (b, f) = bad_code(K::Described, rng);
            (raw(&b), f)
        }
        1 => loop {
            let d = match rng.below(5) {
                0 => R::U64(rng.below(256) as u64),
                1 => R::U64(code | 1 << rng.range(8, 63)),
                2 => R::Sym(section_sym(code).to_uppercase()),
                3 => R::Sym(section_sym(code).replace(":map", ":list").replace(":binary", ":bytes").replace(":*", "")),
                _ => R::Sym(Gen::new(rng).symbol()),
            };
            let known = SECTION_SYMS.iter().any(|x| R::U64(x.0) == d || R::sym(x.1) == d);
            if !known {
                return (R::Desc(Box::new(d.clone()), Box::new(v.clone())), Fault::Desc(d));
            }
        },
        2 => {
            let (x, f) = leaf_r(K::Desc, rng);
            (R::Desc(Box::new(x), Box::new(v.clone())), f)
        }
        _ => {
            let deeper = rng.chance(5, 6);
            let (x, f) = match (code, v) {
                (0x71, R::Map(m)) | (0x72, R::Map(m)) | (0x78, R::Map(m)) if deeper && !m.is_empty() => {
                    in_map(m, K::Sym, &in_any, rng)
                }
                (0x74, R::Map(m)) if deeper && !m.is_empty() => in_map(m, K::Str, &in_any, rng),
                (0x71, _) | (0x72, _) | (0x74, _) | (0x78, _) => leaf_r(K::Map, rng),
                (0x75, _) => leaf_r(K::Bin, rng),
                (0x76, R::List(l)) if deeper && !l.is_empty() => {
                    let mut l = l.clone();
                    let i = rng.below(l.len());
                    let (x, f) = in_any(&l[i], rng);
                    l[i] = x;
                    (R::List(l), f)
                }
                (0x76, _) => leaf_r(K::List, rng),
                (0x77, _) => in_any(v, rng),
                _ => leaf_r(K::List, rng),
            };
            let d = if rng.chance(1, 3) { R::sym(section_sym(code)) } else { R::U64(code) };
            (R::Desc(Box::new(d), Box::new(x)), f)
        }
    }
}

trait NotASection {
    fn not_a_section(self, s: &R, rng: &mut Rng) -> (R, Fault);
}

impl NotASection for (R, Fault) {
    /// another section's descriptor is a fault of a composite, but none of a message
    fn not_a_section(self, s: &R, rng: &mut Rng) -> (R, Fault) {
        if let Fault::Desc(d) = &self.1 {
            if SECTION_SYMS.iter().any(|x| R::U64(x.0) == *d || R::sym(x.1) == *d) {
                return in_section(s, rng);
            }
        }
        self
    }
}

// ------------------------------------------------------------ streams

fn streams(t: Tier) -> Vec<Stream> {
    vec![
        st("codes", table().len() as u64),
        st("values", t.k(14_000, 3_000_000)),
        st("arrays", t.k(3_000, 400_000)),
        st("composites", t.k(20_000, 4_000_000)),
        st("messages", t.k(8_000, 1_500_000)),
        st("frames", t.k(8_000, 1_500_000)),
        st("prefixes", t.k(2_500, 300_000)),
        st("deep", t.k(150, 6_000)),
        st("headers", t.k(1_500, 60_000)),
        st("choices", t.k(600, 60_000)),
        st("errors", t.k(100, 2_000)),
    ]
}

fn run(c: &mut Ctx, stream: &str, i: u64) -> Res {
    let mut rng = c.rng.clone();
    let rng = &mut rng;
    match stream {
        "codes" => {
            // every constructor a type does not have
            let e = table().swap_remove(i as usize);
            let (k, null) = match kind_of(e.name) {
                Some(x) => x,
                None => return Ok(()),
            };
            for code in 0..=255u8 {
                if allowed(k).contains(&code) || (null && code == 0x40) {
                    continue;
                }
                let mut b = vec![code];
                if code == 0 {
                    b.extend_from_slice(&[0x53, 0x10, 0x45]);
                } else {
                    payload(code, rng, &mut b);
                }
                let n = rng.below(20);
                b.extend_from_slice(&rng.bytes(n));
                expect(c, &e, &b, &Fault::Code(code))?;
            }
            Ok(())
        }
        "values" => {
            let (name, r, f) = match rng.below(9) {
                0 | 1 => {
                    let r = Gen::new(rng).value(4);
                    let (x, f) = in_any(&r, rng);
                    (*rng.pick(&["Variant", "Option<Variant>"]), x, f)
                }
                2 => {
                    let r = Gen::new(rng).list(3);
                    match &r {
                        R::List(v) if !v.is_empty() => {
                            let mut v = v.clone();
                            let k = rng.below(v.len());
                            let (x, f) = in_any(&v[k], rng);
                            v[k] = x;
                            ("List", R::List(v), f)
                        }
                        _ => {
                            let (x, f) = leaf_r(K::List, rng);
                            ("List", x, f)
                        }
                    }
                }
                3 => {
                    let r = Gen::new(rng).map(3);
                    let (x, f) = in_ty(&Ty::AnyMap, &r, rng);
                    ("p::Map", x, f)
                }
                4 => {
                    let r = Gen::new(rng).sym_map();
                    let (x, f) = in_ty(&Ty::Fields, &r, rng);
                    ("p::Fields", x, f)
                }
                5 => {
                    let r = Gen::new(rng).str_map();
                    let n = *rng.pick(&["VecVariantMap", "p::StringVariantMap"]);
                    match &r {
                        R::Map(v) if !v.is_empty() => {
                            let (x, f) = in_map(v, K::Str, &in_any, rng);
                            (n, x, f)
                        }
                        _ => {
                            let (x, f) = leaf_r(K::Map, rng);
                            (n, x, f)
                        }
                    }
                }
                6 => {
                    let r = gen_ty(&Ty::Filter, &mut Gen::new(rng));
                    let (x, f) = in_ty(&Ty::Filter, &r, rng);
                    ("p::FilterSet", x, f)
                }
                7 => {
                    let k = *rng.pick(&[
                        ("char", K::Char),
                        ("Ts", K::Ts),
                        ("Option<Ts>", K::Ts),
                        ("Bytes", K::Bin),
                        ("ByteStr", K::Str),
                        ("Str", K::Str),
                        ("Symbol", K::Sym),
                        ("Option<Symbol>", K::Sym),
                        ("Multiple<Symbol>", K::MSym),
                        ("Descriptor", K::Desc),
                        ("p::MessageId", K::MsgId),
                        ("p::ErrorCondition", K::Sym),
                        ("p::DistributionMode", K::Sym),
                    ]);
                    let (x, f) = leaf_r(k.1, rng);
                    (k.0, x, f)
                }
                _ => {
                    let r = Gen::with_budget(rng, 300).value(3);
                    let (x, f) = in_any(&r, rng);
                    let inner = bytes(&x, rng);
                    let (n, b) = inputs::wrap(rng.below(inputs::WRAPS), &inner);
                    (n, raw(&b), f)
                }
            };
            let b = bytes(&r, rng);
            expect(c, &entry(name), &b, &f)
        }
        "arrays" => {
            // one element of an array, or an entry of a typed map
            let (name, code, k): (&str, u8, K) = *rng.pick(&[
                ("Vec<char>", 0x73, K::Char),
                ("Vec<Ts>", 0x83, K::Ts),
                ("Vec<ByteStr>", 0xb1, K::Str),
                ("Vec<Symbol>", 0xb3, K::Sym),
                ("Vec<List>", 0xd0, K::List),
                ("Vec<p::Map>", 0xd1, K::Map),
                ("Vec<p::Fields>", 0xd1, K::Map),
                ("Vec<VecVariantMap>", 0xd1, K::Map),
                ("Vec<u32>", 0, K::U32),
                ("Vec<Uuid>", 0, K::Uuid),
                ("Vec<bool>", 0, K::Bool),
                ("Vec<Bytes>", 0, K::Bin),
                ("HashMap<u32, Uuid>", 1, K::Any),
                ("HashMap<Symbol, Multiple<Symbol>>", 1, K::Any),
                ("HashMap<Bytes, List>", 1, K::Any),
            ]);
            let n = rng.range(1, 12);
            let bad = rng.below(n);
            let mut body = Vec::new();
            let mut fault = Fault::Size;
            if code == 0 {
                // the constructor all elements share
                let (b, f) = bad_code(k, rng);
                body = b;
                fault = f;
            } else if code == 1 {
                for j in 0..n {
                    let (key, val, kk, vk) = match name {
                        "HashMap<u32, Uuid>" => (R::U32(j as u32), R::Uuid([j as u8; 16]), K::U32, K::Uuid),
                        "HashMap<Bytes, List>" => (R::Bin(vec![j as u8]), R::List(vec![R::Null]), K::Bin, K::List),
                        _ => (R::Sym(format!("k{}", j)), R::sym("v"), K::Sym, K::MSym),
                    };
                    let mut kb = bytes(&key, rng);
                    let mut vb = bytes(&val, rng);
                    if j == bad {
                        if rng.bool() {
                            let (x, f) = leaf(kk, rng);
                            kb = x;
                            fault = f;
                        } else {
                            let (x, f) = leaf(vk, rng);
                            vb = x;
                            fault = f;
                        }
                    }
                    body.extend_from_slice(&kb);
                    body.extend_from_slice(&vb);
                }
            } else {
                body.push(code);
                for j in 0..n {
                    let b = loop {
                        if j != bad {
                            break match k {
                                K::Char => vec![code, 0, 0, 0, b'c'],
                                K::Ts => vec![code, 0, 0, 0, 0, 0, 0, 1, 1],
                                K::Str | K::Sym => vec![code, 0, 0, 0, 2, b'a', b'b'],
                                _ => vec![code, 0, 0, 0, 4, 0, 0, 0, 0],
                            };
                        }
                        let (b, f) = leaf(k, rng);
                        if b[0] == code {
                            fault = f;
                            break b;
                        }
                    };
                    body.extend_from_slice(&b[1..]);
                }
            }
            let n = if code == 1 { 2 * n } else { n };
            let c8 = if code == 1 { 0xc1 } else { 0xe0 };
            let mut b = Vec::new();
            if body.len() < 255 && rng.bool() {
                b.extend_from_slice(&[c8, (body.len() + 1) as u8, n as u8]);
            } else {
                b.push(c8 + 0x10);
                put_be(&mut b, (body.len() + 4) as u64, 4);
                put_be(&mut b, n as u64, 4);
            }
            b.extend_from_slice(&body);
            let t = rng.below(10);
            b.extend_from_slice(&rng.bytes(t));
            expect(c, &entry(name), &b, &fault)
        }
        "composites" => {
            let (name, cs): (String, &[&'static Comp]) = match rng.below(12) {
                0 => ("p::DeliveryState".to_string(), STATES),
                1 => ("p::Outcome".to_string(), OUTCOMES),
                2 => ("p::SaslFrameBody".to_string(), SASL_BODIES),
                3 => ("p::Frame".to_string(), PERFORMATIVES),
                4 => ("Option<p::Source>".to_string(), &[&SOURCE]),
                _ => {
                    let k = rng.below(ALL.len());
                    (format!("p::{}", ALL[k].name), &ALL[k..k + 1])
                }
            };
            let k = *rng.pick(cs);
            let r = gen_comp(k, &mut Gen::with_budget(rng, 400));
            let (x, f) = in_comp(cs, &r, rng);
            let mut b = bytes(&x, rng);
            if f != Fault::Incomplete && rng.chance(1, 4) {
                let n = rng.below(30);
                b.extend_from_slice(&rng.bytes(n));
            }
            expect(c, &entry(&name), &b, &f)
        }
        "messages" => {
            let m = gen_msg(&mut Gen::with_budget(rng, 600));
            let mut secs = m.sections();
            if secs.is_empty() || rng.chance(1, 4) {
                let code = *rng.pick(SECTIONS);
                let mut g = Gen::with_budget(rng, 200);
                secs.push(match code {
                    0x70 => gen_comp(&HEADER, &mut g),
                    0x73 => gen_comp(&PROPERTIES, &mut g),
                    0x74 => R::desc(code, g.str_map()),
                    0x75 => R::desc(code, R::Bin(g.bin())),
                    0x76 => R::desc(code, g.list(2)),
                    0x77 => R::desc(code, g.value(2)),
                    _ => R::desc(code, g.sym_map()),
                });
            }
            let k = rng.below(secs.len());
            let (x, f) = in_section(&secs[k], rng);
            let mut b = enc_sections(&secs[..k], rng, FREE);
            b.extend_from_slice(&bytes(&x, rng));
            b.extend_from_slice(&enc_sections(&secs[k + 1..], rng, FREE));
            for n in ["InMessage", "OutMessage"].iter() {
                expect(c, &entry(n), &b, &f)?;
            }
            if k == 0 {
                expect(c, &entry("p::Section"), &b, &f)?;
            }
            Ok(())
        }
        "frames" => frame_faults(c, rng),
        "prefixes" => {
            let t = table();
            let e = &t[i as usize % t.len()];
            if e.kind == Kind::Codec {
                return Ok(());
            }
            let (b, _) = inputs::legal(e.name, rng, 300);
            let step = 1 + b.len() / 200;
            let mut n = rng.below(step);
            while n < b.len() {
                match (e.dec)(&b[..n]) {
                    // what extends to the end of its input may end earlier
                    Ok(_) if e.kind == Kind::Tail => c.count("prefix_accepted", 1),
                    Ok(_) => {
                        return Err(format!("{} accepts {}, a part of {}", e.name, hex(&b[..n]), hex(&b)));
                    }
                    Err((f, w)) => {
                        ensure!(
                            f == Fault::Incomplete,
                            "{} of {} is refused with {:?}, and is the beginning of {}",
                            e.name,
                            hex(&b[..n]),
                            f,
                            hex(&b)
                        );
                        w?;
                        c.count("incomplete", 1);
                        c.obs(hash_bytes(&b[..n]) ^ hash_bytes(e.name.as_bytes()), true, || hex(&b[..n]));
                    }
                }
                n += step;
            }
            Ok(())
        }
        "deep" => {
            let style = rng.below(8);
            let depth = rng.range(140, 3000);
            let b = inputs::nest(style, depth, false, rng);
            let (n, b) = inputs::wrap(rng.below(inputs::WRAPS), &b);
            expect(c, &entry(n), &b, &Fault::Deep)?;
            // and the next value is read as if nothing had been
            let r = Gen::with_budget(rng, 300).value(4);
            let b = bytes(&r, rng);
            match (entry("Variant").dec)(&b) {
                Ok(0) => Ok(()),
                x => Err(format!("after a refused value, {} gives {:?}", hex(&b), x)),
            }
        }
        "headers" => {
            let mut h = b"AMQP\0\x01\0\0".to_vec();
            h[4] = *rng.pick(&[0, 2, 3]);
            let want = match rng.below(3) {
                0 => {
                    let k = rng.below(4);
                    h[k] ^= 1 << rng.below(8);
                    "InvalidHeader"
                }
                1 => {
                    let k = rng.range(5, 7);
                    h[k] ^= 1 << rng.below(8);
                    "Incompatible"
                }
                _ => {
                    h[4] = loop {
                        let x = rng.u64() as u8;
                        if x != 0 && x != 2 && x != 3 {
                            break x;
                        }
                    };
                    "Unknown"
                }
            };
            let n = rng.below(12);
            h.extend_from_slice(&rng.bytes(n));
            let mut src = BytesMut::from(&h[..]);
            let got = match ProtocolIdCodec.decode(&mut src) {
                Ok(x) => return Err(format!("protocol header {} gives {:?}; its fault is {}", hex(&h), x, want)),
                Err(e) => {
                    ensure!(!e.to_string().is_empty(), "the text of {:?} is empty", e);
                    match e {
                        ProtocolIdError::InvalidHeader => "InvalidHeader",
                        ProtocolIdError::Incompatible => "Incompatible",
                        ProtocolIdError::Unknown => "Unknown",
                        _ => "another",
                    }
                }
            };
            ensure!(got == want, "protocol header {} is refused with {}; its fault is {}", hex(&h), got, want);
            c.count("header", 1);
            c.obs(hash_bytes(&h[..8]), true, || format!("{} -> {}", hex(&h), want));
            Ok(())
        }
        "choices" => choices(c, rng),
        "errors" => errors(c, rng),
        _ => unreachable!(),
    }
}

fn frame_faults(c: &mut Ctx, rng: &mut Rng) -> Res {
    let sasl = rng.chance(1, 3);
    let (name, cname) = if sasl { ("SaslFrame", "AmqpCodec<SaslFrame>") } else { ("AmqpFrame", "AmqpCodec<AmqpFrame>") };
    let own = sasl as u8;
    let cs = if sasl { SASL_BODIES } else { PERFORMATIVES };
    let k = *rng.pick(cs);
    let r = gen_comp(k, &mut Gen::with_budget(rng, 300));
    let ext = if rng.chance(1, 4) { rng.range(1, 5) } else { 0 };
    let ext = rng.bytes(4 * ext);
    let chan = if sasl { 0 } else { rng.u64() as u16 };
    let good = comp_rand(k, &r, rng, FREE);
    let (mut w, f, direct) = match rng.below(8) {
        0 => {
            let t = loop {
                let t = if rng.bool() { 1 - own } else { rng.u64() as u8 };
                if t != own {
                    break t;
                }
            };
            (wrap_frame(t, chan, &ext, &good), Fault::Type(t), true)
        }
        1 => {
            let mut w = wrap_frame(own, chan, &ext, &good);
            w[4] = rng.below(2) as u8;
            (w, Fault::Size, true)
        }
        2 => {
            // the header promises to be longer than the frame
            let mut w = wrap_frame(own, chan, &ext, &good);
            let least = w.len() / 4 + 1;
            if least > 255 {
                return Ok(());
            }
            w[4] = rng.range(least, 255) as u8;
            (w, Fault::Incomplete, true)
        }
        3 => {
            if k.code == 0x14 {
                return Ok(());
            }
            let n = rng.range(1, 20);
            let b = [&good[..], &rng.bytes(n)[..]].concat();
            (wrap_frame(own, chan, &ext, &b), Fault::Left, false)
        }
        4 => {
            // the frame ends inside its body
            let n = rng.range(1, good.len() - 1);
            (wrap_frame(own, chan, &ext, &good[..n]), Fault::Incomplete, true)
        }
        5 => {
            let mut w = wrap_frame(own, chan, &ext, &good);
            set4(&mut w, rng.below(8) as u32);
            (w, Fault::Size, false)
        }
        _ => {
            let (x, f) = in_comp(cs, &r, rng);
            let b = bytes(&x, rng);
            (wrap_frame(own, chan, &ext, &b), f, true)
        }
    };
    if direct {
        expect(c, &entry(name), &w[4..], &f)?;
    }
    // a few good frames first; what follows does not matter
    let mut b = Vec::new();
    for _ in 0..rng.below(3) {
        let k = *rng.pick(cs);
        let r = gen_comp(k, &mut Gen::with_budget(rng, 60));
        b.extend_from_slice(&wrap_frame(own, 0, &[], &comp_rand(k, &r, rng, FREE)));
    }
    b.append(&mut w);
    let n = rng.below(30);
    b.extend_from_slice(&rng.bytes(n));
    expect(c, &entry(cname), &b, &f)
}

fn set4(b: &mut [u8], v: u32) {
    b[..4].copy_from_slice(&v.to_be_bytes());
}

fn choices(c: &mut Ctx, rng: &mut Rng) -> Res {
    macro_rules! unknown {
        ($t:ty, $name:expr, $v:expr) => {
            match <$t>::try_from($v) {
                Ok(x) => Err(format!("{}::try_from of no option gives {:?}", $name, x)),
                Err(e) => {
                    let f = fault_of(&e);
                    ensure!(f == Fault::Choice($name.to_string()), "{}::try_from of no option fails with {:?}", $name, f);
                    words(&e)
                }
            }
        };
    }
    for e in ENUMS.iter() {
        let (r, f) = in_enum(e, rng);
        if f != Fault::Choice(e.name.to_string()) {
            continue;
        }
        match &r {
            R::U8(x) => match e.name {
                "SenderSettleMode" => unknown!(p::SenderSettleMode, e.name, *x)?,
                "ReceiverSettleMode" => unknown!(p::ReceiverSettleMode, e.name, *x)?,
                _ => unknown!(p::SaslCode, e.name, *x)?,
            },
            R::U32(x) => unknown!(p::TerminusDurability, e.name, *x)?,
            R::Sym(s) => {
                let s = &Symbol::from_slice(s);
                match e.name {
                    "TerminusExpiryPolicy" => unknown!(p::TerminusExpiryPolicy, e.name, s)?,
                    "AmqpError" => unknown!(p::AmqpError, e.name, s)?,
                    "ConnectionError" => unknown!(p::ConnectionError, e.name, s)?,
                    "SessionError" => unknown!(p::SessionError, e.name, s)?,
                    _ => unknown!(p::LinkError, e.name, s)?,
                }
            }
            _ => continue,
        }
        let b = bytes(&r, rng);
        expect(c, &entry(&format!("p::{}", e.name)), &b, &f)?;
    }
    Ok(())
}

fn errors(c: &mut Ctx, rng: &mut Rng) -> Res {
    use std::io;
    let kinds = [
        io::ErrorKind::NotFound,
        io::ErrorKind::ConnectionReset,
        io::ErrorKind::UnexpectedEof,
        io::ErrorKind::TimedOut,
        io::ErrorKind::Other,
    ];
    let k = *rng.pick(&kinds);
    let text = format!("trouble {}", rng.u64());
    let e: AmqpCodecError = io::Error::new(k, text.clone()).into();
    match &e {
        AmqpCodecError::Io(Some(x)) => {
            ensure!(x.kind() == k && x.to_string() == text, "an io error becomes {:?}", e);
        }
        _ => return Err(format!("an io error becomes {:?}", e)),
    }
    ensure!(e.to_string().contains(&text), "the text of an io error {:?} is {:?}", text, e.to_string());
    let d = e.clone();
    ensure!(fault_of_codec(&d) == Fault::Io, "the clone of an io error is {:?}", d);
    let e = AmqpCodecError::UnparsedBytesLeft;
    ensure!(fault_of_codec(&e.clone()) == Fault::Left, "the clone of UnparsedBytesLeft is {:?}", e.clone());
    ensure!(!e.to_string().is_empty(), "the text of UnparsedBytesLeft is empty");
    let e: ProtocolIdError = io::Error::new(k, text.clone()).into();
    match &e {
        ProtocolIdError::Io(x) => ensure!(x.kind() == k && x.to_string() == text, "an io error becomes {:?}", e),
        _ => return Err(format!("an io error becomes {:?}", e)),
    }
    ensure!(e.to_string().contains(&text), "the text of an io error {:?} is {:?}", text, e.to_string());
    let e = ProtocolIdError::Unexpected { exp: p::ProtocolId::Amqp, got: p::ProtocolId::AmqpSasl };
    let s = e.to_string();
    let (a, b) = (s.find("Amqp "), s.find("AmqpSasl"));
    ensure!(a.is_some() && b.is_some() && a < b, "the text of {:?} is {:?}", e, s);
    // every kind of refusal, made by hand
    let x = rng.u64();
    let all = vec![
        AmqpParseError::InvalidSize,
        AmqpParseError::NestingTooDeep,
        AmqpParseError::Incomplete(None),
        AmqpParseError::Incomplete(Some(x as usize)),
        AmqpParseError::InvalidFormatCode(x as u8),
        AmqpParseError::InvalidChar(x as u32),
        AmqpParseError::InvalidTimestamp(x as i64),
        AmqpParseError::InvalidDescriptor(Descriptor::Ulong(x)),
        AmqpParseError::InvalidDescriptor(Descriptor::Symbol(Symbol::from_slice("d"))),
        AmqpParseError::UnexpectedFrameType(x as u8),
        AmqpParseError::RequiredFieldOmitted("some_field"),
        AmqpParseError::UnknownEnumOption("SomeType"),
    ];
    for e in &all {
        words(e)?;
    }
    c.count("error_values", all.len() as u64);
    c.obs(x, true, || text.clone());
    Ok(())
}

pub const C29: Prop = Prop {
    id: "C29",
    rule: "an input with exactly one fault is refused with the error for that fault, carrying the offending value",
    streams,
    run,
};
