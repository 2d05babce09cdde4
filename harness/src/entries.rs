//! Every public decoding entry point of the crate, as a table.

use std::fmt::Debug;
use std::hash::{BuildHasherDefault, Hasher};

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{AmqpCodec, AmqpFrame, Decode, Encode, InMessage, OutMessage, ProtocolIdCodec, SaslFrame};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Utc};
use hashbrown::HashMap;
use tokio_io::codec::Decoder;
use uuid::Uuid;

use crate::conv::*;
use crate::ctx::Res;
use crate::rng::hash_bytes;
use crate::rval::{hex, R};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// one self-delimiting value of a basic type
    Value,
    /// a composite, union or section
    Comp,
    /// extends to the end of its input
    Tail,
    /// a stream codec
    Codec,
}

pub struct Entry {
    pub name: &'static str,
    pub kind: Kind,
    /// (value, bytes left)
    pub dec: fn(&[u8]) -> Result<(R, usize), String>,
    /// decode and drop: true if accepted
    pub run: fn(&[u8]) -> bool,
    /// accepted input re-encodes stably; Ok(false) if not accepted
    pub stab: Option<fn(&[u8]) -> Result<bool, String>>,
    /// hash of the outcome, value and re-encoding
    pub dig: fn(&[u8]) -> u64,
    /// the outcome printed in every way: value and text if accepted
    pub show: fn(&[u8]) -> Result<Option<(R, String)>, String>,
}

pub fn dec<T: Decode + ToR>(b: &[u8]) -> Result<(R, usize), String> {
    lib_dec::<T>(b).map(|(v, n)| (v.to_r(), n))
}

fn run<T: Decode>(b: &[u8]) -> bool {
    T::decode(b).is_ok()
}

pub fn stab<T: Decode + Encode + ToR>(b: &[u8]) -> Result<bool, String> {
    let (v, _) = match lib_dec::<T>(b) {
        Ok(x) => x,
        Err(_) => return Ok(false),
    };
    let r = v.to_r();
    let n = v.encoded_size();
    let e = lib_enc(&v);
    ensure!(e.len() == n, "accepted {}: announced size {} but {} bytes encoded", r.show(), n, e.len());
    let (v2, left) = lib_dec::<T>(&e)
        .map_err(|x| format!("accepted {}: its encoding {} is refused: {}", r.show(), hex(&e), x))?;
    ensure!(left == 0, "accepted {}: its encoding {} leaves {} bytes", r.show(), hex(&e), left);
    let r2 = v2.to_r();
    ensure!(r2 == r, "accepted {} comes back as {} (encoding {})", r.show(), r2.show(), hex(&e));
    let e2 = lib_enc(&v2);
    ensure!(e2.len() == e.len(), "accepted {}: encodes to {} then {} bytes", r.show(), e.len(), e2.len());
    Ok(true)
}

fn hash_r(r: &R) -> u64 {
    use std::hash::Hash;
    #[derive(Default)]
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            self.0 = crate::rng::mix(self.0 ^ hash_bytes(b));
        }
    }
    let _: BuildHasherDefault<H> = Default::default();
    let mut h = H(1);
    r.hash(&mut h);
    h.finish()
}

fn dig<T: Decode + ToR>(b: &[u8]) -> u64 {
    match dec::<T>(b) {
        Ok((r, n)) => crate::rng::mix(hash_r(&r) ^ n as u64),
        Err(e) => hash_bytes(e.as_bytes()),
    }
}

fn dig_enc<T: Decode + Encode + ToR>(b: &[u8]) -> u64 {
    match lib_dec::<T>(b) {
        Ok((v, n)) => crate::rng::mix(hash_r(&v.to_r()) ^ n as u64 ^ hash_bytes(&lib_enc(&v)) ^ v.encoded_size() as u64),
        Err(e) => hash_bytes(e.as_bytes()),
    }
}

/// feed everything at once; every frame and error in order
pub fn stream_dec<T: Decode + Encode + ToR + std::fmt::Debug>(b: &[u8]) -> Result<(R, usize), String> {
    let mut c = AmqpCodec::<T>::new();
    let mut src = BytesMut::from(b);
    let mut out = Vec::new();
    let mut any = false;
    for _ in 0..=b.len() + 1 {
        let before = src.len();
        match c.decode(&mut src) {
            Ok(None) => break,
            Ok(Some(f)) => {
                any = true;
                out.push(f.to_r())
            }
            Err(e) => {
                out.push(R::Str(format!("{:?}", e)));
                if src.len() == before {
                    break;
                }
            }
        }
    }
    if any || out.is_empty() {
        Ok((R::List(out), src.len()))
    } else {
        Err(format!("{:?}", out[0]))
    }
}

fn stream_run<T: Decode + Encode + ToR + std::fmt::Debug>(b: &[u8]) -> bool {
    let mut c = AmqpCodec::<T>::new();
    let mut src = BytesMut::from(b);
    let mut any = false;
    for _ in 0..=b.len() + 1 {
        let before = src.len();
        match c.decode(&mut src) {
            Ok(None) => break,
            Ok(Some(_)) => any = true,
            Err(_) => {
                if src.len() == before {
                    break;
                }
            }
        }
    }
    any
}

fn stream_dig<T: Decode + Encode + ToR + std::fmt::Debug>(b: &[u8]) -> u64 {
    match stream_dec::<T>(b) {
        Ok((r, n)) => crate::rng::mix(hash_r(&r) ^ n as u64),
        Err(e) => hash_bytes(e.as_bytes()),
    }
}

fn proto_dec(b: &[u8]) -> Result<(R, usize), String> {
    let mut src = BytesMut::from(b);
    match ProtocolIdCodec.decode(&mut src) {
        Ok(Some(x)) => Ok((R::U8(x as u8), src.len())),
        Ok(None) => Err("incomplete".to_string()),
        Err(e) => Err(format!("{:?}", e)),
    }
}
fn proto_run(b: &[u8]) -> bool {
    proto_dec(b).is_ok()
}
fn proto_dig(b: &[u8]) -> u64 {
    hash_bytes(format!("{:?}", proto_dec(b)).as_bytes())
}

// ------------------------------------------------------------ printing

/// the plain text of a value, printed in every way the formatter knows
pub fn text_of<T: Debug>(v: &T) -> Result<String, String> {
    let plain = format!("{:?}", v);
    let pretty = format!("{:#?}", v);
    ensure!(!plain.is_empty() && !pretty.is_empty(), "prints as nothing");
    // width, precision, fill and radix flags are passed on to the parts
    let s = match plain.len() % 5 {
        0 => format!("{:7?}", v),
        1 => format!("{:.3?}", v),
        2 => format!("{:<40?}", v),
        3 => format!("{:#06x?}", v),
        _ => format!("{:+?}", v),
    };
    ensure!(!s.is_empty(), "prints as nothing with flags");
    ensure!(format!("{:?}", v) == plain, "printed twice, the texts differ: {}", plain);
    // the sink may refuse
    let mut n = Sink(plain.len() / 2);
    let r = std::fmt::write(&mut n, format_args!("{:?}", v));
    ensure!(r.is_err(), "a sink that refuses the second half is ignored: {}", plain);
    // the pretty form differs in layout and in the comma behind a last item only
    let flat = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect::<String>();
    ensure!(flat(&pretty) == flat(&plain), "pretty form {} does not say what {} says", pretty, plain);
    Ok(plain)
}

struct Sink(usize);

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

fn sorted(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.sort_unstable();
    v
}

pub fn show<T: Decode + ToR + Debug>(b: &[u8]) -> Result<Option<(R, String)>, String> {
    let v = match T::decode(b) {
        Ok((_, v)) => v,
        Err(e) => return crate::p::show::fault(&e).map(|_| None),
    };
    let s = text_of(&v)?;
    // the same bytes once more, looked at without printing
    let w = T::decode(b).map_err(|e| format!("accepted, then refused: {:?}", e))?.1;
    let t = format!("{:?}", w);
    ensure!(sorted(&t) == sorted(&s), "decoded from the same bytes, but printed as {} and {}", s, t);
    let x = T::decode(b).map_err(|e| format!("accepted, then refused: {:?}", e))?.1;
    let (before, after) = (x.to_r(), v.to_r());
    ensure!(before == after, "printing changed {} into {}", before.show(), after.show());
    Ok(Some((before, s)))
}

pub fn show_enc<T: Decode + Encode + ToR + Debug>(b: &[u8]) -> Result<Option<(R, String)>, String> {
    let r = show::<T>(b)?;
    if r.is_some() {
        // printed at any time, it is encoded as if never printed
        let (v, w) = match (T::decode(b), T::decode(b)) {
            (Ok(v), Ok(w)) => (v.1, w.1),
            _ => return Err("accepted, then refused".to_string()),
        };
        let n = w.encoded_size();
        let e = lib_enc(&w);
        text_of(&v)?;
        ensure!(v.encoded_size() == n, "after printing the announced size is {} instead of {}", v.encoded_size(), n);
        text_of(&v)?;
        let e2 = lib_enc(&v);
        ensure!(e2.len() == e.len() && sorted_bytes(&e2) == sorted_bytes(&e), "after printing {} is encoded as {} instead of {}", r.as_ref().unwrap().1, hex(&e2), hex(&e));
        text_of(&v)?;
    }
    Ok(r)
}

fn sorted_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v.sort_unstable();
    v
}

fn stream_show<T: Decode + Encode + ToR + Debug>(b: &[u8]) -> Result<Option<(R, String)>, String> {
    let mut c = AmqpCodec::<T>::new();
    let mut src = BytesMut::from(b);
    let mut out = Vec::new();
    let mut text = String::new();
    for _ in 0..=b.len() + 1 {
        let before = src.len();
        match c.decode(&mut src) {
            Ok(None) => break,
            Ok(Some(f)) => {
                text += &text_of(&f)?;
                out.push(f.to_r())
            }
            Err(e) => {
                crate::p::show::codec_fault(&e)?;
                if src.len() == before {
                    break;
                }
            }
        }
    }
    Ok(if out.is_empty() { None } else { Some((R::List(out), text)) })
}

fn proto_show(b: &[u8]) -> Result<Option<(R, String)>, String> {
    let mut src = BytesMut::from(b);
    match ProtocolIdCodec.decode(&mut src) {
        Ok(Some(x)) => Ok(Some((R::U8(x as u8), text_of(&x)?))),
        Ok(None) => Ok(None),
        Err(e) => {
            ensure!(!format!("{}", e).is_empty(), "an error without text: {:?}", e);
            text_of(&e).map(|_| None)
        }
    }
}

macro_rules! full {
    ($v:ident, $k:ident, $($t:ty),* $(,)?) => { $( $v.push(Entry {
        name: stringify!($t), kind: Kind::$k, dec: dec::<$t>, run: run::<$t>, stab: Some(stab::<$t>), dig: dig_enc::<$t>, show: show_enc::<$t>,
    }); )* };
}
macro_rules! donly {
    ($v:ident, $k:ident, $($t:ty),* $(,)?) => { $( $v.push(Entry {
        name: stringify!($t), kind: Kind::$k, dec: dec::<$t>, run: run::<$t>, stab: None, dig: dig::<$t>, show: show::<$t>,
    }); )* };
}

pub type Ts = DateTime<Utc>;

pub fn all() -> Vec<Entry> {
    let mut v = Vec::new();
    full!(v, Value, bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, Ts, Uuid, Bytes, ByteStr, Str, Symbol);
    full!(v, Value, Variant, List, VecVariantMap, Multiple<Symbol>, p::Map, p::Fields, p::StringVariantMap, p::FilterSet);
    full!(v, Value, HashMap<u32, Uuid>, HashMap<Symbol, Multiple<Symbol>>, HashMap<Bytes, List>);
    full!(
        v, Value, Vec<bool>, Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i64>, Vec<f32>,
        Vec<f64>, Vec<char>, Vec<Ts>, Vec<Uuid>, Vec<Bytes>, Vec<ByteStr>, Vec<Symbol>, Vec<p::Fields>, Vec<p::Map>
    );
    full!(v, Value, Option<bool>, Option<u32>, Option<Ts>, Option<Symbol>, Option<Variant>, Option<p::Source>);
    donly!(v, Value, Vec<List>, Vec<Variant>, Vec<Option<u32>>, Vec<Vec<u32>>, Vec<VecVariantMap>, Descriptor);
    full!(
        v, Value, p::MessageId, p::ErrorCondition, p::DistributionMode, p::Role, p::SenderSettleMode,
        p::ReceiverSettleMode, p::SaslCode, p::TerminusDurability, p::TerminusExpiryPolicy, p::AmqpError,
        p::ConnectionError, p::SessionError, p::LinkError
    );
    full!(
        v, Comp, p::Error, p::Open, p::Begin, p::Attach, p::Flow, p::Disposition, p::Detach, p::End, p::Close,
        p::SaslMechanisms, p::SaslInit, p::SaslChallenge, p::SaslResponse, p::SaslOutcome, p::Source, p::Target,
        p::Header, p::Properties, p::Received, p::Accepted, p::Rejected, p::Released, p::Modified, p::DeliveryState,
        p::Outcome, p::SaslFrameBody, p::Section
    );
    full!(v, Tail, p::Transfer, p::Frame, InMessage, OutMessage, AmqpFrame);
    // encoded frames carry the size word that the codec strips before decoding
    for e in v.iter_mut() {
        if e.name == "AmqpFrame" {
            e.stab = Some(stab_amqp);
        }
    }
    v.push(Entry {
        name: "SaslFrame",
        kind: Kind::Comp,
        dec: dec::<SaslFrame>,
        run: run::<SaslFrame>,
        stab: Some(stab_sasl),
        dig: dig_enc::<SaslFrame>,
        show: show_enc::<SaslFrame>,
    });
    v.push(Entry {
        name: "AmqpCodec<AmqpFrame>",
        kind: Kind::Codec,
        dec: stream_dec::<AmqpFrame>,
        run: stream_run::<AmqpFrame>,
        stab: None,
        dig: stream_dig::<AmqpFrame>,
        show: stream_show::<AmqpFrame>,
    });
    v.push(Entry {
        name: "AmqpCodec<SaslFrame>",
        kind: Kind::Codec,
        dec: stream_dec::<SaslFrame>,
        run: stream_run::<SaslFrame>,
        stab: None,
        dig: stream_dig::<SaslFrame>,
        show: stream_show::<SaslFrame>,
    });
    v.push(Entry {
        name: "ProtocolIdCodec",
        kind: Kind::Codec,
        dec: proto_dec,
        run: proto_run,
        stab: None,
        dig: proto_dig,
        show: proto_show,
    });
    v
}

fn stab_frame<T: Decode + Encode + ToR>(b: &[u8]) -> Result<bool, String> {
    let (v, _) = match lib_dec::<T>(b) {
        Ok(x) => x,
        Err(_) => return Ok(false),
    };
    let r = v.to_r();
    let n = v.encoded_size();
    let e = lib_enc(&v);
    ensure!(e.len() == n, "accepted {}: announced size {} but {} bytes encoded", r.show(), n, e.len());
    ensure!(e.len() >= 8, "accepted {}: encodes to {} bytes", r.show(), e.len());
    let (v2, left) = lib_dec::<T>(&e[4..])
        .map_err(|x| format!("accepted {}: its encoding {} is refused: {}", r.show(), hex(&e), x))?;
    ensure!(left == 0, "accepted {}: its encoding {} leaves {} bytes", r.show(), hex(&e), left);
    let r2 = v2.to_r();
    ensure!(r2 == r, "accepted {} comes back as {} (encoding {})", r.show(), r2.show(), hex(&e));
    let e2 = lib_enc(&v2);
    ensure!(e2.len() == e.len(), "accepted {}: encodes to {} then {} bytes", r.show(), e.len(), e2.len());
    Ok(true)
}
fn stab_amqp(b: &[u8]) -> Result<bool, String> {
    stab_frame::<AmqpFrame>(b)
}
fn stab_sasl(b: &[u8]) -> Result<bool, String> {
    stab_frame::<SaslFrame>(b)
}

pub fn by_name(n: &str) -> Entry {
    all().into_iter().find(|e| e.name == n).unwrap_or_else(|| panic!("no entry {}", n))
}

#[allow(dead_code)]
pub fn nothing() -> Res {
    Ok(())
}
