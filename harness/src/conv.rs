//! Observation of library values as reference values (ToR) and construction of library values
//! from reference values (FromR). Only the crate's public API is used.

use std::cell::Cell;
use std::sync::Mutex;
use std::hash::{BuildHasher, Hash};

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, Decode, Encode, InMessage, OutMessage, SaslFrame};
use bytes::{Bytes, BytesMut};
use chrono::{DateTime, Utc};
use hashbrown::HashMap;
use ordered_float::OrderedFloat;
use uuid::Uuid;

use crate::gen::STATICS;
use crate::rng::mix;
use crate::rval::R;
use crate::spec::comp_fields;

thread_local! { static FLAVOR: Cell<u64> = Cell::new(0); }

/// Which of several equivalent representations (owned/static/shared storage) to build; seeded per case
pub fn set_flavor(x: u64) {
    FLAVOR.with(|f| f.set(x));
}

thread_local! { static STATIC_VARIANTS: Cell<bool> = Cell::new(false); }

/// build Variant::StaticSymbol for some symbols (it decodes as Variant::Symbol, which is unequal)
pub fn static_variants(on: bool) {
    STATIC_VARIANTS.with(|f| f.set(on));
}

thread_local! { static NO_POOL: Cell<bool> = Cell::new(false); }

/// no further texts are given 'static storage
pub fn no_pool(on: bool) {
    NO_POOL.with(|f| f.set(on));
}

pub fn flavor(n: u64) -> u64 {
    FLAVOR.with(|f| {
        let v = mix(f.get());
        f.set(v);
        (v >> 20) % n
    })
}

pub trait ToR {
    fn to_r(&self) -> R;
}

pub trait FromR: Sized {
    fn from_r(r: &R) -> Self;
}

impl<'a, T: ToR + ?Sized> ToR for &'a T {
    fn to_r(&self) -> R {
        (**self).to_r()
    }
}
impl ToR for str {
    fn to_r(&self) -> R {
        R::str(self)
    }
}

macro_rules! scalar {
    ($t:ty, $v:ident) => {
        impl ToR for $t {
            fn to_r(&self) -> R {
                R::$v(*self)
            }
        }
        impl FromR for $t {
            fn from_r(r: &R) -> Self {
                match r {
                    R::$v(x) => *x,
                    _ => panic!("harness: {:?} as {}", r, stringify!($t)),
                }
            }
        }
    };
}
scalar!(bool, Bool);
scalar!(u8, U8);
scalar!(u16, U16);
scalar!(u32, U32);
scalar!(u64, U64);
scalar!(i8, I8);
scalar!(i16, I16);
scalar!(i32, I32);
scalar!(i64, I64);

impl ToR for f32 {
    fn to_r(&self) -> R {
        R::F32(self.to_bits())
    }
}
impl FromR for f32 {
    fn from_r(r: &R) -> Self {
        match r {
            R::F32(x) => f32::from_bits(*x),
            _ => panic!("harness: f32"),
        }
    }
}
impl ToR for f64 {
    fn to_r(&self) -> R {
        R::F64(self.to_bits())
    }
}
impl FromR for f64 {
    fn from_r(r: &R) -> Self {
        match r {
            R::F64(x) => f64::from_bits(*x),
            _ => panic!("harness: f64"),
        }
    }
}
impl ToR for char {
    fn to_r(&self) -> R {
        // a forged char would be caught here as its number
        let v = *self as u32;
        if std::char::from_u32(v).is_none() {
            return R::Bad(format!("char {:#x}", v));
        }
        R::Char(v)
    }
}
impl FromR for char {
    fn from_r(r: &R) -> Self {
        match r {
            R::Char(x) => std::char::from_u32(*x).expect("harness: char"),
            _ => panic!("harness: char"),
        }
    }
}
impl ToR for DateTime<Utc> {
    fn to_r(&self) -> R {
        let n = self.timestamp_subsec_nanos();
        if n >= 1_000_000_000 || n % 1_000_000 != 0 {
            return R::Bad(format!("date {}s + {}ns", self.timestamp(), n));
        }
        R::Ts(self.timestamp() * 1000 + i64::from(n / 1_000_000))
    }
}
pub fn date(ms: i64) -> Option<DateTime<Utc>> {
    DateTime::<Utc>::from_timestamp_millis(ms)
}
impl FromR for DateTime<Utc> {
    fn from_r(r: &R) -> Self {
        match r {
            R::Ts(x) => date(*x).expect("harness: timestamp out of range"),
            _ => panic!("harness: ts"),
        }
    }
}
impl ToR for Uuid {
    fn to_r(&self) -> R {
        R::Uuid(*self.as_bytes())
    }
}
impl FromR for Uuid {
    fn from_r(r: &R) -> Self {
        match r {
            R::Uuid(x) => Uuid::from_bytes(*x),
            _ => panic!("harness: uuid"),
        }
    }
}
impl ToR for Bytes {
    fn to_r(&self) -> R {
        R::Bin(self.to_vec())
    }
}
pub fn bytes_of(b: &[u8]) -> Bytes {
    match flavor(3) {
        0 => {
            let mut m = BytesMut::with_capacity(b.len() + 9);
            m.extend_from_slice(b"head");
            m.extend_from_slice(b);
            m.extend_from_slice(b"tail");
            m.freeze().slice(4, 4 + b.len())
        }
        1 => Bytes::from(b.to_vec()),
        _ => Bytes::from(b),
    }
}
impl FromR for Bytes {
    fn from_r(r: &R) -> Self {
        match r {
            R::Bin(x) => bytes_of(x),
            _ => panic!("harness: {:?} as binary", r),
        }
    }
}
fn text(b: &[u8], sym: bool) -> R {
    match std::str::from_utf8(b) {
        Ok(s) if sym => R::sym(s),
        Ok(s) => R::str(s),
        Err(_) => R::Bad(format!("text {}", crate::rval::hex(b))),
    }
}
impl ToR for ByteStr {
    fn to_r(&self) -> R {
        let b: &[u8] = self.get_ref().as_ref();
        text(b, false)
    }
}
pub fn byte_str(s: &str) -> ByteStr {
    if flavor(2) == 0 {
        ByteStr::from_str(s)
    } else {
        <ByteStr as string::TryFrom<Bytes>>::try_from(bytes_of(s.as_bytes())).expect("harness: utf8")
    }
}
impl FromR for ByteStr {
    fn from_r(r: &R) -> Self {
        match r {
            R::Str(x) => byte_str(x),
            _ => panic!("harness: {:?} as string", r),
        }
    }
}
/// The same text with 'static storage: the constants, or an interned copy while the pool has room
pub fn static_of(s: &str) -> Option<&'static str> {
    if let Some(x) = STATICS.iter().cloned().find(|x| *x == s) {
        return Some(x);
    }
    if s.len() > 70_000 || NO_POOL.with(|f| f.get()) {
        return None;
    }
    let mut p = POOL.lock().unwrap_or_else(|e| e.into_inner());
    let (used, m) = &mut *p;
    let m = m.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return Some(*x);
    }
    if *used + s.len() + 64 > 8 << 20 {
        return None;
    }
    *used += s.len() + 64;
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(x, x);
    Some(x)
}
/// a second 'static copy of the text, at another address: sometimes the front part of a longer one
pub fn static_copy(s: &str) -> Option<&'static str> {
    static_of(&format!("{}~", s)).map(|x| &x[..s.len()])
}
static POOL: Mutex<(usize, Option<HashMap<&'static str, &'static str>>)> = Mutex::new((0, None));
pub fn str_of(s: &str) -> Str {
    if flavor(2) == 0 {
        if let Some(x) = static_of(s) {
            return Str::from(x);
        }
    }
    if flavor(2) == 0 {
        Str::from_str(s)
    } else {
        Str::from(byte_str(s))
    }
}
impl ToR for Str {
    fn to_r(&self) -> R {
        text(self.as_bytes(), false)
    }
}
impl FromR for Str {
    fn from_r(r: &R) -> Self {
        match r {
            R::Str(x) => str_of(x),
            _ => panic!("harness: str"),
        }
    }
}
impl ToR for Symbol {
    fn to_r(&self) -> R {
        text(self.as_bytes(), true)
    }
}
impl FromR for Symbol {
    fn from_r(r: &R) -> Self {
        match r {
            R::Sym(x) => {
                if flavor(3) == 0 {
                    Symbol::from_slice(x)
                } else {
                    Symbol(str_of(x))
                }
            }
            _ => panic!("harness: {:?} as symbol", r),
        }
    }
}
impl ToR for StaticSymbol {
    fn to_r(&self) -> R {
        R::sym(self.0)
    }
}
impl<T: ToR> ToR for Option<T> {
    fn to_r(&self) -> R {
        match self {
            None => R::Null,
            Some(x) => x.to_r(),
        }
    }
}
impl<T: FromR> FromR for Option<T> {
    fn from_r(r: &R) -> Self {
        match r {
            R::Null => None,
            x => Some(T::from_r(x)),
        }
    }
}
impl<T: ToR> ToR for Vec<T> {
    fn to_r(&self) -> R {
        R::Array(self.iter().map(ToR::to_r).collect())
    }
}
impl<T: FromR> FromR for Vec<T> {
    fn from_r(r: &R) -> Self {
        match r {
            R::Array(v) => v.iter().map(T::from_r).collect(),
            _ => panic!("harness: vec"),
        }
    }
}
impl<T: ToR> ToR for Multiple<T> {
    fn to_r(&self) -> R {
        self.0.to_r()
    }
}
impl<T: FromR> FromR for Multiple<T> {
    fn from_r(r: &R) -> Self {
        Multiple(Vec::from_r(r))
    }
}
impl<K: ToR + Eq + Hash, V: ToR, S: BuildHasher> ToR for HashMap<K, V, S> {
    fn to_r(&self) -> R {
        let mut v: Vec<(R, R)> = self.iter().map(|(k, x)| (k.to_r(), x.to_r())).collect();
        v.sort();
        R::Map(v)
    }
}
impl<K: FromR + Eq + Hash, V: FromR, S: BuildHasher + Default> FromR for HashMap<K, V, S> {
    fn from_r(r: &R) -> Self {
        match r {
            R::Map(v) => {
                // insertion order varies: equality must not depend on it
                let mut m: HashMap<K, V, S> = HashMap::default();
                if flavor(2) == 0 {
                    for (k, x) in v.iter().rev() {
                        m.insert(K::from_r(k), V::from_r(x));
                    }
                } else {
                    for (k, x) in v {
                        m.insert(K::from_r(k), V::from_r(x));
                    }
                }
                m
            }
            _ => panic!("harness: map"),
        }
    }
}
impl ToR for VecVariantMap {
    fn to_r(&self) -> R {
        R::Map(self.0.iter().map(|(k, x)| (k.to_r(), x.to_r())).collect())
    }
}
impl FromR for VecVariantMap {
    fn from_r(r: &R) -> Self {
        match r {
            R::Map(v) => VecVariantMap(v.iter().map(|(k, x)| (Str::from_r(k), Variant::from_r(x))).collect()),
            _ => panic!("harness: vecmap"),
        }
    }
}
impl ToR for List {
    fn to_r(&self) -> R {
        R::List(self.0.iter().map(ToR::to_r).collect())
    }
}
impl FromR for List {
    fn from_r(r: &R) -> Self {
        match r {
            R::List(v) => List(v.iter().map(Variant::from_r).collect()),
            _ => panic!("harness: list"),
        }
    }
}
impl ToR for VariantMap {
    fn to_r(&self) -> R {
        self.map.to_r()
    }
}
impl ToR for Descriptor {
    fn to_r(&self) -> R {
        match self {
            Descriptor::Ulong(x) => R::U64(*x),
            Descriptor::Symbol(s) => s.to_r(),
        }
    }
}
impl FromR for Descriptor {
    fn from_r(r: &R) -> Self {
        match r {
            R::U64(x) => Descriptor::Ulong(*x),
            x => Descriptor::Symbol(Symbol::from_r(x)),
        }
    }
}
impl ToR for Variant {
    fn to_r(&self) -> R {
        match self {
            Variant::Null => R::Null,
            Variant::Boolean(x) => x.to_r(),
            Variant::Ubyte(x) => x.to_r(),
            Variant::Ushort(x) => x.to_r(),
            Variant::Uint(x) => x.to_r(),
            Variant::Ulong(x) => x.to_r(),
            Variant::Byte(x) => x.to_r(),
            Variant::Short(x) => x.to_r(),
            Variant::Int(x) => x.to_r(),
            Variant::Long(x) => x.to_r(),
            Variant::Float(x) => x.into_inner().to_r(),
            Variant::Double(x) => x.into_inner().to_r(),
            Variant::Char(x) => x.to_r(),
            Variant::Timestamp(x) => x.to_r(),
            Variant::Uuid(x) => x.to_r(),
            Variant::Binary(x) => x.to_r(),
            Variant::String(x) => x.to_r(),
            Variant::Symbol(x) => x.to_r(),
            Variant::StaticSymbol(x) => x.to_r(),
            Variant::List(x) => x.to_r(),
            Variant::Map(x) => x.to_r(),
            Variant::Described(x) => R::Desc(Box::new(x.0.to_r()), Box::new(x.1.to_r())),
        }
    }
}
impl FromR for Variant {
    fn from_r(r: &R) -> Self {
        match r {
            R::Null => Variant::Null,
            R::Bool(x) => Variant::Boolean(*x),
            R::U8(x) => Variant::Ubyte(*x),
            R::U16(x) => Variant::Ushort(*x),
            R::U32(x) => Variant::Uint(*x),
            R::U64(x) => Variant::Ulong(*x),
            R::I8(x) => Variant::Byte(*x),
            R::I16(x) => Variant::Short(*x),
            R::I32(x) => Variant::Int(*x),
            R::I64(x) => Variant::Long(*x),
            R::F32(x) => Variant::Float(OrderedFloat(f32::from_bits(*x))),
            R::F64(x) => Variant::Double(OrderedFloat(f64::from_bits(*x))),
            R::Char(_) => Variant::Char(char::from_r(r)),
            R::Ts(_) => Variant::Timestamp(FromR::from_r(r)),
            R::Uuid(_) => Variant::Uuid(Uuid::from_r(r)),
            R::Bin(_) => Variant::Binary(Bytes::from_r(r)),
            R::Str(_) => Variant::String(Str::from_r(r)),
            R::Sym(s) => {
                if STATIC_VARIANTS.with(|f| f.get()) && flavor(2) == 0 {
                    if let Some(x) = static_of(s) {
                        return Variant::StaticSymbol(StaticSymbol(x));
                    }
                }
                Variant::Symbol(Symbol::from_r(r))
            }
            R::List(_) => Variant::List(List::from_r(r)),
            R::Map(_) => Variant::Map(VariantMap::new(FromR::from_r(r))),
            R::Desc(a, b) => Variant::Described((Descriptor::from_r(a), Box::new(Variant::from_r(b)))),
            _ => panic!("harness: {:?} as variant", r),
        }
    }
}

// ------------------------------------------------------------ protocol enumerations

macro_rules! en {
    ($t:ident, $v:ident, [$($n:ident = $w:expr),*]) => {
        impl ToR for p::$t {
            fn to_r(&self) -> R {
                match self { $( p::$t::$n => R::$v($w.into()), )* }
            }
        }
        impl FromR for p::$t {
            fn from_r(r: &R) -> Self {
                $( if *r == R::$v($w.into()) { return p::$t::$n; } )*
                panic!("harness: {:?} as {}", r, stringify!($t))
            }
        }
    };
}
en!(Role, Bool, [Sender = false, Receiver = true]);
en!(SenderSettleMode, U8, [Unsettled = 0, Settled = 1, Mixed = 2]);
en!(ReceiverSettleMode, U8, [First = 0, Second = 1]);
en!(SaslCode, U8, [Ok = 0, Auth = 1, Sys = 2, SysPerm = 3, SysTemp = 4]);
en!(TerminusDurability, U32, [None = 0u32, Configuration = 1u32, UnsettledState = 2u32]);
en!(TerminusExpiryPolicy, Sym, [
    LinkDetach = "link-detach", SessionEnd = "session-end", ConnectionClose = "connection-close", Never = "never"
]);
en!(AmqpError, Sym, [
    InternalError = "amqp:internal-error", NotFound = "amqp:not-found",
    UnauthorizedAccess = "amqp:unauthorized-access", DecodeError = "amqp:decode-error",
    ResourceLimitExceeded = "amqp:resource-limit-exceeded", NotAllowed = "amqp:not-allowed",
    InvalidField = "amqp:invalid-field", NotImplemented = "amqp:not-implemented",
    ResourceLocked = "amqp:resource-locked", PreconditionFailed = "amqp:precondition-failed",
    ResourceDeleted = "amqp:resource-deleted", IllegalState = "amqp:illegal-state",
    FrameSizeTooSmall = "amqp:frame-size-too-small"
]);
en!(ConnectionError, Sym, [
    ConnectionForced = "amqp:connection:forced", FramingError = "amqp:connection:framing-error",
    Redirect = "amqp:connection:redirect"
]);
en!(SessionError, Sym, [
    WindowViolation = "amqp:session:window-violation", ErrantLink = "amqp:session:errant-link",
    HandleInUse = "amqp:session:handle-in-use", UnattachedHandle = "amqp:session:unattached-handle"
]);
en!(LinkError, Sym, [
    DetachForced = "amqp:link:detach-forced", TransferLimitExceeded = "amqp:link:transfer-limit-exceeded",
    MessageSizeExceeded = "amqp:link:message-size-exceeded", Redirect = "amqp:link:redirect",
    Stolen = "amqp:link:stolen"
]);

impl ToR for p::ErrorCondition {
    fn to_r(&self) -> R {
        match self {
            p::ErrorCondition::AmqpError(x) => x.to_r(),
            p::ErrorCondition::ConnectionError(x) => x.to_r(),
            p::ErrorCondition::SessionError(x) => x.to_r(),
            p::ErrorCondition::LinkError(x) => x.to_r(),
            p::ErrorCondition::Custom(s) => {
                // a predefined condition must not surface as custom
                let r = s.to_r();
                if cond_class(&r) != "custom" {
                    return R::Bad(format!("custom({:?})", r));
                }
                r
            }
        }
    }
}
pub fn cond_class(r: &R) -> &'static str {
    use crate::spec::*;
    for (e, n) in &[(&AMQPERR, "amqp"), (&CONNERR, "connection"), (&SESSERR, "session"), (&LINKERR, "link")] {
        if e.vals.iter().any(|v| v.r() == *r) {
            return n;
        }
    }
    "custom"
}
impl FromR for p::ErrorCondition {
    fn from_r(r: &R) -> Self {
        match cond_class(r) {
            "amqp" => p::ErrorCondition::AmqpError(FromR::from_r(r)),
            "connection" => p::ErrorCondition::ConnectionError(FromR::from_r(r)),
            "session" => p::ErrorCondition::SessionError(FromR::from_r(r)),
            "link" => p::ErrorCondition::LinkError(FromR::from_r(r)),
            _ => p::ErrorCondition::Custom(Symbol::from_r(r)),
        }
    }
}
impl ToR for p::DistributionMode {
    fn to_r(&self) -> R {
        match self {
            p::DistributionMode::Move => R::sym("move"),
            p::DistributionMode::Copy => R::sym("copy"),
            p::DistributionMode::Custom(s) => {
                if s.as_str() == "move" || s.as_str() == "copy" {
                    return R::Bad(format!("custom({})", s.as_str()));
                }
                s.to_r()
            }
        }
    }
}
impl FromR for p::DistributionMode {
    fn from_r(r: &R) -> Self {
        match r {
            R::Sym(s) if s == "move" => p::DistributionMode::Move,
            R::Sym(s) if s == "copy" => p::DistributionMode::Copy,
            r => p::DistributionMode::Custom(Symbol::from_r(r)),
        }
    }
}
impl ToR for p::MessageId {
    fn to_r(&self) -> R {
        match self {
            p::MessageId::Ulong(x) => x.to_r(),
            p::MessageId::Uuid(x) => x.to_r(),
            p::MessageId::Binary(x) => x.to_r(),
            p::MessageId::String(x) => x.to_r(),
        }
    }
}
impl FromR for p::MessageId {
    fn from_r(r: &R) -> Self {
        match r {
            R::U64(x) => p::MessageId::Ulong(*x),
            R::Uuid(_) => p::MessageId::Uuid(FromR::from_r(r)),
            R::Bin(_) => p::MessageId::Binary(FromR::from_r(r)),
            r => p::MessageId::String(FromR::from_r(r)),
        }
    }
}

// ------------------------------------------------------------ composites

/// A protocol composite: fields by name and accessors by name, both in the standard's order
pub trait CompT: ToR + FromR + Decode + Encode + PartialEq + Clone + std::fmt::Debug + 'static {
    fn acc(&self) -> Vec<R>;
}

macro_rules! comp {
    ($t:ident, $code:expr, [$($f:ident),*] $(, $x:ident : $e:expr)*) => {
        impl ToR for p::$t {
            fn to_r(&self) -> R { R::desc($code, R::List(vec![$( self.$f.to_r() ),*])) }
        }
        impl FromR for p::$t {
            fn from_r(r: &R) -> Self {
                let v = comp_fields(r);
                let mut _it = v.iter();
                p::$t { $( $f: FromR::from_r(_it.next().unwrap()), )* $( $x: $e, )* }
            }
        }
        impl CompT for p::$t {
            fn acc(&self) -> Vec<R> { vec![$( self.$f().to_r() ),*] }
        }
    };
}
comp!(Error, 0x1d, [condition, description, info]);
comp!(Open, 0x10, [container_id, hostname, max_frame_size, channel_max, idle_time_out, outgoing_locales,
    incoming_locales, offered_capabilities, desired_capabilities, properties]);
comp!(Begin, 0x11, [remote_channel, next_outgoing_id, incoming_window, outgoing_window, handle_max,
    offered_capabilities, desired_capabilities, properties]);
comp!(Attach, 0x12, [name, handle, role, snd_settle_mode, rcv_settle_mode, source, target, unsettled,
    incomplete_unsettled, initial_delivery_count, max_message_size, offered_capabilities, desired_capabilities,
    properties]);
comp!(Flow, 0x13, [next_incoming_id, incoming_window, next_outgoing_id, outgoing_window, handle, delivery_count,
    link_credit, available, drain, echo, properties]);
comp!(Transfer, 0x14, [handle, delivery_id, delivery_tag, message_format, settled, more, rcv_settle_mode, state,
    resume, aborted, batchable], body: None);
comp!(Disposition, 0x15, [role, first, last, settled, state, batchable]);
comp!(Detach, 0x16, [handle, closed, error]);
comp!(End, 0x17, [error]);
comp!(Close, 0x18, [error]);
comp!(SaslMechanisms, 0x40, [sasl_server_mechanisms]);
comp!(SaslInit, 0x41, [mechanism, initial_response, hostname]);
comp!(SaslChallenge, 0x42, [challenge]);
comp!(SaslResponse, 0x43, [response]);
comp!(SaslOutcome, 0x44, [code, additional_data]);
comp!(Source, 0x28, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, distribution_mode,
    filter, default_outcome, outcomes, capabilities]);
comp!(Target, 0x29, [address, durable, expiry_policy, timeout, dynamic, dynamic_node_properties, capabilities]);
comp!(Header, 0x70, [durable, priority, ttl, first_acquirer, delivery_count]);
comp!(Properties, 0x73, [message_id, user_id, to, subject, reply_to, correlation_id, content_type, content_encoding,
    absolute_expiry_time, creation_time, group_id, group_sequence, reply_to_group_id]);
comp!(Received, 0x23, [section_number, section_offset]);
comp!(Accepted, 0x24, []);
comp!(Rejected, 0x25, [error]);
comp!(Released, 0x26, []);
comp!(Modified, 0x27, [delivery_failed, undeliverable_here, message_annotations]);

macro_rules! union {
    ($t:ident, [$($n:ident = $c:expr),*]) => {
        impl ToR for p::$t {
            fn to_r(&self) -> R { match self { $( p::$t::$n(x) => x.to_r(), )* } }
        }
        impl FromR for p::$t {
            fn from_r(r: &R) -> Self {
                if let R::Desc(d, _) = r {
                    $( if **d == R::U64($c) { return p::$t::$n(FromR::from_r(r)); } )*
                }
                panic!("harness: {:?} as {}", r, stringify!($t))
            }
        }
    };
}
/// a group with plain described values among its members
#[allow(unused_macros)]
macro_rules! group {
    ($t:ident, [$($n:ident = $c:expr),*], [$($m:ident = $d:expr),*]) => {
        impl ToR for p::$t {
            fn to_r(&self) -> R {
                match self {
                    $( p::$t::$n(x) => x.to_r(), )*
                    $( p::$t::$m(x) => R::desc($d, x.to_r()), )*
                }
            }
        }
        impl FromR for p::$t {
            fn from_r(r: &R) -> Self {
                if let R::Desc(d, x) = r {
                    $( if **d == R::U64($c) { return p::$t::$n(FromR::from_r(r)); } )*
                    $( if **d == R::U64($d) { return p::$t::$m(FromR::from_r(x)); } )*
                }
                panic!("harness: {:?} as {}", r, stringify!($t))
            }
        }
    };
}
union!(DeliveryState, [Received = 0x23, Accepted = 0x24, Rejected = 0x25, Released = 0x26, Modified = 0x27]);
union!(Outcome, [Accepted = 0x24, Rejected = 0x25, Released = 0x26, Modified = 0x27]);
union!(SaslFrameBody, [SaslMechanisms = 0x40, SaslInit = 0x41, SaslChallenge = 0x42, SaslResponse = 0x43,
    SaslOutcome = 0x44]);

impl ToR for p::TransferBody {
    fn to_r(&self) -> R {
        match self {
            p::TransferBody::Data(b) => b.to_r(),
            p::TransferBody::MessageIn(m) => R::Bin(lib_enc(m)),
            p::TransferBody::MessageOut(m) => R::Bin(lib_enc(m)),
        }
    }
}

/// [performative | null for empty, payload | null]
impl ToR for p::Frame {
    fn to_r(&self) -> R {
        let (a, b) = match self {
            p::Frame::Open(x) => (x.to_r(), R::Null),
            p::Frame::Begin(x) => (x.to_r(), R::Null),
            p::Frame::Attach(x) => (x.to_r(), R::Null),
            p::Frame::Flow(x) => (x.to_r(), R::Null),
            p::Frame::Transfer(x) => (x.to_r(), x.body.to_r()),
            p::Frame::Disposition(x) => (x.to_r(), R::Null),
            p::Frame::Detach(x) => (x.to_r(), R::Null),
            p::Frame::End(x) => (x.to_r(), R::Null),
            p::Frame::Close(x) => (x.to_r(), R::Null),
            p::Frame::Empty => (R::Null, R::Null),
        };
        R::List(vec![a, b])
    }
}
impl FromR for p::Frame {
    fn from_r(r: &R) -> Self {
        let v = match r {
            R::List(v) => v,
            _ => panic!("harness: frame"),
        };
        let a = &v[0];
        let code = match a {
            R::Null => return p::Frame::Empty,
            R::Desc(d, _) => match **d {
                R::U64(x) => x,
                _ => panic!("harness: frame"),
            },
            _ => panic!("harness: frame"),
        };
        match code {
            0x10 => p::Frame::Open(FromR::from_r(a)),
            0x11 => p::Frame::Begin(FromR::from_r(a)),
            0x12 => p::Frame::Attach(FromR::from_r(a)),
            0x13 => p::Frame::Flow(FromR::from_r(a)),
            0x14 => {
                let mut t = p::Transfer::from_r(a);
                t.body = match &v[1] {
                    R::Null => None,
                    x => Some(p::TransferBody::Data(FromR::from_r(x))),
                };
                p::Frame::Transfer(t)
            }
            0x15 => p::Frame::Disposition(FromR::from_r(a)),
            0x16 => p::Frame::Detach(FromR::from_r(a)),
            0x17 => p::Frame::End(FromR::from_r(a)),
            0x18 => p::Frame::Close(FromR::from_r(a)),
            _ => panic!("harness: frame"),
        }
    }
}
impl ToR for AmqpFrame {
    fn to_r(&self) -> R {
        let mut v = vec![R::U16(self.channel_id())];
        if let R::List(x) = self.performative().to_r() {
            v.extend(x);
        }
        R::List(v)
    }
}
impl FromR for AmqpFrame {
    fn from_r(r: &R) -> Self {
        match r {
            R::List(v) => AmqpFrame::new(u16::from_r(&v[0]), p::Frame::from_r(&R::List(v[1..].to_vec()))),
            _ => panic!("harness: frame"),
        }
    }
}
impl ToR for SaslFrame {
    fn to_r(&self) -> R {
        self.body.to_r()
    }
}
impl FromR for SaslFrame {
    fn from_r(r: &R) -> Self {
        SaslFrame::new(FromR::from_r(r))
    }
}
impl ToR for p::Section {
    fn to_r(&self) -> R {
        match self {
            p::Section::Header(x) => x.to_r(),
            p::Section::DeliveryAnnotations(x) => R::desc(0x71, x.to_r()),
            p::Section::MessageAnnotations(x) => R::desc(0x72, x.to_r()),
            p::Section::Properties(x) => x.to_r(),
            p::Section::ApplicationProperties(x) => R::desc(0x74, x.to_r()),
            p::Section::Data(x) => R::desc(0x75, x.to_r()),
            p::Section::AmqpSequence(x) => R::desc(0x76, x.to_r()),
            p::Section::AmqpValue(x) => R::desc(0x77, x.to_r()),
            p::Section::Footer(x) => R::desc(0x78, x.to_r()),
        }
    }
}
impl FromR for p::Section {
    fn from_r(r: &R) -> Self {
        if let R::Desc(d, x) = r {
            match **d {
                R::U64(0x70) => return p::Section::Header(FromR::from_r(r)),
                R::U64(0x71) => return p::Section::DeliveryAnnotations(FromR::from_r(x)),
                R::U64(0x72) => return p::Section::MessageAnnotations(FromR::from_r(x)),
                R::U64(0x73) => return p::Section::Properties(FromR::from_r(r)),
                R::U64(0x74) => return p::Section::ApplicationProperties(FromR::from_r(x)),
                R::U64(0x75) => return p::Section::Data(FromR::from_r(x)),
                R::U64(0x76) => return p::Section::AmqpSequence(FromR::from_r(x)),
                R::U64(0x77) => return p::Section::AmqpValue(FromR::from_r(x)),
                R::U64(0x78) => return p::Section::Footer(FromR::from_r(x)),
                _ => {}
            }
        }
        panic!("harness: section")
    }
}
/// a decoded message, seen through what it encodes to (annotations and footer have no getters)
impl ToR for InMessage {
    fn to_r(&self) -> R {
        crate::msg::sections_r(&lib_enc(self))
    }
}
impl ToR for OutMessage {
    fn to_r(&self) -> R {
        crate::msg::sections_r(&lib_enc(self))
    }
}

// ------------------------------------------------------------ calls into the library

/// encode into a buffer with generous room
pub fn lib_enc<T: Encode>(v: &T) -> Vec<u8> {
    let n = v.encoded_size();
    let mut b = BytesMut::with_capacity(n + n / 2 + 256);
    v.encode(&mut b);
    b.to_vec()
}

pub fn lib_dec<T: Decode>(b: &[u8]) -> Result<(T, usize), String> {
    match T::decode(b) {
        Ok((rest, v)) => {
            let n = rest.len();
            if n > b.len() || rest != &b[b.len() - n..] {
                return Err("the remainder returned is not the tail of the input".to_string());
            }
            Ok((v, n))
        }
        Err(e) => Err(format!("{:?}", e)),
    }
}
