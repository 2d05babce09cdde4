//! AMQP 1.0 composite types (OASIS AMQP 1.0 parts 2, 3 and 5), written down by hand from the
//! standard: field order, types, defaults and mandatory flags. A composite's logical value is
//! R::Desc(ulong code, R::List(all known fields in order, defaults filled in)).

use crate::gen::*;
use crate::rng::Rng;
use crate::rval::*;

#[derive(Clone, Copy)]
pub enum Ty {
    Bool,
    Ubyte,
    Ushort,
    Uint,
    Ulong,
    Ts,
    Bin,
    Str,
    Sym,
    MultiSym,
    Fields,
    AnyMap,
    Filter,
    MsgId,
    ErrCond,
    DistMode,
    En(&'static En),
    Comp(&'static Comp),
    OneOf(&'static [&'static Comp]),
}

pub struct En {
    pub name: &'static str,
    pub vals: &'static [V],
}

#[derive(Clone, Copy)]
pub enum V {
    B(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    S(&'static str),
}

impl V {
    pub fn r(&self) -> R {
        match *self {
            V::B(b) => R::Bool(b),
            V::U8(b) => R::U8(b),
            V::U16(b) => R::U16(b),
            V::U64(b) => R::U64(b),
            V::U32(b) => R::U32(b),
            V::S(b) => R::sym(b),
        }
    }
}

#[derive(Clone, Copy)]
pub enum D {
    Req,
    Opt,
    B(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    S(&'static str),
}

impl D {
    pub fn default(&self) -> Option<R> {
        match *self {
            D::Req => None,
            D::Opt => Some(R::Null),
            D::B(b) => Some(R::Bool(b)),
            D::U8(b) => Some(R::U8(b)),
            D::U16(b) => Some(R::U16(b)),
            D::U32(b) => Some(R::U32(b)),
            D::U64(b) => Some(R::U64(b)),
            D::S(b) => Some(R::sym(b)),
        }
    }
}

pub struct F(pub &'static str, pub Ty, pub D);

pub struct Comp {
    pub name: &'static str,
    pub code: u64,
    pub sym: &'static str,
    pub fields: &'static [F],
}

use D::{Opt as O, Req as Q};

pub static ROLE: En = En { name: "Role", vals: &[V::B(false), V::B(true)] };
pub static SND: En = En { name: "SenderSettleMode", vals: &[V::U8(0), V::U8(1), V::U8(2)] };
pub static RCV: En = En { name: "ReceiverSettleMode", vals: &[V::U8(0), V::U8(1)] };
pub static SASLCODE: En = En { name: "SaslCode", vals: &[V::U8(0), V::U8(1), V::U8(2), V::U8(3), V::U8(4)] };
pub static DURAB: En = En { name: "TerminusDurability", vals: &[V::U32(0), V::U32(1), V::U32(2)] };
pub static EXPIRY: En = En {
    name: "TerminusExpiryPolicy",
    vals: &[V::S("link-detach"), V::S("session-end"), V::S("connection-close"), V::S("never")],
};
pub static AMQPERR: En = En {
    name: "AmqpError",
    vals: &[
        V::S("amqp:internal-error"),
        V::S("amqp:not-found"),
        V::S("amqp:unauthorized-access"),
        V::S("amqp:decode-error"),
        V::S("amqp:resource-limit-exceeded"),
        V::S("amqp:not-allowed"),
        V::S("amqp:invalid-field"),
        V::S("amqp:not-implemented"),
        V::S("amqp:resource-locked"),
        V::S("amqp:precondition-failed"),
        V::S("amqp:resource-deleted"),
        V::S("amqp:illegal-state"),
        V::S("amqp:frame-size-too-small"),
    ],
};
pub static CONNERR: En = En {
    name: "ConnectionError",
    vals: &[
        V::S("amqp:connection:forced"),
        V::S("amqp:connection:framing-error"),
        V::S("amqp:connection:redirect"),
    ],
};
pub static SESSERR: En = En {
    name: "SessionError",
    vals: &[
        V::S("amqp:session:window-violation"),
        V::S("amqp:session:errant-link"),
        V::S("amqp:session:handle-in-use"),
        V::S("amqp:session:unattached-handle"),
    ],
};
pub static LINKERR: En = En {
    name: "LinkError",
    vals: &[
        V::S("amqp:link:detach-forced"),
        V::S("amqp:link:transfer-limit-exceeded"),
        V::S("amqp:link:message-size-exceeded"),
        V::S("amqp:link:redirect"),
        V::S("amqp:link:stolen"),
    ],
};
pub static DIST: &[&str] = &["move", "copy"];
pub static ENUMS: &[&En] =
    &[&ROLE, &SND, &RCV, &SASLCODE, &DURAB, &EXPIRY, &AMQPERR, &CONNERR, &SESSERR, &LINKERR];

pub static ERROR: Comp = Comp {
    name: "Error",
    code: 0x1d,
    sym: "amqp:error:list",
    fields: &[F("condition", Ty::ErrCond, Q), F("description", Ty::Str, O), F("info", Ty::Fields, O)],
};
pub static OPEN: Comp = Comp {
    name: "Open",
    code: 0x10,
    sym: "amqp:open:list",
    fields: &[
        F("container_id", Ty::Str, Q),
        F("hostname", Ty::Str, O),
        F("max_frame_size", Ty::Uint, D::U32(4294967295)),
        F("channel_max", Ty::Ushort, D::U16(65535)),
        F("idle_time_out", Ty::Uint, O),
        F("outgoing_locales", Ty::MultiSym, O),
        F("incoming_locales", Ty::MultiSym, O),
        F("offered_capabilities", Ty::MultiSym, O),
        F("desired_capabilities", Ty::MultiSym, O),
        F("properties", Ty::Fields, O),
    ],
};
pub static BEGIN: Comp = Comp {
    name: "Begin",
    code: 0x11,
    sym: "amqp:begin:list",
    fields: &[
        F("remote_channel", Ty::Ushort, O),
        F("next_outgoing_id", Ty::Uint, Q),
        F("incoming_window", Ty::Uint, Q),
        F("outgoing_window", Ty::Uint, Q),
        F("handle_max", Ty::Uint, D::U32(4294967295)),
        F("offered_capabilities", Ty::MultiSym, O),
        F("desired_capabilities", Ty::MultiSym, O),
        F("properties", Ty::Fields, O),
    ],
};
pub static ATTACH: Comp = Comp {
    name: "Attach",
    code: 0x12,
    sym: "amqp:attach:list",
    fields: &[
        F("name", Ty::Str, Q),
        F("handle", Ty::Uint, Q),
        F("role", Ty::En(&ROLE), Q),
        F("snd_settle_mode", Ty::En(&SND), D::U8(2)),
        F("rcv_settle_mode", Ty::En(&RCV), D::U8(0)),
        F("source", Ty::Comp(&SOURCE), O),
        F("target", Ty::Comp(&TARGET), O),
        F("unsettled", Ty::AnyMap, O),
        F("incomplete_unsettled", Ty::Bool, D::B(false)),
        F("initial_delivery_count", Ty::Uint, O),
        F("max_message_size", Ty::Ulong, O),
        F("offered_capabilities", Ty::MultiSym, O),
        F("desired_capabilities", Ty::MultiSym, O),
        F("properties", Ty::Fields, O),
    ],
};
pub static FLOW: Comp = Comp {
    name: "Flow",
    code: 0x13,
    sym: "amqp:flow:list",
    fields: &[
        F("next_incoming_id", Ty::Uint, O),
        F("incoming_window", Ty::Uint, Q),
        F("next_outgoing_id", Ty::Uint, Q),
        F("outgoing_window", Ty::Uint, Q),
        F("handle", Ty::Uint, O),
        F("delivery_count", Ty::Uint, O),
        F("link_credit", Ty::Uint, O),
        F("available", Ty::Uint, O),
        F("drain", Ty::Bool, D::B(false)),
        F("echo", Ty::Bool, D::B(false)),
        F("properties", Ty::Fields, O),
    ],
};
pub static TRANSFER: Comp = Comp {
    name: "Transfer",
    code: 0x14,
    sym: "amqp:transfer:list",
    fields: &[
        F("handle", Ty::Uint, Q),
        F("delivery_id", Ty::Uint, O),
        F("delivery_tag", Ty::Bin, O),
        F("message_format", Ty::Uint, O),
        F("settled", Ty::Bool, O),
        F("more", Ty::Bool, D::B(false)),
        F("rcv_settle_mode", Ty::En(&RCV), O),
        F("state", Ty::OneOf(STATES), O),
        F("resume", Ty::Bool, D::B(false)),
        F("aborted", Ty::Bool, D::B(false)),
        F("batchable", Ty::Bool, D::B(false)),
    ],
};
pub static DISPOSITION: Comp = Comp {
    name: "Disposition",
    code: 0x15,
    sym: "amqp:disposition:list",
    fields: &[
        F("role", Ty::En(&ROLE), Q),
        F("first", Ty::Uint, Q),
        F("last", Ty::Uint, O),
        F("settled", Ty::Bool, D::B(false)),
        F("state", Ty::OneOf(STATES), O),
        F("batchable", Ty::Bool, D::B(false)),
    ],
};
pub static DETACH: Comp = Comp {
    name: "Detach",
    code: 0x16,
    sym: "amqp:detach:list",
    fields: &[F("handle", Ty::Uint, Q), F("closed", Ty::Bool, D::B(false)), F("error", Ty::Comp(&ERROR), O)],
};
pub static END: Comp =
    Comp { name: "End", code: 0x17, sym: "amqp:end:list", fields: &[F("error", Ty::Comp(&ERROR), O)] };
pub static CLOSE: Comp =
    Comp { name: "Close", code: 0x18, sym: "amqp:close:list", fields: &[F("error", Ty::Comp(&ERROR), O)] };
pub static SASL_MECHANISMS: Comp = Comp {
    name: "SaslMechanisms",
    code: 0x40,
    sym: "amqp:sasl-mechanisms:list",
    fields: &[F("sasl_server_mechanisms", Ty::MultiSym, Q)],
};
pub static SASL_INIT: Comp = Comp {
    name: "SaslInit",
    code: 0x41,
    sym: "amqp:sasl-init:list",
    fields: &[F("mechanism", Ty::Sym, Q), F("initial_response", Ty::Bin, O), F("hostname", Ty::Str, O)],
};
pub static SASL_CHALLENGE: Comp = Comp {
    name: "SaslChallenge",
    code: 0x42,
    sym: "amqp:sasl-challenge:list",
    fields: &[F("challenge", Ty::Bin, Q)],
};
pub static SASL_RESPONSE: Comp = Comp {
    name: "SaslResponse",
    code: 0x43,
    sym: "amqp:sasl-response:list",
    fields: &[F("response", Ty::Bin, Q)],
};
pub static SASL_OUTCOME: Comp = Comp {
    name: "SaslOutcome",
    code: 0x44,
    sym: "amqp:sasl-outcome:list",
    fields: &[F("code", Ty::En(&SASLCODE), Q), F("additional_data", Ty::Bin, O)],
};
pub static SOURCE: Comp = Comp {
    name: "Source",
    code: 0x28,
    sym: "amqp:source:list",
    fields: &[
        F("address", Ty::Str, O),
        F("durable", Ty::En(&DURAB), D::U32(0)),
        F("expiry_policy", Ty::En(&EXPIRY), D::S("session-end")),
        F("timeout", Ty::Uint, D::U32(0)),
        F("dynamic", Ty::Bool, D::B(false)),
        F("dynamic_node_properties", Ty::Fields, O),
        F("distribution_mode", Ty::DistMode, O),
        F("filter", Ty::Filter, O),
        F("default_outcome", Ty::OneOf(OUTCOMES), O),
        F("outcomes", Ty::MultiSym, O),
        F("capabilities", Ty::MultiSym, O),
    ],
};
pub static TARGET: Comp = Comp {
    name: "Target",
    code: 0x29,
    sym: "amqp:target:list",
    fields: &[
        F("address", Ty::Str, O),
        F("durable", Ty::En(&DURAB), D::U32(0)),
        F("expiry_policy", Ty::En(&EXPIRY), D::S("session-end")),
        F("timeout", Ty::Uint, D::U32(0)),
        F("dynamic", Ty::Bool, D::B(false)),
        F("dynamic_node_properties", Ty::Fields, O),
        F("capabilities", Ty::MultiSym, O),
    ],
};
pub static HEADER: Comp = Comp {
    name: "Header",
    code: 0x70,
    sym: "amqp:header:list",
    fields: &[
        F("durable", Ty::Bool, D::B(false)),
        F("priority", Ty::Ubyte, D::U8(4)),
        F("ttl", Ty::Uint, O),
        F("first_acquirer", Ty::Bool, D::B(false)),
        F("delivery_count", Ty::Uint, D::U32(0)),
    ],
};
pub static PROPERTIES: Comp = Comp {
    name: "Properties",
    code: 0x73,
    sym: "amqp:properties:list",
    fields: &[
        F("message_id", Ty::MsgId, O),
        F("user_id", Ty::Bin, O),
        F("to", Ty::Str, O),
        F("subject", Ty::Str, O),
        F("reply_to", Ty::Str, O),
        F("correlation_id", Ty::MsgId, O),
        F("content_type", Ty::Sym, O),
        F("content_encoding", Ty::Sym, O),
        F("absolute_expiry_time", Ty::Ts, O),
        F("creation_time", Ty::Ts, O),
        F("group_id", Ty::Str, O),
        F("group_sequence", Ty::Uint, O),
        F("reply_to_group_id", Ty::Str, O),
    ],
};
pub static RECEIVED: Comp = Comp {
    name: "Received",
    code: 0x23,
    sym: "amqp:received:list",
    fields: &[F("section_number", Ty::Uint, Q), F("section_offset", Ty::Ulong, Q)],
};
pub static ACCEPTED: Comp = Comp { name: "Accepted", code: 0x24, sym: "amqp:accepted:list", fields: &[] };
pub static REJECTED: Comp =
    Comp { name: "Rejected", code: 0x25, sym: "amqp:rejected:list", fields: &[F("error", Ty::Comp(&ERROR), O)] };
pub static RELEASED: Comp = Comp { name: "Released", code: 0x26, sym: "amqp:released:list", fields: &[] };
pub static MODIFIED: Comp = Comp {
    name: "Modified",
    code: 0x27,
    sym: "amqp:modified:list",
    fields: &[
        F("delivery_failed", Ty::Bool, O),
        F("undeliverable_here", Ty::Bool, O),
        F("message_annotations", Ty::Fields, O),
    ],
};

pub static STATES: &[&Comp] = &[&RECEIVED, &ACCEPTED, &REJECTED, &RELEASED, &MODIFIED];
pub static OUTCOMES: &[&Comp] = &[&ACCEPTED, &REJECTED, &RELEASED, &MODIFIED];
pub static PERFORMATIVES: &[&Comp] =
    &[&OPEN, &BEGIN, &ATTACH, &FLOW, &TRANSFER, &DISPOSITION, &DETACH, &END, &CLOSE];
pub static SASL_BODIES: &[&Comp] = &[&SASL_MECHANISMS, &SASL_INIT, &SASL_CHALLENGE, &SASL_RESPONSE, &SASL_OUTCOME];
pub static ALL: &[&Comp] = &[
    &ERROR, &OPEN, &BEGIN, &ATTACH, &FLOW, &TRANSFER, &DISPOSITION, &DETACH, &END, &CLOSE, &SASL_MECHANISMS,
    &SASL_INIT, &SASL_CHALLENGE, &SASL_RESPONSE, &SASL_OUTCOME, &SOURCE, &TARGET, &HEADER, &PROPERTIES, &RECEIVED,
    &ACCEPTED, &REJECTED, &RELEASED, &MODIFIED,
];

/// sections of a message other than header/properties: (code, symbol)
pub static SECTION_SYMS: &[(u64, &str)] = &[
    (0x70, "amqp:header:list"),
    (0x71, "amqp:delivery-annotations:map"),
    (0x72, "amqp:message-annotations:map"),
    (0x73, "amqp:properties:list"),
    (0x74, "amqp:application-properties:map"),
    (0x75, "amqp:data:binary"),
    (0x76, "amqp:amqp-sequence:list"),
    (0x77, "amqp:amqp-value:*"),
    (0x78, "amqp:footer:map"),
];

// ------------------------------------------------------------ generation

pub fn gen_ty(ty: &Ty, g: &mut Gen) -> R {
    match ty {
        Ty::Bool => R::Bool(g.rng.bool()),
        Ty::Ubyte => R::U8(g.uint(8) as u8),
        Ty::Ushort => R::U16(g.uint(16) as u16),
        Ty::Uint => R::U32(g.uint(32) as u32),
        Ty::Ulong => R::U64(g.uint(64)),
        Ty::Ts => R::Ts(g.ts()),
        Ty::Bin => R::Bin(g.bin()),
        Ty::Str => R::Str(g.text()),
        Ty::Sym => R::Sym(g.symbol()),
        Ty::MultiSym => {
            let n = if g.rng.chance(1, 12) { g.rng.range(0, 60) } else { g.rng.below(5) };
            R::Array((0..n).map(|_| R::Sym(g.symbol())).collect())
        }
        Ty::Fields => g.sym_map(),
        Ty::Filter => {
            let n = g.rng.below(4);
            let mut v: Vec<(R, R)> = Vec::new();
            for _ in 0..n {
                let k = R::Sym(g.symbol());
                if v.iter().any(|x| x.0 == k) {
                    continue;
                }
                let x = if g.rng.chance(1, 4) { R::Null } else { R::Str(g.text()) };
                v.push((k, x));
            }
            R::Map(v).canon()
        }
        Ty::AnyMap => g.map(2),
        Ty::MsgId => match g.rng.below(4) {
            0 => R::U64(g.uint(64)),
            1 => R::Uuid(g.uuid()),
            2 => R::Bin(g.bin()),
            _ => R::Str(g.text()),
        },
        Ty::ErrCond => {
            if g.rng.chance(1, 4) {
                R::Sym(g.custom_symbol())
            } else {
                let e = *g.rng.pick(&[&AMQPERR, &CONNERR, &SESSERR, &LINKERR]);
                g.rng.pick(e.vals).r()
            }
        }
        Ty::DistMode => {
            if g.rng.chance(1, 3) {
                R::Sym(g.custom_symbol())
            } else {
                R::sym(g.rng.pick(DIST))
            }
        }
        Ty::En(e) => g.rng.pick(e.vals).r(),
        Ty::Comp(c) => gen_comp(c, g),
        Ty::OneOf(cs) => {
            let c = *g.rng.pick(cs);
            gen_comp(c, g)
        }
    }
}

/// how many optional/default fields are filled in varies per instance
pub fn gen_comp(c: &Comp, g: &mut Gen) -> R {
    let dens = *g.rng.pick(&[0usize, 1, 2, 2, 3, 4]);
    let mut v = Vec::new();
    for f in c.fields {
        let present = match f.2 {
            D::Req => true,
            _ => g.rng.chance(dens, 4),
        };
        v.push(if present { gen_ty(&f.1, g) } else { f.2.default().unwrap() });
    }
    R::desc(c.code, R::List(v))
}

// ------------------------------------------------------------ encoding

/// options an encoding of a composite may use
#[derive(Clone, Copy)]
pub struct EncOpt {
    /// symbolic descriptors allowed
    pub sym: bool,
    /// unknown trailing fields may be appended
    pub extra: bool,
    /// trailing defaults may be omitted, defaults sent as null
    pub omit: bool,
}

pub const FREE: EncOpt = EncOpt { sym: true, extra: false, omit: true };

pub fn enc_ty(e: &mut Enc, ty: &Ty, r: &R, o: EncOpt) {
    match (ty, r) {
        (_, R::Bad(_)) => e.value(r),
        (Ty::Comp(c), _) => enc_comp(e, c, r, o),
        (Ty::OneOf(cs), R::Desc(d, _)) => {
            let c = cs.iter().find(|c| R::U64(c.code) == **d).expect("known state");
            enc_comp(e, c, r, o)
        }
        (Ty::MultiSym, R::Array(v)) if v.len() == 1 => {
            if e.choose(2) == 0 {
                e.value(&v[0])
            } else {
                e.value(r)
            }
        }
        _ => e.value(r),
    }
}

pub fn enc_descriptor(e: &mut Enc, code: u64, sym: &str, o: EncOpt) {
    e.out.push(0);
    if o.sym && e.choose(3) == 2 {
        e.value(&R::sym(sym));
    } else {
        e.value(&R::U64(code));
    }
}

pub fn enc_comp(e: &mut Enc, c: &Comp, r: &R, o: EncOpt) {
    enc_descriptor(e, c.code, c.sym, o);
    enc_comp_list(e, c, r, o);
}

pub fn comp_fields(r: &R) -> &Vec<R> {
    match r {
        R::Desc(_, l) => match &**l {
            R::List(v) => v,
            _ => panic!("composite without list"),
        },
        _ => panic!("not a composite"),
    }
}

pub fn enc_comp_list(e: &mut Enc, c: &Comp, r: &R, o: EncOpt) {
    let v = comp_fields(r);
    assert_eq!(v.len(), c.fields.len());
    // number of fields actually written
    let mut need = v.len();
    while need > 0 && c.fields[need - 1].2.default().as_ref() == Some(&v[need - 1]) {
        need -= 1;
    }
    let mut n = v.len();
    if o.omit && n > need {
        n = need + e.choose(n - need + 1);
    }
    let mut count = n;
    let extra = if o.extra && n == v.len() { e.choose(4) } else { 0 };
    let body = e.scratch(|e| {
        for i in 0..n {
            let f = &c.fields[i];
            let is_def = f.2.default().as_ref() == Some(&v[i]);
            if is_def && (v[i] == R::Null || (o.omit && e.choose(2) == 0)) {
                e.out.push(0x40);
            } else {
                enc_ty(e, &f.1, &v[i], o);
            }
        }
        for k in 0..extra {
            let x = match (k + n) % 5 {
                0 => R::Null,
                1 => R::str("extra"),
                2 => R::List(vec![R::U8(1), R::Map(vec![])]),
                3 => R::desc(0x24, R::List(vec![])),
                _ => R::U64(1 << 40),
            };
            e.value(&x);
        }
    });
    count += extra;
    if body.0.is_empty() && count == 0 && e.choose(3) == 0 {
        e.out.push(0x45);
        return;
    }
    let fits8 = body.0.len() + 1 <= 255 && count <= 255;
    let wide = !fits8 || e.choose(2) == 1;
    e.out.push(if wide { 0xd0 } else { 0xc0 });
    e.compound(wide, count, body, CKind::Composite);
}

pub fn comp_bytes(c: &Comp, r: &R, form: Form, o: EncOpt) -> Vec<u8> {
    let mut e = Enc::new(form);
    enc_comp(&mut e, c, r, o);
    e.out
}

pub fn comp_rand(c: &Comp, r: &R, rng: &mut Rng, o: EncOpt) -> Vec<u8> {
    comp_bytes(c, r, Form::Rand(rng), o)
}

// ------------------------------------------------------------ typed reading of generic values

/// Check a generically decoded value against a type and bring it to logical form
pub fn norm_ty(ty: &Ty, w: &R) -> Result<R, String> {
    let bad = || Err(format!("{} where {} expected", w.kind(), ty_name(ty)));
    match (ty, w) {
        (Ty::Bool, R::Bool(_))
        | (Ty::Ubyte, R::U8(_))
        | (Ty::Ushort, R::U16(_))
        | (Ty::Uint, R::U32(_))
        | (Ty::Ulong, R::U64(_))
        | (Ty::Ts, R::Ts(_))
        | (Ty::Bin, R::Bin(_))
        | (Ty::Str, R::Str(_))
        | (Ty::Sym, R::Sym(_))
        | (Ty::ErrCond, R::Sym(_))
        | (Ty::DistMode, R::Sym(_)) => Ok(w.clone()),
        (Ty::MsgId, R::U64(_)) | (Ty::MsgId, R::Uuid(_)) | (Ty::MsgId, R::Bin(_)) | (Ty::MsgId, R::Str(_)) => {
            Ok(w.clone())
        }
        (Ty::MultiSym, R::Sym(_)) => Ok(R::Array(vec![w.clone()])),
        (Ty::MultiSym, R::Array(v)) if v.iter().all(|x| matches!(x, R::Sym(_))) => Ok(w.clone()),
        (Ty::Fields, R::Map(v)) if v.iter().all(|x| matches!(x.0, R::Sym(_))) => Ok(w.clone().canon()),
        (Ty::Filter, R::Map(v))
            if v.iter().all(|x| matches!(x.0, R::Sym(_)) && matches!(x.1, R::Str(_) | R::Null)) =>
        {
            Ok(w.clone().canon())
        }
        (Ty::AnyMap, R::Map(_)) => Ok(w.clone().canon()),
        (Ty::En(e), _) => {
            if e.vals.iter().any(|x| x.r() == *w) {
                Ok(w.clone())
            } else {
                Err(format!("{:?} is no value of {}", w, e.name))
            }
        }
        (Ty::Comp(c), R::Desc(..)) => norm_comp(c, w),
        (Ty::OneOf(cs), R::Desc(d, _)) => {
            for c in cs.iter() {
                if R::U64(c.code) == **d || R::sym(c.sym) == **d {
                    return norm_comp(c, w);
                }
            }
            Err(format!("unexpected descriptor {:?}", d))
        }
        _ => bad(),
    }
}

pub fn ty_name(ty: &Ty) -> String {
    match ty {
        Ty::Bool => "bool".into(),
        Ty::Ubyte => "ubyte".into(),
        Ty::Ushort => "ushort".into(),
        Ty::Uint => "uint".into(),
        Ty::Ulong => "ulong".into(),
        Ty::Ts => "timestamp".into(),
        Ty::Bin => "binary".into(),
        Ty::Str => "string".into(),
        Ty::Sym => "symbol".into(),
        Ty::MultiSym => "multiple symbol".into(),
        Ty::Fields => "fields".into(),
        Ty::AnyMap => "map".into(),
        Ty::Filter => "filter-set".into(),
        Ty::MsgId => "message-id".into(),
        Ty::ErrCond => "error condition".into(),
        Ty::DistMode => "distribution mode".into(),
        Ty::En(e) => e.name.into(),
        Ty::Comp(c) => c.name.into(),
        Ty::OneOf(_) => "state/outcome".into(),
    }
}

pub fn norm_comp(c: &Comp, w: &R) -> Result<R, String> {
    let (d, l) = match w {
        R::Desc(d, l) => (d, l),
        _ => return Err(format!("{}: not described", c.name)),
    };
    if **d != R::U64(c.code) && **d != R::sym(c.sym) {
        return Err(format!("{}: descriptor {:?}", c.name, d));
    }
    let v = match &**l {
        R::List(v) => v,
        x => return Err(format!("{}: {} instead of a list", c.name, x.kind())),
    };
    let mut out = Vec::new();
    for (i, f) in c.fields.iter().enumerate() {
        let x = v.get(i).unwrap_or(&R::Null);
        if *x == R::Null {
            match f.2.default() {
                Some(d) => out.push(d),
                None => return Err(format!("{}.{}: mandatory field missing", c.name, f.0)),
            }
        } else {
            out.push(norm_ty(&f.1, x).map_err(|e| format!("{}.{}: {}", c.name, f.0, e))?);
        }
    }
    Ok(R::desc(c.code, R::List(out)))
}
