//! C03 (announced sizes), C06/C07 (composites), C20 (restricted values).

use amqp_codec::protocol as p;
use amqp_codec::types::*;
use amqp_codec::{AmqpFrame, Decode, Encode, InMessage, OutMessage, SaslFrame};
use bytes::Bytes;

use super::subj::*;
use super::values;
use crate::conv::*;
use crate::ctx::*;
use crate::entries::dec;
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_bytes, hash_str};
use crate::rval::*;
use crate::spec::*;

/// run `$f::<T>` for the library type of composite `$c`
#[macro_export]
macro_rules! by_comp {
    ($c:expr, $f:ident ( $($a:expr),* )) => {{
        use amqp_codec::protocol as p;
        match $c.code {
            0x1d => $f::<p::Error>($($a),*), 0x10 => $f::<p::Open>($($a),*), 0x11 => $f::<p::Begin>($($a),*),
            0x12 => $f::<p::Attach>($($a),*), 0x13 => $f::<p::Flow>($($a),*), 0x14 => $f::<p::Transfer>($($a),*),
            0x15 => $f::<p::Disposition>($($a),*), 0x16 => $f::<p::Detach>($($a),*), 0x17 => $f::<p::End>($($a),*),
            0x18 => $f::<p::Close>($($a),*), 0x40 => $f::<p::SaslMechanisms>($($a),*),
            0x41 => $f::<p::SaslInit>($($a),*), 0x42 => $f::<p::SaslChallenge>($($a),*),
            0x43 => $f::<p::SaslResponse>($($a),*), 0x44 => $f::<p::SaslOutcome>($($a),*),
            0x28 => $f::<p::Source>($($a),*), 0x29 => $f::<p::Target>($($a),*), 0x70 => $f::<p::Header>($($a),*),
            0x73 => $f::<p::Properties>($($a),*), 0x23 => $f::<p::Received>($($a),*),
            0x24 => $f::<p::Accepted>($($a),*), 0x25 => $f::<p::Rejected>($($a),*),
            0x26 => $f::<p::Released>($($a),*), 0x27 => $f::<p::Modified>($($a),*),
            _ => panic!("harness: composite"),
        }
    }};
}

/// what the monitors do with one composite type
#[derive(Clone, Copy)]
pub struct Ops {
    pub comp: &'static Comp,
    pub dec: DecFn,
    pub c03: fn(&mut Ctx, &'static Comp, &R) -> Res,
    pub c06: fn(&mut Ctx, &'static Comp, &R, &[u8]) -> Res,
    pub c07: fn(&mut Ctx, &'static Comp, &R) -> Res,
}

pub fn ops<T: CompT>(comp: &'static Comp) -> Ops {
    Ops { comp, dec: dec::<T>, c03: c03_comp::<T>, c06: c06_decode::<T>, c07: c07_comp::<T> }
}

// ------------------------------------------------------------ padding to exact sizes

/// a value of type `ty` whose variable part takes about n bytes
fn pad_ty(ty: &Ty, g: &mut Gen, n: usize) -> Option<R> {
    Some(match ty {
        Ty::Bin => R::Bin(vec![0xa5; n]),
        Ty::Str => R::Str(g.text_len(n)),
        Ty::Sym => R::Sym(g.ascii_len(n)),
        Ty::MultiSym => match g.rng.below(3) {
            0 => R::Array(vec![R::Sym("m".repeat(n))]),
            1 => {
                let a = g.rng.below(n + 1);
                R::Array(vec![R::Sym("m".repeat(a)), R::Sym("n".repeat(n - a))])
            }
            _ => R::Array((0..n / 5).map(|_| R::sym("z")).collect()),
        },
        Ty::Fields | Ty::AnyMap => R::Map(vec![(R::sym("k"), R::Bin(vec![0x5a; n]))]),
        Ty::Filter => R::Map(vec![(R::sym("f"), R::Str("q".repeat(n)))]),
        Ty::MsgId => {
            if g.rng.bool() {
                R::Bin(vec![0xa5; n])
            } else {
                R::Str("i".repeat(n))
            }
        }
        Ty::ErrCond | Ty::DistMode => R::Sym(format!("x{}", "c".repeat(n))),
        Ty::Comp(c) => pad_comp(c, g, n)?,
        Ty::OneOf(cs) => {
            let k = g.rng.below(cs.len());
            for j in 0..cs.len() {
                if let Some(x) = pad_comp(cs[(k + j) % cs.len()], g, n) {
                    return Some(x);
                }
            }
            return None;
        }
        _ => return None,
    })
}

/// an instance of `c` in which one field is blown up to n bytes
pub fn pad_comp(c: &'static Comp, g: &mut Gen, n: usize) -> Option<R> {
    let mut v = comp_fields(&gen_comp(c, g)).clone();
    if n < 300 {
        // keep the rest small so that the one-byte limit is crossed within the sweep
        for (i, f) in c.fields.iter().enumerate() {
            if let Some(d) = f.2.default() {
                v[i] = d;
            }
        }
        g.budget = 40;
    }
    let k = g.rng.below(c.fields.len().max(1));
    for j in 0..c.fields.len() {
        let i = (k + j) % c.fields.len();
        if let Some(x) = pad_ty(&c.fields[i].1, g, n) {
            v[i] = x;
            return Some(R::desc(c.code, R::List(v)));
        }
    }
    None
}

pub fn pad_sizes(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..280).collect();
    v.extend(&[500, 510, 511, 512, 1000, 4095, 4096, 65_500, 65_535, 65_536, 65_600]);
    if t == Tier::Thorough {
        v.extend(280..700);
        v.extend(&[1 << 17, 1 << 20]);
    }
    v
}

/// one composite value for a case of the streams "fields" / "patterns" / "pad"
pub fn comp_case(c: &mut Ctx, s: &str, i: u64) -> Option<(&'static Comp, R)> {
    let comp = ALL[(i % ALL.len() as u64) as usize];
    comp_case_of(c, comp, s, i / ALL.len() as u64)
}

pub fn comp_case_of(c: &mut Ctx, comp: &'static Comp, s: &str, k: u64) -> Option<(&'static Comp, R)> {
    let tier = c.tier;
    let mut g = Gen::new(&mut c.rng);
    match s {
        "fields" => {
            g.budget = *g.rng.clone().pick(&[30usize, 200, 200, 1500, 6000]);
            let r = gen_comp(comp, &mut g);
            Some((comp, r))
        }
        "patterns" => {
            // every field alone, every field missing, every prefix
            let n = comp.fields.len() as u64;
            if n == 0 {
                return if k == 0 { Some((comp, R::desc(comp.code, R::List(vec![])))) } else { None };
            }
            if k >= 3 * n {
                return None;
            }
            g.budget = 60;
            let at = (k % n) as usize;
            let mut v = Vec::new();
            for (j, f) in comp.fields.iter().enumerate() {
                let on = match k / n {
                    0 => j == at,
                    1 => j != at,
                    _ => j <= at,
                };
                v.push(match f.2.default() {
                    Some(d) if !on => d,
                    _ => gen_ty(&f.1, &mut g),
                });
            }
            Some((comp, R::desc(comp.code, R::List(v))))
        }
        "pad" => {
            let n = *pad_sizes(tier).get(k as usize)?;
            pad_comp(comp, &mut g, n).map(|r| (comp, r))
        }
        _ => unreachable!(),
    }
}

pub fn comp_streams(t: Tier) -> Vec<Stream> {
    let n = ALL.len() as u64;
    vec![
        st("patterns", n * 3 * 14),
        st("pad", n * pad_sizes(t).len() as u64),
        st("fields", t.k(n * 700, n * 30_000)),
    ]
}

fn unsym(r: &R) -> R {
    match r {
        R::Sym(s) => R::Str(s.clone()),
        x => x.clone(),
    }
}

/// unions that hold a composite: (name, decoder, wrapped value as the decoder shows it)
pub fn unions(c: &Comp, r: &R) -> Vec<(&'static str, fn(&[u8]) -> Result<(R, usize), String>, R)> {
    let mut v: Vec<(&'static str, fn(&[u8]) -> Result<(R, usize), String>, R)> = Vec::new();
    if PERFORMATIVES.iter().any(|x| x.code == c.code) {
        v.push(("Frame", dec::<p::Frame>, R::List(vec![r.clone(), R::Null])));
    }
    if SASL_BODIES.iter().any(|x| x.code == c.code) {
        v.push(("SaslFrameBody", dec::<p::SaslFrameBody>, r.clone()));
    }
    if STATES.iter().any(|x| x.code == c.code) {
        v.push(("DeliveryState", dec::<p::DeliveryState>, r.clone()));
    }
    if OUTCOMES.iter().any(|x| x.code == c.code) {
        v.push(("Outcome", dec::<p::Outcome>, r.clone()));
    }
    if c.code == 0x70 || c.code == 0x73 {
        v.push(("Section", dec::<p::Section>, r.clone()));
    }
    v
}

// ------------------------------------------------------------ C06

fn c06_decode<T: CompT>(c: &mut Ctx, comp: &'static Comp, r: &R, b: &[u8]) -> Res {
    c.obs(hash_bytes(b), true, || format!("{} from {}", r.show(), hex(&b[..b.len().min(60)])));
    c.count(&format!("decoded_{}", comp.name), 1);
    let (v, left) =
        lib_dec::<T>(b).map_err(|e| format!("{}: encoding {} of {} refused: {}", comp.name, hex(b), r.show(), e))?;
    ensure!(left == 0, "{}: {} bytes left of {}", comp.name, left, hex(b));
    let got = v.to_r().canon();
    let want = r.clone().canon();
    if got != want {
        let (gf, wf) = (comp_fields(&got), comp_fields(&want));
        for i in 0..wf.len() {
            ensure!(
                gf.get(i) == Some(&wf[i]),
                "{}.{}: wire value {} decodes as {} (from {})",
                comp.name,
                comp.fields[i].0,
                wf[i].show(),
                gf.get(i).map(|x| x.show()).unwrap_or_default(),
                hex(b)
            );
        }
        return Err(format!("{}: {} decodes as {}", comp.name, want.show(), got.show()));
    }
    let acc = v.acc();
    for (i, a) in acc.iter().enumerate() {
        let w = &comp_fields(&want)[i];
        ensure!(
            unsym(&a.clone().canon()) == unsym(w),
            "{}.{}(): wire value {} exposed as {} (from {})",
            comp.name,
            comp.fields[i].0,
            w.show(),
            a.show(),
            hex(b)
        );
    }
    for (name, f, w) in unions(comp, &want) {
        let (x, left) =
            f(b).map_err(|e| format!("{}: encoding {} of {} refused: {}", name, hex(b), r.show(), e))?;
        ensure!(left == 0, "{}: {} bytes left of {}", name, left, hex(b));
        ensure!(x.clone().canon() == w, "{}: {} decodes as {} (from {})", name, w.show(), x.show(), hex(b));
        c.count(&format!("decoded_{}", name), 1);
    }
    Ok(())
}

pub fn refuse(c: &mut Ctx, o: &Ops, b: &[u8], why: &str) -> Res {
    let comp = o.comp;
    c.obs(hash_bytes(b), true, || format!("{} must refuse {} ({})", comp.name, hex(&b[..b.len().min(60)]), why));
    c.count(&format!("refused_{}", why.split(' ').next().unwrap_or("")), 1);
    if let Ok((r, _)) = (o.dec)(b) {
        return Err(format!("{}: {} accepted as {} ({})", comp.name, hex(b), r.show(), why));
    }
    let dummy = R::desc(comp.code, R::List(vec![]));
    for (name, f, _) in unions(comp, &dummy) {
        if let Ok((r, _)) = f(b) {
            return Err(format!("{}: {} accepted as {} ({})", name, hex(b), r.show(), why));
        }
    }
    Ok(())
}

fn dec_fn<T: CompT>() -> fn(&[u8]) -> Result<(R, usize), String> {
    dec::<T>
}

/// hand-built composite: raw field encodings
fn raw_comp(c: &mut Ctx, comp: &Comp, fields: &[Vec<u8>]) -> Vec<u8> {
    let mut e = Enc::new(Form::Rand(&mut c.rng));
    enc_descriptor(&mut e, comp.code, comp.sym, FREE);
    let mut out = e.out;
    let body: Vec<u8> = fields.concat();
    if body.len() + 1 <= 255 && c.rng.bool() {
        out.extend_from_slice(&[0xc0, body.len() as u8 + 1, fields.len() as u8]);
    } else {
        out.push(0xd0);
        put_be(&mut out, body.len() as u64 + 4, 4);
        put_be(&mut out, fields.len() as u64, 4);
    }
    out.extend(body);
    out
}

pub fn field_encodings(c: &mut Ctx, comp: &Comp, r: &R) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for (i, f) in comp.fields.iter().enumerate() {
        let x = &comp_fields(r)[i];
        if *x == R::Null {
            v.push(vec![0x40]);
            continue;
        }
        let mut e = Enc::new(Form::Rand(&mut c.rng));
        enc_ty(&mut e, &f.1, x, FREE);
        v.push(e.out);
    }
    v
}

pub fn any_value(g: &mut Gen) -> R {
    match g.rng.below(10) {
        0 => R::Array((0..g.rng.range(1, 3)).map(|_| R::U32(7)).collect()),
        1 => R::Array((0..g.rng.range(1, 3)).map(|_| R::str("x")).collect()),
        2 => gen_comp(ALL[g.rng.below(ALL.len())], g),
        3 => R::Map(vec![(R::U8(1), R::U8(2))]),
        4 => g.list(2),
        5 => g.map(2),
        _ => g.scalar(),
    }
}

/// one case of a stream of encodings that must be refused (or accepted only by the right type)
pub fn c06_one(c: &mut Ctx, s: &str, o: &Ops, pool: &[&'static Comp]) -> Res {
    let comp = o.comp;
    match s {
        "missing" => {
            // mandatory fields omitted or null
            let r = gen_comp(comp, &mut Gen::with_budget(&mut c.rng, 100));
            let enc = field_encodings(c, comp, &r);
            for (k, f) in comp.fields.iter().enumerate() {
                if let D::Req = f.2 {
                    for n in 0..=k {
                        let b = raw_comp(c, comp, &enc[..n]);
                        refuse(c, o, &b, &format!("omitted mandatory field {}", f.0))?;
                    }
                    let mut v = enc.clone();
                    v[k] = vec![0x40];
                    let b = raw_comp(c, comp, &v);
                    refuse(c, o, &b, &format!("null mandatory field {}", f.0))?;
                    let mut e = Enc::new(Form::Rand(&mut c.rng));
                    enc_descriptor(&mut e, comp.code, comp.sym, FREE);
                    let mut b = e.out;
                    b.push(0x45);
                    refuse(c, o, &b, &format!("empty list, mandatory field {}", f.0))?;
                }
            }
            Ok(())
        }
        "nulls" => {
            // optional fields null, in every subset size; the rest set
            let r = gen_comp(comp, &mut Gen::with_budget(&mut c.rng, 200));
            let mut enc = field_encodings(c, comp, &r);
            let mut v = comp_fields(&r).clone();
            for (k, f) in comp.fields.iter().enumerate() {
                if let Some(d) = f.2.default() {
                    if c.rng.bool() || v[k] == R::Null {
                        enc[k] = vec![0x40];
                        v[k] = d;
                    }
                }
            }
            let b = raw_comp(c, comp, &enc);
            let r = R::desc(comp.code, R::List(v));
            (o.c06)(c, comp, &r, &b)
        }
        "wrongtype" => {
            if comp.fields.is_empty() {
                return Ok(());
            }
            let mut g = Gen::with_budget(&mut c.rng, 100);
            let r = gen_comp(comp, &mut g);
            let k = g.rng.below(comp.fields.len());
            let mut x = any_value(&mut g);
            let mut tries = 0;
            while x == R::Null
                || norm_ty(&comp.fields[k].1, &x).is_ok()
                || (matches!(comp.fields[k].1, Ty::Filter) && matches!(x, R::Map(_)))
                || norm_array_unsure(&x)
            {
                x = any_value(&mut g);
                tries += 1;
                if tries > 50 {
                    return Ok(());
                }
            }
            let mut enc = field_encodings(c, comp, &r);
            enc[k] = enc_rand(&x, &mut c.rng);
            let b = raw_comp(c, comp, &enc);
            refuse(c, o, &b, &format!("wrongtype {} in field {}", x.kind(), comp.fields[k].0))
        }
        "descriptors" => {
            let r = gen_comp(comp, &mut Gen::with_budget(&mut c.rng, 60));
            let good = comp_bytes(comp, &r, Form::Min, EncOpt { sym: false, extra: false, omit: false });
            let body = good[3..].to_vec();
            let mut ds: Vec<R> = (0..256).map(R::U64).collect();
            for k in 0..40 {
                let x = c.rng.u64() >> k;
                ds.push(R::U64(x));
            }
            ds.push(R::U64(comp.code << 32));
            ds.push(R::U64(comp.code | 1 << 63));
            ds.push(R::U64(comp.code | 1 << 8));
            for x in pool {
                ds.push(R::sym(x.sym));
                ds.push(R::sym(&x.sym[..x.sym.len() - 1]));
                ds.push(R::Sym(format!("{}x", x.sym)));
                ds.push(R::Sym(x.sym.to_uppercase()));
            }
            ds.push(R::sym(""));
            ds.push(R::U32(comp.code as u32));
            ds.push(R::U8(comp.code as u8));
            ds.push(R::I64(comp.code as i64));
            ds.push(R::str(comp.sym));
            let code_fn = o.dec;
            for d in ds {
                let mine = d == R::U64(comp.code) || d == R::sym(comp.sym);
                let mut b = vec![0];
                b.extend(enc_rand(&d, &mut c.rng));
                b.extend(&body);
                c.obs(hash_bytes(&b), true, || format!("{} under descriptor {:?}", comp.name, d));
                c.count("descriptors_tried", 1);
                let got = code_fn(&b);
                ensure!(
                    got.is_ok() == mine,
                    "{}: descriptor {:?} gives {:?} (bytes {})",
                    comp.name,
                    d,
                    got.map(|x| x.0.show()),
                    hex(&b)
                );
                if mine {
                    ensure!(
                        got.as_ref().map(|x| x.0.clone().canon()) == Ok(r.clone().canon()),
                        "{}: descriptor {:?} gives {:?}",
                        comp.name,
                        d,
                        got
                    );
                }
                // unions: the member that owns the descriptor, if any, decides
                for (name, f, members) in UNIONS {
                    let owner = members.iter().find(|m| d == R::U64(m.code) || d == R::sym(m.sym));
                    let got = f(&b);
                    match owner {
                        None => ensure!(
                            got.is_err(),
                            "{}: descriptor {:?} accepted as {:?} (bytes {})",
                            name,
                            d,
                            got.map(|x| x.0.show()),
                            hex(&b)
                        ),
                        Some(m) => {
                            let f: fn(&[u8]) -> Result<(R, usize), String> = by_comp!(m, dec_fn());
                            let alone = f(&b);
                            ensure!(
                                got.is_ok() == alone.is_ok(),
                                "{} and {} disagree on {}: {:?} / {:?}",
                                name,
                                m.name,
                                hex(&b),
                                got.map(|x| x.0.show()),
                                alone.map(|x| x.0.show())
                            );
                            if let (Ok(x), Ok(y)) = (got, alone) {
                                let x = if *name == "Frame" {
                                    match x.0 {
                                        R::List(v) => v[0].clone(),
                                        x => x,
                                    }
                                } else {
                                    x.0
                                };
                                ensure!(
                                    x.clone().canon() == y.0.clone().canon(),
                                    "{}: {} decodes as {}, alone as {}",
                                    name,
                                    hex(&b),
                                    x.show(),
                                    y.0.show()
                                );
                            }
                        }
                    }
                }
            }
            // no descriptor at all
            let mut e = Enc::new(Form::Min);
            e.value(&R::List(comp_fields(&r).iter().filter(|x| !matches!(x, R::Desc(..))).cloned().collect()));
            refuse(c, o, &e.out, "undescribed list")
        }
        "notalist" => {
            let mut g = Gen::with_budget(&mut c.rng, 100);
            let mut x = any_value(&mut g);
            while let R::List(_) = x {
                x = any_value(&mut g);
            }
            let b = {
                let mut e = Enc::new(Form::Rand(&mut c.rng));
                enc_descriptor(&mut e, comp.code, comp.sym, FREE);
                e.value(&x);
                e.out
            };
            refuse(c, o, &b, &format!("notalist {}", x.kind()))
        }
        _ => unreachable!(),
    }
}

fn c06(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "missing" | "nulls" | "wrongtype" | "descriptors" | "notalist" => {
            let comp = ALL[(i % ALL.len() as u64) as usize];
            let o = by_comp!(comp, ops(comp));
            c06_one(c, s, &o, ALL)
        }
        _ => {
            if let Some((comp, r)) = comp_case(c, s, i) {
                let forms = match s {
                    "patterns" => 6,
                    "pad" => 1,
                    _ => 2,
                };
                for k in 0..forms {
                    let o = EncOpt { sym: true, extra: k % 2 == 1 || s == "fields", omit: true };
                    let b = match k {
                        2 => comp_bytes(comp, &r, Form::Min, o),
                        3 => comp_bytes(comp, &r, Form::Max, o),
                        _ => comp_rand(comp, &r, &mut c.rng, o),
                    };
                    by_comp!(comp, c06_decode(c, comp, &r, &b))?;
                }
            }
            Ok(())
        }
    }
}

pub type DecFn = fn(&[u8]) -> Result<(R, usize), String>;
static UNIONS: &[(&str, DecFn, &[&Comp])] = &[
    ("Frame", dec::<p::Frame>, PERF_U),
    ("SaslFrameBody", dec::<p::SaslFrameBody>, SASL_U),
    ("DeliveryState", dec::<p::DeliveryState>, STATE_U),
    ("Outcome", dec::<p::Outcome>, OUTC_U),
];
static PERF_U: &[&Comp] = &[&OPEN, &BEGIN, &ATTACH, &FLOW, &TRANSFER, &DISPOSITION, &DETACH, &END, &CLOSE];
static SASL_U: &[&Comp] = &[&SASL_MECHANISMS, &SASL_INIT, &SASL_CHALLENGE, &SASL_RESPONSE, &SASL_OUTCOME];
static STATE_U: &[&Comp] = &[&RECEIVED, &ACCEPTED, &REJECTED, &RELEASED, &MODIFIED];
static OUTC_U: &[&Comp] = &[&ACCEPTED, &REJECTED, &RELEASED, &MODIFIED];

/// arrays of which AMQP 1.0 and the library may disagree on the element type
fn norm_array_unsure(x: &R) -> bool {
    match x {
        R::Array(v) => v.is_empty(),
        _ => false,
    }
}

pub const C06: Prop = Prop {
    id: "C06",
    rule: "one evaluation = one independently encoded composite (or refusal case) decoded and compared field by field \
           and accessor by accessor; distinct = distinct input bytes",
    streams: |t| {
        let n = ALL.len() as u64;
        let mut v = comp_streams(t);
        v.push(st("missing", t.k(n * 12, n * 300)));
        v.push(st("nulls", t.k(n * 120, n * 6000)));
        v.push(st("wrongtype", t.k(n * 400, n * 12_000)));
        v.push(st("notalist", t.k(n * 60, n * 1500)));
        v.push(st("descriptors", t.k(n * 3, n * 60)));
        v
    },
    run: c06,
};

// ------------------------------------------------------------ C07

fn c07_comp<T: CompT>(c: &mut Ctx, comp: &'static Comp, r: &R) -> Res {
    let v = T::from_r(r);
    let e = lib_enc(&v);
    c.obs(hash_bytes(&e), true, || format!("{} -> {}", r.show(), hex(&e[..e.len().min(60)])));
    c.count(&format!("encoded_{}", comp.name), 1);
    c.max("encoded_bytes", e.len() as u64);
    layout(comp, r, &e)?;
    let (v2, left) = lib_dec::<T>(&e)
        .map_err(|x| format!("{}: own encoding {} of {} refused: {}", comp.name, hex(&e), r.show(), x))?;
    ensure!(left == 0, "{}: {} bytes left of own encoding {}", comp.name, left, hex(&e));
    ensure!(
        v2 == v && v == v2,
        "{}: {} comes back as {} (encoding {})",
        comp.name,
        r.show(),
        v2.to_r().show(),
        hex(&e)
    );
    ensure!(
        v2.to_r().canon() == r.clone().canon(),
        "{}: {} comes back as {} (encoding {})",
        comp.name,
        r.show(),
        v2.to_r().show(),
        hex(&e)
    );
    // the same composite wrapped in a union
    let mut wrapped: Vec<(&str, Vec<u8>)> = Vec::new();
    if PERF_U.iter().any(|x| x.code == comp.code) {
        wrapped.push(("Frame", lib_enc(&p::Frame::from_r(&R::List(vec![r.clone(), R::Null])))));
    }
    if SASL_U.iter().any(|x| x.code == comp.code) {
        wrapped.push(("SaslFrameBody", lib_enc(&p::SaslFrameBody::from_r(r))));
    }
    if STATE_U.iter().any(|x| x.code == comp.code) {
        wrapped.push(("DeliveryState", lib_enc(&p::DeliveryState::from_r(r))));
    }
    if OUTC_U.iter().any(|x| x.code == comp.code) {
        wrapped.push(("Outcome", lib_enc(&p::Outcome::from_r(r))));
    }
    if comp.code == 0x70 || comp.code == 0x73 {
        wrapped.push(("Section", lib_enc(&p::Section::from_r(r))));
    }
    for (name, b) in wrapped {
        layout(comp, r, &b).map_err(|x| format!("as {}: {}", name, x))?;
        for (n2, f, w) in unions(comp, &r.clone().canon()) {
            if n2 != name {
                continue;
            }
            let (x, left) = f(&b).map_err(|x| format!("{}: own encoding {} refused: {}", name, hex(&b), x))?;
            ensure!(left == 0, "{}: {} bytes left of own encoding {}", name, left, hex(&b));
            ensure!(x.clone().canon() == w, "{}: {} comes back as {}", name, w.show(), x.show());
        }
    }
    Ok(())
}

/// `e` is exactly the standard layout of composite r
pub fn layout(comp: &'static Comp, r: &R, e: &[u8]) -> Res {
    let w = dec_strict(e)
        .map_err(|x| format!("{}: encoding {} of {} is not well-formed: {}", comp.name, hex(e), r.show(), x))?;
    if let R::Desc(d, _) = &w {
        ensure!(**d == R::U64(comp.code), "{}: encoded under descriptor {:?}", comp.name, d);
    }
    let n = norm_comp(comp, &w).map_err(|x| format!("{}: encoding {} of {}: {}", comp.name, hex(e), r.show(), x))?;
    ensure!(
        n.clone().canon() == r.clone().canon(),
        "{}: encoding {} of {} denotes {}",
        comp.name,
        hex(e),
        r.show(),
        n.show()
    );
    Ok(())
}

fn c07_section(c: &mut Ctx, i: u64) -> Res {
    let mut g = Gen::new(&mut c.rng);
    g.budget = 800;
    let s = match i % 9 {
        0 => gen_comp(&HEADER, &mut g),
        1 => R::desc(0x71, g.sym_map()),
        2 => R::desc(0x72, g.sym_map()),
        3 => gen_comp(&PROPERTIES, &mut g),
        4 => R::desc(0x74, g.str_map()),
        5 => R::desc(0x75, R::Bin(g.bin())),
        6 => R::desc(0x76, g.list(2)),
        7 => R::desc(0x77, g.value(3)),
        _ => R::desc(0x78, g.sym_map()),
    }
    .canon();
    c07_one_section(c, &s)
}

const BLOBS: &[usize] = &[
    254, 255, 256, 257, 258, 511, 512, 1023, 4096, 65_531, 65_532, 65_533, 65_534, 65_535, 65_536, 65_537, 70_000, 131_071,
    131_072, 131_080, 1 << 18, 1 << 20,
];

/// a section whose content takes n bytes or a little more
fn blob_section(g: &mut Gen, k: u64, n: usize) -> R {
    match k {
        0 => R::desc(0x75, R::Bin(g.rng.bytes(n))),
        1 => R::desc(0x76, R::List(vec![R::Bin(vec![7; n])])),
        2 => R::desc(0x76, R::List((0..n / 8).map(|i| R::I64(i as i64)).collect())),
        3 => R::desc(0x77, R::Str("v".repeat(n))),
        4 => R::desc(0x77, R::Map(vec![(R::sym("k"), R::Bin(vec![1; n]))])),
        5 => R::desc(0x74, R::Map(vec![(R::Str("n".repeat(n / 2)), R::Str("v".repeat(n - n / 2)))])),
        6 => R::desc(0x71, R::Map(vec![(R::sym("x-a"), R::Bin(vec![2; n]))])),
        7 => R::desc(0x72, R::Map(vec![(R::sym("x-a"), R::U8(1)), (R::sym("x-b"), R::List(vec![R::Str("m".repeat(n))]))])),
        _ => R::desc(0x78, R::Map(vec![(R::Sym("f".repeat(n)), R::Null)])),
    }
    .canon()
}

fn c07_one_section(c: &mut Ctx, s: &R) -> Res {
    let v = p::Section::from_r(s);
    let e = lib_enc(&v);
    c.obs(hash_bytes(&e), true, || format!("{} -> {}", s.show(), hex(&e[..e.len().min(60)])));
    c.count(&format!("encoded_section_{:#x}", code_of(&s)), 1);
    let secs = parse_sections(&e).map_err(|x| format!("section {}: encoding {}: {}", s.show(), hex(&e), x))?;
    ensure!(secs.len() == 1, "section {}: encoded as {} sections", s.show(), secs.len());
    ensure!(e[1] == 0x53 || e[1] == 0x80, "section {}: descriptor {:#x} is not numeric", s.show(), e[1]);
    ensure!(secs[0].clone().canon() == *s, "section {}: encoding {} denotes {}", s.show(), hex(&e), secs[0].show());
    let (v2, left) =
        lib_dec::<p::Section>(&e).map_err(|x| format!("section {}: own encoding {}: {}", s.show(), hex(&e), x))?;
    ensure!(left == 0 && v2 == v, "section {}: comes back as {} ({} left)", s.show(), v2.to_r().show(), left);
    // independently encoded, any descriptor and form
    let b = {
        let mut en = Enc::new(Form::Rand(&mut c.rng));
        enc_section(&mut en, s, FREE);
        en.out
    };
    let (v3, left) =
        lib_dec::<p::Section>(&b).map_err(|x| format!("section {}: legal encoding {}: {}", s.show(), hex(&b), x))?;
    ensure!(
        left == 0 && v3.to_r().canon() == *s,
        "section {}: legal encoding {} decodes as {} ({} left)",
        s.show(),
        hex(&b),
        v3.to_r().show(),
        left
    );
    Ok(())
}

fn c07(c: &mut Ctx, s: &str, i: u64) -> Res {
    if s == "sections" {
        return c07_section(c, i);
    }
    if s == "blobs" {
        let x = blob_section(&mut Gen::new(&mut c.rng), i % 9, BLOBS[i as usize / 9]);
        return c07_one_section(c, &x);
    }
    if let Some((comp, r)) = comp_case(c, s, i) {
        by_comp!(comp, c07_comp(c, comp, &r))?;
    }
    Ok(())
}

pub const C07: Prop = Prop {
    id: "C07",
    rule: "one evaluation = one composite or section encoded by the library, read by the independent decoder, and \
           decoded again by the library, alone and inside its unions; distinct = distinct encodings",
    streams: |t| {
        let mut v = comp_streams(t);
        v.push(st("sections", t.k(9 * 700, 9 * 30_000)));
        v.push(st("blobs", 9 * BLOBS.len() as u64));
        v
    },
    run: c07,
};

// ------------------------------------------------------------ C03

fn announced<T: Encode + ?Sized>(c: &mut Ctx, what: &str, v: &T) -> Res {
    let n = v.encoded_size();
    let e = lib_enc_ref(v);
    c.obs(hash_bytes(&e) ^ hash_str(what), true, || format!("{} {} bytes {}", what, n, hex(&e[..e.len().min(60)])));
    c.count(&format!("sized_{}", what), 1);
    c.max("announced", n as u64);
    ensure!(n == e.len(), "{}: announced size {} but {} bytes encoded: {}", what, n, e.len(), hex(&e));
    ensure!(v.encoded_size() == n, "{}: announced size changes from {} to {}", what, n, v.encoded_size());
    exact_fit(v, &mut c.rng, what)
}

fn c03_comp<T: CompT>(c: &mut Ctx, comp: &'static Comp, r: &R) -> Res {
    announced(c, comp.name, &T::from_r(r))?;
    if PERF_U.iter().any(|x| x.code == comp.code) {
        let ch = c.rng.u64() as u16;
        let f = p::Frame::from_r(&R::List(vec![r.clone(), R::Null]));
        announced(c, "Frame", &f)?;
        announced(c, "AmqpFrame", &AmqpFrame::new(ch, f))?;
    }
    if SASL_U.iter().any(|x| x.code == comp.code) {
        announced(c, "SaslFrameBody", &p::SaslFrameBody::from_r(r))?;
        announced(c, "SaslFrame", &SaslFrame::from_r(r))?;
    }
    if STATE_U.iter().any(|x| x.code == comp.code) {
        announced(c, "DeliveryState", &p::DeliveryState::from_r(r))?;
        announced(c, "Option<DeliveryState>", &Some(p::DeliveryState::from_r(r)))?;
    }
    if OUTC_U.iter().any(|x| x.code == comp.code) {
        announced(c, "Outcome", &p::Outcome::from_r(r))?;
    }
    if comp.code == 0x70 || comp.code == 0x73 {
        announced(c, "Section", &p::Section::from_r(r))?;
    }
    Ok(())
}

fn c03(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "patterns" | "pad" | "fields" => {
            if let Some((comp, r)) = comp_case(c, s, i) {
                by_comp!(comp, c03_comp(c, comp, &r))?;
            }
            Ok(())
        }
        "sections" => {
            let mut g = Gen::new(&mut c.rng);
            let m = gen_msg(&mut g);
            for x in m.sections() {
                announced(c, "Section", &p::Section::from_r(&x))?;
            }
            Ok(())
        }
        "blobs" => {
            let n = BLOBS[i as usize / 9];
            let x = blob_section(&mut Gen::new(&mut c.rng), i % 9, n);
            announced(c, "Section", &p::Section::from_r(&x))?;
            // the same as a section of a message, as a payload and nested in another message
            let b = enc_sections(&[x.clone()], &mut c.rng, FREE);
            let what = || format!("message of one {:#x} section of {} bytes", code_of(&x), n);
            let a = lib_dec::<InMessage>(&b).map_err(|e| format!("{}: {}", what(), e))?.0;
            let o = lib_dec::<OutMessage>(&b).map_err(|e| format!("{}: {}", what(), e))?.0;
            announced(c, "InMessage", &a)?;
            announced(c, "OutMessage", &o)?;
            let parts = vec![p::TransferBody::MessageIn(a), p::TransferBody::MessageOut(o), p::TransferBody::Data(Bytes::from(&b[..]))];
            for part in parts {
                let l = part.len();
                ensure!(l == lib_enc_ref(&part).len(), "{}: payload length {}", what(), l);
                announced(c, "TransferBody", &part)?;
                announced(c, "OutMessage", &OutMessage::with_messages(vec![part.clone()]))?;
                let mut t = p::Transfer::from_r(&gen_comp(&TRANSFER, &mut Gen::with_budget(&mut c.rng, 60)));
                t.body = Some(part);
                announced(c, "AmqpFrame", &AmqpFrame::new(3, p::Frame::Transfer(t)))?;
            }
            Ok(())
        }
        "enums" => {
            let e = ENUMS[i as usize];
            for v in e.vals {
                enum_size(c, e.name, &v.r())?;
            }
            if i == 0 {
                for l in 0..600 {
                    let r = R::Sym("s".repeat(l));
                    if cond_class(&r) == "custom" && l != 4 {
                        announced(c, "ErrorCondition", &p::ErrorCondition::from_r(&r))?;
                        announced(c, "DistributionMode", &p::DistributionMode::from_r(&r))?;
                    }
                    announced(c, "MessageId", &p::MessageId::from_r(&R::Bin(vec![1; l])))?;
                    announced(c, "MessageId", &p::MessageId::from_r(&R::Str("i".repeat(l))))?;
                    announced(c, "TransferBody", &p::TransferBody::Data(Bytes::from(vec![3; l])))?;
                }
                for l in &["move", "copy"] {
                    announced(c, "DistributionMode", &p::DistributionMode::from_r(&R::sym(l)))?;
                }
                for l in &[AMQPERR.vals, CONNERR.vals, SESSERR.vals, LINKERR.vals] {
                    for v in l.iter() {
                        announced(c, "ErrorCondition", &p::ErrorCondition::from_r(&v.r()))?;
                    }
                }
                for k in 0..64 {
                    announced(c, "MessageId", &p::MessageId::from_r(&R::U64(1 << k)))?;
                    announced(c, "MessageId", &p::MessageId::from_r(&R::U64((1 << k) - 1)))?;
                    announced(c, "Descriptor", &Descriptor::from_r(&R::U64(1 << k)))?;
                }
                for l in 0..300 {
                    announced(c, "Descriptor", &Descriptor::from_r(&R::Sym("d".repeat(l))))?;
                }
                announced(c, "AmqpFrame", &AmqpFrame::new(7, p::Frame::Empty))?;
            }
            Ok(())
        }
        "messages" => {
            let mut g = Gen::new(&mut c.rng);
            g.budget = *g.rng.clone().pick(&[20usize, 200, 1500]);
            let mut m = gen_msg(&mut g);
            if i % 4 == 0 {
                // body crossing the one-byte size limit when nested
                let n = g.rng.range(180, 280);
                m.data.push(g.rng.bytes(n));
            }
            if m.is_empty() {
                m.data.push(vec![]);
            }
            let b = enc_msg(&m, &mut c.rng, FREE);
            let a = lib_dec::<InMessage>(&b).map_err(|e| format!("message {}: {}", hex(&b), e))?.0;
            let o = lib_dec::<OutMessage>(&b).map_err(|e| format!("message {}: {}", hex(&b), e))?.0;
            announced(c, "InMessage", &a)?;
            announced(c, "OutMessage", &o)?;
            announced(c, "MessageBody", a.body())?;
            announced(c, "MessageBody", o.body())?;
            let (ta, to) = (p::TransferBody::MessageIn(a.clone()), p::TransferBody::MessageOut(o.clone()));
            announced(c, "TransferBody", &ta)?;
            announced(c, "TransferBody", &to)?;
            ensure!(ta.len() == lib_enc_ref(&ta).len(), "TransferBody::len {}", ta.len());
            let nested = vec![ta.clone(), to.clone(), p::TransferBody::Data(Bytes::from(&b[..]))];
            announced(c, "InMessage", &InMessage::with_messages(nested.clone()))?;
            announced(c, "OutMessage", &OutMessage::with_messages(nested))?;
            // transfers carrying each kind of payload
            let tr = gen_comp(&TRANSFER, &mut Gen::with_budget(&mut c.rng, 60));
            for body in vec![ta, to, p::TransferBody::Data(Bytes::from(&b[..]))] {
                let mut t = p::Transfer::from_r(&tr);
                t.body = Some(body);
                announced(c, "Transfer", &t)?;
                announced(c, "AmqpFrame", &AmqpFrame::new(3, p::Frame::Transfer(t)))?;
            }
            Ok(())
        }
        _ => {
            for x in values::subjects(c, s, i) {
                c.obs(hash_bytes(&x.enc) ^ hash_str(&x.ty), true, || {
                    format!("{} {} announces {}", x.ty, x.r.show(), x.size)
                });
                c.count(&format!("sized_{}", x.ty), 1);
                c.max("announced", x.size as u64);
                ensure!(
                    x.size == x.enc.len(),
                    "{} {}: announced size {} but {} bytes encoded",
                    x.ty,
                    x.r.show(),
                    x.size,
                    x.enc.len()
                );
                (x.exact)(&mut c.rng)?;
            }
            Ok(())
        }
    }
}

fn enum_size(c: &mut Ctx, name: &str, r: &R) -> Res {
    match name {
        "Role" => announced(c, name, &p::Role::from_r(r)),
        "SenderSettleMode" => announced(c, name, &p::SenderSettleMode::from_r(r)),
        "ReceiverSettleMode" => announced(c, name, &p::ReceiverSettleMode::from_r(r)),
        "SaslCode" => announced(c, name, &p::SaslCode::from_r(r)),
        "TerminusDurability" => announced(c, name, &p::TerminusDurability::from_r(r)),
        "TerminusExpiryPolicy" => announced(c, name, &p::TerminusExpiryPolicy::from_r(r)),
        "AmqpError" => announced(c, name, &p::AmqpError::from_r(r)),
        "ConnectionError" => announced(c, name, &p::ConnectionError::from_r(r)),
        "SessionError" => announced(c, name, &p::SessionError::from_r(r)),
        "LinkError" => announced(c, name, &p::LinkError::from_r(r)),
        _ => panic!("harness: enum"),
    }
}

pub const C03: Prop = Prop {
    id: "C03",
    rule: "one evaluation = one library value whose announced size is compared with the bytes it appends, also into a \
           buffer with exactly that much room; distinct = distinct (type, encoding)",
    streams: |t| {
        let mut v = vec![st("enums", ENUMS.len() as u64)];
        v.extend(comp_streams(t));
        v.push(st("messages", t.k(2500, 120_000)));
        v.push(st("sections", t.k(1500, 60_000)));
        v.push(st("blobs", 9 * BLOBS.len() as u64));
        v.extend(values::scalar_streams(t));
        v.extend(values::container_streams(t));
        for x in v.iter_mut() {
            if x.name == "trees" || x.name == "scalars" {
                x.n /= 2;
            }
        }
        v
    },
    run: c03,
};

// ------------------------------------------------------------ C20

pub struct EnT {
    pub en: &'static En,
    dec: DecFn,
    enc: fn(&R) -> Vec<u8>,
    size: fn(&R) -> usize,
    opt: DecFn,
}

fn en_enc<T: FromR + Encode>(r: &R) -> Vec<u8> {
    lib_enc(&T::from_r(r))
}
fn en_size<T: FromR + Encode>(r: &R) -> usize {
    T::from_r(r).encoded_size()
}
pub fn en_t<T>(en: &'static En) -> EnT
where
    T: FromR + ToR + Encode + Decode,
    Option<T>: Decode,
{
    EnT { en, dec: dec::<T>, enc: en_enc::<T>, size: en_size::<T>, opt: dec::<Option<T>> }
}
fn en_types() -> Vec<EnT> {
    vec![
        en_t::<p::Role>(&ROLE),
        en_t::<p::SenderSettleMode>(&SND),
        en_t::<p::ReceiverSettleMode>(&RCV),
        en_t::<p::SaslCode>(&SASLCODE),
        en_t::<p::TerminusDurability>(&DURAB),
        en_t::<p::TerminusExpiryPolicy>(&EXPIRY),
        en_t::<p::AmqpError>(&AMQPERR),
        en_t::<p::ConnectionError>(&CONNERR),
        en_t::<p::SessionError>(&SESSERR),
        en_t::<p::LinkError>(&LINKERR),
    ]
}

pub fn near(s: &str, g: &mut Gen) -> Vec<String> {
    let mut v = vec![
        String::new(),
        s.to_uppercase(),
        format!("{} ", s),
        format!(" {}", s),
        format!("{}\u{0}", s),
        format!("{}x", s),
        format!("x{}", s),
        s.replace('-', "_"),
        s.replace(':', "."),
        s.replace("amqp:", ""),
        format!("amqp:{}", s),
        format!("{}{}", s, s),
    ];
    for k in 1..s.len() {
        v.push(s[..k].to_string());
        v.push(s[k..].to_string());
        let mut b = s.as_bytes().to_vec();
        b[k] ^= 0x20;
        if let Ok(x) = String::from_utf8(b) {
            v.push(x);
        }
        let mut b = s.as_bytes().to_vec();
        b[k] = b'a' + g.rng.below(26) as u8;
        v.push(String::from_utf8(b).unwrap());
        let mut b = s.as_bytes().to_vec();
        b.swap(k, k - 1);
        v.push(String::from_utf8(b).unwrap());
    }
    for e in ENUMS {
        for x in e.vals {
            if let V::S(x) = x {
                v.push(x.to_string());
            }
        }
    }
    v.extend(DIST.iter().map(|x| x.to_string()));
    v
}

pub fn en_one(c: &mut Ctx, t: &EnT, wire: &R) -> Res {
    let want = t.en.vals.iter().any(|v| v.r() == *wire);
    let mut forms = vec![enc_min(wire), enc_max(wire)];
    forms.push(enc_rand(wire, &mut c.rng));
    forms.dedup();
    for b in forms {
        c.obs(hash_bytes(&b) ^ hash_str(t.en.name), true, || format!("{} from {:?} = {}", t.en.name, wire, hex(&b)));
        c.count(&format!("{}_{}", t.en.name, if want { "known" } else { "unknown" }), 1);
        for f in &[t.dec, t.opt] {
            match (want, f(&b)) {
                (true, Ok((r, left))) => {
                    ensure!(r == *wire && left == 0, "{}: {} decodes as {}", t.en.name, hex(&b), r.show())
                }
                (true, Err(e)) => return Err(format!("{}: wire value {:?} ({}) refused: {}", t.en.name, wire, hex(&b), e)),
                (false, Ok((r, _))) => {
                    return Err(format!("{}: wire value {:?} ({}) accepted as {}", t.en.name, wire, hex(&b), r.show()))
                }
                (false, Err(_)) => {}
            }
        }
    }
    Ok(())
}

pub fn en_members(c: &mut Ctx, t: &EnT) -> Res {
    for (k, v) in t.en.vals.iter().enumerate() {
        let wire = v.r();
        let b = (t.enc)(&wire);
        c.obs(hash_bytes(&b) ^ hash_str(t.en.name), true, || format!("{} {:?} -> {}", t.en.name, wire, hex(&b)));
        let w = dec_strict(&b).map_err(|e| format!("{} {:?}: {}: {}", t.en.name, wire, hex(&b), e))?;
        ensure!(w == wire, "{}: member {} emitted as {:?} instead of {:?}", t.en.name, k, w, wire);
        let n = (t.size)(&wire);
        ensure!(n == b.len(), "{}: member {} announces {} bytes, emits {}", t.en.name, k, n, hex(&b));
        en_one(c, t, &wire)?;
    }
    Ok(())
}

/// wire values of every numeric type around 256 k
pub fn en_codes(c: &mut Ctx, t: &EnT, k: u64) -> Res {
    let mut ws: Vec<R> = Vec::new();
    for x in 0..256u64 {
        let x = k * 256 + x;
        if k == 0 {
            ws.push(R::U8(x as u8));
            ws.push(R::I8(x as u8 as i8));
        }
        ws.push(R::U16(x as u16));
        ws.push(R::U32(x as u32));
        ws.push(R::U64(x));
        ws.push(R::I32(x as i32));
        let y = c.rng.u64();
        ws.push(R::U32(y as u32));
        ws.push(R::U32((x << 8) as u32));
        ws.push(R::U32((x << 24) as u32));
    }
    ws.push(R::Bool(true));
    ws.push(R::Bool(false));
    for w in ws {
        en_one(c, t, &w)?;
    }
    Ok(())
}

/// error conditions and distribution modes: known members or preserved verbatim
fn open_one(c: &mut Ctx, s: &str) -> Res {
    let wire = R::sym(s);
    let mut forms = vec![enc_min(&wire), enc_max(&wire)];
    forms.dedup();
    for b in forms {
        c.obs(hash_bytes(&b), true, || format!("open enumeration from {:?}", wire));
        let (v, left) = lib_dec::<p::ErrorCondition>(&b).map_err(|e| format!("ErrorCondition: {:?}: {}", s, e))?;
        ensure!(left == 0, "ErrorCondition {:?}: {} bytes left", s, left);
        let class = match v {
            p::ErrorCondition::AmqpError(_) => "amqp",
            p::ErrorCondition::ConnectionError(_) => "connection",
            p::ErrorCondition::SessionError(_) => "session",
            p::ErrorCondition::LinkError(_) => "link",
            p::ErrorCondition::Custom(_) => "custom",
        };
        c.count(&format!("condition_{}", class), 1);
        ensure!(
            class == cond_class(&wire) && v.to_r() == wire,
            "ErrorCondition: wire value {:?} decodes as {:?}",
            s,
            v
        );
        ensure!(dec_strict(&lib_enc(&v)) == Ok(wire.clone()), "ErrorCondition {:?} re-encodes differently", v);
        let (d, left) = lib_dec::<p::DistributionMode>(&b).map_err(|e| format!("DistributionMode: {:?}: {}", s, e))?;
        ensure!(left == 0 && d.to_r() == wire, "DistributionMode: wire value {:?} decodes as {:?}", s, d);
        ensure!(dec_strict(&lib_enc(&d)) == Ok(wire.clone()), "DistributionMode {:?} re-encodes differently", d);
    }
    Ok(())
}

fn c20(c: &mut Ctx, s: &str, i: u64) -> Res {
    let ts = en_types();
    match s {
        "members" => {
            en_members(c, &ts[i as usize % ts.len()])?;
            for x in DIST {
                open_one(c, x)?;
            }
            for e in &[&AMQPERR, &CONNERR, &SESSERR, &LINKERR] {
                for v in e.vals {
                    if let V::S(x) = v {
                        open_one(c, x)?;
                        let ec = p::ErrorCondition::from_r(&v.r());
                        ensure!(
                            dec_strict(&lib_enc(&ec)) == Ok(v.r()),
                            "ErrorCondition {:?} emitted as {}",
                            ec,
                            hex(&lib_enc(&ec))
                        );
                    }
                }
            }
            Ok(())
        }
        "codes" => {
            en_codes(c, &ts[i as usize % ts.len()], i / ts.len() as u64)
        }
        "symbols" => {
            let t = &ts[i as usize % ts.len()];
            let mut names: Vec<String> = Vec::new();
            let mut g = Gen::new(&mut c.rng);
            for e in ENUMS {
                for v in e.vals {
                    if let V::S(x) = v {
                        names.extend(near(x, &mut g));
                    }
                }
            }
            for x in DIST {
                names.extend(near(x, &mut g));
            }
            for _ in 0..50 {
                names.push(g.symbol());
            }
            names.sort();
            names.dedup();
            for n in &names {
                en_one(c, t, &R::sym(n))?;
                en_one(c, t, &R::str(n))?;
                if i < ts.len() as u64 {
                    open_one(c, n)?;
                }
            }
            Ok(())
        }
        _ => {
            // other types
            let t = &ts[i as usize % ts.len()];
            let mut g = Gen::with_budget(&mut c.rng, 100);
            let r = any_value(&mut g);
            if r == R::Null {
                return Ok(());
            }
            en_one(c, t, &r)
        }
    }
}

pub const C20: Prop = Prop {
    id: "C20",
    rule: "one evaluation = one wire value (member, 8/16/32-bit code, symbol near miss, other type) against one \
           enumeration; distinct = distinct (enumeration, bytes)",
    streams: |t| {
        vec![
            st("members", 10),
            st("codes", t.k(10 * 16, 10 * 400)),
            st("symbols", t.k(10, 60)),
            st("types", t.k(20_000, 400_000)),
        ]
    },
    run: c20,
};
