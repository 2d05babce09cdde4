//! C28: composites, frames and messages are equal exactly when their contents are.

use std::fmt::Debug;

use amqp_codec::protocol as p;
use amqp_codec::protocol::TransferBody;
use amqp_codec::{AmqpFrame, Decode, Encode, InMessage, OutMessage, SaslFrame};
use bytes::Bytes;

use super::msgs::{build, Msg};
use super::text::{clean, tweak};
use crate::by_comp;
use crate::conv::*;
use crate::ctx::*;
use crate::gen::Gen;
use crate::msg::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rval::*;
use crate::spec::*;

/// every pair, in both directions; `class[k]` says what value k holds
fn matrix<T: PartialEq + Debug>(c: &mut Ctx, what: &str, vs: &[(T, usize, &'static str)]) -> Res {
    if c.prints {
        let texts: Vec<String> = vs.iter().map(|x| format!("{:?}", x.0)).collect();
        for (i, (_, cx, hx)) in vs.iter().enumerate() {
            for (j, (_, cy, hy)) in vs.iter().enumerate() {
                if cx != cy {
                    ensure!(texts[i] != texts[j], "{}: different contents ({} and {}) print alike: {}", what, hx, hy, texts[i]);
                    c.count("unequal_pairs", 1);
                }
            }
        }
        c.evals += (vs.len() * vs.len()) as u64;
        return Ok(());
    }
    for (x, cx, hx) in vs {
        for (y, cy, hy) in vs {
            let (a, b) = (x == y, x != y);
            ensure!(
                a == (cx == cy),
                "{}: {} ({}) {} {} ({})",
                what,
                cut(x),
                hx,
                if a { "equals" } else { "does not equal" },
                cut(y),
                hy
            );
            ensure!(b != a, "{}: != is not the opposite of == on {} ({}) and {} ({})", what, cut(x), hx, cut(y), hy);
            c.count(if a { "equal_pairs" } else { "unequal_pairs" }, 1);
        }
    }
    c.evals += (vs.len() * vs.len()) as u64;
    Ok(())
}

fn cut<T: Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    s.chars().take(700).collect()
}

fn no_nan(r: &R) -> bool {
    match r {
        R::F32(b) => !f32::from_bits(*b).is_nan(),
        R::F64(b) => !f64::from_bits(*b).is_nan(),
        R::List(v) | R::Array(v) => v.iter().all(no_nan),
        R::Map(v) => v.iter().all(|x| no_nan(&x.0) && no_nan(&x.1)),
        R::Desc(_, v) => no_nan(v),
        _ => true,
    }
}

fn near_text(s: &str, rng: &mut Rng) -> String {
    let mut v: Vec<u8> = s.bytes().filter(|x| *x < 0x80).collect();
    match rng.below(8) {
        0 => v.push(b'a'),
        1 => {
            v.pop();
        }
        // same letters in another case, or more white space
        4 => {
            for x in v.iter_mut() {
                if x.is_ascii_alphabetic() {
                    *x ^= 0x20;
                    break;
                }
            }
        }
        5 => {
            for x in v.iter_mut() {
                *x = x.to_ascii_uppercase()
            }
        }
        6 => v.push(*rng.pick(b" \0\n\t")),
        7 => v.insert(0, b' '),
        2 => {
            if let Some(x) = v.last_mut() {
                *x = *x ^ 1 & 0x7f
            }
        }
        _ => {
            if let Some(x) = v.first_mut() {
                *x = *x ^ 1 & 0x7f
            }
        }
    }
    String::from_utf8(v).unwrap()
}

/// another value of the type, usually close to the one given
fn near(ty: &Ty, r: &R, d: &D, rng: &mut Rng) -> R {
    if let Some(x) = d.default() {
        if rng.chance(1, 6) {
            return x;
        }
    }
    if rng.bool() {
        let nv = match (ty, r) {
            (Ty::Comp(k), R::Desc(..)) => Some(near_comp(k, r, rng)),
            (Ty::OneOf(cs), R::Desc(..)) => {
                let code = code_of(r);
                cs.iter().find(|x| x.code == code).map(|k| near_comp(k, r, rng))
            }
            (Ty::Fields, R::Map(v)) | (Ty::AnyMap, R::Map(v)) | (Ty::Filter, R::Map(v)) if !v.is_empty() => {
                let mut v = v.clone();
                let i = rng.below(v.len());
                match (ty, rng.below(3)) {
                    (_, 0) => {
                        v.remove(i);
                    }
                    (_, 1) => {
                        let j = rng.below(v.len());
                        let x = v[i].1.clone();
                        v[i].1 = v[j].1.clone();
                        v[j].1 = x;
                    }
                    (Ty::Filter, _) => {
                        v[i].1 = match &v[i].1 {
                            R::Str(s) => R::Str(near_text(s, rng)),
                            _ => R::str("x"),
                        }
                    }
                    _ => v[i].1 = clean(tweak(&v[i].1, rng)),
                }
                Some(R::Map(v))
            }
            (Ty::MultiSym, R::Array(v)) if !v.is_empty() => {
                let mut v = v.clone();
                let i = rng.below(v.len());
                match rng.below(4) {
                    0 => {
                        v.remove(i);
                    }
                    1 => v.push(v[i].clone()),
                    2 => v.reverse(),
                    _ => {
                        if let R::Sym(s) = &v[i] {
                            v[i] = R::Sym(near_text(s, rng));
                        }
                    }
                }
                Some(R::Array(v))
            }
            (Ty::Bool, R::Bool(b)) => Some(R::Bool(!b)),
            (Ty::Ubyte, R::U8(x)) => Some(R::U8(x ^ 1 << rng.below(8))),
            (Ty::Ushort, R::U16(x)) => Some(R::U16(x ^ 1 << rng.below(16))),
            (Ty::Uint, R::U32(x)) => Some(R::U32(x ^ 1 << rng.below(32))),
            (Ty::Ulong, R::U64(x)) => Some(R::U64(x ^ 1 << rng.below(64))),
            (Ty::Ts, R::Ts(x)) => Some(R::Ts(if rng.bool() { x / 2 } else { x ^ 1 })),
            (Ty::Bin, R::Bin(b)) => {
                let mut b = b.clone();
                if b.is_empty() || rng.chance(1, 3) {
                    b.push(0)
                } else {
                    let i = rng.below(b.len());
                    b[i] ^= 1 << rng.below(8);
                }
                Some(R::Bin(b))
            }
            (Ty::Str, R::Str(s)) => Some(R::Str(near_text(s, rng))),
            (Ty::ErrCond, R::Sym(s)) | (Ty::DistMode, R::Sym(s)) | (Ty::Sym, R::Sym(s)) => Some(R::Sym(near_text(s, rng))),
            (Ty::MsgId, R::U64(x)) => Some(R::U64(x ^ 1)),
            (Ty::MsgId, R::Str(s)) => Some(if rng.bool() { R::Bin(s.clone().into_bytes()) } else { R::Str(near_text(s, rng)) }),
            (Ty::MsgId, R::Uuid(u)) => Some(R::Bin(u.to_vec())),
            _ => None,
        };
        if let Some(x) = nv {
            return x;
        }
    }
    gen_ty(ty, &mut Gen::with_budget(rng, 40))
}

fn near_comp(k: &'static Comp, r: &R, rng: &mut Rng) -> R {
    let mut v = comp_fields(r).clone();
    if v.is_empty() {
        return r.clone();
    }
    let i = rng.below(v.len());
    if rng.chance(1, 10) {
        // two fields of the same type exchanged
        let j = rng.below(v.len());
        if matches!(k.fields[i].1, Ty::Uint | Ty::Bool | Ty::Str | Ty::Ts) && std::mem::discriminant(&k.fields[i].1) == std::mem::discriminant(&k.fields[j].1) && v[i] != R::Null && v[j] != R::Null {
            v.swap(i, j);
            return R::desc(k.code, R::List(v));
        }
    }
    let f = &k.fields[i];
    v[i] = near(&f.1, &v[i], &f.2, rng);
    R::desc(k.code, R::List(v))
}

fn class_of(classes: &mut Vec<R>, r: &R) -> usize {
    let e = eq_class(r);
    match classes.iter().position(|x| *x == e) {
        Some(k) => k,
        None => {
            classes.push(e);
            classes.len() - 1
        }
    }
}

fn comp<T: CompT>(c: &mut Ctx, k: &'static Comp, r: R) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let mut rs = vec![r.clone()];
    for _ in 0..3 {
        let at = rng.below(rs.len());
        let x = near_comp(k, &rs[at].clone(), &mut rng);
        if dup_key(&eq_class(&x)).is_none() {
            rs.push(x);
        }
    }
    let mut classes = Vec::new();
    let mut vs: Vec<(T, usize, &'static str)> = Vec::new();
    for r in &rs {
        set_flavor(rng.u64());
        let x = T::from_r(r);
        let n = class_of(&mut classes, &x.to_r());
        let wire = comp_rand(k, r, &mut rng, FREE);
        let y = lib_dec::<T>(&wire).map_err(|e| format!("{} {} refused: {}", k.name, hex(&wire), e))?.0;
        set_flavor(rng.u64());
        vs.push((T::from_r(r), n, "made again"));
        vs.push((x.clone(), n, "cloned"));
        vs.push((x, n, "made"));
        vs.push((y, n, "decoded"));
    }
    c.obs(mix(hash_bytes(&enc_min(&rs[0])) ^ hash_bytes(&enc_min(&rs[rs.len() - 1])).rotate_left(3)), true, || {
        format!("{}: {}", k.name, rs.iter().map(|x| x.show()).collect::<Vec<_>>().join(" / "))
    });
    c.count("kinds_of_contents", classes.len() as u64);
    matrix(c, k.name, &vs)
}

fn frame_near(f: &RFrame, rng: &mut Rng) -> RFrame {
    let mut f = f.clone();
    match rng.below(5) {
        0 => f.channel ^= 1 << rng.below(16),
        1 => {
            let g = gen_frame(&mut Gen::with_budget(rng, 60));
            f.perf = g.perf;
            f.payload = g.payload;
        }
        2 if f.payload.is_some() => {
            let mut b = f.payload.take().unwrap();
            match rng.below(3) {
                0 => b.push(0),
                1 if b.len() > 1 => {
                    b.pop();
                }
                _ => {
                    let i = rng.below(b.len());
                    b[i] ^= 1;
                }
            }
            f.payload = Some(b);
        }
        3 if f.payload.is_some() => f.payload = None,
        _ => {
            if let Some(r) = &f.perf {
                f.perf = Some(near_comp(comp_by_code(code_of(r)), r, rng));
            }
        }
    }
    f
}

fn frames(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let mut fs = vec![gen_frame(&mut Gen::with_budget(&mut rng, 200))];
    for _ in 0..4 {
        let at = rng.below(fs.len());
        let f = frame_near(&fs[at].clone(), &mut rng);
        if dup_key(&eq_class(&f.r())).is_none() {
            fs.push(f);
        }
    }
    let mut classes = Vec::new();
    let mut perfs = Vec::new();
    let mut vs: Vec<(AmqpFrame, usize, &'static str)> = Vec::new();
    let mut ps: Vec<(p::Frame, usize, &'static str)> = Vec::new();
    for f in &fs {
        set_flavor(rng.u64());
        let x = AmqpFrame::from_r(&f.r());
        let n = class_of(&mut classes, &x.to_r());
        let m = class_of(&mut perfs, &x.performative().to_r());
        let wire = enc_frame(f, &mut rng, FREE, 0);
        let y = lib_dec::<AmqpFrame>(&wire[4..]).map_err(|e| format!("frame {} refused: {}", hex(&wire), e))?.0;
        ps.push((x.performative().clone(), m, "made"));
        ps.push((y.performative().clone(), m, "decoded"));
        vs.push((x.clone(), n, "cloned"));
        vs.push((x, n, "made"));
        vs.push((y, n, "decoded"));
    }
    c.obs(mix(hash_bytes(&enc_min(&fs[0].r())) ^ hash_bytes(&enc_min(&fs[fs.len() - 1].r())).rotate_left(3)), true, || {
        fs.iter().map(|x| x.r().show()).collect::<Vec<_>>().join(" / ")
    });
    matrix(c, "frame", &vs)?;
    matrix(c, "performative", &ps)
}

fn sasl(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let mut rs = vec![gen_sasl(&mut Gen::with_budget(&mut rng, 100))];
    for _ in 0..4 {
        let r = rng.pick(&rs).clone();
        let r = if rng.chance(1, 4) {
            gen_sasl(&mut Gen::with_budget(&mut rng, 30))
        } else {
            near_comp(comp_by_code(code_of(&r)), &r, &mut rng)
        };
        rs.push(r);
    }
    // the same bytes as challenge and as response
    let b = Gen::with_budget(&mut rng, 30).bin();
    rs.push(R::desc(0x42, R::List(vec![R::Bin(b.clone())])));
    rs.push(R::desc(0x43, R::List(vec![R::Bin(b)])));
    let mut classes = Vec::new();
    let mut vs: Vec<(SaslFrame, usize, &'static str)> = Vec::new();
    let mut bs: Vec<(p::SaslFrameBody, usize, &'static str)> = Vec::new();
    for r in &rs {
        set_flavor(rng.u64());
        let x = SaslFrame::from_r(r);
        let n = class_of(&mut classes, &x.to_r());
        let wire = enc_sasl(r, &mut rng, FREE, 0);
        let y = lib_dec::<SaslFrame>(&wire[4..]).map_err(|e| format!("SASL frame {} refused: {}", hex(&wire), e))?.0;
        bs.push((x.body.clone(), n, "made"));
        vs.push((x, n, "made"));
        vs.push((y, n, "decoded"));
    }
    c.obs(mix(hash_bytes(&enc_min(&rs[0])) ^ hash_bytes(&enc_min(&rs[3])).rotate_left(3)), true, || {
        rs.iter().map(|x| x.show()).collect::<Vec<_>>().join(" / ")
    });
    matrix(c, "SASL frame", &vs)?;
    matrix(c, "SASL frame body", &bs)
}

/// delivery states, outcomes and sections share their composites
fn unions(c: &mut Ctx) -> Res {
    let mut rng = Rng::new(&[c.rng.u64()]);
    let mut rs = Vec::new();
    for _ in 0..3 {
        let k = *rng.pick(OUTCOMES);
        let r = gen_comp(k, &mut Gen::with_budget(&mut rng, 60));
        rs.push(near_comp(k, &r, &mut rng));
        rs.push(r);
    }
    rs.push(R::desc(0x24, R::List(vec![])));
    rs.push(R::desc(0x26, R::List(vec![])));
    let rs: Vec<R> = rs.into_iter().filter(|r| dup_key(&eq_class(r)).is_none()).collect();
    let mut classes = Vec::new();
    let mut os: Vec<(p::Outcome, usize, &'static str)> = Vec::new();
    let mut ds: Vec<(p::DeliveryState, usize, &'static str)> = Vec::new();
    for r in &rs {
        set_flavor(rng.u64());
        let x = p::Outcome::from_r(r);
        let n = class_of(&mut classes, &x.to_r());
        let wire = comp_rand(comp_by_code(code_of(r)), r, &mut rng, FREE);
        let err = |e| format!("{} refused: {}", hex(&wire), e);
        os.push((x, n, "made"));
        os.push((lib_dec::<p::Outcome>(&wire).map_err(err)?.0, n, "decoded"));
        ds.push((p::DeliveryState::from_r(r), n, "made"));
        ds.push((lib_dec::<p::DeliveryState>(&wire).map_err(err)?.0, n, "decoded"));
    }
    let a = gen_comp(&RECEIVED, &mut Gen::new(&mut rng));
    let b = near_comp(&RECEIVED, &a, &mut rng);
    for r in &[a, b] {
        let n = class_of(&mut classes, r);
        ds.push((p::DeliveryState::from_r(r), n, "made"));
    }
    c.obs(mix(hash_bytes(&enc_min(&R::List(rs.clone())))), true, || R::List(rs.clone()).show());
    matrix(c, "Outcome", &os)?;
    matrix(c, "DeliveryState", &ds)
}

// ------------------------------------------------------------ messages

/// one part of a message changed
fn msg_near(m: &RMsg, rng: &mut Rng) -> RMsg {
    let mut m = m.clone();
    let map = |o: &mut Option<R>, str_keys: bool, rng: &mut Rng| {
        let fresh = {
            let mut g = Gen::with_budget(rng, 50);
            if str_keys {
                g.str_map()
            } else {
                g.sym_map()
            }
        };
        *o = match o.take() {
            None => Some(fresh),
            Some(_) if rng.chance(1, 4) => None,
            Some(R::Map(mut v)) if !v.is_empty() => {
                let i = rng.below(v.len());
                match rng.below(3) {
                    0 => {
                        v.remove(i);
                    }
                    1 => v[i].1 = clean(tweak(&v[i].1, rng)),
                    _ => v.reverse(),
                }
                Some(R::Map(v))
            }
            Some(_) => Some(fresh),
        };
    };
    match rng.below(10) {
        0 => {
            m.header = match &m.header {
                None => Some(gen_comp(&HEADER, &mut Gen::with_budget(rng, 30))),
                Some(_) if rng.chance(1, 4) => None,
                Some(h) => Some(near_comp(&HEADER, h, rng)),
            }
        }
        1 => map(&mut m.da, false, rng),
        2 => map(&mut m.ma, false, rng),
        3 => {
            m.props = match &m.props {
                None => Some(gen_comp(&PROPERTIES, &mut Gen::with_budget(rng, 60))),
                Some(_) if rng.chance(1, 4) => None,
                Some(h) => Some(near_comp(&PROPERTIES, h, rng)),
            }
        }
        4 => map(&mut m.app, true, rng),
        5 => map(&mut m.footer, false, rng),
        6 => {
            // the same content in another kind of section
            if let (Some(a), None) = (m.da.clone(), &m.footer) {
                m.footer = Some(a);
                m.da = None;
            } else if let (Some(a), None) = (m.footer.clone(), &m.ma) {
                m.ma = Some(a);
                m.footer = None;
            } else if let (Some(a), None) = (m.ma.clone(), &m.da) {
                m.da = Some(a);
                m.ma = None;
            }
        }
        _ => {
            if !m.data.is_empty() {
                let i = rng.below(m.data.len());
                match rng.below(5) {
                    0 => m.data.push(vec![]),
                    1 => {
                        if m.data.len() > 1 {
                            m.data.remove(i);
                        }
                    }
                    2 => m.data.reverse(),
                    3 => m.data[i].push(0),
                    _ => {
                        if let Some(x) = m.data[i].last_mut() {
                            *x ^= 1
                        }
                    }
                }
            } else if !m.seq.is_empty() {
                let i = rng.below(m.seq.len());
                match rng.below(4) {
                    0 => m.seq.push(R::List(vec![])),
                    1 => m.seq.reverse(),
                    _ => {
                        let x = tweak(&m.seq[i], rng);
                        if let R::List(_) = x {
                            m.seq[i] = clean(x);
                        }
                    }
                }
                for x in m.seq.iter_mut() {
                    if *x == R::Null {
                        *x = R::List(vec![]);
                    }
                }
            } else if let Some(v) = &m.value {
                m.value = Some(clean(tweak(v, rng)));
            } else {
                gen_body(&mut Gen::with_budget(rng, 60), &mut m);
            }
        }
    }
    m
}

fn messages<M: Msg>(c: &mut Ctx, ordered_app: bool) -> Res
where
    TransferBody: From<M>,
{
    let mut rng = Rng::new(&[c.rng.u64()]);
    let mut ms: Vec<(RMsg, Option<u32>)> = vec![(gen_msg(&mut Gen::with_budget(&mut rng, 200)), None)];
    for _ in 0..4 {
        let (m, f) = rng.pick(&ms).clone();
        let x = if rng.chance(1, 7) {
            let f = match f {
                None => Some(rng.below(3) as u32),
                Some(x) if rng.bool() => Some(x ^ 1 << rng.below(32)),
                _ => None,
            };
            (m, f)
        } else {
            (msg_near(&m, &mut rng), f)
        };
        ms.push(x);
    }
    let legal = |m: &RMsg| {
        let r = R::List(m.sections());
        no_nan(&r) && dup_key(&eq_class(&r)).is_none() && !m.is_empty()
    };
    let ms: Vec<_> = ms.into_iter().filter(|x| legal(&x.0)).collect();
    if ms.is_empty() {
        return Ok(());
    }
    let mut classes = Vec::new();
    let mut vs: Vec<(M, usize, &'static str)> = Vec::new();
    let mut ts: Vec<(TransferBody, usize, &'static str)> = Vec::new();
    for (m, f) in &ms {
        let fr = f.map(R::U32).unwrap_or(R::Null);
        set_flavor(rng.u64());
        let wire = enc_msg(m, &mut rng, FREE);
        let mut x = lib_dec::<M>(&wire).map_err(|e| format!("message {} refused: {}", hex(&wire), e))?.0;
        *x.format() = *f;
        // the order of application properties is part of an outgoing message
        let mut class = |x: &M| {
            let app = if ordered_app { x.app(&[]) } else { None };
            let app = app.unwrap_or_default().into_iter().map(|(a, b)| R::List(vec![a, b])).collect();
            class_of(&mut classes, &R::List(vec![R::List(m.sections()), fr.clone(), R::List(app)]))
        };
        let n = class(&x);
        if rng.bool() {
            x.encoded_size();
        }
        ts.push((x.clone().into(), n, "wrapped"));
        vs.push((x.clone(), n, "cloned"));
        // there and back again through a builder call
        let same = x.clone().set_body(|_| ());
        vs.push((same, n, "touched"));
        if m.da.is_none() && m.ma.is_none() && m.footer.is_none() && m.app != Some(R::Map(vec![])) {
            set_flavor(rng.u64());
            let mut y = build::<M>(m);
            *y.format() = *f;
            let k = class(&y);
            vs.push((y, k, "built"));
        }
        x.encoded_size();
        vs.push((x, n, "decoded"));
    }
    ts.push((TransferBody::Data(Bytes::from(enc_msg(&ms[0].0, &mut rng, FREE))), usize::max_value(), "raw"));
    c.obs(mix(hash_bytes(&enc_min(&R::List(ms[0].0.sections()))) ^ hash_bytes(&enc_min(&R::List(ms[ms.len() - 1].0.sections()))).rotate_left(3)), true, || {
        format!("{}: {}", M::NAME, ms.iter().map(|x| R::List(x.0.sections()).show()).collect::<Vec<_>>().join(" / "))
    });
    matrix(c, M::NAME, &vs)?;
    matrix(c, "TransferBody", &ts)
}

fn c28(c: &mut Ctx, s: &str, i: u64) -> Res {
    match s {
        "composites" => {
            let k = ALL[(i % ALL.len() as u64) as usize];
            let mut g = Gen::with_budget(&mut c.rng, 150);
            let r = gen_comp(k, &mut g);
            if dup_key(&eq_class(&r)).is_some() {
                return Ok(());
            }
            by_comp!(k, comp(c, k, r))
        }
        "frames" => frames(c),
        "sasl" => sasl(c),
        "unions" => unions(c),
        "messages" => {
            if i % 2 == 0 {
                messages::<InMessage>(c, false)
            } else {
                messages::<OutMessage>(c, true)
            }
        }
        _ => unreachable!(),
    }
}

pub const C28: Prop = Prop {
    id: "C28",
    rule: "one evaluation = one ordered pair of composites, frames, delivery states or messages with equal, nearly equal or \
           different contents, made, cloned, decoded or built; == and != compared with equality of the contents; \
           distinct = distinct families of contents",
    streams: |t| {
        vec![
            st("composites", t.k(24 * 500, 24 * 20_000)),
            st("frames", t.k(3_000, 100_000)),
            st("sasl", t.k(1_500, 50_000)),
            st("unions", t.k(1_500, 50_000)),
            st("messages", t.k(6_000, 200_000)),
        ]
    },
    run: c28,
};

#[allow(dead_code)]
fn assert_codec<T: Encode + Decode>() {}
