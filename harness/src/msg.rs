//! Reference model of AMQP messages (sections) and frames.

use crate::gen::Gen;
use crate::rng::Rng;
use crate::rval::*;
use crate::spec::*;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RMsg {
    pub header: Option<R>,
    pub da: Option<R>,
    pub ma: Option<R>,
    pub props: Option<R>,
    /// R::Map
    pub app: Option<R>,
    pub data: Vec<Vec<u8>>,
    pub seq: Vec<R>,
    pub value: Option<R>,
    pub footer: Option<R>,
}

pub fn gen_msg(g: &mut Gen) -> RMsg {
    let mut m = RMsg::default();
    let dens = g.rng.below(5);
    if g.rng.chance(dens, 4) {
        m.header = Some(gen_comp(&HEADER, g));
    }
    if g.rng.chance(dens, 4) {
        m.da = Some(g.sym_map());
    }
    if g.rng.chance(dens, 4) {
        m.ma = Some(g.sym_map());
    }
    if g.rng.chance(dens, 4) {
        m.props = Some(gen_comp(&PROPERTIES, g));
    }
    if g.rng.chance(dens, 4) {
        m.app = Some(g.str_map());
    }
    gen_body(g, &mut m);
    if g.rng.chance(dens, 4) {
        m.footer = Some(g.sym_map());
    }
    m
}

pub fn gen_body(g: &mut Gen, m: &mut RMsg) {
    match g.rng.below(5) {
        0 => {}
        1 | 2 => {
            let n = g.rng.range(1, 4);
            for _ in 0..n {
                m.data.push(g.bin());
            }
        }
        3 => {
            let n = g.rng.range(1, 3);
            for _ in 0..n {
                m.seq.push(g.list(2));
            }
        }
        _ => m.value = Some(g.value(3)),
    }
}

fn opt(v: &mut Vec<R>, code: u64, r: &Option<R>) {
    if let Some(x) = r {
        v.push(R::desc(code, x.clone()));
    }
}

impl RMsg {
    /// sections in the standard order; an absent body is absent
    pub fn sections(&self) -> Vec<R> {
        let mut v = Vec::new();
        v.extend(self.header.clone());
        opt(&mut v, 0x71, &self.da);
        opt(&mut v, 0x72, &self.ma);
        v.extend(self.props.clone());
        opt(&mut v, 0x74, &self.app);
        v.extend(self.body_sections());
        opt(&mut v, 0x78, &self.footer);
        v
    }

    pub fn body_sections(&self) -> Vec<R> {
        let mut v = Vec::new();
        for d in &self.data {
            v.push(R::desc(0x75, R::Bin(d.clone())));
        }
        for d in &self.seq {
            v.push(R::desc(0x76, d.clone()));
        }
        opt(&mut v, 0x77, &self.value);
        v
    }

    pub fn has_body(&self) -> bool {
        !(self.data.is_empty() && self.seq.is_empty() && self.value.is_none())
    }

    /// sections as the library is expected to emit them (empty body becomes one empty data section)
    pub fn emitted(&self) -> Vec<R> {
        let mut m = self.clone();
        if !m.has_body() {
            m.data.push(vec![]);
        }
        m.sections()
    }

    pub fn is_empty(&self) -> bool {
        self.sections().is_empty()
    }
}

pub fn section_sym(code: u64) -> &'static str {
    SECTION_SYMS.iter().find(|x| x.0 == code).unwrap().1
}

/// one section in a random legal form
pub fn enc_section(e: &mut Enc, s: &R, o: EncOpt) {
    if let R::Desc(d, v) = s {
        let code = match **d {
            R::U64(c) => c,
            _ => panic!("section"),
        };
        match code {
            0x70 => return enc_comp(e, &HEADER, s, o),
            0x73 => return enc_comp(e, &PROPERTIES, s, o),
            _ => {}
        }
        enc_descriptor(e, code, section_sym(code), o);
        e.value(v);
        return;
    }
    panic!("section")
}

pub fn enc_msg(m: &RMsg, rng: &mut Rng, o: EncOpt) -> Vec<u8> {
    enc_sections(&m.sections(), rng, o)
}

pub fn enc_sections(secs: &[R], rng: &mut Rng, o: EncOpt) -> Vec<u8> {
    let mut e = Enc::new(Form::Rand(rng));
    for s in secs {
        enc_section(&mut e, s, o);
    }
    e.out
}

/// bring a generically decoded section to logical form
pub fn norm_section(w: &R) -> Result<R, String> {
    if let R::Desc(d, v) = w {
        let code = match &**d {
            R::U64(c) => *c,
            R::Sym(s) => match SECTION_SYMS.iter().find(|x| x.1 == s) {
                Some(x) => x.0,
                None => return Err(format!("section descriptor {:?}", s)),
            },
            _ => return Err("section descriptor".to_string()),
        };
        match (code, &**v) {
            (0x70, _) => return norm_comp(&HEADER, w),
            (0x73, _) => return norm_comp(&PROPERTIES, w),
            (0x71, R::Map(m)) | (0x72, R::Map(m)) | (0x78, R::Map(m)) => {
                if !m.iter().all(|x| matches!(x.0, R::Sym(_))) {
                    return Err("annotation key that is no symbol".to_string());
                }
            }
            (0x74, R::Map(m)) => {
                if !m.iter().all(|x| matches!(x.0, R::Str(_))) {
                    return Err("application property key that is no string".to_string());
                }
            }
            (0x75, R::Bin(_)) | (0x76, R::List(_)) | (0x77, _) => {}
            _ => return Err(format!("section {:#x} holding a {}", code, v.kind())),
        }
        return Ok(R::desc(code, (**v).clone()));
    }
    Err(format!("{} where a section is expected", w.kind()))
}

/// strict independent parse of an encoded message; map entry order is kept
pub fn parse_sections(b: &[u8]) -> Result<Vec<R>, String> {
    let mut v = Vec::new();
    let mut d = Dec::new(b);
    while d.pos < b.len() {
        let at = d.pos;
        let w = d.value().map_err(|e| format!("section at {}: {}", at, e))?;
        if d.slack > 0 {
            return Err(format!("section at {}: size or count fields disagree with the contents", at));
        }
        v.push(norm_section(&w).map_err(|e| format!("section at {}: {}", at, e))?);
    }
    Ok(v)
}

pub fn sections_r(b: &[u8]) -> R {
    match parse_sections(b) {
        Ok(v) => R::List(v).canon(),
        Err(e) => R::Bad(e),
    }
}

// ------------------------------------------------------------ frames

#[derive(Clone, Debug, PartialEq)]
pub struct RFrame {
    pub channel: u16,
    /// None: empty (heartbeat) frame
    pub perf: Option<R>,
    pub payload: Option<Vec<u8>>,
}

impl RFrame {
    pub fn r(&self) -> R {
        R::List(vec![
            R::U16(self.channel),
            self.perf.clone().unwrap_or(R::Null),
            self.payload.clone().map(R::Bin).unwrap_or(R::Null),
        ])
    }
}

pub fn comp_by_code(code: u64) -> &'static Comp {
    ALL.iter().find(|c| c.code == code).unwrap()
}

pub fn code_of(r: &R) -> u64 {
    match r {
        R::Desc(d, _) => match **d {
            R::U64(c) => c,
            _ => 0,
        },
        _ => 0,
    }
}

pub fn gen_frame(g: &mut Gen) -> RFrame {
    let channel = g.uint(16) as u16;
    if g.rng.chance(1, 16) {
        return RFrame { channel, perf: None, payload: None };
    }
    let c = if g.rng.chance(1, 4) { &TRANSFER } else { *g.rng.pick(PERFORMATIVES) };
    let perf = gen_comp(c, g);
    let payload = if c.code == 0x14 && g.rng.chance(3, 4) {
        let b = g.bin();
        if b.is_empty() {
            None
        } else {
            Some(b)
        }
    } else {
        None
    };
    RFrame { channel, perf: Some(perf), payload }
}

pub fn gen_sasl(g: &mut Gen) -> R {
    let c = *g.rng.pick(SASL_BODIES);
    gen_comp(c, g)
}

/// whole frame incl. size; ext = extended header words
pub fn enc_frame(f: &RFrame, rng: &mut Rng, o: EncOpt, ext: usize) -> Vec<u8> {
    let mut body = Vec::new();
    if let Some(p) = &f.perf {
        let c = comp_by_code(code_of(p));
        body = comp_rand(c, p, rng, o);
        if let Some(x) = &f.payload {
            body.extend_from_slice(x);
        }
    }
    let extb = rng.bytes(ext * 4);
    wrap_frame(0, f.channel, &extb, &body)
}

pub fn enc_sasl(r: &R, rng: &mut Rng, o: EncOpt, ext: usize) -> Vec<u8> {
    let body = comp_rand(comp_by_code(code_of(r)), r, rng, o);
    let extb = rng.bytes(ext * 4);
    wrap_frame(1, 0, &extb, &body)
}

pub fn wrap_frame(ty: u8, channel: u16, ext: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    put_be(&mut v, (8 + ext.len() + body.len()) as u64, 4);
    v.push(2 + (ext.len() / 4) as u8);
    v.push(ty);
    put_be(&mut v, u64::from(channel), 2);
    v.extend_from_slice(ext);
    v.extend_from_slice(body);
    v
}

/// independent parse of one emitted frame at the start of `b`: (type, channel, perf, payload, length)
pub fn parse_frame(b: &[u8]) -> Result<(u8, u16, Option<R>, Vec<u8>, usize), String> {
    if b.len() < 8 {
        return Err(format!("{} bytes where a frame header is expected", b.len()));
    }
    let size = u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize;
    if size < 8 || size > b.len() {
        return Err(format!("frame size {} with {} bytes present", size, b.len()));
    }
    if b[4] != 2 {
        return Err(format!("data offset {}", b[4]));
    }
    let ch = u16::from_be_bytes([b[6], b[7]]);
    let body = &b[8..size];
    if body.is_empty() {
        return Ok((b[5], ch, None, vec![], size));
    }
    let mut d = Dec::new(body);
    let w = d.value().map_err(|e| format!("performative: {}", e))?;
    if d.slack > 0 {
        return Err("performative: size or count fields disagree with the contents".to_string());
    }
    let pos = d.pos;
    Ok((b[5], ch, Some(w), body[pos..].to_vec(), size))
}
