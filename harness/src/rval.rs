//! Reference model of AMQP 1.0 values, with an independent encoder (choosing among all
//! legal encodings) and an independent decoder. Nothing here uses the crate under test.

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum R {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    Char(u32),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<R>),
    Map(Vec<(R, R)>),
    Array(Vec<R>),
    Desc(Box<R>, Box<R>),
    /// an observed value that denotes nothing legal (e.g. a date that is no whole millisecond)
    Bad(String),
}

impl R {
    pub fn desc(code: u64, v: R) -> R {
        R::Desc(Box::new(R::U64(code)), Box::new(v))
    }
    pub fn str(s: &str) -> R {
        R::Str(s.to_string())
    }
    pub fn sym(s: &str) -> R {
        R::Sym(s.to_string())
    }
    /// maps sorted by key, recursively
    pub fn canon(self) -> R {
        match self {
            R::List(v) => R::List(v.into_iter().map(R::canon).collect()),
            R::Array(v) => R::Array(v.into_iter().map(R::canon).collect()),
            R::Map(v) => {
                let mut v: Vec<(R, R)> = v.into_iter().map(|(a, b)| (a.canon(), b.canon())).collect();
                v.sort();
                R::Map(v)
            }
            R::Desc(a, b) => R::Desc(Box::new(a.canon()), Box::new(b.canon())),
            x => x,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            R::List(v) | R::Array(v) => 1 + v.iter().map(R::depth).max().unwrap_or(0),
            R::Map(v) => 1 + v.iter().map(|(a, b)| a.depth().max(b.depth())).max().unwrap_or(0),
            R::Desc(_, b) => 1 + b.depth(),
            _ => 0,
        }
    }
    pub fn nodes(&self) -> usize {
        match self {
            R::List(v) | R::Array(v) => 1 + v.iter().map(R::nodes).sum::<usize>(),
            R::Map(v) => 1 + v.iter().map(|(a, b)| a.nodes() + b.nodes()).sum::<usize>(),
            R::Desc(_, b) => 1 + b.nodes(),
            _ => 1,
        }
    }
    pub fn is_container(&self) -> bool {
        match self {
            R::List(_) | R::Map(_) | R::Array(_) | R::Desc(..) => true,
            _ => false,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            R::Null => "null",
            R::Bool(_) => "bool",
            R::U8(_) => "ubyte",
            R::U16(_) => "ushort",
            R::U32(_) => "uint",
            R::U64(_) => "ulong",
            R::I8(_) => "byte",
            R::I16(_) => "short",
            R::I32(_) => "int",
            R::I64(_) => "long",
            R::F32(_) => "float",
            R::F64(_) => "double",
            R::Char(_) => "char",
            R::Ts(_) => "timestamp",
            R::Uuid(_) => "uuid",
            R::Bin(_) => "binary",
            R::Str(_) => "string",
            R::Sym(_) => "symbol",
            R::List(_) => "list",
            R::Map(_) => "map",
            R::Array(_) => "array",
            R::Desc(..) => "described",
            R::Bad(_) => "bad",
        }
    }
    /// bounded rendering for messages
    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self);
        if s.len() > 400 {
            let mut n = 400;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        s
    }
}

// ---------------------------------------------------------------- encoding

pub enum Form<'a> {
    Min,
    Max,
    Rand(&'a mut Rng),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CKind {
    List,
    Map,
    Array,
    Composite,
    Blob,
}

/// Where a size-prefixed thing lies in an encoding
#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub kind: CKind,
    pub size_pos: usize,
    pub width: usize,
    /// first byte after the count (for blobs: after the size)
    pub body: usize,
    pub end: usize,
    /// for blobs: 0 binary, 1 string, 2 symbol
    pub count: usize,
    pub depth: usize,
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    pub form: Form<'a>,
    pub marks: Vec<Mark>,
    pub depth: usize,
    /// constructor for the elements of an empty array
    pub empty_ctor: u8,
}

pub fn put_be(out: &mut Vec<u8>, v: u64, w: usize) {
    out.extend_from_slice(&v.to_be_bytes()[8 - w..]);
}

/// legal constructors of a value, shortest first (compound ones are filtered by size later)
pub fn ctors(r: &R) -> Vec<u8> {
    match r {
        R::Null => vec![0x40],
        R::Bool(true) => vec![0x41, 0x56],
        R::Bool(false) => vec![0x42, 0x56],
        R::U8(_) => vec![0x50],
        R::U16(_) => vec![0x60],
        R::U32(0) => vec![0x43, 0x52, 0x70],
        R::U32(v) if *v < 256 => vec![0x52, 0x70],
        R::U32(_) => vec![0x70],
        R::U64(0) => vec![0x44, 0x53, 0x80],
        R::U64(v) if *v < 256 => vec![0x53, 0x80],
        R::U64(_) => vec![0x80],
        R::I8(_) => vec![0x51],
        R::I16(_) => vec![0x61],
        R::I32(v) if *v >= -128 && *v <= 127 => vec![0x54, 0x71],
        R::I32(_) => vec![0x71],
        R::I64(v) if *v >= -128 && *v <= 127 => vec![0x55, 0x81],
        R::I64(_) => vec![0x81],
        R::F32(_) => vec![0x72],
        R::F64(_) => vec![0x82],
        R::Char(_) => vec![0x73],
        R::Ts(_) => vec![0x83],
        R::Uuid(_) => vec![0x98],
        R::Bin(b) if b.len() < 256 => vec![0xa0, 0xb0],
        R::Bin(_) => vec![0xb0],
        R::Str(b) if b.len() < 256 => vec![0xa1, 0xb1],
        R::Str(_) => vec![0xb1],
        R::Sym(b) if b.len() < 256 => vec![0xa3, 0xb3],
        R::Sym(_) => vec![0xb3],
        R::List(v) if v.is_empty() => vec![0x45, 0xc0, 0xd0],
        R::List(v) if v.len() < 256 => vec![0xc0, 0xd0],
        R::List(_) => vec![0xd0],
        R::Map(v) if v.len() < 128 => vec![0xc1, 0xd1],
        R::Map(_) => vec![0xd1],
        R::Array(v) if v.len() < 256 => vec![0xe0, 0xf0],
        R::Array(_) => vec![0xf0],
        R::Desc(..) => vec![0x00],
        R::Bad(_) => panic!("cannot encode R::Bad"),
    }
}

impl<'a> Enc<'a> {
    pub fn new(form: Form<'a>) -> Enc<'a> {
        Enc { out: Vec::new(), form, marks: Vec::new(), depth: 0, empty_ctor: 0xa3 }
    }

    pub fn choose(&mut self, n: usize) -> usize {
        match self.form {
            Form::Min => 0,
            Form::Max => n - 1,
            Form::Rand(ref mut r) => r.below(n),
        }
    }

    pub fn value(&mut self, r: &R) {
        if let R::Desc(d, v) = r {
            self.out.push(0);
            self.value(d);
            self.depth += 1;
            self.value(v);
            self.depth -= 1;
            return;
        }
        if let R::Bad(h) = r {
            // deliberately faulty bytes, written as hex
            self.out.extend_from_slice(&unhex(h));
            return;
        }
        let cs = ctors(r);
        let i = self.choose(cs.len());
        self.with_ctor(&cs, i, r);
    }

    /// write constructor `cs[i]` (or the next wider one that fits) and the payload
    fn with_ctor(&mut self, cs: &[u8], i: usize, r: &R) {
        match r {
            R::List(_) | R::Map(_) | R::Array(_) => {
                let (body, count, kind) = self.content(r);
                let mut c = cs[i];
                if body.0.len() + 1 > 255 || count > 255 {
                    c = *cs.last().unwrap();
                }
                self.out.push(c);
                if c != 0x45 {
                    self.compound(c >= 0xd0 && c != 0xe0, count, body, kind);
                }
            }
            _ => {
                self.out.push(cs[i]);
                self.payload(cs[i], r);
            }
        }
    }

    /// encode the elements of a compound into a scratch buffer (marks relative to it)
    pub fn scratch<F: FnOnce(&mut Self)>(&mut self, f: F) -> (Vec<u8>, Vec<Mark>) {
        let out = std::mem::replace(&mut self.out, Vec::new());
        let marks = std::mem::replace(&mut self.marks, Vec::new());
        self.depth += 1;
        f(self);
        self.depth -= 1;
        let body = std::mem::replace(&mut self.out, out);
        let bm = std::mem::replace(&mut self.marks, marks);
        (body, bm)
    }

    fn content(&mut self, r: &R) -> ((Vec<u8>, Vec<Mark>), usize, CKind) {
        match r {
            R::List(v) => {
                let b = self.scratch(|e| {
                    for x in v {
                        e.value(x)
                    }
                });
                (b, v.len(), CKind::List)
            }
            R::Map(v) => {
                let b = self.scratch(|e| {
                    for (k, x) in v {
                        e.value(k);
                        e.value(x);
                    }
                });
                (b, v.len() * 2, CKind::Map)
            }
            R::Array(v) => {
                let b = self.scratch(|e| e.array_body(v));
                (b, v.len(), CKind::Array)
            }
            _ => unreachable!(),
        }
    }

    fn array_body(&mut self, v: &[R]) {
        if v.is_empty() {
            let c = self.empty_ctor;
            self.out.push(c);
            return;
        }
        // constructors every element can be written with
        let mut cs = ctors(&v[0]);
        for x in &v[1..] {
            let c2 = ctors(x);
            cs.retain(|c| c2.contains(c));
        }
        assert!(!cs.is_empty(), "array elements share no constructor: {:?}", v);
        let i = self.choose(cs.len());
        let mut c = cs[i];
        if v[0].is_container() {
            assert!(!matches!(v[0], R::Desc(..) | R::Array(_)));
            let parts: Vec<_> = v.iter().map(|x| self.content(x)).collect();
            if c != 0x45 && parts.iter().any(|p| p.0 .0.len() + 1 > 255 || p.1 > 255) {
                c = *cs.last().unwrap();
            }
            self.out.push(c);
            for (b, n, k) in parts {
                if c != 0x45 {
                    self.compound(c >= 0xd0 && c != 0xe0, n, b, k);
                }
            }
        } else {
            self.out.push(c);
            for x in v {
                self.payload(c, x);
            }
        }
    }

    /// size, count, body
    pub fn compound(&mut self, wide: bool, count: usize, body: (Vec<u8>, Vec<Mark>), kind: CKind) {
        let w = if wide { 4 } else { 1 };
        let size_pos = self.out.len();
        put_be(&mut self.out, (body.0.len() + w) as u64, w);
        put_be(&mut self.out, count as u64, w);
        let start = self.out.len();
        self.out.extend_from_slice(&body.0);
        self.marks.push(Mark {
            kind,
            size_pos,
            width: w,
            body: start,
            end: self.out.len(),
            count,
            depth: self.depth,
        });
        for mut m in body.1 {
            m.size_pos += start;
            m.body += start;
            m.end += start;
            self.marks.push(m);
        }
    }

    /// `text`: 0 binary, 1 string, 2 symbol
    fn blob(&mut self, c: u8, b: &[u8], text: usize) {
        let w = if c >= 0xb0 { 4 } else { 1 };
        let size_pos = self.out.len();
        put_be(&mut self.out, b.len() as u64, w);
        let body = self.out.len();
        self.out.extend_from_slice(b);
        let end = self.out.len();
        self.marks.push(Mark { kind: CKind::Blob, size_pos, width: w, body, end, count: text, depth: self.depth });
    }

    /// payload of a non-compound value under constructor c
    pub fn payload(&mut self, c: u8, r: &R) {
        match r {
            R::Null => {}
            R::Bool(b) => {
                if c == 0x56 {
                    self.out.push(*b as u8)
                }
            }
            R::U8(v) => self.out.push(*v),
            R::U16(v) => put_be(&mut self.out, u64::from(*v), 2),
            R::U32(v) => match c {
                0x70 => put_be(&mut self.out, u64::from(*v), 4),
                0x52 => self.out.push(*v as u8),
                _ => {}
            },
            R::U64(v) => match c {
                0x80 => put_be(&mut self.out, *v, 8),
                0x53 => self.out.push(*v as u8),
                _ => {}
            },
            R::I8(v) => self.out.push(*v as u8),
            R::I16(v) => put_be(&mut self.out, *v as u16 as u64, 2),
            R::I32(v) => {
                if c == 0x71 {
                    put_be(&mut self.out, *v as u32 as u64, 4)
                } else {
                    self.out.push(*v as i8 as u8)
                }
            }
            R::I64(v) => {
                if c == 0x81 {
                    put_be(&mut self.out, *v as u64, 8)
                } else {
                    self.out.push(*v as i8 as u8)
                }
            }
            R::F32(v) => put_be(&mut self.out, u64::from(*v), 4),
            R::F64(v) => put_be(&mut self.out, *v, 8),
            R::Char(v) => put_be(&mut self.out, u64::from(*v), 4),
            R::Ts(v) => put_be(&mut self.out, *v as u64, 8),
            R::Uuid(v) => self.out.extend_from_slice(v),
            R::Bin(b) => self.blob(c, b, 0),
            R::Str(s) => self.blob(c, s.as_bytes(), 1),
            R::Sym(s) => self.blob(c, s.as_bytes(), 2),
            _ => unreachable!(),
        }
    }
}

pub fn enc_min(r: &R) -> Vec<u8> {
    let mut e = Enc::new(Form::Min);
    e.value(r);
    e.out
}

pub fn enc_max(r: &R) -> Vec<u8> {
    let mut e = Enc::new(Form::Max);
    e.value(r);
    e.out
}

pub fn enc_rand(r: &R, rng: &mut Rng) -> Vec<u8> {
    let mut e = Enc::new(Form::Rand(rng));
    e.value(r);
    e.out
}

// ---------------------------------------------------------------- decoding

/// Independent decoder. `slack` counts departures from the standard a lenient reader may
/// tolerate (bytes after the last element inside a compound, odd map counts, duplicate keys).
pub struct Dec<'b> {
    pub b: &'b [u8],
    pub pos: usize,
    pub end: usize,
    pub slack: usize,
    pub depth: usize,
    pub max_depth: usize,
    /// the verdict is outside what this decoder models
    pub unsure: bool,
}

type DR<T> = Result<T, String>;

impl<'b> Dec<'b> {
    pub fn new(b: &'b [u8]) -> Dec<'b> {
        Dec { b, pos: 0, end: b.len(), slack: 0, depth: 0, max_depth: 600, unsure: false }
    }

    pub fn take(&mut self, n: usize) -> DR<&'b [u8]> {
        if self.end - self.pos < n {
            return Err(format!("needs {} bytes at {}, {} left", n, self.pos, self.end - self.pos));
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }

    pub fn be(&mut self, w: usize) -> DR<u64> {
        Ok(self.take(w)?.iter().fold(0u64, |a, x| (a << 8) | u64::from(*x)))
    }

    pub fn value(&mut self) -> DR<R> {
        let c = self.take(1)?[0];
        if c == 0 {
            self.enter()?;
            let d = self.value()?;
            match d {
                R::U64(_) | R::Sym(_) => {}
                _ => return Err(format!("descriptor of type {}", d.kind())),
            }
            let v = self.value()?;
            self.depth -= 1;
            return Ok(R::Desc(Box::new(d), Box::new(v)));
        }
        self.payload(c)
    }

    fn enter(&mut self) -> DR<()> {
        self.depth += 1;
        if self.depth > self.max_depth {
            self.unsure = true;
            return Err("reference decoder: nesting limit".to_string());
        }
        Ok(())
    }

    /// (end of the declared bytes, count); pos is left at the first body byte
    pub fn compound(&mut self, w: usize) -> DR<(usize, usize)> {
        let size = self.be(w)? as usize;
        if size < w {
            return Err(format!("size {} smaller than its count field", size));
        }
        if self.end - self.pos < size {
            return Err(format!("size {} exceeds the {} bytes available", size, self.end - self.pos));
        }
        let end = self.pos + size;
        let count = self.be(w)? as usize;
        Ok((end, count))
    }

    fn text(&mut self, w: usize) -> DR<String> {
        let n = self.be(w)? as usize;
        let b = self.take(n)?;
        String::from_utf8(b.to_vec()).map_err(|e| format!("invalid utf-8: {}", e))
    }

    pub fn payload(&mut self, c: u8) -> DR<R> {
        Ok(match c {
            0x40 => R::Null,
            0x41 => R::Bool(true),
            0x42 => R::Bool(false),
            0x43 => R::U32(0),
            0x44 => R::U64(0),
            0x45 => R::List(vec![]),
            0x50 => R::U8(self.be(1)? as u8),
            0x51 => R::I8(self.be(1)? as u8 as i8),
            0x52 => R::U32(self.be(1)? as u32),
            0x53 => R::U64(self.be(1)?),
            0x54 => R::I32(i32::from(self.be(1)? as u8 as i8)),
            0x55 => R::I64(i64::from(self.be(1)? as u8 as i8)),
            0x56 => match self.be(1)? {
                0 => R::Bool(false),
                1 => R::Bool(true),
                _ => {
                    self.slack += 1;
                    R::Bool(true)
                }
            },
            0x60 => R::U16(self.be(2)? as u16),
            0x61 => R::I16(self.be(2)? as u16 as i16),
            0x70 => R::U32(self.be(4)? as u32),
            0x71 => R::I32(self.be(4)? as u32 as i32),
            0x72 => R::F32(self.be(4)? as u32),
            0x73 => {
                let v = self.be(4)? as u32;
                if v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) {
                    return Err(format!("char {:#x}", v));
                }
                R::Char(v)
            }
            0x80 => R::U64(self.be(8)?),
            0x81 => R::I64(self.be(8)? as i64),
            0x82 => R::F64(self.be(8)?),
            0x83 => R::Ts(self.be(8)? as i64),
            0x98 => {
                let mut u = [0u8; 16];
                u.copy_from_slice(self.take(16)?);
                R::Uuid(u)
            }
            0xa0 | 0xb0 => {
                let n = self.be(if c == 0xa0 { 1 } else { 4 })? as usize;
                R::Bin(self.take(n)?.to_vec())
            }
            0xa1 => R::Str(self.text(1)?),
            0xb1 => R::Str(self.text(4)?),
            0xa3 => R::Sym(self.text(1)?),
            0xb3 => R::Sym(self.text(4)?),
            0xc0 | 0xd0 => {
                let (end, count) = self.compound(if c == 0xc0 { 1 } else { 4 })?;
                let outer = self.bound(end)?;
                let mut v = Vec::new();
                for _ in 0..count {
                    v.push(self.value()?);
                }
                self.unbound(outer, end);
                R::List(v)
            }
            0xc1 | 0xd1 => {
                let (end, count) = self.compound(if c == 0xc1 { 1 } else { 4 })?;
                let outer = self.bound(end)?;
                if count % 2 == 1 {
                    self.slack += 1;
                }
                let mut v = Vec::new();
                for _ in 0..count / 2 {
                    let k = self.value()?;
                    let x = self.value()?;
                    v.push((k, x));
                }
                self.unbound(outer, end);
                R::Map(v)
            }
            0xe0 | 0xf0 => {
                let (end, count) = self.compound(if c == 0xe0 { 1 } else { 4 })?;
                let outer = self.bound(end)?;
                let ec = self.take(1)?[0];
                if ec == 0 {
                    self.unsure = true;
                    return Err("described array elements".to_string());
                }
                if count > 1 << 20 {
                    self.unsure = true;
                    return Err("array count over a million".to_string());
                }
                let mut v = Vec::new();
                for _ in 0..count {
                    v.push(self.payload(ec)?);
                }
                self.unbound(outer, end);
                R::Array(v)
            }
            _ => return Err(format!("unknown constructor {:#04x}", c)),
        })
    }

    pub fn bound(&mut self, end: usize) -> DR<usize> {
        self.enter()?;
        let o = self.end;
        self.end = end;
        Ok(o)
    }

    pub fn unbound(&mut self, outer: usize, end: usize) {
        if self.pos != end {
            self.slack += 1;
            self.pos = end;
        }
        self.end = outer;
        self.depth -= 1;
    }
}

/// exactly one standard-conforming value filling the input
pub fn dec_strict(b: &[u8]) -> Result<R, String> {
    let mut d = Dec::new(b);
    let r = d.value()?;
    if d.slack > 0 {
        return Err("size or count fields disagree with the contents".to_string());
    }
    if d.pos != b.len() {
        return Err(format!("value ends at {} of {}", d.pos, b.len()));
    }
    if let Some(k) = dup_key(&r) {
        return Err(format!("duplicate map key {}", k.show()));
    }
    Ok(r)
}

pub const TS_MIN: i64 = -8_334_601_228_800_000; // first millisecond of year -262143
pub const TS_MAX: i64 = 8_210_266_876_799_999; // last millisecond of year 262142

fn float_eq_key(r: &R) -> R {
    match r {
        R::F32(b) if f32::from_bits(*b).is_nan() => R::Bad("nan32".into()),
        R::F64(b) if f64::from_bits(*b).is_nan() => R::Bad("nan64".into()),
        R::F32(b) if f32::from_bits(*b) == 0.0 => R::F32(0),
        R::F64(b) if f64::from_bits(*b) == 0.0 => R::F64(0),
        R::List(v) => R::List(v.iter().map(float_eq_key).collect()),
        R::Array(v) => R::Array(v.iter().map(float_eq_key).collect()),
        R::Map(v) => R::Map(v.iter().map(|(a, b)| (float_eq_key(a), float_eq_key(b))).collect()),
        R::Desc(a, b) => R::Desc(a.clone(), Box::new(float_eq_key(b))),
        x => x.clone(),
    }
}

/// the value with floats replaced by representatives of their equality class
pub fn eq_class(r: &R) -> R {
    float_eq_key(r).canon()
}

/// values whose acceptance by the library as a dynamic value is not settled by the standard:
/// arrays, timestamps out of the date type's range, duplicate keys, extreme nesting
pub fn ambiguous(r: &R) -> bool {
    r.depth() > 100 || amb(r)
}

fn amb(r: &R) -> bool {
    match r {
        R::Array(_) | R::Bad(_) => true,
        R::Ts(t) => *t < TS_MIN || *t > TS_MAX,
        R::List(v) => v.iter().any(amb),
        R::Desc(_, v) => amb(v),
        R::Map(v) => v.iter().any(|(a, b)| amb(a) || amb(b)) || dup_key(&float_eq_key(r)).is_some(),
        _ => false,
    }
}

pub fn dup_key(r: &R) -> Option<R> {
    match r {
        R::List(v) | R::Array(v) => v.iter().find_map(dup_key),
        R::Desc(_, v) => dup_key(v),
        R::Map(v) => {
            let mut ks: Vec<R> = v.iter().map(|(k, _)| k.clone().canon()).collect();
            ks.sort();
            for w in ks.windows(2) {
                if w[0] == w[1] {
                    return Some(w[0].clone());
                }
            }
            v.iter().find_map(|(k, x)| dup_key(k).or_else(|| dup_key(x)))
        }
        _ => None,
    }
}

/// bytes to stand in a tree for a value, as they are
pub fn raw(b: &[u8]) -> R {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    R::Bad(s)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 400 {
            s.push_str(&format!("...({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
