//! Generators of reference values, biased towards the places where encodings switch form.

use crate::rng::Rng;
use crate::rval::*;

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    /// rough bound on the bytes one generated value may take
    pub budget: usize,
    /// floats (NaN, signed zero) allowed as map keys / in maps compared by library equality
    pub big: bool,
}

/// texts with 'static storage the library may hold by reference
pub static STATICS: &[&str] = &[
    "", "a", "x-opt-key", "amqp:internal-error", "move", "copy", "never", "\u{e9}t\u{e9}", "\u{1f4af}", "key", "value",
    "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ABC",
    "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ABCD",
    "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ABCDE",
];

/// bytes with a meaning in the protocol
pub const BYTES: &[&[u8]] = &[
    b"AMQP\x00\x01\x00\x00",
    b"AMQP\x03\x01\x00\x00",
    b"\x00\x53\x75\xa0\x00",
    b"\x00\x53\x75",
    b"\x00\x53\x70\x45",
    b"\x00\x53\x77\x40",
    b"\x00\x00\x00\x08\x02\x00\x00\x00",
    b"\x00\x53\x18\x45",
    b"\x45",
    b"\xc0\x01\x00",
    b"\xa0\x00",
    b"\x0d\x0a",
    b"\x00\x01",
];

/// text that somebody may be tempted to treat specially
const TEXTS: &[&str] = &[
    "\0", "a\0", "\0\0", " ", "  a", "a ", "\t", "\r\n", "\n", "null", "true", "false", "0", "00", "-1", "1.0", "+1", "NaN",
    "\u{feff}", "\u{feff}a", "\u{e9}", "e\u{301}", "\u{df}", "SS", "\u{130}", "\u{fffd}", "\u{10ffff}", "\u{7f}", "\u{80}",
    "amqp:open:list", "amqp:accepted:list", "amqp:data:binary", "amqp:not-found", "move", "copy", "x-opt-", "amqp", "AMQP",
    "utf-8", "en-US", "/", "..", "%00", "\\", "\"", "'", "a=b", "#", "$",
];

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng) -> Gen<'a> {
        Gen { rng, budget: 3000, big: false }
    }
    pub fn with_budget(rng: &'a mut Rng, budget: usize) -> Gen<'a> {
        Gen { rng, budget, big: false }
    }

    /// an unsigned number of up to `bits` bits with interesting shape
    pub fn uint(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.rng.below(9) {
            0 => self.rng.below(4) as u64,
            1 => self.rng.below(300) as u64,
            2 => {
                let k = self.rng.below(bits as usize) as u32;
                (1u64 << k).wrapping_add(self.rng.below(3) as u64).wrapping_sub(1)
            }
            3 => mask.wrapping_sub(self.rng.below(3) as u64),
            4 => {
                let a = 1u64 << self.rng.below(bits as usize);
                let b = 1u64 << self.rng.below(bits as usize);
                a | b
            }
            5 => {
                // distinct bytes, so that a misplaced byte shows
                0x0102_0304_0506_0708u64.rotate_left(8 * self.rng.below(8) as u32)
            }
            6 => (mask >> 1).wrapping_add(self.rng.below(3) as u64).wrapping_sub(1),
            7 => {
                let w = self.rng.range(1, bits as usize) as u32;
                self.rng.u64() >> (64 - w)
            }
            _ => self.rng.u64(),
        };
        v & mask
    }

    pub fn int(&mut self, bits: u32) -> i64 {
        let v = self.uint(bits);
        let v = match self.rng.below(4) {
            0 => (v as i64).wrapping_neg(),
            1 => !(v as i64),
            2 => *self.rng.pick(&[-129i64, -128, -127, -1, 0, 1, 126, 127, 128, 255, 256, -255, -256, -257]),
            _ => v as i64,
        };
        // sign-extend from bits
        let s = 64 - bits;
        (v << s) >> s
    }

    pub fn f32bits(&mut self) -> u32 {
        *{
            let r = self.rng.u64() as u32;
            let x = self.uint(32) as u32;
            &[0x7fc0_0000, 0x7f80_0000, 0xff80_0000, 0x8000_0000, 0, 1, 0x7f80_0001, 0x3f9d_f3b6, r, x, r]
                [self.rng.below(11)]
        }
    }

    pub fn f64bits(&mut self) -> u64 {
        let r = self.rng.u64();
        let x = self.uint(64);
        [
            0x7ff8_0000_0000_0000,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x8000_0000_0000_0000,
            0,
            1,
            0x7ff0_0000_0000_0001,
            0x3ff3_be76_c8b4_3958,
            r,
            x,
            r,
        ][self.rng.below(11)]
    }

    pub fn ch(&mut self) -> u32 {
        loop {
            let c = match self.rng.below(6) {
                0 => self.rng.below(0x80) as u32,
                1 => self.rng.below(0x800) as u32,
                2 => self.rng.below(0x10000) as u32,
                3 => *self.rng.pick(&[0u32, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]),
                4 => 0x10000 + self.rng.below(0x100000) as u32,
                _ => self.rng.below(0x110000) as u32,
            };
            if std::char::from_u32(c).is_some() {
                return c;
            }
        }
    }

    pub fn ts(&mut self) -> i64 {
        match self.rng.below(8) {
            0 => self.rng.range(0, 5000) as i64 - 2500,
            1 => {
                let s = self.int(36);
                s * 1000
            }
            2 => self.int(36) * 1000 + *self.rng.pick(&[1i64, 999, 500, -1, -999]),
            3 => 1_311_704_463_521 + self.rng.below(100000) as i64,
            4 => self.int(40),
            5 => self.int(52),
            6 => *self.rng.pick(&[0i64, 1, -1, 999, 1000, -999, -1000, -1001, 86_400_000, -86_400_000]),
            _ => self.int(53) % 8_000_000_000_000_000,
        }
    }

    pub fn uuid(&mut self) -> [u8; 16] {
        let mut u = [0u8; 16];
        match self.rng.below(16) {
            0 => return u,
            1 => return [0xff; 16],
            _ => {}
        }
        if self.rng.chance(1, 4) {
            let b = self.rng.u64() as u8;
            for (i, x) in u.iter_mut().enumerate() {
                *x = b.wrapping_add(i as u8);
            }
        } else {
            u.copy_from_slice(&self.rng.bytes(16));
        }
        u
    }

    /// a length, often next to 255/256 and rarely next to 65535/65536
    pub fn len(&mut self) -> usize {
        let n = match self.rng.below(20) {
            0 => 0,
            1..=11 => self.rng.below(20),
            12..=14 => self.rng.range(0, 80),
            15 => self.rng.range(240, 262),
            16 => self.rng.range(100, 255),
            17 => self.rng.range(255, 700),
            18 => {
                if self.big {
                    self.rng.range(65520, 65550)
                } else {
                    self.rng.range(250, 258)
                }
            }
            _ => {
                if self.big {
                    self.rng.range(1000, 9000)
                } else {
                    self.rng.below(30)
                }
            }
        };
        let n = n.min(self.budget);
        self.budget -= n;
        n
    }

    pub fn bin(&mut self) -> Vec<u8> {
        let n = self.len();
        self.bin_len(n)
    }

    /// n bytes, random or of some shape
    pub fn bin_len(&mut self, n: usize) -> Vec<u8> {
        match self.rng.below(8) {
            0 | 1 => (0..n).map(|i| i as u8).collect(),
            2 | 3 => vec![*self.rng.pick(&[0u8, 0xff, 0x40, 0x53, 0x00, 0x20, 0x45]); n],
            4 => {
                // what looks like a piece of the protocol
                let p: &[u8] = *self.rng.pick(BYTES);
                p.iter().cycle().take(n).cloned().collect()
            }
            _ => self.rng.bytes(n),
        }
    }

    pub fn text(&mut self) -> String {
        if self.rng.chance(1, 10) {
            let s = *self.rng.pick(TEXTS);
            if s.len() <= self.budget {
                self.budget -= s.len();
                return s.to_string();
            }
        }
        let n = self.len();
        self.text_len(n)
    }

    /// valid UTF-8 of exactly n bytes
    pub fn text_len(&mut self, n: usize) -> String {
        let mode = self.rng.below(4);
        let mut s = String::with_capacity(n);
        while s.len() < n {
            let left = n - s.len();
            let c = if mode == 0 && left >= 4 {
                std::char::from_u32(self.ch()).unwrap()
            } else if mode == 1 && left >= 4 && self.rng.chance(1, 8) {
                std::char::from_u32(self.ch()).unwrap()
            } else {
                (0x20 + self.rng.below(0x5f) as u8) as char
            };
            if s.len() + c.len_utf8() <= n {
                s.push(c);
            }
        }
        s
    }

    pub fn ascii_len(&mut self, n: usize) -> String {
        (0..n).map(|_| *self.rng.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0189-:._/") as char).collect()
    }

    /// a name that may hold any ASCII character, blanks and control characters at the ends included
    fn odd_symbol(&mut self) -> String {
        let s = *self.rng.pick(TEXTS);
        if s.is_ascii() {
            return s.to_string();
        }
        let n = self.rng.below(12);
        (0..n).map(|_| self.rng.below(128) as u8 as char).collect()
    }

    pub fn symbol(&mut self) -> String {
        if self.rng.chance(1, 10) && self.budget > 20 {
            let s = self.odd_symbol();
            self.budget -= s.len();
            return s;
        }
        if self.rng.chance(1, 6) {
            let s = *self.rng.pick(STATICS);
            if s.is_ascii() && s.len() <= self.budget {
                self.budget -= s.len();
                return s.to_string();
            }
        }
        let n = self.len();
        self.ascii_len(n)
    }

    /// a symbol that is none of the predefined restricted values
    pub fn custom_symbol(&mut self) -> String {
        let n = self.len();
        let mut s = String::from("x-");
        if self.rng.chance(1, 8) {
            s.push_str(&self.odd_symbol());
        } else {
            s.push_str(&self.ascii_len(n));
        }
        s
    }

    pub fn scalar(&mut self) -> R {
        match self.rng.below(20) {
            0 => R::Null,
            1 => R::Bool(self.rng.bool()),
            2 => R::U8(self.uint(8) as u8),
            3 => R::U16(self.uint(16) as u16),
            4 => R::U32(self.uint(32) as u32),
            5 => R::U64(self.uint(64)),
            6 => R::I8(self.int(8) as i8),
            7 => R::I16(self.int(16) as i16),
            8 => R::I32(self.int(32) as i32),
            9 => R::I64(self.int(64)),
            10 => R::F32(self.f32bits()),
            11 => R::F64(self.f64bits()),
            12 => R::Char(self.ch()),
            13 => R::Ts(self.ts()),
            14 => R::Uuid(self.uuid()),
            15 => R::Bin(self.bin()),
            16 | 17 => R::Str(self.text()),
            _ => R::Sym(self.symbol()),
        }
    }

    /// scalar for use as a map key (no floats: their equality classes merge NaNs and zeros)
    pub fn key(&mut self) -> R {
        loop {
            let r = self.scalar();
            match r {
                R::F32(b) if f32::from_bits(b).is_nan() || f32::from_bits(b) == 0.0 => continue,
                R::F64(b) if f64::from_bits(b).is_nan() || f64::from_bits(b) == 0.0 => continue,
                _ => return r,
            }
        }
    }

    pub fn count(&mut self, depth: usize) -> usize {
        match self.rng.below(16) {
            0 => 0,
            1 => 1,
            2 if depth <= 1 => self.rng.range(120, 130).min(self.budget),
            3 if depth <= 1 => self.rng.range(250, 258).min(self.budget),
            4 => self.rng.below(30).min(self.budget),
            _ => self.rng.below(6),
        }
    }

    pub fn value(&mut self, depth: usize) -> R {
        if depth == 0 || self.budget < 8 || self.rng.chance(1, 2) {
            return self.scalar();
        }
        match self.rng.below(5) {
            0 | 1 => self.list(depth),
            2 | 3 => self.map(depth),
            _ => self.described(depth),
        }
    }

    pub fn list(&mut self, depth: usize) -> R {
        let n = self.count(depth);
        let tiny = n > 30;
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            if self.budget < 4 {
                break;
            }
            self.budget -= 2;
            v.push(if tiny && self.rng.chance(9, 10) { self.tiny() } else { self.value(depth - 1) });
        }
        R::List(v)
    }

    fn tiny(&mut self) -> R {
        match self.rng.below(5) {
            0 => R::Null,
            1 => R::Bool(true),
            2 => R::U32(0),
            3 => R::U8(self.rng.u64() as u8),
            _ => R::List(vec![]),
        }
    }

    pub fn map(&mut self, depth: usize) -> R {
        let n = self.count(depth);
        let tiny = n > 30;
        let mut v: Vec<(R, R)> = Vec::with_capacity(n);
        let mut keys = std::collections::HashSet::new();
        for i in 0..n {
            if self.budget < 8 {
                break;
            }
            self.budget -= 3;
            let k = if tiny {
                R::U16(i as u16)
            } else if depth > 1 && self.rng.chance(1, 12) {
                self.nofloat(depth - 1)
            } else {
                self.key()
            };
            if !keys.insert(eq_class(&k)) {
                continue;
            }
            let x = if tiny { self.tiny() } else { self.value(depth - 1) };
            v.push((k, x));
        }
        R::Map(v).canon()
    }

    /// container without floats inside, usable as a key
    fn nofloat(&mut self, depth: usize) -> R {
        fn strip(r: R) -> R {
            match r {
                R::F32(x) => R::U32(x),
                R::F64(x) => R::U64(x),
                R::List(v) => R::List(v.into_iter().map(strip).collect()),
                R::Desc(a, b) => R::Desc(a, Box::new(strip(*b))),
                R::Map(v) => {
                    let mut o: Vec<(R, R)> = Vec::new();
                    for (a, b) in v {
                        let k = strip(a);
                        if !o.iter().any(|x| x.0 == k) {
                            o.push((k, strip(b)));
                        }
                    }
                    R::Map(o)
                }
                x => x,
            }
        }
        strip(self.value(depth)).canon()
    }

    pub fn described(&mut self, depth: usize) -> R {
        let d = if self.rng.bool() { R::U64(self.uint(64)) } else { R::Sym(self.symbol()) };
        R::Desc(Box::new(d), Box::new(self.value(depth - 1)))
    }

    /// symbol-keyed map ("fields", annotations)
    pub fn sym_map(&mut self) -> R {
        let n = if self.rng.chance(1, 20) { self.rng.range(0, 140) } else { self.rng.below(5) };
        let mut v: Vec<(R, R)> = Vec::new();
        for _ in 0..n {
            if self.budget < 8 {
                break;
            }
            self.budget -= 3;
            let k = R::Sym(self.symbol());
            if v.iter().any(|x| x.0 == k) {
                continue;
            }
            let d = self.rng.below(3);
            let x = self.value(d);
            v.push((k, x));
        }
        R::Map(v).canon()
    }

    /// string-keyed map (application properties)
    pub fn str_map(&mut self) -> R {
        let n = if self.rng.chance(1, 20) { self.rng.range(0, 140) } else { self.rng.below(5) };
        let mut v: Vec<(R, R)> = Vec::new();
        for _ in 0..n {
            if self.budget < 8 {
                break;
            }
            self.budget -= 3;
            let k = R::Str(self.text());
            if v.iter().any(|x| x.0 == k) {
                continue;
            }
            let x = if self.rng.chance(1, 5) { self.value(2) } else { self.scalar() };
            v.push((k, x));
        }
        R::Map(v).canon()
    }

    /// a value nested exactly n levels: a chain of lists / maps / map keys / described values
    pub fn chain(&mut self, n: usize) -> R {
        let mut r = self.key();
        let style = self.rng.below(6);
        for i in 0..n {
            let s = if style == 5 { self.rng.below(5) } else { style };
            r = match s {
                0 => R::List(vec![r]),
                1 => R::Map(vec![(R::U32(i as u32), r)]),
                2 => R::Map(vec![(r, R::Null)]),
                3 => R::Desc(Box::new(R::U64(i as u64)), Box::new(r)),
                _ => R::List(vec![R::Bool(true), r, R::str("after")]),
            };
        }
        r
    }
}
