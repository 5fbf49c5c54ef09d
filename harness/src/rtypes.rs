//! Reference model of ClickHouse's types, values and native column encoding.
//! Written from the protocol, not from the crate.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Bool,
    U(u8),
    I(u8),
    F32,
    F64,
    Str,
    Fixed(usize),
    Date,
    DateTime(Option<String>),
    DateTime64(u32, Option<String>),
    Dec(u8, u8),
    Enum8(Vec<(String, i16)>),
    Enum16(Vec<(String, i16)>),
    Uuid,
    Ip4,
    Ip6,
    Nullable(Box<T>),
    Array(Box<T>),
    Map(Box<T>, Box<T>),
    Low(Box<T>),
    Agg(String, Box<T>),
}

/// Bool/U/Date/DateTime/Ip4 are `U`; I/DateTime64/Dec/Enum are `I`; floats are `F` (bits);
/// Str/Fixed/Uuid/Ip6 are `B`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    U(u128),
    I(i128),
    F(u64),
    B(Vec<u8>),
    Null,
    A(Vec<V>),
    M(Vec<(V, V)>),
}

pub fn nullable(t: T) -> T {
    T::Nullable(Box::new(t))
}
pub fn array(t: T) -> T {
    T::Array(Box::new(t))
}
pub fn map(k: T, v: T) -> T {
    T::Map(Box::new(k), Box::new(v))
}
pub fn low(t: T) -> T {
    T::Low(Box::new(t))
}
pub fn agg(f: &str, t: T) -> T {
    T::Agg(f.to_string(), Box::new(t))
}
pub fn s(x: &str) -> V {
    V::B(x.as_bytes().to_vec())
}

fn quote(x: &str) -> String {
    let mut r = String::from("'");
    for c in x.chars() {
        match c {
            '\'' | '\\' => {
                r.push('\\');
                r.push(c)
            }
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            '\r' => r.push_str("\\r"),
            '\0' => r.push_str("\\0"),
            '\x08' => r.push_str("\\b"),
            '\x0c' => r.push_str("\\f"),
            c => r.push(c),
        }
    }
    r.push('\'');
    r
}

impl T {
    pub fn name(&self) -> String {
        match self {
            T::Bool => "Bool".into(),
            T::U(b) => format!("UInt{b}"),
            T::I(b) => format!("Int{b}"),
            T::F32 => "Float32".into(),
            T::F64 => "Float64".into(),
            T::Str => "String".into(),
            T::Fixed(n) => format!("FixedString({n})"),
            T::Date => "Date".into(),
            T::DateTime(None) => "DateTime".into(),
            T::DateTime(Some(tz)) => format!("DateTime('{tz}')"),
            T::DateTime64(p, None) => format!("DateTime64({p})"),
            T::DateTime64(p, Some(tz)) => format!("DateTime64({p}, '{tz}')"),
            T::Dec(p, s) => format!("Decimal({p}, {s})"),
            T::Enum8(v) | T::Enum16(v) => {
                let items: Vec<String> = v.iter().map(|(n, x)| format!("{} = {}", quote(n), x)).collect();
                format!("{}({})", if matches!(self, T::Enum8(_)) { "Enum8" } else { "Enum16" }, items.join(", "))
            }
            T::Uuid => "UUID".into(),
            T::Ip4 => "IPv4".into(),
            T::Ip6 => "IPv6".into(),
            T::Nullable(t) => format!("Nullable({})", t.name()),
            T::Array(t) => format!("Array({})", t.name()),
            T::Map(k, v) => format!("Map({}, {})", k.name(), v.name()),
            T::Low(t) => format!("LowCardinality({})", t.name()),
            T::Agg(f, t) => format!("SimpleAggregateFunction({}, {})", f, t.name()),
        }
    }

    pub fn parse(src: &str) -> Option<T> {
        let mut p = P { s: src.chars().collect(), i: 0 };
        let t = p.ty()?;
        p.ws();
        if p.i == p.s.len() {
            Some(t)
        } else {
            None
        }
    }

    pub fn default(&self) -> V {
        match self {
            T::Bool | T::U(_) | T::Date | T::DateTime(_) | T::Ip4 => V::U(0),
            T::I(_) | T::DateTime64(..) | T::Dec(..) => V::I(0),
            T::Enum8(v) | T::Enum16(v) => V::I(v.first().map(|x| x.1).unwrap_or(0) as i128),
            T::F32 | T::F64 => V::F(0),
            T::Str => V::B(vec![]),
            T::Fixed(n) => V::B(vec![0; *n]),
            T::Uuid | T::Ip6 => V::B(vec![0; 16]),
            T::Nullable(_) => V::Null,
            T::Array(_) => V::A(vec![]),
            T::Map(..) => V::M(vec![]),
            T::Low(t) | T::Agg(_, t) => t.default(),
        }
    }
}

struct P {
    s: Vec<char>,
    i: usize,
}
impl P {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == ' ' {
            self.i += 1;
        }
    }
    fn ident(&mut self) -> Option<String> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == '_') {
            self.i += 1;
        }
        if st == self.i {
            None
        } else {
            Some(self.s[st..self.i].iter().collect())
        }
    }
    fn eat(&mut self, c: char) -> Option<()> {
        self.ws();
        if self.i < self.s.len() && self.s[self.i] == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn int(&mut self) -> Option<i64> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == '-' {
            self.i += 1;
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect::<String>().parse().ok()
    }
    fn quoted(&mut self) -> Option<String> {
        self.eat('\'')?;
        let mut r = String::new();
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                '\'' => return Some(r),
                '\\' => {
                    let d = *self.s.get(self.i)?;
                    self.i += 1;
                    r.push(match d {
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        'b' => '\x08',
                        'f' => '\x0c',
                        d => d,
                    });
                }
                c => r.push(c),
            }
        }
    }
    fn ty(&mut self) -> Option<T> {
        let id = self.ident()?;
        Some(match id.as_str() {
            "Bool" => T::Bool,
            "UInt8" => T::U(8),
            "UInt16" => T::U(16),
            "UInt32" => T::U(32),
            "UInt64" => T::U(64),
            "UInt128" => T::U(128),
            "Int8" => T::I(8),
            "Int16" => T::I(16),
            "Int32" => T::I(32),
            "Int64" => T::I(64),
            "Int128" => T::I(128),
            "Float32" => T::F32,
            "Float64" => T::F64,
            "String" => T::Str,
            "Date" => T::Date,
            "UUID" => T::Uuid,
            "IPv4" => T::Ip4,
            "IPv6" => T::Ip6,
            "FixedString" => {
                self.eat('(')?;
                let n = self.int()?;
                self.eat(')')?;
                T::Fixed(usize::try_from(n).ok()?)
            }
            "DateTime" => {
                if self.eat('(').is_some() {
                    let tz = self.quoted()?;
                    self.eat(')')?;
                    T::DateTime(Some(tz))
                } else {
                    T::DateTime(None)
                }
            }
            "DateTime64" => {
                self.eat('(')?;
                let p = self.int()?;
                let tz = if self.eat(',').is_some() { Some(self.quoted()?) } else { None };
                self.eat(')')?;
                T::DateTime64(u32::try_from(p).ok()?, tz)
            }
            "Decimal" => {
                self.eat('(')?;
                let p = self.int()?;
                self.eat(',')?;
                let s = self.int()?;
                self.eat(')')?;
                T::Dec(u8::try_from(p).ok()?, u8::try_from(s).ok()?)
            }
            "Decimal32" | "Decimal64" => {
                self.eat('(')?;
                let s = self.int()?;
                self.eat(')')?;
                T::Dec(if id == "Decimal32" { 9 } else { 18 }, u8::try_from(s).ok()?)
            }
            "Enum8" | "Enum16" => {
                self.eat('(')?;
                let mut v = vec![];
                loop {
                    let n = self.quoted()?;
                    self.eat('=')?;
                    let x = self.int()?;
                    v.push((n, i16::try_from(x).ok()?));
                    if self.eat(',').is_none() {
                        break;
                    }
                }
                self.eat(')')?;
                if id == "Enum8" {
                    T::Enum8(v)
                } else {
                    T::Enum16(v)
                }
            }
            "Nullable" | "Array" | "LowCardinality" => {
                self.eat('(')?;
                let t = Box::new(self.ty()?);
                self.eat(')')?;
                match id.as_str() {
                    "Nullable" => T::Nullable(t),
                    "Array" => T::Array(t),
                    _ => T::Low(t),
                }
            }
            "Map" => {
                self.eat('(')?;
                let k = self.ty()?;
                self.eat(',')?;
                let v = self.ty()?;
                self.eat(')')?;
                map(k, v)
            }
            "SimpleAggregateFunction" => {
                self.eat('(')?;
                let f = self.ident()?;
                self.eat(',')?;
                let t = self.ty()?;
                self.eat(')')?;
                T::Agg(f, Box::new(t))
            }
            _ => return None,
        })
    }
}

// ---------------------------------------------------------------- writer

pub fn uvarint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}
pub fn string(out: &mut Vec<u8>, x: &[u8]) {
    uvarint(out, x.len() as u64);
    out.extend_from_slice(x);
}

fn has_prefix(t: &T) -> bool {
    match t {
        T::Low(_) => true,
        T::Nullable(t) | T::Array(t) | T::Agg(_, t) => has_prefix(t),
        T::Map(k, v) => has_prefix(k) || has_prefix(v),
        _ => false,
    }
}

fn enc_prefix(t: &T, out: &mut Vec<u8>) {
    match t {
        T::Low(_) => out.extend_from_slice(&1u64.to_le_bytes()),
        T::Nullable(t) | T::Array(t) | T::Agg(_, t) => enc_prefix(t, out),
        T::Map(k, v) => {
            enc_prefix(k, out);
            enc_prefix(v, out);
        }
        _ => {}
    }
}

pub fn swap_uuid(b: &[u8]) -> Vec<u8> {
    let mut r = b.to_vec();
    r[..8].reverse();
    r[8..].reverse();
    r
}

fn enc_body(t: &T, vals: &[V], out: &mut Vec<u8>) {
    match t {
        T::Bool | T::U(_) | T::Date | T::DateTime(_) | T::Ip4 => {
            let n = match t {
                T::Bool => 1,
                T::U(b) => *b as usize / 8,
                T::Date => 2,
                _ => 4,
            };
            for v in vals {
                let V::U(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                out.extend_from_slice(&x.to_le_bytes()[..n]);
            }
        }
        T::I(_) | T::DateTime64(..) | T::Dec(..) | T::Enum8(_) | T::Enum16(_) => {
            let n = match t {
                T::I(b) => *b as usize / 8,
                T::DateTime64(..) => 8,
                T::Dec(p, _) => {
                    if *p <= 9 {
                        4
                    } else {
                        8
                    }
                }
                T::Enum8(_) => 1,
                _ => 2,
            };
            for v in vals {
                let V::I(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                out.extend_from_slice(&x.to_le_bytes()[..n]);
            }
        }
        T::F32 | T::F64 => {
            let n = if *t == T::F32 { 4 } else { 8 };
            for v in vals {
                let V::F(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                out.extend_from_slice(&x.to_le_bytes()[..n]);
            }
        }
        T::Str => {
            for v in vals {
                let V::B(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                string(out, x);
            }
        }
        T::Fixed(n) => {
            for v in vals {
                let V::B(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                assert_eq!(x.len(), *n);
                out.extend_from_slice(x);
            }
        }
        T::Ip6 => {
            for v in vals {
                let V::B(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                out.extend_from_slice(x);
            }
        }
        T::Uuid => {
            for v in vals {
                let V::B(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                out.extend_from_slice(&swap_uuid(x));
            }
        }
        T::Nullable(t) => {
            for v in vals {
                out.push((*v == V::Null) as u8);
            }
            let d = t.default();
            let inner: Vec<V> = vals.iter().map(|v| if *v == V::Null { d.clone() } else { v.clone() }).collect();
            enc_body(t, &inner, out);
        }
        T::Array(t) => {
            let mut off = 0u64;
            let mut all = vec![];
            for v in vals {
                let V::A(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                off += x.len() as u64;
                out.extend_from_slice(&off.to_le_bytes());
                all.extend_from_slice(x);
            }
            enc_body(t, &all, out);
        }
        T::Map(kt, vt) => {
            let mut off = 0u64;
            let (mut ks, mut vs) = (vec![], vec![]);
            for v in vals {
                let V::M(x) = v else { panic!("bad ref value {v:?} for {t:?}") };
                off += x.len() as u64;
                out.extend_from_slice(&off.to_le_bytes());
                for (a, b) in x {
                    ks.push(a.clone());
                    vs.push(b.clone());
                }
            }
            enc_body(kt, &ks, out);
            enc_body(vt, &vs, out);
        }
        T::Low(t) => {
            if vals.is_empty() {
                return;
            }
            enc_low(t, vals, out, None);
        }
        T::Agg(_, t) => enc_body(t, vals, out),
    }
}

thread_local! {
    /// Index width (0..=3) the reference server uses for LowCardinality; None = smallest.
    pub static LOW_WIDTH: std::cell::Cell<Option<u8>> = const { std::cell::Cell::new(None) };
    /// What a block calls the type of its columns instead of the real name.
    pub static COLUMN_NAME: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    /// How many keys no row uses a dictionary of strings has.
    pub static LOW_EXTRA: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn enc_low(t: &T, vals: &[V], out: &mut Vec<u8>, _w: Option<u8>) {
    let (isnull, kt) = match t {
        T::Nullable(i) => (true, (**i).clone()),
        t => (false, t.clone()),
    };
    // A real dictionary starts with the default value.
    let mut keys = vec![kt.default()];
    if isnull {
        keys.push(kt.default());
    }
    let mut pos: std::collections::HashMap<V, u64> = Default::default();
    if !isnull {
        pos.insert(kt.default(), 0);
    }
    if kt == T::Str {
        keys.extend((0..LOW_EXTRA.with(|e| e.get())).map(|i| s(&format!("unused{i}"))));
    }
    let mut idx = vec![];
    for v in vals {
        if isnull && *v == V::Null {
            idx.push(0);
            continue;
        }
        let n = keys.len() as u64;
        let e = *pos.entry(v.clone()).or_insert(n);
        if e == n {
            keys.push(v.clone());
        }
        idx.push(e);
    }
    let w = LOW_WIDTH.with(|w| w.get()).unwrap_or(if keys.len() <= 255 {
        0
    } else if keys.len() <= 65535 {
        1
    } else {
        2
    });
    out.extend_from_slice(&(w as u64 | 1 << 9 | 1 << 10).to_le_bytes());
    out.extend_from_slice(&(keys.len() as u64).to_le_bytes());
    enc_body(&kt, &keys, out);
    out.extend_from_slice(&(vals.len() as u64).to_le_bytes());
    for i in idx {
        out.extend_from_slice(&i.to_le_bytes()[..1 << w]);
    }
}

pub fn encode_column(t: &T, vals: &[V], out: &mut Vec<u8>) {
    if vals.is_empty() {
        return;
    }
    if has_prefix(t) {
        enc_prefix(t, out);
    }
    enc_body(t, vals, out);
}

// ---------------------------------------------------------------- reader

#[derive(Debug, Clone, PartialEq)]
pub enum RErr {
    More,
    Bad(String),
}
pub type RRes<X> = Result<X, RErr>;

pub struct R<'a> {
    pub b: &'a [u8],
    pub i: usize,
    /// Gives bytes that no server sends the meaning a reader may give them, instead of an error.
    pub lenient: bool,
}
impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        R { b, i: 0, lenient: false }
    }
    pub fn take(&mut self, n: usize) -> RRes<&'a [u8]> {
        if n > self.b.len() - self.i {
            return Err(RErr::More);
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> RRes<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn uvarint(&mut self) -> RRes<u64> {
        let mut x = 0u64;
        for s in 0..10 {
            let b = self.u8()?;
            if s == 9 && b > 1 {
                break;
            }
            x |= ((b & 0x7f) as u64) << (7 * s);
            if b < 0x80 {
                return Ok(x);
            }
        }
        Err(RErr::Bad("varint".into()))
    }
    pub fn bytes(&mut self) -> RRes<Vec<u8>> {
        let n = self.uvarint()?;
        if n > 1 << 30 {
            return Err(RErr::Bad(format!("string length {n}")));
        }
        Ok(self.take(n as usize)?.to_vec())
    }
    pub fn str(&mut self) -> RRes<String> {
        String::from_utf8(self.bytes()?).map_err(|_| RErr::Bad("utf8".into()))
    }
    pub fn u64(&mut self) -> RRes<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn uint(&mut self, n: usize) -> RRes<u128> {
        let mut a = [0u8; 16];
        a[..n].copy_from_slice(self.take(n)?);
        Ok(u128::from_le_bytes(a))
    }
    fn int(&mut self, n: usize) -> RRes<i128> {
        let x = self.uint(n)?;
        let sh = 128 - 8 * n as u32;
        Ok(((x << sh) as i128) >> sh)
    }
}

fn dec_prefix(t: &T, r: &mut R) -> RRes<()> {
    match t {
        T::Low(_) => {
            let v = r.u64()?;
            if v != 1 {
                return Err(RErr::Bad(format!("low cardinality version {v}")));
            }
            Ok(())
        }
        T::Nullable(t) | T::Array(t) | T::Agg(_, t) => dec_prefix(t, r),
        T::Map(k, v) => {
            dec_prefix(k, r)?;
            dec_prefix(v, r)
        }
        _ => Ok(()),
    }
}

fn offsets(r: &mut R, n: usize) -> RRes<Vec<usize>> {
    let mut prev = 0u64;
    let mut v = Vec::with_capacity(n.min(1 << 12));
    for _ in 0..n {
        let o = r.u64()?;
        if o < prev {
            return Err(RErr::Bad(format!("array offsets decrease: {prev} then {o}")));
        }
        v.push((o - prev) as usize);
        prev = o;
    }
    if prev > 1 << 28 {
        return Err(RErr::Bad(format!("array offset {prev}")));
    }
    Ok(v)
}

fn dec_body(t: &T, n: usize, r: &mut R) -> RRes<Vec<V>> {
    let mut out = Vec::with_capacity(n.min(1 << 12));
    match t {
        T::Bool | T::U(_) | T::Date | T::DateTime(_) | T::Ip4 => {
            let w = match t {
                T::Bool => 1,
                T::U(b) => *b as usize / 8,
                T::Date => 2,
                _ => 4,
            };
            for _ in 0..n {
                let mut x = r.uint(w)?;
                if *t == T::Bool && x > 1 {
                    if !r.lenient {
                        return Err(RErr::Bad(format!("bool {x}")));
                    }
                    x = 1;
                }
                out.push(V::U(x));
            }
        }
        T::I(_) | T::DateTime64(..) | T::Dec(..) | T::Enum8(_) | T::Enum16(_) => {
            let w = match t {
                T::I(b) => *b as usize / 8,
                T::DateTime64(..) => 8,
                T::Dec(p, _) => {
                    if *p <= 9 {
                        4
                    } else {
                        8
                    }
                }
                T::Enum8(_) => 1,
                _ => 2,
            };
            for _ in 0..n {
                out.push(V::I(r.int(w)?));
            }
        }
        T::F32 => {
            for _ in 0..n {
                out.push(V::F(r.uint(4)? as u64));
            }
        }
        T::F64 => {
            for _ in 0..n {
                out.push(V::F(r.uint(8)? as u64));
            }
        }
        T::Str => {
            for _ in 0..n {
                out.push(V::B(r.bytes()?));
            }
        }
        T::Fixed(k) => {
            for _ in 0..n {
                out.push(V::B(r.take(*k)?.to_vec()));
            }
        }
        T::Ip6 => {
            for _ in 0..n {
                out.push(V::B(r.take(16)?.to_vec()));
            }
        }
        T::Uuid => {
            for _ in 0..n {
                out.push(V::B(swap_uuid(r.take(16)?)));
            }
        }
        T::Nullable(t) => {
            let nulls = r.take(n)?.to_vec();
            let inner = dec_body(t, n, r)?;
            for (f, v) in nulls.into_iter().zip(inner) {
                if f > 1 && !r.lenient {
                    return Err(RErr::Bad(format!("null flag {f}")));
                }
                out.push(if f >= 1 { V::Null } else { v });
            }
        }
        T::Array(t) => {
            let offs = offsets(r, n)?;
            let mut all = dec_body(t, offs.iter().sum(), r)?.into_iter();
            for k in offs {
                out.push(V::A((&mut all).take(k).collect()));
            }
        }
        T::Map(kt, vt) => {
            let offs = offsets(r, n)?;
            let total = offs.iter().sum();
            let mut ks = dec_body(kt, total, r)?.into_iter();
            let mut vs = dec_body(vt, total, r)?.into_iter();
            for k in offs {
                out.push(V::M((&mut ks).take(k).zip((&mut vs).take(k)).collect()));
            }
        }
        T::Low(t) => {
            if n == 0 {
                return Ok(out);
            }
            let flags = r.u64()?;
            let w = flags & 0xff;
            if flags & (1 << 10) == 0 && !r.lenient {
                return Err(RErr::Bad("low cardinality: the dictionary is not updated".into()));
            }
            if w > 3 || flags & (1 << 8) != 0 || flags & (1 << 9) == 0 || flags >> 11 != 0 {
                return Err(RErr::Bad(format!("low cardinality flags {flags:x}")));
            }
            let (isnull, kt) = match &**t {
                T::Nullable(i) => (true, (**i).clone()),
                t => (false, t.clone()),
            };
            let nk = r.u64()?;
            if nk > 1 << 28 {
                return Err(RErr::Bad(format!("low cardinality keys {nk}")));
            }
            let keys = dec_body(&kt, nk as usize, r)?;
            let rows = r.u64()?;
            if rows != n as u64 {
                return Err(RErr::Bad(format!("low cardinality rows {rows}, expected {n}")));
            }
            for _ in 0..n {
                let i = r.uint(1 << w)? as usize;
                if isnull && i == 0 {
                    out.push(V::Null);
                } else {
                    out.push(keys.get(i).cloned().ok_or_else(|| RErr::Bad(format!("low cardinality index {i} of {nk}")))?);
                }
            }
        }
        T::Agg(_, t) => return dec_body(t, n, r),
    }
    Ok(out)
}

pub fn decode_column(t: &T, n: usize, r: &mut R) -> RRes<Vec<V>> {
    if n == 0 {
        return Ok(vec![]);
    }
    if has_prefix(t) {
        dec_prefix(t, r)?;
    }
    dec_body(t, n, r)
}

// ---------------------------------------------------------------- blocks

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RCol {
    pub name: String,
    pub ty: T,
    pub vals: Vec<V>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct RBlock {
    pub cols: Vec<RCol>,
}

pub fn col(name: &str, ty: T, vals: Vec<V>) -> RCol {
    RCol { name: name.into(), ty, vals }
}

impl RBlock {
    pub fn new(cols: Vec<RCol>) -> Self {
        RBlock { cols }
    }
    pub fn rows(&self) -> usize {
        self.cols.first().map(|c| c.vals.len()).unwrap_or(0)
    }
    pub fn header(&self) -> RBlock {
        RBlock { cols: self.cols.iter().map(|c| col(&c.name, c.ty.clone(), vec![])).collect() }
    }
    pub fn slice(&self, a: usize, b: usize) -> RBlock {
        RBlock { cols: self.cols.iter().map(|c| col(&c.name, c.ty.clone(), c.vals[a..b].to_vec())).collect() }
    }
    pub fn encode_raw(&self) -> Vec<u8> {
        let mut o = vec![1, 0, 2];
        o.extend_from_slice(&(-1i32).to_le_bytes());
        o.push(0);
        uvarint(&mut o, self.cols.len() as u64);
        uvarint(&mut o, self.rows() as u64);
        for c in &self.cols {
            string(&mut o, c.name.as_bytes());
            let ty = COLUMN_NAME.with(|n| n.borrow().clone()).unwrap_or_else(|| c.ty.name());
            string(&mut o, ty.as_bytes());
            encode_column(&c.ty, &c.vals, &mut o);
        }
        o
    }
    pub fn encode(&self, compress: bool) -> Vec<u8> {
        let raw = self.encode_raw();
        if compress {
            frame(&raw)
        } else {
            raw
        }
    }
    pub fn decode(r: &mut R) -> RRes<RBlock> {
        let mut seen = vec![];
        loop {
            match r.uvarint()? {
                0 => break,
                1 => {
                    let b = r.u8()?;
                    if b > 1 && !r.lenient {
                        return Err(RErr::Bad("block info".into()));
                    }
                    seen.push(1);
                }
                2 => {
                    r.take(4)?;
                    seen.push(2);
                }
                x => return Err(RErr::Bad(format!("block info field {x}"))),
            }
        }
        let nc = r.uvarint()?;
        let nr = r.uvarint()?;
        if nc > 10000 || nr > 1 << 26 {
            return Err(RErr::Bad(format!("block of {nc} columns, {nr} rows")));
        }
        let mut cols = vec![];
        for _ in 0..nc {
            let name = r.str()?;
            let tn = r.str()?;
            let ty = T::parse(&tn).filter(|t| t.valid()).ok_or_else(|| RErr::Bad(format!("type name {tn:?}")))?;
            let vals = decode_column(&ty, nr as usize, r)?;
            cols.push(RCol { name, ty, vals });
        }
        if nc == 0 && nr != 0 && !r.lenient {
            return Err(RErr::Bad("rows without columns".into()));
        }
        Ok(RBlock { cols })
    }
}

pub fn frame(raw: &[u8]) -> Vec<u8> {
    frame_with(raw, &crate::lz4::compress(raw))
}
pub fn frame_with(raw: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut f = vec![0x82];
    f.extend_from_slice(&(payload.len() as u32 + 9).to_le_bytes());
    f.extend_from_slice(&(raw.len() as u32).to_le_bytes());
    f.extend_from_slice(payload);
    let (lo, hi) = crate::city::city128(&f);
    let mut o = lo.to_le_bytes().to_vec();
    o.extend_from_slice(&hi.to_le_bytes());
    o.extend_from_slice(&f);
    o
}

/// Reads one compressed frame, strictly.
pub fn unframe(r: &mut R) -> RRes<Vec<u8>> {
    let lo = r.u64()?;
    let hi = r.u64()?;
    let st = r.i;
    let m = r.u8()?;
    if m != 0x82 {
        return Err(RErr::Bad(format!("compression method {m:x}")));
    }
    let c = u32::from_le_bytes(r.take(4)?.try_into().unwrap()) as usize;
    let o = u32::from_le_bytes(r.take(4)?.try_into().unwrap()) as usize;
    if c < 9 || c > 1 << 30 || o > 1 << 30 {
        return Err(RErr::Bad(format!("frame sizes {c} {o}")));
    }
    let p = r.take(c - 9)?;
    if crate::city::city128(&r.b[st..r.i]) != (lo, hi) {
        return Err(RErr::Bad("frame checksum".into()));
    }
    crate::lz4::decompress(p, o).ok_or_else(|| RErr::Bad("frame payload".into()))
}

/// Decodes a block from a sequence of frames (a block may span frames).
pub fn decode_block(r: &mut R, compress: bool) -> RRes<RBlock> {
    if !compress {
        return RBlock::decode(r);
    }
    let mut data = vec![];
    loop {
        data.extend_from_slice(&unframe(r)?);
        let mut inner = R::new(&data);
        match RBlock::decode(&mut inner) {
            Ok(b) => {
                if inner.i != data.len() {
                    return Err(RErr::Bad("bytes after the block in its frame".into()));
                }
                return Ok(b);
            }
            Err(RErr::More) => continue,
            Err(e) => return Err(e),
        }
    }
}

impl T {
    /// Whether ClickHouse has such a type, as far as its parameters go.
    pub fn valid(&self) -> bool {
        match self {
            T::Fixed(n) => *n >= 1 && *n <= 1 << 24,
            T::DateTime(z) => z.as_ref().map(|z| z.parse::<chrono_tz::Tz>().is_ok()).unwrap_or(true),
            T::DateTime64(p, z) => *p <= 9 && z.as_ref().map(|z| z.parse::<chrono_tz::Tz>().is_ok()).unwrap_or(true),
            T::Dec(p, s) => *p >= 1 && *p <= 18 && s <= p,
            T::Enum8(v) => v.iter().all(|x| (-128..=127).contains(&x.1)),
            T::Nullable(t) => !matches!(**t, T::Nullable(_)) && t.valid(),
            T::Array(t) | T::Low(t) => t.valid(),
            T::Agg(f, t) => AGG.contains(&f.as_str()) && t.valid(),
            T::Map(k, v) => k.valid() && v.valid(),
            _ => true,
        }
    }
}

/// The functions SimpleAggregateFunction takes.
pub const AGG: &[&str] = &[
    "any", "anyLast", "min", "max", "sum", "sumWithOverflow", "groupBitAnd", "groupBitOr", "groupBitXor", "groupArrayArray",
    "groupUniqArrayArray", "sumMap", "minMap", "maxMap", "argMin", "argMax",
];
