//! Type names: every spelling the server may use, and every slip.

use super::Prop;
use crate::{catalog::*, explore::*, rtypes::*, server::*, util::*};
use clickhouse_rs::Block;

pub const PROP: Prop = Prop {
    id: "C19",
    bounds: "every type of the catalogue, and every type term over 11 leaves up to 3 constructors deep (thorough: 4), in two spellings (the server's and one without blanks) and two that are optional; every precision and scale of Decimal 0-80 and Decimal32/64/128/256; every time zone of the IANA database in DateTime and DateTime64 with every precision 0-12; enums with every label up to 2 (thorough: 3) characters over 16 characters that mean something in the syntax, and every number at the ends of the ranges; every catalogue name (about 150 of them; thorough: all, and every term of depth 2) with every one-place change: a character left out, doubled, replaced by or preceded by one of 20 others, two neighbours swapped, the end cut off (thorough: every pair of such changes on short names); 60 names of types that are not supported; each as the type of a result's column with 0 or 2 rows and of the header of an insert",
    assumptions: &[
        "the names the server uses are those ClickHouse generates: blanks only after commas and around '=', quoted text escaped with backslashes",
        "names the server would not generate but which can only mean one type (other blanks, SQL aliases, leading zeros, Decimal32(S)) may be read as that type or refused",
        "DateTime columns are announced without their time zone: it is the same type to the server",
        "types supported: those with a SqlType; Decimal up to 18 digits; the time zones chrono-tz knows",
    ],
    run,
};

/// What a name means.
#[derive(Clone, Debug, PartialEq)]
enum M {
    /// the name of a supported type, as the server writes it
    Is(T),
    /// not as the server writes it, but it can only mean this
    May(T),
    /// means this or another enum
    Labels(T),
    /// malformed or not supported
    Not,
}

struct N<'a> {
    s: &'a [char],
    i: usize,
    /// as the server writes it, so far
    strict: bool,
    odd_label: bool,
}
impl N<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) {
        while self.peek().is_some_and(char::is_whitespace) {
            self.i += 1;
            self.strict = false;
        }
    }
    /// Blanks the server may or may not write.
    fn blank(&mut self) {
        if self.peek() == Some(' ') {
            self.i += 1;
        }
        self.ws();
    }
    fn eat(&mut self, c: char) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn open(&mut self) -> Option<()> {
        self.ws();
        self.eat('(')?;
        self.ws();
        Some(())
    }
    fn close(&mut self) -> Option<()> {
        self.ws();
        self.eat(')')
    }
    fn comma(&mut self) -> Option<()> {
        self.ws();
        self.eat(',')?;
        self.blank();
        Some(())
    }
    fn word(&mut self) -> Option<String> {
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_alphanumeric() || c == '_') {
            self.i += 1;
        }
        if st == self.i {
            None
        } else {
            Some(self.s[st..self.i].iter().collect())
        }
    }
    fn int(&mut self) -> Option<i64> {
        let st = self.i;
        if self.eat('+').is_some() {
            self.strict = false;
        } else {
            let _ = self.eat('-');
        }
        let d = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        let t: String = self.s[st..self.i].iter().collect();
        let x: i64 = t.parse().ok()?;
        self.strict &= x.to_string() == t && self.i > d;
        Some(x)
    }
    fn quoted(&mut self, zone: bool) -> Option<String> {
        self.eat('\'')?;
        let mut r = String::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            match c {
                '\'' if self.peek() == Some('\'') => {
                    self.i += 1;
                    self.strict = false;
                    r.push('\'');
                }
                '\'' => return Some(r),
                '\\' => {
                    let d = self.peek()?;
                    self.i += 1;
                    self.odd_label |= zone; // no zone has anything to escape
                    r.push(match d {
                        d if zone => d,
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        '0' => '\0',
                        'b' => '\x08',
                        'f' => '\x0c',
                        '\'' | '\\' => d,
                        d => {
                            self.odd_label = true;
                            d
                        }
                    });
                }
                c => {
                    if "\n\t\r\0\x08\x0c".contains(c) {
                        self.strict = false;
                    }
                    r.push(c)
                }
            }
        }
    }
    fn ty(&mut self) -> Option<T> {
        let id = self.word()?;
        let simple = [
            ("Bool", T::Bool), ("UInt8", T::U(8)), ("UInt16", T::U(16)), ("UInt32", T::U(32)), ("UInt64", T::U(64)), ("UInt128", T::U(128)),
            ("Int8", T::I(8)), ("Int16", T::I(16)), ("Int32", T::I(32)), ("Int64", T::I(64)), ("Int128", T::I(128)),
            ("Float32", T::F32), ("Float64", T::F64), ("String", T::Str), ("Date", T::Date), ("UUID", T::Uuid), ("IPv4", T::Ip4), ("IPv6", T::Ip6),
        ];
        if let Some(t) = simple.iter().find(|x| x.0 == id) {
            return Some(t.1.clone());
        }
        let alias = [
            ("bool", T::Bool), ("boolean", T::Bool),
            ("tinyint", T::I(8)), ("int1", T::I(8)), ("byte", T::I(8)), ("smallint", T::I(16)), ("int", T::I(32)), ("integer", T::I(32)), ("int4", T::I(32)), ("mediumint", T::I(32)), ("bigint", T::I(64)),
            ("float", T::F32), ("real", T::F32), ("single", T::F32), ("double", T::F64),
            ("char", T::Str), ("varchar", T::Str), ("text", T::Str), ("tinytext", T::Str), ("mediumtext", T::Str), ("longtext", T::Str),
            ("blob", T::Str), ("tinyblob", T::Str), ("mediumblob", T::Str), ("longblob", T::Str), ("bytea", T::Str), ("clob", T::Str), ("nchar", T::Str), ("character", T::Str), ("geometry", T::Str),
            ("inet4", T::Ip4), ("inet6", T::Ip6),
        ];
        let low_id = id.to_ascii_lowercase();
        if let Some(t) = simple.iter().map(|x| (x.0.to_ascii_lowercase(), &x.1)).chain(alias.iter().map(|x| (x.0.to_string(), &x.1))).find(|x| x.0 == low_id) {
            self.strict = false;
            return Some(t.1.clone());
        }
        let canon = ["DateTime", "DateTime64", "Decimal", "Enum8", "Enum16", "FixedString", "Nullable", "Array", "Map", "LowCardinality", "SimpleAggregateFunction"];
        self.strict &= canon.contains(&id.as_str());
        // only the names themselves in other letters: still the same types
        Some(match low_id.as_str() {
            "fixedstring" | "binary" => {
                self.open()?;
                let n = self.int()?;
                self.close()?;
                T::Fixed(usize::try_from(n).ok()?)
            }
            "datetime" | "datetime32" | "timestamp" => {
                let at = (self.i, self.strict);
                if self.open().is_some() {
                    let z = self.quoted(true)?;
                    self.close()?;
                    T::DateTime(Some(z))
                } else {
                    (self.i, self.strict) = at;
                    T::DateTime(None)
                }
            }
            "datetime64" => {
                self.open()?;
                let p = self.int()?;
                let z = if self.comma().is_some() { Some(self.quoted(true)?) } else { None };
                self.close()?;
                T::DateTime64(u32::try_from(p).ok()?, z)
            }
            "decimal" | "dec" | "numeric" | "fixed" => {
                self.open()?;
                let p = self.int()?;
                let s = if self.comma().is_some() {
                    self.int()?
                } else {
                    self.strict = false;
                    0
                };
                self.close()?;
                T::Dec(u8::try_from(p).ok()?, u8::try_from(s).ok()?)
            }
            "decimal32" | "decimal64" => {
                self.open()?;
                let s = self.int()?;
                self.close()?;
                T::Dec(if low_id == "decimal32" { 9 } else { 18 }, u8::try_from(s).ok()?)
            }
            "enum8" | "enum16" => {
                self.open()?;
                let mut v: Vec<(String, i16)> = vec![];
                loop {
                    let n = self.quoted(false)?;
                    self.blank();
                    self.eat('=')?;
                    self.blank();
                    let x = i16::try_from(self.int()?).ok()?;
                    if v.iter().any(|y| y.0 == n || y.1 == x) {
                        self.strict = false;
                    }
                    v.push((n, x));
                    if self.comma().is_none() {
                        break;
                    }
                }
                self.close()?;
                if low_id == "enum8" {
                    T::Enum8(v)
                } else {
                    T::Enum16(v)
                }
            }
            "nullable" => {
                self.open()?;
                let t = self.ty()?;
                self.close()?;
                self.strict &= !matches!(t, T::Nullable(_) | T::Array(_) | T::Map(..) | T::Low(_) | T::Agg(..));
                nullable(t)
            }
            "array" => {
                self.open()?;
                let t = self.ty()?;
                self.close()?;
                self.strict &= !matches!(t, T::Agg(..));
                array(t)
            }
            "lowcardinality" => {
                self.open()?;
                let t = self.ty()?;
                self.close()?;
                let k = if let T::Nullable(k) = &t { k } else { &t };
                self.strict &= matches!(k, T::Str | T::Fixed(_) | T::Date | T::DateTime(_) | T::U(8 | 16 | 32 | 64) | T::I(8 | 16 | 32 | 64));
                low(t)
            }
            "map" => {
                self.open()?;
                let k = self.ty()?;
                self.comma()?;
                let v = self.ty()?;
                self.close()?;
                let kk = match &k {
                    T::Low(k) => k,
                    k => k,
                };
                self.strict &= map_keys().iter().any(|m| std::mem::discriminant(m) == std::mem::discriminant(kk)) && !matches!(v, T::Agg(..));
                map(k, v)
            }
            "simpleaggregatefunction" => {
                self.open()?;
                let f = self.word()?;
                self.comma()?;
                let t = self.ty()?;
                self.close()?;
                self.strict &= !matches!(f.as_str(), "argMin" | "argMax") && !matches!(t, T::Agg(..));
                T::Agg(f, Box::new(t))
            }
            _ => return None,
        })
    }
}

fn meaning(name: &str) -> M {
    let s: Vec<char> = name.chars().collect();
    let mut n = N { s: &s, i: 0, strict: true, odd_label: false };
    n.ws();
    let t = n.ty();
    n.ws();
    match t {
        Some(t) if n.i == s.len() && t.valid() => {
            if n.odd_label {
                M::Labels(t)
            } else if n.strict {
                M::Is(t)
            } else {
                M::May(t)
            }
        }
        _ => M::Not,
    }
}

/// Two values.
fn two(t: &T) -> [V; 2] {
    match t {
        T::Nullable(t) => [V::Null, two(t)[1].clone()],
        T::Array(t) => {
            let [a, b] = two(t);
            [V::A(vec![b.clone()]), V::A(vec![a, b])]
        }
        T::Map(k, v) => {
            let ([a, b], [c, d]) = (two(k), two(v));
            [V::M(vec![(a, d.clone())]), V::M(vec![(b, c)])]
        }
        T::Low(t) | T::Agg(_, t) => two(t),
        T::Enum8(v) | T::Enum16(v) => [V::I(v[0].1 as i128), V::I(v[v.len() - 1].1 as i128)],
        T::Dec(p, _) => [V::I(10i128.pow(*p as u32) - 1), V::I(-1)],
        T::Fixed(n) => [V::B(vec![b'q'; *n]), V::B(vec![0; *n])],
        // within the years chrono has, whatever the precision
        T::DateTime64(..) => [V::I(1_600_000_000_123), V::I(-1)],
        t => {
            let v = values(t);
            [v[v.len() - 1].clone(), v[1].clone()]
        }
    }
}

#[derive(PartialEq)]
enum Got {
    Err(String),
    Block,
}

/// A column of type `name` with the values of `data` (0 or 2) is fetched and inserted again.
fn through(name: &str, m: &M, data: &T, rows: usize) -> Result<Got, Fail> {
    let k = kind(name);
    let b = RBlock::new(vec![col("x", data.clone(), two(data)[..rows].to_vec())]);
    let h = b.header();
    COLUMN_NAME.with(|n| *n.borrow_mut() = Some(name.to_string()));
    let ans = if rows == 0 { vec![Step::Send(p_data(&b, false)), Step::Send(p_eos())] } else { answer(&[b.clone()], false) };
    let ins = answer_insert(&h, false);
    COLUMN_NAME.with(|n| *n.borrow_mut() = None);
    let w = World::new(Box::new(move |_, q| if q.sql.starts_with("INSERT") { ins.clone() } else { ans.clone() }));
    w.install();
    let may_fail = !matches!(m, M::Is(_));
    let want = match m {
        M::Is(t) | M::May(t) => Some(t.clone()),
        _ => None,
    };

    let r = guard(|| block_on(async { get(&pool("")).await.map_err(|e| format!("{e:?}"))?.query("S").fetch_all().await.map_err(|e| e.to_string()) }));
    let block = match r {
        Err(p) => return fail(format!("panic: {k}"), format!("a column of type {name:?} makes the query panic: {p}")),
        Ok(None) => return fail(format!("hang: {k}"), format!("a column of type {name:?} makes the query hang")),
        Ok(Some(Err(e))) => {
            if !may_fail {
                return fail(format!("refused: {k}"), format!("a column of type {name:?} cannot be read: {e}"));
            }
            None
        }
        Ok(Some(Ok(b))) => {
            if *m == M::Not {
                let t = b.columns().first().map(|c| c.sql_type().to_string());
                return fail(format!("accepted: {k}"), format!("the type {name:?} is not supported or malformed, but the column is read as {t:?}"));
            }
            Some(b)
        }
    };
    if let Some(b) = &block {
        if let (Some(t), Some(c)) = (&want, b.columns().first()) {
            if c.sql_type() != sql_type(t) {
                return fail(format!("type: {k}"), format!("a column of type {name:?} is read as {:?} instead of {:?}", c.sql_type(), sql_type(t)));
            }
            let cells: Result<Vec<V>, String> = match guard(|| (0..b.row_count()).map(|r| b.get::<Cell, _>(r, 0).map(|c| norm_v(&c.0)).map_err(|e| e.to_string())).collect()) {
                Ok(c) => c,
                Err(p) => return fail(format!("values: {k}"), format!("reading a column of type {name:?} panics: {p}")),
            };
            let v: Vec<V> = two(data)[..rows].iter().map(norm_v).collect();
            if cells.as_ref() != Ok(&v) {
                return fail(format!("values: {k}"), format!("a column of type {name:?} holds {cells:?}, the server sent {v:?}"));
            }
        } else if rows > 0 && want.is_some() {
            return fail(format!("values: {k}"), format!("a column of type {name:?} is not in the result"));
        }
    }

    // and back; without a block, one with no rows and one the crate makes itself
    let src = match &block {
        Some(b) if rows > 0 => b.columns().iter().fold(Block::new(), |r, c| r.column("x", c.clone())),
        _ => {
            let o = RBlock::new(vec![col("x", data.clone(), two(data).to_vec())]);
            match guard(|| make_block(&o)) {
                Ok(Ok(b)) => b,
                _ => return Ok(if block.is_some() { Got::Block } else { Got::Err(String::new()) }), // C15
            }
        }
    };
    let r = guard(|| block_on(async { get(&pool("")).await.map_err(|e| format!("{e:?}"))?.insert("t", src).await.map_err(|e| e.to_string()) }));
    match r {
        Err(p) => return fail(format!("panic: {k}"), format!("a column of type {name:?} makes the insert panic: {p}")),
        Ok(None) => return fail(format!("hang: {k}"), format!("a column of type {name:?} makes the insert hang")),
        Ok(Some(Err(e))) => {
            if !may_fail && block.is_some() && rows > 0 {
                return fail(format!("insert: {k}"), format!("a column read from {name:?} cannot be inserted into it: {e}"));
            }
        }
        Ok(Some(Ok(()))) => {
            if *m == M::Not {
                return fail(format!("insert: {k}"), format!("the type {name:?} is not supported or malformed, but data is inserted into it"));
            }
            if let Some(bad) = w.bad() {
                return fail(format!("insert: {k}"), format!("inserting into a column of type {name:?}: the server cannot read it: {bad}"));
            }
            let x = w.exchanges();
            let Some((_, _, sent)) = x.iter().find(|x| x.1.starts_with("INSERT")) else {
                return fail(format!("insert: {k}"), format!("inserting into {name:?}: nothing was sent"));
            };
            let sent = concat(&sent.iter().filter(|b| !b.cols.is_empty()).cloned().collect::<Vec<_>>());
            if let Some(t) = &want {
                let v: Vec<V> = two(data).iter().map(norm_v).collect();
                let vals: Vec<V> = sent.cols[0].vals.iter().map(norm_v).collect();
                if norm_t(&sent.cols[0].ty) != norm_t(t) || vals != v {
                    return fail(
                        format!("insert: {k}"),
                        format!("values {v:?} inserted into a column of type {name:?} are announced as {} and sent as {vals:?}", sent.cols[0].ty.name()),
                    );
                }
            }
        }
    }
    Ok(if block.is_some() { Got::Block } else { Got::Err(String::new()) })
}

/// What to call a name in a finding: its words.
fn kind(name: &str) -> String {
    name.split(|c: char| !c.is_ascii_alphabetic()).filter(|w| w.len() > 3).take(3).collect::<Vec<_>>().join(" ")
}

fn check(name: &str, original: &T, rows: usize) -> Result<Obs, Fail> {
    let m = meaning(name);
    let data = match &m {
        M::Is(t) | M::May(t) | M::Labels(t) => t.clone(),
        M::Not => original.clone(),
    };
    let g = through(name, &m, &data, rows)?;
    obs_n(&(g == Got::Block, matches!(m, M::Is(_)), name), 2)
}

// ---------------------------------------------------------------- scenarios

/// 0: as the server; 1: no blanks; 2, 3: more of them.
fn spell(name: &str, how: usize) -> String {
    let mut r = String::new();
    let (mut q, mut esc) = (false, false);
    for c in name.chars() {
        if q {
            r.push(c);
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '\'' {
                q = false;
            }
            continue;
        }
        match (c, how) {
            ('\'', _) => {
                q = true;
                r.push(c)
            }
            (' ', 1) => {}
            ('(', 2) => r.push_str("( "),
            (')', 2) => r.push_str(" )"),
            (',', 2) => r.push_str(" ,"),
            ('(', 3) => r.push_str(" ("),
            (' ', 3) => r.push_str("  "),
            (c, _) => r.push(c),
        }
    }
    r
}

fn leaves() -> Vec<T> {
    vec![
        T::U(8), T::Str, T::Fixed(3), T::Bool, T::Date, T::DateTime(None), T::DateTime(Some("Asia/Tokyo".into())), T::DateTime64(3, Some("America/New_York".into())), T::Dec(9, 2), T::Uuid,
        T::Enum8(vec![("a'b".into(), 1), ("),\\ (".into(), -128)]),
    ]
}

/// Every term that is a type to the server, of exactly this depth.
fn terms(depth: usize) -> Vec<T> {
    if depth == 0 {
        return leaves();
    }
    let mut r = vec![];
    for t in terms(depth - 1) {
        r.push(array(t.clone()));
        r.push(map(T::Str, t.clone()));
        r.push(map(low(T::Str), t.clone()));
        if depth == 1 {
            r.push(nullable(t.clone()));
            r.push(low(t.clone()));
            r.push(low(nullable(t.clone())));
            r.push(map(t.clone(), T::U(8)));
        }
        r.push(agg("anyLast", t));
    }
    r.retain(|t| matches!(meaning(&t.name()), M::Is(_)));
    r
}

fn by_name(ch: &Ch, all: &[T]) -> Result<Obs, Fail> {
    let t = ch.pick(all);
    let name = spell(&t.name(), ch.choose(4));
    let rows = if ch.flag() { 0 } else { 2 };
    ch.note(format!("{name}, {rows} rows"));
    check(&name, t, rows)
}

fn decimals(ch: &Ch) -> Result<Obs, Fail> {
    let fun = *ch.pick(&["Decimal", "Decimal32", "Decimal64", "Decimal128", "Decimal256"]);
    let s = ch.choose(81);
    let name = if fun == "Decimal" { format!("Decimal({}, {s})", ch.choose(81)) } else { format!("{fun}({s})") };
    let name = match ch.choose(3) {
        0 => name,
        1 => format!("Array({name})"),
        _ => format!("Nullable({name})"),
    };
    let rows = if ch.flag() { 0 } else { 2 };
    ch.note(format!("{name}, {rows} rows"));
    check(&name, &T::Dec(9, 0), rows)
}

fn zones(ch: &Ch) -> Result<Obs, Fail> {
    let mut zs: Vec<&str> = chrono_tz::TZ_VARIANTS.iter().map(|z| z.name()).collect();
    zs.extend(["", "utc", "Europe", "Europe/Atlantis", "Europe/Moscow ", " UTC", "UTC+3", "Fixed/UTC+03:00:00"]);
    let z = *ch.pick(&zs);
    let p = ch.choose(14);
    let name = if p == 13 { format!("DateTime('{z}')") } else { format!("DateTime64({p}, '{z}')") };
    let name = match ch.choose(4) {
        0 => name,
        1 => format!("Array({name})"),
        2 => format!("Nullable({name})"),
        _ => format!("Map(String, {name})"),
    };
    ch.note(name.clone());
    check(&name, &T::DateTime64(3, None), 2)
}

const SIGNS: [char; 16] = ['a', 'n', '0', '\'', '\\', ',', '=', '(', ')', ' ', '\n', '\t', '\0', 'é', '"', '`'];

fn enums(ch: &Ch, len: usize) -> Result<Obs, Fail> {
    let n = ch.choose(len + 1);
    let label: String = (0..n).map(|_| *ch.pick(&SIGNS)).collect();
    let wide = ch.flag();
    let (lo, hi) = if wide { (-32768, 32767) } else { (-128, 127) };
    let t = ["z".to_string(), label].map(|l| l.to_string());
    let v = match ch.choose(3) {
        0 => vec![(t[1].clone(), lo), (t[0].clone(), hi)],
        1 => vec![(t[0].clone(), -1), (t[1].clone(), 0)],
        _ => vec![(t[1].clone(), hi)],
    };
    let t = if wide { T::Enum16(v) } else { T::Enum8(v) };
    let t = match ch.choose(4) {
        0 => t,
        1 => array(t),
        2 => nullable(t),
        _ => map(t.clone(), array(t)),
    };
    let name = spell(&t.name(), ch.choose(2));
    ch.note(name.clone());
    check(&name, &t, 2)
}

fn numbers_of_enums(ch: &Ch) -> Result<Obs, Fail> {
    let fun = *ch.pick(&["Enum8", "Enum16"]);
    let x = *ch.pick(&["0", "-0", "00", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "99999999999999999999", "", "-", "+1", "1.0", "0x1", "1e1", "--1"]);
    let name = match ch.choose(3) {
        0 => format!("{fun}('a' = {x})"),
        1 => format!("{fun}('a' = 1, 'b' = {x})"),
        _ => format!("Array({fun}('a' = {x}, 'b' = 2))"),
    };
    ch.note(name.clone());
    check(&name, &T::Enum8(vec![("a".into(), 1)]), 2)
}

const OTHERS: [&str; 61] = [
    "", " ", "Int256", "UInt256", "Date32", "Time", "Time64(3)", "BFloat16", "Decimal(19, 2)", "Decimal(38, 5)", "Decimal128(3)", "Decimal256(3)", "Tuple(UInt8)", "Tuple(UInt8, String)", "Tuple(a UInt8, b String)",
    "Nested(a UInt8)", "Point", "Ring", "Polygon", "JSON", "Object('json')", "Variant(UInt8, String)", "Dynamic", "Nothing", "Nullable(Nothing)", "IntervalDay", "AggregateFunction(sum, UInt64)", "AggregateFunction(1, sum, UInt64)",
    "Array(Int256)", "Array(Tuple(UInt8, UInt8))", "Map(String, Tuple(UInt8))", "Map(String, Int256)", "Map(Int256, UInt8)", "LowCardinality(Int256)", "Nullable(Int256)", "SimpleAggregateFunction(any, Int256)", "SimpleAggregateFunction(nothing, UInt8)",
    "SimpleAggregateFunction(sum)", "SimpleAggregateFunction()", "Array()", "Array", "Map", "Map()", "Map(UInt8)", "Map(UInt8,)", "Map(,UInt8)", "Map(UInt8, UInt8, UInt8)", "Nullable", "Nullable()", "LowCardinality", "LowCardinality()", "FixedString", "FixedString()",
    "FixedString(-1)", "DateTime()", "DateTime(UTC)", "DateTime64", "DateTime64()", "DateTime64('UTC')", "DateTime64(10)", "Enum8",
];

fn unsupported(ch: &Ch) -> Result<Obs, Fail> {
    let name = *ch.pick(&OTHERS);
    let t = ch.pick(&[T::U(8), T::Str, T::U(128), nullable(T::U(8)), array(T::U(8)), low(T::Str)]).clone();
    let name = match ch.choose(4) {
        0 => name.to_string(),
        1 => format!("Array({name})"),
        2 => format!("Map(String, {name})"),
        _ => format!("SimpleAggregateFunction(any, {name})"),
    };
    let rows = if ch.flag() { 0 } else { 2 };
    ch.note(format!("{name}, {rows} rows holding {}", t.name()));
    check(&name, &t, rows)
}

const PUT: [char; 20] = ['(', ')', ',', '\'', '\\', '=', ' ', '-', '+', '0', '1', '6', '8', '9', 'N', 'e', 't', '_', 'é', '\n'];

fn slip(ch: &Ch, s: &mut Vec<char>) -> bool {
    if s.is_empty() {
        return false;
    }
    let i = ch.choose(s.len() + 1);
    if i == s.len() {
        let c = *ch.pick(&PUT);
        s.push(c);
        return true;
    }
    let k = ch.choose(4 + 2 * PUT.len());
    match k {
        0 => {
            s.remove(i);
        }
        1 => {
            let c = s[i];
            s.insert(i, c)
        }
        2 => s.truncate(i),
        3 => {
            if i + 1 == s.len() || s[i] == s[i + 1] {
                return false;
            }
            s.swap(i, i + 1)
        }
        k if k < 4 + PUT.len() => {
            if s[i] == PUT[k - 4] {
                return false;
            }
            s[i] = PUT[k - 4]
        }
        k => s.insert(i, PUT[k - 4 - PUT.len()]),
    }
    true
}

fn slips(ch: &Ch, all: &[T], n: usize) -> Result<Obs, Fail> {
    let t = ch.pick(all);
    let mut s: Vec<char> = t.name().chars().collect();
    for _ in 0..n {
        if !slip(ch, &mut s) {
            return obs(&0u8);
        }
    }
    let name: String = s.iter().collect();
    ch.note(format!("{} as {name:?}", t.name()));
    check(&name, t, 2)
}

fn run(cx: &mut Ctx) {
    let mut all = all_types();
    for d in 0..=cx.pick(3, 4) {
        all.extend(terms(d));
    }
    let mut seen = std::collections::HashSet::new();
    all.retain(|t| seen.insert(t.name()));
    cx.explore("terms", |ch| by_name(ch, &all));
    cx.explore("decimals", decimals);
    cx.explore("zones", zones);
    let len = cx.pick(2, 3);
    cx.explore("enums", |ch| enums(ch, len));
    cx.explore("numbers", numbers_of_enums);
    cx.explore("unsupported", unsupported);
    // names of one word each once; of the wrappers a few leaves
    let mut some: Vec<T> = scalars();
    for t in [T::U(8), T::Str, T::Fixed(3), T::DateTime64(3, Some("Asia/Tokyo".into())), T::Dec(9, 2), T::Enum8(vec![("a'".into(), 1), (",".into(), -2)])] {
        some.extend([nullable(t.clone()), array(t.clone()), map(T::Str, t.clone()), map(t.clone(), T::U(16)), low(t.clone()), agg("sum", t.clone()), array(nullable(t.clone())), map(t.clone(), map(T::I(8), array(t)))]);
    }
    some.push(low(nullable(T::Str)));
    some.push(array(low(nullable(T::Str))));
    some.extend(terms(1));
    if cx.thorough {
        some.extend(nested());
        for d in 1..=2 {
            some.extend(terms(d));
        }
    }
    some.retain(|t| matches!(meaning(&t.name()), M::Is(_)));
    let mut seen = std::collections::HashSet::new();
    some.retain(|t| seen.insert(t.name()));
    cx.explore("slips", |ch| slips(ch, &some, 1));
    if cx.thorough {
        let short: Vec<T> = some.iter().filter(|t| t.name().len() <= 16).cloned().collect();
        cx.explore("two slips", |ch| slips(ch, &short, 2));
    }
}
