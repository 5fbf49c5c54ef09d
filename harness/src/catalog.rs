//! Types and boundary values the data properties range over.

use crate::rtypes::*;

pub fn enum8() -> T {
    T::Enum8(vec![("a".into(), 1), ("b b".into(), -128), ("".into(), 127), ("é=,".into(), 0)])
}
pub fn enum16() -> T {
    T::Enum16(vec![("x".into(), -32768), ("y".into(), 300), ("z".into(), 0)])
}

pub fn numbers() -> Vec<T> {
    let mut v = vec![T::Bool];
    for b in [8, 16, 32, 64, 128] {
        v.push(T::U(b));
        v.push(T::I(b));
    }
    v.push(T::F32);
    v.push(T::F64);
    v
}

pub fn scalars() -> Vec<T> {
    let mut v = numbers();
    v.extend([
        T::Str,
        T::Fixed(1),
        T::Fixed(3),
        T::Date,
        T::DateTime(None),
        T::DateTime(Some("Asia/Tokyo".into())),
        T::DateTime64(0, None),
        T::DateTime64(3, Some("America/New_York".into())),
        T::DateTime64(6, None),
        T::DateTime64(9, None),
        T::Dec(1, 0),
        T::Dec(9, 2),
        T::Dec(9, 9),
        T::Dec(10, 3),
        T::Dec(18, 0),
        T::Dec(18, 18),
        enum8(),
        enum16(),
        T::Uuid,
        T::Ip4,
        T::Ip6,
    ]);
    v
}

/// Key types ClickHouse allows in a map.
pub fn map_keys() -> Vec<T> {
    vec![T::Str, T::U(8), T::U(16), T::U(32), T::U(64), T::U(128), T::I(8), T::I(16), T::I(32), T::I(64), T::I(128), T::Date, T::DateTime(None), T::Fixed(3), T::Uuid, T::Ip4, enum8()]
}

pub fn low_keys() -> Vec<T> {
    vec![T::Str, T::Fixed(3), T::Date, T::DateTime(None), T::U(8), T::U(16), T::U(32), T::U(64), T::I(8), T::I(16), T::I(32), T::I(64)]
}

pub fn values(t: &T) -> Vec<V> {
    match t {
        T::Bool => vec![V::U(0), V::U(1)],
        T::U(b) => {
            let m = if *b == 128 { u128::MAX } else { (1u128 << b) - 1 };
            vec![V::U(0), V::U(1), V::U(m), V::U(m - 1), V::U(m / 2 + 1), V::U(0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10 & m)]
        }
        T::I(b) => {
            let m = if *b == 128 { i128::MAX } else { (1i128 << (b - 1)) - 1 };
            vec![V::I(0), V::I(1), V::I(-1), V::I(m), V::I(-m - 1), V::I(0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10 & m), V::I(-2)]
        }
        T::F32 => [0f32, -0.0, 1.5, -1e30, f32::INFINITY, f32::MIN_POSITIVE].iter().map(|x| V::F(x.to_bits() as u64)).collect(),
        T::F64 => [0f64, -0.0, 1.5, -1e300, f64::NEG_INFINITY, f64::MIN_POSITIVE].iter().map(|x| V::F(x.to_bits())).collect(),
        T::Str => vec![s(""), s("a"), s("héllo €"), V::B(vec![0, 255, 128, 10]), V::B(vec![b'x'; 127]), V::B(vec![b'y'; 128]), V::B((0..300u32).map(|x| x as u8).collect())],
        T::Fixed(n) => {
            vec![V::B(vec![0; *n]), V::B(vec![b'a'; *n]), V::B(vec![255; *n]), V::B((0..*n).map(|x| x as u8).collect()), V::B((0..*n).map(|x| if x == 0 { b'q' } else { 0 }).collect())]
        }
        T::Date => [0u128, 1, 18000, 49709, 65535].iter().map(|x| V::U(*x)).collect(),
        T::DateTime(_) => [0u128, 1, 1_600_000_000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1].iter().map(|x| V::U(*x)).collect(),
        T::DateTime64(p, _) => {
            let k = 10i128.pow(*p);
            // 1970, around it, 2020, 1925 and 2238, as far as nanoseconds in 64 bits reach
            vec![V::I(0), V::I(1), V::I(k + k / 2), V::I(1_600_000_000 * k + k / 3), V::I(4_000_000_000 * k), V::I(-1_400_000_000 * k), V::I(8_000_000_000 * k + k / 7), V::I(-1), V::I(-k - k / 3)]
        }
        T::Dec(p, _) => {
            let m = 10i128.pow(*p as u32) - 1;
            vec![V::I(0), V::I(1), V::I(-1), V::I(m), V::I(-m), V::I(m / 3), V::I(-m / 7)]
        }
        T::Enum8(e) | T::Enum16(e) => e.iter().map(|x| V::I(x.1 as i128)).collect(),
        T::Uuid => vec![V::B(vec![0; 16]), V::B((1..17).collect()), V::B(vec![255; 16]), V::B((1..17).rev().collect())],
        T::Ip6 => vec![V::B(vec![0; 16]), V::B((1..17).collect()), V::B(vec![255; 16]), V::B([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 1, 2, 3, 4].to_vec())],
        T::Ip4 => vec![V::U(0), V::U(0x0102_0304), V::U(0xffff_fffe), V::U(0x7f00_0001)],
        T::Nullable(t) => {
            let mut v = vec![V::Null];
            v.extend(values(t));
            v.push(V::Null);
            v
        }
        T::Array(t) => {
            let x = values(t);
            let k = x.len();
            vec![V::A(vec![]), V::A(vec![x[1 % k].clone()]), V::A(x.clone()), V::A(vec![]), V::A(vec![x[k - 1].clone(), x[0].clone()])]
        }
        T::Map(k, w) => {
            let (mut ks, vs) = (values(k), values(w));
            let mut seen = std::collections::HashSet::new();
            ks.retain(|k| seen.insert(k.clone()));
            let at = |i: usize| vs[i % vs.len()].clone();
            let all: Vec<(V, V)> = ks.iter().enumerate().map(|(i, k)| (k.clone(), at(i))).collect();
            vec![V::M(vec![]), V::M(vec![(ks[1 % ks.len()].clone(), at(1))]), V::M(all), V::M(vec![]), V::M(vec![(ks[0].clone(), at(2))])]
        }
        T::Low(t) => {
            let mut v = values(t);
            let w = v.clone();
            v.extend(w);
            v
        }
        T::Agg(_, t) => values(t),
    }
}

pub fn a(t: &T) -> T {
    array(t.clone())
}
pub fn n(t: &T) -> T {
    nullable(t.clone())
}

/// One level of wrapping.
pub fn wrapped() -> Vec<T> {
    let mut v = vec![];
    for t in scalars() {
        v.push(n(&t));
        v.push(a(&t));
    }
    for k in map_keys() {
        v.push(map(k, T::U(8)));
    }
    for t in scalars() {
        v.push(map(T::Str, t));
    }
    for t in low_keys() {
        v.push(low(t.clone()));
        v.push(low(n(&t)));
    }
    for f in ["any", "anyLast", "min", "max", "sum", "sumWithOverflow", "groupBitAnd", "groupBitOr", "groupBitXor", "groupArrayArray", "groupUniqArrayArray", "sumMap", "minMap", "maxMap"] {
        v.push(agg(f, T::U(64)));
    }
    for t in scalars() {
        v.push(agg("any", t));
    }
    v
}

/// Two and more levels.
pub fn nested() -> Vec<T> {
    let mut v = vec![];
    for t in scalars() {
        v.push(a(&n(&t)));
        v.push(a(&a(&t)));
        v.push(map(T::U(16), n(&t)));
        v.push(map(T::Str, a(&t)));
        v.push(agg("anyLast", n(&t)));
    }
    for t in low_keys() {
        v.push(a(&low(t.clone())));
        v.push(a(&low(n(&t))));
    }
    for t in [T::Str, T::U(16), T::Fixed(3)] {
        let l = low(t.clone());
        v.push(map(l.clone(), l.clone()));
        v.push(map(l.clone(), a(&l)));
        v.push(map(T::U(8), low(n(&t))));
        v.push(a(&a(&l)));
        v.push(a(&map(l.clone(), n(&t))));
        v.push(agg("any", l.clone()));
        v.push(agg("anyLast", low(n(&t))));
    }
    for t in [T::U(8), T::Str, T::Date, T::Dec(9, 2)] {
        v.push(a(&a(&a(&t))));
        v.push(a(&map(T::Str, t.clone())));
        v.push(map(T::Str, map(T::U(8), t.clone())));
        v.push(map(T::U(32), a(&n(&t))));
        v.push(a(&a(&n(&t))));
        v.push(agg("groupArrayArray", a(&t)));
        v.push(agg("sumMap", map(T::Str, t.clone())));
        v.push(map(T::Str, map(T::Str, map(T::Str, t.clone()))));
        v.push(map(T::I(8), a(&map(T::Str, n(&t)))));
    }
    v
}

pub fn all_types() -> Vec<T> {
    let mut v = scalars();
    v.extend(wrapped());
    v.extend(nested());
    v
}
