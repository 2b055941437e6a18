use super::*;
use grafbase_sdk::host_io::postgres::Query;
use grafbase_sdk::host_io::postgres::types::{DatabaseType, DatabaseValue, Interval, PgType, Point};
use grafbase_sdk::wit::{PgBoundValue, PgValue};
use serde_json::{Value, json};

const TYPES: [PgType; 30] = [
    PgType::Boolean, PgType::Int16, PgType::Int32, PgType::Int64, PgType::Float32, PgType::Float64, PgType::String, PgType::Bytes, PgType::Point,
    PgType::Interval, PgType::Cidr, PgType::Xml, PgType::Macaddr, PgType::Macaddr8, PgType::Bit, PgType::Varbit, PgType::Oid, PgType::Json,
    PgType::Jsonb, PgType::Money, PgType::Numeric, PgType::Decimal, PgType::Time, PgType::Timetz, PgType::Date, PgType::Datetime, PgType::Inet,
    PgType::Timestamp, PgType::Timestamptz, PgType::Uuid,
];

fn is_json(t: PgType) -> bool {
    matches!(t, PgType::Json | PgType::Jsonb)
}

/// A bound value as the host sees it.
#[derive(Debug, Clone, PartialEq)]
enum V {
    Null,
    Bool(bool),
    I16(i16),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    Str(String),
    Bytes(Vec<u8>),
    Point(u64, u64),
    Interval(i32, i32, i64),
    Arr(Vec<V>),
    Other,
}

fn resolve(v: &PgValue, tree: &[PgValue], what: &str) -> V {
    match v {
        PgValue::Null => V::Null,
        PgValue::Boolean(b) => V::Bool(*b),
        PgValue::Int16(x) => V::I16(*x),
        PgValue::Int32(x) => V::I32(*x),
        PgValue::Int64(x) => V::I64(*x),
        PgValue::Float32(x) => V::F32(x.to_bits()),
        PgValue::Float64(x) => V::F64(x.to_bits()),
        PgValue::String(s) => V::Str(s.clone()),
        PgValue::Bytes(b) => V::Bytes(b.clone()),
        PgValue::Point((x, y)) => V::Point(x.to_bits(), y.to_bits()),
        PgValue::Interval((months, days, us)) => V::Interval(*months, *days, *us),
        PgValue::Array(ix) => V::Arr(
            ix.iter()
                .map(|i| match tree.get(*i as usize) {
                    Some(x) => resolve(x, tree, what),
                    None => {
                        wrt::failed(&format!("{what}: element {i} of {} bound elements", tree.len()));
                        V::Other
                    }
                })
                .collect(),
        ),
        _ => V::Other,
    }
}

/// The value as the host gets it for a query with this one parameter.
fn bound(v: DatabaseValue) -> (V, PgType, bool) {
    let mut b = Query::builder();
    b.bind_value(v);
    let q = b.finalize();
    let (values, tree) = q.bound();
    wrt::ensure!(values.len() == 1, "{} values bound for one", values.len());
    let PgBoundValue { value, type_, is_array } = &values[0];
    (resolve(value, tree, "a single value"), *type_, *is_array)
}

fn integer(t: PgType, n: i128) -> Option<V> {
    match t {
        PgType::Int16 => i16::try_from(n).ok().map(V::I16),
        PgType::Int32 => i32::try_from(n).ok().map(V::I32),
        PgType::Int64 => i64::try_from(n).ok().map(V::I64),
        _ => None,
    }
}

/// Every integer for every column type, alone and in an array: all of those that fit the column, and seven
/// values around both ends of each integer type.
pub fn c33_integers() {
    let t = TYPES[pick("type", TYPES.len())];
    wrt::assume(!is_json(t));
    let range = match t {
        PgType::Int16 => Some((i16::MIN as i64, i16::MAX as i64)),
        PgType::Int32 => Some((i32::MIN as i64, i32::MAX as i64)),
        PgType::Int64 => Some((i64::MIN, i64::MAX)),
        _ => None,
    };
    let (v, n) = if range.is_some() && option("fits") {
        let (lo, hi) = range.unwrap();
        let x = wrt::i64("value");
        wrt::assume(x >= lo && x <= hi);
        (Value::from(x), x as i128)
    } else if option("unsigned") {
        let x = [1u64 << 63, (1 << 63) + 1, u64::MAX, u64::MAX - 1, (1 << 63) + (1 << 32), 1 << 63 | 0x7fff][pick("big", 6)];
        (Value::from(x), x as i128)
    } else {
        let ends = [
            0,
            i16::MIN as i64,
            i16::MAX as i64,
            u16::MAX as i64,
            i32::MIN as i64,
            i32::MAX as i64,
            u32::MAX as i64,
            i64::MIN,
            i64::MAX,
        ];
        let x = ends[pick("end", ends.len())].saturating_add(pick("offset", 7) as i64 - 3);
        (Value::from(x), x as i128)
    };
    let array = option("array");
    let v = if array { json!([v]) } else { v };
    match DatabaseValue::from_json_input(v, t, array) {
        Ok(x) => {
            let (got, ty, is_array) = bound(x);
            if !matches!(t, PgType::Float32 | PgType::Float64) {
                let want = integer(t, n);
                wrt::ensure!(want.is_some(), "{n} bound to a {t:?} column as {got:?}");
                let want = want.unwrap();
                let want = if array { V::Arr(vec![want]) } else { want };
                wrt::ensure!(got == want, "{n} became {got:?} for {t:?}");
                wrt::ensure!(ty == t && is_array == array, "{n} for {t:?} is bound as {ty:?} {is_array}");
                wrt::reach(1);
            }
        }
        Err(_) => {
            wrt::ensure!(integer(t, n).is_none(), "{n} rejected for {t:?}");
            wrt::reach(2);
        }
    }
}

/// Floats: the nearest value of the column's type, never an infinite one.
pub fn c33_floats() {
    let values = [0.5f64, -2.25, 1.0e300, -1.0e300, 3.4028234663852886e38, 3.5e38, 0.1, 1e-300, f64::MAX, 16777217.5];
    let f = values[pick("value", values.len())];
    let t = TYPES[pick("type", TYPES.len())];
    wrt::assume(!is_json(t));
    let array = option("array");
    let v = if array { json!([f, 0.5, null]) } else { json!(f) };
    let got = DatabaseValue::from_json_input(v, t, array).map(bound);
    match (t, got) {
        (PgType::Float64, Ok((got, ty, a))) => {
            let want = V::F64(f.to_bits());
            wrt::ensure!(got == if array { V::Arr(vec![want, V::F64(0.5f64.to_bits()), V::Null]) } else { want } && ty == t && a == array, "{f} became {got:?}");
            wrt::reach(1);
        }
        (PgType::Float32, Ok((got, ty, a))) => {
            let want = V::F32((f as f32).to_bits());
            wrt::ensure!((f as f32).is_finite(), "{f} is bound as an infinite value");
            wrt::ensure!(got == if array { V::Arr(vec![want, V::F32(0.5f32.to_bits()), V::Null]) } else { want } && ty == t && a == array, "{f} became {got:?}");
            wrt::reach(1);
        }
        (PgType::Float64, Err(_)) => wrt::failed("a float is rejected for a float column"),
        (PgType::Float32, Err(_)) => {
            wrt::ensure!((f as f32).is_infinite(), "{f} is rejected for a float column");
            wrt::reach(2);
        }
        (_, Ok((got, ..))) => wrt::failed(&format!("{f} bound to a {t:?} column as {got:?}")),
        (_, Err(_)) => wrt::reach(2),
    }
}

/// Strings are bound as they are, with the type of the column.
pub fn c33_text() {
    let t = TYPES[pick("type", TYPES.len())];
    wrt::assume(!is_json(t) && t != PgType::Bytes);
    let s = wrt::text("text", wrt::param(0) as usize, true);
    let array = option("array");
    let v = if array { json!([s, "end"]) } else { json!(s) };
    match DatabaseValue::from_json_input(v, t, array) {
        Ok(x) => {
            if !array {
                wrt::ensure!(x.as_str() == Some(s.as_str()), "as_str() is another string");
            }
            let (got, ty, a) = bound(x);
            let want = if array { V::Arr(vec![V::Str(s.clone()), V::Str("end".into())]) } else { V::Str(s.clone()) };
            wrt::ensure!(got == want, "{s:?} became {got:?}");
            wrt::ensure!(ty == t && a == array, "{s:?} for {t:?} is bound as {ty:?} {a}");
            wrt::reach(1);
        }
        Err(e) => wrt::failed(&format!("{s:?} rejected for {t:?}: {e}")),
    }
}

fn hex(b: u8) -> Option<u8> {
    match b {
        b'0'..=b'9' => Some(b - b'0'),
        b'a'..=b'f' => Some(b - b'a' + 10),
        b'A'..=b'F' => Some(b - b'A' + 10),
        _ => None,
    }
}

/// Byte strings: `\x` and pairs of hexadecimal digits; everything else is rejected.
pub fn c33_bytes() {
    let prefix = ["\\x", "\\X", "x", "\\", ""][pick("prefix", 5)];
    let digits = wrt::text("digits", wrt::param(0) as usize, true);
    let s = format!("{prefix}{digits}");
    let want: Option<Vec<u8>> = s.strip_prefix("\\x").and_then(|d| {
        let d = d.as_bytes();
        if d.len() % 2 != 0 {
            return None;
        }
        d.chunks(2).map(|p| Some(hex(p[0])? << 4 | hex(p[1])?)).collect()
    });
    let array = option("array");
    let v = if array { json!([s]) } else { json!(s) };
    match (DatabaseValue::from_json_input(v, PgType::Bytes, array), want) {
        (Ok(x), Some(w)) => {
            let (got, ty, a) = bound(x);
            let want = if array { V::Arr(vec![V::Bytes(w)]) } else { V::Bytes(w) };
            wrt::ensure!(got == want && ty == PgType::Bytes && a == array, "{s:?} became {got:?} {ty:?} {a}");
            wrt::reach(1);
        }
        (Ok(x), None) => wrt::failed(&format!("{s:?} is accepted as {:?}", bound(x))),
        (Err(e), Some(_)) => wrt::failed(&format!("{s:?} is rejected: {e}")),
        (Err(_), None) => wrt::reach(2),
    }
}

/// Nulls, booleans, objects and mixed arrays.
pub fn c33_shapes() {
    let t = TYPES[pick("type", TYPES.len())];
    wrt::assume(!is_json(t));
    let flag = option("column array");
    match pick("shape", 4) {
        0 => {
            let v = DatabaseValue::from_json_input(Value::Null, t, flag).unwrap();
            wrt::ensure!(v.is_null(), "null is not null");
            let got = bound(v);
            wrt::ensure!(got == (V::Null, t, flag), "null became {got:?}");
            wrt::reach(1);
        }
        1 => {
            let b = option("bool");
            if let Ok(v) = DatabaseValue::from_json_input(Value::Bool(b), t, false) {
                let (got, ty, a) = bound(v);
                wrt::ensure!(got == V::Bool(b) && !a, "{b} became {got:?} {a}");
                wrt::ensure!(ty == t || ty == PgType::Boolean, "{b} is bound as {ty:?}");
                wrt::reach(1);
            } else {
                wrt::ensure!(t != PgType::Boolean, "a boolean is rejected for its column");
            }
        }
        2 => {
            // an array of up to three of null, boolean, text, object, nested array
            let n = pick("len", 4);
            let (mut vs, mut want, mut bad) = (vec![], vec![], false);
            for k in 0..n {
                let s = wrt::word(&format!("s{k}"), 1, b"a\"\\0");
                match pick(&format!("kind{k}"), 5) {
                    0 => {
                        vs.push(Value::Null);
                        want.push(V::Null);
                    }
                    1 => {
                        vs.push(json!(k % 2 == 0));
                        want.push(V::Bool(k % 2 == 0));
                    }
                    2 => {
                        vs.push(json!(s));
                        want.push(V::Str(s));
                        bad |= t == PgType::Bytes;
                    }
                    3 => {
                        vs.push(json!({"k": k}));
                        want.push(V::Str(format!("{{\"k\":{k}}}")));
                    }
                    _ => {
                        vs.push(json!([]));
                        bad = true;
                    }
                }
            }
            match DatabaseValue::from_json_input(Value::Array(vs.clone()), t, flag) {
                Ok(v) => {
                    wrt::ensure!(!bad, "{vs:?} is accepted for {t:?}");
                    let list = v.to_list().map(|l| l.into_iter().map(bound).collect::<Vec<_>>());
                    let one: Vec<_> = want.iter().map(|x| (x.clone(), t, false)).collect();
                    wrt::ensure!(list.as_ref() == Some(&one), "{vs:?} lists as {list:?}");
                    let each: Vec<_> = v.clone().iter().map(bound).collect();
                    wrt::ensure!(each == one, "{vs:?} iterates as {each:?}");
                    let (got, ty, a) = bound(v);
                    wrt::ensure!(got == V::Arr(want) && ty == t && a, "{vs:?} became {got:?} {ty:?} {a}");
                    wrt::reach(1);
                }
                Err(_) => {
                    wrt::ensure!(bad || t != PgType::Boolean && vs.iter().any(Value::is_boolean), "{vs:?} is rejected for {t:?}");
                    wrt::reach(2);
                }
            }
        }
        _ => {
            let s = wrt::word("s", 2, b"a\"\\");
            let v = json!({"k": s});
            if let Ok(x) = DatabaseValue::from_json_input(v.clone(), t, flag) {
                let (got, ty, _) = bound(x);
                let V::Str(text) = got else { panic!("an object became {got:?}") };
                wrt::ensure!(serde_json::from_str::<Value>(&text).ok() == Some(v.clone()) && ty == t, "{v} became {text:?} {ty:?}");
                wrt::reach(1);
            }
        }
    }
}

fn some_json(name: &str, depth: usize) -> Value {
    match pick(name, if depth == 0 { 4 } else { 6 }) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(-7),
        3 => json!(wrt::word(&format!("{name}.s"), 1, b"a\"")),
        4 => Value::Array((0..pick(&format!("{name}.n"), 3)).map(|k| some_json(&format!("{name}.{k}"), depth - 1)).collect()),
        _ => json!({"k": some_json(&format!("{name}.k"), depth - 1)}),
    }
}

/// JSON columns get the document, columns of JSON arrays one document per element.
pub fn c33_json() {
    let t = [PgType::Json, PgType::Jsonb][pick("type", 2)];
    let v = some_json("value", wrt::param(0) as usize);
    let array = option("array");
    let read = |x: &V| match x {
        V::Str(s) => serde_json::from_str::<Value>(s).ok(),
        _ => None,
    };
    match DatabaseValue::from_json_input(v.clone(), t, array) {
        Ok(x) => {
            let (got, ty, a) = bound(x);
            wrt::ensure!(ty == t && a == array, "{v} is bound as {ty:?} {a}");
            match (&got, &v, array) {
                (V::Arr(xs), Value::Array(vs), true) => {
                    let docs: Vec<_> = xs.iter().map(read).collect();
                    wrt::ensure!(docs == vs.iter().cloned().map(Some).collect::<Vec<_>>(), "{v} became {xs:?}");
                    wrt::reach(1);
                }
                (V::Null, Value::Null, _) => wrt::reach(2),
                _ => {
                    wrt::ensure!(read(&got) == Some(v.clone()), "{v} became {got:?}");
                    wrt::reach(2);
                }
            }
        }
        Err(e) => wrt::failed(&format!("{v} rejected: {e}")),
    }
}

/// Parameters bound one after another arrive as they were, arrays with their own elements.
pub fn c33_query() {
    use std::fmt::Write;
    let mut b = Query::builder();
    let mut want = vec![];
    let n = wrt::param(0) as usize;
    for k in 0..n {
        let x = wrt::u32(&format!("x{k}")) as i32;
        match pick(&format!("kind{k}"), 8) {
            0 => {
                b.bind(x);
                want.push((V::I32(x), PgType::Int32, false));
            }
            1 => {
                let xs: Vec<i32> = (0..pick(&format!("len{k}"), 3)).map(|i| x.wrapping_add(i as i32)).collect();
                want.push((V::Arr(xs.iter().map(|x| V::I32(*x)).collect()), PgType::Int32, true));
                b.bind(xs);
            }
            2 => {
                let xs: Vec<Option<String>> = vec![None, Some(format!("s{k}"))];
                b.bind(xs);
                want.push((V::Arr(vec![V::Null, V::Str(format!("s{k}"))]), PgType::String, true));
            }
            3 => {
                let v = json!([null, x]);
                b.bind_value(DatabaseValue::from_json_input(v, PgType::Int32, true).unwrap());
                want.push((V::Arr(vec![V::Null, V::I32(x)]), PgType::Int32, true));
            }
            4 => {
                b.bind(Some(x as i16));
                want.push((V::I16(x as i16), PgType::Int16, false));
            }
            5 => {
                b.bind(None::<bool>);
                want.push((V::Null, PgType::Boolean, false));
            }
            6 => {
                b.bind(x as u32);
                want.push((V::I64(x as u32 as i64), PgType::Int64, false));
            }
            _ => {
                b.bind_value(vec![x as i64].into_bound_value(0));
                want.push((V::Arr(vec![V::I64(x as i64)]), PgType::Int64, true));
            }
        }
        write!(b, "${}", k + 1).unwrap();
        wrt::ensure!(b.bound_values() == k + 1, "{} values after {}", b.bound_values(), k + 1);
    }
    let q = b.finalize();
    let text: String = (1..=n).map(|k| format!("${k}")).collect();
    wrt::ensure!(q.to_string() == text, "the query text is {q}");
    let (values, tree) = q.bound();
    wrt::ensure!(values.len() == want.len(), "{} values bound for {}", values.len(), want.len());
    for (k, (v, w)) in values.iter().zip(&want).enumerate() {
        let got = (resolve(&v.value, tree, &format!("parameter {k}")), v.type_, v.is_array);
        wrt::ensure!(got == *w, "parameter {k} is {got:?}, not {w:?}");
    }
    wrt::reach(1);
}

/// What a list value says about its elements.
pub fn c33_lists() {
    let n = pick("len", 4);
    let xs: Vec<i64> = (0..n).map(|k| wrt::i64(&format!("x{k}"))).collect();
    let v = xs.clone().into_bound_value(0);
    let want: Vec<_> = xs.iter().map(|x| (V::I64(*x), PgType::Int64, false)).collect();
    let list: Vec<_> = v.to_list().expect("a list").into_iter().map(bound).collect();
    wrt::ensure!(list == want, "{xs:?} lists as {list:?}");
    let each: Vec<_> = v.clone().iter().map(bound).collect();
    wrt::ensure!(each == want, "{xs:?} iterates as {each:?}");
    wrt::ensure!(bound(v).0 == V::Arr(want.into_iter().map(|x| x.0).collect()), "{xs:?} is bound as something else");
    // a scalar is a sequence of one, and no list
    let x = wrt::i64("scalar");
    let v = x.into_bound_value(0);
    wrt::ensure!(v.to_list().is_none(), "a scalar lists elements");
    let each: Vec<_> = v.iter().map(bound).collect();
    wrt::ensure!(each == [(V::I64(x), PgType::Int64, false)], "{x} iterates as {each:?}");
    wrt::reach(1);
}

/// One value of a Rust type, alone, optional and in a list.
fn typed<T: DatabaseType + Clone>(x: T, want: V, ty: PgType) {
    let one = |v: DatabaseValue, want: V, array: bool| {
        let got = bound(v);
        wrt::ensure!(got == (want.clone(), ty, array), "bound as {got:?} instead of {want:?} of {ty:?}");
    };
    match pick("form", 5) {
        0 => one(x.into_bound_value(0), want, false),
        1 => one(Some(x).into_bound_value(0), want, false),
        2 => one(None::<T>.into_bound_value(0), V::Null, false),
        3 => one(vec![Some(x.clone()), None, Some(x)].into_bound_value(0), V::Arr(vec![want.clone(), V::Null, want]), true),
        _ => {
            let mut b = Query::builder();
            b.bind(1i32);
            b.bind(vec![x.clone(), x.clone()]);
            b.bind(Vec::<T>::new());
            b.bind(x);
            let q = b.finalize();
            let (values, tree) = q.bound();
            let got: Vec<_> = values.iter().map(|v| (resolve(&v.value, tree, "a list"), v.type_, v.is_array)).collect();
            let all = vec![(V::I32(1), PgType::Int32, false), (V::Arr(vec![want.clone(), want.clone()]), ty, true), (V::Arr(vec![]), ty, true), (want, ty, false)];
            wrt::ensure!(got == all, "bound as {got:?} instead of {all:?}");
        }
    }
}

/// Values of every Rust type that can be bound.
pub fn c33_types() {
    use std::time::{Duration, SystemTime};
    let x = wrt::i64("x");
    let s = |t: &str| V::Str(t.to_string());
    match pick("type", 17) {
        0 => typed(x as i16, V::I16(x as i16), PgType::Int16),
        1 => typed(x as i32, V::I32(x as i32), PgType::Int32),
        2 => typed(x as u32, V::I64(x as u32 as i64), PgType::Int64),
        3 => typed(x, V::I64(x), PgType::Int64),
        4 => typed(f32::from_bits(x as u32), V::F32(x as u32), PgType::Float32),
        5 => typed(f64::from_bits(x as u64), V::F64(x as u64), PgType::Float64),
        6 => typed(x & 1 == 1, V::Bool(x & 1 == 1), PgType::Boolean),
        7 => {
            let t = wrt::text("text", 2, true);
            typed(t.clone(), V::Str(t), PgType::String)
        }
        8 => {
            let t = [0u64, 1, 1_700_000_000_123_456, 253_402_300_799_999_999][pick("time", 4)];
            let time = SystemTime::UNIX_EPOCH + Duration::from_micros(t);
            if option("utc") { typed(chrono::DateTime::from_timestamp_micros(t as i64).unwrap(), V::I64(t as i64), PgType::Timestamp) } else { typed(time, V::I64(t as i64), PgType::Int64) }
        }
        9 => {
            let (v, t) = [(json!({"b": [1, null], "a": "q\""}), r#"{"a":"q\"","b":[1,null]}"#), (json!(null), "null"), (json!("x"), "\"x\"")][pick("json", 3)].clone();
            // the order of members is not part of the value
            let t = if v.is_object() { v.to_string() } else { t.to_string() };
            typed(v, V::Str(t), PgType::Jsonb)
        }
        10 => typed(uuid::Uuid::from_u128(0x0123_4567_89ab_cdef_0123_4567_89ab_cdef), s("01234567-89ab-cdef-0123-456789abcdef"), PgType::Uuid),
        11 => typed(chrono::NaiveDate::from_ymd_opt(2024, 2, 29).unwrap(), s("2024-02-29"), PgType::Date),
        12 => typed(chrono::NaiveTime::from_hms_micro_opt(1, 2, 3, 4).unwrap(), s("01:02:03.000004"), PgType::Time),
        13 => typed(rust_decimal::Decimal::new(-12345, 3), s("-12.345"), PgType::Decimal),
        14 => typed(Point { x: f64::from_bits(x as u64), y: 1.5 }, V::Point(x as u64, 1.5f64.to_bits()), PgType::Point),
        15 => {
            let (months, days) = (wrt::u32("months") as i32, wrt::u32("days") as i32);
            typed(Interval { months, days, microseconds: x }, V::Interval(months, days, x), PgType::Interval)
        }
        _ => typed(vec![x as u8, (x >> 8) as u8], V::Bytes(vec![x as u8, (x >> 8) as u8]), PgType::Bytes),
    }
    wrt::reach(1);
}

/// The cast of a value names the type of its column, as a list when it is one.
pub fn c33_casts() {
    let t = TYPES[pick("type", TYPES.len())];
    let array = option("array");
    let name = match t {
        PgType::Bit | PgType::Varbit => Some("bit varying".to_string()),
        PgType::Int64 => Some("bigint".to_string()),
        PgType::Xml => Some("XML".to_string()),
        PgType::Cidr | PgType::Macaddr | PgType::Macaddr8 | PgType::Oid | PgType::Json | PgType::Jsonb | PgType::Money | PgType::Numeric | PgType::Decimal | PgType::Time | PgType::Date
        | PgType::Timetz | PgType::Inet | PgType::Timestamp | PgType::Timestamptz | PgType::Uuid => Some(format!("{t:?}").rsplit(':').next().unwrap().to_lowercase()),
        _ => None,
    };
    // no value of an element, so that it is one of every type
    let v = if array { json!([null]) } else { json!(null) };
    let Ok(v) = DatabaseValue::from_json_input(v, t, array) else {
        wrt::failed("null is rejected");
        return;
    };
    let want = name.map(|n| if array { format!("{n}[]") } else { n });
    let json_array = array && is_json(t);
    wrt::ensure!(v.type_cast() == want.as_deref() || json_array, "the cast of {t:?} is {:?}, not {want:?}", v.type_cast());
    wrt::reach(1);
}
