use super::*;
use grafbase_sdk::types::{Data, Error, Field, ResolvedField, Response, SelectionSet, SubscriptionItem, Variables};
use grafbase_sdk::wit;
use grafbase_sdk::wit::grafbase::sdk::schema as sc;
use serde_json::{Map, Value, json};

/// CBOR as RFC 8949 has it, for the kinds of values that occur.
fn decode(b: &[u8], at: &mut usize) -> Option<Value> {
    let first = *b.get(*at)?;
    *at += 1;
    let (major, info) = (first >> 5, first & 31);
    let mut length = |info: u8, at: &mut usize| -> Option<u64> {
        let n = match info {
            0..=23 => return Some(info as u64),
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            _ => return None,
        };
        let mut x = 0u64;
        for _ in 0..n {
            x = x << 8 | *b.get(*at)? as u64;
            *at += 1;
        }
        Some(x)
    };
    match major {
        0 => Some(Value::from(length(info, at)?)),
        1 => {
            let x = length(info, at)?;
            (x <= i64::MAX as u64).then(|| Value::from(-1 - x as i64))
        }
        3 => {
            let n = length(info, at)? as usize;
            let s = std::str::from_utf8(b.get(*at..*at + n)?).ok()?;
            *at += n;
            Some(Value::String(s.to_string()))
        }
        4 | 5 => {
            let open = info == 31;
            let n = if open { u64::MAX } else { length(info, at)? };
            let (mut list, mut map) = (vec![], Map::new());
            let mut k = 0;
            while k < n {
                if open && b.get(*at) == Some(&0xff) {
                    *at += 1;
                    break;
                }
                if major == 4 {
                    list.push(decode(b, at)?);
                } else {
                    let Value::String(key) = decode(b, at)? else { return None };
                    map.insert(key, decode(b, at)?);
                }
                k += 1;
            }
            Some(if major == 4 { Value::Array(list) } else { Value::Object(map) })
        }
        7 => match info {
            20 => Some(Value::Bool(false)),
            21 => Some(Value::Bool(true)),
            22 => Some(Value::Null),
            27 => Some(Value::from(f64::from_bits(length(27, at)?))),
            26 => Some(Value::from(f32::from_bits(length(26, at)? as u32) as f64)),
            _ => None,
        },
        _ => None,
    }
}

fn from_cbor(b: &[u8]) -> Option<Value> {
    let mut at = 0;
    let v = decode(b, &mut at)?;
    (at == b.len()).then_some(v)
}

fn leaf(name: &str) -> Value {
    let kinds = wrt::param(1) as usize;
    match pick(name, kinds.min(6)) {
        0 => Value::Null,
        1 => json!(option(&format!("{name}.b"))),
        2 => Value::from(wrt::i64(&format!("{name}.i"))),
        3 => Value::from(wrt::u64(&format!("{name}.u"))),
        4 => json!([0.5, -0.1, 1e300][pick(&format!("{name}.f"), 3)]),
        _ => json!(wrt::text(&format!("{name}.s"), 2, true)),
    }
}

fn tree(name: &str, depth: usize) -> Value {
    if depth == 0 {
        return leaf(name);
    }
    match pick(&format!("{name}.shape"), 3) {
        0 => leaf(name),
        1 => Value::Array((0..pick(&format!("{name}.n"), 3)).map(|k| tree(&format!("{name}.{k}"), depth - 1)).collect()),
        _ => Value::Object((0..pick(&format!("{name}.n"), 3)).map(|k| (format!("k{k}"), tree(&format!("{name}.{k}"), depth - 1))).collect()),
    }
}

/// The data of a response is encoded as the value it is.
pub fn c41_data() {
    let v = tree("v", wrt::param(0) as usize);
    let by = pick("by", 2);
    let bytes = if by == 0 {
        match Data::new(&v) {
            Ok(Data::Cbor(b)) => b,
            Ok(Data::Json(b)) => {
                wrt::ensure!(serde_json::from_slice::<Value>(&b).ok().as_ref() == Some(&v), "encoded as another value");
                return;
            }
            Err(e) => return wrt::failed(&format!("{v} cannot be encoded: {e}")),
        }
    } else {
        let r = Response::data(&v);
        wrt::ensure!(r.errors.is_empty(), "{v} is an error");
        match r.data {
            Some(Data::Cbor(b)) => b,
            other => return wrt::failed(&format!("{v} became {other:?}")),
        }
    };
    let got = from_cbor(&bytes);
    wrt::ensure!(got.as_ref() == Some(&v), "{v} is encoded as {bytes:?}, which is {got:?}");
    wrt::reach(1);
}

/// Responses and subscription items cross the boundary with all their parts in order.
pub fn c41_response() {
    fn response(name: &str) -> (Response, (Option<(bool, Vec<u8>)>, Vec<String>)) {
        let b = wrt::u8(&format!("{name}.byte"));
        let data = match pick(&format!("{name}.data"), 3) {
            0 => None,
            1 => Some(Data::Json(vec![b])),
            _ => Some(Data::Cbor(vec![b, b])),
        };
        let n = pick(&format!("{name}.errors"), 3);
        let want = match &data {
            None => None,
            Some(Data::Json(b)) => Some((true, b.clone())),
            Some(Data::Cbor(b)) => Some((false, b.clone())),
        };
        let messages: Vec<String> = (0..n).map(|k| format!("{name} {k}")).collect();
        let errors: Vec<Error> = messages.iter().map(|m| m.as_str().into()).collect();
        (Response { data, errors }, (want, messages))
    }
    fn read(r: wit::resolver_types::Response) -> (Option<(bool, Vec<u8>)>, Vec<String>) {
        (
            r.data.map(|d| match d {
                wit::resolver_types::Data::Json(b) => (true, b),
                wit::resolver_types::Data::Cbor(b) => (false, b),
            }),
            r.errors.into_iter().map(|e| e.message).collect(),
        )
    }
    match pick("kind", 4) {
        0 => {
            let (r, want) = response("a");
            wrt::ensure!(read(r.into()) == want, "the response is another one");
        }
        1 => {
            let (r, want) = response("a");
            match wit::resolver_types::SubscriptionItem::from(SubscriptionItem::from(r)) {
                wit::resolver_types::SubscriptionItem::Single(r) => wrt::ensure!(read(r) == want, "the item is another one"),
                wit::resolver_types::SubscriptionItem::Multiple(_) => wrt::failed("one item became several"),
            }
        }
        2 => {
            let n = pick("items", 3);
            let all: Vec<_> = (0..n).map(|k| response(&format!("r{k}"))).collect();
            let (rs, wants): (Vec<_>, Vec<_>) = all.into_iter().unzip();
            match wit::resolver_types::SubscriptionItem::from(SubscriptionItem::from(rs)) {
                wit::resolver_types::SubscriptionItem::Single(_) => wrt::failed("several items became one"),
                wit::resolver_types::SubscriptionItem::Multiple(rs) => {
                    let got: Vec<_> = rs.into_iter().map(read).collect();
                    wrt::ensure!(got == wants, "the items are {got:?}, not {wants:?}");
                }
            }
        }
        _ => {
            let (r, want) = if option("ok") {
                let (r, want) = response("a");
                (Ok(r), want)
            } else {
                (Err(Error::from("boom")), (None, vec!["boom".to_string()]))
            };
            wrt::ensure!(read(r.into()) == want, "the result is another one");
        }
    }
    wrt::reach(1);
}

/// One field of the operation in a flat list; children in contiguous ranges.
fn fields() -> Vec<wit::resolver_types::Field> {
    // 0: root, 1..1+n: its selection, then the selection of the last one of them
    let n = pick("selected", 3);
    let nested = if n > 0 { pick("nested", 3) } else { 0 };
    let field = |k: usize, selection: Option<(u16, u16)>| wit::resolver_types::Field {
        alias: if k == 1 && option("alias") { Some(wrt::word("alias text", 1, b"ab")) } else { None },
        definition_id: if k < 2 { wrt::u32(&format!("definition{k}")) } else { k as u32 },
        arguments: if k % 2 == 0 && option(&format!("arguments{k}")) { Some(k as u16 + 7) } else { None },
        selection_set: selection.map(|r| wit::resolver_types::SelectionSet { requires_typename: k == 0 && option("typename"), fields_ordered_by_parent_entity: r }),
    };
    let mut out = vec![field(0, (n > 0).then_some((1, 1 + n as u16)))];
    for k in 1..=n {
        let inner = (k == n && nested > 0).then_some((1 + n as u16, (1 + n + nested) as u16));
        out.push(field(k, inner));
    }
    for k in 1 + n..1 + n + nested {
        out.push(field(k, None));
    }
    out
}

fn same(f: Field<'_>, raw: &[wit::resolver_types::Field], k: usize, vars: &Variables) {
    let r = &raw[k];
    wrt::ensure!(f.alias() == r.alias.as_deref(), "field {k} has the alias {:?}", f.alias());
    wrt::ensure!(u32::from(f.definition_id()) == r.definition_id, "field {k} has another definition");
    wrt::ensure!(f.arguments_id() == r.arguments.map(Into::into), "field {k} has other arguments");
    // no arguments read as an empty object, otherwise its own
    let got = f.arguments::<Value>(vars).map_err(|e| e.to_string());
    let want = match r.arguments {
        Some(id) => json!({"id": id}),
        None => json!({}),
    };
    wrt::ensure!(got.as_ref() == Ok(&want), "field {k} has the arguments {got:?}, not {want}");
    let s: SelectionSet<'_> = f.selection_set();
    let (start, end, typename) = r.selection_set.map_or((0, 0, false), |s| (s.fields_ordered_by_parent_entity.0, s.fields_ordered_by_parent_entity.1, s.requires_typename));
    wrt::ensure!(s.is_empty() == (start == end), "field {k}: is_empty() is wrong");
    wrt::ensure!(s.requires_typename() == typename, "field {k}: requires_typename() is wrong");
    let inner = s.fields();
    wrt::ensure!(inner.len() == (end - start) as usize, "field {k} selects {} fields", inner.len());
    let mut at = start as usize;
    for x in inner {
        same(x, raw, at, vars);
        at += 1;
    }
    wrt::ensure!(at == end as usize, "field {k} selects {start}..{at}, not {start}..{end}");
}

fn variables(raw: &[wit::resolver_types::Field]) -> Variables {
    // {"id": n} for every id, one more that nobody uses in front
    let mut all = vec![(1000u16, vec![0xa0u8])];
    for f in raw {
        if let Some(id) = f.arguments {
            all.push((id, vec![0xa1, 0x62, b'i', b'd', id as u8]));
        }
    }
    Variables::from(all)
}

/// A field, through what prepare() keeps of it by default.
pub fn c41_field() {
    let raw = fields();
    let root = if option("inner root") { raw.len() - 1 } else { 0 };
    let subgraph = wrt::word("subgraph", 1, b"ab");
    let arg = wrt::u8("directive argument");
    let directive = sc::Directive { name: "dir".to_string(), arguments: vec![0x18, arg] };
    let vars = variables(&raw);
    let field = ResolvedField::from_parts(&subgraph, &directive, root as u16, raw.clone());
    let check = |f: &ResolvedField<'_>| {
        wrt::ensure!(f.subgraph_name() == subgraph, "the subgraph is {:?}", f.subgraph_name());
        wrt::ensure!(f.directive().name() == "dir", "the directive is {:?}", f.directive().name());
        let a = f.directive().arguments::<u8>().ok();
        wrt::ensure!(a == Some(arg), "the directive has the argument {a:?}");
        same(f.as_ref(), &raw, root, &vars);
        wrt::ensure!(f.arguments_id() == raw[root].arguments.map(Into::into) && u32::from(f.definition_id()) == raw[root].definition_id, "the root field is another one");
    };
    check(&field);
    let bytes: Vec<u8> = field.into();
    match ResolvedField::try_from(bytes.as_slice()) {
        Ok(f) => check(&f),
        Err(e) => wrt::failed(&format!("what prepare() returns cannot be read: {e}")),
    }
    wrt::reach(1);
}

/// Variables are found by their id.
pub fn c41_variables() {
    let n = wrt::param(0) as usize;
    let ids: Vec<u16> = (0..n).map(|k| wrt::u16(&format!("id{k}"))).collect();
    for i in 0..n {
        for j in 0..i {
            wrt::assume(ids[i] != ids[j]);
        }
    }
    let vs: Vec<u8> = (0..n).map(|k| wrt::u8(&format!("v{k}"))).collect();
    let vars = Variables::from(ids.iter().zip(&vs).map(|(i, v)| (*i, vec![0x18, *v])).collect::<Vec<_>>());
    let at = pick("at", n);
    let got = vars.get::<u8>(ids[at].into()).ok();
    // small numbers in the longer form are still numbers
    wrt::ensure!(got == Some(vs[at]), "variable {at} reads as {got:?}");
    wrt::reach(1);
}
