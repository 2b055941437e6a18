use super::*;
use grafbase_sdk::types::{AuthorizationDecisions, DenySomeBuilder, DirectiveSite, Error, QueryElements, ResponseElements};
use grafbase_sdk::wit::grafbase::sdk::{authorization_types as at, schema as sc};

/// CBOR of a small unsigned number.
fn cbor(x: u8) -> Vec<u8> {
    if x < 24 { vec![x] } else { vec![0x18, x] }
}

fn site(k: usize, n: usize) -> sc::DirectiveSite {
    let name = format!("T{n}");
    match k {
        0 => sc::DirectiveSite::Scalar(sc::ScalarDirectiveSite { scalar_name: name }),
        1 => sc::DirectiveSite::Object(sc::ObjectDirectiveSite { object_name: name }),
        2 => sc::DirectiveSite::FieldDefinition(sc::FieldDefinitionDirectiveSite { parent_type_name: name, field_name: format!("f{n}") }),
        3 => sc::DirectiveSite::Interface(sc::InterfaceDirectiveSite { interface_name: name }),
        4 => sc::DirectiveSite::Union(sc::UnionDirectiveSite { union_name: name }),
        _ => sc::DirectiveSite::Enum(sc::EnumDirectiveSite { enum_name: name }),
    }
}

fn same_site(a: DirectiveSite<'_>, k: usize, n: usize) -> bool {
    let name = format!("T{n}");
    match a {
        DirectiveSite::Scalar(s) => k == 0 && s.name() == name,
        DirectiveSite::Object(s) => k == 1 && s.name() == name,
        DirectiveSite::FieldDefinition(s) => k == 2 && s.parent_type_name() == name && s.name() == format!("f{n}"),
        DirectiveSite::Interface(s) => k == 3 && s.name() == name,
        DirectiveSite::Union(s) => k == 4 && s.name() == name,
        DirectiveSite::Enum(s) => k == 5 && s.name() == name,
    }
}

/// What the host makes of the decisions: the messages of every element.
fn denied(d: AuthorizationDecisions, n: usize) -> Vec<Vec<String>> {
    match at::AuthorizationDecisions::from(d) {
        at::AuthorizationDecisions::GrantAll => vec![vec![]; n],
        at::AuthorizationDecisions::DenyAll(e) => vec![vec![e.message]; n],
        at::AuthorizationDecisions::DenySome(some) => {
            let mut out = vec![vec![]; n];
            for (x, e) in &some.element_to_error {
                wrt::ensure!((*x as usize) < n, "element {x} of {n} is denied");
                wrt::ensure!((*e as usize) < some.errors.len(), "error {e} of {} is used", some.errors.len());
                out[*x as usize].push(some.errors[*e as usize].message.clone());
            }
            out
        }
    }
}

/// Decides over elements that are met in some order; `expected` is by position.
struct Decider {
    b: DenySomeBuilder,
    shared: Option<grafbase_sdk::types::ErrorId>,
}

impl Decider {
    fn new() -> Self {
        Decider { b: AuthorizationDecisions::deny_some_builder(), shared: None }
    }
}

macro_rules! decide {
    ($d:expr, $x:expr, $at:expr, $expected:expr) => {
        match pick(&format!("decision{}", $at), 3) {
            0 => {}
            1 => {
                $d.b.deny($x, Error::new(format!("own {}", $at)));
                $expected[$at].push(format!("own {}", $at));
            }
            _ => {
                let id = match $d.shared {
                    Some(id) => id,
                    None => $d.b.push_error("shared"),
                };
                $d.shared = Some(id);
                $d.b.deny_with_error_id($x, id);
                $expected[$at].push("shared".to_string());
            }
        }
    };
}

/// Two reasons for one element: the host is told both.
macro_rules! decide_twice {
    ($d:expr, $x:expr, $at:expr, $expected:expr) => {
        if option(&format!("twice{}", $at)) {
            let id = $d.b.push_error(format!("first {}", $at));
            $d.b.deny_with_error_id($x, id);
            $expected[$at].push(format!("first {}", $at));
            $d.b.deny($x, Error::new(format!("second {}", $at)));
            $expected[$at].push(format!("second {}", $at));
        } else {
            decide!($d, $x, $at, $expected)
        }
    };
}

/// authorize_query: elements in up to three directive groups, all of them visited.
pub fn c40_query() {
    let groups = pick("groups", 3) + 1;
    let mut names = vec![];
    let mut n = 0usize;
    for g in 0..groups {
        let len = pick(&format!("len{g}"), wrt::param(0) as usize + 1);
        names.push((format!("d{g}"), n as u32, (n + len) as u32));
        n += len;
    }
    wrt::assume(n > 0);
    let kinds: Vec<usize> = (0..n).map(|k| if k == 0 { pick("site", 6) } else { k % 6 }).collect();
    let ids: Vec<u32> = (0..n).map(|k| wrt::u32(&format!("id{k}"))).collect();
    let args: Vec<u8> = (0..n).map(|k| if k == 0 { wrt::u8("arg") } else { k as u8 }).collect();
    let subgraph = option("subgraph");
    let elements = at::QueryElements {
        directive_names: names.clone(),
        elements: (0..n)
            .map(|k| at::QueryElement { id: ids[k], site: site(kinds[k], k), arguments: cbor(args[k]), subgraph_name: subgraph.then(|| format!("s{k}")) })
            .collect(),
    };
    let view = QueryElements::from(&elements);
    wrt::ensure!(view.len() == n, "{} elements, not {n}", view.len());
    let mut expected = vec![vec![]; n];
    let mut d = Decider::new();
    let mut seen = 0usize;
    let check = |e: grafbase_sdk::types::QueryElement<'_>, k: usize| {
        wrt::ensure!(u32::from(e.id()) == ids[k], "element {k} has the id of another one");
        wrt::ensure!(same_site(e.directive_site(), kinds[k], k), "element {k} has another site");
        wrt::ensure!(e.subgraph_name().map(str::to_string) == subgraph.then(|| format!("s{k}")), "element {k} has another subgraph");
        let a = e.directive_arguments::<u8>().ok();
        wrt::ensure!(a == Some(args[k]), "element {k} has the arguments {a:?}");
    };
    if option("grouped") {
        let groups = view.iter_grouped_by_directive_name();
        wrt::ensure!(groups.len() == names.len(), "{} groups, not {}", groups.len(), names.len());
        for ((name, items), (want, start, end)) in groups.zip(&names) {
            wrt::ensure!(name == want, "the group {name} comes instead of {want}");
            wrt::ensure!(items.len() == (*end - *start) as usize, "{} elements for {name}", items.len());
            for e in items {
                check(e, seen);
                decide_twice!(d, e, seen, expected);
                seen += 1;
            }
        }
    } else {
        let it = view.iter();
        wrt::ensure!(it.len() == n, "an iterator over {} elements, not {n}", it.len());
        for e in it {
            check(e, seen);
            decide_twice!(d, e, seen, expected);
            seen += 1;
        }
        wrt::reach(2);
    }
    wrt::ensure!(seen == n, "{seen} of {n} elements visited");
    let got = denied(d.b.build(), n);
    wrt::ensure!(got == expected, "denied {got:?}, not {expected:?}");
    wrt::reach(1);
}

/// authorize_response: the items of the response elements.
pub fn c40_response() {
    let m = pick("elements", 3) + 1;
    let mut ranges = vec![];
    let mut n = 0usize;
    for k in 0..m {
        let len = pick(&format!("len{k}"), wrt::param(0) as usize + 1);
        ranges.push((n as u32, (n + len) as u32));
        n += len;
    }
    let split = pick("split", m + 1);
    let ids: Vec<u32> = (0..m).map(|k| wrt::u32(&format!("id{k}"))).collect();
    let args: Vec<u8> = (0..n).map(|k| if k == 0 { wrt::u8("arg") } else { k as u8 }).collect();
    // the elements may come in any order of their items
    let reverse = option("reverse");
    if reverse {
        ranges.reverse();
    }
    let elements = at::ResponseElements {
        directive_names: vec![("d0".into(), 0, split as u32), ("d1".into(), split as u32, m as u32)],
        elements: (0..m).map(|k| at::ResponseElement { query_element_id: ids[k], items_range: ranges[k] }).collect(),
        items: args.iter().map(|a| cbor(*a)).collect(),
    };
    let view = ResponseElements::from(&elements);
    wrt::ensure!(view.len() == m && view.iter().len() == m, "{} elements, not {m}", view.len());
    let mut expected = vec![vec![]; n];
    let mut d = Decider::new();
    let mut k = 0usize;
    let mut visit = |e: grafbase_sdk::types::ResponseElement<'_>, k: usize| {
        wrt::ensure!(u32::from(e.query_element_id()) == ids[k], "element {k} has the id of another one");
        let items = e.items();
        let (start, end) = ranges[k];
        wrt::ensure!(items.len() == (end - start) as usize, "element {k} has {} items", items.len());
        let mut at = start as usize;
        for item in items {
            let a = item.directive_arguments::<u8>().ok();
            wrt::ensure!(a == Some(args[at]), "item {at} has the arguments {a:?}");
            decide!(d, item, at, expected);
            at += 1;
        }
        wrt::ensure!(at == end as usize, "items {start}..{at} of {start}..{end} visited");
    };
    if option("grouped") {
        let groups = view.iter_grouped_by_directive_name();
        for ((name, es), (want, len)) in groups.zip([("d0", split), ("d1", m - split)]) {
            wrt::ensure!(name == want && es.len() == len, "the group {name} of {} elements comes instead of {want} of {len}", es.len());
            for e in es {
                visit(e, k);
                k += 1;
            }
        }
    } else {
        for e in view {
            visit(e, k);
            k += 1;
        }
        wrt::reach(2);
    }
    wrt::ensure!(k == m, "{k} of {m} elements visited");
    let got = denied(d.b.build(), n);
    wrt::ensure!(got == expected, "denied {got:?}, not {expected:?}");
    wrt::reach(1);
}

/// The decisions that name no element, and errors with extensions.
pub fn c40_output() {
    let message = wrt::text("message", 2, true);
    let x = wrt::u8("extension");
    match pick("what", 3) {
        0 => wrt::ensure!(denied(AuthorizationDecisions::grant_all(), 2) == vec![Vec::<String>::new(); 2], "granting all denies"),
        1 => wrt::ensure!(denied(AuthorizationDecisions::deny_all(message.as_str()), 2) == vec![vec![message.clone()]; 2], "denying all grants or says something else"),
        _ => {
            let n = pick("extensions", 3);
            let mut e = Error::new(message.clone());
            for k in 0..n {
                e = e.extension(format!("k{k}"), x).unwrap();
            }
            let e = grafbase_sdk::wit::grafbase::sdk::error::Error::from(e);
            wrt::ensure!(e.message == message, "the message is {:?}", e.message);
            let want: Vec<_> = (0..n).map(|k| (format!("k{k}"), cbor(x))).collect();
            wrt::ensure!(e.extensions == want, "the extensions are {:?}, not {want:?}", e.extensions);
        }
    }
    wrt::reach(1);
}
