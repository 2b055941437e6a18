use super::*;
use grafbase_sdk::types::{Contract, ContractDirective, GraphqlSubgraph};
use grafbase_sdk::wit::grafbase::sdk::{contracts_types as ct, schema::Directive};

fn directives(n: usize) -> Vec<Directive> {
    (0..n).map(|k| Directive { name: format!("d{k}"), arguments: vec![0xa0] }).collect()
}

/// The documented meaning of an encoded accessibility: which way, and how strong.
fn meaning(x: i8) -> (bool, i16) {
    if x >= 0 { (true, x as i16 + 1) } else { (false, -(x as i16)) }
}

/// Every setting on its own: its direction and its place among the priorities.
pub fn c32_priorities() {
    let default = wrt::flag("default");
    let raw = directives(1);
    let ds: Vec<ContractDirective<'_>> = raw.iter().enumerate().map(Into::into).collect();
    let encode = |f: &dyn Fn(&mut Contract)| -> i8 {
        let mut c = Contract::new(&ds, default);
        f(&mut c);
        ct::Contract::from(c).accessible[0]
    };
    let accessible = wrt::flag("accessible");
    let x = wrt::u8("priority") as i8;
    let d = meaning(encode(&|_| {}));
    let low = meaning(encode(&|c| { c.accessible(ds[0], accessible); }));
    let over = meaning(encode(&|c| { c.override_accessible(ds[0], accessible); }));
    let with = meaning(encode(&|c| { c.accessible_with_priority(ds[0], x); }));
    wrt::ensure!(d.0 == default, "the default is not the default");
    wrt::ensure!(low.0 == accessible, "accessible({accessible}) says {}", low.0);
    wrt::ensure!(over.0 == accessible, "override_accessible({accessible}) says {}", over.0);
    wrt::ensure!(with == meaning(x), "priority {x} became {with:?}");
    wrt::ensure!(low.1 > d.1, "the lowest priority does not beat the default");
    wrt::ensure!(with.1 <= over.1, "an override is beaten by {x}");
    // the lowest: only the default is below it
    wrt::ensure!(with.1 >= low.1 || with.1 == d.1, "{x} is between the default and the lowest priority");
    wrt::reach(1);
}

/// Histories of settings: only the addressed directive changes, the last setting counts.
pub fn c32_contract() {
    let n = 2;
    let raw = directives(n);
    let ds: Vec<ContractDirective<'_>> = raw.iter().enumerate().map(Into::into).collect();
    let default = option("default");
    let mut c = Contract::new(&ds, default);
    let mut model: Vec<Option<(u8, bool, i8)>> = vec![None; n];
    let (mut hide, mut subgraphs) = (true, vec![]);
    for k in 0..wrt::param(0) {
        let at = || pick(&format!("directive{k}"), n);
        match pick(&format!("op{k}"), 5) {
            0 => {
                let (i, b) = (at(), wrt::flag(&format!("accessible{k}")));
                c.accessible(ds[i], b);
                model[i] = Some((0, b, 0));
            }
            1 => {
                let (i, b) = (at(), wrt::flag(&format!("accessible{k}")));
                c.override_accessible(ds[i], b);
                model[i] = Some((1, b, 0));
            }
            2 => {
                let (i, x) = (at(), wrt::u8(&format!("priority{k}")) as i8);
                c.accessible_with_priority(ds[i], x);
                model[i] = Some((2, x >= 0, x));
            }
            3 => {
                hide = option(&format!("hide{k}"));
                c.hide_unreachable_types(hide);
            }
            _ => {
                let url = wrt::word(&format!("url{k}"), 2, b"a/");
                let mut s = GraphqlSubgraph::from(ct::GraphqlSubgraph { name: format!("s{k}"), url: "http://before".into() });
                wrt::ensure!(s.name() == format!("s{k}") && s.url() == "http://before", "the subgraph is another one");
                *s.url_mut() = url.clone();
                c.subgraph(s);
                subgraphs.push((format!("s{k}"), url));
            }
        }
    }
    let out = ct::Contract::from(c);
    wrt::ensure!(out.accessible.len() == n, "{} settings for {n} directives", out.accessible.len());
    for i in 0..n {
        let (acc, prio) = meaning(out.accessible[i]);
        let ok = match model[i] {
            None => acc == default && prio == 1,
            Some((0, b, _)) => acc == b && prio == 2,
            Some((1, b, _)) => acc == b && prio == 128,
            Some((_, _, x)) => out.accessible[i] == x,
        };
        wrt::ensure!(ok, "directive {i} is {acc} at {prio}, set by {:?}", model[i].map(|m| m.0));
        if model[i].is_none() {
            wrt::reach(2);
        }
    }
    wrt::ensure!(out.accessible_by_default == default, "the default changed");
    wrt::ensure!(out.hide_unreachable_types == hide, "hide_unreachable_types is {}", out.hide_unreachable_types);
    let got: Vec<_> = out.subgraphs.iter().map(|s| (s.name.clone(), s.url.clone())).collect();
    wrt::ensure!(got == subgraphs, "subgraphs {got:?}, not {subgraphs:?}");
    wrt::reach(1);
}
