//! C01: the packed 16-bit type wrapping.
use wrapping::{ListWrapping, Wrapping, WrappingType};

/// The reference: inner-required flag and list wrappings, innermost first.
#[derive(Clone)]
struct Model {
    inner: bool,
    lists: Vec<bool>,
}

fn to_real(m: &Model) -> Wrapping {
    let mut w = Wrapping::new();
    w = wrt::sel(m.inner, w.non_null(), w);
    for l in &m.lists {
        w = wrt::sel(*l, w.list_non_null(), w.list());
    }
    w
}

fn any(name: &str, max: u8) -> Model {
    let n = wrt::u8(&format!("{name}.len"));
    wrt::assume(n <= max);
    let bits: [u8; 11] = wrt::bytes(&format!("{name}.bits"));
    let inner = wrt::flag(&format!("{name}.inner"));
    let mut lists = vec![];
    for b in bits.iter().take(n as usize) {
        wrt::assume(*b < 2);
        lists.push(*b == 1);
    }
    Model { inner, lists }
}

fn same(w: Wrapping, m: &Model, what: &str) {
    wrt::ensure!(w.inner_is_required() == m.inner, "{what}: inner_is_required");
    wrt::ensure!(w.list_wrappings().len() == m.lists.len(), "{what}: number of lists");
    let mut i = 0;
    let mut ok = true;
    for l in w.list_wrappings() {
        ok &= (l == ListWrapping::ListNonNull) == m.lists[i];
        i += 1;
    }
    wrt::ensure!(i == m.lists.len(), "{what}: list iterator length");
    wrt::ensure!(ok, "{what}: list wrappings");
    wrt::ensure!(w.is_list() == !m.lists.is_empty(), "{what}: is_list");
    let nn = m.lists.last().copied().unwrap_or(m.inner);
    wrt::ensure!(w.is_non_null() == nn, "{what}: is_non_null");
    wrt::ensure!(w.is_nullable() == !nn, "{what}: is_nullable");
}

/// Building, reading back, equality, iteration from the innermost wrapper out.
pub fn c01_build() {
    let m = any("w", wrt::param(0) as u8);
    let w = to_real(&m);
    same(w, &m, "built");
    let mut k = 0;
    let items: Vec<WrappingType> = w.iter().collect();
    if m.inner {
        wrt::ensure!(items.first() == Some(&WrappingType::NonNull), "iter: inner");
        k += 1;
    }
    for l in &m.lists {
        wrt::ensure!(items.get(k) == Some(&WrappingType::List), "iter: list");
        k += 1;
        if *l {
            wrt::ensure!(items.get(k) == Some(&WrappingType::NonNull), "iter: non-null list");
            k += 1;
        }
    }
    wrt::ensure!(items.len() == k, "iter: length");
    wrt::reach(1);
}

/// non_null(), without_non_null(), without_list() act on the outermost wrapper only.
pub fn c01_step() {
    let m = any("w", wrt::param(0) as u8);
    let w = to_real(&m);
    let mut e = m.clone();
    match e.lists.last_mut() {
        Some(l) => *l = true,
        None => e.inner = true,
    }
    same(w.non_null(), &e, "non_null");
    let mut e = m.clone();
    match e.lists.last_mut() {
        Some(l) => *l = false,
        None => e.inner = false,
    }
    same(w.without_non_null(), &e, "without_non_null");
    let mut e = m.clone();
    let had = e.lists.pop();
    match w.without_list() {
        Some(x) => {
            wrt::ensure!(had.is_some(), "without_list on a non-list");
            same(x, &e, "without_list");
            wrt::reach(1);
        }
        None => wrt::ensure!(had.is_none(), "without_list refused a list"),
    }
    // and through the mutable form
    let mut mu = w.to_mutable();
    wrt::ensure!(mu.is_required() == w.is_non_null(), "mutable is_required");
    let popped = mu.pop_outermost_list_wrapping();
    wrt::ensure!(popped.map(|l| l == ListWrapping::ListNonNull) == had, "popped wrapper");
    same(mu.clone().into(), &e, "mutable pop");
    if let Some(l) = popped {
        mu.push_outermost_list_wrapping(l);
        wrt::ensure!(Wrapping::from(mu) == w, "pop then push");
        wrt::reach(2);
    }
}

/// Equality, ordering of leniency.
pub fn c01_pair() {
    let max = wrt::param(0) as u8;
    let (a, b) = (any("a", max), any("b", max));
    let (x, y) = (to_real(&a), to_real(&b));
    let mut eq = (a.lists.len() == b.lists.len()) & (a.inner == b.inner);
    if a.lists.len() == b.lists.len() {
        for (p, q) in a.lists.iter().zip(&b.lists) {
            eq &= p == q;
        }
    }
    wrt::ensure!((x == y) == eq, "equality of the packed form");
    let mut lenient = a.lists.len() == b.lists.len() && (!a.inner | b.inner);
    if a.lists.len() == b.lists.len() {
        for (p, q) in a.lists.iter().zip(&b.lists) {
            lenient &= !*p | *q;
        }
    }
    wrt::ensure!(x.is_equal_or_more_lenient_than(y) == lenient, "is_equal_or_more_lenient_than");
    if eq {
        wrt::reach(1)
    }
    if lenient & !eq {
        wrt::reach(2)
    }
}

/// The printed type is the GraphQL type expression.
pub fn c01_display() {
    let m = any("w", wrt::param(0) as u8);
    let w = to_real(&m);
    let got = w.type_display("T").to_string();
    let mut want = String::new();
    for _ in &m.lists {
        want.push('[');
    }
    want.push('T');
    if m.inner {
        want.push('!');
    }
    for l in &m.lists {
        want.push(']');
        if *l {
            want.push('!');
        }
    }
    wrt::observe("type", got.as_bytes());
    wrt::ensure!(got == want, "printed type {got} for {want}");
    wrt::reach(1);
}

wrt::checks!(c01_build, c01_step, c01_pair, c01_display);
