//! C49: what an operation costs.
use super::*;
use gateway_config::{ComplexityControlConfig, ComplexityControlMode, Config};

const WEIGHTS: [(&str, Option<i128>); 6] = [("", None), ("@cost(weight: 0)", Some(0)), ("@cost(weight: 7)", Some(7)), ("@cost(weight: 1)", Some(1)), ("@cost(weight: -3)", Some(-3)), ("@cost(weight: 2147483647)", Some(2147483647))];

fn weight(tag: &str, n: usize) -> (&'static str, Option<i128>) {
    WEIGHTS[wrt::choose(tag, n as u8) as usize]
}

fn with(mode: Option<ComplexityControlMode>, limit: Option<usize>, list_size: Option<usize>) -> Config {
    let mut c = Config::default();
    c.complexity_control = ComplexityControlConfig { mode, limit, list_size };
    c
}

/// The operation costs `want` (None: it has no cost), measured and against every limit.
fn costs(sdl: &str, doc: &str, variables: serde_json::Value, list_size: Option<usize>, want: Option<i128>) {
    let enforced = wrt::flag("enforced");
    let (mode, limit) = if enforced {
        (ComplexityControlMode::Enforce, Some((wrt::u32("limit") >> 1) as usize))
    } else {
        (ComplexityControlMode::Measure, [None, Some(3)][wrt::choose("measured limit", 2) as usize])
    };
    let schema = ops::configured(sdl, &with(Some(mode), limit, list_size));
    let op = match Operation::parse(&schema, None, doc) {
        Ok(op) => op,
        Err(e) => wrt::failed(&format!("{doc} is rejected for {sdl}: {}", messages(&e))),
    };
    let vars = match Variables::bind(&schema, &op, RawVariables::from_value(variables)) {
        Ok(v) => v,
        Err(e) => wrt::failed(&format!("the variables of {doc} are rejected: {e:?}")),
    };
    let got = op.compute_and_validate_complexity(&schema, &vars);
    let Some(want) = want else {
        wrt::ensure!(matches!(got, Err(engine_operation::ComplexityError::ExpectedOneSlicingArgument(_))), "{doc} is not rejected for its slicing arguments: {sdl}");
        wrt::reach(2);
        return;
    };
    let want = want.max(0);
    match got {
        Ok(Some(c)) => {
            // the largest cost that can be reported
            let most = usize::MAX as i128;
            if want < most {
                wrt::ensure!(c.0 as i128 == want, "{doc} costs another amount than it should: {sdl}");
            } else {
                wrt::ensure!(c.0 > u32::MAX as usize / 2, "{doc} costs less than it should: {sdl}");
            }
            wrt::ensure!(!enforced || want <= limit.unwrap() as i128, "the limit admits {doc}: {sdl}");
            wrt::reach(1);
        }
        Ok(None) => wrt::failed("no cost although it is measured"),
        Err(engine_operation::ComplexityError::LimitReached) => {
            wrt::ensure!(enforced && want > limit.unwrap() as i128, "the limit rejects {doc}: {sdl}");
            wrt::reach(2);
        }
        Err(e) => wrt::failed(&format!("{doc} is rejected: {e}: {sdl}")),
    }
}

/// Weights of fields and types. param(0): how many weights there are
pub fn c49_weights() {
    let n = wrt::param(0) as usize;
    let (of_type, on_type) = weight("type", n);
    let (of_field, on_field) = weight("field", n);
    let (of_leaf, on_leaf) = weight("leaf type", n);
    let (of_leaf_field, on_leaf_field) = weight("leaf field", n);
    let kind = wrt::choose("kind", 3) as usize;
    let leaf = wrt::choose("leaf", 3) as usize;
    let leaf_ty = ["L", "M", "Int"][leaf];
    let leaf_def = if leaf == 0 { of_leaf } else { "" };
    let enum_def = if leaf == 1 { of_leaf } else { "" };
    let on_leaf = if leaf == 2 { None } else { on_leaf };
    let (t, i, u) = match kind {
        0 => (of_type, "", ""),
        1 => ("", of_type, ""),
        _ => ("", "", of_type),
    };
    let ty = ["T", "N", "U"][kind];
    let sdl = format!(
        "type Query {{ a: Int f: {ty} {of_field} }} type Mutation {{ f: {ty} {of_field} }} type T implements N {t} {{ l: {leaf_ty} {of_leaf_field} }} interface N {i} {{ l: {leaf_ty} {of_leaf_field} }} union U {u} = T scalar L {leaf_def} enum M {enum_def} {{ A }}"
    );
    let mutation = wrt::flag("mutation");
    let twice = wrt::flag("twice");
    let inner = match (kind, wrt::choose("through", 3)) {
        (2, _) => if twice { "... on T { l k: l }" } else { "... on T { l }" },
        (_, 0) => if twice { "l k: l" } else { "l" },
        (_, 1) => if twice { "...F k: l" } else { "...F" },
        _ => if twice { "l ... on T { k: l }" } else { "... on T { l }" },
    };
    let fragment = if inner.contains("...F") { format!("fragment F on {ty} {{ l }}") } else { String::new() };
    let doc = format!("{} {{ f {{ {inner} }} }} {fragment}", if mutation { "mutation" } else { "query" });
    let leaf_cost = on_leaf_field.or(on_leaf).unwrap_or(0);
    let want = (if mutation { 10 } else { 0 }) + on_field.or(on_type).unwrap_or(1) + leaf_cost * (1 + twice as i128);
    costs(&sdl, &doc, serde_json::json!({}), Some(10), Some(want));
}

/// Weights of arguments. param(0): how many weights there are
pub fn c49_arguments() {
    let n = wrt::param(0) as usize;
    let (d_arg, w_arg) = weight("argument", n);
    let (d_in, w_in) = weight("input", n);
    let (d_field, w_field) = weight("input field", n);
    let (d_enum, w_enum) = weight("enum", 3);
    let which = wrt::choose("argument kind", 6) as usize;
    // scalars cost nothing, input objects 1, unless said otherwise; lists cost as much as their items
    let field = w_field.unwrap_or(0);
    let nested = |at: Option<i128>| at.or(w_in).unwrap_or(1);
    let e = |at: Option<i128>| at.or(w_enum).unwrap_or(0);
    let (ty, values): (&str, Vec<(&str, serde_json::Value, i128)>) = match which {
        0 => ("Int", vec![("5", 5.into(), w_arg.unwrap_or(0))]),
        1 => ("[[Int]]", vec![("[]", serde_json::json!([]), 0), ("[[1, 2], [], [3]]", serde_json::json!([[1, 2], [], [3]]), 3 * w_arg.unwrap_or(0))]),
        2 => ("E", vec![("P", "P".into(), e(w_arg))]),
        3 => ("J", vec![
            ("{}", serde_json::json!({}), nested(w_arg)),
            ("{x: 1}", serde_json::json!({"x": 1}), nested(w_arg) + field),
            ("{j: {x: 1}, e: Q}", serde_json::json!({"j": {"x": 1}, "e": "Q"}), nested(w_arg) + nested(None) + field + e(None)),
            ("{js: [{x: 1}, {}], xs: [1, 2]}", serde_json::json!({"js": [{"x": 1}, {}], "xs": [1, 2]}), nested(w_arg) + 2 * nested(w_field) + field + 2 * field),
        ]),
        4 => ("[J!]", vec![("[{x: 1}, {}, {j: {}}]", serde_json::json!([{"x": 1}, {}, {"j": {}}]), 3 * nested(w_arg) + field + nested(None)), ("[]", serde_json::json!([]), 0)]),
        _ => ("S", vec![("1", 1.into(), w_arg.unwrap_or(0)), ("\"s\"", "s".into(), w_arg.unwrap_or(0))]),
    };
    let v = wrt::choose("value", values.len() as u8) as usize;
    let sdl = format!("type Query {{ f(a: {ty} {d_arg}, other: Int @cost(weight: 100)): T }} type T {{ x: Int g(a: {ty} {d_arg}): Int }} input J {d_in} {{ x: Int {d_field} j: J js: [J!] {d_field} xs: [Int] {d_field} e: E }} enum E {d_enum} {{ P Q }} scalar S");
    let by_variable = wrt::flag("variable");
    let head = if by_variable { format!("query($v: {ty})") } else { "query".into() };
    let value = if by_variable { "$v" } else { values[v].0 };
    let (doc, want) = if wrt::flag("inner") {
        (format!("{head} {{ f {{ g(a: {value}) }} }}"), 1 + values[v].2)
    } else {
        (format!("{head} {{ f(a: {value}) {{ x }} }}"), 1 + values[v].2)
    };
    let vars = if by_variable { serde_json::json!({"v": values[v].1}) } else { serde_json::json!({}) };
    costs(&sdl, &doc, vars, None, Some(want));
}

/// How many there are of a field. param(0): 0 lists, 1 fields that size others
pub fn c49_sizes() {
    let sized = wrt::param(0) == 1;
    let default = [None, Some(0usize), Some(4)][wrt::choose("default size", 3) as usize];
    let assumed = [None, Some(0usize), Some(6)][wrt::choose("assumed", 3) as usize];
    let slicing = wrt::choose("slicing", 3) as usize;
    let required = [None, Some(true), Some(false)][wrt::choose("required", 3) as usize];
    let directive = wrt::flag("directive") || sized;
    let mut args = vec![];
    if let Some(a) = assumed {
        args.push(format!("assumedSize: {a}"));
    }
    args.extend(["", "slicingArguments: [\"first\"]", "slicingArguments: [\"last\", \"first\"]"].get(slicing).filter(|x| !x.is_empty()).map(|x| x.to_string()));
    if let Some(r) = required {
        args.push(format!("requireOneSlicingArgument: {r}"));
    }
    if sized {
        args.push("sizedFields: [\"items\"]".into());
    }
    let d = if !directive { String::new() } else if args.is_empty() { "@listSize".into() } else { format!("@listSize({})", args.join(", ")) };
    let ty = if sized { "C" } else { wrt::pick("list", &["[T]", "[T!]!", "[[T]]"]) };
    let sdl = format!("type Query {{ f(first: Int, last: Int, n: Int): {ty} {d} }} type T {{ x: Int @cost(weight: 2) }} type C {{ items: [T!] @cost(weight: 3) more: [T!] count: Int @cost(weight: 5) }}");
    // the arguments that are given, with their sizes
    let given = wrt::choose("given", 5) as usize;
    let size = wrt::u32("size") >> 1;
    let (call, vars, first, last) = match given {
        0 => ("", serde_json::json!({}), None, None),
        1 => ("(first: $a)", serde_json::json!({"a": size}), Some(size as i128), None),
        2 => ("(last: $a, first: 3)", serde_json::json!({"a": size}), Some(3), Some(size as i128)),
        3 => ("(n: $a, last: 9)", serde_json::json!({"a": size}), None, Some(9)),
        _ => ("(first: null, last: $a)", serde_json::json!({}), None, None),
    };
    let head = if call.contains('$') { "query($a: Int)" } else { "query" };
    let (sub, inner) = if sized {
        [("items { x }", 5), ("count", 5), ("more { x }", 0), ("items { x } count", 10)][wrt::choose("sub", 4) as usize]
    } else {
        ("x", 2)
    };
    let doc = format!("{head} {{ f{call} {{ {sub} }} }}");
    let d_size = default.unwrap_or(10) as i128;
    let mut ok = true;
    let count = if !directive {
        d_size
    } else {
        let named: Vec<i128> = match slicing {
            0 => vec![],
            1 => first.into_iter().collect(),
            _ => first.into_iter().chain(last).collect(),
        };
        ok = slicing == 0 || required == Some(false) || named.len() == 1;
        named.into_iter().max().unwrap_or(assumed.map(|x| x as i128).unwrap_or(d_size))
    };
    let want = if !sized {
        count * (1 + inner)
    } else {
        1 + match sub {
            "items { x }" => count * 5,
            "count" => 5,
            "more { x }" => d_size * 3,
            _ => count * 5 + 5,
        }
    };
    costs(&sdl, &doc, vars, default, ok.then_some(want));
}

/// Lists in lists with sizes up to the largest integer.
pub fn c49_large() {
    const SIZES: [i64; 7] = [0, 1, 1000, 65536, 1 << 22, 1 << 30, 2147483647];
    let a = SIZES[wrt::choose("outer", 7) as usize];
    let last = SIZES[wrt::choose("inner", 7) as usize];
    let b = SIZES[wrt::choose("middle", 7) as usize];
    let (d, w) = [("", 1i128), ("@cost(weight: 4)", 4), ("@cost(weight: 2147483647)", 2147483647)][wrt::choose("weight", 3) as usize];
    let sdl = format!("type Query {{ f(first: Int): [T] @listSize(slicingArguments: [\"first\"]) }} type T {{ f(first: Int): [T] {d} @listSize(slicingArguments: [\"first\"]) x: Int }}");
    let doc = "query($a: Int, $b: Int, $c: Int) { f(first: $a) { f(first: $b) { f(first: $c) { x } } } }";
    let want = a as i128 * (1 + b as i128 * (w + last as i128 * w));
    costs(&sdl, doc, serde_json::json!({"a": a, "b": b, "c": last}), None, Some(want));
}

/// What the configuration says.
pub fn c49_config() {
    let mode = wrt::choose("mode", 3) as usize;
    let limit = if wrt::flag("limited") { Some(wrt::u32("limit") as usize) } else { None };
    let list_size = if wrt::flag("sized") { Some(wrt::u16("list size") as usize) } else { None };
    let m = match mode {
        0 => None,
        1 => Some(ComplexityControlMode::Measure),
        _ => Some(ComplexityControlMode::Enforce),
    };
    let schema = ops::configured("type Query { f: [T!] @cost(weight: 3) } type T { x: Int }", &with(m, limit, list_size));
    let op = match Operation::parse(&schema, None, "{ f { x } }") {
        Ok(op) => op,
        Err(e) => wrt::failed(&messages(&e)),
    };
    let vars = Variables::bind(&schema, &op, raw("v", None)).ok().unwrap();
    let want = list_size.unwrap_or(10) * 3;
    match op.compute_and_validate_complexity(&schema, &vars) {
        Ok(None) => {
            wrt::ensure!(mode == 0, "costs are not computed in mode {mode}");
            wrt::reach(1);
        }
        Ok(Some(c)) => {
            wrt::ensure!(mode != 0, "costs are computed although the control is off");
            wrt::ensure!(c.0 == want, "the cost with list size");
            wrt::ensure!(mode == 1 || limit.is_none_or(|l| want <= l), "the limit is not enforced");
            wrt::reach(1);
        }
        Err(_) => {
            wrt::ensure!(mode == 2 && limit.is_some_and(|l| want > l), "mode {mode} rejects an operation within the limit");
            wrt::reach(2);
        }
    }
}
