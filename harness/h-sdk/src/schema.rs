//! C46: the schema an extension sees.
use super::*;
use grafbase_sdk::types::{DefinitionId, Directive, EntityDefinition, FieldDefinition, InputValueDefinition, SubgraphSchema, Type, TypeDefinition, WrappingType};
use grafbase_sdk::wit;
use grafbase_sdk::wit::grafbase::sdk::schema as sc;
use std::collections::BTreeMap;

fn same_id(a: DefinitionId, b: u32) -> bool {
    u32::from(a) == b
}

fn dir(name: &str, x: u8) -> sc::Directive {
    // {"x": x}
    sc::Directive { name: name.into(), arguments: vec![0xa1, 0x61, b'x', 0x18, x] }
}

fn check_dirs<'a>(got: impl ExactSizeIterator<Item = Directive<'a>>, raw: &[sc::Directive], what: &str) {
    wrt::ensure!(got.len() == raw.len(), "{what} has {} directives, not {}", got.len(), raw.len());
    for (g, r) in got.zip(raw) {
        wrt::ensure!(g.name() == r.name, "a directive of {what} is {}, not {}", g.name(), r.name);
        let want = r.arguments[4];
        match g.arguments::<BTreeMap<String, u8>>() {
            Ok(m) => wrt::ensure!(m.len() == 1 && m.get("x") == Some(&want), "the arguments of a directive of {what} are {m:?}"),
            Err(_) => wrt::failed(&format!("the arguments of a directive of {what} are rejected")),
        }
    }
}

fn id_of(t: &sc::TypeDefinition) -> u32 {
    match t {
        sc::TypeDefinition::Scalar(d) => d.id,
        sc::TypeDefinition::Object(d) => d.id,
        sc::TypeDefinition::Interface(d) => d.id,
        sc::TypeDefinition::Union(d) => d.id,
        sc::TypeDefinition::Enum(d) => d.id,
        sc::TypeDefinition::InputObject(d) => d.id,
    }
}

fn name_of(t: &sc::TypeDefinition) -> &str {
    match t {
        sc::TypeDefinition::Scalar(d) => &d.name,
        sc::TypeDefinition::Object(d) => &d.name,
        sc::TypeDefinition::Interface(d) => &d.name,
        sc::TypeDefinition::Union(d) => &d.name,
        sc::TypeDefinition::Enum(d) => &d.name,
        sc::TypeDefinition::InputObject(d) => &d.name,
    }
}

fn find(raw: &sc::Schema, id: u32) -> &sc::TypeDefinition {
    raw.type_definitions.iter().find(|t| id_of(t) == id).unwrap()
}

fn check_ty(got: Type<'_>, raw: &sc::Ty, all: &sc::Schema, what: &str) {
    let d = find(all, raw.definition_id);
    wrt::ensure!(same_id(got.definition().id(), raw.definition_id) && got.definition().name() == name_of(d), "the type of {what} is {}", got.definition().name());
    let w: Vec<WrappingType> = got.wrapping().collect();
    let want: Vec<WrappingType> = raw.wrapping.iter().map(|w| if matches!(w, sc::WrappingType::List) { WrappingType::List } else { WrappingType::NonNull }).collect();
    wrt::ensure!(w == want, "the type of {what} is wrapped {w:?}, not {want:?}");
    wrt::ensure!(got.is_list() == want.contains(&WrappingType::List), "is_list of {what} with {want:?}");
    wrt::ensure!(got.is_non_null() == (want.last() == Some(&WrappingType::NonNull)), "is_non_null of {what} with {want:?}");
}

fn check_inputs<'a>(got: impl ExactSizeIterator<Item = InputValueDefinition<'a>>, raw: &[sc::InputValueDefinition], all: &sc::Schema, what: &str) {
    wrt::ensure!(got.len() == raw.len(), "{what} has {} inputs, not {}", got.len(), raw.len());
    for (g, r) in got.zip(raw) {
        wrt::ensure!(same_id(g.id(), r.id) && g.name() == r.name, "an input of {what} is {}, not {}", g.name(), r.name);
        check_ty(g.ty(), &r.ty, all, what);
        check_dirs(g.directives(), &r.directives, what);
    }
}

fn check_field(got: FieldDefinition<'_>, raw: &sc::FieldDefinition, all: &sc::Schema) {
    let what = raw.name.as_str();
    wrt::ensure!(same_id(got.id(), raw.id) && got.name() == raw.name, "the field {what} is {}", got.name());
    let parent = find(all, raw.parent_type_id);
    let ok = match (got.parent_entity(), parent) {
        (EntityDefinition::Object(o), sc::TypeDefinition::Object(r)) => same_id(o.id(), r.id) && o.name() == r.name,
        (EntityDefinition::Interface(o), sc::TypeDefinition::Interface(r)) => same_id(o.id(), r.id) && o.name() == r.name,
        _ => false,
    };
    wrt::ensure!(ok, "the parent of {what} is {}", got.parent_entity());
    wrt::ensure!(format!("{got}") == format!("{}.{}", name_of(parent), raw.name), "{what} is shown as {got}");
    check_ty(got.ty(), &raw.ty, all, what);
    check_inputs(got.arguments(), &raw.arguments, all, what);
    check_dirs(got.directives(), &raw.directives, what);
}

fn check_fields<'a>(got: impl ExactSizeIterator<Item = FieldDefinition<'a>>, ids: &[u32], all: &sc::Schema, what: &str) {
    wrt::ensure!(got.len() == ids.len(), "{what} has {} fields, not {}", got.len(), ids.len());
    for (g, id) in got.zip(ids) {
        check_field(g, all.field_definitions.iter().find(|f| f.id == *id).unwrap(), all);
    }
}

fn check_type(got: TypeDefinition<'_>, raw: &sc::TypeDefinition, all: &sc::Schema) {
    let what = name_of(raw);
    wrt::ensure!(same_id(got.id(), id_of(raw)) && got.name() == what && format!("{got}") == what, "{what} is {got}");
    match (got, raw) {
        (TypeDefinition::Scalar(g), sc::TypeDefinition::Scalar(r)) => {
            wrt::ensure!(same_id(g.id(), r.id) && g.name() == r.name && g.specified_by_url() == r.specified_by_url.as_deref(), "the scalar {what}");
            check_dirs(g.directives(), &r.directives, what);
        }
        (TypeDefinition::Object(g), sc::TypeDefinition::Object(r)) => {
            wrt::ensure!(same_id(g.id(), r.id) && g.name() == r.name, "the object {what}");
            check_fields(g.fields(), &r.field_ids, all, what);
            wrt::ensure!(g.interfaces().map(|i| u32::from(i.id())).eq(r.interface_ids.iter().copied()), "the interfaces of {what}");
            check_dirs(g.directives(), &r.directives, what);
        }
        (TypeDefinition::Interface(g), sc::TypeDefinition::Interface(r)) => {
            wrt::ensure!(same_id(g.id(), r.id) && g.name() == r.name, "the interface {what}");
            check_fields(g.fields(), &r.field_ids, all, what);
            wrt::ensure!(g.interfaces().map(|i| u32::from(i.id())).eq(r.interface_ids.iter().copied()), "the interfaces of {what}");
            check_dirs(g.directives(), &r.directives, what);
        }
        (TypeDefinition::Union(g), sc::TypeDefinition::Union(r)) => {
            wrt::ensure!(same_id(g.id(), r.id) && g.name() == r.name, "the union {what}");
            wrt::ensure!(g.member_types().map(|i| u32::from(i.id())).eq(r.member_types.iter().copied()), "the members of {what}");
            check_dirs(g.directives(), &r.directives, what);
        }
        (TypeDefinition::Enum(g), sc::TypeDefinition::Enum(r)) => {
            wrt::ensure!(same_id(g.id(), r.id) && g.name() == r.name && g.values().len() == r.values.len(), "the enum {what}");
            for (v, r) in g.values().zip(&r.values) {
                wrt::ensure!(v.name() == r.name, "a value of {what} is {}", v.name());
                check_dirs(v.directives(), &r.directives, what);
            }
            check_dirs(g.directives(), &r.directives, what);
        }
        (TypeDefinition::InputObject(g), sc::TypeDefinition::InputObject(r)) => {
            wrt::ensure!(same_id(g.id(), r.id) && g.name() == r.name, "the input {what}");
            check_inputs(g.input_fields(), &r.input_fields, all, what);
            check_dirs(g.directives(), &r.directives, what);
        }
        _ => wrt::failed(&format!("{what} is of another kind")),
    }
}

const IDS: [[u32; 10]; 4] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
    [9, 3, 7, 1, 0, 8, 2, 6, 5, 4],
    [u32::MAX, 0, 1 << 31, u32::MAX - 1, 7, 1 << 16, 1 << 24, 65535, 77, 1],
    [1 << 8, 2 << 8, 3 << 8, 1 << 20, 2 << 20, 3 << 20, 1 << 28, 2 << 28, 3 << 28, 4 << 28],
];

/// Lists of up to two, in any order.
const SOME: [&[usize]; 9] = [&[], &[0], &[1], &[2], &[0, 1], &[1, 0], &[2, 0], &[0, 1, 2], &[2, 1, 0]];

/// A schema with a type of each kind and two more objects and an interface; what is free depends on the group.
fn raw(group: u32) -> sc::Schema {
    // types: scalar, object, interface, union, enum, input, object, interface; then fields
    let ids = IDS[pick("ids", IDS.len())];
    let seen = std::cell::RefCell::new(BTreeMap::new());
    let free = |g: u32, name: &str, n: usize| if group == g { *seen.borrow_mut().entry(name.to_string()).or_insert_with(|| pick(name, n)) } else { n - 1 };
    let letter = |name: &str| -> String {
        let c = wrt::u8(name);
        wrt::assume(c > 32 && c < 127);
        format!("{}", c as char)
    };
    let bytes = std::cell::RefCell::new(BTreeMap::new());
    let number = |name: &str| if group == 2 { *bytes.borrow_mut().entry(name.to_string()).or_insert_with(|| wrt::u8(name)) } else { 7 };
    let dirs = |name: &str| -> Vec<sc::Directive> {
        let n = (free(2, "dirs", 3) + if group == 2 { name.len() } else { 0 }) % 3;
        (0..n).map(|k| dir(["d", "e"][(k + name.len()) % 2], number(&format!("{name}.{k}")))).collect()
    };
    let types = [0, 1, 2, 3, 4, 5, 6, 7];
    let wraps: [&[sc::WrappingType]; 6] = {
        use sc::WrappingType::{List as L, NonNull as N};
        [&[], &[N], &[L], &[N, L], &[L, N], &[N, L, N, L, L, N]]
    };
    let ty = |name: &str| sc::Ty { wrapping: wraps[free(1, &format!("{name}.wrap"), 6)].to_vec(), definition_id: ids[types[free(1, &format!("{name}.def"), 8)]] };
    let value = |name: &str, id: u32| sc::InputValueDefinition { id, name: letter(name), ty: ty("value"), directives: dirs("field") };
    let field_ids = [ids[8], ids[9], ids[4] ^ 0x5555];
    let list = |name: &str, of: &[u32]| -> Vec<u32> { SOME[free(0, name, SOME.len())].iter().filter_map(|k| of.get(*k).copied()).collect() };
    let args = free(1, "args", 3);
    let field = |k: usize| sc::FieldDefinition {
        id: field_ids[k],
        name: format!("f{}", letter(&format!("f{k}"))),
        ty: ty("field"),
        parent_type_id: ids[[1, 2, 6][if k == 0 { free(0, "parent", 3) } else { k }]],
        arguments: (0..args).map(|a| value(&format!("f{k}.{a}"), 100 + a as u32)).collect(),
        directives: dirs("field"),
    };
    let objects = [ids[1], ids[6]];
    let interfaces = [ids[2], ids[7]];
    let type_definitions = vec![
        sc::TypeDefinition::Scalar(sc::ScalarDefinition { id: ids[0], name: "S".into(), specified_by_url: [None, Some(letter("url"))][free(2, "url?", 2)].clone(), directives: dirs("scalar") }),
        sc::TypeDefinition::Object(sc::ObjectDefinition { id: ids[1], name: letter("object"), interface_ids: list("implements", &interfaces), field_ids: list("fields", &field_ids), directives: dirs("object") }),
        sc::TypeDefinition::Interface(sc::InterfaceDefinition { id: ids[2], name: letter("interface"), interface_ids: vec![ids[7]], field_ids: list("fields", &field_ids), directives: dirs("interface") }),
        sc::TypeDefinition::Union(sc::UnionDefinition { id: ids[3], name: "U".into(), member_types: list("members", &objects), directives: dirs("union") }),
        sc::TypeDefinition::Enum(sc::EnumDefinition {
            id: ids[4],
            name: "E".into(),
            values: (0..free(2, "values", 3)).map(|k| sc::EnumValue { name: letter(&format!("v{k}")), directives: dirs("values") }).collect(),
            directives: dirs("enum"),
        }),
        sc::TypeDefinition::InputObject(sc::InputObjectDefinition { id: ids[5], name: "I".into(), input_fields: (0..args).map(|a| value(&format!("in{a}"), 200 + a as u32)).collect(), directives: dirs("input") }),
        sc::TypeDefinition::Object(sc::ObjectDefinition { id: ids[6], name: "O".into(), interface_ids: vec![], field_ids: vec![field_ids[2]], directives: vec![] }),
        sc::TypeDefinition::Interface(sc::InterfaceDefinition { id: ids[7], name: "N".into(), interface_ids: vec![], field_ids: vec![], directives: vec![] }),
    ];
    let root = |name: &str| [None, Some(ids[1]), Some(ids[6])][free(3, name, 3)];
    sc::Schema {
        type_definitions,
        field_definitions: (0..3).map(field).collect(),
        directives: dirs("schema"),
        root_types: sc::RootTypes { query_id: root("query"), mutation_id: root("mutation"), subscription_id: root("subscription") },
    }
}

pub fn c46_schema() {
    let raw: wit::Schema = raw(wrt::param(0));
    let name = "sub".to_string();
    let s = SubgraphSchema::from_parts(name, raw.clone());
    wrt::ensure!(s.subgraph_name() == "sub", "the name is {}", s.subgraph_name());
    check_dirs(s.directives(), &raw.directives, "the schema");
    // every definition once
    let n = raw.type_definitions.len();
    wrt::ensure!(s.type_definitions().len() == n, "there are {} types", s.type_definitions().len());
    for t in &raw.type_definitions {
        wrt::ensure!(s.type_definitions().filter(|d| same_id(d.id(), id_of(t))).count() == 1, "{} is not listed once", name_of(t));
    }
    for d in s.type_definitions() {
        match raw.type_definitions.iter().find(|t| same_id(d.id(), id_of(t))) {
            Some(r) => check_type(d, r, &raw),
            None => wrt::failed("another type is listed"),
        }
        wrt::ensure!(s.type_definition(d.id()).is_some_and(|x| x.id() == d.id() && x.name() == d.name()), "{d} is not found by its id");
        wrt::ensure!(s.field_definition(d.id()).is_none(), "{d} is a field");
    }
    wrt::ensure!(s.iter_fields().count() == raw.field_definitions.len(), "there are {} fields", s.iter_fields().count());
    for f in &raw.field_definitions {
        wrt::ensure!(s.iter_fields().filter(|d| same_id(d.id(), f.id)).count() == 1, "{} is not listed once", f.name);
    }
    for f in s.iter_fields() {
        match raw.field_definitions.iter().find(|r| same_id(f.id(), r.id)) {
            Some(r) => check_field(f, r, &raw),
            None => wrt::failed("another field is listed"),
        }
        wrt::ensure!(s.field_definition(f.id()).is_some_and(|x| x.id() == f.id() && x.name() == f.name()), "{f} is not found by its id");
        wrt::ensure!(s.type_definition(f.id()).is_none(), "{f} is a type");
    }
    for (what, got, want) in [("query", s.query(), raw.root_types.query_id), ("mutation", s.mutation(), raw.root_types.mutation_id), ("subscription", s.subscription(), raw.root_types.subscription_id)] {
        wrt::ensure!(got.map(|o| u32::from(o.id())) == want, "the {what} type is another one");
        if got.is_some() {
            wrt::reach(1);
        }
    }
    wrt::reach(2);
}
