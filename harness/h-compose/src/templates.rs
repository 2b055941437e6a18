//! Templates of subgraphs that several properties are checked on.

pub const HIDE: [&str; 9] = [
    "type Query { q: Int f(a: I~ b: Int): X~ } type X ~ { x: Int ~ y: Int } input I ~ { i: E~ j: Int } enum E ~ { A~ B }",
    "type Query { q: Int u: U~ n: N~ } union U~ = A \\ B type A implements N ~ { n: Int ~ a: Int } type B~ { b: Int } interface N~ { n: Int ~ m(x: Int~): Int } extend type A { m(x: Int): Int }",
    "type Query { q: Int s: S~ t(s: S~): [S!]~ } scalar S~ input I ~ { s: [S!]~ i: Int }",
    "type Query { q: Int x: X } type X @shareable ~ { x: Int~ y(a: Int~): Int } --- type Query { r: Int } type X @shareable { x: Int~ y(a: Int~): Int }",
    "type Query { q: Int f(i: I): E } input I { i: E~ j: Int } enum E { A~ B } --- type Query { r: Int g(i: I~): Int } input I ~ { i: E j: Int~ } enum E~ { A~ B }",
    "type Query { q: Int n: N~ } interface N ~ { n: Int } type A implements N { n: Int~ } --- type Query { r: Int m: M~ } interface M { m: Int } type A implements M ~ { m: Int a: A~ }",
    "type Query ~ { q: Int~ x: X~ } type X { x: Int~ } type Mutation ~ { m: Int~ }",
    "type Query { q: Int } enum E { A~ B~ } union U = X type X~ { x: Int } input I { i: Int~ } interface N { n: Int~ } type Y { y: Int~ }",
    "type Query { q: Int u: U~ v: V n: N~ a: Z } interface N { n: Int~ } interface M { m: Int } type Y implements N & M { n: Int~ m: Int~ } type Z implements N { n: Int~ z: Int } union U = Y union V = Y \\ Z --- type Query { r: Int } union V = W type W~ { w: Int }",
];

pub const GUARDS: [&str; 6] = [
    "type Query { q: Int a: X } type X @shareable <|@authenticated> { f: Int <|@authenticated> <|@tag(name: 't')> g: E } enum E <|@authenticated> { P <|@deprecated> } --- type Query { r: Int } type X <|@authenticated @inaccessible> @shareable { f: Int <|@authenticated|@deprecated @authenticated> g: E } enum E <|@authenticated> { P }",
    "type Query { q: Int } type X @shareable <|@requiresScopes(scopes: [['a']])|@requiresScopes(scopes: [['a', 'b'], ['c']])> { f: Int <|@requiresScopes(scopes: [['a'], ['b']])|@cost(weight: 1) @requiresScopes(scopes: [['b']]) @authenticated> } --- type Query { r: Int } type X <|@requiresScopes(scopes: [['b']])|@requiresScopes(scopes: [['a']])|@requiresScopes(scopes: [['b', 'a']])> @shareable { f: Int <|@requiresScopes(scopes: [['c', 'd'], ['a']])|@requiresScopes(scopes: [['b'], ['a']])> }",
    "type Query { q: Int } type X @shareable <|@policy(policies: [['a']])|@policy(policies: [['a', 'b'], ['c']])> { f: Int <|@policy(policies: [['a'], ['b']])|@requiresScopes(scopes: [['b']]) @policy(policies: [['z']])> } --- type Query { r: Int } type X <|@policy(policies: [['b']])|@policy(policies: [['a']])|@policy(policies: [['b', 'a']])> @shareable { f: Int <|@policy(policies: [['c', 'd'], ['a']])|@policy(policies: [['b'], ['a']])> }",
    "type Query <|@authenticated> { q: Int <|@authenticated> } interface N <|@authenticated|@policy(policies: [['p']])> { n: Int <|@authenticated|@requiresScopes(scopes: [['s']])> } type A implements N { n: Int } scalar S <|@authenticated|@policy(policies: [['p']])> union U <|@authenticated> = A --- schema { query: Qu } type Qu <|@authenticated> { r: Int <|@policy(policies: [['p']])> } interface N { n: Int <|@authenticated> } scalar S <|@authenticated>",
    "type Query { q: Int x: X } type X @key(fields: 'id') <|@authenticated> { id: ID! <|@authenticated> f: Int <|@shareable> <|@authenticated> } --- v1 type Query { r: Int } extend type X @key(fields: 'id') <|@authenticated> { id: ID! @external <|@authenticated> g: Int <|@requires(fields: 'f')> <|@authenticated|@policy(policies: [['p']])> f: Int @external <|@authenticated> }",
    "type Query { q: Int } enum E <|@policy(policies: [['p']])> { A } type X <|@authenticated> @shareable { f: Int } --- type Query { r: Int } enum E <|@policy(policies: [['q']])|@requiresScopes(scopes: [['s']])> { A } type X @shareable <|@requiresScopes(scopes: [['s']])> { f: Int } --- type Query { s: Int } enum E <|@authenticated|@policy(policies: [['p']])> { A } type X <|@policy(policies: [['p'], ['q']])|@tag(name: 't')> @shareable { f: Int }",
];

pub const SHARE: [&str; 6] = [
    "type Query { q: Int } type X <|@shareable> { f: Int <|@shareable|@inaccessible> } --- <|v1> type Query { r: Int } type X <|@shareable|@external> { f: Int <|@shareable|@external|@override(from: 'a')|@override(from: 'a', label: 'percent(10)')|@override(from: 'z')|@tag(name: 'x')> } <|--- type Query { s: Int } type X { f: Int }|--- v1 type Query { s: Int } type X { f: Int }|--- type Query { s: Int } type X { f: Int @override(from: 'b') }|--- type Query { s: Int } type X { f: Int @external }>",
    "type Query { q: Int } type X <|@key(fields: 'id')|@key(fields: 'f')|@key(fields: 'id f')|@key(fields: 'n { f }')> { id: ID! <|@shareable> f: Int! n: X } --- <|v1> type Query { r: Int } type X <|@key(fields: 'id')|@key(fields: 'f')> { id: ID! f: Int! <|@shareable|@external|@override(from: 'a')|@override(from: 'a', label: 'percent(100)')> }",
    "type Query { f: Int <|@shareable> } type Mutation { f: Int <|@shareable> } --- <|schema { query: Q mutation: M } type Q { f: Int <|@shareable> } type M { f: Int }|type Query { f: Int <|@shareable|@override(from: 'a')> }|type Query <|@shareable> { r: Int } type Mutation <|@shareable> { f: Int }>",
    "type Query { q: Int } type X <|@shareable> { a: Int <|@shareable> b: Int } --- type Query { r: Int } type X <|@shareable> { a: Int <|@shareable> <|b: Int|b: Int @inaccessible|b: Int @shareable|c: Int|c: Int @inaccessible> } <|--- type Query { s: Int } type X { a: Int }|--- type Query { s: Int } type X @shareable { a: Int b: Int }>",
    "type Query { q: Int } type Y @key(fields: 'x { f }') { x: X } type X <|@key(fields: 'id')> { id: ID @shareable f: Int g: Int } --- type Query { r: Int } type X <|@key(fields: 'id')> { id: ID @shareable <f: Int|g: Int|f: Int @external|g: Int @override(from: 'a')> } <|type Y @key(fields: 'x { g }') { x: X }|extend type X { h: Int }>",
    "type Query { q: Int } type Subscription { s: Int <|@shareable> } --- type Query { r: Int } type Subscription <|@shareable> { <s|t>: Int <|@shareable> } --- type Query { <r2|q>: Int }",
];

pub const ROUTES: [&str; 8] = [
    "type Query { q: X } type X @key(fields: 'id') { id: ID! <|@shareable> <|f: Int|f: Int @shareable|f: Int! @shareable> <|g: Int @shareable> } --- type Query { r: X } type X @key(fields: 'id') { id: ID! <|f: Int @shareable|f: Int @external|f: Int! @override(from: 'a')|f: Int @override(from: 'a', label: 'percent(100)')|f: Int @override(from: 'a', label: 'percent(10)')|f: Int @override(from: 'z')> h: Int <|@requires(fields: 'f')|@requires(fields: 'id')> } <|--- type Query { s: X } type X @key(fields: 'id', resolvable: false) { id: ID! }|--- type Query { s: X @shareable } type X @key(fields: 'id') { id: ID! f: Int @override(from: 'b') }|--- type Query { s: X } type X @key(fields: 'id') { id: ID! f: Int @shareable g: Int @shareable }>",
    "type Query { q: X <|@provides(fields: 'f')|@provides(fields: 'n { m }')|@provides(fields: 'f n { m k }')> } type X @key(fields: 'id') { id: ID! f: Int <@external|@shareable> n: N @shareable } type N { m: Int <@external|@shareable> k: Int @shareable } --- type Query { r: X <|@provides(fields: 'f')> } type X @key(fields: 'id') { id: ID! f: Int @shareable n: N @shareable <|g: Int @requires(fields: 'f n { m }')> } type N @shareable { m: Int k: Int }",
    "type Query { q: Int x: <X|[X!]!> @shareable } <|type Mutation { m: Int }> type X <|@external> { f: Int @shareable g: Int @shareable } --- <schema { query: Q mutation: Query } type Q { x: <X|X!|[X]> @shareable } type Query { m: Int @override(from: 'a') }|type Query { x: X <@shareable|@override(from: 'a')> }> type X { <f: Int @shareable|f: Int! @shareable|f: Int @override(from: 'a')> g: Int @shareable }",
    "type Query { u: U @shareable } union U = <A|B|A \\ B> type A @shareable { a: Int } type B implements N <|& M> @shareable { n: Int } interface N <|implements M> { n: Int } interface M { n: Int } --- type Query { u: U @shareable } union U = <A|B|B \\ A> type A @shareable <|implements N> { a: Int <|n: Int> } type B <|implements N|implements M> @shareable { n: Int } interface N { n: Int } interface M { n: Int }",
    "type Query { q(i: I): Int } input I { a: Int b: <Int|Int!|[Int]> } --- type Query { r(i: I): Int } input I { <|a: Int> b: <Int|Int!|[Int]|[Int]!> } <|--- type Query { s: Int } input I { a: Int! b: Int }>",
    "type Query { q: X } type X @key(fields: 'id') @key(fields: '<n { k }|id n { k }|m>', resolvable: <true|false>) { id: ID! <|@external> m: Int n: N @shareable } type N { k: Int <|@external|@shareable> } --- <|v1> type Query { r: X } <extend type|type> X @key(fields: 'id') { id: ID! <|@external> m: Int <@external|@shareable> }",
    "type Query { n: N } interface N <@key(fields: 'id')|> { id: ID! f: Int } type A implements N @key(fields: 'id') { id: ID! f: Int } --- type Query { r: Int } <interface N { id: ID! g: Int } type A implements N @key(fields: 'id') { id: ID! g: Int }|type B @key(fields: 'id') { id: ID! } union N2 = B>",
    "<|v1> type Query { q: Int f: Int } type X <|@shareable> { f: Int @shareable } --- <|v1> type Query { f: Int @shareable r: Int } type X { f: Int @shareable } --- <|v1> type Query { s: Int <|f: Int @override(from: 'a')|f: Int @override(from: 'b')> } <|type X { f: Int @override(from: 'a') }|type X { f: Int @override(from: 'b') }>",
];

/// More parts of the language: metadata, composed directives, interfaces of entities, linked directives, values.
pub const MORE: [&str; 8] = [
    "type Query { q: Int f(<n: Int|n: Int = 1 m: [Int!]! = [1, 2]>): [X!]! <|@listSize(assumedSize: 5)|@listSize(slicingArguments: ['n'], requireOneSlicingArgument: false)> @shareable } type X @shareable <|@cost(weight: 3)> { x: Int <|@deprecated|@deprecated(reason: 'old')> <|@tag(name: 'b') @tag(name: 'a')> } --- type Query { r: Int f(n: Int): [X!]! <|@listSize(assumedSize: 7, sizedFields: ['x'])|@listSize(slicingArguments: ['n'])> @shareable } type X @shareable <|@cost(weight: 5)> { x: Int <|@deprecated(reason: 'older')> <|@tag(name: 'a') @tag(name: 'c')> }",
    "type Query { q(i: I): Int } input I <|@oneOf> <|@tag(name: 't')> { a: Int <|= 1> <|@deprecated(reason: 'r')> b: [J!] <|= [{ s: 'x', e: P, f: 1.5, n: null, b: true }]|= []> } input J { s: String = 'a\"b' e: E = <P|Q> f: Float <|= 1|= 2.5> n: Int <|= null> b: Boolean = false } enum E { P <|@deprecated> Q <|@tag(name: 'u')> } --- type Query { r(j: J): Int } input J { s: String e: E f: Float n: Int b: Boolean } enum E { P Q }",
    "type Query { n: N <|m: N> } interface N @key(fields: 'id') { id: ID! a: Int } type P implements N @key(fields: 'id') { id: ID! a: Int p: Int <|@shareable> } type Q implements N @key(fields: 'id') { id: ID! a: Int } --- type Query { r: Int } type N @interfaceObject @key(fields: 'id'<|, resolvable: false>) { id: ID! x: Int <|@authenticated> y(i: Int): <Int|N> <|@tag(name: 't')> } <|--- type Query { s: Int } type P @key(fields: 'id') { id: ID! z: Int }|--- type Query { s: Int } type N @interfaceObject @key(fields: 'id') { id: ID! <x: Int @shareable|w: Int|x: Int @override(from: 'b')|w: Int @requires(fields: 'a') a: Int @external> }>",
    "extend schema @composeDirective(name: <'@mine'|'@other'>) @link(url: 'https://ex.com/mine/v1', import: ['@mine']) directive @mine(a: Int b: [String!]) repeatable on OBJECT \\ FIELD_DEFINITION \\ ENUM directive @other on OBJECT type Query { q: X } type X <|@shareable> <|@mine(a: 1)|@mine(b: ['x', 'y']) @mine> { f: Int <|@mine(a: 2)> } --- type Query { r: Int } <|extend schema @composeDirective(name: '@mine') @link(url: 'https://ex.com/mine/v1', import: ['@mine']) directive @mine(a: Int) on OBJECT \\ FIELD_DEFINITION type X @shareable @mine(a: 1) { f: Int @mine(a: 3) }|type Y { y: Int }>",
    "'''d1''' type Query { 'd2' q('d3' a: Int): Int } ''' d4\n   more ''' <interface|type> X { 'd5' f: Int } 'd6' scalar S 'd7' enum E { 'd8' A } 'd9' union U = Y 'd10' type Y <|implements X> { <|f: Int> <|g: S> y: Int } 'd11' input I { 'd12' i: Int } --- 'e1' type Query { 'e2' <r|q>: Int } 'e6' scalar S <|'e7' enum E { 'e8' A <|B> }> <|'e9' union U = Z type Z { z: Int }>",
    "schema { query: Qu <|mutation: Mu> <|subscription: Su> } type Qu { q: Int <|self: Qu> } <|type Mu { m: Qu }> type Mu { m: Int } type Su { s: Int } --- <|v1> <extend type|type> Query { r: Int } <|type Mutation { n: Int }> <|type Subscription { t: Int }> <|type Qu { x: Int }>",
    "<|v1> type Query { q: X } <extend |>type X @key(fields: 'id') <|@key(fields: 'id f')> { id: ID! <|@external> f: Int <|@external|@shareable> } --- <|v1> type Query { r: X } extend type X @key(fields: 'id') { id: ID! @external f: Int <|@external|@shareable> g: Int <|@requires(fields: 'f')> } <|extend type Query { s: Int }>",
    "type Query { q: N } interface N <|implements M> { n: <Int|Int!> m(a: <Int|Int = 3>): Int } interface M { n: Int } type A implements N <|& M> @shareable { n: Int! m(a: Int <|b: Int>): Int } union U = A <|\\ B> type B @shareable { b: <[[Int!]!]|[[Int]!]!> } --- type Query { r: N } interface N { n: Int } type A implements N @shareable { n: <Int|Int!> m(a: Int <|b: Int>): Int } type B @shareable { b: [[Int]] }",
];

pub fn family(i: usize) -> &'static str {
    let all = [&HIDE[..], &GUARDS, &SHARE, &ROUTES, &MORE];
    let mut i = i;
    for l in all {
        if i < l.len() {
            return l[i];
        }
        i -= l.len();
    }
    ""
}
