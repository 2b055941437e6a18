//! Hash-consed bit-vector expressions over 8-bit symbolic input variables.
//!
//! Every symbolic input of a harness is a byte. Expressions are at most 64 bits wide; comparisons
//! are 1 bit wide. Node 0 is reserved and means "not symbolic".

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type N = u32;
pub const MAXVARS: usize = 256;
pub type Set = [u64; 4];

pub fn set_has(s: &Set, i: usize) -> bool {
    s[i >> 6] >> (i & 63) & 1 == 1
}
pub fn set_add(s: &mut Set, i: usize) {
    s[i >> 6] |= 1 << (i & 63)
}
pub fn set_count(s: &Set) -> u32 {
    s.iter().map(|x| x.count_ones()).sum()
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_or(a: &Set, b: &Set) -> Set {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn set_andnot(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn set_empty(a: &Set) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn set_first(a: &Set) -> Option<usize> {
    for (i, w) in a.iter().enumerate() {
        if *w != 0 {
            return Some(i * 64 + w.trailing_zeros() as usize);
        }
    }
    None
}
pub fn set_iter(a: &Set) -> impl Iterator<Item = usize> + '_ {
    let mut words = *a;
    std::iter::from_fn(move || {
        let i = set_first(&words)?;
        words[i >> 6] &= !(1 << (i & 63));
        Some(i)
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Nil,
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Extract, // k = lo
    Concat,  // a high, b low
    ZExt,
    SExt,
    Tbl, // a: 8-bit variable node, k: table id
    Not,
    Clz,
    Ctz,
    Popcnt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: N,
    pub b: N,
    pub c: N,
    pub k: u64,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub supp: Vec<u32>,
    /// number of low bits that may be non-zero
    pub sig: Vec<u8>,
    /// mask of the bits that may be non-zero
    pub ones: Vec<u64>,
    /// rough cost of deciding a formula over this node (size as a tree; multiplications count extra)
    pub cost: Vec<u32>,
    map: FxMap<Node, N>,
    pub supps: Vec<Set>,
    supp_map: FxMap<Set, u32>,
    supp_union: FxMap<(u32, u32), u32>,
    pub tables: Vec<Rc<[u64; 256]>>,
    table_map: HashMap<Rc<[u64; 256]>, u32, FxB>,
    node_tables: FxMap<N, Rc<[u64; 256]>>,
    memo_val: Vec<u64>,
    memo_stamp: Vec<u32>,
    stamp: u32,
}

pub const TRUE: N = 1;
pub const FALSE: N = 2;

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![],
            supp: vec![],
            sig: vec![],
            ones: vec![],
            cost: vec![],
            map: Default::default(),
            supps: vec![[0; 4]],
            supp_map: Default::default(),
            supp_union: Default::default(),
            tables: vec![],
            table_map: Default::default(),
            node_tables: Default::default(),
            memo_val: vec![],
            memo_stamp: vec![],
            stamp: 0,
        };
        p.supp_map.insert([0; 4], 0);
        p.nodes.push(Node { op: Op::Nil, w: 0, a: 0, b: 0, c: 0, k: 0 });
        p.supp.push(0);
        p.sig.push(0);
        p.ones.push(0);
        p.cost.push(0);
        assert_eq!(p.cst(1, 1), TRUE);
        assert_eq!(p.cst(1, 0), FALSE);
        p
    }

    fn intern_supp(&mut self, s: Set) -> u32 {
        if let Some(i) = self.supp_map.get(&s) {
            return *i;
        }
        let i = self.supps.len() as u32;
        self.supps.push(s);
        self.supp_map.insert(s, i);
        i
    }
    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(x) = self.supp_union.get(&k) {
            return *x;
        }
        let s = set_or(&self.supps[a as usize], &self.supps[b as usize]);
        let r = self.intern_supp(s);
        self.supp_union.insert(k, r);
        r
    }
    pub fn support(&self, n: N) -> &Set {
        &self.supps[self.supp[n as usize] as usize]
    }

    pub fn mk(&mut self, node: Node) -> N {
        if let Some(n) = self.map.get(&node) {
            return *n;
        }
        let supp = match node.op {
            Op::Const | Op::Nil => 0,
            Op::Var => {
                let mut s = [0; 4];
                set_add(&mut s, node.k as usize);
                self.intern_supp(s)
            }
            _ => {
                let mut s = self.supp[node.a as usize];
                if node.b != 0 {
                    s = self.union(s, self.supp[node.b as usize]);
                }
                if node.c != 0 {
                    s = self.union(s, self.supp[node.c as usize]);
                }
                s
            }
        };
        let on = |n: N| self.ones[n as usize];
        let up = |x: u64| if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
        let full = mask(node.w);
        let ones = full
            & match node.op {
                Op::Const => node.k,
                Op::ZExt => on(node.a),
                Op::And => on(node.a) & on(node.b),
                Op::Or | Op::Xor => on(node.a) | on(node.b),
                Op::Ite => on(node.b) | on(node.c),
                Op::Add => {
                    let m = up(on(node.a)).max(up(on(node.b)));
                    // below the lowest possibly-set bit nothing is produced
                    let tz = (on(node.a) | on(node.b)).trailing_zeros();
                    (m << 1 | m) & if tz >= 64 { 0 } else { u64::MAX << tz }
                }
                Op::Mul => {
                    let l = (64 - on(node.a).leading_zeros()) + (64 - on(node.b).leading_zeros());
                    if l >= 64 {
                        full
                    } else {
                        (1u64 << l) - 1
                    }
                }
                Op::UDiv => up(on(node.a)),
                Op::URem => up(on(node.a)).min(if on(node.b) == 0 { u64::MAX } else { up(on(node.b)) }),
                Op::Concat => on(node.a) << self.nodes[node.b as usize].w | on(node.b),
                Op::Shl => match self.as_const(node.b) {
                    Some(k) if k < 64 => on(node.a) << k,
                    Some(_) => 0,
                    None => full,
                },
                Op::LShr => match self.as_const(node.b) {
                    Some(k) if k < 64 => on(node.a) >> k,
                    Some(_) => 0,
                    None => up(on(node.a)),
                },
                Op::Extract => on(node.a) >> node.k,
                Op::Tbl => self.tables[node.k as usize].iter().fold(0, |a, b| a | b),
                Op::Clz | Op::Ctz | Op::Popcnt => 0x7f,
                _ => full,
            };
        let sig = (64 - ones.leading_zeros()) as u8;
        let n = self.nodes.len() as N;
        self.nodes.push(node);
        self.supp.push(supp);
        self.sig.push(sig);
        self.ones.push(ones);
        let own = match node.op {
            Op::Const | Op::Var | Op::Extract | Op::ZExt | Op::Concat => 0,
            Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem if self.as_const(node.b).is_none_or(|k| !k.is_power_of_two()) => 12 * node.w as u32,
            Op::Tbl => 10,
            _ => 1 + node.w as u32 / 8,
        };
        let of = |n: N| self.cost[n as usize];
        let cost = own.saturating_add(of(node.a)).saturating_add(of(node.b)).saturating_add(of(node.c));
        self.cost.push(cost);
        self.map.insert(node, n);
        n
    }

    pub fn w(&self, n: N) -> u8 {
        self.nodes[n as usize].w
    }
    pub fn cst(&mut self, w: u8, k: u64) -> N {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> N {
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u64 })
    }
    pub fn as_const(&self, n: N) -> Option<u64> {
        let x = &self.nodes[n as usize];
        if x.op == Op::Const {
            Some(x.k)
        } else {
            None
        }
    }
    pub fn table_node(&mut self, var: N, w: u8, t: [u64; 256]) -> N {
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(w, t[0]);
        }
        if w == 8 && t.iter().enumerate().all(|(i, x)| i as u64 == *x) {
            return var;
        }
        let t = Rc::new(t);
        let id = match self.table_map.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(t.clone());
                self.table_map.insert(t, i);
                i
            }
        };
        self.mk(Node { op: Op::Tbl, w, a: var, b: 0, c: 0, k: id as u64 })
    }

    pub fn fold(op: Op, w: u8, a: u64, b: u64) -> Option<u64> {
        let r = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            // SMT-LIB semantics for division by zero; the executor traps before using these
            Op::UDiv => {
                if b == 0 {
                    u64::MAX
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        u64::MAX
                    }
                } else {
                    x.wrapping_div(y) as u64
                }
            }
            Op::SRem => {
                let (x, y) = (sext(a, w), sext(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u64
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let x = sext(a, w);
                (x >> b.min(63)) as u64
            }
            _ => return None,
        };
        Some(r & mask(w))
    }
    fn fold_cmp(op: Op, w: u8, a: u64, b: u64) -> bool {
        match op {
            Op::Eq => a == b,
            Op::Ult => a < b,
            Op::Ule => a <= b,
            Op::Slt => sext(a, w) < sext(b, w),
            Op::Sle => sext(a, w) <= sext(b, w),
            _ => unreachable!(),
        }
    }

    fn raw(&mut self, op: Op, w: u8, a: N, b: N, c: N, k: u64) -> N {
        self.mk(Node { op, w, a, b, c, k })
    }

    /// `Ite(c, const, const)` seen through zero extension (`ZExt` of a 1-bit condition included).
    fn as_ite2(&mut self, n: N) -> Option<(N, u64, u64)> {
        let x = self.nodes[n as usize];
        match x.op {
            Op::Ite => match (self.as_const(x.b), self.as_const(x.c)) {
                (Some(p), Some(q)) => Some((x.a, p, q)),
                _ => None,
            },
            Op::ZExt if self.w(x.a) == 1 => Some((x.a, 1, 0)),
            _ => None,
        }
    }

    pub fn bin(&mut self, op: Op, a: N, b: N) -> N {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?} {:?} {:?}", op, self.nodes[a as usize], self.nodes[b as usize]);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = Self::fold(op, w, x, y).unwrap();
            return self.cst(w, r);
        }
        let full = mask(w);
        // canonical: constants on the right for commutative ops
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            return self.bin(op, b, a);
        }
        if let Some(k) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
                Op::And | Op::Mul if k == 0 => return b,
                Op::Mul | Op::UDiv | Op::SDiv if k == 1 => return a,
                Op::URem if k == 1 => return self.cst(w, 0),
                Op::Or if k == full => return b,
                Op::And if k == full => return a,
                Op::Xor if k == full => return self.not(a),
                Op::Sub => {
                    let nk = self.cst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, nk);
                }
                Op::Mul if k.is_power_of_two() => {
                    let s = self.cst(w, k.trailing_zeros() as u64);
                    return self.bin(Op::Shl, a, s);
                }
                Op::UDiv if k.is_power_of_two() => {
                    let s = self.cst(w, k.trailing_zeros() as u64);
                    return self.bin(Op::LShr, a, s);
                }
                Op::URem if k.is_power_of_two() => {
                    let s = self.cst(w, k - 1);
                    return self.bin(Op::And, a, s);
                }
                Op::Shl if k >= w as u64 => return self.cst(w, 0),
                Op::LShr if k >= self.sig[a as usize] as u64 => return self.cst(w, 0),
                Op::UDiv if k > mask(self.sig[a as usize]) && k != 0 => return self.cst(w, 0),
                Op::URem if k > mask(self.sig[a as usize]) && k != 0 => return a,
                _ => {}
            }
            // push into two-valued ites
            if let Some((c, p, q)) = self.as_ite2(a) {
                let p2 = Self::fold(op, w, p, k).unwrap();
                let q2 = Self::fold(op, w, q, k).unwrap();
                let (x, y) = (self.cst(w, p2), self.cst(w, q2));
                return self.ite(c, x, y);
            }
            let na = self.nodes[a as usize];
            // associate constants
            if na.op == op && matches!(op, Op::Add | Op::And | Op::Or | Op::Xor | Op::Mul) {
                if let Some(k2) = self.as_const(na.b) {
                    let r = Self::fold(op, w, k2, k).unwrap();
                    let r = self.cst(w, r);
                    return self.bin(op, na.a, r);
                }
            }
            if op == na.op && matches!(op, Op::Shl | Op::LShr) {
                if let Some(k2) = self.as_const(na.b) {
                    let r = self.cst(w, (k2 + k).min(w as u64));
                    return self.bin(op, na.a, r);
                }
            }
            match op {
                Op::And => {
                    let on = self.ones[a as usize];
                    if k & on == on {
                        return a;
                    }
                    if k & on == 0 {
                        return self.cst(w, 0);
                    }
                    if k & on != k {
                        let k = self.cst(w, k & on);
                        return self.bin(Op::And, a, k);
                    }
                    if matches!(na.op, Op::Or | Op::Xor) {
                        if self.ones[na.a as usize] & k == 0 {
                            return self.bin(Op::And, na.b, b);
                        }
                        if self.ones[na.b as usize] & k == 0 {
                            return self.bin(Op::And, na.a, b);
                        }
                    }
                    // low mask -> zext(extract)
                    if (k + 1).is_power_of_two() {
                        let lw = k.trailing_ones() as u8;
                        let e = self.extract(a, 0, lw);
                        return self.zext(e, w);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let kk = self.cst(iw, k);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        if k & mask(lw) == 0 || k >> lw == 0 || k & mask(lw) == mask(lw) {
                            let hw = w - lw;
                            let kh = self.cst(hw, k >> lw);
                            let kl = self.cst(lw, k);
                            let h = self.bin(Op::And, na.a, kh);
                            let l = self.bin(Op::And, na.b, kl);
                            return self.concat(h, l);
                        }
                    }
                }
                Op::Shl => {
                    // concat(low bits, zeros)
                    let lo = self.extract(a, 0, w - k as u8);
                    let z = self.cst(k as u8, 0);
                    return self.concat(lo, z);
                }
                Op::LShr => {
                    let hi = self.extract(a, k as u8, w - k as u8);
                    return self.zext(hi, w);
                }
                Op::AShr => {
                    if self.sig[a as usize] < w {
                        return self.bin(Op::LShr, a, b);
                    }
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Op::And | Op::Or => return a,
                Op::Xor | Op::Sub => return self.cst(w, 0),
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Op::And => {
                    if self.is_neg(a, b) {
                        return FALSE;
                    }
                }
                Op::Or => {
                    if self.is_neg(a, b) {
                        return TRUE;
                    }
                }
                _ => {}
            }
        }
        if let (Some(k), Some((c, p, q))) = (ca, self.as_ite2(b)) {
            if !matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                let x = Self::fold(op, w, k, p).unwrap();
                let y = Self::fold(op, w, k, q).unwrap();
                let (x, y) = (self.cst(w, x), self.cst(w, y));
                return self.ite(c, x, y);
            }
        }
        // masks and merges: x & (c ? ~0 : 0), b ^ (c ? a ^ b : 0)
        if matches!(op, Op::And | Op::Xor | Op::Or | Op::Add) {
            for (x, y) in [(a, b), (b, a)] {
                let ny = self.nodes[y as usize];
                if op == Op::And {
                    if let Some((c, p, q)) = self.as_ite2(y) {
                        let on = self.ones[x as usize];
                        if (p & on == on && q & on == 0) || (p & on == 0 && q & on == on) {
                            let z = self.cst(w, 0);
                            return if p & on == on { self.ite(c, x, z) } else { self.ite(c, z, x) };
                        }
                    }
                } else if ny.op == Op::Ite && self.as_const(ny.c) == Some(0) && op == Op::Xor {
                    let nv = self.nodes[ny.b as usize];
                    if nv.op == Op::Xor && (nv.a == x || nv.b == x) {
                        let other = if nv.a == x { nv.b } else { nv.a };
                        return self.ite(ny.a, other, x);
                    }
                }
            }
        }
        // disjoint or / xor / add -> concat
        if matches!(op, Op::Or | Op::Xor | Op::Add) && cb.is_none() {
            if let Some(r) = self.try_concat(a, b).or_else(|| self.try_concat(b, a)) {
                return r;
            }
        }
        // two-valued ites sharing a condition
        if let (Some((c1, p1, q1)), Some((c2, p2, q2))) = (self.as_ite2(a), self.as_ite2(b)) {
            if c1 == c2 {
                let x = Self::fold(op, w, p1, p2).unwrap();
                let y = Self::fold(op, w, q1, q2).unwrap();
                let (x, y) = (self.cst(w, x), self.cst(w, y));
                return self.ite(c1, x, y);
            }
            // boolean algebra on 0/1 integers
            if (p1, q1, p2, q2) == (1, 0, 1, 0) && matches!(op, Op::And | Op::Or | Op::Xor) {
                let r = self.bin(op, c1, c2);
                return self.zext(r, w);
            }
        }
        // zext(x) op zext(y) for bitwise ops of equal inner widths
        if matches!(op, Op::And | Op::Or | Op::Xor) {
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let r = self.bin(op, na.a, nb.a);
                return self.zext(r, w);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.bin(op, na.a, nb.a);
                let l = self.bin(op, na.b, nb.b);
                return self.concat(h, l);
            }
        }
        let (a, b) = if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) && cb.is_none() && b < a {
            (b, a)
        } else {
            (a, b)
        };
        self.raw(op, w, a, b, 0, 0)
    }

    /// `hi | lo` where lo only uses low bits that are zero in hi
    fn try_concat(&mut self, hi: N, lo: N) -> Option<N> {
        let nh = self.nodes[hi as usize];
        if nh.op != Op::Concat && nh.op != Op::ZExt {
            return None;
        }
        let (core, w) = (hi, nh.w);
        let nc = if nh.op == Op::ZExt { self.nodes[nh.a as usize] } else { nh };
        let _ = core;
        if nc.op != Op::Concat || self.as_const(nc.b) != Some(0) {
            return None;
        }
        let lw = self.w(nc.b);
        if self.sig[lo as usize] > lw {
            return None;
        }
        let l = self.extract(lo, 0, lw);
        let r = self.concat(nc.a, l);
        Some(self.zext(r, w))
    }

    fn is_neg(&self, a: N, b: N) -> bool {
        let (x, y) = (self.nodes[a as usize], self.nodes[b as usize]);
        (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a)
    }

    pub fn not(&mut self, a: N) -> N {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => self.cst(n.w, !n.k),
            Op::Not => n.a,
            _ if n.w == 1 => match n.op {
                // keep a positive normal form for comparisons
                Op::Ult => self.cmp(Op::Ule, n.b, n.a),
                Op::Ule => self.cmp(Op::Ult, n.b, n.a),
                Op::Slt => self.cmp(Op::Sle, n.b, n.a),
                Op::Sle => self.cmp(Op::Slt, n.b, n.a),
                Op::Tbl => {
                    let mut t = *self.tables[n.k as usize];
                    for x in t.iter_mut() {
                        *x ^= 1;
                    }
                    self.table_node(n.a, 1, t)
                }
                _ => self.raw(Op::Not, 1, a, 0, 0, 0),
            },
            _ => self.raw(Op::Not, n.w, a, 0, 0, 0),
        }
    }

    pub fn cmp(&mut self, op: Op, a: N, b: N) -> N {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return if Self::fold_cmp(op, w, x, y) { TRUE } else { FALSE };
        }
        if a == b {
            return if matches!(op, Op::Eq | Op::Ule | Op::Sle) { TRUE } else { FALSE };
        }
        if op == Op::Eq {
            if ca.is_some() || (cb.is_none() && b < a) {
                return self.cmp(Op::Eq, b, a);
            }
            if w == 1 {
                return match cb {
                    Some(1) => a,
                    Some(_) => self.not(a),
                    None => {
                        let x = self.bin(Op::Xor, a, b);
                        self.not(x)
                    }
                };
            }
            let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
            if let Some(k) = cb {
                if k & !self.ones[a as usize] != 0 {
                    return FALSE;
                }
                if let Some((c, p, q)) = self.as_ite2(a) {
                    return match (p == k, q == k) {
                        (true, true) => TRUE,
                        (true, false) => c,
                        (false, true) => self.not(c),
                        (false, false) => FALSE,
                    };
                }
                match na.op {
                    Op::ZExt => {
                        let kk = self.cst(self.w(na.a), k);
                        return self.cmp(Op::Eq, na.a, kk);
                    }
                    Op::SExt => {
                        let iw = self.w(na.a);
                        if (sext(k, iw) as u64) & mask(w) != k {
                            return FALSE;
                        }
                        let kk = self.cst(iw, k);
                        return self.cmp(Op::Eq, na.a, kk);
                    }
                    Op::Concat => {
                        let lw = self.w(na.b);
                        let kh = self.cst(w - lw, k >> lw);
                        let kl = self.cst(lw, k);
                        let h = self.cmp(Op::Eq, na.a, kh);
                        if h == FALSE {
                            return FALSE;
                        }
                        let l = self.cmp(Op::Eq, na.b, kl);
                        return self.bin(Op::And, h, l);
                    }
                    Op::Xor if k == 0 => return self.cmp(Op::Eq, na.a, na.b),
                    Op::Sub if k == 0 => return self.cmp(Op::Eq, na.a, na.b),
                    Op::Or if k == 0 => {
                        let z = self.cst(w, 0);
                        let x = self.cmp(Op::Eq, na.a, z);
                        let y = self.cmp(Op::Eq, na.b, z);
                        return self.bin(Op::And, x, y);
                    }
                    Op::Add | Op::Xor => {
                        if let Some(k2) = self.as_const(na.b) {
                            let r = if na.op == Op::Add { k.wrapping_sub(k2) } else { k ^ k2 };
                            let r = self.cst(w, r);
                            return self.cmp(Op::Eq, na.a, r);
                        }
                    }
                    Op::Not => {
                        let r = self.cst(w, !k);
                        return self.cmp(Op::Eq, na.a, r);
                    }
                    Op::Ite => {
                        // one constant arm that differs
                        if let Some(p) = self.as_const(na.b) {
                            let nc = self.not(na.a);
                            let e = self.cmp(Op::Eq, na.c, b);
                            return if p == k { self.bin(Op::Or, na.a, e) } else { self.bin(Op::And, nc, e) };
                        }
                        if let Some(p) = self.as_const(na.c) {
                            let nc = self.not(na.a);
                            let e = self.cmp(Op::Eq, na.b, b);
                            return if p == k { self.bin(Op::Or, nc, e) } else { self.bin(Op::And, na.a, e) };
                        }
                    }
                    Op::Tbl => {
                        let mut t = *self.tables[na.k as usize];
                        for x in t.iter_mut() {
                            *x = (*x == k) as u64;
                        }
                        return self.table_node(na.a, 1, t);
                    }
                    _ => {}
                }
            } else {
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.cmp(Op::Eq, na.a, nb.a);
                    let l = self.cmp(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, h, l);
                }
            }
            return self.raw(Op::Eq, 1, a, b, 0, 0);
        }
        // sign tests
        if matches!(op, Op::Slt | Op::Sle) {
            let neg = match (op, ca, cb) {
                (Op::Slt, _, Some(0)) => Some((a, true)),
                (Op::Sle, _, Some(k)) if k == mask(w) => Some((a, true)),
                (Op::Sle, Some(0), _) => Some((b, false)),
                (Op::Slt, Some(k), _) if k == mask(w) => Some((b, false)),
                _ => None,
            };
            if let Some((x, is_neg)) = neg {
                let mut x = x;
                while self.nodes[x as usize].op == Op::SExt {
                    x = self.nodes[x as usize].a;
                }
                let bit = self.extract(x, self.w(x) - 1, 1);
                return if is_neg { bit } else { self.not(bit) };
            }
        }
        // orderings
        let signed = matches!(op, Op::Slt | Op::Sle);
        let (sa, sb) = (self.sig[a as usize], self.sig[b as usize]);
        if signed && sa < w && sb < w {
            let u = if op == Op::Slt { Op::Ult } else { Op::Ule };
            return self.cmp(u, a, b);
        }
        if let Some(k) = cb {
            if let Some((c, p, q)) = self.as_ite2(a) {
                let (x, y) = (Self::fold_cmp(op, w, p, k), Self::fold_cmp(op, w, q, k));
                return self.pick(c, x, y);
            }
            if !signed {
                if op == Op::Ult && k == 0 {
                    return FALSE;
                }
                if op == Op::Ult && k > mask(sa) {
                    return TRUE;
                }
                if op == Op::Ule && k >= mask(sa) {
                    return TRUE;
                }
                if op == Op::Ule && k == 0 {
                    return self.cmp(Op::Eq, a, b);
                }
                if op == Op::Ult && k == 1 {
                    let z = self.cst(w, 0);
                    return self.cmp(Op::Eq, a, z);
                }
            }
        }
        if let Some(k) = ca {
            if let Some((c, p, q)) = self.as_ite2(b) {
                let (x, y) = (Self::fold_cmp(op, w, k, p), Self::fold_cmp(op, w, k, q));
                return self.pick(c, x, y);
            }
            if !signed {
                if op == Op::Ult && k >= mask(sb) {
                    return FALSE;
                }
                if op == Op::Ule && k > mask(sb) {
                    return FALSE;
                }
                if op == Op::Ule && k == 0 {
                    return TRUE;
                }
            }
        }
        if !signed {
            // narrow zero-extended operands
            let iw = sa.max(sb).max(1);
            if iw < w {
                let x = self.extract(a, 0, iw);
                let y = self.extract(b, 0, iw);
                return self.cmp(op, x, y);
            }
        }
        let na = if ca.is_some() { b } else { a };
        let nn = self.nodes[na as usize];
        if nn.op == Op::Tbl && (ca.is_some() || cb.is_some()) {
            let mut t = *self.tables[nn.k as usize];
            for x in t.iter_mut() {
                *x = if let Some(k) = cb { Self::fold_cmp(op, w, *x, k) } else { Self::fold_cmp(op, w, ca.unwrap(), *x) } as u64;
            }
            return self.table_node(nn.a, 1, t);
        }
        self.raw(op, 1, a, b, 0, 0)
    }

    fn pick(&mut self, c: N, x: bool, y: bool) -> N {
        match (x, y) {
            (true, true) => TRUE,
            (true, false) => c,
            (false, true) => self.not(c),
            (false, false) => FALSE,
        }
    }

    pub fn ite(&mut self, c: N, a: N, b: N) -> N {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        let w = self.w(a);
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if w == 1 {
            match (ca, cb) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(_), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(_)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if (ca, cb) == (Some(1), Some(0)) {
            return self.zext(c, w);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    pub fn extract(&mut self, a: N, lo: u8, w: u8) -> N {
        let n = self.nodes[a as usize];
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        if self.ones[a as usize] >> lo & mask(w) == 0 {
            return self.cst(w, 0);
        }
        match n.op {
            Op::Const => self.cst(w, n.k >> lo),
            Op::Extract => self.extract(n.a, lo + n.k as u8, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.zext(n.a, w)
                } else {
                    let e = self.extract(n.a, lo, iw - lo);
                    self.zext(e, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.raw(Op::Extract, w, a, 0, 0, lo as u64)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::Ite => {
                if let (Some(p), Some(q)) = (self.as_const(n.b), self.as_const(n.c)) {
                    let (x, y) = (self.cst(w, p >> lo), self.cst(w, q >> lo));
                    return self.ite(n.a, x, y);
                }
                if self.dag_size(a, 48) < 48 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
                self.raw(Op::Extract, w, a, 0, 0, lo as u64)
            }
            Op::Tbl => {
                let mut t = *self.tables[n.k as usize];
                for x in t.iter_mut() {
                    *x = (*x >> lo) & mask(w);
                }
                self.table_node(n.a, w, t)
            }
            Op::Or | Op::Xor if self.ones[n.a as usize] >> lo & mask(w) == 0 => self.extract(n.b, lo, w),
            Op::Or | Op::Xor if self.ones[n.b as usize] >> lo & mask(w) == 0 => self.extract(n.a, lo, w),
            Op::And | Op::Or | Op::Xor if self.as_const(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            _ => self.raw(Op::Extract, w, a, 0, 0, lo as u64),
        }
    }

    pub fn concat(&mut self, a: N, b: N) -> N {
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let w = na.w + nb.w;
        debug_assert!(w <= 64);
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.cst(w, na.k << nb.w | nb.k);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        // zext(x):y -> zext(x:y)
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        // two-valued ites and table look-ups recombine
        let (ia, ib) = (self.as_ite2(a), self.as_ite2(b));
        match (ia, ib, na.op == Op::Const, nb.op == Op::Const) {
            (Some((c1, p1, q1)), Some((c2, p2, q2)), _, _) if c1 == c2 => {
                let (x, y) = (self.cst(w, p1 << nb.w | p2), self.cst(w, q1 << nb.w | q2));
                return self.ite(c1, x, y);
            }
            (Some((c, p, q)), None, _, true) => {
                let (x, y) = (self.cst(w, p << nb.w | nb.k), self.cst(w, q << nb.w | nb.k));
                return self.ite(c, x, y);
            }
            (None, Some((c, p, q)), true, _) => {
                let (x, y) = (self.cst(w, na.k << nb.w | p), self.cst(w, na.k << nb.w | q));
                return self.ite(c, x, y);
            }
            _ => {}
        }
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::Tbl && nb.op == Op::Tbl && na.a == nb.a {
            let mut t = *self.tables[na.k as usize];
            let t2 = self.tables[nb.k as usize].clone();
            for i in 0..256 {
                t[i] = t[i] << nb.w | t2[i];
            }
            return self.table_node(na.a, w, t);
        }
        if (na.op == Op::Tbl && nb.op == Op::Const) || (na.op == Op::Const && nb.op == Op::Tbl) {
            let (v, mut t) = if na.op == Op::Tbl { (na.a, *self.tables[na.k as usize]) } else { (nb.a, *self.tables[nb.k as usize]) };
            for x in t.iter_mut() {
                *x = if na.op == Op::Tbl { *x << nb.w | nb.k } else { na.k << nb.w | *x };
            }
            return self.table_node(v, w, t);
        }
        // adjacent extracts
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 {
            return self.extract(na.a, nb.k as u8, w);
        }
        if na.op == Op::Extract && na.a == b && na.k == nb.w as u64 {
            return self.extract(b, 0, w);
        }
        // right-nested normal form; merge adjacent pieces
        if nb.op == Op::Concat {
            let nh = self.nodes[nb.a as usize];
            if na.op == Op::Extract && nh.op == Op::Extract && na.a == nh.a && na.k == nh.k + nh.w as u64 {
                let h = self.extract(na.a, nh.k as u8, na.w + nh.w);
                return self.concat(h, nb.b);
            }
            if na.op == Op::Const && nh.op == Op::Const {
                let h = self.cst(na.w + nh.w, na.k << nh.w | nh.k);
                return self.concat(h, nb.b);
            }
        }
        if na.op == Op::Concat {
            let lowpart = self.concat(na.b, b);
            return self.concat(na.a, lowpart);
        }
        // zext(x) above an extract that completes: handled by sig
        self.raw(Op::Concat, w, a, b, 0, 0)
    }

    pub fn zext(&mut self, a: N, w: u8) -> N {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.cst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Extract if n.k == 0 && self.w(n.a) == w && self.sig[n.a as usize] <= n.w => n.a,
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            Op::Tbl if n.w > 1 => self.raw(Op::Tbl, w, n.a, 0, 0, n.k),
            _ => self.raw(Op::ZExt, w, a, 0, 0, 0),
        }
    }

    pub fn sext(&mut self, a: N, w: u8) -> N {
        let n = self.nodes[a as usize];
        if n.w == w {
            return a;
        }
        if self.sig[a as usize] < n.w {
            return self.zext(a, w);
        }
        match n.op {
            Op::Const => self.cst(w, sext(n.k, n.w) as u64),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            Op::Tbl => {
                let mut t = *self.tables[n.k as usize];
                for x in t.iter_mut() {
                    *x = sext(*x, n.w) as u64 & mask(w);
                }
                self.table_node(n.a, w, t)
            }
            _ => self.raw(Op::SExt, w, a, 0, 0, 0),
        }
    }

    pub fn unary(&mut self, op: Op, a: N) -> N {
        let w = self.w(a);
        if let Some(k) = self.as_const(a) {
            let r = Self::fold_unary(op, w, k);
            return self.cst(w, r);
        }
        self.raw(op, w, a, 0, 0, 0)
    }
    fn fold_unary(op: Op, w: u8, k: u64) -> u64 {
        match op {
            Op::Clz => (k.leading_zeros() - (64 - w as u32)) as u64,
            Op::Ctz => k.trailing_zeros().min(w as u32) as u64,
            Op::Popcnt => k.count_ones() as u64,
            Op::Not => !k & mask(w),
            _ => unreachable!(),
        }
    }

    fn eval_node(&self, x: &Node, f: impl Fn(N) -> u64) -> u64 {
        match x.op {
            Op::Nil => 0,
            Op::Const => x.k,
            Op::Var => unreachable!(),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => Self::fold_cmp(x.op, self.w(x.a), f(x.a), f(x.b)) as u64,
            Op::Ite => {
                if f(x.a) != 0 {
                    f(x.b)
                } else {
                    f(x.c)
                }
            }
            Op::Extract => f(x.a) >> x.k & mask(x.w),
            Op::Concat => f(x.a) << self.w(x.b) | f(x.b),
            Op::ZExt => f(x.a),
            Op::SExt => sext(f(x.a), self.w(x.a)) as u64 & mask(x.w),
            Op::Tbl => self.tables[x.k as usize][f(x.a) as usize],
            Op::Not | Op::Clz | Op::Ctz | Op::Popcnt => Self::fold_unary(x.op, x.w, f(x.a)),
            _ => Self::fold(x.op, x.w, f(x.a), f(x.b)).unwrap(),
        }
    }

    /// The value of `n` under an assignment of all variables.
    pub fn eval(&mut self, n: N, model: &[u8]) -> u64 {
        let nd = self.nodes[n as usize];
        if nd.op == Op::Const {
            return nd.k;
        }
        if nd.op == Op::Var {
            return model[nd.k as usize] as u64;
        }
        self.stamp += 1;
        let st = self.stamp;
        self.memo_val.resize(self.nodes.len(), 0);
        self.memo_stamp.resize(self.nodes.len(), 0);
        let mut todo = vec![n];
        while let Some(&t) = todo.last() {
            if self.memo_stamp[t as usize] == st {
                todo.pop();
                continue;
            }
            let x = self.nodes[t as usize];
            let v = match x.op {
                Op::Const => x.k,
                Op::Var => model[x.k as usize] as u64,
                _ => {
                    let mut ready = true;
                    for c in [x.a, x.b, x.c] {
                        if c != 0 && self.memo_stamp[c as usize] != st {
                            todo.push(c);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    self.eval_node(&x, |m| self.memo_val[m as usize])
                }
            };
            self.memo_val[t as usize] = v;
            self.memo_stamp[t as usize] = st;
            todo.pop();
        }
        self.memo_val[n as usize]
    }

    /// The single variable `n` depends on, if it is exactly one.
    pub fn single_var(&self, n: N) -> Option<usize> {
        let s = self.support(n);
        if set_count(s) == 1 {
            set_first(s)
        } else {
            None
        }
    }

    /// Values of a single-variable expression for each value of its variable.
    pub fn table(&mut self, n: N) -> Rc<[u64; 256]> {
        if let Some(t) = self.node_tables.get(&n) {
            return t.clone();
        }
        if self.node_tables.len() > 60_000 {
            self.node_tables.clear();
        }
        let mut todo = vec![n];
        let mut keep: FxMap<N, Rc<[u64; 256]>> = Default::default();
        while let Some(&t) = todo.last() {
            if keep.contains_key(&t) {
                todo.pop();
                continue;
            }
            if let Some(x) = self.node_tables.get(&t) {
                keep.insert(t, x.clone());
                todo.pop();
                continue;
            }
            let x = self.nodes[t as usize];
            let mut out = [0u64; 256];
            match x.op {
                Op::Const => out = [x.k; 256],
                Op::Var => {
                    for (i, o) in out.iter_mut().enumerate() {
                        *o = i as u64;
                    }
                }
                _ => {
                    let mut ready = true;
                    for c in [x.a, x.b, x.c] {
                        if c != 0 && !keep.contains_key(&c) {
                            todo.push(c);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let g = |c: N| if c == 0 { None } else { keep.get(&c) };
                    let (ta, tb, tc) = (g(x.a), g(x.b), g(x.c));
                    for i in 0..256 {
                        let v = self.eval_node(&x, |m| {
                            if m == x.a {
                                ta.unwrap()[i]
                            } else if m == x.b {
                                tb.unwrap()[i]
                            } else {
                                tc.unwrap()[i]
                            }
                        });
                        out[i] = v;
                    }
                }
            }
            let r = Rc::new(out);
            self.node_tables.insert(t, r.clone());
            keep.insert(t, r);
            todo.pop();
        }
        keep.remove(&n).unwrap()
    }

    /// Replace the variables in `pinned` by their value in `model`.
    pub fn subst(&mut self, n: N, pinned: &Set, model: &[u8]) -> N {
        let s = *self.support(n);
        if set_empty(&set_and(&s, pinned)) {
            return n;
        }
        if set_empty(&set_andnot(&s, pinned)) {
            let v = self.eval(n, model);
            return self.cst(self.w(n), v);
        }
        let mut memo: FxMap<N, N> = Default::default();
        let mut todo = vec![n];
        while let Some(&t) = todo.last() {
            if memo.contains_key(&t) {
                todo.pop();
                continue;
            }
            let s = *self.support(t);
            let x = self.nodes[t as usize];
            if set_empty(&set_and(&s, pinned)) {
                memo.insert(t, t);
                todo.pop();
                continue;
            }
            if set_empty(&set_andnot(&s, pinned)) {
                let v = self.eval(t, model);
                let c = self.cst(x.w, v);
                memo.insert(t, c);
                todo.pop();
                continue;
            }
            let mut ready = true;
            for c in [x.a, x.b, x.c] {
                if c != 0 && !memo.contains_key(&c) {
                    todo.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |c: N| if c == 0 { 0 } else { memo[&c] };
            let (a, b, c) = (g(x.a), g(x.b), g(x.c));
            let r = self.rebuild(&x, a, b, c);
            memo.insert(t, r);
            todo.pop();
        }
        memo[&n]
    }

    fn rebuild(&mut self, x: &Node, a: N, b: N, c: N) -> N {
        match x.op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => self.cmp(x.op, a, b),
            Op::Ite => self.ite(a, b, c),
            Op::Extract => self.extract(a, x.k as u8, x.w),
            Op::Concat => self.concat(a, b),
            Op::ZExt => self.zext(a, x.w),
            Op::SExt => self.sext(a, x.w),
            Op::Tbl => {
                // argument is a bare variable, so a partial substitution never reaches here
                debug_assert_eq!(a, x.a);
                self.raw(Op::Tbl, x.w, a, 0, 0, x.k)
            }
            Op::Not => self.not(a),
            Op::Clz | Op::Ctz | Op::Popcnt => self.unary(x.op, a),
            Op::Const | Op::Var | Op::Nil => unreachable!(),
            _ => self.bin(x.op, a, b),
        }
    }

    /// Number of distinct nodes below `n`, counting stops at `cap`.
    pub fn dag_size(&mut self, n: N, cap: usize) -> usize {
        let mut seen: FxMap<N, ()> = Default::default();
        let mut todo = vec![n];
        while let Some(t) = todo.pop() {
            if seen.insert(t, ()).is_some() {
                continue;
            }
            if seen.len() >= cap {
                return cap;
            }
            let x = self.nodes[t as usize];
            for c in [x.a, x.b, x.c] {
                if c != 0 {
                    todo.push(c);
                }
            }
        }
        seen.len()
    }

    pub fn show(&self, n: N, depth: usize) -> String {
        let x = self.nodes[n as usize];
        match x.op {
            Op::Const => format!("{:#x}:{}", x.k, x.w),
            Op::Var => format!("v{}", x.k),
            _ if depth == 0 => format!("#{n}"),
            _ => {
                let mut s = format!("({:?}:{}", x.op, x.w);
                if matches!(x.op, Op::Extract | Op::Tbl) {
                    s += &format!("[{}]", x.k);
                }
                for c in [x.a, x.b, x.c] {
                    if c != 0 {
                        s += " ";
                        s += &self.show(c, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
