//! C30: the id collections against sets, intervals and multimaps.
use id_newtypes::{BitSet, IdRange, IdToMany, IdToOne};
use std::num::NonZero;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, id_derives::Id)]
pub struct TId(u16);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, id_derives::Id)]
pub struct NzId(NonZero<u16>);

/// Positions that are symbolic: around every block boundary (32 and 64 bit blocks).
const POS: [usize; 7] = [0, 1, 31, 32, 63, 64, 69];

fn any_set(name: &str, cap: usize, npos: usize) -> (BitSet<TId>, Vec<bool>) {
    let bits: [u8; 7] = wrt::bytes(name);
    let mut s = BitSet::with_capacity(cap);
    let mut m = vec![false; cap];
    for (i, b) in bits.iter().enumerate().take(npos) {
        wrt::assume(*b < 2);
        if POS[i] < cap {
            s.set(TId::from(POS[i]), *b == 1);
            m[POS[i]] = *b == 1;
        }
    }
    (s, m)
}

fn same(s: &BitSet<TId>, m: &[bool], what: &str) {
    wrt::ensure!(s.len() == m.len(), "{what}: len");
    wrt::ensure!(s.is_empty() == m.is_empty(), "{what}: is_empty");
    let mut ok = true;
    for (i, b) in m.iter().enumerate() {
        ok &= s[TId::from(i)] == *b;
    }
    wrt::ensure!(ok, "{what}: membership");
}

fn iters(s: &BitSet<TId>, m: &[bool], what: &str) {
    let ones: Vec<usize> = s.ones().map(usize::from).collect();
    let zeroes: Vec<usize> = s.zeroes().map(usize::from).collect();
    let mo: Vec<usize> = (0..m.len()).filter(|i| m[*i]).collect();
    let mz: Vec<usize> = (0..m.len()).filter(|i| !m[*i]).collect();
    wrt::ensure!(ones == mo, "{what}: ones {ones:?} expected {mo:?}");
    wrt::ensure!(zeroes == mz, "{what}: zeroes {zeroes:?} expected {mz:?}");
    let o: Vec<u8> = ones.iter().map(|x| *x as u8).collect();
    wrt::observe("ones", &o);
}

fn cap() -> usize {
    [0usize, 1, 32, 33, 64, 70][wrt::pin(wrt::choose("cap", 6) as u64) as usize]
}

/// One arbitrary operation from an arbitrary set.
pub fn c30_bitset_op() {
    let cap = cap();
    let (mut s, mut m) = any_set("a", cap, wrt::param(0) as usize);
    same(&s, &m, "initial");
    let op = wrt::pin(wrt::choose("op", 8) as u64);
    match op {
        0 | 1 | 2 => {
            wrt::assume(cap > 0);
            let i = wrt::u8("i") as usize;
            wrt::assume(i < cap);
            let id = TId::from(i);
            let old = m[i];
            match op {
                0 => {
                    let r = s.put(id);
                    wrt::ensure!(r == old, "put returns the previous value");
                    m[i] = true;
                }
                1 => {
                    s.insert(id);
                    m[i] = true;
                }
                _ => {
                    let v = wrt::flag("v");
                    s.set(id, v);
                    m[i] = v;
                }
            }
            wrt::reach(1);
        }
        3 => {
            let (a, b) = (wrt::u8("i") as usize, wrt::u8("j") as usize);
            wrt::assume(a <= b && b <= cap);
            let v = wrt::flag("v");
            s.set_range(IdRange { start: TId::from(a), end: TId::from(b) }, v);
            for (i, x) in m.iter_mut().enumerate() {
                *x = wrt::sel(a <= i && i < b, v, *x);
            }
            wrt::reach(2);
        }
        4 => {
            let v = wrt::flag("v");
            s.set_all(v);
            m.fill(v);
        }
        5 => {
            s = !s;
            m.iter_mut().for_each(|x| *x = !*x);
            wrt::reach(3);
        }
        6 => {
            let n = wrt::pin(wrt::choose("n", 80) as u64) as usize;
            s.grow(n);
            if n > m.len() {
                m.resize(n, false);
            }
            wrt::reach(4);
        }
        _ => {
            let c = s.clone();
            same(&c, &m, "clone");
        }
    }
    same(&s, &m, "after the operation");
    wrt::reach(5);
}

/// Binary operators, also between sets of different capacity.
pub fn c30_bitset_bin() {
    let ca = cap();
    let (a, ma) = any_set("a", ca, wrt::param(0) as usize);
    let cb = [0usize, 33, 64, 70][wrt::pin(wrt::choose("capb", 4) as u64) as usize];
    let (b, mb) = any_set("b", cb, wrt::param(0) as usize);
    let get = |m: &[bool], i: usize| m.get(i).copied().unwrap_or(false);
    let op = wrt::pin(wrt::choose("op", 6) as u64);
    let r = match op {
        0 => a | b,
        1 => a & b,
        2 => a ^ b,
        3 => { let mut x = a; x |= b; x }
        4 => { let mut x = a; x &= b; x }
        _ => { let mut x = a; x ^= b; x }
    };
    let n = r.len();
    wrt::ensure!(n >= ca, "the result covers the left operand");
    for i in 0..ca.max(cb) {
        let (x, y) = (get(&ma, i), get(&mb, i));
        let want = match op % 3 { 0 => x | y, 1 => x & y, _ => x ^ y };
        if i < n {
            wrt::ensure!(r[TId::from(i)] == want, "operator {op}: wrong bit {i}");
        } else {
            wrt::ensure!(!want, "operator {op}: bit {i} lost");
        }
    }
    wrt::reach(1);
}

/// Iteration in ascending order over exactly the (non-)members.
pub fn c30_bitset_iter() {
    let cap = cap();
    let (s, m) = any_set("a", cap, wrt::param(0) as usize);
    iters(&s, &m, "iteration");
    wrt::reach(1);
}

fn range_checks(s: usize, e: usize, i: usize) {
    let r: IdRange<TId> = IdRange::from_start_and_end(TId::from(s), TId::from(e));
    wrt::ensure!(r.len() == e - s, "len");
    wrt::ensure!(r.is_empty() == (s == e), "is_empty");
    wrt::ensure!(r.get(i).map(usize::from) == if i < e - s { Some(s + i) } else { None }, "get");
    wrt::ensure!(r.index_of(TId::from(i)) == if s <= i && i < e { Some(i - s) } else { None }, "index_of");
    let r2: IdRange<TId> = IdRange::from_start_and_length((TId::from(s), e - s));
    wrt::ensure!(r2 == r, "from_start_and_length");
    let r3: IdRange<TId> = (s..e).into();
    wrt::ensure!(r3 == r, "from Range");
    wrt::ensure!(r.as_usize() == (s..e), "as_usize");
    let one = IdRange::from_single(TId::from(i));
    wrt::ensure!(one.len() == 1 && one.get(0) == Some(TId::from(i)) && one.get(1).is_none(), "from_single");
    wrt::ensure!(IdRange::<TId>::empty().is_empty() && IdRange::<TId>::default().get(0).is_none(), "empty");
}

/// Interval queries over the whole 16-bit id space.
pub fn c30_range() {
    let (s, e, i) = (wrt::u16("s") as usize, wrt::u16("e") as usize, wrt::u16("i") as usize);
    wrt::assume(s <= e && i < 65535);
    range_checks(s, e, i);
    // non-zero backed ids
    wrt::assume(e < 65535);
    let r: IdRange<NzId> = IdRange::from_start_and_end(s, e);
    wrt::ensure!(r.len() == e - s, "nz len");
    wrt::ensure!(r.index_of(NzId::from(i)) == if s <= i && i < e { Some(i - s) } else { None }, "nz index_of");
    wrt::ensure!(r.get(i).map(usize::from) == if i < e - s { Some(s + i) } else { None }, "nz get");
    wrt::ensure!(usize::from(NzId::from(s)) == s && u16::from(NzId::from(s as u16)) == s as u16, "nz id round trip");
    wrt::ensure!(usize::from(TId::from(s)) == s && u16::from(TId::from(s as u16)) == s as u16, "id round trip");
    wrt::reach(1);
}

/// Iteration from both ends: the ids in order, each once.
pub fn c30_range_iter() {
    let max = wrt::param(0);
    let s = wrt::u16("s") as usize;
    let n = wrt::pin(wrt::choose("n", max as u8 + 1) as u64) as usize;
    wrt::assume(s + n < 65535);
    let mut it = IdRange::<TId>::from_start_and_length((TId::from(s), n)).into_iter();
    let (mut lo, mut hi) = (s, s + n);
    for k in 0..n + 2 {
        wrt::ensure!(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "remaining length");
        if wrt::flag(&format!("back{k}")) {
            let x = it.next_back().map(usize::from);
            if lo < hi {
                hi -= 1;
                wrt::ensure!(x == Some(hi), "next_back");
            } else {
                wrt::ensure!(x.is_none(), "next_back at the end");
                wrt::reach(2);
            }
        } else {
            let x = it.next().map(usize::from);
            if lo < hi {
                wrt::ensure!(x == Some(lo), "next");
                lo += 1;
            } else {
                wrt::ensure!(x.is_none(), "next at the end");
                wrt::reach(1);
            }
        }
    }
}

/// `from_slice` accepts exactly the contiguous ascending slices.
pub fn c30_from_slice() {
    let max = wrt::param(0) as u8;
    let n = wrt::pin(wrt::choose("n", max + 1) as u64) as usize;
    let ids: Vec<u16> = (0..n).map(|i| wrt::u16(&format!("id{i}"))).collect();
    for i in &ids {
        wrt::assume(*i < 65535);
    }
    let v: Vec<TId> = ids.iter().map(|i| TId::from(*i)).collect();
    let contiguous = (1..n).all(|i| ids[i] as usize == ids[0] as usize + i);
    match IdRange::from_slice(&v) {
        Some(r) => {
            wrt::ensure!(contiguous, "accepted a slice that is not an interval");
            wrt::ensure!(r.len() == n, "length");
            if n > 0 {
                wrt::ensure!(r.start == v[0] && usize::from(r.end) == ids[0] as usize + n, "bounds");
            }
            wrt::reach(1);
        }
        None => {
            wrt::ensure!(!contiguous, "rejected an interval");
            wrt::reach(2);
        }
    }
}

/// The sorted relation: find_all and ids.
pub fn c30_many() {
    let max = wrt::param(0) as u8;
    let n = wrt::pin(wrt::choose("n", max + 1) as u64) as usize;
    let keys: Vec<u8> = (0..n).map(|i| wrt::choose(&format!("k{i}"), wrt::param(1) as u8)).collect();
    let rel: Vec<(u8, u32)> = keys.iter().enumerate().map(|(i, k)| (*k, 1u32 << i)).collect();
    let m: IdToMany<u8, u32> = match wrt::pin(wrt::choose("via", 3) as u64) {
        0 => rel.clone().into(),
        1 => rel.iter().copied().collect(),
        _ => {
            let mut r = rel.clone();
            r.sort_by_key(|x| x.0);
            IdToMany::from_sorted_vec(r)
        }
    };
    let q = wrt::u8("q");
    let want: u32 = rel.iter().map(|(k, v)| wrt::sel(*k == q, *v, 0)).sum();
    let mut got = 0;
    let mut count = 0;
    for v in m.find_all(q) {
        got += *v;
        count += 1;
    }
    wrt::ensure!(got == want, "find_all({q}): {got:b} expected {want:b}");
    wrt::ensure!(count == want.count_ones(), "find_all: repeated values");
    let ids: Vec<u8> = m.ids().collect();
    for w in ids.windows(2) {
        wrt::ensure!(w[0] < w[1], "ids are not ascending and unique");
    }
    wrt::ensure!(keys.iter().all(|k| ids.contains(k)), "an id is missing");
    wrt::ensure!(ids.iter().all(|k| keys.contains(k)), "an id too many");
    wrt::ensure!(m.as_ref().len() == n, "number of pairs");
    wrt::observe("n", &[ids.len() as u8, count as u8]);
    wrt::reach(1);
    if count > 1 {
        wrt::reach(2);
    }
}

pub struct Graph {
    items: Vec<u32>,
    one: IdToOne<TId, u32>,
}
impl std::ops::Index<TId> for Graph {
    type Output = u32;
    fn index(&self, i: TId) -> &u32 {
        &self.one[i]
    }
}
#[derive(id_derives::IndexedFields)]
pub struct Store {
    #[indexed_by(NzId)]
    items: Vec<u32>,
}

/// IdToOne and the derived indexing behave like a vector.
pub fn c30_one() {
    let n = 4usize;
    let mut g = Graph { items: vec![7; n], one: IdToOne::init(7, n) };
    for k in 0..wrt::param(0) {
        let i = wrt::choose(&format!("i{k}"), n as u8) as usize;
        let v = wrt::u32(&format!("v{k}"));
        g.one[TId::from(i)] = v;
        g.items[i] = v;
    }
    for i in 0..n {
        wrt::ensure!(g[TId::from(i)] == g.items[i], "IdToOne index {i}");
    }
    let mut k = 0;
    for (id, v) in g.one.iter() {
        wrt::ensure!(usize::from(id) == k && *v == g.items[k], "IdToOne iter");
        k += 1;
    }
    wrt::ensure!(k == n, "IdToOne iter length");
    k = 0;
    let store = Store { items: g.items.clone() };
    for (id, v) in g.one {
        wrt::ensure!(usize::from(id) == k && v == store.items[k], "IdToOne into_iter");
        k += 1;
    }
    let (a, b) = (wrt::choose("a", 5) as usize, wrt::choose("b", 5) as usize);
    wrt::assume(a <= b);
    let sl = &store[IdRange::<NzId>::from_start_and_end(a, b)];
    wrt::ensure!(sl.len() == b - a, "slice length");
    let j = wrt::choose("j", 4) as usize;
    if a + j < b {
        wrt::ensure!(sl[j] == store[NzId::from(a + j)] && sl[j] == g.items[a + j], "slice content");
        wrt::reach(1);
    }
}

wrt::checks! { c30_bitset_op, c30_bitset_bin, c30_bitset_iter, c30_range, c30_range_iter, c30_from_slice, c30_many, c30_one }
