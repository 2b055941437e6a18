//! Symbolic execution of the register code: depth-first over forked states, in parallel over
//! forked processes.

use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub const PG: usize = 4096;

#[derive(Clone)]
pub struct Page {
    data: [u8; PG],
    sym: Option<Box<[N; PG]>>,
    nsym: u32,
}

#[derive(Clone, Copy)]
pub struct Frame {
    func: u32,
    pc: u32,
    base: u32,
}

/// The file system stub: what the code under test created, opened and wrote on this path.
#[derive(Clone, Default)]
pub struct Fs {
    /// absolute path (without the leading slash) to contents; directories have none
    nodes: std::collections::BTreeMap<String, Option<usize>>,
    data: Vec<Rc<Vec<Val>>>,
    /// descriptors from 4 on: file (None: directory), path, position, append
    fds: Vec<Option<(Option<usize>, String, usize, bool)>>,
    /// the fault for the next call of a kind: 1 short write of `.1` bytes, 2 failing write, 3 failing rename, 4 failing open
    fault: (u64, u64),
}

#[derive(Clone)]
pub struct St {
    stack: Vec<Val>,
    frames: Vec<Frame>,
    mem: Vec<Rc<Page>>,
    globals: Vec<Val>,
    multi: Vec<N>,
    dom: Rc<Vec<Set>>,
    pinned: Set,
    multimask: Set,
    model: Rc<Vec<u8>>,
    clock: Val,
    /// wall clock as seconds and nanoseconds, if set that way
    wall: Option<(Val, Val)>,
    fs: Rc<Fs>,
    obs: Vec<(String, Rc<Vec<Val>>)>,
    forks: u32,
    icount: u64,
    created: Set,
}

/// Counters shared by all worker processes.
#[repr(C)]
pub struct Shared {
    pub slots: AtomicI64,
    pub stop: AtomicU64,
    pub paths_ok: AtomicU64,
    pub paths_fail: AtomicU64,
    pub paths_assumed: AtomicU64,
    pub incomplete: AtomicU64,
    pub instrs: AtomicU64,
    pub branches: AtomicU64,
    pub forks: AtomicU64,
    pub queries: AtomicU64,
    pub cache_hits: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub solver_ns: AtomicU64,
    pub certs: AtomicU64,
    pub maxdepth: AtomicU64,
    pub maxnodes: AtomicU64,
    pub nprocs: AtomicU64,
    pub samples: AtomicU64,
    pub reach: [AtomicU64; 1024],
}

pub enum PathEnd {
    Ok,
    Assumed,
    Fail(String),
    Incomplete(String),
}
type R<T> = Result<T, PathEnd>;

pub struct VarReg {
    /// name, first variable, length
    pub groups: Vec<(String, usize, usize)>,
    pub n: usize,
}

pub struct Cfg {
    pub params: Vec<u64>,
    pub max_instrs: u64,
    pub deadline: std::time::Instant,
    pub known: Vec<String>,
    pub max_samples: u64,
    pub out: std::fs::File,
    pub verbose: bool,
    pub max_fails: u64,
    pub seed: u64,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub p: Pool,
    pub solver: Solver,
    pub st: St,
    pub pending: Vec<St>,
    pub vars: VarReg,
    pub sh: &'static Shared,
    pub cov: *mut u8,
    pub cfg: Cfg,
    ok_local: u64,
    nil_dom: Rc<Vec<Set>>,
    nil_model: Rc<Vec<u8>>,
    hot: Option<Vec<u64>>,
    pub children: Vec<i32>,
}

const STACK: usize = 1 << 19;

fn v(bits: u64) -> Val {
    Val { bits, sym: 0 }
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, sh: &'static Shared, cov: *mut u8, cfg: Cfg, solver: Solver) -> Exec<'m> {
        let zero = Rc::new(Page { data: [0; PG], sym: None, nsym: 0 });
        let mut mem = vec![zero; m.mem_pages as usize * 16];
        for (off, d) in &m.data {
            for (i, b) in d.iter().enumerate() {
                let a = *off as usize + i;
                Rc::make_mut(&mut mem[a / PG]).data[a % PG] = *b;
            }
        }
        let st = St {
            stack: vec![v(0); STACK],
            frames: vec![],
            mem,
            globals: m.globals.iter().map(|g| v(*g)).collect(),
            multi: vec![],
            dom: Rc::new(vec![[u64::MAX; 4]; MAXVARS]),
            pinned: [0; 4],
            multimask: [0; 4],
            model: Rc::new(vec![0; MAXVARS]),
            clock: v(1_700_000_000_000_000_000),
            wall: None,
            fs: Rc::new(Fs::default()),
            obs: vec![],
            forks: 0,
            icount: 0,
            created: [0; 4],
        };
        Exec {
            m,
            p: Pool::new(),
            solver,
            st,
            pending: vec![],
            vars: VarReg { groups: vec![], n: 0 },
            sh,
            cov,
            cfg,
            ok_local: 0,
            nil_dom: Rc::new(vec![]),
            nil_model: Rc::new(vec![]),
            hot: if std::env::var("WSYM_HOT").is_ok() { Some(vec![0; m.funcs.len()]) } else { None },
            children: vec![],
        }
    }

    // ---------------------------------------------------------------- constraints

    fn node(&mut self, x: Val, w: u8) -> N {
        if x.sym != 0 {
            debug_assert_eq!(self.p.w(x.sym), w);
            x.sym
        } else {
            self.p.cst(w, x.bits)
        }
    }
    fn val(&self, n: N) -> Val {
        match self.p.as_const(n) {
            Some(k) => v(k),
            None => Val { bits: 0, sym: n },
        }
    }
    fn subst(&mut self, n: N) -> N {
        let model = self.st.model.clone();
        self.p.subst(n, &self.st.pinned, &model)
    }

    fn dom_node(&mut self, st: &St, var: usize) -> Option<N> {
        let d = st.dom[var];
        if d == [u64::MAX; 4] {
            return None;
        }
        Some(self.set_node(var, &d))
    }
    fn set_node(&mut self, var: usize, d: &Set) -> N {
        let vn = self.p.var(var);
        if set_count(d) == 1 {
            let k = self.p.cst(8, set_first(d).unwrap() as u64);
            return self.p.cmp(Op::Eq, vn, k);
        }
        let mut t = [0u64; 256];
        for i in set_iter(d) {
            t[i] = 1;
        }
        self.p.table_node(vn, 1, t)
    }

    /// All constraints relevant to the variables in `supp`.
    fn slice(&mut self, st: &St, supp: &Set, out: &mut Vec<N>) {
        let mut need = set_andnot(supp, &st.pinned);
        let mut pins = set_and(supp, &st.pinned);
        let mut used = vec![false; st.multi.len()];
        loop {
            let mut changed = false;
            for (i, c) in st.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = *self.p.support(*c);
                if !set_empty(&set_and(&s, &need)) {
                    used[i] = true;
                    out.push(*c);
                    need = set_or(&need, &set_andnot(&s, &st.pinned));
                    pins = set_or(&pins, &set_and(&s, &st.pinned));
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        for x in set_iter(&set_or(&need, &pins)) {
            if let Some(n) = self.dom_node(st, x) {
                out.push(n);
            }
        }
    }

    fn ask(&mut self, cons: Vec<N>) -> R<Option<Vec<(usize, u8)>>> {
        let mut flat = vec![];
        for c in cons {
            if c == TRUE {
                continue;
            }
            if c == FALSE {
                return Ok(None);
            }
            flat.push(c);
        }
        match self.solver.check(&mut self.p, flat) {
            Answer::Sat(m) => Ok(Some(m)),
            Answer::Unsat => Ok(None),
            Answer::Unknown => Err(PathEnd::Incomplete("solver gave up (resource limit)".into())),
        }
    }

    /// An equal value that is cheap to decide: an expensive expression over few values becomes a
    /// table over the values its variables may still have.
    fn shrink(&mut self, n: N) -> N {
        if self.p.cost[n as usize] < 300 {
            return n;
        }
        let n = self.subst(n);
        let free: Vec<usize> = set_iter(self.p.support(n)).collect();
        if free.is_empty() || free.len() > 4 {
            return n;
        }
        let mut size = 1;
        for x in &free {
            size *= set_count(&self.st.dom[*x]) as usize;
            if size > 256 || free.len() > 1 && size > 40 {
                return n;
            }
        }
        let mut m = (*self.st.model).clone();
        let r = self.tabulate(n, &free, &mut m);
        if self.p.cost[r as usize] < self.p.cost[n as usize] {
            r
        } else {
            n
        }
    }
    fn tabulate(&mut self, n: N, free: &[usize], m: &mut Vec<u8>) -> N {
        let w = self.p.w(n);
        let x = free[0];
        let dom: Vec<usize> = set_iter(&self.st.dom[x]).collect();
        if free.len() == 1 {
            let mut t = [0u64; 256];
            for (i, d) in dom.iter().enumerate() {
                m[x] = *d as u8;
                let k = self.p.eval(n, m);
                if i == 0 {
                    t = [k; 256];
                }
                t[*d] = k;
            }
            let v = self.p.var(x);
            return self.p.table_node(v, w, t);
        }
        let mut out = None;
        for d in dom {
            m[x] = d as u8;
            let a = self.tabulate(n, &free[1..], m);
            out = Some(match out {
                None => a,
                Some(b) => {
                    let (v, k) = (self.p.var(x), self.p.cst(8, d as u64));
                    let c = self.p.cmp(Op::Eq, v, k);
                    self.p.ite(c, a, b)
                }
            });
        }
        out.unwrap()
    }

    /// Must be unsatisfiable: the solver's confirmation of a domain step.
    fn certify(&mut self, cons: Vec<N>) -> R<()> {
        self.sh.certs.fetch_add(1, Relaxed);
        if self.ask(cons)?.is_some() {
            return Err(PathEnd::Incomplete("engine error: domain step not confirmed by the solver".into()));
        }
        Ok(())
    }

    /// A model of the current path condition together with `c`, if there is one.
    fn feasible(&mut self, c: N) -> R<Option<Rc<Vec<u8>>>> {
        if c == FALSE {
            return Ok(None);
        }
        let model = self.st.model.clone();
        if self.p.eval(c, &model) != 0 {
            return Ok(Some(model));
        }
        let supp = *self.p.support(c);
        if let Some(var) = self.p.single_var(c) {
            let t = self.p.table(c);
            let d = self.st.dom[var];
            let mut sat = [0; 4];
            for i in set_iter(&d) {
                if t[i] != 0 {
                    set_add(&mut sat, i);
                }
            }
            if set_empty(&sat) {
                let dn = self.set_node(var, &d);
                self.certify(vec![dn, c])?;
                return Ok(None);
            }
            if !set_has(&self.st.multimask, var) {
                let mut m = (*model).clone();
                m[var] = set_first(&sat).unwrap() as u8;
                return Ok(Some(Rc::new(m)));
            }
        }
        let e = self.empty();
        let st = std::mem::replace(&mut self.st, e);
        let mut cons = vec![c];
        self.slice(&st, &supp, &mut cons);
        self.st = st;
        match self.ask(cons)? {
            None => Ok(None),
            Some(asg) => {
                let mut m = (*model).clone();
                for (i, b) in asg {
                    m[i] = b;
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }

    fn empty(&self) -> St {
        St {
            stack: vec![],
            frames: vec![],
            mem: vec![],
            globals: vec![],
            multi: vec![],
            dom: self.nil_dom.clone(),
            pinned: [0; 4],
            multimask: [0; 4],
            model: self.nil_model.clone(),
            clock: v(0),
            wall: None,
            fs: Rc::new(Fs::default()),
            obs: vec![],
            forks: 0,
            icount: 0,
            created: [0; 4],
        }
    }

    /// Add a constraint that the state's model satisfies.
    fn add(&mut self, st: &mut St, c: N) -> R<()> {
        let mut todo = vec![c];
        while let Some(c) = todo.pop() {
            let c = {
                let model = st.model.clone();
                self.p.subst(c, &st.pinned, &model)
            };
            if c == TRUE {
                continue;
            }
            if c == FALSE {
                return Err(PathEnd::Incomplete("engine error: model does not satisfy a constraint".into()));
            }
            let n = self.p.nodes[c as usize];
            if n.op == Op::And && n.w == 1 {
                todo.push(n.a);
                todo.push(n.b);
                continue;
            }
            if n.op == Op::Not {
                let i = self.p.nodes[n.a as usize];
                if i.op == Op::Or {
                    let (x, y) = (self.p.not(i.a), self.p.not(i.b));
                    todo.push(x);
                    todo.push(y);
                    continue;
                }
            }
            if let Some(var) = self.p.single_var(c) {
                let t = self.p.table(c);
                let d = st.dom[var];
                let mut nd = [0; 4];
                for i in set_iter(&d) {
                    if t[i] != 0 {
                        set_add(&mut nd, i);
                    }
                }
                if nd == d {
                    continue;
                }
                // the narrowed domain contains every value the constraint allows
                let dn = self.set_node(var, &d);
                let nn = self.set_node(var, &nd);
                let out = self.p.not(nn);
                self.certify(vec![dn, c, out])?;
                Rc::make_mut(&mut st.dom)[var] = nd;
                if set_count(&nd) == 1 && !set_has(&st.pinned, var) {
                    set_add(&mut st.pinned, var);
                    // multi-variable constraints over this variable shrink
                    let old = std::mem::take(&mut st.multi);
                    for m in old {
                        if set_has(self.p.support(m), var) {
                            todo.push(m);
                        } else {
                            st.multi.push(m);
                        }
                    }
                    self.remask(st);
                }
            } else if !st.multi.contains(&c) {
                st.multi.push(c);
                self.remask(st);
            }
        }
        Ok(())
    }
    fn remask(&mut self, st: &mut St) {
        let mut m = [0; 4];
        for c in &st.multi {
            m = set_or(&m, self.p.support(*c));
        }
        st.multimask = set_andnot(&m, &st.pinned);
    }

    fn snapshot(&mut self, top: usize) -> St {
        let stack = std::mem::take(&mut self.st.stack);
        let mut s = self.st.clone();
        s.stack = stack[..top].to_vec();
        self.st.stack = stack;
        s
    }
    fn top(&self) -> usize {
        let f = self.st.frames.last().unwrap();
        f.base as usize + self.m.funcs[f.func as usize].nregs as usize
    }

    fn add_cur(&mut self, c: N) -> R<()> {
        let e = self.empty();
        let mut st = std::mem::replace(&mut self.st, e);
        let r = self.add(&mut st, c);
        self.st = st;
        r
    }

    /// Decide a branch. The current state continues in the returned direction; the other side, if
    /// feasible, is queued with its program counter set to `alt(other)`.
    fn branch(&mut self, c: Val, pcs: [u32; 2]) -> R<bool> {
        self.sh.branches.fetch_add(1, Relaxed);
        let n = self.truth(c.sym);
        let n = self.subst(n);
        if let Some(k) = self.p.as_const(n) {
            return Ok(k != 0);
        }
        let model = self.st.model.clone();
        let cur = self.p.eval(n, &model) != 0;
        let neg = self.p.not(n);
        let (mine, other) = if cur { (n, neg) } else { (neg, n) };
        if let Some(m) = self.feasible(other)? {
            let top = self.top();
            let mut s = self.snapshot(top);
            s.model = m;
            s.forks += 1;
            self.add(&mut s, other)?;
            s.frames.last_mut().unwrap().pc = pcs[!cur as usize];
            self.queue(s);
            self.st.forks += 1;
            self.add_cur(mine)?;
        }
        Ok(cur)
    }
    fn queue(&mut self, s: St) {
        self.sh.forks.fetch_add(1, Relaxed);
        self.pending.push(s);
    }

    /// 1-bit "is non-zero".
    fn truth(&mut self, n: N) -> N {
        let w = self.p.w(n);
        if w == 1 {
            return n;
        }
        let z = self.p.cst(w, 0);
        let e = self.p.cmp(Op::Eq, n, z);
        self.p.not(e)
    }

    /// A concrete value for `n`: one state per feasible value, all re-executing the instruction.
    fn case_split(&mut self, n: N, pc: u32) -> R<u64> {
        loop {
            let n = self.subst(n);
            if let Some(k) = self.p.as_const(n) {
                return Ok(k);
            }
            let model = self.st.model.clone();
            let free = set_andnot(self.p.support(n), &self.st.pinned);
            let (target, vals): (N, Option<Vec<u64>>) = if set_count(&free) == 1 {
                (n, None)
            } else if self.p.dag_size(n, 400) < 400 {
                // enumerate feasible values with the solver
                let w = self.p.w(n);
                let mut vals = vec![self.p.eval(n, &model)];
                let mut block = TRUE;
                let mut ok = false;
                while vals.len() <= 24 {
                    let k = self.p.cst(w, *vals.last().unwrap());
                    let e = self.p.cmp(Op::Eq, n, k);
                    let ne = self.p.not(e);
                    block = self.p.bin(Op::And, block, ne);
                    match self.feasible(block)? {
                        None => {
                            ok = true;
                            break;
                        }
                        Some(m) => {
                            let x = self.p.eval(n, &m);
                            vals.push(x);
                        }
                    }
                }
                if ok {
                    (n, Some(vals))
                } else {
                    let var = self.smallest(&free);
                    (self.p.var(var), None)
                }
            } else {
                let var = self.smallest(&free);
                (self.p.var(var), None)
            };
            let w = self.p.w(target);
            let mine = self.p.eval(target, &model);
            let vals = match vals {
                Some(v) => v,
                None => {
                    let var = self.p.single_var(target).unwrap();
                    let t = self.p.table(target);
                    let mut vs: Vec<u64> = set_iter(&self.st.dom[var]).map(|i| t[i]).collect();
                    vs.sort_unstable();
                    vs.dedup();
                    vs
                }
            };
            if self.cfg.verbose {
                let f = self.st.frames.last().unwrap();
                eprintln!(
                    "[split] {} ways in {} on {}",
                    vals.len(),
                    rustc_demangle::demangle(&self.m.funcs[f.func as usize].name),
                    self.p.show(target, 4)
                );
            }
            for x in vals {
                if x == mine {
                    continue;
                }
                let k = self.p.cst(w, x);
                let e = self.p.cmp(Op::Eq, target, k);
                if let Some(m) = self.feasible(e)? {
                    let top = self.top();
                    let mut s = self.snapshot(top);
                    s.model = m;
                    s.forks += 1;
                    self.add(&mut s, e)?;
                    s.frames.last_mut().unwrap().pc = pc;
                    self.queue(s);
                }
            }
            let k = self.p.cst(w, mine);
            let e = self.p.cmp(Op::Eq, target, k);
            self.st.forks += 1;
            self.add_cur(e)?;
            if target == n {
                return Ok(mine);
            }
        }
    }
    fn smallest(&self, free: &Set) -> usize {
        set_iter(free).min_by_key(|i| set_count(&self.st.dom[*i])).unwrap()
    }
    fn conc(&mut self, x: Val, pc: u32) -> R<u64> {
        if x.sym == 0 {
            Ok(x.bits)
        } else {
            self.case_split(x.sym, pc)
        }
    }

    // ---------------------------------------------------------------- memory

    fn trap(&self, what: &str) -> PathEnd {
        PathEnd::Fail(format!("trap: {what} in {}", self.where_am_i()))
    }
    pub fn where_am_i(&self) -> String {
        let mut s = String::new();
        for f in self.st.frames.iter().rev().take(12) {
            s += &format!("{:#} < ", rustc_demangle::demangle(&self.m.funcs[f.func as usize].name));
        }
        s
    }

    fn byte(&self, a: usize) -> Val {
        let p = &self.st.mem[a / PG];
        let o = a % PG;
        match &p.sym {
            Some(s) if s[o] != 0 => Val { bits: 0, sym: s[o] },
            _ => v(p.data[o] as u64),
        }
    }
    fn set_byte(&mut self, a: usize, x: Val) {
        let p = Rc::make_mut(&mut self.st.mem[a / PG]);
        let o = a % PG;
        if x.sym != 0 {
            let s = p.sym.get_or_insert_with(|| Box::new([0; PG]));
            p.nsym += (s[o] == 0) as u32;
            s[o] = x.sym;
            p.data[o] = 0;
        } else {
            p.data[o] = x.bits as u8;
            if let Some(s) = &mut p.sym {
                p.nsym -= (s[o] != 0) as u32;
                s[o] = 0;
                if p.nsym == 0 {
                    p.sym = None;
                }
            }
        }
    }
    fn in_bounds(&self, a: u64, n: u64) -> bool {
        a + n <= (self.st.mem.len() * PG) as u64
    }

    /// General load of `nb` bytes (little endian) at a concrete address.
    fn load_bytes(&mut self, a: u64, nb: usize) -> R<Val> {
        if !self.in_bounds(a, nb as u64) {
            return Err(self.trap("out of bounds memory access"));
        }
        let mut any = false;
        let mut bits = 0u64;
        let mut bytes = [v(0); 8];
        for (i, b) in bytes.iter_mut().enumerate().take(nb) {
            let x = self.byte(a as usize + i);
            any |= x.sym != 0;
            bits |= x.bits << (8 * i);
            *b = x;
        }
        if !any {
            return Ok(v(bits));
        }
        let mut n = 0;
        for i in (0..nb).rev() {
            let mut x = self.node(bytes[i], 8);
            if bytes[i].sym != 0 && !set_empty(&set_and(self.p.support(x), &self.st.pinned)) {
                x = self.subst(x);
            }
            n = if n == 0 { x } else { self.p.concat(n, x) };
        }
        Ok(self.val(n))
    }

    /// Slow path of a load: symbolic address or symbolic contents.
    fn slow_load(&mut self, addr: Val, off: u32, nb: usize, sx: bool, w: u8, pc: u32) -> R<Val> {
        if addr.sym == 0 {
            let a = (addr.bits + off as u64) as usize;
            let (pg, of) = (a / PG, a % PG);
            if of + nb <= PG && pg < self.st.mem.len() {
                if let Some(s) = &self.st.mem[pg].sym {
                    if s[of..of + nb].iter().all(|x| *x == 0) {
                        let mut b = [0u8; 8];
                        b[..nb].copy_from_slice(&self.st.mem[pg].data[of..of + nb]);
                        let b = u64::from_le_bytes(b);
                        return Ok(v(if sx { sext(b, nb as u8 * 8) as u64 & mask(w) } else { b }));
                    }
                }
            }
        }
        let x = if addr.sym == 0 {
            self.load_bytes(addr.bits + off as u64, nb)?
        } else {
            self.load_symbolic(addr.sym, off as u64, nb, pc)?
        };
        if x.sym == 0 {
            let b = if sx { sext(x.bits, nb as u8 * 8) as u64 & mask(w) } else { x.bits };
            return Ok(v(b));
        }
        let n = if sx { self.p.sext(x.sym, w) } else { self.p.zext(x.sym, w) };
        Ok(self.val(n))
    }

    fn load_symbolic(&mut self, addr: N, off: u64, nb: usize, pc: u32) -> R<Val> {
        let addr = self.subst(addr);
        if let Some(k) = self.p.as_const(addr) {
            return self.load_bytes(k + off, nb);
        }
        if let Some(var) = self.p.single_var(addr) {
            let t = self.p.table(addr);
            let d = self.st.dom[var];
            let mut vals = [0u64; 256];
            let mut ok = true;
            let mut first = None;
            for i in set_iter(&d) {
                let a = t[i] + off;
                if !self.in_bounds(a, nb as u64) {
                    ok = false;
                    break;
                }
                let x = self.load_bytes(a, nb)?;
                if x.sym != 0 {
                    ok = false;
                    break;
                }
                vals[i] = x.bits;
                first.get_or_insert(x.bits);
            }
            if ok {
                let f = first.unwrap();
                for (i, x) in vals.iter_mut().enumerate() {
                    if !set_has(&d, i) {
                        *x = f;
                    }
                }
                let vn = self.p.var(var);
                let n = self.p.table_node(vn, nb as u8 * 8, vals);
                return Ok(self.val(n));
            }
        }
        let nd = self.p.nodes[addr as usize];
        if nd.op == Op::Ite {
            if let (Some(p), Some(q)) = (self.p.as_const(nd.b), self.p.as_const(nd.c)) {
                if self.in_bounds(p + off, nb as u64) && self.in_bounds(q + off, nb as u64) {
                    let x = self.load_bytes(p + off, nb)?;
                    let y = self.load_bytes(q + off, nb)?;
                    let w = nb as u8 * 8;
                    let (x, y) = (self.node(x, w), self.node(y, w));
                    let n = self.p.ite(nd.a, x, y);
                    return Ok(self.val(n));
                }
            }
        }
        let a = self.case_split(addr, pc)?;
        self.load_bytes(a + off, nb)
    }

    fn slow_store(&mut self, addr: Val, off: u32, x: Val, nb: usize, pc: u32) -> R<()> {
        let a = self.conc(addr, pc)? + off as u64;
        if !self.in_bounds(a, nb as u64) {
            return Err(self.trap("out of bounds memory access"));
        }
        let mut x = x;
        if x.sym != 0 && !set_empty(&set_and(self.p.support(x.sym), &self.st.pinned)) {
            let n = self.subst(x.sym);
            x = self.val(n);
        }
        for i in 0..nb {
            let b = if x.sym == 0 {
                v(x.bits >> (8 * i) & 0xff)
            } else {
                let n = self.p.extract(x.sym, 8 * i as u8, 8);
                self.val(n)
            };
            self.set_byte(a as usize + i, b);
        }
        Ok(())
    }

    fn mem_copy(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if !self.in_bounds(d, n) || !self.in_bounds(s, n) {
            return Err(self.trap("out of bounds memory copy"));
        }
        if n == 0 || d == s {
            return Ok(());
        }
        let (d, s, n) = (d as usize, s as usize, n as usize);
        // fast path: both ranges without symbolic bytes
        let clean = |st: &St, a: usize| (a / PG..=(a + n - 1) / PG).all(|p| st.mem[p].sym.is_none());
        if clean(&self.st, s) && clean(&self.st, d) {
            if n <= 64 || d / PG == (d + n - 1) / PG && s / PG == (s + n - 1) / PG {
                let mut small = [0u8; PG];
                let buf = &mut small[..n];
                let mut i = 0;
                while i < n {
                    let k = (PG - (s + i) % PG).min(n - i);
                    let o = (s + i) % PG;
                    buf[i..i + k].copy_from_slice(&self.st.mem[(s + i) / PG].data[o..o + k]);
                    i += k;
                }
                i = 0;
                while i < n {
                    let k = (PG - (d + i) % PG).min(n - i);
                    let o = (d + i) % PG;
                    Rc::make_mut(&mut self.st.mem[(d + i) / PG]).data[o..o + k].copy_from_slice(&buf[i..i + k]);
                    i += k;
                }
                return Ok(());
            }
            let mut buf = vec![0u8; n];
            let mut i = 0;
            while i < n {
                let k = (PG - (s + i) % PG).min(n - i);
                let o = (s + i) % PG;
                buf[i..i + k].copy_from_slice(&self.st.mem[(s + i) / PG].data[o..o + k]);
                i += k;
            }
            i = 0;
            while i < n {
                let k = (PG - (d + i) % PG).min(n - i);
                let o = (d + i) % PG;
                Rc::make_mut(&mut self.st.mem[(d + i) / PG]).data[o..o + k].copy_from_slice(&buf[i..i + k]);
                i += k;
            }
            return Ok(());
        }
        let tmp: Vec<Val> = (0..n).map(|i| self.byte(s + i)).collect();
        for (i, x) in tmp.into_iter().enumerate() {
            self.set_byte(d + i, x);
        }
        Ok(())
    }
    fn mem_fill(&mut self, d: u64, b: Val, n: u64) -> R<()> {
        if !self.in_bounds(d, n) {
            return Err(self.trap("out of bounds memory fill"));
        }
        let x = if b.sym == 0 {
            v(b.bits & 0xff)
        } else {
            let e = self.p.extract(b.sym, 0, 8);
            self.val(e)
        };
        for i in 0..n as usize {
            self.set_byte(d as usize + i, x);
        }
        Ok(())
    }

    /// memcmp/bcmp as one expression instead of one branch per byte.
    fn mem_cmp(&mut self, a: u64, b: u64, n: u64) -> R<Val> {
        if !self.in_bounds(a, n) || !self.in_bounds(b, n) {
            return Err(self.trap("out of bounds memory compare"));
        }
        let n = n as usize;
        let mut first_sym = None;
        for i in 0..n {
            let (x, y) = (self.byte(a as usize + i), self.byte(b as usize + i));
            if x.sym != 0 || y.sym != 0 {
                if x.sym == y.sym {
                    continue;
                }
                first_sym = Some(i);
                break;
            }
            if x.bits != y.bits {
                return Ok(v((x.bits as i32 - y.bits as i32) as u32 as u64));
            }
        }
        let Some(start) = first_sym else { return Ok(v(0)) };
        let mut stop = n;
        for i in start..n {
            let (x, y) = (self.byte(a as usize + i), self.byte(b as usize + i));
            if x.sym == 0 && y.sym == 0 && x.bits != y.bits {
                stop = i + 1;
                break;
            }
        }
        let mut r = self.p.cst(32, 0);
        for i in (start..stop).rev() {
            let (x, y) = (self.byte(a as usize + i), self.byte(b as usize + i));
            let (x, y) = (self.node(x, 8), self.node(y, 8));
            let (x, y) = (self.subst(x), self.subst(y));
            let e = self.p.cmp(Op::Eq, x, y);
            let (zx, zy) = (self.p.zext(x, 32), self.p.zext(y, 32));
            let df = self.p.bin(Op::Sub, zx, zy);
            r = self.p.ite(e, r, df);
        }
        Ok(self.val(r))
    }

    // ---------------------------------------------------------------- symbolic operators

    fn slow_un(&mut self, c: C, a: Val, pc: u32) -> R<Val> {
        use C::*;
        let a = {
            let n = self.subst(a.sym);
            self.val(n)
        };
        if a.sym == 0 {
            return Ok(v(conc_un(c, a.bits)));
        }
        let n = a.sym;
        let r = match c {
            I32Eqz | I64Eqz => {
                let t = self.truth(n);
                let t = self.p.not(t);
                self.p.zext(t, 32)
            }
            I32Clz | I64Clz => self.p.unary(Op::Clz, n),
            I32Ctz | I64Ctz => self.p.unary(Op::Ctz, n),
            I32Popcnt | I64Popcnt => self.p.unary(Op::Popcnt, n),
            I32WrapI64 => self.p.extract(n, 0, 32),
            I64ExtI32U => self.p.zext(n, 64),
            I64ExtI32S => self.p.sext(n, 64),
            I32Ext8S => {
                let e = self.p.extract(n, 0, 8);
                self.p.sext(e, 32)
            }
            I32Ext16S => {
                let e = self.p.extract(n, 0, 16);
                self.p.sext(e, 32)
            }
            I64Ext8S => {
                let e = self.p.extract(n, 0, 8);
                self.p.sext(e, 64)
            }
            I64Ext16S => {
                let e = self.p.extract(n, 0, 16);
                self.p.sext(e, 64)
            }
            I64Ext32S => {
                let e = self.p.extract(n, 0, 32);
                self.p.sext(e, 64)
            }
            _ => {
                // floating point: one state per feasible operand
                let k = self.case_split(n, pc)?;
                return Ok(v(conc_un(c, k)));
            }
        };
        Ok(self.val(r))
    }

    fn slow_bin(&mut self, c: C, a: Val, b: Val, pc: u32) -> R<Val> {
        use C::*;
        let mut a = a;
        let mut b = b;
        if a.sym != 0 {
            let n = self.subst(a.sym);
            a = self.val(n);
        }
        if b.sym != 0 {
            let n = self.subst(b.sym);
            b = self.val(n);
        }
        if (a.sym | b.sym) == 0 {
            return match conc_bin(c, a.bits, b.bits) {
                Some(x) => Ok(v(x)),
                None => Err(self.trap("integer divide by zero or overflow")),
            };
        }
        let w: u8 = match c {
            I32Eq | I32Ne | I32LtS | I32LtU | I32GtS | I32GtU | I32LeS | I32LeU | I32GeS | I32GeU | I32Add | I32Sub | I32Mul | I32DivS
            | I32DivU | I32RemS | I32RemU | I32And | I32Or | I32Xor | I32Shl | I32ShrS | I32ShrU | I32Rotl | I32Rotr => 32,
            I64Eq | I64Ne | I64LtS | I64LtU | I64GtS | I64GtU | I64LeS | I64LeU | I64GeS | I64GeU | I64Add | I64Sub | I64Mul | I64DivS
            | I64DivU | I64RemS | I64RemU | I64And | I64Or | I64Xor | I64Shl | I64ShrS | I64ShrU | I64Rotl | I64Rotr => 64,
            _ => {
                let x = self.conc(a, pc)?;
                let y = self.conc(b, pc)?;
                return Ok(v(conc_bin(c, x, y).unwrap()));
            }
        };
        let (x, y) = (self.node(a, w), self.node(b, w));
        let cmp = |s: &mut Self, op, x, y| {
            let c = s.p.cmp(op, x, y);
            s.p.zext(c, 32)
        };
        let r = match c {
            I32Eq | I64Eq => cmp(self, Op::Eq, x, y),
            I32Ne | I64Ne => {
                let e = self.p.cmp(Op::Eq, x, y);
                let e = self.p.not(e);
                self.p.zext(e, 32)
            }
            I32LtS | I64LtS => cmp(self, Op::Slt, x, y),
            I32LtU | I64LtU => cmp(self, Op::Ult, x, y),
            I32GtS | I64GtS => cmp(self, Op::Slt, y, x),
            I32GtU | I64GtU => cmp(self, Op::Ult, y, x),
            I32LeS | I64LeS => cmp(self, Op::Sle, x, y),
            I32LeU | I64LeU => cmp(self, Op::Ule, x, y),
            I32GeS | I64GeS => cmp(self, Op::Sle, y, x),
            I32GeU | I64GeU => cmp(self, Op::Ule, y, x),
            I32Add | I64Add => self.p.bin(Op::Add, x, y),
            I32Sub | I64Sub => self.p.bin(Op::Sub, x, y),
            I32Mul | I64Mul => self.p.bin(Op::Mul, x, y),
            I32And | I64And => self.p.bin(Op::And, x, y),
            I32Or | I64Or => self.p.bin(Op::Or, x, y),
            I32Xor | I64Xor => self.p.bin(Op::Xor, x, y),
            I32DivS | I64DivS | I32DivU | I64DivU | I32RemS | I64RemS | I32RemU | I64RemU => {
                // rustc guards divisions; a divisor that may be zero here would trap
                let mut y = y;
                if b.sym != 0 {
                    let k = self.case_split(y, pc)?;
                    if k == 0 || k == mask(w) {
                        let k2 = self.case_split(x, pc)?;
                        return match conc_bin(c, k2, k) {
                            Some(x) => Ok(v(x)),
                            None => Err(self.trap("integer divide by zero or overflow")),
                        };
                    }
                    y = self.p.cst(w, k);
                } else if b.bits == 0 || b.bits == mask(w) {
                    let k2 = self.case_split(x, pc)?;
                    return match conc_bin(c, k2, b.bits) {
                        Some(x) => Ok(v(x)),
                        None => Err(self.trap("integer divide by zero or overflow")),
                    };
                }
                let op = match c {
                    I32DivS | I64DivS => Op::SDiv,
                    I32DivU | I64DivU => Op::UDiv,
                    I32RemS | I64RemS => Op::SRem,
                    _ => Op::URem,
                };
                self.p.bin(op, x, y)
            }
            _ => {
                let m = self.p.cst(w, w as u64 - 1);
                let k = self.p.bin(Op::And, y, m);
                match c {
                    I32Shl | I64Shl => self.p.bin(Op::Shl, x, k),
                    I32ShrU | I64ShrU => self.p.bin(Op::LShr, x, k),
                    I32ShrS | I64ShrS => self.p.bin(Op::AShr, x, k),
                    I32Rotl | I64Rotl | I32Rotr | I64Rotr => {
                        let wn = self.p.cst(w, w as u64);
                        let inv0 = self.p.bin(Op::Sub, wn, k);
                        let inv = self.p.bin(Op::And, inv0, m);
                        let (l, r) = if matches!(c, I32Rotl | I64Rotl) { (k, inv) } else { (inv, k) };
                        if self.p.as_const(k) == Some(0) {
                            x
                        } else {
                            let hi = self.p.bin(Op::Shl, x, l);
                            let lo = self.p.bin(Op::LShr, x, r);
                            self.p.bin(Op::Or, hi, lo)
                        }
                    }
                    _ => unreachable!(),
                }
            }
        };
        let r = self.shrink(r);
        Ok(self.val(r))
    }

    fn slow_select(&mut self, a: Val, b: Val, c: Val, w: u8) -> R<Val> {
        let t = self.truth(c.sym);
        let t = self.subst(t);
        if let Some(k) = self.p.as_const(t) {
            return Ok(if k != 0 { a } else { b });
        }
        if a.sym == 0 && b.sym == 0 && a.bits == b.bits {
            return Ok(a);
        }
        let (x, y) = (self.node(a, w), self.node(b, w));
        let n = self.p.ite(t, x, y);
        Ok(self.val(n))
    }

    // ---------------------------------------------------------------- host

    fn read_str(&mut self, a: u64, n: u64) -> String {
        let model = self.st.model.clone();
        let mut out = vec![];
        for i in 0..n as usize {
            if !self.in_bounds(a + i as u64, 1) {
                break;
            }
            let b = self.byte(a as usize + i);
            out.push(if b.sym == 0 { b.bits as u8 } else { self.p.eval(b.sym, &model) as u8 });
        }
        String::from_utf8_lossy(&out).into_owned()
    }

    fn write32(&mut self, a: u64, x: u32) {
        for i in 0..4 {
            self.set_byte(a as usize + i, v((x >> (8 * i)) as u64 & 0xff));
        }
    }
    fn write64(&mut self, a: u64, x: u64) {
        for i in 0..8 {
            self.set_byte(a as usize + i, v((x >> (8 * i)) & 0xff));
        }
    }

    fn make_sym(&mut self, name: &str, ptr: u64, len: usize) -> R<()> {
        let base = match self.vars.groups.iter().find(|g| g.0 == name) {
            Some(g) => {
                if g.2 != len {
                    return Err(PathEnd::Incomplete(format!("symbolic input {name} has two lengths")));
                }
                g.1
            }
            None => {
                let b = self.vars.n;
                if b + len > MAXVARS {
                    return Err(PathEnd::Incomplete("too many symbolic bytes".into()));
                }
                self.vars.groups.push((name.to_string(), b, len));
                self.vars.n += len;
                b
            }
        };
        if len > 0 && set_has(&self.st.created, base) {
            return Err(PathEnd::Incomplete(format!("symbolic input {name} created twice")));
        }
        for i in 0..len {
            set_add(&mut self.st.created, base + i);
            let n = self.p.var(base + i);
            let n = if set_has(&self.st.pinned, base + i) { self.subst(n) } else { n };
            let x = self.val(n);
            self.set_byte(ptr as usize + i, x);
        }
        Ok(())
    }

    fn host(&mut self, f: &Func, base: usize, pc: u32) -> R<()> {
        let (md, name) = f.import.as_ref().unwrap();
        let arg = |s: &Self, i: usize| s.st.stack[base + i];
        match (md.as_str(), name.as_str()) {
            ("wsym", "sym") => {
                let (np, nl, p, l) = (arg(self, 0).bits, arg(self, 1).bits, arg(self, 2).bits, arg(self, 3).bits);
                let name = self.read_str(np, nl);
                self.make_sym(&name, p, l as usize)
            }
            ("wsym", "assume") => {
                let c = arg(self, 0);
                if c.sym == 0 {
                    return if c.bits != 0 { Ok(()) } else { Err(PathEnd::Assumed) };
                }
                let n = self.truth(c.sym);
                let n = self.subst(n);
                match self.feasible(n)? {
                    None => Err(PathEnd::Assumed),
                    Some(m) => {
                        self.st.model = m;
                        self.add_cur(n)
                    }
                }
            }
            ("wsym", "fail") => {
                let s = self.read_str(arg(self, 0).bits, arg(self, 1).bits);
                Err(PathEnd::Fail(s))
            }
            ("wsym", "reach") => {
                let i = self.conc(arg(self, 0), pc)? as usize;
                self.sh.reach[i % 1024].fetch_add(1, Relaxed);
                Ok(())
            }
            ("wsym", "observe") => {
                let tag = self.read_str(arg(self, 0).bits, arg(self, 1).bits);
                let p = arg(self, 2).bits as usize;
                let l = self.conc(arg(self, 3), pc)? as usize;
                let d: Vec<Val> = (0..l).map(|i| self.byte(p + i)).collect();
                self.st.obs.push((tag, Rc::new(d)));
                Ok(())
            }
            ("wsym", "param") => {
                let i = arg(self, 0).bits as usize;
                let x = self.cfg.params.get(i).copied().unwrap_or(0);
                self.st.stack[base] = v(x & 0xffff_ffff);
                Ok(())
            }
            ("wsym", "pin") => {
                let x = self.conc(arg(self, 0), pc)?;
                self.st.stack[base] = v(x);
                Ok(())
            }
            ("wsym", "set_clock") => {
                self.st.clock = arg(self, 0);
                Ok(())
            }
            ("wsym", "set_wall") => {
                self.st.wall = Some((arg(self, 0), arg(self, 1)));
                Ok(())
            }
            ("wsym", "debug") => {
                let s = self.read_str(arg(self, 0).bits, arg(self, 1).bits);
                if self.cfg.verbose {
                    eprintln!("[debug] {s}");
                }
                Ok(())
            }
            ("wsym", "fs_fault") => {
                let (k, n) = (self.conc(arg(self, 0), pc)?, arg(self, 1));
                let n = self.conc(n, pc)?;
                Rc::make_mut(&mut self.st.fs).fault = (k, n);
                Ok(())
            }
            ("wasi_snapshot_preview1", "fd_write") if arg(self, 0).bits < 3 => {
                // swallow output, report everything as written
                let (iovs, n, res) = (arg(self, 1).bits, arg(self, 2).bits, arg(self, 3).bits);
                let mut tot = 0;
                for i in 0..n {
                    let p = self.load_bytes(iovs + 8 * i, 4)?;
                    let l = self.load_bytes(iovs + 8 * i + 4, 4)?;
                    let (p, l) = (self.conc(p, pc)?, self.conc(l, pc)?);
                    tot += l;
                    if self.cfg.verbose {
                        let s = self.read_str(p, l);
                        eprint!("[out] {s}");
                    }
                }
                self.write32(res, tot as u32);
                self.st.stack[base] = v(0);
                Ok(())
            }
            ("wasi_snapshot_preview1", "random_get") => {
                let (p, n) = (arg(self, 0).bits, arg(self, 1).bits);
                for i in 0..n as usize {
                    self.set_byte(p as usize + i, v((i as u64 * 37 + 11) & 0xff));
                }
                self.st.stack[base] = v(0);
                Ok(())
            }
            ("wasi_snapshot_preview1", "clock_time_get") => {
                let p = arg(self, 2).bits;
                let c = self.st.clock;
                if c.sym == 0 {
                    self.write64(p, c.bits);
                } else {
                    self.slow_store(v(p), 0, c, 8, pc)?;
                }
                self.st.stack[base] = v(0);
                Ok(())
            }
            ("wasi_snapshot_preview1", "environ_sizes_get") => {
                let (a, b) = (arg(self, 0).bits, arg(self, 1).bits);
                self.write32(a, 0);
                self.write32(b, 0);
                self.st.stack[base] = v(0);
                Ok(())
            }
            ("wasi_snapshot_preview1", "environ_get") => {
                self.st.stack[base] = v(0);
                Ok(())
            }
            ("wasi_snapshot_preview1", "sched_yield") => {
                self.st.stack[base] = v(0);
                Ok(())
            }
            ("wasi_snapshot_preview1", "fd_prestat_get") => {
                // one preopened directory, the root of the file system stub
                let r = if arg(self, 0).bits == 3 {
                    let p = arg(self, 1).bits;
                    self.write32(p, 0);
                    self.write32(p + 4, 1);
                    0
                } else {
                    8
                };
                self.st.stack[base] = v(r);
                Ok(())
            }
            ("wasi_snapshot_preview1", "fd_prestat_dir_name") => {
                let p = arg(self, 1).bits as usize;
                self.set_byte(p, v(b'/' as u64));
                self.st.stack[base] = v(0);
                Ok(())
            }
            ("wasi_snapshot_preview1", n) if n.starts_with("fd_") || n.starts_with("path_") || n == "adapter_close_badfd" => {
                let mut a = [0u64; 9];
                for (i, x) in a.iter_mut().enumerate().take(f.nparams as usize) {
                    let y = arg(self, i);
                    *x = self.conc(y, pc)?;
                }
                let r = self.fs_call(n, &a, pc)?;
                self.st.stack[base] = v(r);
                Ok(())
            }
            ("wasi_snapshot_preview1", "proc_exit") => Err(self.trap("process exit")),
            (m, n) => Err(PathEnd::Incomplete(format!("unsupported host function {m}.{n} from {}", self.where_am_i()))),
        }
    }

    // ---------------------------------------------------------------- file system stub

    fn fs_path(&mut self, dir: u64, p: u64, l: u64) -> String {
        let rel = self.read_str(p, l);
        let root = match dir {
            3 => "",
            d => self.st.fs.fds.get(d as usize - 4).and_then(|x| x.as_ref()).map_or("", |x| &x.1),
        };
        let mut out: Vec<&str> = root.split('/').filter(|x| !x.is_empty()).collect();
        for x in rel.split('/') {
            match x {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                x => out.push(x),
            }
        }
        out.join("/")
    }

    fn fs_stat(&mut self, node: Option<usize>, p: u64) {
        let size = node.map_or(0, |i| self.st.fs.data[i].len() as u64);
        for i in 0..8 {
            self.write64(p + 8 * i, 0);
        }
        self.write64(p, 1);
        self.write64(p + 8, node.map_or(1, |i| i as u64 + 2));
        self.write64(p + 16, if node.is_none() { 3 } else { 4 });
        self.write64(p + 24, 1);
        self.write64(p + 32, size);
    }

    /// One call of a WASI file function; the result is its error number.
    fn fs_call(&mut self, name: &str, a: &[u64; 9], pc: u32) -> R<u64> {
        const BADF: u64 = 8;
        const EXIST: u64 = 20;
        const IO: u64 = 29;
        const ISDIR: u64 = 31;
        const NOENT: u64 = 44;
        const NOSPC: u64 = 51;
        const NOTDIR: u64 = 54;
        let fd = a[0];
        let open = |s: &Self, d: u64| -> Option<(Option<usize>, String, usize, bool)> {
            if d == 3 {
                return Some((None, String::new(), 0, false));
            }
            s.st.fs.fds.get((d as usize).checked_sub(4)?)?.clone()
        };
        let node = |s: &Self, p: &str| -> Option<Option<usize>> { if p.is_empty() { Some(None) } else { s.st.fs.nodes.get(p).copied() } };
        let parent = |p: &str| p.rsplit_once('/').map_or("", |x| x.0).to_string();
        Ok(match name {
            "path_open" => {
                let (o, fl, out) = (a[4], a[7], a[8]);
                let p = self.fs_path(fd, a[2], a[3]);
                if self.st.fs.fault.0 == 4 {
                    Rc::make_mut(&mut self.st.fs).fault = (0, 0);
                    return Ok(IO);
                }
                let n = match node(self, &p) {
                    Some(_) if o & 1 != 0 && o & 4 != 0 => return Ok(EXIST),
                    Some(Some(_)) if o & 2 != 0 => return Ok(NOTDIR),
                    Some(n) => {
                        if let (Some(i), true) = (n, o & 8 != 0) {
                            Rc::make_mut(&mut self.st.fs).data[i] = Rc::new(vec![]);
                        }
                        n
                    }
                    None if o & 1 != 0 => {
                        if node(self, &parent(&p)) != Some(None) {
                            return Ok(NOENT);
                        }
                        let fs = Rc::make_mut(&mut self.st.fs);
                        fs.data.push(Rc::new(vec![]));
                        let i = fs.data.len() - 1;
                        fs.nodes.insert(p.clone(), Some(i));
                        Some(i)
                    }
                    None => return Ok(NOENT),
                };
                let fs = Rc::make_mut(&mut self.st.fs);
                let k = fs.fds.iter().position(|x| x.is_none()).unwrap_or(fs.fds.len());
                if k == fs.fds.len() {
                    fs.fds.push(None);
                }
                fs.fds[k] = Some((n, p, 0, fl & 1 != 0));
                self.write32(out, k as u32 + 4);
                0
            }
            "path_filestat_get" => {
                let p = self.fs_path(fd, a[2], a[3]);
                match node(self, &p) {
                    Some(n) => {
                        self.fs_stat(n, a[4]);
                        0
                    }
                    None => NOENT,
                }
            }
            "fd_filestat_get" => match open(self, fd) {
                Some(x) => {
                    self.fs_stat(x.0, a[1]);
                    0
                }
                None => BADF,
            },
            "fd_fdstat_get" => match open(self, fd) {
                Some(x) => {
                    let p = a[1];
                    self.write64(p, (if x.0.is_none() { 3 } else { 4 }) | (x.3 as u64) << 16);
                    self.write64(p + 8, u64::MAX);
                    self.write64(p + 16, u64::MAX);
                    0
                }
                None => BADF,
            },
            "fd_close" => match open(self, fd) {
                Some(_) if fd > 3 => {
                    Rc::make_mut(&mut self.st.fs).fds[fd as usize - 4] = None;
                    0
                }
                _ => BADF,
            },
            "fd_sync" | "fd_datasync" => 0,
            "fd_seek" => match open(self, fd) {
                Some((Some(i), _, pos, _)) => {
                    let at = match a[2] & 0xff {
                        0 => 0,
                        1 => pos as i64,
                        _ => self.st.fs.data[i].len() as i64,
                    } + a[1] as i64;
                    Rc::make_mut(&mut self.st.fs).fds[fd as usize - 4].as_mut().unwrap().2 = at as usize;
                    self.write64(a[3], at as u64);
                    0
                }
                Some(_) => ISDIR,
                None => BADF,
            },
            "fd_write" => {
                let Some((Some(i), _, pos, append)) = open(self, fd) else { return Ok(BADF) };
                let mut src = vec![];
                for k in 0..a[2] {
                    let p = self.load_bytes(a[1] + 8 * k, 4)?;
                    let l = self.load_bytes(a[1] + 8 * k + 4, 4)?;
                    let (p, l) = (self.conc(p, pc)?, self.conc(l, pc)?);
                    src.extend((0..l as usize).map(|x| self.byte(p as usize + x)));
                }
                let fs = Rc::make_mut(&mut self.st.fs);
                match fs.fault {
                    (1, n) => {
                        src.truncate(n as usize);
                        fs.fault = (0, 0);
                    }
                    (2, _) => {
                        fs.fault = (0, 0);
                        return Ok(NOSPC);
                    }
                    _ => {}
                }
                let d = Rc::make_mut(&mut fs.data[i]);
                let at = if append { d.len() } else { pos };
                if d.len() < at + src.len() {
                    d.resize(at + src.len(), v(0));
                }
                d[at..at + src.len()].copy_from_slice(&src);
                fs.fds[fd as usize - 4].as_mut().unwrap().2 = at + src.len();
                self.write32(a[3], src.len() as u32);
                0
            }
            "fd_read" => {
                let Some((Some(i), _, mut pos, _)) = open(self, fd) else { return Ok(BADF) };
                let d = self.st.fs.data[i].clone();
                let mut tot = 0;
                for k in 0..a[2] {
                    let p = self.load_bytes(a[1] + 8 * k, 4)?;
                    let l = self.load_bytes(a[1] + 8 * k + 4, 4)?;
                    let (p, l) = (self.conc(p, pc)?, self.conc(l, pc)?);
                    for x in 0..l as usize {
                        if pos >= d.len() {
                            break;
                        }
                        self.set_byte(p as usize + x, d[pos]);
                        pos += 1;
                        tot += 1;
                    }
                }
                Rc::make_mut(&mut self.st.fs).fds[fd as usize - 4].as_mut().unwrap().2 = pos;
                self.write32(a[3], tot);
                0
            }
            "fd_readdir" => {
                let Some((None, dir, ..)) = open(self, fd) else { return Ok(NOTDIR) };
                let names: Vec<(String, Option<usize>)> =
                    self.st.fs.nodes.iter().filter(|(p, _)| parent(p) == dir).map(|(p, n)| (p.rsplit('/').next().unwrap().to_string(), *n)).collect();
                let mut out: Vec<u8> = vec![];
                for (k, (n, i)) in names.iter().enumerate().skip(a[3] as usize) {
                    out.extend((k as u64 + 1).to_le_bytes());
                    out.extend((i.map_or(1, |i| i as u64 + 2)).to_le_bytes());
                    out.extend((n.len() as u32).to_le_bytes());
                    out.extend([if i.is_some() { 4 } else { 3 }, 0, 0, 0]);
                    out.extend(n.as_bytes());
                }
                out.truncate(a[2] as usize);
                for (k, b) in out.iter().enumerate() {
                    self.set_byte(a[1] as usize + k, v(*b as u64));
                }
                self.write32(a[4], out.len() as u32);
                0
            }
            "path_rename" => {
                let (p, q) = (self.fs_path(fd, a[1], a[2]), self.fs_path(a[3], a[4], a[5]));
                if self.st.fs.fault.0 == 3 {
                    Rc::make_mut(&mut self.st.fs).fault = (0, 0);
                    return Ok(IO);
                }
                match (node(self, &p), node(self, &parent(&q))) {
                    (Some(Some(i)), Some(None)) => {
                        if node(self, &q) == Some(None) {
                            return Ok(ISDIR);
                        }
                        let fs = Rc::make_mut(&mut self.st.fs);
                        fs.nodes.remove(&p);
                        fs.nodes.insert(q, Some(i));
                        0
                    }
                    (Some(None), _) => ISDIR,
                    _ => NOENT,
                }
            }
            "path_link" => {
                let (p, q) = (self.fs_path(fd, a[2], a[3]), self.fs_path(a[4], a[5], a[6]));
                match (node(self, &p), node(self, &q)) {
                    (_, Some(_)) => EXIST,
                    (Some(Some(i)), None) => {
                        Rc::make_mut(&mut self.st.fs).nodes.insert(q, Some(i));
                        0
                    }
                    _ => NOENT,
                }
            }
            "path_unlink_file" => {
                let p = self.fs_path(fd, a[1], a[2]);
                match node(self, &p) {
                    Some(Some(_)) => {
                        Rc::make_mut(&mut self.st.fs).nodes.remove(&p);
                        0
                    }
                    Some(None) => ISDIR,
                    None => NOENT,
                }
            }
            "path_create_directory" => {
                let p = self.fs_path(fd, a[1], a[2]);
                match (node(self, &p), node(self, &parent(&p))) {
                    (Some(_), _) => EXIST,
                    (None, Some(None)) => {
                        Rc::make_mut(&mut self.st.fs).nodes.insert(p, None);
                        0
                    }
                    _ => NOENT,
                }
            }
            n => return Err(PathEnd::Incomplete(format!("unsupported host function {n} from {}", self.where_am_i()))),
        })
    }

    // ---------------------------------------------------------------- the loop

    pub fn start(&mut self, entry: u32) {
        self.st.frames = vec![Frame { func: entry, pc: 0, base: 0 }];
        let f = &self.m.funcs[entry as usize];
        for i in 0..f.nlocals as usize {
            self.st.stack[i] = v(0);
        }
    }

    fn run_path(&mut self) -> PathEnd {
        match self.run_inner() {
            Ok(e) => e,
            Err(e) => e,
        }
    }

    fn run_inner(&mut self) -> R<PathEnd> {
        use C::*;
        let m = self.m;
        let fr = *self.st.frames.last().unwrap();
        let mut func = fr.func as usize;
        let mut code: *const Ins = m.funcs[func].code.as_ptr();
        let mut pc = fr.pc;
        let mut base = fr.base as usize;
        let mut r: *mut Val = unsafe { self.st.stack.as_mut_ptr().add(base) };
        let mut budget: u64 = 1 << 16;
        self.st.icount += 0;

        macro_rules! sync {
            () => {
                self.st.frames.last_mut().unwrap().pc = pc
            };
        }
        macro_rules! ra {
            ($o:expr) => {
                unsafe { *r.add($o.a as usize) }
            };
        }
        macro_rules! rb {
            ($o:expr) => {
                unsafe { if $o.b == IMM { $o.imm } else { *r.add($o.b as usize) } }
            };
        }
        macro_rules! set {
            ($o:expr, $x:expr) => {
                unsafe { *r.add($o.d as usize) = $x }
            };
        }
        macro_rules! bin32 {
            ($o:expr, |$x:ident, $y:ident| $e:expr) => {{
                let (a, b) = (ra!($o), rb!($o));
                if (a.sym | b.sym) == 0 {
                    let ($x, $y) = (a.bits as u32, b.bits as u32);
                    set!($o, v(($e) as u32 as u64));
                } else {
                    sync!();
                    let x = self.slow_bin($o.code, a, b, pc - 1)?;
                    set!($o, x);
                }
            }};
        }
        macro_rules! bin64 {
            ($o:expr, |$x:ident, $y:ident| $e:expr) => {{
                let (a, b) = (ra!($o), rb!($o));
                if (a.sym | b.sym) == 0 {
                    let ($x, $y) = (a.bits, b.bits);
                    set!($o, v(($e) as u64));
                } else {
                    sync!();
                    let x = self.slow_bin($o.code, a, b, pc - 1)?;
                    set!($o, x);
                }
            }};
        }
        macro_rules! un {
            ($o:expr, |$x:ident| $e:expr) => {{
                let a = ra!($o);
                if a.sym == 0 {
                    let $x = a.bits;
                    set!($o, v($e));
                } else {
                    sync!();
                    let x = self.slow_un($o.code, a, pc - 1)?;
                    set!($o, x);
                }
            }};
        }
        macro_rules! load {
            ($o:expr, $t:ty, $nb:expr, $sx:expr, $w:expr, |$x:ident| $e:expr) => {{
                let a = ra!($o);
                let addr = a.bits.wrapping_add($o.off as u64) as usize;
                let (pg, of) = (addr / PG, addr % PG);
                if a.sym == 0 && of + $nb <= PG && pg < self.st.mem.len() && self.st.mem[pg].sym.is_none() {
                    let p = &self.st.mem[pg].data;
                    let $x = unsafe { (p.as_ptr().add(of) as *const $t).read_unaligned() };
                    set!($o, v($e));
                } else {
                    sync!();
                    let x = self.slow_load(a, $o.off, $nb, $sx, $w, pc - 1)?;
                    set!($o, x);
                }
            }};
        }
        macro_rules! store {
            ($o:expr, $t:ty, $nb:expr) => {{
                let a = ra!($o);
                let x = rb!($o);
                let addr = a.bits.wrapping_add($o.off as u64) as usize;
                let (pg, of) = (addr / PG, addr % PG);
                if (a.sym | x.sym) == 0 && of + $nb <= PG && pg < self.st.mem.len() && self.st.mem[pg].sym.is_none() {
                    let rc = &mut self.st.mem[pg];
                    let p: *mut Page = if Rc::strong_count(rc) == 1 { Rc::as_ptr(rc) as *mut Page } else { Rc::make_mut(rc) };
                    unsafe { ((*p).data.as_mut_ptr().add(of) as *mut $t).write_unaligned(x.bits as $t) };
                } else {
                    sync!();
                    self.slow_store(a, $o.off, x, $nb, pc - 1)?;
                }
            }};
        }
        macro_rules! reload {
            () => {{
                let fr = self.st.frames.last().unwrap();
                func = fr.func as usize;
                code = m.funcs[func].code.as_ptr();
                pc = fr.pc;
                base = fr.base as usize;
                r = unsafe { self.st.stack.as_mut_ptr().add(base) };
            }};
        }
        macro_rules! tick {
            () => {{
                budget -= 1;
                if budget == 0 {
                    budget = 1 << 16;
                    self.st.icount += 1 << 16;
                    self.sh.instrs.fetch_add(1 << 16, Relaxed);
                    if self.sh.stop.load(Relaxed) != 0 {
                        return Ok(PathEnd::Assumed);
                    }
                    if self.st.icount > self.cfg.max_instrs {
                        sync!();
                        return Err(PathEnd::Incomplete(format!("path exceeds the instruction limit in {}", self.where_am_i())));
                    }
                    if std::time::Instant::now() > self.cfg.deadline {
                        sync!();
                        return Err(PathEnd::Incomplete(format!("time limit reached in {}", self.where_am_i())));
                    }
                    if let Some(h) = &mut self.hot {
                        h[func] += 1;
                    }
                }
            }};
        }
        macro_rules! call {
            ($fi:expr, $d:expr) => {{
                let fi = $fi as usize;
                let f = &m.funcs[fi];
                let nb = base + $d as usize;
                if f.import.is_some() {
                    sync!();
                    self.host(f, nb, pc - 1)?;
                    r = unsafe { self.st.stack.as_mut_ptr().add(base) };
                } else if let (Some("now"), Some((s, n))) = (f.builtin, self.st.wall) {
                    // SystemTime::now() with a wall clock given in seconds and nanoseconds
                    sync!();
                    let p = self.st.stack[nb];
                    self.slow_store(p, 0, s, 8, pc - 1)?;
                    self.slow_store(p, 8, n, 4, pc - 1)?;
                    r = unsafe { self.st.stack.as_mut_ptr().add(base) };
                } else if let Some(bi) = f.builtin.filter(|b| *b != "now") {
                    sync!();
                    let (a, b, n) = (self.st.stack[nb], self.st.stack[nb + 1], self.st.stack[nb + 2]);
                    let n = self.conc(n, pc - 1)?;
                    let a = self.conc(a, pc - 1)?;
                    let res = match bi {
                        "memset" => {
                            self.mem_fill(a, b, n)?;
                            v(a)
                        }
                        "memcmp" => {
                            let b = self.conc(b, pc - 1)?;
                            self.mem_cmp(a, b, n)?
                        }
                        _ => {
                            let b = self.conc(b, pc - 1)?;
                            self.mem_copy(a, b, n)?;
                            v(a)
                        }
                    };
                    self.st.stack[nb] = res;
                    r = unsafe { self.st.stack.as_mut_ptr().add(base) };
                } else {
                    sync!();
                    if nb + f.nregs as usize + 64 > STACK || self.st.frames.len() > 5000 {
                        return Err(PathEnd::Fail(format!("stack overflow in {}", self.where_am_i())));
                    }
                    unsafe {
                        *self.cov.add(fi) = 1;
                        for i in f.nparams..f.nlocals {
                            *self.st.stack.as_mut_ptr().add(nb + i as usize) = v(0);
                        }
                    }
                    self.st.frames.push(Frame { func: fi as u32, pc: 0, base: nb as u32 });
                    func = fi;
                    code = f.code.as_ptr();
                    pc = 0;
                    base = nb;
                    r = unsafe { self.st.stack.as_mut_ptr().add(base) };
                }
            }};
        }

        loop {
            let o = unsafe { &*code.add(pc as usize) };
            pc += 1;
            tick!();
            match o.code {
                Mov => set!(o, ra!(o)),
                Const => set!(o, o.imm),
                Br => {
                    pc = o.off;
                }
                BrIf => {
                    let c = ra!(o);
                    let t = if c.sym == 0 {
                        c.bits as u32 != 0
                    } else {
                        sync!();
                        self.branch(c, [pc, o.off])?
                    };
                    if t {
                        pc = o.off;
                    }
                }
                BrIfZ => {
                    let c = ra!(o);
                    let t = if c.sym == 0 {
                        c.bits as u32 != 0
                    } else {
                        sync!();
                        self.branch(c, [o.off, pc])?
                    };
                    if !t {
                        pc = o.off;
                    }
                }
                BrTable => {
                    let t = &m.br_tables[o.off as usize];
                    let c = ra!(o);
                    if c.sym == 0 {
                        pc = t[(c.bits as u32 as usize).min(t.len() - 1)];
                    } else {
                        sync!();
                        pc = self.sym_br_table(c.sym, t, pc - 1)?;
                    }
                }
                Return => {
                    let n = o.b as usize;
                    for i in 0..n {
                        unsafe { *r.add(i) = *r.add(o.a as usize + i) };
                    }
                    self.st.frames.pop();
                    if self.st.frames.is_empty() {
                        self.st.icount += (1 << 16) - budget;
                        self.sh.instrs.fetch_add((1 << 16) - budget, Relaxed);
                        return Ok(PathEnd::Ok);
                    }
                    reload!();
                }
                Call => call!(o.off, o.d),
                CallIndirect => {
                    let i = ra!(o);
                    let i = if i.sym == 0 {
                        i.bits as u32 as usize
                    } else {
                        sync!();
                        self.case_split(i.sym, pc - 1)? as usize
                    };
                    match m.table.get(i) {
                        Some(Some(f)) if m.sigs[m.func_sig[*f as usize] as usize] == m.sigs[o.off as usize] => call!(*f, o.d),
                        _ => {
                            sync!();
                            return Err(self.trap("bad indirect call"));
                        }
                    }
                }
                Unreachable => {
                    sync!();
                    return Err(self.trap("unreachable"));
                }
                Sel32 | Sel64 => {
                    let c = unsafe { *r.add(o.off as usize) };
                    let (a, b) = (ra!(o), rb!(o));
                    if c.sym == 0 {
                        set!(o, if c.bits as u32 != 0 { a } else { b });
                    } else {
                        sync!();
                        let x = self.slow_select(a, b, c, if o.code == Sel64 { 64 } else { 32 })?;
                        set!(o, x);
                    }
                }
                GlobalGet => set!(o, self.st.globals[o.off as usize]),
                GlobalSet => self.st.globals[o.off as usize] = ra!(o),
                MemSize => set!(o, v((self.st.mem.len() / 16) as u64)),
                MemGrow => {
                    let n = ra!(o);
                    let n = if n.sym == 0 {
                        n.bits
                    } else {
                        sync!();
                        self.case_split(n.sym, pc - 1)?
                    };
                    let old = self.st.mem.len() / 16;
                    if old as u64 + n > 4096 {
                        set!(o, v(0xffff_ffff));
                    } else {
                        let z = Rc::new(Page { data: [0; PG], sym: None, nsym: 0 });
                        self.st.mem.resize((old + n as usize) * 16, z);
                        set!(o, v(old as u64));
                    }
                }
                MemCopy | MemFill => {
                    sync!();
                    let n = unsafe { *r.add(o.off as usize) };
                    let n = self.conc(n, pc - 1)?;
                    let a = ra!(o);
                    let a = self.conc(a, pc - 1)?;
                    let b = rb!(o);
                    if o.code == MemCopy {
                        let b = self.conc(b, pc - 1)?;
                        self.mem_copy(a, b, n)?;
                    } else {
                        self.mem_fill(a, b, n)?;
                    }
                }
                I32Load => load!(o, u32, 4, false, 32, |x| x as u64),
                I64Load => load!(o, u64, 8, false, 64, |x| x),
                I32Load8S => load!(o, i8, 1, true, 32, |x| x as i32 as u32 as u64),
                I32Load8U => load!(o, u8, 1, false, 32, |x| x as u64),
                I32Load16S => load!(o, i16, 2, true, 32, |x| x as i32 as u32 as u64),
                I32Load16U => load!(o, u16, 2, false, 32, |x| x as u64),
                I64Load8S => load!(o, i8, 1, true, 64, |x| x as i64 as u64),
                I64Load8U => load!(o, u8, 1, false, 64, |x| x as u64),
                I64Load16S => load!(o, i16, 2, true, 64, |x| x as i64 as u64),
                I64Load16U => load!(o, u16, 2, false, 64, |x| x as u64),
                I64Load32S => load!(o, i32, 4, true, 64, |x| x as i64 as u64),
                I64Load32U => load!(o, u32, 4, false, 64, |x| x as u64),
                Store8 => store!(o, u8, 1),
                Store16 => store!(o, u16, 2),
                Store32 => store!(o, u32, 4),
                Store64 => store!(o, u64, 8),
                I32Eqz => un!(o, |x| (x as u32 == 0) as u64),
                I64Eqz => un!(o, |x| (x == 0) as u64),
                I32Eq => bin32!(o, |x, y| x == y),
                I32Ne => bin32!(o, |x, y| x != y),
                I32LtS => bin32!(o, |x, y| (x as i32) < y as i32),
                I32LtU => bin32!(o, |x, y| x < y),
                I32GtS => bin32!(o, |x, y| x as i32 > y as i32),
                I32GtU => bin32!(o, |x, y| x > y),
                I32LeS => bin32!(o, |x, y| x as i32 <= y as i32),
                I32LeU => bin32!(o, |x, y| x <= y),
                I32GeS => bin32!(o, |x, y| x as i32 >= y as i32),
                I32GeU => bin32!(o, |x, y| x >= y),
                I64Eq => bin64!(o, |x, y| x == y),
                I64Ne => bin64!(o, |x, y| x != y),
                I64LtS => bin64!(o, |x, y| (x as i64) < y as i64),
                I64LtU => bin64!(o, |x, y| x < y),
                I64GtS => bin64!(o, |x, y| x as i64 > y as i64),
                I64GtU => bin64!(o, |x, y| x > y),
                I64LeS => bin64!(o, |x, y| x as i64 <= y as i64),
                I64LeU => bin64!(o, |x, y| x <= y),
                I64GeS => bin64!(o, |x, y| x as i64 >= y as i64),
                I64GeU => bin64!(o, |x, y| x >= y),
                I32Add => bin32!(o, |x, y| x.wrapping_add(y)),
                I32Sub => bin32!(o, |x, y| x.wrapping_sub(y)),
                I32Mul => bin32!(o, |x, y| x.wrapping_mul(y)),
                I32And => bin32!(o, |x, y| x & y),
                I32Or => bin32!(o, |x, y| x | y),
                I32Xor => bin32!(o, |x, y| x ^ y),
                I32Shl => bin32!(o, |x, y| x << (y & 31)),
                I32ShrU => bin32!(o, |x, y| x >> (y & 31)),
                I32ShrS => bin32!(o, |x, y| (x as i32) >> (y & 31)),
                I32Rotl => bin32!(o, |x, y| x.rotate_left(y & 31)),
                I64Add => bin64!(o, |x, y| x.wrapping_add(y)),
                I64Sub => bin64!(o, |x, y| x.wrapping_sub(y)),
                I64Mul => bin64!(o, |x, y| x.wrapping_mul(y)),
                I64And => bin64!(o, |x, y| x & y),
                I64Or => bin64!(o, |x, y| x | y),
                I64Xor => bin64!(o, |x, y| x ^ y),
                I64Shl => bin64!(o, |x, y| x << (y & 63)),
                I64ShrU => bin64!(o, |x, y| x >> (y & 63)),
                I64ShrS => bin64!(o, |x, y| (x as i64) >> (y & 63)),
                I64Rotl => bin64!(o, |x, y| x.rotate_left((y & 63) as u32)),
                I32WrapI64 => un!(o, |x| x as u32 as u64),
                I64ExtI32U => un!(o, |x| x as u32 as u64),
                I64ExtI32S => un!(o, |x| x as i32 as i64 as u64),
                _ if is_unary(o.code) => un!(o, |x| conc_un(o.code, x)),
                _ => {
                    let (a, b) = (ra!(o), rb!(o));
                    if (a.sym | b.sym) == 0 {
                        match conc_bin(o.code, a.bits, b.bits) {
                            Some(x) => set!(o, v(x)),
                            None => {
                                sync!();
                                return Err(self.trap("integer divide by zero or overflow"));
                            }
                        }
                    } else {
                        sync!();
                        let x = self.slow_bin(o.code, a, b, pc - 1)?;
                        set!(o, x);
                    }
                }
            }
        }
    }

    /// A jump table on a symbolic index: one state per distinct target.
    fn sym_br_table(&mut self, n: N, t: &[u32], pc: u32) -> R<u32> {
        self.sh.branches.fetch_add(1, Relaxed);
        let n = self.subst(n);
        let tgt = |k: u64| t[(k as u32 as usize).min(t.len() - 1)];
        if let Some(k) = self.p.as_const(n) {
            return Ok(tgt(k));
        }
        let model = self.st.model.clone();
        let mine = tgt(self.p.eval(n, &model));
        let mut targets: Vec<u32> = t.to_vec();
        targets.sort_unstable();
        targets.dedup();
        let w = self.p.w(n);
        let single = self.p.single_var(n);
        if single.is_none() && targets.len() > 8 {
            let k = self.case_split(n, pc)?;
            return Ok(tgt(k));
        }
        let mut my_cond = TRUE;
        let cond_for = |s: &mut Self, target: u32| -> N {
            if let Some(var) = single {
                let vals = s.p.table(n);
                let mut tt = [0u64; 256];
                for i in 0..256 {
                    tt[i] = (tgt(vals[i]) == target) as u64;
                }
                let vn = s.p.var(var);
                return s.p.table_node(vn, 1, tt);
            }
            let mut c = FALSE;
            for i in 0..t.len() - 1 {
                if t[i] == target {
                    let k = s.p.cst(w, i as u64);
                    let e = s.p.cmp(Op::Eq, n, k);
                    c = s.p.bin(Op::Or, c, e);
                }
            }
            if t[t.len() - 1] == target {
                let k = s.p.cst(w, t.len() as u64 - 1);
                let e = s.p.cmp(Op::Ule, k, n);
                c = s.p.bin(Op::Or, c, e);
            }
            c
        };
        for target in targets {
            let c = cond_for(self, target);
            if target == mine {
                my_cond = c;
                continue;
            }
            if let Some(m) = self.feasible(c)? {
                let top = self.top();
                let mut s = self.snapshot(top);
                s.model = m;
                s.forks += 1;
                self.add(&mut s, c)?;
                s.frames.last_mut().unwrap().pc = target;
                self.queue(s);
            }
        }
        self.st.forks += 1;
        self.add_cur(my_cond)?;
        Ok(mine)
    }

    // ---------------------------------------------------------------- exploration

    fn model_json(&self, st: &St) -> String {
        let mut s = String::from("{");
        let mut first = true;
        for (name, b, n) in &self.vars.groups {
            if *n > 0 && !set_has(&st.created, *b) {
                continue;
            }
            if !first {
                s += ",";
            }
            first = false;
            s += &format!("\"{}\":\"", esc(name));
            for i in 0..*n {
                s += &format!("{:02x}", st.model[b + i]);
            }
            s += "\"";
        }
        s + "}"
    }

    fn event(&mut self, line: String) {
        use std::io::Write;
        let _ = self.cfg.out.write_all((line + "\n").as_bytes());
    }

    fn finish_path(&mut self, e: PathEnd) {
        self.sh.maxdepth.fetch_max(self.st.forks as u64, Relaxed);
        match e {
            PathEnd::Ok => {
                let k = self.sh.paths_ok.fetch_add(1, Relaxed);
                self.ok_local += 1;
                // spread the samples over the run
                if (k < 8 || k.is_power_of_two() || (k + self.cfg.seed) % 97 == 0)
                    && self.sh.samples.fetch_add(1, Relaxed) < self.cfg.max_samples
                {
                    let obs = self.obs_json();
                    let s = format!("{{\"kind\":\"path\",\"model\":{},\"obs\":{}}}", self.model_json(&self.st), obs);
                    self.event(s);
                }
            }
            PathEnd::Assumed => {
                self.sh.paths_assumed.fetch_add(1, Relaxed);
            }
            PathEnd::Fail(msg) => {
                let n = self.sh.paths_fail.fetch_add(1, Relaxed);
                let known = self.cfg.known.iter().any(|k| msg.contains(k.as_str()));
                let s = format!(
                    "{{\"kind\":\"fail\",\"known\":{},\"msg\":\"{}\",\"model\":{},\"obs\":{}}}",
                    known,
                    esc(&msg),
                    self.model_json(&self.st),
                    self.obs_json()
                );
                if !known || n < 2000 {
                    self.event(s);
                }
                if !known && self.sh.stop.load(Relaxed) == 0 && n + 1 >= self.cfg.max_fails {
                    self.sh.stop.store(1, Relaxed);
                }
            }
            PathEnd::Incomplete(msg) => {
                self.sh.incomplete.fetch_add(1, Relaxed);
                let s = format!("{{\"kind\":\"incomplete\",\"msg\":\"{}\",\"model\":{}}}", esc(&msg), self.model_json(&self.st));
                self.event(s);
                self.sh.stop.store(1, Relaxed);
            }
        }
    }

    fn obs_json(&mut self) -> String {
        let obs = self.st.obs.clone();
        let model = self.st.model.clone();
        let mut s = String::from("[");
        for (i, (t, d)) in obs.iter().enumerate() {
            // FNV-1a over the observed bytes under the path's model
            let mut h = 0xcbf29ce484222325u64;
            for b in d.iter() {
                let x = if b.sym == 0 { b.bits } else { self.p.eval(b.sym, &model) };
                h = (h ^ (x & 0xff)).wrapping_mul(0x100000001b3);
            }
            if i > 0 {
                s += ",";
            }
            s += &format!("[\"{}\",\"{:016x}\",{}]", esc(t), h, d.len());
        }
        s + "]"
    }

    fn resume(&mut self, mut s: St) {
        let mut stack = std::mem::take(&mut self.st.stack);
        stack[..s.stack.len()].copy_from_slice(&s.stack);
        s.stack = stack;
        self.st = s;
    }

    /// Explore everything from the current state; share work with forked processes.
    pub fn explore(&mut self) {
        let mut last_fork = std::time::Instant::now();
        let mut have = true;
        loop {
            if !have {
                match self.pending.pop() {
                    Some(s) => self.resume(s),
                    None => break,
                }
            }
            have = false;
            let e = self.run_path();
            self.finish_path(e);
            if self.sh.stop.load(Relaxed) != 0 {
                break;
            }
            if std::time::Instant::now() > self.cfg.deadline && !self.pending.is_empty() {
                self.finish_path(PathEnd::Incomplete("time limit reached".into()));
                break;
            }
            if self.pending.len() >= 2 && self.sh.slots.load(Relaxed) > 0 && last_fork.elapsed().as_millis() >= 15 {
                if self.sh.slots.fetch_sub(1, Relaxed) > 0 {
                    if self.split() {
                        // the child starts with its own clock
                        last_fork = std::time::Instant::now();
                    } else {
                        last_fork = std::time::Instant::now();
                    }
                } else {
                    self.sh.slots.fetch_add(1, Relaxed);
                }
            }
        }
        self.flush();
    }

    /// Fork; the child takes the older half of the queue. Returns true in the child.
    fn split(&mut self) -> bool {
        // reap finished children so that they do not pile up
        self.children.retain(|c| unsafe {
            let mut st = 0;
            let r = libc::waitpid(*c, &mut st, libc::WNOHANG);
            if r == *c && !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
                self.sh.incomplete.fetch_add(1, Relaxed);
            }
            r == 0
        });
        let half = self.pending.len() / 2;
        match unsafe { libc::fork() } {
            0 => {
                self.sh.nprocs.fetch_add(1, Relaxed);
                let rest = self.pending.split_off(half.max(1));
                drop(rest);
                self.children.clear();
                self.zero_stats();
                // the child has no current state: its next one comes from the queue
                true
            }
            -1 => {
                self.sh.slots.fetch_add(1, Relaxed);
                false
            }
            pid => {
                self.children.push(pid);
                let rest = self.pending.split_off(half.max(1));
                self.pending = rest;
                false
            }
        }
    }
    fn zero_stats(&mut self) {
        self.solver.queries = 0;
        self.solver.cache_hits = 0;
        self.solver.sat = 0;
        self.solver.unsat = 0;
        self.solver.ns = 0;
    }

    fn flush(&mut self) {
        let s = self.sh;
        s.queries.fetch_add(self.solver.queries, Relaxed);
        s.cache_hits.fetch_add(self.solver.cache_hits, Relaxed);
        s.sat.fetch_add(self.solver.sat, Relaxed);
        s.unsat.fetch_add(self.solver.unsat, Relaxed);
        s.solver_ns.fetch_add(self.solver.ns, Relaxed);
        s.maxnodes.fetch_max(self.p.nodes.len() as u64, Relaxed);
        if let Some(h) = &self.hot {
            let mut x: Vec<(u64, usize)> = h.iter().enumerate().map(|(i, n)| (*n, i)).collect();
            x.sort();
            for (n, i) in x.iter().rev().take(25) {
                if *n > 0 {
                    eprintln!("[hot] {n:8} {:#}", rustc_demangle::demangle(&self.m.funcs[*i].name));
                }
            }
        }
        s.slots.fetch_add(1, Relaxed);
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o
}

fn is_unary(c: C) -> bool {
    use C::*;
    matches!(
        c,
        I32Clz | I32Ctz | I32Popcnt | I64Clz | I64Ctz | I64Popcnt | I32Ext8S | I32Ext16S | I64Ext8S | I64Ext16S | I64Ext32S | F32Abs
            | F32Neg | F32Ceil | F32Floor | F32Trunc | F32Nearest | F32Sqrt | F64Abs | F64Neg | F64Ceil | F64Floor | F64Trunc
            | F64Nearest | F64Sqrt | I32TruncF32S | I32TruncF32U | I32TruncF64S | I32TruncF64U | I64TruncF32S | I64TruncF32U
            | I64TruncF64S | I64TruncF64U | I32SatF32S | I32SatF32U | I32SatF64S | I32SatF64U | I64SatF32S | I64SatF32U | I64SatF64S
            | I64SatF64U | F32ConvI32S | F32ConvI32U | F32ConvI64S | F32ConvI64U | F64ConvI32S | F64ConvI32U | F64ConvI64S
            | F64ConvI64U | F32Demote | F64Promote
    )
}

fn f32b(x: u64) -> f32 {
    f32::from_bits(x as u32)
}
fn f64b(x: u64) -> f64 {
    f64::from_bits(x)
}
fn b32(x: f32) -> u64 {
    x.to_bits() as u64
}
fn b64(x: f64) -> u64 {
    x.to_bits()
}

pub fn conc_un(c: C, x: u64) -> u64 {
    use C::*;
    match c {
        I32Eqz => (x as u32 == 0) as u64,
        I64Eqz => (x == 0) as u64,
        I32Clz => (x as u32).leading_zeros() as u64,
        I32Ctz => (x as u32).trailing_zeros() as u64,
        I32Popcnt => (x as u32).count_ones() as u64,
        I64Clz => x.leading_zeros() as u64,
        I64Ctz => x.trailing_zeros() as u64,
        I64Popcnt => x.count_ones() as u64,
        I32WrapI64 | I64ExtI32U => x as u32 as u64,
        I64ExtI32S | I64Ext32S => x as i32 as i64 as u64,
        I32Ext8S => x as i8 as i32 as u32 as u64,
        I32Ext16S => x as i16 as i32 as u32 as u64,
        I64Ext8S => x as i8 as i64 as u64,
        I64Ext16S => x as i16 as i64 as u64,
        F32Abs => b32(f32b(x).abs()),
        F32Neg => (x as u32 ^ 0x8000_0000) as u64,
        F32Ceil => b32(f32b(x).ceil()),
        F32Floor => b32(f32b(x).floor()),
        F32Trunc => b32(f32b(x).trunc()),
        F32Nearest => b32(f32b(x).round_ties_even()),
        F32Sqrt => b32(f32b(x).sqrt()),
        F64Abs => b64(f64b(x).abs()),
        F64Neg => x ^ (1 << 63),
        F64Ceil => b64(f64b(x).ceil()),
        F64Floor => b64(f64b(x).floor()),
        F64Trunc => b64(f64b(x).trunc()),
        F64Nearest => b64(f64b(x).round_ties_even()),
        F64Sqrt => b64(f64b(x).sqrt()),
        I32TruncF32S | I32SatF32S => f32b(x) as i32 as u32 as u64,
        I32TruncF32U | I32SatF32U => f32b(x) as u32 as u64,
        I32TruncF64S | I32SatF64S => f64b(x) as i32 as u32 as u64,
        I32TruncF64U | I32SatF64U => f64b(x) as u32 as u64,
        I64TruncF32S | I64SatF32S => f32b(x) as i64 as u64,
        I64TruncF32U | I64SatF32U => f32b(x) as u64,
        I64TruncF64S | I64SatF64S => f64b(x) as i64 as u64,
        I64TruncF64U | I64SatF64U => f64b(x) as u64,
        F32ConvI32S => b32(x as i32 as f32),
        F32ConvI32U => b32(x as u32 as f32),
        F32ConvI64S => b32(x as i64 as f32),
        F32ConvI64U => b32(x as f32),
        F64ConvI32S => b64(x as i32 as f64),
        F64ConvI32U => b64(x as u32 as f64),
        F64ConvI64S => b64(x as i64 as f64),
        F64ConvI64U => b64(x as f64),
        F32Demote => b32(f64b(x) as f32),
        F64Promote => b64(f32b(x) as f64),
        _ => unreachable!("{c:?}"),
    }
}

pub fn conc_bin(c: C, a: u64, b: u64) -> Option<u64> {
    use C::*;
    let (x, y) = (a as u32, b as u32);
    let (sx, sy) = (x as i32, y as i32);
    let (p, q) = (a as i64, b as i64);
    let (f, g) = (f32b(a), f32b(b));
    let (h, i) = (f64b(a), f64b(b));
    let w = |x: u32| x as u64;
    Some(match c {
        I32Eq => (x == y) as u64,
        I32Ne => (x != y) as u64,
        I32LtS => (sx < sy) as u64,
        I32LtU => (x < y) as u64,
        I32GtS => (sx > sy) as u64,
        I32GtU => (x > y) as u64,
        I32LeS => (sx <= sy) as u64,
        I32LeU => (x <= y) as u64,
        I32GeS => (sx >= sy) as u64,
        I32GeU => (x >= y) as u64,
        I64Eq => (a == b) as u64,
        I64Ne => (a != b) as u64,
        I64LtS => (p < q) as u64,
        I64LtU => (a < b) as u64,
        I64GtS => (p > q) as u64,
        I64GtU => (a > b) as u64,
        I64LeS => (p <= q) as u64,
        I64LeU => (a <= b) as u64,
        I64GeS => (p >= q) as u64,
        I64GeU => (a >= b) as u64,
        I32Add => w(x.wrapping_add(y)),
        I32Sub => w(x.wrapping_sub(y)),
        I32Mul => w(x.wrapping_mul(y)),
        I32DivS => w(sx.checked_div(sy)? as u32),
        I32DivU => w(x.checked_div(y)?),
        I32RemS => {
            if sy == 0 {
                return None;
            }
            w(sx.wrapping_rem(sy) as u32)
        }
        I32RemU => w(x.checked_rem(y)?),
        I32And => w(x & y),
        I32Or => w(x | y),
        I32Xor => w(x ^ y),
        I32Shl => w(x << (y & 31)),
        I32ShrS => w((sx >> (y & 31)) as u32),
        I32ShrU => w(x >> (y & 31)),
        I32Rotl => w(x.rotate_left(y & 31)),
        I32Rotr => w(x.rotate_right(y & 31)),
        I64Add => a.wrapping_add(b),
        I64Sub => a.wrapping_sub(b),
        I64Mul => a.wrapping_mul(b),
        I64DivS => p.checked_div(q)? as u64,
        I64DivU => a.checked_div(b)?,
        I64RemS => {
            if q == 0 {
                return None;
            }
            p.wrapping_rem(q) as u64
        }
        I64RemU => a.checked_rem(b)?,
        I64And => a & b,
        I64Or => a | b,
        I64Xor => a ^ b,
        I64Shl => a << (b & 63),
        I64ShrS => (p >> (b & 63)) as u64,
        I64ShrU => a >> (b & 63),
        I64Rotl => a.rotate_left((b & 63) as u32),
        I64Rotr => a.rotate_right((b & 63) as u32),
        F32Eq => (f == g) as u64,
        F32Ne => (f != g) as u64,
        F32Lt => (f < g) as u64,
        F32Gt => (f > g) as u64,
        F32Le => (f <= g) as u64,
        F32Ge => (f >= g) as u64,
        F64Eq => (h == i) as u64,
        F64Ne => (h != i) as u64,
        F64Lt => (h < i) as u64,
        F64Gt => (h > i) as u64,
        F64Le => (h <= i) as u64,
        F64Ge => (h >= i) as u64,
        F32Add => b32(f + g),
        F32Sub => b32(f - g),
        F32Mul => b32(f * g),
        F32Div => b32(f / g),
        F32Min => b32(if f.is_nan() || g.is_nan() { f32::NAN } else if f == g { f32::from_bits(f.to_bits() | g.to_bits()) } else { f.min(g) }),
        F32Max => b32(if f.is_nan() || g.is_nan() { f32::NAN } else if f == g { f32::from_bits(f.to_bits() & g.to_bits()) } else { f.max(g) }),
        F32Copysign => b32(f.copysign(g)),
        F64Add => b64(h + i),
        F64Sub => b64(h - i),
        F64Mul => b64(h * i),
        F64Div => b64(h / i),
        F64Min => b64(if h.is_nan() || i.is_nan() { f64::NAN } else if h == i { f64::from_bits(h.to_bits() | i.to_bits()) } else { h.min(i) }),
        F64Max => b64(if h.is_nan() || i.is_nan() { f64::NAN } else if h == i { f64::from_bits(h.to_bits() & i.to_bits()) } else { h.max(i) }),
        F64Copysign => b64(h.copysign(i)),
        _ => unreachable!("{c:?}"),
    })
}
