//! wasm -> register code. Every local and operand-stack position of a function is a register.

use std::collections::HashMap;
use wasmparser::{BlockType, ExternalKind, Operator, Parser, Payload, ValType};

#[derive(Clone, Copy, Default, Debug)]
#[repr(C)]
pub struct Val {
    pub bits: u64,
    pub sym: u32,
}
pub const IMM: u16 = 0xffff;

#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct Ins {
    pub code: C,
    pub d: u16,
    pub a: u16,
    pub b: u16,
    pub off: u32,
    pub imm: Val,
}

macro_rules! codes { ($($n:ident),* $(,)?) => {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(u16)]
    #[allow(clippy::upper_case_acronyms)]
    pub enum C { $($n),* }
} }
codes!(
    Mov, Const, Br, BrIf, BrIfZ, BrTable, Return, Call, CallIndirect, Unreachable, Sel32, Sel64, GlobalGet, GlobalSet, MemSize, MemGrow,
    MemCopy, MemFill, //
    I32Load, I64Load, I32Load8S, I32Load8U, I32Load16S, I32Load16U, I64Load8S, I64Load8U, I64Load16S, I64Load16U, I64Load32S, I64Load32U,
    Store8, Store16, Store32, Store64, //
    I32Eqz, I64Eqz, //
    I32Eq, I32Ne, I32LtS, I32LtU, I32GtS, I32GtU, I32LeS, I32LeU, I32GeS, I32GeU, I64Eq, I64Ne, I64LtS, I64LtU, I64GtS, I64GtU, I64LeS,
    I64LeU, I64GeS, I64GeU, //
    I32Clz, I32Ctz, I32Popcnt, I64Clz, I64Ctz, I64Popcnt, //
    I32Add, I32Sub, I32Mul, I32DivS, I32DivU, I32RemS, I32RemU, I32And, I32Or, I32Xor, I32Shl, I32ShrS, I32ShrU, I32Rotl, I32Rotr, I64Add,
    I64Sub, I64Mul, I64DivS, I64DivU, I64RemS, I64RemU, I64And, I64Or, I64Xor, I64Shl, I64ShrS, I64ShrU, I64Rotl, I64Rotr, //
    I32WrapI64, I64ExtI32S, I64ExtI32U, I32Ext8S, I32Ext16S, I64Ext8S, I64Ext16S, I64Ext32S, //
    F32Eq, F32Ne, F32Lt, F32Gt, F32Le, F32Ge, F64Eq, F64Ne, F64Lt, F64Gt, F64Le, F64Ge, //
    F32Abs, F32Neg, F32Ceil, F32Floor, F32Trunc, F32Nearest, F32Sqrt, F32Add, F32Sub, F32Mul, F32Div, F32Min, F32Max, F32Copysign, //
    F64Abs, F64Neg, F64Ceil, F64Floor, F64Trunc, F64Nearest, F64Sqrt, F64Add, F64Sub, F64Mul, F64Div, F64Min, F64Max, F64Copysign, //
    I32TruncF32S, I32TruncF32U, I32TruncF64S, I32TruncF64U, I64TruncF32S, I64TruncF32U, I64TruncF64S, I64TruncF64U, I32SatF32S,
    I32SatF32U, I32SatF64S, I32SatF64U, I64SatF32S, I64SatF32U, I64SatF64S, I64SatF64U, F32ConvI32S, F32ConvI32U, F32ConvI64S,
    F32ConvI64U, F64ConvI32S, F64ConvI32U, F64ConvI64S, F64ConvI64U, F32Demote, F64Promote,
);

pub struct Func {
    pub name: String,
    pub nparams: u32,
    #[allow(dead_code)]
    pub nresults: u32,
    pub nlocals: u32,
    pub nregs: u32,
    pub code: Vec<Ins>,
    pub import: Option<(String, String)>,
    /// intercepted C library routine
    pub builtin: Option<&'static str>,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub sigs: Vec<(Vec<ValType>, Vec<ValType>)>,
    pub func_sig: Vec<u32>,
    pub table: Vec<Option<u32>>,
    pub globals: Vec<u64>,
    pub mem_pages: u32,
    pub data: Vec<(u32, Vec<u8>)>,
    pub exports: HashMap<String, u32>,
    pub br_tables: Vec<Vec<u32>>,
}

#[derive(Clone, Copy)]
enum Src {
    Slot,
    Local(u32),
    Const(u64),
}

struct Ctl {
    is_loop: bool,
    height: usize,
    params: usize,
    results: Vec<ValType>,
    start: u32,
    patches: Vec<usize>,
    else_patch: Option<usize>,
    ptypes: Vec<ValType>,
}

struct Tr<'a> {
    m: &'a Module,
    code: Vec<Ins>,
    st: Vec<(Src, ValType)>,
    nlocals: usize,
    ctl: Vec<Ctl>,
    max: usize,
    br_tables: Vec<Vec<u32>>,
    br_base: usize,
    /// code position of the last label: the instruction before it is not the only producer
    barrier: usize,
}

fn ins(code: C, d: usize, a: usize, b: usize, off: u32, imm: u64) -> Ins {
    let f = |x: usize| -> u16 {
        assert!(x < 0xffff || x == IMM as usize, "function uses too many registers");
        x as u16
    };
    Ins { code, d: f(d), a: f(a), b: f(b), off, imm: Val { bits: imm, sym: 0 } }
}

impl Tr<'_> {
    fn slot(&self, i: usize) -> usize {
        self.nlocals + i
    }
    fn emit(&mut self, i: Ins) {
        self.code.push(i);
    }
    fn push(&mut self, s: Src, t: ValType) {
        self.st.push((s, t));
        self.max = self.max.max(self.st.len());
    }
    fn push_slot(&mut self, t: ValType) -> usize {
        self.push(Src::Slot, t);
        self.slot(self.st.len() - 1)
    }
    /// Register holding operand `i`, loading constants into its slot.
    fn reg_of(&mut self, i: usize) -> usize {
        match self.st[i].0 {
            Src::Slot => self.slot(i),
            Src::Local(l) => l as usize,
            Src::Const(k) => {
                let s = self.slot(i);
                self.emit(ins(C::Const, s, 0, 0, 0, k));
                self.st[i].0 = Src::Slot;
                s
            }
        }
    }
    fn pop_reg(&mut self) -> usize {
        let i = self.st.len() - 1;
        let r = self.reg_of(i);
        self.st.pop();
        r
    }
    fn pop_src(&mut self) -> (usize, u64) {
        let i = self.st.len() - 1;
        if let Src::Const(k) = self.st[i].0 {
            self.st.pop();
            return (IMM as usize, k);
        }
        (self.pop_reg(), 0)
    }
    /// Force operand `i` into its own slot.
    fn spill1(&mut self, i: usize) {
        let s = self.slot(i);
        match self.st[i].0 {
            Src::Slot => {}
            Src::Local(l) => self.emit(ins(C::Mov, s, l as usize, 0, 0, 0)),
            Src::Const(k) => self.emit(ins(C::Const, s, 0, 0, 0, k)),
        }
        self.st[i].0 = Src::Slot;
    }
    fn spill_from(&mut self, from: usize) {
        for i in from..self.st.len() {
            self.spill1(i);
        }
    }
    fn before_local_write(&mut self, l: u32) {
        for i in 0..self.st.len() {
            if let Src::Local(x) = self.st[i].0 {
                if x == l {
                    self.spill1(i);
                }
            }
        }
    }
    fn bin(&mut self, c: C, t: ValType) {
        let (b, k) = self.pop_src();
        let a = self.pop_reg();
        let d = self.push_slot(t);
        self.emit(ins(c, d, a, b, 0, k));
    }
    fn un(&mut self, c: C, t: ValType) {
        let a = self.pop_reg();
        let d = self.push_slot(t);
        self.emit(ins(c, d, a, 0, 0, 0));
    }
    fn load(&mut self, c: C, off: u64, t: ValType) {
        let a = self.pop_reg();
        let d = self.push_slot(t);
        self.emit(ins(c, d, a, 0, off as u32, 0));
    }
    fn store(&mut self, c: C, off: u64) {
        let (b, k) = self.pop_src();
        let a = self.pop_reg();
        self.emit(ins(c, 0, a, b, off as u32, k));
    }
    fn block_type(&self, b: BlockType) -> (Vec<ValType>, Vec<ValType>) {
        match b {
            BlockType::Empty => (vec![], vec![]),
            BlockType::Type(t) => (vec![], vec![t]),
            BlockType::FuncType(i) => self.m.sigs[i as usize].clone(),
        }
    }
    fn arity(&self, depth: u32) -> usize {
        let c = &self.ctl[self.ctl.len() - 1 - depth as usize];
        if c.is_loop {
            c.params
        } else {
            c.results.len()
        }
    }
    /// Moves the branch operands into place. All operands are spilled.
    fn moves(&mut self, depth: u32) {
        let ci = self.ctl.len() - 1 - depth as usize;
        let n = self.arity(depth);
        let h = self.ctl[ci].height;
        let from = self.st.len() - n;
        if from != h {
            for i in 0..n {
                let (s, d) = (self.slot(from + i), self.slot(h + i));
                self.emit(ins(C::Mov, d, s, 0, 0, 0));
            }
        }
    }
    fn needs_moves(&self, depth: u32) -> bool {
        let ci = self.ctl.len() - 1 - depth as usize;
        let n = self.arity(depth);
        n > 0 && self.st.len() - n != self.ctl[ci].height
    }
    fn jump(&mut self, code: C, cond: usize, depth: u32) {
        let ci = self.ctl.len() - 1 - depth as usize;
        let at = self.code.len();
        let start = self.ctl[ci].start;
        self.emit(ins(code, 0, cond, 0, start, 0));
        if !self.ctl[ci].is_loop {
            self.ctl[ci].patches.push(at);
        }
    }
}

fn translate(m: &Module, fi: usize, body: &wasmparser::FunctionBody, br_base: usize) -> (Vec<Ins>, u32, u32, Vec<Vec<u32>>) {
    use ValType::*;
    let sig = m.sigs[m.func_sig[fi] as usize].clone();
    let mut ltypes: Vec<ValType> = sig.0.clone();
    for l in body.get_locals_reader().unwrap() {
        let (n, t) = l.unwrap();
        for _ in 0..n {
            ltypes.push(t);
        }
    }
    let mut t = Tr { m, code: vec![], st: vec![], nlocals: ltypes.len(), ctl: vec![], max: 0, br_tables: vec![], br_base, barrier: 0 };
    t.ctl.push(Ctl {
        is_loop: false,
        height: 0,
        params: 0,
        results: sig.1.clone(),
        start: 0,
        patches: vec![],
        else_patch: None,
        ptypes: vec![],
    });
    let mut dead = false;
    let mut dead_depth = 0usize;
    for op in body.get_operators_reader().unwrap() {
        let op = op.unwrap();
        if dead {
            match &op {
                Operator::Block { .. } | Operator::Loop { .. } | Operator::If { .. } => {
                    dead_depth += 1;
                    continue;
                }
                Operator::End if dead_depth > 0 => {
                    dead_depth -= 1;
                    continue;
                }
                Operator::Else if dead_depth > 0 => continue,
                Operator::End | Operator::Else => {}
                _ => continue,
            }
        }
        macro_rules! b {
            ($c:ident, $t:ident) => {
                t.bin(C::$c, $t)
            };
        }
        macro_rules! u {
            ($c:ident, $t:ident) => {
                t.un(C::$c, $t)
            };
        }
        match op {
            Operator::Nop => {}
            Operator::Unreachable => {
                t.emit(ins(C::Unreachable, 0, 0, 0, 0, 0));
                dead = true;
            }
            Operator::Block { blockty } | Operator::Loop { blockty } => {
                let is_loop = matches!(op, Operator::Loop { .. });
                t.spill_from(0);
                let (p, r) = t.block_type(blockty);
                let start = t.code.len() as u32;
                t.barrier = t.code.len();
                t.ctl.push(Ctl {
                    is_loop,
                    height: t.st.len() - p.len(),
                    params: p.len(),
                    results: r,
                    start,
                    patches: vec![],
                    else_patch: None,
                    ptypes: p,
                });
            }
            Operator::If { blockty } => {
                let n = t.st.len() - 1;
                let c = t.reg_of(n);
                // keep the condition register valid across the spills
                t.st.pop();
                t.spill_from(0);
                let (p, r) = t.block_type(blockty);
                let at = t.code.len();
                t.emit(ins(C::BrIfZ, 0, c, 0, 0, 0));
                t.ctl.push(Ctl {
                    is_loop: false,
                    height: t.st.len() - p.len(),
                    params: p.len(),
                    results: r,
                    start: 0,
                    patches: vec![],
                    else_patch: Some(at),
                    ptypes: p,
                });
            }
            Operator::Else => {
                if !dead {
                    t.spill_from(0);
                    let at = t.code.len();
                    t.emit(ins(C::Br, 0, 0, 0, 0, 0));
                    t.ctl.last_mut().unwrap().patches.push(at);
                }
                let here = t.code.len() as u32;
                let c = t.ctl.last_mut().unwrap();
                let at = c.else_patch.take().unwrap();
                let (h, pt) = (c.height, c.ptypes.clone());
                t.code[at].off = here;
                t.barrier = here as usize;
                t.st.truncate(h);
                for ty in pt {
                    t.push(Src::Slot, ty);
                }
                dead = false;
            }
            Operator::End => {
                if !dead {
                    t.spill_from(0);
                }
                let c = t.ctl.pop().unwrap();
                let here = t.code.len() as u32;
                if let Some(at) = c.else_patch {
                    t.code[at].off = here;
                }
                for at in &c.patches {
                    t.code[*at].off = here;
                }
                t.barrier = here as usize;
                t.st.truncate(c.height);
                for ty in &c.results {
                    t.push(Src::Slot, *ty);
                }
                dead = false;
                if t.ctl.is_empty() {
                    let n = c.results.len();
                    let s = t.nlocals;
                    t.emit(ins(C::Return, 0, s, n, 0, 0));
                    break;
                }
            }
            Operator::Br { relative_depth } => {
                t.spill_from(0);
                t.moves(relative_depth);
                t.jump(C::Br, 0, relative_depth);
                dead = true;
            }
            Operator::BrIf { relative_depth } => {
                let n = t.st.len() - 1;
                let c = t.reg_of(n);
                t.st.pop();
                t.spill_from(0);
                if t.needs_moves(relative_depth) {
                    let at = t.code.len();
                    t.emit(ins(C::BrIfZ, 0, c, 0, 0, 0));
                    t.moves(relative_depth);
                    t.jump(C::Br, 0, relative_depth);
                    t.code[at].off = t.code.len() as u32;
                    t.barrier = t.code.len();
                } else {
                    t.jump(C::BrIf, c, relative_depth);
                }
            }
            Operator::BrTable { ref targets } => {
                let n = t.st.len() - 1;
                let c = t.reg_of(n);
                t.st.pop();
                t.spill_from(0);
                let mut ds: Vec<u32> = targets.targets().map(|x| x.unwrap()).collect();
                ds.push(targets.default());
                let id = t.br_base + t.br_tables.len();
                t.br_tables.push(vec![0; ds.len()]);
                let local = t.br_tables.len() - 1;
                t.emit(ins(C::BrTable, 0, c, 0, id as u32, 0));
                // one stub per distinct depth
                let mut stubs: HashMap<u32, u32> = HashMap::new();
                for (i, d) in ds.iter().enumerate() {
                    let at = match stubs.get(d) {
                        Some(x) => *x,
                        None => {
                            let x = t.code.len() as u32;
                            t.moves(*d);
                            t.jump(C::Br, 0, *d);
                            stubs.insert(*d, x);
                            x
                        }
                    };
                    t.br_tables[local][i] = at;
                }
                dead = true;
            }
            Operator::Return => {
                t.spill_from(0);
                let n = sig.1.len();
                let s = t.slot(t.st.len() - n);
                t.emit(ins(C::Return, 0, s, n, 0, 0));
                dead = true;
            }
            Operator::Call { function_index } => {
                let s = m.sigs[m.func_sig[function_index as usize] as usize].clone();
                let from = t.st.len() - s.0.len();
                t.spill_from(from);
                t.st.truncate(from);
                let base = t.slot(from);
                t.emit(ins(C::Call, base, 0, 0, function_index, 0));
                for ty in s.1 {
                    t.push(Src::Slot, ty);
                }
            }
            Operator::CallIndirect { type_index, table_index } => {
                assert_eq!(table_index, 0);
                let s = m.sigs[type_index as usize].clone();
                let n = t.st.len() - 1;
                t.spill1(n);
                let idx = t.slot(n);
                t.st.pop();
                let from = t.st.len() - s.0.len();
                t.spill_from(from);
                t.st.truncate(from);
                let base = t.slot(from);
                t.emit(ins(C::CallIndirect, base, idx, 0, type_index, 0));
                for ty in s.1 {
                    t.push(Src::Slot, ty);
                }
            }
            Operator::Drop => {
                t.st.pop();
            }
            Operator::Select | Operator::TypedSelect { .. } => {
                let c = t.pop_reg();
                let ty = t.st.last().unwrap().1;
                let (b, k) = t.pop_src();
                let a = t.pop_reg();
                let d = t.push_slot(ty);
                let code = if matches!(ty, I64 | F64) { C::Sel64 } else { C::Sel32 };
                t.emit(ins(code, d, a, b, c as u32, k));
            }
            Operator::LocalGet { local_index } => t.push(Src::Local(local_index), ltypes[local_index as usize]),
            Operator::LocalSet { local_index } | Operator::LocalTee { local_index } => {
                let tee = matches!(op, Operator::LocalTee { .. });
                let i = t.st.len() - 1;
                let top = t.st.pop().unwrap();
                t.before_local_write(local_index);
                match top.0 {
                    Src::Local(l) if l == local_index => {}
                    Src::Local(l) => t.emit(ins(C::Mov, local_index as usize, l as usize, 0, 0, 0)),
                    Src::Const(k) => t.emit(ins(C::Const, local_index as usize, 0, 0, 0, k)),
                    Src::Slot => {
                        let s = t.slot(i);
                        // write the producer's result straight into the local
                        let n = t.code.len();
                        match t.code.last().copied() {
                            Some(x)
                                if x.d as usize == s
                                    && !tee_blocked(x.code)
                                    && n > t.barrier =>
                            {
                                t.code.last_mut().unwrap().d = local_index as u16;
                            }
                            _ => t.emit(ins(C::Mov, local_index as usize, s, 0, 0, 0)),
                        }
                    }
                }
                if tee {
                    t.push(Src::Local(local_index), top.1);
                }
            }
            Operator::GlobalGet { global_index } => {
                // types of globals: all i32 in practice; width is only needed for select
                let d = t.push_slot(I32);
                t.emit(ins(C::GlobalGet, d, 0, 0, global_index, 0));
            }
            Operator::GlobalSet { global_index } => {
                let a = t.pop_reg();
                t.emit(ins(C::GlobalSet, 0, a, 0, global_index, 0));
            }
            Operator::I32Const { value } => t.push(Src::Const(value as u32 as u64), I32),
            Operator::I64Const { value } => t.push(Src::Const(value as u64), I64),
            Operator::F32Const { value } => t.push(Src::Const(value.bits() as u64), F32),
            Operator::F64Const { value } => t.push(Src::Const(value.bits()), F64),
            Operator::I32Load { memarg } => t.load(C::I32Load, memarg.offset, I32),
            Operator::F32Load { memarg } => t.load(C::I32Load, memarg.offset, F32),
            Operator::I64Load { memarg } => t.load(C::I64Load, memarg.offset, I64),
            Operator::F64Load { memarg } => t.load(C::I64Load, memarg.offset, F64),
            Operator::I32Load8S { memarg } => t.load(C::I32Load8S, memarg.offset, I32),
            Operator::I32Load8U { memarg } => t.load(C::I32Load8U, memarg.offset, I32),
            Operator::I32Load16S { memarg } => t.load(C::I32Load16S, memarg.offset, I32),
            Operator::I32Load16U { memarg } => t.load(C::I32Load16U, memarg.offset, I32),
            Operator::I64Load8S { memarg } => t.load(C::I64Load8S, memarg.offset, I64),
            Operator::I64Load8U { memarg } => t.load(C::I64Load8U, memarg.offset, I64),
            Operator::I64Load16S { memarg } => t.load(C::I64Load16S, memarg.offset, I64),
            Operator::I64Load16U { memarg } => t.load(C::I64Load16U, memarg.offset, I64),
            Operator::I64Load32S { memarg } => t.load(C::I64Load32S, memarg.offset, I64),
            Operator::I64Load32U { memarg } => t.load(C::I64Load32U, memarg.offset, I64),
            Operator::I32Store { memarg } | Operator::F32Store { memarg } | Operator::I64Store32 { memarg } => t.store(C::Store32, memarg.offset),
            Operator::I64Store { memarg } | Operator::F64Store { memarg } => t.store(C::Store64, memarg.offset),
            Operator::I32Store8 { memarg } | Operator::I64Store8 { memarg } => t.store(C::Store8, memarg.offset),
            Operator::I32Store16 { memarg } | Operator::I64Store16 { memarg } => t.store(C::Store16, memarg.offset),
            Operator::MemorySize { .. } => {
                let d = t.push_slot(I32);
                t.emit(ins(C::MemSize, d, 0, 0, 0, 0));
            }
            Operator::MemoryGrow { .. } => t.un(C::MemGrow, I32),
            Operator::MemoryCopy { .. } => {
                let n = t.pop_reg();
                let (b, k) = {
                    let r = t.pop_reg();
                    (r, 0)
                };
                let a = t.pop_reg();
                t.emit(ins(C::MemCopy, 0, a, b, n as u32, k));
            }
            Operator::MemoryFill { .. } => {
                let n = t.pop_reg();
                let b = t.pop_reg();
                let a = t.pop_reg();
                t.emit(ins(C::MemFill, 0, a, b, n as u32, 0));
            }
            Operator::I32Eqz => u!(I32Eqz, I32),
            Operator::I64Eqz => u!(I64Eqz, I32),
            Operator::I32Eq => b!(I32Eq, I32),
            Operator::I32Ne => b!(I32Ne, I32),
            Operator::I32LtS => b!(I32LtS, I32),
            Operator::I32LtU => b!(I32LtU, I32),
            Operator::I32GtS => b!(I32GtS, I32),
            Operator::I32GtU => b!(I32GtU, I32),
            Operator::I32LeS => b!(I32LeS, I32),
            Operator::I32LeU => b!(I32LeU, I32),
            Operator::I32GeS => b!(I32GeS, I32),
            Operator::I32GeU => b!(I32GeU, I32),
            Operator::I64Eq => b!(I64Eq, I32),
            Operator::I64Ne => b!(I64Ne, I32),
            Operator::I64LtS => b!(I64LtS, I32),
            Operator::I64LtU => b!(I64LtU, I32),
            Operator::I64GtS => b!(I64GtS, I32),
            Operator::I64GtU => b!(I64GtU, I32),
            Operator::I64LeS => b!(I64LeS, I32),
            Operator::I64LeU => b!(I64LeU, I32),
            Operator::I64GeS => b!(I64GeS, I32),
            Operator::I64GeU => b!(I64GeU, I32),
            Operator::F32Eq => b!(F32Eq, I32),
            Operator::F32Ne => b!(F32Ne, I32),
            Operator::F32Lt => b!(F32Lt, I32),
            Operator::F32Gt => b!(F32Gt, I32),
            Operator::F32Le => b!(F32Le, I32),
            Operator::F32Ge => b!(F32Ge, I32),
            Operator::F64Eq => b!(F64Eq, I32),
            Operator::F64Ne => b!(F64Ne, I32),
            Operator::F64Lt => b!(F64Lt, I32),
            Operator::F64Gt => b!(F64Gt, I32),
            Operator::F64Le => b!(F64Le, I32),
            Operator::F64Ge => b!(F64Ge, I32),
            Operator::I32Clz => u!(I32Clz, I32),
            Operator::I32Ctz => u!(I32Ctz, I32),
            Operator::I32Popcnt => u!(I32Popcnt, I32),
            Operator::I64Clz => u!(I64Clz, I64),
            Operator::I64Ctz => u!(I64Ctz, I64),
            Operator::I64Popcnt => u!(I64Popcnt, I64),
            Operator::I32Add => b!(I32Add, I32),
            Operator::I32Sub => b!(I32Sub, I32),
            Operator::I32Mul => b!(I32Mul, I32),
            Operator::I32DivS => b!(I32DivS, I32),
            Operator::I32DivU => b!(I32DivU, I32),
            Operator::I32RemS => b!(I32RemS, I32),
            Operator::I32RemU => b!(I32RemU, I32),
            Operator::I32And => b!(I32And, I32),
            Operator::I32Or => b!(I32Or, I32),
            Operator::I32Xor => b!(I32Xor, I32),
            Operator::I32Shl => b!(I32Shl, I32),
            Operator::I32ShrS => b!(I32ShrS, I32),
            Operator::I32ShrU => b!(I32ShrU, I32),
            Operator::I32Rotl => b!(I32Rotl, I32),
            Operator::I32Rotr => b!(I32Rotr, I32),
            Operator::I64Add => b!(I64Add, I64),
            Operator::I64Sub => b!(I64Sub, I64),
            Operator::I64Mul => b!(I64Mul, I64),
            Operator::I64DivS => b!(I64DivS, I64),
            Operator::I64DivU => b!(I64DivU, I64),
            Operator::I64RemS => b!(I64RemS, I64),
            Operator::I64RemU => b!(I64RemU, I64),
            Operator::I64And => b!(I64And, I64),
            Operator::I64Or => b!(I64Or, I64),
            Operator::I64Xor => b!(I64Xor, I64),
            Operator::I64Shl => b!(I64Shl, I64),
            Operator::I64ShrS => b!(I64ShrS, I64),
            Operator::I64ShrU => b!(I64ShrU, I64),
            Operator::I64Rotl => b!(I64Rotl, I64),
            Operator::I64Rotr => b!(I64Rotr, I64),
            Operator::I32WrapI64 => u!(I32WrapI64, I32),
            Operator::I64ExtendI32S => u!(I64ExtI32S, I64),
            Operator::I64ExtendI32U => u!(I64ExtI32U, I64),
            Operator::I32Extend8S => u!(I32Ext8S, I32),
            Operator::I32Extend16S => u!(I32Ext16S, I32),
            Operator::I64Extend8S => u!(I64Ext8S, I64),
            Operator::I64Extend16S => u!(I64Ext16S, I64),
            Operator::I64Extend32S => u!(I64Ext32S, I64),
            Operator::I32ReinterpretF32 => t.st.last_mut().unwrap().1 = I32,
            Operator::I64ReinterpretF64 => t.st.last_mut().unwrap().1 = I64,
            Operator::F32ReinterpretI32 => t.st.last_mut().unwrap().1 = F32,
            Operator::F64ReinterpretI64 => t.st.last_mut().unwrap().1 = F64,
            Operator::F32Abs => u!(F32Abs, F32),
            Operator::F32Neg => u!(F32Neg, F32),
            Operator::F32Ceil => u!(F32Ceil, F32),
            Operator::F32Floor => u!(F32Floor, F32),
            Operator::F32Trunc => u!(F32Trunc, F32),
            Operator::F32Nearest => u!(F32Nearest, F32),
            Operator::F32Sqrt => u!(F32Sqrt, F32),
            Operator::F32Add => b!(F32Add, F32),
            Operator::F32Sub => b!(F32Sub, F32),
            Operator::F32Mul => b!(F32Mul, F32),
            Operator::F32Div => b!(F32Div, F32),
            Operator::F32Min => b!(F32Min, F32),
            Operator::F32Max => b!(F32Max, F32),
            Operator::F32Copysign => b!(F32Copysign, F32),
            Operator::F64Abs => u!(F64Abs, F64),
            Operator::F64Neg => u!(F64Neg, F64),
            Operator::F64Ceil => u!(F64Ceil, F64),
            Operator::F64Floor => u!(F64Floor, F64),
            Operator::F64Trunc => u!(F64Trunc, F64),
            Operator::F64Nearest => u!(F64Nearest, F64),
            Operator::F64Sqrt => u!(F64Sqrt, F64),
            Operator::F64Add => b!(F64Add, F64),
            Operator::F64Sub => b!(F64Sub, F64),
            Operator::F64Mul => b!(F64Mul, F64),
            Operator::F64Div => b!(F64Div, F64),
            Operator::F64Min => b!(F64Min, F64),
            Operator::F64Max => b!(F64Max, F64),
            Operator::F64Copysign => b!(F64Copysign, F64),
            Operator::I32TruncF32S => u!(I32TruncF32S, I32),
            Operator::I32TruncF32U => u!(I32TruncF32U, I32),
            Operator::I32TruncF64S => u!(I32TruncF64S, I32),
            Operator::I32TruncF64U => u!(I32TruncF64U, I32),
            Operator::I64TruncF32S => u!(I64TruncF32S, I64),
            Operator::I64TruncF32U => u!(I64TruncF32U, I64),
            Operator::I64TruncF64S => u!(I64TruncF64S, I64),
            Operator::I64TruncF64U => u!(I64TruncF64U, I64),
            Operator::I32TruncSatF32S => u!(I32SatF32S, I32),
            Operator::I32TruncSatF32U => u!(I32SatF32U, I32),
            Operator::I32TruncSatF64S => u!(I32SatF64S, I32),
            Operator::I32TruncSatF64U => u!(I32SatF64U, I32),
            Operator::I64TruncSatF32S => u!(I64SatF32S, I64),
            Operator::I64TruncSatF32U => u!(I64SatF32U, I64),
            Operator::I64TruncSatF64S => u!(I64SatF64S, I64),
            Operator::I64TruncSatF64U => u!(I64SatF64U, I64),
            Operator::F32ConvertI32S => u!(F32ConvI32S, F32),
            Operator::F32ConvertI32U => u!(F32ConvI32U, F32),
            Operator::F32ConvertI64S => u!(F32ConvI64S, F32),
            Operator::F32ConvertI64U => u!(F32ConvI64U, F32),
            Operator::F64ConvertI32S => u!(F64ConvI32S, F64),
            Operator::F64ConvertI32U => u!(F64ConvI32U, F64),
            Operator::F64ConvertI64S => u!(F64ConvI64S, F64),
            Operator::F64ConvertI64U => u!(F64ConvI64U, F64),
            Operator::F32DemoteF64 => u!(F32Demote, F32),
            Operator::F64PromoteF32 => u!(F64Promote, F64),
            other => panic!("wsym: unsupported wasm operator {other:?} in {}", m.funcs[fi].name),
        }
    }
    let nregs = (t.nlocals + t.max + 1) as u32;
    (t.code, t.nlocals as u32, nregs, t.br_tables)
}

/// Instructions whose `d` is not a plain result register.
fn tee_blocked(c: C) -> bool {
    matches!(
        c,
        C::Br | C::BrIf
            | C::BrIfZ
            | C::BrTable
            | C::Return
            | C::Call
            | C::CallIndirect
            | C::Unreachable
            | C::GlobalSet
            | C::MemCopy
            | C::MemFill
            | C::Store8
            | C::Store16
            | C::Store32
            | C::Store64
            | C::Mov
            | C::Const
    )
}
pub fn load(bytes: &[u8]) -> Module {
    let mut m = Module {
        funcs: vec![],
        sigs: vec![],
        func_sig: vec![],
        table: vec![],
        globals: vec![],
        mem_pages: 0,
        data: vec![],
        exports: HashMap::new(),
        br_tables: vec![],
    };
    let const_expr = |e: &wasmparser::ConstExpr, globals: &[u64]| -> u64 {
        let mut r = e.get_operators_reader();
        match r.read().unwrap() {
            Operator::I32Const { value } => value as u32 as u64,
            Operator::I64Const { value } => value as u64,
            Operator::F64Const { value } => value.bits(),
            Operator::F32Const { value } => value.bits() as u64,
            Operator::GlobalGet { global_index } => globals[global_index as usize],
            o => panic!("wsym: constant expression {o:?}"),
        }
    };
    let mut bodies = vec![];
    let mut nimports = 0;
    let mut names: HashMap<u32, String> = HashMap::new();
    for p in Parser::new(0).parse_all(bytes) {
        match p.expect("valid wasm") {
            Payload::TypeSection(r) => {
                for g in r.into_iter_err_on_gc_types() {
                    let f = g.unwrap();
                    m.sigs.push((f.params().to_vec(), f.results().to_vec()));
                }
            }
            Payload::ImportSection(r) => {
                for i in r {
                    let i = i.unwrap();
                    match i.ty {
                        wasmparser::TypeRef::Func(s) => {
                            m.func_sig.push(s);
                            let (p, q) = &m.sigs[s as usize];
                            m.funcs.push(Func {
                                name: format!("{}.{}", i.module, i.name),
                                nparams: p.len() as u32,
                                nresults: q.len() as u32,
                                nlocals: 0,
                                nregs: 0,
                                code: vec![],
                                import: Some((i.module.to_string(), i.name.to_string())),
                                builtin: None,
                            });
                            nimports += 1;
                        }
                        t => panic!("wsym: unsupported import {t:?}"),
                    }
                }
            }
            Payload::FunctionSection(r) => {
                for s in r {
                    let s = s.unwrap();
                    m.func_sig.push(s);
                    let (p, q) = &m.sigs[s as usize];
                    m.funcs.push(Func {
                        name: String::new(),
                        nparams: p.len() as u32,
                        nresults: q.len() as u32,
                        nlocals: 0,
                        nregs: 0,
                        code: vec![],
                        import: None,
                        builtin: None,
                    });
                }
            }
            Payload::TableSection(r) => {
                for t in r {
                    let t = t.unwrap();
                    m.table.resize(t.ty.initial as usize, None);
                }
            }
            Payload::MemorySection(r) => {
                for t in r {
                    m.mem_pages = t.unwrap().initial as u32;
                }
            }
            Payload::GlobalSection(r) => {
                for g in r {
                    let g = g.unwrap();
                    let v = const_expr(&g.init_expr, &m.globals);
                    m.globals.push(v);
                }
            }
            Payload::ExportSection(r) => {
                for e in r {
                    let e = e.unwrap();
                    if e.kind == ExternalKind::Func {
                        m.exports.insert(e.name.to_string(), e.index);
                    }
                }
            }
            Payload::ElementSection(r) => {
                for e in r {
                    let e = e.unwrap();
                    if let wasmparser::ElementKind::Active { offset_expr, .. } = e.kind {
                        let off = const_expr(&offset_expr, &m.globals) as usize;
                        if let wasmparser::ElementItems::Functions(fs) = e.items {
                            for (i, f) in fs.into_iter().enumerate() {
                                m.table[off + i] = Some(f.unwrap());
                            }
                        } else {
                            panic!("wsym: element expressions");
                        }
                    }
                }
            }
            Payload::DataSection(r) => {
                for d in r {
                    let d = d.unwrap();
                    if let wasmparser::DataKind::Active { offset_expr, .. } = d.kind {
                        let off = const_expr(&offset_expr, &m.globals) as u32;
                        m.data.push((off, d.data.to_vec()));
                    } else {
                        panic!("wsym: passive data segment");
                    }
                }
            }
            Payload::CodeSectionEntry(b) => bodies.push(b),
            Payload::CustomSection(c) => {
                if let wasmparser::KnownCustom::Name(r) = c.as_known() {
                    for n in r {
                        if let Ok(wasmparser::Name::Function(map)) = n {
                            for x in map {
                                let x = x.unwrap();
                                names.insert(x.index, x.name.to_string());
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for (i, n) in names {
        m.funcs[i as usize].name = n;
    }
    for (i, b) in bodies.iter().enumerate() {
        let fi = nimports + i;
        let base = m.br_tables.len();
        let (code, nl, nr, bt) = translate(&m, fi, b, base);
        let f = &mut m.funcs[fi];
        f.code = code;
        f.nlocals = nl;
        f.nregs = nr;
        f.builtin = match f.name.as_str() {
            "memcpy" => Some("memcpy"),
            "memmove" => Some("memmove"),
            "memset" => Some("memset"),
            "memcmp" => Some("memcmp"),
            "bcmp" => Some("memcmp"),
            n if n.starts_with("_ZN3std4time10SystemTime3now17h") => Some("now"),
            _ => None,
        };
        m.br_tables.extend(bt);
    }
    m
}
