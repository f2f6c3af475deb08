//! An interpreter for the instructions the back end emits, from the WebAssembly specification,
//! used to observe what lowered code does. Operand types are checked, so code that would not
//! validate is reported as an error.
use crate::cc;
use cc::back_end::wasm_indices::WasmIdx;
use cc::back_end::wasm_instructions::*;
use cc::back_end::wasm_types::*;

#[derive(Clone, Copy, Debug)]
pub enum V { I(i32), L(i64), F(f32), D(f64) }
impl V {
    pub fn bits(&self) -> (u8, u64) {
        match *self { V::I(x) => (0, x as u32 as u64), V::L(x) => (1, x as u64), V::F(x) => (2, x.to_bits() as u64), V::D(x) => (3, x.to_bits()) }
    }
    pub fn ty(&self) -> u8 { self.bits().0 }
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::F(a), V::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (V::D(a), V::D(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            _ => self.bits() == o.bits(),
        }
    }
}
pub enum Flow { Next, Br(u32), Return }
/// Trap: the specification makes the operation trap. Invalid: the code would not validate.
#[derive(Debug, Clone, PartialEq)]
pub enum Stop { Trap(String), Invalid(String), Fuel }
type R<T> = Result<T, Stop>;

pub struct Machine<'a> {
    pub mem: Vec<u8>,
    pub locals: Vec<V>,
    pub stack: Vec<V>,
    pub fuel: u64,
    pub calls: Vec<u32>,
    /// called functions act on the memory
    pub callee: Option<Box<dyn FnMut(u32, &mut Vec<u8>) -> R<()> + 'a>>,
    /// bodies of defined functions by index (locals are none: all state is in memory)
    pub bodies: std::collections::HashMap<u32, std::rc::Rc<Vec<WasmInstruction>>>,
    pub depth: u32,
}
fn inv<T>(m: impl Into<String>) -> R<T> { Err(Stop::Invalid(m.into())) }
fn trap<T>(m: &str) -> R<T> { Err(Stop::Trap(m.into())) }

impl<'a> Machine<'a> {
    pub fn new(size: usize) -> Self {
        Machine { mem: vec![0; size], locals: vec![], stack: vec![], fuel: 10_000_000, calls: vec![], callee: None, bodies: Default::default(), depth: 0 }
    }
    pub fn rd(&self, a: u32, n: usize) -> u64 { let mut v = 0; for i in (0..n).rev() { v = v << 8 | self.mem[a as usize + i] as u64 } v }
    pub fn wr(&mut self, a: u32, n: usize, v: u64) { for i in 0..n { self.mem[a as usize + i] = (v >> (8 * i)) as u8 } }
    fn pop(&mut self) -> R<V> { self.stack.pop().ok_or(Stop::Invalid("operand stack underflow".into())) }
    fn i(&mut self) -> R<i32> { match self.pop()? { V::I(x) => Ok(x), v => inv(format!("i32 operand expected, {v:?} found")) } }
    fn l(&mut self) -> R<i64> { match self.pop()? { V::L(x) => Ok(x), v => inv(format!("i64 operand expected, {v:?} found")) } }
    fn f(&mut self) -> R<f32> { match self.pop()? { V::F(x) => Ok(x), v => inv(format!("f32 operand expected, {v:?} found")) } }
    fn d(&mut self) -> R<f64> { match self.pop()? { V::D(x) => Ok(x), v => inv(format!("f64 operand expected, {v:?} found")) } }
    fn addr(&mut self, m: &MemArg, n: usize) -> R<u32> {
        if m.align > n.trailing_zeros() { return inv("alignment larger than natural"); }
        let a = self.i()? as u32 as u64 + m.offset as u64;
        if a + n as u64 > self.mem.len() as u64 { return trap("out of bounds memory access"); }
        Ok(a as u32)
    }
    fn ld(&mut self, m: &MemArg, n: usize) -> R<u64> { let a = self.addr(m, n)?; Ok(self.rd(a, n)) }
    fn st(&mut self, m: &MemArg, n: usize, v: u64) -> R<()> { let a = self.addr(m, n)?; self.wr(a, n, v); Ok(()) }

    fn block_arity(&self, b: &BlockType) -> R<usize> {
        match b { BlockType::None => Ok(0), BlockType::ValType(_) => Ok(1), BlockType::TypeIndex(_) => inv("block type index") }
    }
    fn body(&mut self, b: &BlockType, is: &[WasmInstruction], is_loop: bool) -> R<Flow> {
        let n = self.block_arity(b)?;
        let saved = std::mem::take(&mut self.stack);
        loop {
            self.stack.clear();
            let fl = self.run(is)?;
            match fl {
                Flow::Br(0) if is_loop => continue,
                Flow::Br(k) if k > 0 => { self.stack = saved; return Ok(Flow::Br(k - 1)); }
                Flow::Return => { return Ok(Flow::Return); }
                fl => {
                    let falls = matches!(fl, Flow::Next);
                    if falls && self.stack.len() != n { return inv(format!("block leaves {} values, declares {n}", self.stack.len())); }
                    if self.stack.len() < n { return inv("too few block results"); }
                    let res = self.stack.split_off(self.stack.len() - n);
                    if let BlockType::ValType(ValType::NumType(t)) = b {
                        let want = match t { NumType::I32 => 0, NumType::I64 => 1, NumType::F32 => 2, NumType::F64 => 3 };
                        if res[0].ty() != want { return inv("block result type"); }
                    }
                    self.stack = saved;
                    self.stack.extend(res);
                    return Ok(Flow::Next);
                }
            }
        }
    }
    pub fn call(&mut self, x: u32) -> R<()> {
        self.calls.push(x);
        if let Some(b) = self.bodies.get(&x).cloned() {
            self.depth += 1;
            if self.depth > 2000 { return Err(Stop::Fuel); }
            let saved = std::mem::take(&mut self.stack);
            let locals = std::mem::take(&mut self.locals);
            match self.run(&b)? {
                Flow::Br(k) if k > 0 => return inv("branch out of function"),
                _ => {}
            }
            self.locals = locals;
            self.stack = saved;
            self.depth -= 1;
            Ok(())
        } else if let Some(mut f) = self.callee.take() {
            let r = f(x, &mut self.mem);
            self.callee = Some(f);
            r
        } else { Ok(()) }
    }
    pub fn run(&mut self, is: &[WasmInstruction]) -> R<Flow> {
        use WasmInstruction as W;
        for w in is {
            if self.fuel == 0 { return Err(Stop::Fuel); }
            self.fuel -= 1;
            macro_rules! un { ($p:ident, $c:path, $e:expr) => {{ let a = self.$p()?; self.stack.push($c($e(a))) }}; }
            macro_rules! bin { ($p:ident, $c:path, $e:expr) => {{ let b = self.$p()?; let a = self.$p()?; self.stack.push($c($e(a, b))) }}; }
            macro_rules! tr { ($p:ident, $c:path, $lo:expr, $hi:expr, $t:ty, $u:ty) => {{
                let a = self.$p()? as f64;
                if a.is_nan() { return trap("invalid conversion to integer"); }
                let t = a.trunc();
                if t < $lo || t > $hi { return trap("integer overflow"); }
                self.stack.push($c(t as $t as $u))
            }}; }
            match w {
                W::Unreachable => return trap("unreachable"),
                W::Nop => {}
                W::Block { blocktype, instrs } => match self.body(blocktype, instrs, false)? { Flow::Next => {} f => return Ok(f) },
                W::Loop { blocktype, instrs } => match self.body(blocktype, instrs, true)? { Flow::Next => {} f => return Ok(f) },
                W::IfElse { blocktype, if_instrs, else_instrs } => {
                    let c = self.i()?;
                    match self.body(blocktype, if c != 0 { if_instrs } else { else_instrs }, false)? { Flow::Next => {} f => return Ok(f) }
                }
                W::Br { label_idx } => return Ok(Flow::Br(label_idx.l)),
                W::BrIf { label_idx } => if self.i()? != 0 { return Ok(Flow::Br(label_idx.l)); },
                W::BrTable { labels, label_idx } => {
                    let k = self.i()? as u32 as usize;
                    return Ok(Flow::Br(if k < labels.len() { labels[k].l } else { label_idx.l }));
                }
                W::Return => return Ok(Flow::Return),
                W::Call { func_idx } => self.call(func_idx.x)?,
                W::Drop => { self.pop()?; }
                W::Select => { let c = self.i()?; let b = self.pop()?; let a = self.pop()?; if a.ty() != b.ty() { return inv("select types"); } self.stack.push(if c != 0 { a } else { b }) }
                W::LocalGet { local_idx } => { let v = *self.locals.get(local_idx.x as usize).ok_or(Stop::Invalid("local".into()))?; self.stack.push(v) }
                W::LocalSet { local_idx } => { let v = self.pop()?; let k = local_idx.x as usize; if k >= self.locals.len() { return inv("local"); } self.locals[k] = v }
                W::LocalTee { local_idx } => { let v = self.pop()?; let k = local_idx.x as usize; if k >= self.locals.len() { return inv("local"); } self.locals[k] = v; self.stack.push(v) }
                W::I32Load { mem_arg } => { let v = self.ld(mem_arg, 4)?; self.stack.push(V::I(v as i32)) }
                W::I64Load { mem_arg } => { let v = self.ld(mem_arg, 8)?; self.stack.push(V::L(v as i64)) }
                W::F32Load { mem_arg } => { let v = self.ld(mem_arg, 4)?; self.stack.push(V::F(f32::from_bits(v as u32))) }
                W::F64Load { mem_arg } => { let v = self.ld(mem_arg, 8)?; self.stack.push(V::D(f64::from_bits(v))) }
                W::I32Load8S { mem_arg } => { let v = self.ld(mem_arg, 1)?; self.stack.push(V::I(v as i8 as i32)) }
                W::I32Load8U { mem_arg } => { let v = self.ld(mem_arg, 1)?; self.stack.push(V::I(v as i32)) }
                W::I32Load16S { mem_arg } => { let v = self.ld(mem_arg, 2)?; self.stack.push(V::I(v as i16 as i32)) }
                W::I32Load16U { mem_arg } => { let v = self.ld(mem_arg, 2)?; self.stack.push(V::I(v as i32)) }
                W::I64Load8S { mem_arg } => { let v = self.ld(mem_arg, 1)?; self.stack.push(V::L(v as i8 as i64)) }
                W::I64Load8U { mem_arg } => { let v = self.ld(mem_arg, 1)?; self.stack.push(V::L(v as i64)) }
                W::I64Load16S { mem_arg } => { let v = self.ld(mem_arg, 2)?; self.stack.push(V::L(v as i16 as i64)) }
                W::I64Load16U { mem_arg } => { let v = self.ld(mem_arg, 2)?; self.stack.push(V::L(v as i64)) }
                W::I64Load32S { mem_arg } => { let v = self.ld(mem_arg, 4)?; self.stack.push(V::L(v as i32 as i64)) }
                W::I64Load32U { mem_arg } => { let v = self.ld(mem_arg, 4)?; self.stack.push(V::L(v as i64)) }
                W::I32Store { mem_arg } => { let v = self.i()?; self.st(mem_arg, 4, v as u64)? }
                W::I64Store { mem_arg } => { let v = self.l()?; self.st(mem_arg, 8, v as u64)? }
                W::F32Store { mem_arg } => { let v = self.f()?; self.st(mem_arg, 4, v.to_bits() as u64)? }
                W::F64Store { mem_arg } => { let v = self.d()?; self.st(mem_arg, 8, v.to_bits())? }
                W::I32Store8 { mem_arg } => { let v = self.i()?; self.st(mem_arg, 1, v as u64)? }
                W::I32Store16 { mem_arg } => { let v = self.i()?; self.st(mem_arg, 2, v as u64)? }
                W::I64Store8 { mem_arg } => { let v = self.l()?; self.st(mem_arg, 1, v as u64)? }
                W::I64Store16 { mem_arg } => { let v = self.l()?; self.st(mem_arg, 2, v as u64)? }
                W::I64Store32 { mem_arg } => { let v = self.l()?; self.st(mem_arg, 4, v as u64)? }
                W::MemorySize => { let n = (self.mem.len() / 65536) as i32; self.stack.push(V::I(n)) }
                W::MemoryCopy => {
                    let n = self.i()? as u32 as u64; let s = self.i()? as u32 as u64; let d = self.i()? as u32 as u64;
                    let len = self.mem.len() as u64;
                    if s + n > len || d + n > len { return trap("out of bounds memory access"); }
                    self.mem.copy_within(s as usize..(s + n) as usize, d as usize);
                }
                W::MemoryFill => {
                    let n = self.i()? as u32 as u64; let v = self.i()?; let d = self.i()? as u32 as u64;
                    if d + n > self.mem.len() as u64 { return trap("out of bounds memory access"); }
                    self.mem[d as usize..(d + n) as usize].fill(v as u8);
                }
                W::I32Const { n } => self.stack.push(V::I(*n)),
                W::I64Const { n } => self.stack.push(V::L(*n)),
                W::F32Const { z } => self.stack.push(V::F(*z)),
                W::F64Const { z } => self.stack.push(V::D(*z)),
                W::I32Eqz => un!(i, V::I, |a| (a == 0) as i32),
                W::I64Eqz => un!(l, V::I, |a| (a == 0) as i32),
                W::I32Eq => bin!(i, V::I, |a, b| (a == b) as i32),
                W::I32Ne => bin!(i, V::I, |a, b| (a != b) as i32),
                W::I32LtS => bin!(i, V::I, |a, b| (a < b) as i32),
                W::I32LtU => bin!(i, V::I, |a, b| ((a as u32) < b as u32) as i32),
                W::I32GtS => bin!(i, V::I, |a, b| (a > b) as i32),
                W::I32GtU => bin!(i, V::I, |a, b| (a as u32 > b as u32) as i32),
                W::I32LeS => bin!(i, V::I, |a, b| (a <= b) as i32),
                W::I32LeU => bin!(i, V::I, |a, b| (a as u32 <= b as u32) as i32),
                W::I32GeS => bin!(i, V::I, |a, b| (a >= b) as i32),
                W::I32GeU => bin!(i, V::I, |a, b| (a as u32 >= b as u32) as i32),
                W::I64Eq => bin!(l, V::I, |a, b| (a == b) as i32),
                W::I64Ne => bin!(l, V::I, |a, b| (a != b) as i32),
                W::I64LtS => bin!(l, V::I, |a, b| (a < b) as i32),
                W::I64LtU => bin!(l, V::I, |a, b| ((a as u64) < b as u64) as i32),
                W::I64GtS => bin!(l, V::I, |a, b| (a > b) as i32),
                W::I64GtU => bin!(l, V::I, |a, b| (a as u64 > b as u64) as i32),
                W::I64LeS => bin!(l, V::I, |a, b| (a <= b) as i32),
                W::I64LeU => bin!(l, V::I, |a, b| (a as u64 <= b as u64) as i32),
                W::I64GeS => bin!(l, V::I, |a, b| (a >= b) as i32),
                W::I64GeU => bin!(l, V::I, |a, b| (a as u64 >= b as u64) as i32),
                W::F32Eq => bin!(f, V::I, |a, b| (a == b) as i32),
                W::F32Ne => bin!(f, V::I, |a, b| (a != b) as i32),
                W::F32Lt => bin!(f, V::I, |a, b| (a < b) as i32),
                W::F32Gt => bin!(f, V::I, |a, b| (a > b) as i32),
                W::F32Le => bin!(f, V::I, |a, b| (a <= b) as i32),
                W::F32Ge => bin!(f, V::I, |a, b| (a >= b) as i32),
                W::F64Eq => bin!(d, V::I, |a, b| (a == b) as i32),
                W::F64Ne => bin!(d, V::I, |a, b| (a != b) as i32),
                W::F64Lt => bin!(d, V::I, |a, b| (a < b) as i32),
                W::F64Gt => bin!(d, V::I, |a, b| (a > b) as i32),
                W::F64Le => bin!(d, V::I, |a, b| (a <= b) as i32),
                W::F64Ge => bin!(d, V::I, |a, b| (a >= b) as i32),
                W::I32Clz => un!(i, V::I, |a: i32| a.leading_zeros() as i32),
                W::I32Ctz => un!(i, V::I, |a: i32| a.trailing_zeros() as i32),
                W::I32PopCnt => un!(i, V::I, |a: i32| a.count_ones() as i32),
                W::I32Add => bin!(i, V::I, i32::wrapping_add),
                W::I32Sub => bin!(i, V::I, i32::wrapping_sub),
                W::I32Mul => bin!(i, V::I, i32::wrapping_mul),
                W::I32DivS | W::I32DivU | W::I32RemS | W::I32RemU => {
                    let b = self.i()?; let a = self.i()?;
                    if b == 0 { return trap("integer divide by zero"); }
                    if matches!(w, W::I32DivS) && a == i32::MIN && b == -1 { return trap("integer overflow"); }
                    self.stack.push(V::I(match w { W::I32DivS => a / b, W::I32DivU => (a as u32 / b as u32) as i32, W::I32RemS => a.wrapping_rem(b), _ => (a as u32 % b as u32) as i32 }))
                }
                W::I64DivS | W::I64DivU | W::I64RemS | W::I64RemU => {
                    let b = self.l()?; let a = self.l()?;
                    if b == 0 { return trap("integer divide by zero"); }
                    if matches!(w, W::I64DivS) && a == i64::MIN && b == -1 { return trap("integer overflow"); }
                    self.stack.push(V::L(match w { W::I64DivS => a / b, W::I64DivU => (a as u64 / b as u64) as i64, W::I64RemS => a.wrapping_rem(b), _ => (a as u64 % b as u64) as i64 }))
                }
                W::I32And => bin!(i, V::I, |a, b| a & b),
                W::I32Or => bin!(i, V::I, |a, b| a | b),
                W::I32Xor => bin!(i, V::I, |a, b| a ^ b),
                W::I32Shl => bin!(i, V::I, |a: i32, b: i32| a.wrapping_shl(b as u32)),
                W::I32ShrS => bin!(i, V::I, |a: i32, b: i32| a.wrapping_shr(b as u32)),
                W::I32ShrU => bin!(i, V::I, |a: i32, b: i32| (a as u32).wrapping_shr(b as u32) as i32),
                W::I32RotL => bin!(i, V::I, |a: i32, b: i32| a.rotate_left(b as u32 & 31)),
                W::I32RotR => bin!(i, V::I, |a: i32, b: i32| a.rotate_right(b as u32 & 31)),
                W::I64Clz => un!(l, V::L, |a: i64| a.leading_zeros() as i64),
                W::I64Ctz => un!(l, V::L, |a: i64| a.trailing_zeros() as i64),
                W::I64PopCnt => un!(l, V::L, |a: i64| a.count_ones() as i64),
                W::I64Add => bin!(l, V::L, i64::wrapping_add),
                W::I64Sub => bin!(l, V::L, i64::wrapping_sub),
                W::I64Mul => bin!(l, V::L, i64::wrapping_mul),
                W::I64And => bin!(l, V::L, |a, b| a & b),
                W::I64Or => bin!(l, V::L, |a, b| a | b),
                W::I64Xor => bin!(l, V::L, |a, b| a ^ b),
                W::I64Shl => bin!(l, V::L, |a: i64, b: i64| a.wrapping_shl(b as u32)),
                W::I64ShrS => bin!(l, V::L, |a: i64, b: i64| a.wrapping_shr(b as u32)),
                W::I64ShrU => bin!(l, V::L, |a: i64, b: i64| (a as u64).wrapping_shr(b as u32) as i64),
                W::I64RotL => bin!(l, V::L, |a: i64, b: i64| a.rotate_left(b as u32 & 63)),
                W::I64RotR => bin!(l, V::L, |a: i64, b: i64| a.rotate_right(b as u32 & 63)),
                W::F32Abs => un!(f, V::F, |a: f32| a.abs()),
                W::F32Neg => un!(f, V::F, |a: f32| -a),
                W::F32Ceil => un!(f, V::F, |a: f32| a.ceil()),
                W::F32Floor => un!(f, V::F, |a: f32| a.floor()),
                W::F32Trunc => un!(f, V::F, |a: f32| a.trunc()),
                W::F32Sqrt => un!(f, V::F, |a: f32| a.sqrt()),
                W::F32Add => bin!(f, V::F, |a, b| a + b),
                W::F32Sub => bin!(f, V::F, |a, b| a - b),
                W::F32Mul => bin!(f, V::F, |a, b| a * b),
                W::F32Div => bin!(f, V::F, |a, b| a / b),
                W::F32CopySign => bin!(f, V::F, |a: f32, b: f32| a.copysign(b)),
                W::F64Abs => un!(d, V::D, |a: f64| a.abs()),
                W::F64Neg => un!(d, V::D, |a: f64| -a),
                W::F64Ceil => un!(d, V::D, |a: f64| a.ceil()),
                W::F64Floor => un!(d, V::D, |a: f64| a.floor()),
                W::F64Trunc => un!(d, V::D, |a: f64| a.trunc()),
                W::F64Sqrt => un!(d, V::D, |a: f64| a.sqrt()),
                W::F64Add => bin!(d, V::D, |a, b| a + b),
                W::F64Sub => bin!(d, V::D, |a, b| a - b),
                W::F64Mul => bin!(d, V::D, |a, b| a * b),
                W::F64Div => bin!(d, V::D, |a, b| a / b),
                W::F64CopySign => bin!(d, V::D, |a: f64, b: f64| a.copysign(b)),
                W::I32WrapI64 => un!(l, V::I, |a| a as i32),
                W::I32TruncF32S => tr!(f, V::I, -2147483648.0, 2147483647.0, i32, i32),
                W::I32TruncF32U => tr!(f, V::I, 0.0, 4294967295.0, u32, i32),
                W::I32TruncF64S => tr!(d, V::I, -2147483648.0, 2147483647.0, i32, i32),
                W::I32TruncF64U => tr!(d, V::I, 0.0, 4294967295.0, u32, i32),
                W::I64ExtendI32S => un!(i, V::L, |a| a as i64),
                W::I64ExtendI32U => un!(i, V::L, |a| a as u32 as i64),
                W::I64TruncF32S => tr!(f, V::L, -9223372036854775808.0, 9223372036854774784.0, i64, i64),
                W::I64TruncF32U => tr!(f, V::L, 0.0, 18446744073709549568.0, u64, i64),
                W::I64TruncF64S => tr!(d, V::L, -9223372036854775808.0, 9223372036854774784.0, i64, i64),
                W::I64TruncF64U => tr!(d, V::L, 0.0, 18446744073709549568.0, u64, i64),
                W::F32ConvertI32S => un!(i, V::F, |a| a as f32),
                W::F32ConvertI32U => un!(i, V::F, |a| a as u32 as f32),
                W::F32ConvertI64S => un!(l, V::F, |a| a as f32),
                W::F32ConvertI64U => un!(l, V::F, |a| a as u64 as f32),
                W::F32DemoteF64 => un!(d, V::F, |a| a as f32),
                W::F64ConvertI32S => un!(i, V::D, |a| a as f64),
                W::F64ConvertI32U => un!(i, V::D, |a| a as u32 as f64),
                W::F64ConvertI64S => un!(l, V::D, |a| a as f64),
                W::F64ConvertI64U => un!(l, V::D, |a| a as u64 as f64),
                W::F64PromoteF32 => un!(f, V::D, |a| a as f64),
                W::I32ReinterpretF32 => un!(f, V::I, |a: f32| a.to_bits() as i32),
                W::I64ReinterpretF64 => un!(d, V::L, |a: f64| a.to_bits() as i64),
                W::F32ReinterpretI32 => un!(i, V::F, |a| f32::from_bits(a as u32)),
                W::F64ReinterpretI64 => un!(l, V::D, |a| f64::from_bits(a as u64)),
                W::I32Extend8S => un!(i, V::I, |a| a as i8 as i32),
                W::I32Extend16S => un!(i, V::I, |a| a as i16 as i32),
                W::I64Extend8S => un!(l, V::L, |a| a as i8 as i64),
                W::I64Extend16S => un!(l, V::L, |a| a as i16 as i64),
                W::I64Extend32S => un!(l, V::L, |a| a as i32 as i64),
                W::I32TruncSatF32S => un!(f, V::I, |a| a as i32),
                W::I32TruncSatF32U => un!(f, V::I, |a| a as u32 as i32),
                W::I32TruncSatF64S => un!(d, V::I, |a| a as i32),
                W::I32TruncSatF64U => un!(d, V::I, |a| a as u32 as i32),
                W::I64TruncSatF32S => un!(f, V::L, |a| a as i64),
                W::I64TruncSatF32U => un!(f, V::L, |a| a as u64 as i64),
                W::I64TruncSatF64S => un!(d, V::L, |a| a as i64),
                W::I64TruncSatF64U => un!(d, V::L, |a| a as u64 as i64),
                other => return inv(format!("instruction outside the interpreter: {other:?}")),
            }
        }
        Ok(Flow::Next)
    }
}
