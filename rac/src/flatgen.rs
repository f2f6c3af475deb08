//! Random flat instruction lists (before control flow is structured): labels, jumps, calls and returns among other instructions.
use crate::blockgen::*;
use crate::cc;
use cc::middle_end::ids::*;
use cc::middle_end::instructions::*;

pub fn text(s: &[Instruction]) -> String { s.iter().map(|i| format!("{i:?}")).collect::<Vec<_>>().join("; ") }
pub fn target(i: &Instruction) -> Option<LabelId> { match i { Instruction::Br(_, l) | Instruction::BrIfEq(_, _, _, l) | Instruction::BrIfNotEq(_, _, _, l) => Some(l.clone()), _ => None } }
pub fn label(i: &Instruction) -> Option<LabelId> { match i { Instruction::Label(_, l) => Some(l.clone()), _ => None } }
impl BG {
    /// `n` instructions with labels out of `labels`; jumps go to those labels, which all occur (unless `loose`); labels occur at most once
    pub fn flat(&mut self, n: u64, labels: u64, loose: bool) -> Vec<Instruction> {
        let ls: Vec<LabelId> = (0..labels).map(|_| self.meta.new_label()).collect();
        let mut s = vec![];
        for _ in 0..n {
            let i = self.meta.new_instr_id();
            let jump = self.r.chance(1, 3) && labels > 0;
            if jump {
                let l = self.r.pick(&ls).clone();
                let v = self.r.pick(&self.vars).clone();
                s.push(match self.r.below(3) { 0 => Instruction::Br(i, l), 1 => Instruction::BrIfEq(i, Src::Var(v), Src::Constant(Constant::Int(0)), l), _ => Instruction::BrIfNotEq(i, Src::Var(v), Src::Constant(Constant::Int(0)), l) });
            } else {
                match self.r.below(8) {
                    0 => s.push(Instruction::Nop(i)),
                    1 => { let v = Src::Var(self.r.pick(&self.vars).clone()); s.push(if self.r.chance(1, 3) { Instruction::Ret(i, None) } else { Instruction::Ret(i, Some(v)) }) }
                    2 => { let v = self.r.pick(&self.vars).clone(); let a = (0..self.r.below(4)).map(|_| Src::Var(self.r.pick(&self.vars).clone())).collect(); let f = nth(self.r.below(self.funs)); s.push(Instruction::Call(i, v.clone(), f, a)); if self.r.chance(2, 3) { let j = self.meta.new_instr_id(); let w = if self.r.chance(3, 4) { v } else { self.r.pick(&self.vars).clone() }; s.push(Instruction::Ret(j, Some(Src::Var(w)))); } }
                    _ => { let o = self.op(); s.push(o) }
                }
            }
        }
        let mut left = ls;
        self.r.shuffle(&mut left);
        for l in left {
            if loose && self.r.chance(1, 6) { continue; }
            // beside another one now and then
            let at = if self.r.chance(1, 3) { s.iter().position(|i| matches!(i, Instruction::Label(..))).unwrap_or(0) } else { self.r.below(s.len() as u64 + 1) as usize };
            let i = self.meta.new_instr_id();
            s.insert(at, Instruction::Label(i, l));
        }
        s
    }
}
