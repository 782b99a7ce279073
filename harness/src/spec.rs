//! Independent reference model of the instruction set, written as data.
//!
//! The crate's types appear only as names of things: variants are turned into a structural key by
//! pattern matching, never through the crate's own Eq, Hash, Debug or index functions.

use std::collections::HashMap;
use std::sync::OnceLock;
use zkevm_opcode_defs::*;

/// Operand shapes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sh {
    /// register only
    R,
    /// register or immediate
    I,
    /// any addressing mode
    F,
}
use Sh::*;

pub struct Op {
    pub name: &'static str,
    pub op: Opcode,
    /// number of the family's bit in the circuit bitmask
    pub fam_bit: usize,
    pub sub: usize,
    pub ins: [&'static [Sh]; 2],
    pub outs: &'static [Sh],
    pub nflags: usize,
    pub nimm: usize,
    pub kernel: bool,
    pub static_ok: bool,
    pub price: u32,
}

#[allow(clippy::too_many_arguments)]
fn o(
    name: &'static str,
    op: Opcode,
    fam_bit: usize,
    sub: usize,
    ins: &'static [Sh],
    outs: &'static [Sh],
    nflags: usize,
    nimm: usize,
    price: u32,
) -> Op {
    Op { name, op, fam_bit, sub, ins: [ins, ins], outs, nflags, nimm, kernel: false, static_ok: true, price }
}

impl Op {
    fn kernel(mut self) -> Self {
        self.kernel = true;
        self
    }
    fn not_static(mut self) -> Self {
        self.static_ok = false;
        self
    }
    fn v1(mut self, ins: &'static [Sh]) -> Self {
        self.ins[1] = ins;
        self
    }
}

/// All operations, in opcode-number order.
pub fn ops() -> &'static [Op] {
    static OPS: OnceLock<Vec<Op>> = OnceLock::new();
    OPS.get_or_init(|| {
        vec![
            o("invalid", Opcode::Invalid(InvalidOpcode), 0, 0, &[], &[], 0, 0, u32::MAX),
            o("nop", Opcode::Nop(NopOpcode), 1, 0, &[F], &[F], 0, 2, 6),
            o("add", Opcode::Add(AddOpcode::Add), 2, 0, &[F, R], &[F], 1, 2, 6),
            o("sub", Opcode::Sub(SubOpcode::Sub), 3, 0, &[F, R], &[F], 2, 2, 6),
            o("mul", Opcode::Mul(MulOpcode), 4, 0, &[F, R], &[F, R], 1, 2, 6),
            o("div", Opcode::Div(DivOpcode), 5, 0, &[F, R], &[F, R], 2, 2, 6),
            o("jump", Opcode::Jump(JumpOpcode), 6, 0, &[F], &[], 0, 1, 6),
            o("xor", Opcode::Binop(BinopOpcode::Xor), 9, 0, &[F, R], &[F], 1, 2, 6),
            o("and", Opcode::Binop(BinopOpcode::And), 9, 1, &[F, R], &[F], 1, 2, 6),
            o("or", Opcode::Binop(BinopOpcode::Or), 9, 2, &[F, R], &[F], 1, 2, 6),
            o("shl", Opcode::Shift(ShiftOpcode::Shl), 8, 0, &[F, R], &[F], 2, 2, 6),
            o("shr", Opcode::Shift(ShiftOpcode::Shr), 8, 1, &[F, R], &[F], 2, 2, 6),
            o("rol", Opcode::Shift(ShiftOpcode::Rol), 8, 2, &[F, R], &[F], 2, 2, 6),
            o("ror", Opcode::Shift(ShiftOpcode::Ror), 8, 3, &[F, R], &[F], 2, 2, 6),
            o("ptr.add", Opcode::Ptr(PtrOpcode::Add), 10, 0, &[F, R], &[F], 1, 2, 6),
            o("ptr.sub", Opcode::Ptr(PtrOpcode::Sub), 10, 1, &[F, R], &[F], 1, 2, 6),
            o("ptr.pack", Opcode::Ptr(PtrOpcode::Pack), 10, 2, &[F, R], &[F], 1, 2, 6),
            o("ptr.shrink", Opcode::Ptr(PtrOpcode::Shrink), 10, 3, &[F, R], &[F], 1, 2, 6),
            o("near_call", Opcode::NearCall(NearCallOpcode), 11, 0, &[R], &[], 0, 2, 25),
            o("ctx.this", Opcode::Context(ContextOpcode::This), 7, 0, &[], &[R], 0, 0, 5),
            o("ctx.caller", Opcode::Context(ContextOpcode::Caller), 7, 1, &[], &[R], 0, 0, 5),
            o("ctx.code_address", Opcode::Context(ContextOpcode::CodeAddress), 7, 2, &[], &[R], 0, 0, 5),
            o("ctx.meta", Opcode::Context(ContextOpcode::Meta), 7, 3, &[], &[R], 0, 0, 5),
            o("ctx.ergs_left", Opcode::Context(ContextOpcode::ErgsLeft), 7, 4, &[], &[R], 0, 0, 5),
            o("ctx.sp", Opcode::Context(ContextOpcode::Sp), 7, 5, &[], &[R], 0, 0, 5),
            o("ctx.get_u128", Opcode::Context(ContextOpcode::GetContextU128), 7, 6, &[], &[R], 0, 0, 5),
            o("ctx.set_u128", Opcode::Context(ContextOpcode::SetContextU128), 7, 7, &[R], &[], 0, 0, 5).kernel().not_static(),
            o("ctx.set_ergs_per_pubdata", Opcode::Context(ContextOpcode::SetErgsPerPubdataByte), 7, 8, &[R], &[], 0, 0, 5)
                .kernel()
                .not_static(),
            o("ctx.inc_tx_num", Opcode::Context(ContextOpcode::IncrementTxNumber), 7, 9, &[], &[], 0, 0, 5).kernel().not_static(),
            o("log.sread", Opcode::Log(LogOpcode::StorageRead), 12, 0, &[R], &[R], 0, 0, 158),
            o("log.swrite", Opcode::Log(LogOpcode::StorageWrite), 12, 1, &[R, R], &[], 0, 0, 3501).not_static(),
            o("log.to_l1", Opcode::Log(LogOpcode::ToL1Message), 12, 2, &[R, R], &[], 1, 0, 156250).kernel().not_static(),
            o("log.event", Opcode::Log(LogOpcode::Event), 12, 3, &[R, R], &[], 1, 0, 38).kernel().not_static(),
            o("log.precompile", Opcode::Log(LogOpcode::PrecompileCall), 12, 4, &[R], &[R], 0, 0, 6).kernel(),
            o("far_call", Opcode::FarCall(FarCallOpcode::Normal), 13, 0, &[R, R], &[], 2, 1, 182),
            o("delegate_call", Opcode::FarCall(FarCallOpcode::Delegate), 13, 1, &[R, R], &[], 2, 1, 182),
            o("mimic_call", Opcode::FarCall(FarCallOpcode::Mimic), 13, 2, &[R, R], &[], 2, 1, 182).kernel(),
            o("ret.ok", Opcode::Ret(RetOpcode::Ok), 14, 0, &[R], &[], 1, 1, 5),
            o("ret.revert", Opcode::Ret(RetOpcode::Revert), 14, 1, &[R], &[], 1, 1, 5),
            o("ret.panic", Opcode::Ret(RetOpcode::Panic), 14, 2, &[], &[], 1, 1, 5),
            o("heap.read", Opcode::UMA(UMAOpcode::HeapRead), 15, 0, &[R], &[R, R], 1, 0, 7).v1(&[I]),
            o("heap.write", Opcode::UMA(UMAOpcode::HeapWrite), 15, 1, &[R, R], &[R], 1, 0, 13).v1(&[I, R]),
            o("aux.read", Opcode::UMA(UMAOpcode::AuxHeapRead), 15, 2, &[R], &[R, R], 1, 0, 7).v1(&[I]),
            o("aux.write", Opcode::UMA(UMAOpcode::AuxHeapWrite), 15, 3, &[R, R], &[R], 1, 0, 13).v1(&[I, R]),
            o("fat_ptr.read", Opcode::UMA(UMAOpcode::FatPointerRead), 15, 4, &[R], &[R, R], 1, 0, 7),
        ]
    })
}

pub const NUM_OPS: usize = 45;

/// Sub-variants per family bit.
pub const FAM_SIZES: [usize; 16] = [1, 1, 1, 1, 1, 1, 1, 10, 4, 3, 4, 1, 5, 3, 3, 5];

#[allow(unreachable_patterns)]
pub fn op_ordinal(op: &Opcode) -> Option<usize> {
    Some(match op {
        Opcode::Invalid(_) => 0,
        Opcode::Nop(_) => 1,
        Opcode::Add(AddOpcode::Add) => 2,
        Opcode::Sub(SubOpcode::Sub) => 3,
        Opcode::Mul(_) => 4,
        Opcode::Div(_) => 5,
        Opcode::Jump(_) => 6,
        Opcode::Binop(BinopOpcode::Xor) => 7,
        Opcode::Binop(BinopOpcode::And) => 8,
        Opcode::Binop(BinopOpcode::Or) => 9,
        Opcode::Shift(ShiftOpcode::Shl) => 10,
        Opcode::Shift(ShiftOpcode::Shr) => 11,
        Opcode::Shift(ShiftOpcode::Rol) => 12,
        Opcode::Shift(ShiftOpcode::Ror) => 13,
        Opcode::Ptr(PtrOpcode::Add) => 14,
        Opcode::Ptr(PtrOpcode::Sub) => 15,
        Opcode::Ptr(PtrOpcode::Pack) => 16,
        Opcode::Ptr(PtrOpcode::Shrink) => 17,
        Opcode::NearCall(_) => 18,
        Opcode::Context(ContextOpcode::This) => 19,
        Opcode::Context(ContextOpcode::Caller) => 20,
        Opcode::Context(ContextOpcode::CodeAddress) => 21,
        Opcode::Context(ContextOpcode::Meta) => 22,
        Opcode::Context(ContextOpcode::ErgsLeft) => 23,
        Opcode::Context(ContextOpcode::Sp) => 24,
        Opcode::Context(ContextOpcode::GetContextU128) => 25,
        Opcode::Context(ContextOpcode::SetContextU128) => 26,
        Opcode::Context(ContextOpcode::SetErgsPerPubdataByte) => 27,
        Opcode::Context(ContextOpcode::IncrementTxNumber) => 28,
        Opcode::Log(LogOpcode::StorageRead) => 29,
        Opcode::Log(LogOpcode::StorageWrite) => 30,
        Opcode::Log(LogOpcode::ToL1Message) => 31,
        Opcode::Log(LogOpcode::Event) => 32,
        Opcode::Log(LogOpcode::PrecompileCall) => 33,
        Opcode::FarCall(FarCallOpcode::Normal) => 34,
        Opcode::FarCall(FarCallOpcode::Delegate) => 35,
        Opcode::FarCall(FarCallOpcode::Mimic) => 36,
        Opcode::Ret(RetOpcode::Ok) => 37,
        Opcode::Ret(RetOpcode::Revert) => 38,
        Opcode::Ret(RetOpcode::Panic) => 39,
        Opcode::UMA(UMAOpcode::HeapRead) => 40,
        Opcode::UMA(UMAOpcode::HeapWrite) => 41,
        Opcode::UMA(UMAOpcode::AuxHeapRead) => 42,
        Opcode::UMA(UMAOpcode::AuxHeapWrite) => 43,
        Opcode::UMA(UMAOpcode::FatPointerRead) => 44,
        _ => return None,
    })
}

/// Operand codes: 0 register only; 1, 2 register-or-immediate; 3..=8 full modes.
pub const NUM_OPERANDS: usize = 9;
pub const OPERANDS: [Operand; NUM_OPERANDS] = [
    Operand::RegOnly,
    Operand::RegOrImm(RegOrImmFlags::UseRegOnly),
    Operand::RegOrImm(RegOrImmFlags::UseImm16Only),
    Operand::Full(ImmMemHandlerFlags::UseRegOnly),
    Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop),
    Operand::Full(ImmMemHandlerFlags::UseStackWithOffset),
    Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack),
    Operand::Full(ImmMemHandlerFlags::UseImm16Only),
    Operand::Full(ImmMemHandlerFlags::UseCodePage),
];
/// Mode number of each operand code in the bitmask.
pub const OPERAND_MODE: [usize; NUM_OPERANDS] = [0, 0, 4, 0, 1, 2, 3, 4, 5];

pub fn operand_code(x: &Operand) -> u8 {
    match x {
        Operand::RegOnly => 0,
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => 1,
        Operand::RegOrImm(RegOrImmFlags::UseImm16Only) => 2,
        Operand::Full(ImmMemHandlerFlags::UseRegOnly) => 3,
        Operand::Full(ImmMemHandlerFlags::UseStackWithPushPop) => 4,
        Operand::Full(ImmMemHandlerFlags::UseStackWithOffset) => 5,
        Operand::Full(ImmMemHandlerFlags::UseAbsoluteOnStack) => 6,
        Operand::Full(ImmMemHandlerFlags::UseImm16Only) => 7,
        Operand::Full(ImmMemHandlerFlags::UseCodePage) => 8,
    }
}

/// Structural identity of a full variant.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Key {
    pub op: usize,
    pub src: u8,
    pub dst: u8,
    pub flags: [bool; 2],
}

pub const INVALID: Key = Key { op: 0, src: 0, dst: 0, flags: [false; 2] };
pub const NOP: Key = Key { op: 1, src: 3, dst: 3, flags: [false; 2] };
pub const PANIC: Key = Key { op: 39, src: 0, dst: 0, flags: [false; 2] };

pub const NUM_KEYS: u64 = (NUM_OPS * NUM_OPERANDS * NUM_OPERANDS * 4) as u64;

impl Key {
    /// Every conceivable combination, legal or not.
    pub fn nth(n: u64) -> Key {
        let n = (n % NUM_KEYS) as usize;
        Key {
            flags: [n & 1 != 0, n & 2 != 0],
            dst: (n / 4 % NUM_OPERANDS) as u8,
            src: (n / 4 / NUM_OPERANDS % NUM_OPERANDS) as u8,
            op: n / 4 / NUM_OPERANDS / NUM_OPERANDS,
        }
    }
    /// Inverse of `nth`.
    pub fn ordinal(&self) -> u64 {
        let modes = self.op * NUM_OPERANDS * NUM_OPERANDS + self.src as usize * NUM_OPERANDS + self.dst as usize;
        (modes * 4 + self.flags[0] as usize + 2 * self.flags[1] as usize) as u64
    }
    pub fn variant(&self) -> OpcodeVariant {
        OpcodeVariant {
            opcode: ops()[self.op].op,
            src0_operand_type: OPERANDS[self.src as usize],
            dst0_operand_type: OPERANDS[self.dst as usize],
            flags: self.flags,
        }
    }
    pub fn of(v: &OpcodeVariant) -> Result<Key, String> {
        Ok(Key {
            op: op_ordinal(&v.opcode).ok_or_else(|| "an operation outside the instruction set".to_string())?,
            src: operand_code(&v.src0_operand_type),
            dst: operand_code(&v.dst0_operand_type),
            flags: v.flags,
        })
    }
    pub fn spec(&self) -> &'static Op {
        &ops()[self.op]
    }
    pub fn show(&self) -> String {
        format!("{}[src {} dst {} flags {}{}]", self.spec().name, self.src, self.dst, self.flags[0] as u8, self.flags[1] as u8)
    }
}

fn modes_src(s: &[Sh]) -> Vec<u8> {
    match s.first() {
        None | Some(R) => vec![0],
        Some(I) => vec![1, 2],
        Some(F) => (3..9).collect(),
    }
}

fn modes_dst(s: &[Sh]) -> Vec<u8> {
    match s.first() {
        None | Some(R) => vec![0],
        Some(I) => unreachable!(),
        Some(F) => (3..7).collect(),
    }
}

/// All legal variants of one version, in declaration order.
fn listing(version: usize) -> Vec<Key> {
    let mut out = vec![];
    for (i, op) in ops().iter().enumerate() {
        for src in modes_src(op.ins[version]) {
            for dst in modes_dst(op.outs) {
                for f in 0..1usize << op.nflags {
                    let flags = match op.nflags {
                        0 => [false, false],
                        1 => [f == 1, false],
                        _ => [f & 2 != 0, f & 1 != 0],
                    };
                    out.push(Key { op: i, src, dst, flags });
                }
            }
        }
    }
    out
}

/// Assigned opcode numbers of a version (0 or 1): position = number.
pub fn assigned(version: usize) -> &'static [Key] {
    static T: OnceLock<[Vec<Key>; 2]> = OnceLock::new();
    &T.get_or_init(|| {
        let v0 = listing(0);
        let l1 = listing(1);
        // version 1: register-only heap offsets become register-or-immediate in place,
        // everything that was not there before is appended
        let widened: Vec<Key> = v0
            .iter()
            .map(|k| Key { src: if (40..44).contains(&k.op) { 1 } else { k.src }, ..*k })
            .collect();
        let mut v1 = widened.clone();
        v1.extend(l1.iter().filter(|k| !widened.contains(k)));
        [v0, v1]
    })[version]
}

/// Number of assigned opcode numbers in version 1.
pub fn n1() -> u64 {
    assigned(1).len() as u64
}

pub fn key_at(version: usize, number: usize) -> Key {
    assigned(version).get(number).copied().unwrap_or(INVALID)
}

/// Opcode number of a legal variant of version 1.
pub fn number_of(k: &Key) -> Option<usize> {
    static M: OnceLock<HashMap<Key, usize>> = OnceLock::new();
    M.get_or_init(|| assigned(1).iter().enumerate().map(|(i, k)| (*k, i)).collect()).get(k).copied()
}

/// The circuit bitmask of a variant.
pub fn bitmask(k: &Key) -> u64 {
    let op = k.spec();
    let mut m = 1u64 << op.fam_bit;
    m |= 1u64 << (16 + op.sub);
    m |= (k.flags[0] as u64) << 26 | (k.flags[1] as u64) << 27;
    m |= 1u64 << (28 + OPERAND_MODE[k.src as usize]);
    m |= 1u64 << (34 + OPERAND_MODE[k.dst as usize]);
    m |= (op.kernel as u64) << 48 | (op.static_ok as u64) << 49 | ((k.op == 0) as u64) << 50;
    m
}

pub const CONDITIONS: [Condition; 8] = [
    Condition::Always,
    Condition::Gt,
    Condition::Lt,
    Condition::Eq,
    Condition::Ge,
    Condition::Le,
    Condition::Ne,
    Condition::GtOrLt,
];

pub fn condition_code(c: &Condition) -> u64 {
    match c {
        Condition::Always => 0,
        Condition::Gt => 1,
        Condition::Lt => 2,
        Condition::Eq => 3,
        Condition::Ge => 4,
        Condition::Le => 5,
        Condition::Ne => 6,
        Condition::GtOrLt => 7,
    }
}
