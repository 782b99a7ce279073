//! The abstract instruction and the bridge to both encodings of the crate.

use crate::spec::{self, Key};
use zkevm_opcode_defs::decoding::{EncodingModeProduction, EncodingModeTesting, VmEncodingMode};
use zkevm_opcode_defs::DecodedOpcode;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ins {
    pub key: Key,
    pub cond: u64,
    pub regs: [u64; 4],
    pub imm: [u64; 2],
}

pub trait Imm: Copy {
    fn mk(v: u64) -> Self;
    fn val(self) -> u64;
}
impl Imm for u16 {
    fn mk(v: u64) -> Self {
        (v & 0xffff) as u16
    }
    fn val(self) -> u64 {
        u64::from(self)
    }
}
impl Imm for u32 {
    fn mk(v: u64) -> Self {
        (v & 0xffff_ffff) as u32
    }
    fn val(self) -> u64 {
        u64::from(self)
    }
}
pub trait Word: Copy {
    fn mk(v: u128) -> Self;
    fn val(self) -> u128;
}
impl Word for u64 {
    fn mk(v: u128) -> Self {
        (v & u128::from(u64::MAX)) as u64
    }
    fn val(self) -> u128 {
        u128::from(self)
    }
}
impl Word for u128 {
    fn mk(v: u128) -> Self {
        v
    }
    fn val(self) -> u128 {
        self
    }
}

/// One of the two encodings, with our own idea of its geometry.
pub trait Enc<const N: usize>: VmEncodingMode<N, PcOrImm = Self::I, IntegerRepresentation = Self::W> {
    type I: Imm + zkevm_opcode_defs::decoding::AllowedPcOrImm;
    type W: Word;
    const IMM_BITS: u32;
    const NAME: &'static str;
    fn short(word: Self::W) -> (zkevm_opcode_defs::OpcodeVariant, zkevm_opcode_defs::Condition, usize);

    fn imm1_shift() -> u32 {
        32 + Self::IMM_BITS
    }
    /// bits a decoder may look at
    fn used() -> u128 {
        let all = 32 + 2 * Self::IMM_BITS;
        ((1u128 << (all - 1)) << 1).wrapping_sub(1) & !(0b11 << 11)
    }
    fn build(i: &Ins) -> DecodedOpcode<N, Self> {
        DecodedOpcode {
            variant: i.key.variant(),
            condition: spec::CONDITIONS[i.cond as usize],
            src0_reg_idx: i.regs[0] as u8,
            src1_reg_idx: i.regs[1] as u8,
            dst0_reg_idx: i.regs[2] as u8,
            dst1_reg_idx: i.regs[3] as u8,
            imm_0: Self::I::mk(i.imm[0]),
            imm_1: Self::I::mk(i.imm[1]),
        }
    }
    fn read(d: &DecodedOpcode<N, Self>) -> Result<Ins, String> {
        Ok(Ins {
            key: Key::of(&d.variant)?,
            cond: spec::condition_code(&d.condition),
            regs: [d.src0_reg_idx as u64, d.src1_reg_idx as u64, d.dst0_reg_idx as u64, d.dst1_reg_idx as u64],
            imm: [d.imm_0.val(), d.imm_1.val()],
        })
    }
    fn encode(i: &Ins) -> u128 {
        Self::build(i).serialize_as_integer().val()
    }
    fn decode(w: u128) -> Result<(Ins, usize), String> {
        let (d, n) = Self::parse_preliminary_variant_and_absolute_number(Self::W::mk(w));
        Ok((Self::read(&d)?, n.into_usize()))
    }
    /// The model's own assembler: bit arithmetic over the documented layout.
    fn assemble(number: u64, i: &Ins) -> u128 {
        let mut w = u128::from(number);
        w += u128::from(i.cond) * (1 << 13);
        for (k, r) in i.regs.iter().enumerate() {
            w += u128::from(*r) * (1 << (16 + 4 * k));
        }
        w += u128::from(i.imm[0]) * (1 << 32);
        w += u128::from(i.imm[1]) * (1 << Self::imm1_shift());
        w
    }
    /// The model's own disassembler.
    fn disassemble(w: u128) -> (Ins, usize) {
        let f = |at: u32, bits: u32| ((w / (1u128 << at)) % (1u128 << bits)) as u64;
        let number = f(0, 11) as usize;
        let ins = Ins {
            key: spec::key_at(1, number),
            cond: f(13, 3),
            regs: [f(16, 4), f(20, 4), f(24, 4), f(28, 4)],
            imm: [f(32, Self::IMM_BITS), f(Self::imm1_shift(), Self::IMM_BITS)],
        };
        (ins, number)
    }
}

impl Enc<8> for EncodingModeProduction {
    type I = u16;
    type W = u64;
    const IMM_BITS: u32 = 16;
    const NAME: &'static str = "64-bit";
    fn short(w: u64) -> (zkevm_opcode_defs::OpcodeVariant, zkevm_opcode_defs::Condition, usize) {
        Self::variant_and_condition_from_u64_word(w)
    }
}

impl Enc<16> for EncodingModeTesting {
    type I = u32;
    type W = u128;
    const IMM_BITS: u32 = 32;
    const NAME: &'static str = "128-bit";
    fn short(w: u128) -> (zkevm_opcode_defs::OpcodeVariant, zkevm_opcode_defs::Condition, usize) {
        Self::variant_and_condition_from_u128_word(w)
    }
}

pub type P8 = EncodingModeProduction;
pub type T16 = EncodingModeTesting;

/// Arguments [number, condition, r0, r1, r2, r3, imm0, imm1] -> instruction.
pub fn from_args(a: &[u64]) -> Ins {
    Ins { key: spec::key_at(1, a[0] as usize), cond: a[1], regs: [a[2], a[3], a[4], a[5]], imm: [a[6], a[7]] }
}

pub fn ins_args(imm_bits: u32) -> Vec<crate::engine::Arg> {
    use crate::engine::Arg::*;
    vec![Below(spec::n1()), Below(8), Bits(4), Bits(4), Bits(4), Bits(4), Bits(imm_bits), Bits(imm_bits)]
}
