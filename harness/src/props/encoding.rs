//! C01-C05, C13, C26: instruction words, fetch, masking, text.

use crate::engine::{real, trivial, Arg, Arg::*, Kind, Property, Verdict};
use crate::ins::*;
use crate::spec::{self, Key};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use zkevm_opcode_defs::decoding::{AllowedPcOrImm, VmEncodingMode};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::DecodedOpcode;

fn word(a: &[u64]) -> u128 {
    u128::from(a[0]) | a.get(1).map(|h| u128::from(*h) << 64).unwrap_or(0)
}

fn plain(i: &Ins) -> bool {
    i.cond == 0 && i.regs == [0; 4] && i.imm == [0; 2]
}

// ---------------------------------------------------------------- C01 / C02

fn enc_dec<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let ins = from_args(a);
    let d = E::build(&ins);
    let w = d.serialize_as_integer().val();
    let (back, number) = E::decode(w)?;
    ensure_eq!(back, ins, "{} decode(encode(i)), word {w:#x}", E::NAME);
    let bytes = d.serialize_as_bytes();
    let mut from_bytes = 0u128;
    for b in bytes {
        from_bytes = from_bytes << 8 | u128::from(b);
    }
    let (back, number2) = E::decode(from_bytes)?;
    ensure_eq!(back, ins, "{} decode(bytes(i)), bytes {bytes:?}", E::NAME);
    ensure_eq!(number, number2, "number from integer and from bytes");
    ensure_eq!(E::encode_as_integer(&d).val(), w, "the two integer encoders");
    ensure_eq!(E::encode_as_bytes(&d), bytes, "the two byte encoders");
    if plain(&ins) {
        trivial("all-zero operands")
    } else {
        real("instruction round trip")
    }
}

fn dec_enc<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let w = word(a);
    let (d, _) = E::parse_preliminary_variant_and_absolute_number(E::W::mk(w));
    let again = d.serialize_as_integer().val();
    let mut expect = w & E::used();
    let is_assigned = (w & 0x7ff) < u128::from(spec::n1());
    if !is_assigned {
        expect &= !0x7ff;
    }
    ensure_eq!(again, expect, "{} encode(decode({w:#x}))", E::NAME);
    let canonical = w & (0b11 << 11) == 0;
    match (is_assigned, canonical) {
        (true, true) => real("canonical word"),
        (true, false) => real("unused bits set"),
        (false, true) => real("unassigned number"),
        (false, false) => real("unassigned number, unused bits set"),
    }
}

/// A word given field by field, so that every field is swept.
fn fields_word(a: &[u64], imm: u32) -> u128 {
    let mut w = 0u128;
    let mut at = 0;
    for (v, bits) in a.iter().zip([11, 2, 3, 4, 4, 4, 4, imm, imm, if imm == 16 { 0 } else { 32 }]) {
        w |= u128::from(*v) << at;
        at += bits;
    }
    w
}

fn field_args(imm: u32) -> Vec<Arg> {
    let mut v = vec![Bits(11), Bits(2), Bits(3), Bits(4), Bits(4), Bits(4), Bits(4), Bits(imm), Bits(imm)];
    if imm == 32 {
        v.push(Bits(32));
    }
    v
}

fn split(w: u128) -> [u64; 2] {
    [w as u64, (w >> 64) as u64]
}

fn dec_enc_fields8(a: &[u64]) -> Verdict {
    dec_enc::<8, P8>(&split(fields_word(a, 16)))
}

fn dec_enc_fields16(a: &[u64]) -> Verdict {
    dec_enc::<16, T16>(&split(fields_word(a, 32)))
}

/// All 65536 values whose upper half is given.
pub fn block(a: &[u64], each: impl Fn(u64) -> Verdict) -> Verdict {
    for i in 0..1u64 << 16 {
        each(a[0] << 16 | i)?;
    }
    real("65536 values")
}

/// Immediates that depend on the rest of the word, so that they vary too.
fn with_noise(low: u64) -> u128 {
    let n = low.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ low.rotate_left(41);
    u128::from(low) | u128::from(n) << 32
}

/// All words with clear unused bits whose registers are given: every number, every condition.
fn canonical_block(a: &[u64], each: impl Fn(u64) -> Verdict) -> Verdict {
    for c in 0..8u64 {
        for n in 0..1u64 << 11 {
            each(a[0] << 16 | c << 13 | n)?;
        }
    }
    real("16384 words")
}
fn canonical_01(a: &[u64]) -> Verdict {
    canonical_block(a, |l| dec_enc::<8, P8>(&split(with_noise(l) & u128::from(u64::MAX))))
}
fn canonical_02(a: &[u64]) -> Verdict {
    canonical_block(a, |l| dec_enc::<16, T16>(&split(with_noise(l))))
}
fn canonical_03(a: &[u64]) -> Verdict {
    canonical_block(a, low_03)
}
/// Every number with the given registers, some condition, all settings of the unused bits.
fn numbers_04(a: &[u64]) -> Verdict {
    for n in 0..1u64 << 11 {
        let w = with_noise(a[0] << 16 | (n * 5 + a[0] * 3 + (a[0] >> 8)) % 8 << 13 | n);
        total::<8, P8>(w & u128::from(u64::MAX))?;
        total::<16, T16>(w)?;
    }
    real("2048 words of each encoding")
}
fn all_low_01(a: &[u64]) -> Verdict {
    block(a, |l| dec_enc::<8, P8>(&split(with_noise(l) & u128::from(u64::MAX))))
}
fn all_low_02(a: &[u64]) -> Verdict {
    block(a, |l| dec_enc::<16, T16>(&split(with_noise(l))))
}
fn low_03(l: u64) -> Verdict {
    fn one<const N: usize, E: Enc<N>>(w: u128) -> Result<(), String> {
        let (got, number) = E::decode(w)?;
        ensure_eq!((got, number), E::disassemble(w), "{} fields of {w:#x}", E::NAME);
        Ok(())
    }
    one::<8, P8>(with_noise(l) & u128::from(u64::MAX))?;
    one::<16, T16>(with_noise(l))?;
    real("word")
}
fn all_low_03(a: &[u64]) -> Verdict {
    block(a, low_03)
}
fn all_low_04(a: &[u64]) -> Verdict {
    block(a, |l| total::<8, P8>(with_noise(l) & u128::from(u64::MAX)))
}
fn all_pc32(a: &[u64]) -> Verdict {
    block(a, |l| split_pc32(&[l]))
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "instructions from (opcode number, condition, 4 registers, 2 immediates) and arbitrary 64-bit words, swept and random; non-trivial unless condition, registers and immediates are all zero",
        assumptions: vec!["register numbers are at most 15 (documented 4-bit fields; larger ones trip a debug assertion)"],
        kinds: vec![
            Kind::sweep("encode-decode", ins_args(16), enc_dec::<8, P8>).cases(200_000),
            Kind::sweep("decode-encode-fields", field_args(16), dec_enc_fields8).cases(200_000),
            Kind::sweep("decode-encode-word", vec![Bits(64)], dec_enc::<8, P8>).cases(400_000),
            Kind::blocks("canonical-low-halves", vec![Bits(16)], canonical_01),
            Kind::thorough_only("all-low-halves", vec![Bits(16)], all_low_01),
        ],
    }
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "as C01 with 32-bit immediates and arbitrary 128-bit words; non-trivial unless condition, registers and immediates are all zero",
        assumptions: vec!["register numbers are at most 15"],
        kinds: vec![
            Kind::sweep("encode-decode", ins_args(32), enc_dec::<16, T16>).cases(200_000),
            Kind::sweep("decode-encode-fields", field_args(32), dec_enc_fields16).cases(200_000),
            Kind::sweep("decode-encode-word", vec![Bits(64), Bits(64)], dec_enc::<16, T16>).cases(400_000),
            Kind::blocks("canonical-low-halves", vec![Bits(16)], canonical_02),
            Kind::thorough_only("all-low-halves", vec![Bits(16)], all_low_02),
        ],
    }
}

// ---------------------------------------------------------------- C03

fn layout_encode<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let ins = from_args(a);
    let expect = E::assemble(a[0], &ins);
    let d = E::build(&ins);
    ensure_eq!(d.serialize_as_integer().val(), expect, "{} word of {}", E::NAME, ins.key.show());
    let bytes = d.serialize_as_bytes();
    for (i, b) in bytes.iter().enumerate() {
        ensure_eq!(u128::from(*b), expect >> (8 * (N - 1 - i)) & 0xff, "{} byte {i} of {:#x}", E::NAME, expect);
    }
    if plain(&ins) {
        trivial("all-zero operands")
    } else {
        real("layout of encoded word")
    }
}

fn layout_decode<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let w = fields_word(a, E::IMM_BITS);
    let (got, number) = E::decode(w)?;
    let (expect, expect_number) = E::disassemble(w);
    ensure_eq!(got, expect, "{} fields of {w:#x}", E::NAME);
    ensure_eq!(number, expect_number, "{} opcode number of {w:#x}", E::NAME);
    real("layout of decoded word")
}

fn cross(a: &[u64]) -> Verdict {
    let ins = from_args(a);
    let n = P8::encode(&ins);
    let w = T16::encode(&ins);
    ensure_eq!(w & 0xffff_ffff, n & 0xffff_ffff, "low halves of the two encodings");
    ensure_eq!(w >> 32 & 0xffff_ffff, n >> 32 & 0xffff, "first immediate");
    ensure_eq!(w >> 64, n >> 48, "second immediate");
    real("both encodings of one instruction")
}

/// The published positions and widths are the ones in use.
fn layout_constants(_a: &[u64]) -> Verdict {
    use zkevm_opcode_defs as z;
    ensure_eq!((z::OPCODES_TABLE_WIDTH, z::VARIANT_AND_CONDITION_ENCODING_BITS), (11, 16), "widths of the opcode number and of the first part");
    ensure_eq!((z::CONDITIONAL_BITS_SHIFT, z::CONDITIONAL_BITS_WIDTH), (13, 3), "position and width of the condition");
    ensure_eq!((z::SRC_REGS_SHIFT, z::DST_REGS_SHIFT, z::REGISTER_INDEX_ENCODING_BITS), (16, 24, 4), "positions and width of the registers");
    real("constants")
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "encoded and decoded words compared field by field with an independent assembler/disassembler; non-trivial unless condition, registers and immediates are all zero",
        assumptions: vec!["register numbers are at most 15"],
        kinds: vec![
            Kind::sweep("encode-64", ins_args(16), layout_encode::<8, P8>).cases(150_000),
            Kind::sweep("encode-128", ins_args(32), layout_encode::<16, T16>).cases(150_000),
            Kind::sweep("decode-64", field_args(16), layout_decode::<8, P8>).cases(150_000),
            Kind::sweep("decode-128", field_args(32), layout_decode::<16, T16>).cases(150_000),
            Kind::sweep("cross", ins_args(16), cross).cases(100_000),
            Kind::exhaustive("constants", vec![Below(1)], layout_constants),
            Kind::blocks("canonical-low-halves", vec![Bits(16)], canonical_03),
            Kind::thorough_only("all-low-halves", vec![Bits(16)], all_low_03),
        ],
    }
}

// ---------------------------------------------------------------- C04

fn total<const N: usize, E: Enc<N>>(w: u128) -> Verdict {
    let (got, number) = E::decode(w)?;
    ensure_eq!(number as u128, w & 0x7ff, "{} reported number of {w:#x}", E::NAME);
    let gap = w & (0b11 << 11);
    for g in 0..4u128 {
        let (other, n) = E::decode(w & !(0b11 << 11) | g << 11)?;
        ensure_eq!(other, got, "{} decode of {w:#x} with unused bits {g}", E::NAME);
        ensure_eq!(n, number, "{} number of {w:#x} with unused bits {g}", E::NAME);
    }
    ensure_eq!(E::is_canonical_encoding(E::W::mk(w)), gap == 0, "{} canonical({w:#x})", E::NAME);
    let (variant, condition, bits) = E::short(E::W::mk(w));
    ensure_eq!(Key::of(&variant)?, got.key, "{} short decode of {w:#x}", E::NAME);
    ensure_eq!(spec::condition_code(&condition), got.cond, "{} short decode condition of {w:#x}", E::NAME);
    ensure_eq!(bits, number, "{} short decode number of {w:#x}", E::NAME);
    let (expect, _) = E::disassemble(w);
    ensure_eq!((got.regs, got.imm, got.cond), (expect.regs, expect.imm, expect.cond), "{} other fields of {w:#x}", E::NAME);
    if number as u64 >= spec::n1() || number == 0 {
        ensure_eq!(got.key, spec::INVALID, "{} meaning of unassigned number {number:#x}", E::NAME);
    } else {
        ensure!(got.key.op != 0, "{} assigned number {number:#x} decodes as invalid", E::NAME);
    }
    let again = E::build(&got).serialize_as_integer();
    ensure!(E::is_canonical_encoding(again), "{} encoder output {:#x} is not canonical", E::NAME, again.val());
    match (number as u64 >= spec::n1(), gap == 0) {
        _ if w == 0 => trivial("zero word"),
        (false, true) => real("assigned, canonical"),
        (false, false) => real("assigned, not canonical"),
        (true, true) => real("unassigned, canonical"),
        (true, false) => real("unassigned, not canonical"),
    }
}

fn total8f(a: &[u64]) -> Verdict {
    total::<8, P8>(fields_word(a, 16))
}
fn total16f(a: &[u64]) -> Verdict {
    total::<16, T16>(fields_word(a, 32))
}
fn total8(a: &[u64]) -> Verdict {
    total::<8, P8>(word(a))
}
fn total16(a: &[u64]) -> Verdict {
    total::<16, T16>(word(a))
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "arbitrary words of both encodings, by field and whole, each also with all four settings of the unused bits; non-trivial unless the word is zero",
        assumptions: vec![],
        kinds: vec![
            Kind::sweep("word-64-fields", field_args(16), total8f).cases(100_000),
            Kind::sweep("word-128-fields", field_args(32), total16f).cases(100_000),
            Kind::sweep("word-64", vec![Bits(64)], total8).cases(100_000),
            Kind::sweep("word-128", vec![Bits(64), Bits(64)], total16).cases(100_000),
            Kind::blocks("numbers-and-registers", vec![Bits(16)], numbers_04),
            Kind::thorough_only("all-low-halves", vec![Bits(16)], all_low_04),
        ],
    }
}

// ---------------------------------------------------------------- C05

fn split_pc16(a: &[u64]) -> Verdict {
    let (w, s) = P8::split_pc(a[0] as u16);
    ensure_eq!((u64::from(w), u64::from(s)), (a[0] / 4, a[0] % 4), "split of 16-bit counter {:#x}", a[0]);
    real("16-bit counter")
}

fn split_pc32(a: &[u64]) -> Verdict {
    let (w, s) = T16::split_pc(a[0] as u32);
    ensure_eq!((u64::from(w), u64::from(s)), (a[0] / 2, a[0] % 2), "split of 32-bit counter {:#x}", a[0]);
    real("32-bit counter")
}

fn be32(a: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, l) in a[..4].iter().enumerate() {
        out[i * 8..i * 8 + 8].copy_from_slice(&l.to_be_bytes());
    }
    out
}

/// A memory word from its big-endian bytes (limb order written out, not taken from the crate).
fn u256_of_be(b: &[u8; 32]) -> U256 {
    let limb = |i: usize| u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    U256([limb(3), limb(2), limb(1), limb(0)])
}

fn slot(a: &[u64]) -> Verdict {
    let bytes = be32(a);
    let m = u256_of_be(&bytes);
    for i in 0..4u16 {
        let got = P8::integer_representaiton_from_u256(m, i);
        ensure_eq!(got, a[i as usize], "slot {i} of 4");
    }
    for i in 0..2u32 {
        let got = T16::integer_representaiton_from_u256(m, i);
        let expect = u128::from(a[2 * i as usize]) << 64 | u128::from(a[2 * i as usize + 1]);
        ensure_eq!(got, expect, "wide slot {i} of 2");
    }
    real("slots of a memory word")
}

fn arith<T: AllowedPcOrImm + Imm>(a: &[u64], bits: u32) -> Verdict {
    let modulus = 1u128 << bits;
    let (x, y) = (u128::from(a[0]), u128::from(a[1]));
    let (cx, cy) = (T::from_u64_clipped(a[0]), T::from_u64_clipped(a[1]));
    ensure_eq!(u128::from(cx.val()), x % modulus, "clip of {x:#x} to {bits} bits");
    ensure_eq!(u128::from(cx.as_u64()), x % modulus, "value of clipped {x:#x}");
    ensure_eq!(u128::from(cy.as_u64()), y % modulus, "value of clipped {y:#x}");
    let (x, y) = (x % modulus, y % modulus);
    let sum = <T as AllowedPcOrImm>::wrapping_add(cx, cy);
    ensure_eq!(u128::from(sum.val()), (x + y) % modulus, "{x:#x} + {y:#x} mod 2^{bits}");
    let diff = <T as AllowedPcOrImm>::wrapping_sub(cx, cy);
    ensure_eq!(u128::from(diff.val()), (x + modulus - y) % modulus, "{x:#x} - {y:#x} mod 2^{bits}");
    ensure_eq!(u128::from(<T as AllowedPcOrImm>::max().val()), modulus - 1, "largest {bits}-bit counter");
    if x + y >= modulus || x < y {
        real("wrapping")
    } else {
        real("not wrapping")
    }
}

fn arith16(a: &[u64]) -> Verdict {
    arith::<u16>(a, 16)
}
fn arith32(a: &[u64]) -> Verdict {
    arith::<u32>(a, 32)
}

/// Elements alternate: packed fields, packed immediates.
fn program_of(a: &[u64]) -> Vec<Ins> {
    a.chunks(2)
        .map(|c| {
            let f = c[0];
            let imm = c.get(1).copied().unwrap_or(0);
            Ins {
                key: spec::key_at(1, ((f & 0xffff) % spec::n1()) as usize),
                cond: f >> 16 & 7,
                regs: [f >> 20 & 15, f >> 24 & 15, f >> 28 & 15, f >> 32 & 15],
                imm: [imm & 0xffff_ffff, imm >> 32],
            }
        })
        .collect()
}

fn program<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let mut prog = program_of(a);
    for i in prog.iter_mut() {
        for v in i.imm.iter_mut() {
            *v &= (1u64 << E::IMM_BITS) - 1;
        }
    }
    let per = 32 / N;
    let mut image: Vec<u8> = vec![];
    for i in &prog {
        image.extend(E::build(i).serialize_as_bytes());
    }
    image.resize(image.len().div_ceil(32) * 32, 0);
    let memory: Vec<U256> = image.chunks(32).map(|c| u256_of_be(c.try_into().unwrap())).collect();
    let mut pc = E::PcOrImm::from_u64_clipped(0);
    let one = E::PcOrImm::from_u64_clipped(1);
    for (n, expect) in prog.iter().enumerate() {
        ensure_eq!(pc.as_u64(), n as u64, "{} program counter", E::NAME);
        let (w, s) = E::split_pc(pc);
        ensure_eq!((w.as_u64() as usize, s.as_u64() as usize), (n / per, n % per), "{} location of instruction {n}", E::NAME);
        let raw = E::integer_representaiton_from_u256(memory[w.as_u64() as usize], s);
        let (got, _) = E::decode(raw.val())?;
        ensure_eq!(got, *expect, "{} instruction fetched at {n}", E::NAME);
        pc = <E::PcOrImm as AllowedPcOrImm>::wrapping_add(pc, one);
    }
    if prog.len() > per {
        real("program over several words")
    } else if prog.is_empty() {
        trivial("empty program")
    } else {
        real("program in one word")
    }
}

fn program_strategy(dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let nice: Vec<u64> = dict.iter().copied().chain([0, 1, u64::MAX]).collect();
    proptest::collection::vec(prop_oneof![3 => any::<u64>(), 1 => proptest::sample::select(nice)], 0..=80).boxed()
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "all 16-bit counters, swept and random 32-bit counters, memory words, counter operands, and random programs of up to 40 instructions assembled into memory and fetched at every counter; non-trivial unless the program is empty",
        assumptions: vec![],
        kinds: vec![
            Kind::exhaustive("split-pc-16", vec![Bits(16)], split_pc16),
            Kind::sweep("split-pc-32", vec![Bits(32)], split_pc32).cases(200_000),
            Kind::exhaustive("split-pc-32-all", vec![Bits(16)], all_pc32),
            Kind::sweep("slots", vec![Bits(64), Bits(64), Bits(64), Bits(64)], slot).cases(100_000),
            Kind::sweep("counter-arith-16", vec![Bits(64), Bits(64)], arith16).cases(200_000),
            Kind::sweep("counter-arith-16-narrow", vec![Bits(16), Bits(16)], arith16).cases(200_000),
            Kind::sweep("counter-arith-32", vec![Bits(64), Bits(64)], arith32).cases(200_000),
            Kind::sweep("counter-arith-32-narrow", vec![Bits(32), Bits(32)], arith32).cases(200_000),
            Kind::history("program-64", program_strategy, program::<8, P8>).list(vec![], Bits(64), 80).cases(20_000),
            Kind::history("program-128", program_strategy, program::<16, T16>).list(vec![], Bits(64), 80).cases(20_000),
        ],
    }
}

// ---------------------------------------------------------------- C13

fn check_masked<const N: usize, E: Enc<N>>(d: &DecodedOpcode<N, E>, key: Key, imm: [u64; 2], what: &str) -> Result<(), String> {
    let got = E::read(d)?;
    let expect = Ins { key, cond: 0, regs: [0; 4], imm };
    ensure_eq!(got, expect, "{} instruction masked into {what}", E::NAME);
    let w = d.serialize_as_integer().val();
    let canon = if key == spec::PANIC { E::exception_revert_encoding() } else { E::nop_encoding() };
    let expect = canon.val() | u128::from(imm[0]) << 32 | u128::from(imm[1]) << E::imm1_shift();
    ensure_eq!(w, expect, "{} word of instruction masked into {what}", E::NAME);
    Ok(())
}

fn mask_one<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let ins = Ins { key: Key::nth(a[0]), cond: a[1], regs: [a[2], a[3], a[4], a[5]], imm: [a[6], a[7]] };
    let mut p = E::build(&ins);
    p.mask_into_panic();
    check_masked(&p, spec::PANIC, ins.imm, "panic")?;
    let mut n = E::build(&ins);
    n.mask_into_nop();
    check_masked(&n, spec::NOP, ins.imm, "no-op")?;
    p.mask_into_nop();
    check_masked(&p, spec::NOP, ins.imm, "panic, then no-op")?;
    n.mask_into_panic();
    check_masked(&n, spec::PANIC, ins.imm, "no-op, then panic")?;
    n.mask_into_panic();
    check_masked(&n, spec::PANIC, ins.imm, "panic twice")?;
    if ins.key == spec::PANIC || ins.key == spec::NOP {
        trivial("already a panic or no-op")
    } else if spec::number_of(&ins.key).is_some() {
        real("legal instruction")
    } else {
        real("instruction without an opcode number")
    }
}

fn canonical_words(a: &[u64]) -> Verdict {
    fn one<const N: usize, E: Enc<N>>() -> Result<(), String> {
        for (w, key) in [(E::nop_encoding().val(), spec::NOP), (E::exception_revert_encoding().val(), spec::PANIC)] {
            let number = spec::number_of(&key).unwrap();
            ensure_eq!(w, number as u128, "{} canonical word of {}", E::NAME, key.show());
            let (got, n) = E::decode(w)?;
            ensure_eq!(got, (Ins { key, cond: 0, regs: [0; 4], imm: [0; 2] }), "{} canonical word {w:#x}", E::NAME);
            ensure_eq!(n, number, "{} number of canonical word", E::NAME);
        }
        Ok(())
    }
    if a[0] == 0 {
        one::<8, P8>()?;
    } else {
        one::<16, T16>()?;
    }
    ensure_eq!(Key::of(&zkevm_opcode_defs::NOP_OPCODE_VARIANT)?, spec::NOP, "prepared no-op variant");
    ensure_eq!(Key::of(&zkevm_opcode_defs::PANIC_OPCODE_VARIANT)?, spec::PANIC, "prepared panic variant");
    real("canonical words")
}

/// A default-constructed instruction, then edited: [number or untouched, condition, registers, immediates].
fn from_default<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let mut model = Ins { key: spec::NOP, cond: 0, regs: [0; 4], imm: [0; 2] };
    let mut d = DecodedOpcode::<N, E>::default();
    ensure_eq!(E::read(&d)?, model, "{} default instruction", E::NAME);
    ensure_eq!(Key::of(&zkevm_opcode_defs::OpcodeVariant::default())?, spec::NOP, "default variant");
    model.cond = a[0];
    model.regs = [a[1], a[2], a[3], a[4]];
    model.imm = [a[5], a[6]];
    d.condition = spec::CONDITIONS[a[0] as usize];
    d.src0_reg_idx = a[1] as u8;
    d.src1_reg_idx = a[2] as u8;
    d.dst0_reg_idx = a[3] as u8;
    d.dst1_reg_idx = a[4] as u8;
    d.imm_0 = E::I::mk(a[5]);
    d.imm_1 = E::I::mk(a[6]);
    let w = d.serialize_as_integer().val();
    ensure_eq!(w, E::assemble(spec::number_of(&spec::NOP).unwrap() as u64, &model), "{} word of an edited default instruction", E::NAME);
    ensure_eq!(E::decode(w)?.0, model, "{} edited default instruction, decoded", E::NAME);
    if plain(&model) {
        real("untouched")
    } else {
        real("edited")
    }
}

fn default_args(imm: u32) -> Vec<Arg> {
    ins_args(imm)[1..].to_vec()
}

/// Stateful: each element is one operation on the instruction; the model is an `Ins`.
fn mask_history<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let mask = (1u64 << E::IMM_BITS) - 1;
    let mut model = Ins { key: spec::NOP, cond: 0, regs: [0; 4], imm: [0; 2] };
    let mut d = DecodedOpcode::<N, E>::default();
    ensure_eq!(E::read(&d)?, model, "{} default instruction", E::NAME);
    let (mut maskings, mut edits) = (0, 0);
    for (step, x) in a.iter().enumerate() {
        let (op, v) = (x % 16, x / 16);
        let mut masked = None;
        match op {
            0 | 1 => {
                d.mask_into_panic();
                model = Ins { key: spec::PANIC, cond: 0, regs: [0; 4], imm: model.imm };
                masked = Some(());
            }
            2 | 3 => {
                d.mask_into_nop();
                model = Ins { key: spec::NOP, cond: 0, regs: [0; 4], imm: model.imm };
                masked = Some(());
            }
            4 => {
                model.key = Key::nth(v);
                d.variant = model.key.variant();
            }
            5 => {
                model.key = spec::key_at(1, (v % spec::n1()) as usize);
                d.variant = model.key.variant();
            }
            6 => {
                model.cond = v % 8;
                d.condition = spec::CONDITIONS[model.cond as usize];
            }
            7 => {
                model.regs = [v & 15, v >> 4 & 15, v >> 8 & 15, v >> 12 & 15];
                d.src0_reg_idx = model.regs[0] as u8;
                d.src1_reg_idx = model.regs[1] as u8;
                d.dst0_reg_idx = model.regs[2] as u8;
                d.dst1_reg_idx = model.regs[3] as u8;
            }
            8 => {
                model.imm[0] = v & mask;
                d.imm_0 = E::I::mk(v);
            }
            9 => {
                model.imm[1] = v & mask;
                d.imm_1 = E::I::mk(v);
            }
            10 | 11 => {
                // replace by decode(encode(.)), when there is an encoding
                if spec::number_of(&model.key).is_some() {
                    let w = d.serialize_as_integer();
                    d = E::parse_preliminary_variant_and_absolute_number(w).0;
                }
            }
            12 | 13 => {
                let w = u128::from(v) | u128::from(v.rotate_left(23)) << 60;
                let w = w & E::used();
                d = E::parse_preliminary_variant_and_absolute_number(E::W::mk(w)).0;
                model = E::disassemble(w).0;
            }
            _ => {
                let copy = d;
                let mut other = copy;
                other.mask_into_panic();
                check_masked(&other, spec::PANIC, model.imm, "panic (copy)")?;
            }
        }
        if masked.is_some() {
            maskings += 1;
            check_masked(&d, model.key, model.imm, if model.key == spec::PANIC { "panic" } else { "no-op" })
                .map_err(|m| format!("step {step}: {m}"))?;
        } else {
            edits += 1;
        }
        ensure_eq!(E::read(&d)?, model, "{} state after step {step} ({op})", E::NAME);
    }
    if maskings > 0 && edits > 0 {
        real("edits and maskings")
    } else {
        trivial("no edit or no masking")
    }
}

fn mask_history_strategy(dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let nice: Vec<u64> = dict.iter().copied().chain([0, 1, u64::MAX >> 4]).collect();
    let payload = prop_oneof![3 => 0..(u64::MAX >> 4), 1 => proptest::sample::select(nice)];
    let step = (0u64..16, payload).prop_map(|(op, v)| v.wrapping_mul(16) | op);
    proptest::collection::vec(step, 1..=24).boxed()
}

fn any_key_args(imm: u32) -> Vec<Arg> {
    let mut v = ins_args(imm);
    v[0] = Below(spec::NUM_KEYS);
    v
}

/// Also register numbers that do not exist: masking has to clear them.
fn maskable_args(imm: u32) -> Vec<Arg> {
    let mut v = any_key_args(imm);
    v[2..6].fill(Bits(8));
    v
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "every combination of operation, operand modes and flags (legal or not) with swept and random conditions, registers and immediates, and random histories of up to 24 edits, maskings, encodings and decodings checked against a model after each step; non-trivial when the instruction was not yet a panic/no-op, or the history has both edits and maskings",
        assumptions: vec!["register numbers are at most 15"],
        kinds: vec![
            Kind::exhaustive("canonical-words", vec![Below(2)], canonical_words),
            Kind::sweep("default-64", default_args(16), from_default::<8, P8>).cases(20_000),
            Kind::sweep("default-128", default_args(32), from_default::<16, T16>).cases(20_000),
            Kind::sweep("mask-64", maskable_args(16), mask_one::<8, P8>).cases(100_000),
            Kind::sweep("mask-128", maskable_args(32), mask_one::<16, T16>).cases(100_000),
            Kind::history("history-64", mask_history_strategy, mask_history::<8, P8>).list(vec![], Bits(64), 24).cases(40_000),
            Kind::history("history-128", mask_history_strategy, mask_history::<16, T16>).list(vec![], Bits(64), 24).cases(40_000),
        ],
    }
}

// ---------------------------------------------------------------- C26

/// Numbers that follow `name` and a separator (`=`, `:`, blanks, the word "constant").
fn behind(text: &str, name: &str, prefix: &str, radix: u32) -> Vec<u64> {
    let lower = text.to_lowercase();
    let mut out = vec![];
    for (i, _) in lower.match_indices(name) {
        let rest = lower[i + name.len()..].trim_start();
        let rest = rest.strip_prefix("constant").unwrap_or(rest);
        let rest = rest.trim_start_matches(|c: char| c == '=' || c == ':' || c == ' ');
        if let Some(d) = rest.strip_prefix(prefix) {
            let end = d.find(|c: char| !c.is_digit(radix)).unwrap_or(d.len());
            if let Ok(v) = u64::from_str_radix(&d[..end], radix) {
                out.push(v);
            }
        }
    }
    out
}

/// The plain and the alternate text, each of which has to show everything.
fn shows<const N: usize, E: Enc<N>>(ins: &Ins) -> Result<[String; 2], String> {
    let d = E::build(ins);
    Ok([shown::<N, E>(ins, format!("{d}"))?, shown::<N, E>(ins, format!("{d:#}"))?])
}

fn shown<const N: usize, E: Enc<N>>(ins: &Ins, text: String) -> Result<String, String> {
    // every value is there as often as there are fields that hold it
    let lower = text.to_lowercase();
    for r in ins.regs {
        let want = format!("r{r}");
        let found = text.match_indices(&want).filter(|(i, m)| !text[i + m.len()..].starts_with(|c: char| c.is_ascii_digit())).count();
        let fields = ins.regs.iter().filter(|o| **o == r).count();
        ensure!(found >= fields, "{} text shows register {r} {found} times, for {fields} fields: {text:?}", E::NAME);
    }
    for v in ins.imm {
        let found = lower.match_indices("0x").filter(|(i, _)| {
            let d = &lower[i + 2..];
            let end = d.find(|c: char| !c.is_ascii_hexdigit()).unwrap_or(d.len());
            u64::from_str_radix(&d[..end], 16) == Ok(v)
        });
        let (found, fields) = (found.count(), ins.imm.iter().filter(|o| **o == v).count());
        ensure!(found >= fields, "{} text shows immediate {v:#x} {found} times, for {fields} fields: {text:?}", E::NAME);
    }
    // where a value stands behind its own name, it has to be that value
    for (name, v) in ["src0", "src1", "dst0", "dst1"].into_iter().zip(ins.regs) {
        for got in behind(&text, name, "r", 10) {
            ensure_eq!(got, v, "{} text, {name}: {text:?}", E::NAME);
        }
    }
    for (name, v) in ["imm0", "imm1"].into_iter().zip(ins.imm) {
        for got in behind(&text, name, "0x", 16) {
            ensure_eq!(got, v, "{} text, {name}: {text:?}", E::NAME);
        }
    }
    Ok(text)
}

fn text_pair<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    // one instruction, and the same with one field (a[8]) replaced by a[9]
    let one = Ins { key: Key::nth(a[0]), cond: a[1], regs: [a[2], a[3], a[4], a[5]], imm: [a[6], a[7]] };
    let mut two = one;
    let v = a[9];
    match a[8] {
        0 => two.key = Key::nth(v),
        1 => two.key.op = (v % spec::NUM_OPS as u64) as usize,
        2 => two.key.src = (v % 9) as u8,
        3 => two.key.dst = (v % 9) as u8,
        4 => two.key.flags[0] = v & 1 == 1,
        5 => two.key.flags[1] = v & 1 == 1,
        6 => two.cond = v % 8,
        7..=10 => two.regs[a[8] as usize - 7] = v % 16,
        11 | 12 => two.imm[a[8] as usize - 11] = v & ((1u64 << E::IMM_BITS) - 1),
        _ => two.imm[a[8] as usize - 13] ^= 1 << (v % u64::from(E::IMM_BITS)),
    }
    let (x, y) = (shows::<N, E>(&one)?, shows::<N, E>(&two)?);
    for (x, y) in x.iter().zip(&y) {
        ensure_eq!(x == y, one == two, "{} texts {x:?} and {y:?} of {one:?} and {two:?} equal", E::NAME);
    }
    let (vx, vy) = (format!("{}", one.key.variant()), format!("{}", two.key.variant()));
    ensure_eq!(vx == vy, one.key == two.key, "variant texts {vx:?} and {vy:?} equal");
    let (vx, vy) = (format!("{:#}", one.key.variant()), format!("{:#}", two.key.variant()));
    ensure_eq!(vx == vy, one.key == two.key, "alternate variant texts {vx:?} and {vy:?} equal");
    if one == two {
        trivial("same instruction")
    } else {
        real("different instructions")
    }
}

/// An instruction picked by a number: any operation, modes, flags and fields.
fn picked<const N: usize, E: Enc<N>>(seed: u64) -> Ins {
    let mut d = crate::engine::Dice(seed);
    let (a, b) = (d.roll(), d.roll());
    let mask = (1u64 << E::IMM_BITS) - 1;
    Ins {
        key: Key::nth(a % spec::NUM_KEYS),
        cond: a >> 32 & 7,
        regs: [a >> 36 & 15, a >> 40 & 15, a >> 44 & 15, a >> 48 & 15],
        imm: [b & mask, b >> 32 & mask],
    }
}

/// A writer of the user's: it may refuse, panic, or display something itself while it is written to.
struct Writer<'a> {
    text: String,
    left: u64,
    then: u64,
    during: &'a dyn Fn() -> Result<(), String>,
    broken: Option<String>,
}

impl std::fmt::Write for Writer<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.left == 0 {
            match self.then {
                0 => return Err(std::fmt::Error),
                1 => std::panic::panic_any("the writer gives up"),
                _ => {}
            }
        }
        self.left = self.left.saturating_sub(1);
        if self.then == 2 {
            if let Err(m) = (self.during)() {
                self.broken.get_or_insert(m);
            }
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Each element: [writer (2 bits), writes until it refuses (5), wide (1), alternate (1), instructions]
fn writers(a: &[u64]) -> Verdict {
    use std::fmt::Write;
    fn step<const N: usize, E: Enc<N>>(s: u64) -> Result<(), String> {
        let (one, two) = (picked::<N, E>(s >> 9), picked::<8, P8>(!s >> 9));
        let [plain, alternate] = shows::<N, E>(&one)?;
        let want = if s >> 8 & 1 == 1 { alternate } else { plain };
        let d = E::build(&one);
        let during = || {
            let [a, b] = shows::<8, P8>(&two)?;
            ensure!(!a.is_empty() && !b.is_empty(), "an instruction displayed by the writer has no text");
            Ok(())
        };
        let mut w = Writer { text: String::new(), left: s >> 2 & 31, then: s & 3, during: &during, broken: None };
        let done = crate::engine::quiet(|| match s >> 8 & 1 {
            0 => write!(w, "{d}"),
            _ => write!(w, "{d:#}"),
        });
        if let Some(m) = w.broken {
            return Err(format!("displayed by a writer: {m}"));
        }
        let refused = s & 3 < 2 && w.left == 0;
        match done {
            Ok(Ok(())) => ensure_eq!(w.text, want, "{} text written piece by piece", E::NAME),
            Ok(Err(_)) if refused && s & 3 == 0 => ensure!(want.starts_with(&w.text), "{} text {:?} up to the refusal, of {want:?}", E::NAME, w.text),
            Err(_) if refused && s & 3 == 1 => {}
            Ok(Err(_)) => return Err(format!("{} text {want:?} could not be displayed", E::NAME)),
            Err(m) => return Err(format!("{} text {want:?}: {m}", E::NAME)),
        }
        ensure!(shows::<N, E>(&one)?.contains(&want), "{} text {want:?} is another one when displayed again", E::NAME);
        Ok(())
    }
    for s in a {
        match s >> 7 & 1 {
            0 => step::<8, P8>(*s)?,
            _ => step::<16, T16>(*s)?,
        }
    }
    match a.iter().any(|s| s & 3 < 3) {
        true => real("instructions through writers of the user"),
        false => trivial("plain writers only"),
    }
}

fn writers_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    proptest::collection::vec(any::<u64>(), 1..=6).boxed()
}

fn text_args(imm: u32) -> Vec<Arg> {
    let mut v = any_key_args(imm);
    v.push(Below(15));
    v.push(Bits(imm));
    v
}

/// All variants pairwise: neighbours in every coordinate.
fn variant_text(a: &[u64]) -> Verdict {
    let k = Key::nth(a[0]);
    let text = format!("{}", k.variant());
    let mut others = vec![];
    for op in 0..spec::NUM_OPS {
        others.push(Key { op, ..k });
    }
    for m in 0..9 {
        others.push(Key { src: m, ..k });
        others.push(Key { dst: m, ..k });
    }
    for f in 0..4 {
        others.push(Key { flags: [f & 1 != 0, f & 2 != 0], ..k });
    }
    for o in others {
        let t = format!("{}", o.variant());
        ensure_eq!(t == text, o == k, "texts {text:?} and {t:?} equal");
    }
    real("variant against its neighbours")
}

/// All variants at once: no two share a text.
fn all_texts(_a: &[u64]) -> Verdict {
    let mut seen = std::collections::HashMap::new();
    for n in 0..spec::NUM_KEYS {
        let k = Key::nth(n);
        let t = format!("{}", k.variant());
        if let Some(o) = seen.insert(t.clone(), k) {
            return Err(format!("{} and {} are both shown as {t:?}", k.show(), o.show()));
        }
    }
    real("all variants")
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "pairs of instructions that differ in one chosen field, over all operations, modes and flags; non-trivial when the two differ; and instructions displayed through writers that refuse or panic at any point or display instructions themselves",
        assumptions: vec!["register numbers are at most 15"],
        kinds: vec![
            Kind::exhaustive("all-variant-texts", vec![Below(1)], all_texts),
            Kind::exhaustive("variant-text", vec![Below(spec::NUM_KEYS)], variant_text),
            Kind::new("text-64", crate::engine::Mode::Random, text_args(16), text_pair::<8, P8>).cases(150_000).thorough(20),
            Kind::new("text-128", crate::engine::Mode::Random, text_args(32), text_pair::<16, T16>).cases(150_000).thorough(20),
            Kind::history("writers", writers_strategy, writers).list(vec![], Bits(64), 6).cases(10_000).thorough(20),
        ],
    }
}
