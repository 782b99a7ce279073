//! C34: the generic parts under encoding modes and hash kinds that a user defines.  A mode's geometry is
//! generated: it lives in a thread-local that each case sets, so one type stands for all of them.

use crate::engine::{real, Arg::*, Kind, Property, Verdict};
use crate::ins::Enc;
use crate::spec::{self, Key};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use std::cell::Cell;
use std::hash::{DefaultHasher, Hash, Hasher};
use zkevm_opcode_defs::decoding::{AllowedIntegerRepresentation, AllowedPcOrImm, VariantMonotonicNumber, VmEncodingMode};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

#[derive(Clone, Copy, Debug)]
struct Geometry {
    /// width of counters and immediates
    bits: u32,
    /// where number, condition, four registers and two immediates begin
    at: [u32; 8],
    little: bool,
    mask: u8,
}

const WIDTHS: [u32; 8] = [11, 3, 4, 4, 4, 4, 40, 40];

thread_local! {
    static GEOMETRY: Cell<Geometry> = const { Cell::new(Geometry { bits: 16, at: [0; 8], little: false, mask: 0 }) };
    static RULE: Cell<u16> = const { Cell::new(0) };
}

impl Geometry {
    fn of(x: u64) -> Geometry {
        let mut left: Vec<usize> = (0..8).collect();
        let (mut code, mut next) = ((x >> 8) % 40320, (x >> 24) as u32 % 19);
        let mut at = [0; 8];
        while !left.is_empty() {
            let n = left.len() as u64;
            let f = left.remove((code % n) as usize);
            code /= n;
            at[f] = next;
            next += WIDTHS[f];
        }
        Geometry { bits: 1 + (x & 0xff) as u32 % 40, at, little: x >> 30 & 1 != 0, mask: (x >> 32) as u8 }
    }
    fn last(self) -> u64 {
        (1 << self.bits) - 1
    }
}

fn geometry() -> Geometry {
    GEOMETRY.with(Cell::get)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Counter(u64);

impl std::fmt::LowerHex for Counter {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::LowerHex::fmt(&self.0, f)
    }
}

impl AllowedPcOrImm for Counter {
    fn from_u64_clipped(value: u64) -> Self {
        Counter(value & geometry().last())
    }
    fn as_u64(self) -> u64 {
        self.0
    }
    fn wrapping_add(self, other: Self) -> Self {
        Self::from_u64_clipped(self.0 + other.0)
    }
    fn wrapping_sub(self, other: Self) -> Self {
        Self::from_u64_clipped(self.0.wrapping_sub(other.0))
    }
    fn max() -> Self {
        Counter(geometry().last())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Raw(u128);

impl std::fmt::LowerHex for Raw {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::LowerHex::fmt(&self.0, f)
    }
}

/// The integer's bytes in the mode's order, each masked, over and over; what is too long is folded.
fn spelled<const N: usize>(w: u128, g: Geometry) -> [u8; N] {
    let b = if g.little { w.to_le_bytes() } else { w.to_be_bytes() };
    let mut out = [g.mask; N];
    for i in 0..N.max(16) {
        out[i % N] = out[i % N].rotate_left(3) ^ b[i % 16];
    }
    out
}

impl<const N: usize> AllowedIntegerRepresentation<N> for Raw {
    fn encode_as_bytes(self) -> [u8; N] {
        spelled(self.0, geometry())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Custom;

type D<const N: usize> = DecodedOpcode<N, Custom>;

impl<const N: usize> VmEncodingMode<N> for Custom {
    type PcOrImm = Counter;
    type IntegerRepresentation = Raw;

    fn nop_encoding() -> Raw {
        <Self as VmEncodingMode<N>>::encode_as_integer(&Model { key: spec::NOP, cond: 0, regs: [0; 4], imm: [0; 2] }.build())
    }
    fn exception_revert_encoding() -> Raw {
        <Self as VmEncodingMode<N>>::encode_as_integer(&Model { key: spec::PANIC, cond: 0, regs: [0; 4], imm: [0; 2] }.build())
    }
    fn parse_preliminary_variant_and_absolute_number(w: Raw) -> (D<N>, VariantMonotonicNumber) {
        let g = geometry();
        let f = |i: usize| (w.0 >> g.at[i]) as u64 & ((1 << WIDTHS[i]) - 1);
        let number = f(0) as usize;
        let d = DecodedOpcode {
            variant: OPCODES_TABLE[number],
            condition: Condition::materialize_variant(f(1) as usize),
            src0_reg_idx: f(2) as u8,
            src1_reg_idx: f(3) as u8,
            dst0_reg_idx: f(4) as u8,
            dst1_reg_idx: f(5) as u8,
            imm_0: Counter::from_u64_clipped(f(6)),
            imm_1: Counter::from_u64_clipped(f(7)),
        };
        (d, VariantMonotonicNumber::from_usize(number))
    }
    fn encode_as_integer(d: &D<N>) -> Raw {
        let number = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&d.variant] as u64;
        let regs = [d.src0_reg_idx, d.src1_reg_idx, d.dst0_reg_idx, d.dst1_reg_idx].map(u64::from);
        let f = [number, d.condition.variant_index() as u64, regs[0], regs[1], regs[2], regs[3], d.imm_0.0, d.imm_1.0];
        Raw(f.iter().zip(geometry().at).fold(0, |w, (f, at)| w | u128::from(*f) << at))
    }
    fn encode_as_bytes(d: &D<N>) -> [u8; N] {
        spelled(<Self as VmEncodingMode<N>>::encode_as_integer(d).0, geometry())
    }
    fn split_pc(pc: Counter) -> (Counter, Counter) {
        (pc, Counter(0))
    }
    fn integer_representaiton_from_u256(value: U256, _index: Counter) -> Raw {
        Raw(value.low_u128())
    }
    fn is_canonical_encoding(_value: Raw) -> bool {
        true
    }
}

/// What the instruction should be.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Model {
    key: Key,
    cond: u64,
    regs: [u64; 4],
    imm: [u64; 2],
}

impl Model {
    fn word(&self, g: Geometry) -> Option<u128> {
        let f = [spec::number_of(&self.key)? as u64, self.cond, self.regs[0], self.regs[1], self.regs[2], self.regs[3], self.imm[0], self.imm[1]];
        Some(f.iter().zip(g.at).fold(0, |w, (f, at)| w + u128::from(*f) * (1 << at)))
    }
    fn build<const N: usize>(&self) -> D<N> {
        DecodedOpcode {
            variant: self.key.variant(),
            condition: spec::CONDITIONS[self.cond as usize],
            src0_reg_idx: self.regs[0] as u8,
            src1_reg_idx: self.regs[1] as u8,
            dst0_reg_idx: self.regs[2] as u8,
            dst1_reg_idx: self.regs[3] as u8,
            imm_0: Counter(self.imm[0]),
            imm_1: Counter(self.imm[1]),
        }
    }
    fn read<const N: usize>(d: &D<N>) -> Result<Model, String> {
        Ok(Model {
            key: Key::of(&d.variant)?,
            cond: spec::condition_code(&d.condition),
            regs: [d.src0_reg_idx, d.src1_reg_idx, d.dst0_reg_idx, d.dst1_reg_idx].map(u64::from),
            imm: [d.imm_0.0, d.imm_1.0],
        })
    }
}

/// Leading zeros of hexadecimal numbers say nothing.
fn plain(text: &str) -> String {
    let mut parts = text.split("0x");
    let mut out = parts.next().unwrap_or("").to_string();
    for p in parts {
        let t = p.trim_start_matches('0');
        let ends = !t.starts_with(|c: char| c.is_ascii_hexdigit());
        out += "0x";
        if ends {
            out.push('0');
        }
        out += t;
    }
    out
}

/// How many bytes an instruction of the mode has.
fn size(x: u64) -> usize {
    [4, 8, 16, 20, 32][(x >> 40) as usize % 5]
}

fn mode(a: &[u64]) -> Verdict {
    match size(a[0]) {
        4 => mode_of::<4>(a),
        8 => mode_of::<8>(a),
        16 => mode_of::<16>(a),
        20 => mode_of::<20>(a),
        _ => mode_of::<32>(a),
    }
}

fn mode_of<const N: usize>(a: &[u64]) -> Verdict {
    let g = Geometry::of(a[0]);
    GEOMETRY.with(|c| c.set(g));
    ensure_eq!(Model::read(&D::<N>::default())?, Model { key: spec::NOP, cond: 0, regs: [0; 4], imm: [0; 2] }, "default instruction");
    let all = spec::assigned(1);
    let mut m = Model {
        key: all[a[1] as usize % all.len()],
        cond: a[2] & 7,
        regs: [3, 7, 11, 15].map(|at| a[2] >> at & 15),
        imm: [a[3] & g.last(), a[4] & g.last()],
    };
    let mut d: D<N> = m.build();
    let mut masked = false;
    for n in 0..8 {
        let s = a[5] >> (n * 8) & 0xff;
        match s & 7 {
            1 => {
                d.mask_into_panic();
                m = Model { key: spec::PANIC, cond: 0, regs: [0; 4], imm: m.imm };
                masked = true;
            }
            2 => {
                d.mask_into_nop();
                m = Model { key: spec::NOP, cond: 0, regs: [0; 4], imm: m.imm };
                masked = true;
            }
            3 => {
                m.regs[(s >> 3 & 3) as usize] = s >> 4;
                d = DecodedOpcode { variant: d.variant, condition: d.condition, imm_0: d.imm_0, imm_1: d.imm_1, ..m.build() };
            }
            4 => {
                m.key = all[(s * 41) as usize % all.len()];
                d.variant = m.key.variant();
            }
            5 => {
                m.imm[1] = (m.imm[1] ^ 1 << (s >> 3)) & g.last();
                d.imm_1 = Counter(m.imm[1]);
            }
            6 => d = <Custom as VmEncodingMode<N>>::parse_preliminary_variant_and_absolute_number(d.serialize_as_integer()).0,
            _ => {}
        }
        let want = m.word(g).ok_or("an instruction of the model has no number")?;
        ensure_eq!(Model::read(&d)?, m, "fields after step {n} of {N} bytes under {g:?}");
        ensure_eq!(d.serialize_as_integer(), Raw(want), "word after step {n} of {N} bytes under {g:?}");
        ensure_eq!(d.serialize_as_bytes(), spelled(want, g), "bytes after step {n} of {N} bytes under {g:?}");
    }
    let copy = d;
    ensure_eq!(Model::read(&copy)?, m, "fields of a copy");
    // the text is the one the wide mode shows, where that can hold the immediates
    let wide = |imm: [u64; 2]| {
        let i = crate::ins::Ins { key: m.key, cond: m.cond, regs: m.regs, imm };
        plain(&format!("{}", <decoding::EncodingModeTesting as Enc<16>>::build(&i)))
    };
    let text = plain(&format!("{d}"));
    if m.imm.iter().all(|i| i >> 32 == 0) {
        ensure_eq!(text, wide(m.imm), "text of {N} bytes under {g:?}");
    } else {
        for i in m.imm {
            ensure!(text.contains(&format!("{i:#x}")), "the text does not show the immediate {i:#x} of {N} bytes under {g:?}: {text}");
        }
    }
    real(if masked { "masked" } else { "unmasked" })
}

/// Lengths that a mode's counters allow.
fn lengths(a: &[u64]) -> Verdict {
    let g = Geometry::of(a[0]);
    GEOMETRY.with(|c| c.set(g));
    let n = a[1] as usize;
    let code: Vec<[u8; 32]> = (0..n).map(|i| [(a[2] ^ i as u64 ^ (i as u64) >> 8) as u8; 32]).collect();
    let got = match size(a[0]) {
        4 => bytecode_to_code_hash_for_mode::<4, Custom>(&code),
        8 => bytecode_to_code_hash_for_mode::<8, Custom>(&code),
        16 => bytecode_to_code_hash_for_mode::<16, Custom>(&code),
        20 => bytecode_to_code_hash_for_mode::<20, Custom>(&code),
        _ => bytecode_to_code_hash_for_mode::<32, Custom>(&code),
    };
    if n % 2 == 0 || n as u64 > g.last() {
        ensure_eq!(got, Err(()), "hash of {n} words with counters of {} bits, {} bytes an instruction", g.bits, size(a[0]));
        return real("refused");
    }
    let mut want = super::hash::sha().digest(code.iter().flatten().copied());
    want[..4].copy_from_slice(&[1, 0, (n >> 8) as u8, n as u8]);
    ensure_eq!(got, Ok(want), "hash of {n} words with counters of {} bits, {} bytes an instruction", g.bits, size(a[0]));
    real("hashed")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Other<const B: u8>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Parts {
    marker: u8,
    rest: [u8; 30],
}

impl<const B: u8> VersionedHashDef for Other<B> {
    const VERSION_BYTE: u8 = B;
    type StorageLayout = Parts;
    fn serialize(p: Parts) -> Option<[u8; 32]> {
        let r = RULE.with(Cell::get);
        if r >> 8 & 1 != 0 && p.rest[3] & 1 != 0 {
            return None;
        }
        let mut out = [B; 32];
        out[1] = p.marker;
        out[2..].copy_from_slice(&p.rest);
        Some(out)
    }
    fn serialize_to_stored(p: Parts) -> Option<[u8; 32]> {
        let r = RULE.with(Cell::get);
        if r >> 9 & 1 != 0 && p.rest[4] & 1 != 0 {
            return None;
        }
        let mut out = [0; 32];
        // a stored form of its own
        out[0] = if r >> 10 & 1 != 0 { B } else { !B };
        out[1] = p.marker ^ r as u8;
        for (o, x) in out[2..].iter_mut().zip(p.rest.iter().rev()) {
            *o = *x;
        }
        Some(out)
    }
    fn try_deserialize(b: [u8; 32]) -> Option<Parts> {
        let r = RULE.with(Cell::get);
        if b[0] != B || b[1] & r as u8 != 0 {
            return None;
        }
        Some(Parts { marker: b[1], rest: b[2..].try_into().ok()? })
    }
}

fn digest(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn kind_of<const B: u8>(raw: [u8; 32], other: [u8; 32]) -> Verdict {
    type G<const B: u8> = VersionedHashGeneric<Other<B>>;
    let want = Other::<B>::try_deserialize(raw);
    let got = G::<B>::try_create_from_raw(raw);
    ensure_eq!(got.map(|h| *h.layout_ref()), want, "hash of version {B} made from {raw:02x?}");
    let Some(h) = got else {
        return real("refused");
    };
    let layout = *h.layout_ref();
    ensure_eq!(h.serialize(), Other::<B>::serialize(layout), "version {B}, {raw:02x?} serialised");
    ensure_eq!(h.serialize_to_stored(), Other::<B>::serialize_to_stored(layout), "version {B}, {raw:02x?} stored");
    ensure!(h == h && digest(&h) == digest(&got.unwrap()), "a hash differs from itself");
    if let Some(o) = G::<B>::try_create_from_raw(other) {
        ensure_eq!(h == o, layout == *o.layout_ref(), "equality of {raw:02x?} and {other:02x?}");
    }
    real("accepted")
}

fn kinds(a: &[u64]) -> Verdict {
    RULE.with(|r| r.set(a[1] as u16));
    let bytes = |w: [u64; 4]| -> [u8; 32] {
        let mut out = [0; 32];
        for (o, w) in out.chunks_mut(8).zip(w) {
            o.copy_from_slice(&w.to_be_bytes());
        }
        out
    };
    let mut raw = bytes([a[2], a[3], a[4], a[5]]);
    let version = [0u8, 1, 2, 0x80, 0xff][a[0] as usize % 5];
    if a[1] >> 12 != 0 {
        raw[0] = version;
    }
    let mut other = raw;
    if a[1] >> 11 & 1 != 0 {
        other[(a[6] >> 3) as usize % 32] ^= 1 << (a[6] & 7);
    }
    // the library's own kind, asked directly and through the generic type
    type Own = ContractCodeSha256;
    let direct = Own::try_deserialize(raw);
    let generic = VersionedHashGeneric::<Own>::try_create_from_raw(raw);
    ensure_eq!(generic.map(|h| *h.layout_ref()), direct, "code hash made from {raw:02x?}");
    if let (Some(h), Some(l)) = (generic, direct) {
        ensure_eq!(h.serialize(), Own::serialize(l), "code hash {raw:02x?} serialised");
        ensure_eq!(h.serialize_to_stored(), Own::serialize_to_stored(l), "code hash {raw:02x?} stored");
    }
    ensure_eq!(<Own as VersionedHashDef>::VERSION_BYTE, 1u8, "version of code hashes");
    match version {
        0 => kind_of::<0>(raw, other),
        1 => kind_of::<1>(raw, other),
        2 => kind_of::<2>(raw, other),
        0x80 => kind_of::<0x80>(raw, other),
        _ => kind_of::<0xff>(raw, other),
    }
}

fn lengths_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (0..40u64, 0..16u64, 0..8u64, any::<u64>(), 0..5u64)
        .prop_map(|(bits, shift, d, fill, size)| {
            let last = (1u64 << (bits + 1)) - 1;
            let n = match shift {
                0..=7 if bits < 11 => (last + d).saturating_sub(3),
                8 => fill % 600,
                _ => fill % 40,
            };
            vec![bits | size << 40, n, fill & 0xff]
        })
        .boxed()
}

pub fn c34() -> Property {
    let seeds = [
        [7u64, 255, 1],
        [7, 257, 1],
        [15, 65535, 2],
        [15, 65537, 2],
        [16, 65537, 2],
        [16, 131_071, 3],
        [16, 131_073, 3],
        [14, 32_767, 4],
        [14, 32_769, 4],
        [39, 65_537, 5],
    ];
    let seeds = seeds.iter().enumerate().flat_map(|(i, s)| [i, i + 2].map(|n| vec![s[0] | (n as u64 % 5) << 40, s[1], s[2]])).collect();
    Property {
        id: "C34",
        rule: "generated modes (4 to 32 bytes, counters of 1 to 40 bits, any order and offset of the fields, byte orders) with histories of eight edits and maskings; codes around the longest that the mode's counters allow; hash kinds of five versions with generated rules; every case counts",
        assumptions: vec!["the user's definitions are consistent: bytes spell the integer, a kind accepts its own version only"],
        kinds: vec![
            Kind::sweep("mode", vec![Bits(64), Below(2048), Bits(19), Bits(40), Bits(40), Bits(64)], mode),
            Kind::history("lengths", lengths_strategy, lengths).domain(vec![Bits(43), Below(1 << 17), Bits(8)]).cases(3_000).no_fuzz().seeds(seeds),
            Kind::sweep("kinds", vec![Below(5), Bits(16), Bits(64), Bits(64), Bits(64), Bits(64), Bits(8)], kinds),
        ],
    }
}
