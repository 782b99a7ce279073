//! C06-C12: the opcode table, its inverses, versions, circuit bitmasks, classification, shapes, indices.

use crate::engine::{quiet, real, trivial, Arg::*, Dice, Kind, Property, Verdict};
use crate::ins::{Enc, Ins, P8, T16};
use crate::spec::{self, Key, Sh};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use std::sync::OnceLock;
use zkevm_opcode_defs::*;

pub const VERSIONS: [ISAVersion; 2] = [ISAVersion(0), ISAVersion(1)];

/// Asks `$f::<Family>(wrap, ...)` of the family with the given bitmask bit.
macro_rules! family {
    ($bit:expr, $f:ident ( $($arg:expr),* )) => {
        match $bit {
            0 => $f::<InvalidOpcode>(Opcode::Invalid, $($arg),*),
            1 => $f::<NopOpcode>(Opcode::Nop, $($arg),*),
            2 => $f::<AddOpcode>(Opcode::Add, $($arg),*),
            3 => $f::<SubOpcode>(Opcode::Sub, $($arg),*),
            4 => $f::<MulOpcode>(Opcode::Mul, $($arg),*),
            5 => $f::<DivOpcode>(Opcode::Div, $($arg),*),
            6 => $f::<JumpOpcode>(Opcode::Jump, $($arg),*),
            7 => $f::<ContextOpcode>(Opcode::Context, $($arg),*),
            8 => $f::<ShiftOpcode>(Opcode::Shift, $($arg),*),
            9 => $f::<BinopOpcode>(Opcode::Binop, $($arg),*),
            10 => $f::<PtrOpcode>(Opcode::Ptr, $($arg),*),
            11 => $f::<NearCallOpcode>(Opcode::NearCall, $($arg),*),
            12 => $f::<LogOpcode>(Opcode::Log, $($arg),*),
            13 => $f::<FarCallOpcode>(Opcode::FarCall, $($arg),*),
            14 => $f::<RetOpcode>(Opcode::Ret, $($arg),*),
            _ => $f::<UMAOpcode>(Opcode::UMA, $($arg),*),
        }
    };
}

pub trait Fam: OpcodeVariantProps + OpcodeProps + Copy {}
impl<T: OpcodeVariantProps + OpcodeProps + Copy> Fam for T {}

fn ordinal(op: &Opcode) -> Result<usize, String> {
    spec::op_ordinal(op).ok_or_else(|| "an operation outside the instruction set".into())
}

fn shape_of(o: &Operand) -> Sh {
    match o {
        Operand::RegOnly => Sh::R,
        Operand::RegOrImm(_) => Sh::I,
        Operand::Full(_) => Sh::F,
    }
}

fn shapes(v: &[Operand]) -> Vec<Sh> {
    v.iter().map(shape_of).collect()
}

/// Members of a family in sub-variant order, as ordinals.
fn members(bit: usize) -> Vec<usize> {
    spec::ops().iter().enumerate().filter(|(_, o)| o.fam_bit == bit).map(|(i, _)| i).collect()
}

/// Families in table order.
pub const FAMILY_ORDER: [usize; 16] = [0, 1, 2, 3, 4, 5, 6, 9, 8, 10, 11, 7, 12, 13, 14, 15];

// ---------------------------------------------------------------- C06

fn built(which: u64) -> &'static [OpcodeVariant] {
    static T: [OnceLock<Vec<OpcodeVariant>>; 4] = [const { OnceLock::new() }; 4];
    T[which as usize].get_or_init(|| match which {
        0 => synthesize_opcode_decoding_tables(OPCODES_TABLE_WIDTH, VERSIONS[0]),
        1 => synthesize_opcode_decoding_tables(OPCODES_TABLE_WIDTH, VERSIONS[1]),
        2 => synthesize_opcode_decoding_tables_legacy(OPCODES_TABLE_WIDTH, VERSIONS[0]),
        _ => OPCODES_TABLE.to_vec(),
    })
}

fn table_entry(a: &[u64]) -> Verdict {
    let (which, n) = (a[0], a[1] as usize);
    let version = if which == 0 || which == 2 { 0 } else { 1 };
    let t = built(which);
    ensure_eq!(t.len(), 2048, "length of table {which}");
    let got = Key::of(&t[n])?;
    let expect = spec::key_at(version, n);
    ensure!(got == expect, "version {version} number {n} (builder {which}) is {}, expected {}", got.show(), expect.show());
    if n < spec::assigned(version).len() {
        real("assigned number")
    } else {
        real("unassigned number")
    }
}

fn legal_once(a: &[u64]) -> Verdict {
    let k = Key::nth(a[0]);
    for which in 0..4u64 {
        let version = if which == 0 || which == 2 { 0 } else { 1 };
        let assigned = &spec::assigned(version);
        let legal = assigned.contains(&k);
        let mut count = 0;
        for v in built(which) {
            count += (Key::of(v)? == k) as usize;
        }
        let expect = if k == spec::INVALID { 2048 - assigned.len() + 1 } else { legal as usize };
        ensure_eq!(Key::of(&INVALID_OPCODE_VARIANT)?, spec::INVALID, "prepared invalid variant");
        ensure_eq!(count, expect, "occurrences of {} in version {version} (builder {which})", k.show());
    }
    if spec::number_of(&k).is_some() {
        real("legal combination")
    } else {
        real("illegal combination")
    }
}

/// A table of too few bits; what comes of it is nobody's business, but what comes after it is.
pub fn too_narrow(x: u64) {
    let bits = (x / 3 % 8 + 3) as usize;
    let _ = crate::engine::quiet(|| match x % 3 {
        0 => synthesize_opcode_decoding_tables(bits, VERSIONS[0]),
        1 => synthesize_opcode_decoding_tables(bits, VERSIONS[1]),
        _ => synthesize_opcode_decoding_tables_legacy(bits, VERSIONS[0]),
    });
}

/// [bits - 19, builder]: tables far wider than anything published, once each.
fn very_wide(a: &[u64]) -> Verdict {
    let bits = a[0] as usize + 19;
    let (version, legacy) = [(0, false), (1, false), (0, true)][a[1] as usize];
    let base = wide(11, version, legacy);
    let t = if legacy { synthesize_opcode_decoding_tables_legacy(bits, VERSIONS[0]) } else { synthesize_opcode_decoding_tables(bits, VERSIONS[version]) };
    ensure_eq!(t.len(), 1usize << bits, "length of the {bits}-bit table");
    for (n, v) in t.iter().enumerate() {
        let expect = if n < base.len() { Key::of(&base[n])? } else { spec::INVALID };
        let got = Key::of(v)?;
        ensure!(got == expect, "{bits}-bit table, version {version}: number {n} is {}, expected {}", got.show(), expect.show());
    }
    real("very wide table")
}

/// A history of builds, each [builder + 3 * (bits - 11)], every one against the reference.
fn numbered_builds(a: &[u64]) -> Verdict {
    for (step, x) in a.iter().enumerate() {
        if *x >= 24 {
            too_narrow(*x);
            continue;
        }
        let bits = (x / 3 % 8 + 11) as usize;
        let (version, legacy) = [(0, false), (1, false), (0, true)][(x % 3) as usize];
        let t = if legacy {
            synthesize_opcode_decoding_tables_legacy(bits, VERSIONS[0])
        } else {
            synthesize_opcode_decoding_tables(bits, VERSIONS[version])
        };
        ensure_eq!(t.len(), 1usize << bits, "step {step}: length of the {bits}-bit table of version {version}");
        for (n, v) in t.iter().enumerate() {
            let (got, expect) = (Key::of(v)?, spec::key_at(version, n));
            if got != expect {
                return Err(format!("step {step}: {bits}-bit table of version {version}: number {n} is {}, expected {}", got.show(), expect.show()));
            }
        }
    }
    if a.len() > 1 {
        real("history of builds")
    } else {
        trivial("at most one build")
    }
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "all 2048 numbers of the four published tables against the reference instruction set, and the number of occurrences of every conceivable combination; every case counts",
        assumptions: vec!["the reference instruction set is the one published for ISA versions 0 and 1"],
        kinds: vec![
            Kind::exhaustive("entry", vec![Below(4), Below(2048)], table_entry),
            Kind::exhaustive("occurrences", vec![Below(spec::NUM_KEYS)], legal_once),
            Kind::history("builds", builds_strategy, numbered_builds).list(vec![], Below(48), 8).cases(1_200).thorough(30).no_fuzz(),
        ],
    }
}

// ---------------------------------------------------------------- C07

fn lookup(a: &[u64]) -> Verdict {
    let k = Key::nth(a[0]);
    let v = k.variant();
    let expect = spec::number_of(&k);
    let m1 = OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&v).map(|n| n.into_usize());
    let m2 = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&v).copied();
    ensure_eq!(m1, expect, "monotonic number of {}", k.show());
    ensure_eq!(m2, expect, "canonical number of {}", k.show());
    ensure_eq!(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len(), spec::n1() as usize, "size of the monotonic map");
    ensure_eq!(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len(), spec::n1() as usize, "size of the canonical map");
    match expect {
        Some(n) => {
            ensure_eq!(Key::of(&OPCODES_TABLE[n])?, k, "table entry {n}");
            real("legal combination")
        }
        None => real("illegal combination"),
    }
}

fn map_entries(a: &[u64]) -> Verdict {
    // the maps seen from the table's side
    let n = a[0] as usize;
    let v = OPCODES_TABLE[n];
    let expect = if n < spec::n1() as usize { n } else { 0 };
    ensure_eq!(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP[&v].into_usize(), expect, "monotonic number of entry {n}");
    ensure_eq!(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&v], expect, "canonical number of entry {n}");
    let x = VariantNumber::from_usize(n);
    ensure_eq!(x.into_usize(), n, "number conversion");
    real("table entry")
}
use zkevm_opcode_defs::decoding::VariantMonotonicNumber as VariantNumber;

fn refused<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let ins = Ins { key: Key::nth(a[0]), cond: a[1], regs: [a[2], a[3], a[4], a[5]], imm: [a[6], a[7]] };
    let d = E::build(&ins);
    let int = quiet(|| crate::ins::Word::val(d.serialize_as_integer()));
    let bytes = quiet(|| d.serialize_as_bytes());
    match spec::number_of(&ins.key) {
        None => {
            ensure!(int.is_err(), "{} word {:#x} produced for {}, which has no number", E::NAME, int.unwrap(), ins.key.show());
            ensure!(bytes.is_err(), "{} bytes {:?} produced for {}, which has no number", E::NAME, bytes.unwrap(), ins.key.show());
            real("refused")
        }
        Some(n) => {
            let w = int.map_err(|m| format!("{} encoding {} refused: {m}", E::NAME, ins.key.show()))?;
            ensure_eq!(w & 0x7ff, n as u128, "{} number in the word of {}", E::NAME, ins.key.show());
            ensure!(bytes.is_ok(), "{} byte encoding {} refused", E::NAME, ins.key.show());
            real("accepted")
        }
    }
}

fn refuse_args(imm: u32) -> Vec<crate::engine::Arg> {
    let mut v = crate::ins::ins_args(imm);
    v[0] = Below(spec::NUM_KEYS);
    v
}

fn refused_plain(a: &[u64]) -> Verdict {
    refused::<8, P8>(&[a[0], 0, 0, 0, 0, 0, 0, 0])?;
    refused::<16, T16>(&[a[0], 0, 0, 0, 0, 0, 0, 0])
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "every conceivable combination of operation, modes and flags looked up in both maps and offered to both encoders, with random other fields too; every case counts",
        assumptions: vec!["register numbers are at most 15"],
        kinds: vec![
            Kind::exhaustive("lookup", vec![Below(spec::NUM_KEYS)], lookup),
            Kind::exhaustive("entries", vec![Below(2048)], map_entries),
            Kind::exhaustive("encode-any", vec![Below(spec::NUM_KEYS)], refused_plain),
            Kind::sweep("encode-any-64", refuse_args(16), refused::<8, P8>).random_only().cases(40_000).thorough(20),
            Kind::sweep("encode-any-128", refuse_args(32), refused::<16, T16>).random_only().cases(40_000).thorough(20),
        ],
    }
}

// ---------------------------------------------------------------- C08

fn wide(bits: u64, version: usize, legacy: bool) -> &'static [OpcodeVariant] {
    static T: [OnceLock<Vec<OpcodeVariant>>; 32] = [const { OnceLock::new() }; 32];
    let slot = (bits as usize - 10) * 3 + if legacy { 2 } else { version };
    T[slot].get_or_init(|| {
        if legacy {
            synthesize_opcode_decoding_tables_legacy(bits as usize, VERSIONS[0])
        } else {
            synthesize_opcode_decoding_tables(bits as usize, VERSIONS[version])
        }
    })
}

/// [bits - 11, builder, number]
fn padded(a: &[u64]) -> Verdict {
    let bits = a[0] + 11;
    let (version, legacy) = match a[1] {
        0 => (0, false),
        1 => (1, false),
        _ => (0, true),
    };
    let t = wide(bits, version, legacy);
    ensure_eq!(t.len(), 1usize << bits, "length of the {bits}-bit table");
    let n = (a[2] % (1 << bits)) as usize;
    let base = wide(11, version, legacy);
    let got = Key::of(&t[n])?;
    let expect = if n < base.len() { Key::of(&base[n])? } else { spec::INVALID };
    ensure!(got == expect, "{bits}-bit table, version {version}: number {n} is {}, expected {}", got.show(), expect.show());
    if n < base.len() {
        real("number within the published width")
    } else {
        real("number beyond the published width")
    }
}

/// A history of builds, each [builder + 3 * (bits - 11)]: every one is the first of its kind, padded.
fn builds(a: &[u64]) -> Verdict {
    for (step, x) in a.iter().enumerate() {
        if *x >= 24 {
            too_narrow(*x);
            continue;
        }
        let bits = x / 3 % 8 + 11;
        let (version, legacy) = [(0, false), (1, false), (0, true)][(x % 3) as usize];
        let first = wide(11, version, legacy);
        let now = if legacy {
            synthesize_opcode_decoding_tables_legacy(bits as usize, VERSIONS[0])
        } else {
            synthesize_opcode_decoding_tables(bits as usize, VERSIONS[version])
        };
        ensure_eq!(now.len(), 1usize << bits, "step {step}: length of the {bits}-bit table of version {version}");
        for (n, v) in now.iter().enumerate() {
            let expect = first.get(n).copied().unwrap_or(INVALID_OPCODE_VARIANT);
            if *v != expect {
                return Err(format!("step {step}: {bits}-bit table of version {version}: number {n} is {v}, before {expect}"));
            }
        }
    }
    if a.len() > 1 {
        real("history of builds")
    } else {
        trivial("at most one build")
    }
}

fn builds_strategy(_dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    proptest::collection::vec(prop_oneof![4 => 0..24u64, 1 => 24..48u64], 1..=8).boxed()
}

fn compatible(a: &[u64]) -> Verdict {
    let n = a[0] as usize;
    let v0 = Key::of(&wide(11, 0, false)[n])?;
    let v1 = Key::of(&wide(11, 1, false)[n])?;
    let legacy = Key::of(&wide(11, 0, true)[n])?;
    ensure!(legacy == v0, "number {n}: older builder {}, current builder {}", legacy.show(), v0.show());
    if v0 == spec::INVALID {
        // unassigned before: free for additions, which must not repeat an older meaning
        if v1 != spec::INVALID {
            for (m, old) in wide(11, 0, false).iter().enumerate() {
                let old = Key::of(old)?;
                let widened = Key { src: if old.src == 0 && v1.src == 1 { 1 } else { old.src }, ..old };
                ensure!(widened != v1, "number {n} of version 1 repeats number {m} of version 0 ({})", old.show());
            }
            return real("added in version 1");
        }
        return trivial("unassigned in both");
    }
    let same = v0 == v1 || (v0.src == 0 && v1 == Key { src: 1, ..v0 });
    ensure!(same, "number {n} is {} in version 0 and {} in version 1", v0.show(), v1.show());
    real("assigned in both")
}

fn fam_versions<F: Fam>(wrap: fn(F) -> Opcode, bit: usize, version: ISAVersion) -> Verdict {
    let expect = members(bit);
    let list = |v: Vec<F>| -> Result<Vec<usize>, String> {
        let mut o: Vec<usize> = v.iter().map(|x| ordinal(&wrap(*x))).collect::<Result<_, _>>()?;
        o.sort_unstable();
        Ok(o)
    };
    for f in F::all_variants() {
        let min = f.minimal_version();
        ensure_eq!(min.0, 0, "introducing version of {}", spec::ops()[ordinal(&wrap(f))?].name);
        ensure_eq!(f.is_available_for_version(version), min.0 <= version.0, "availability of {} in version {}", f.name(), version.0);
        ensure_eq!(f.is_added_in_version(version), min.0 == version.0, "{} added in version {}", f.name(), version.0);
    }
    ensure_eq!(list(F::variants_for_version(version))?, expect, "variants of family {bit} in version {}", version.0);
    let added = if version.0 == 0 { expect } else { vec![] };
    ensure_eq!(list(F::variants_added_in_version(version))?, added, "variants of family {bit} added in version {}", version.0);
    real("family and version")
}

fn availability(a: &[u64]) -> Verdict {
    let version = ISAVersion(a[1] as u8);
    family!(a[0], fam_versions(a[0] as usize, version))
}

fn backward(a: &[u64]) -> Verdict {
    let v = ISAVersion(a[0] as u8);
    let got: Vec<u8> = ISAVersion::all_backward_compatible_versions(v).iter().map(|x| x.0).collect();
    let mut expect = vec![];
    for known in 0..2u8 {
        if known <= a[0] as u8 {
            expect.push(known);
        }
    }
    let mut sorted = got.clone();
    sorted.sort_unstable();
    ensure_eq!(sorted, expect, "versions backward compatible with {}", a[0]);
    ensure_eq!(v.as_index(), a[0] as usize, "index of version {}", a[0]);
    ensure_eq!(ALL_ISA_VERSIONS.iter().map(|x| x.0).collect::<Vec<_>>(), vec![0, 1], "all versions");
    ensure_eq!(NUM_ISA_VERSIONS, 2, "number of versions");
    ensure_eq!(DEFAULT_ISA_VERSION.0, 1, "default version");
    real("version")
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "all numbers in versions 0 and 1, builders, table widths 11-18 with swept and random numbers and 19-23 completely, histories of up to 8 builds in any order, every family with every 8-bit version number; trivial only where a number is unassigned in both versions",
        assumptions: vec!["only versions 0 and 1 exist, and every operation was introduced in version 0"],
        kinds: vec![
            Kind::exhaustive("compatible", vec![Below(2048)], compatible),
            Kind::exhaustive("availability", vec![Below(16), Bits(8)], availability),
            Kind::exhaustive("backward", vec![Bits(8)], backward),
            Kind::sweep("padded", vec![Below(8), Below(3), Bits(18)], padded).cases(25_000).no_fuzz(),
            Kind::exhaustive("very-wide", vec![Below(5), Below(3)], very_wide).cases(15).hang_s(300),
            Kind::history("builds", builds_strategy, builds).list(vec![], Below(48), 8).cases(4_000).thorough(30).no_fuzz(),
        ],
    }
}

// ---------------------------------------------------------------- C09

/// Legal variants of both versions: version 1's, then the four families of version 0 that were widened.
pub fn legal(n: u64) -> Key {
    let v1 = spec::assigned(1);
    if (n as usize) < v1.len() {
        v1[n as usize]
    } else {
        only_v0()[n as usize - v1.len()]
    }
}

fn only_v0() -> &'static [Key] {
    static T: OnceLock<Vec<Key>> = OnceLock::new();
    T.get_or_init(|| spec::assigned(0).iter().filter(|k| !spec::assigned(1).contains(k)).copied().collect())
}

pub fn num_legal() -> u64 {
    spec::n1() + only_v0().len() as u64
}

fn check_mask(k: &Key, m: u64, version: usize) -> Result<(), String> {
    ensure_eq!(m, spec::bitmask(k), "version {version} bitmask of {}", k.show());
    // recover the variant from the bits alone
    let f = |at: u32, bits: u32| m >> at & ((1 << bits) - 1);
    for (name, at, bits) in [("operation", 0, 16), ("sub-variant", 16, 10), ("source", 28, 6), ("destination", 34, 4)] {
        ensure_eq!(f(at, bits).count_ones(), 1, "bits set in the {name} section of {:#x}", m);
    }
    let fam = f(0, 16).trailing_zeros() as usize;
    let sub = f(16, 10).trailing_zeros() as usize;
    let back: Vec<usize> = (0..spec::NUM_OPS).filter(|i| spec::ops()[*i].fam_bit == fam && spec::ops()[*i].sub == sub).collect();
    ensure_eq!(back, vec![k.op], "operation recovered from {:#x}", m);
    ensure_eq!([m >> 26 & 1 == 1, m >> 27 & 1 == 1], k.flags, "flags recovered from {:#x}", m);
    ensure_eq!(f(28, 6).trailing_zeros() as usize, spec::OPERAND_MODE[k.src as usize], "source mode recovered from {:#x}", m);
    ensure_eq!(f(34, 4).trailing_zeros() as usize, spec::OPERAND_MODE[k.dst as usize], "destination mode recovered from {:#x}", m);
    ensure_eq!(f(38, 10), 0, "padding of {:#x}", m);
    ensure_eq!(m >> 51, 0, "bits above the layout of {:#x}", m);
    Ok(())
}

fn mask_single(a: &[u64]) -> Verdict {
    let k = legal(a[0]);
    let version = a[1] as usize;
    let got = synthesize_bit_decomposition_table(&[k.variant()], VERSIONS[version]);
    ensure_eq!(got.len(), 1, "length");
    check_mask(&k, got[0], version)?;
    real("legal variant")
}

fn mask_published(a: &[u64]) -> Verdict {
    let n = a[0] as usize;
    check_mask(&spec::key_at(1, n), OPCODES_PROPS_INTEGER_BITMASKS[n], 1)?;
    real("published bitmask")
}

/// [version, variant, variant, ...]
fn mask_list(a: &[u64]) -> Verdict {
    let version = (a[0] % 2) as usize;
    let mut keys: Vec<Key> = a[1..].iter().map(|n| legal(n % num_legal())).collect();
    let mut list: Vec<OpcodeVariant> = keys.iter().map(|k| k.variant()).collect();
    // the list as it is, then edited where it lies
    for edit in 0..3 {
        match edit {
            1 if keys.len() > 2 => (keys[1..].reverse(), list[1..].reverse()),
            2 if keys.len() > 1 => (keys.rotate_left(1), list.rotate_left(1)),
            0 => ((), ()),
            _ => continue,
        };
        let got = synthesize_bit_decomposition_table(&list, VERSIONS[version]);
        ensure_eq!(got.len(), keys.len(), "length of the list");
        for (i, (k, m)) in keys.iter().zip(&got).enumerate() {
            check_mask(k, *m, version).map_err(|e| format!("element {i}, edit {edit}: {e}"))?;
        }
    }
    if keys.len() > 1 {
        real("list")
    } else {
        trivial("short list")
    }
}

/// [version, length, start, step]: lists longer than any table.
fn mask_long_list(a: &[u64]) -> Verdict {
    let mut list = vec![a[0]];
    let mut d = Dice(a[2]);
    for i in 0..a[1] {
        list.push(if a[3] == 0 { d.roll() } else { a[2].wrapping_add(i * a[3]) });
    }
    mask_list(&list)?;
    real(if a[1] > 1 << 16 { "more than 65536 variants" } else { "long list" })
}

fn mask_list_strategy(_dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let n = num_legal();
    (0..2u64, prop_oneof![
        60 => proptest::collection::vec(0..n, 0..24),
        1 => proptest::collection::vec(0..n, 2047..2050),
        1 => proptest::collection::vec(0..n, 100..4097),
    ])
        .prop_map(|(v, mut l)| {
            l.insert(0, v);
            l
        })
        .boxed()
}

pub fn numbers_in(text: &str) -> Vec<u64> {
    let mut out = vec![];
    let mut cur: Option<u64> = None;
    for c in text.chars().chain([' ']) {
        match (c.to_digit(10), cur) {
            (Some(d), c) => cur = Some(c.unwrap_or(0) * 10 + u64::from(d)),
            (None, Some(n)) => {
                out.push(n);
                cur = None;
            }
            (None, None) => {}
        }
    }
    out
}

fn mask_layout(a: &[u64]) -> Verdict {
    let v = VERSIONS[a[0] as usize];
    ensure_eq!(max_num_variants_for_version(v), 10, "sub-variant bits of version {}", v.0);
    ensure_eq!(max_num_flags_for_version(v), 2, "flag bits of version {}", v.0);
    ensure_eq!(total_description_bits_for_version(v), 38, "description bits of version {}", v.0);
    ensure_eq!(total_description_bits_rounded_for_version(v), 48, "rounded description bits of version {}", v.0);
    ensure_eq!(total_opcode_description_and_aux_bits_for_version(v), 51, "description and aux bits of version {}", v.0);
    ensure_eq!(numbers_in(&compute_decoding_format(v)), vec![38, 16, 10, 2, 6, 4], "decoding format text of version {}", v.0);
    ensure_eq!(
        (OPCODE_TYPE_BITS, OPCODE_INPUT_VARIANT_FLAGS, OPCODE_OUTPUT_VARIANT_FLAGS, TOTAL_AUX_BITS),
        (16, 6, 4, 3),
        "section widths"
    );
    ensure_eq!(
        (KERNEL_MODE_FLAG_BITS, CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS, EXPLICIT_PANIC_FLAG_BITS),
        (1, 1, 1),
        "aux widths"
    );
    ensure_eq!(
        (KERNER_MODE_FLAG_IDX, CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX, EXPLICIT_PANIC_FLAG_IDX),
        (0, 1, 2),
        "aux bit positions"
    );
    ensure_eq!((*NUM_LOGICAL_OPCODES, *NUM_INPUT_VARIANTS, *NUM_OUTPUT_VARIANTS), (16, 6, 4), "section widths at run time");
    ensure_eq!(*NOP_BITSPREAD_U64, spec::bitmask(&spec::NOP), "prepared no-op bitmask");
    ensure_eq!(*PANIC_BITSPREAD_U64, spec::bitmask(&spec::PANIC), "prepared panic bitmask");
    real("layout description")
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "every legal variant of both versions under both versions' layouts, all published bitmasks, and random lists of variants; non-trivial unless a list has fewer than two elements",
        assumptions: vec![],
        kinds: vec![
            Kind::exhaustive("single", vec![Below(num_legal()), Below(2)], mask_single),
            Kind::exhaustive("published", vec![Below(2048)], mask_published),
            Kind::exhaustive("layout", vec![Below(2)], mask_layout),
            Kind::history("list", mask_list_strategy, mask_list).list(vec![Below(2)], Below(num_legal()), 4100).cases(20_000).thorough(20),
            Kind::sweep("long-list", vec![Below(2), Below(70_000), Bits(64), Below(num_legal())], mask_long_list)
                .random_only()
                .cases(200)
                .thorough(10)
                .no_fuzz()
                .max_shrink(40)
                .seeds([65_535, 65_536, 65_537, 69_999].into_iter().flat_map(|n| [0, 1].map(|v| vec![v, n, n ^ v, v])).collect()),
        ],
    }
}

// ---------------------------------------------------------------- C10

fn fam_class<F: Fam>(wrap: fn(F) -> Opcode, k: &Key) -> Verdict {
    let want = k.spec();
    for f in F::all_variants() {
        if ordinal(&wrap(f))? == k.op {
            ensure_eq!(OpcodeProps::requires_kernel_mode(&f), want.kernel, "kernel-only, operation variant {}", want.name);
            ensure_eq!(OpcodeProps::can_be_used_in_static_context(&f), want.static_ok, "static-allowed, operation variant {}", want.name);
            return real("combination");
        }
    }
    Err(format!("{} is not among its family's variants", want.name))
}

fn classify(a: &[u64]) -> Verdict {
    let k = Key::nth(a[0]);
    let want = k.spec();
    let v = k.variant();
    ensure_eq!(v.opcode.requires_kernel_mode(), want.kernel, "kernel-only, opcode {}", want.name);
    ensure_eq!(v.opcode.can_be_used_in_static_context(), want.static_ok, "static-allowed, opcode {}", want.name);
    ensure_eq!(v.requires_kernel_mode(), want.kernel, "kernel-only, variant {}", k.show());
    ensure_eq!(v.can_be_used_in_static_context(), want.static_ok, "static-allowed, variant {}", k.show());
    ensure_eq!(v.is_explicit_panic(), k.op == 0, "explicit panic, variant {}", k.show());
    family!(want.fam_bit, fam_class(&k))
}

fn classify_number(a: &[u64]) -> Verdict {
    let n = a[0] as usize;
    let want_key = spec::key_at(1, n);
    let want = want_key.spec();
    let v = OPCODES_TABLE[n];
    let m = OPCODES_PROPS_INTEGER_BITMASKS[n];
    ensure_eq!(v.requires_kernel_mode(), want.kernel, "kernel-only, number {n}");
    ensure_eq!(v.can_be_used_in_static_context(), want.static_ok, "static-allowed, number {n}");
    ensure_eq!(v.is_explicit_panic(), want_key.op == 0, "explicit panic, number {n}");
    ensure_eq!(m >> 48 & 7, (want.kernel as u64) | (want.static_ok as u64) << 1 | ((want_key.op == 0) as u64) << 2, "aux bits of number {n}");
    real("number")
}

/// [version, variant..]: the aux bits of bitmasks built at run time
fn classify_mask(a: &[u64]) -> Verdict {
    let k = legal(a[0]);
    let m = synthesize_bit_decomposition_table(&[k.variant()], VERSIONS[a[1] as usize])[0];
    let want = k.spec();
    ensure_eq!(m >> 48 & 7, (want.kernel as u64) | (want.static_ok as u64) << 1 | ((k.op == 0) as u64) << 2, "aux bits of {}", k.show());
    real("bitmask")
}

/// A program: words decoded, then a static / user-mode interpreter refuses the right ones.
fn classify_program(a: &[u64]) -> Verdict {
    for w in a {
        let (d, n) = <P8 as zkevm_opcode_defs::decoding::VmEncodingMode<8>>::parse_preliminary_variant_and_absolute_number(*w);
        let want = spec::key_at(1, (*w & 0x7ff) as usize);
        ensure_eq!(n.into_usize() as u64, *w & 0x7ff, "number of {w:#x}");
        ensure_eq!(d.variant.requires_kernel_mode(), want.spec().kernel, "kernel-only, word {w:#x}");
        ensure_eq!(d.variant.can_be_used_in_static_context(), want.spec().static_ok, "static-allowed, word {w:#x}");
        ensure_eq!(d.variant.is_explicit_panic(), want.op == 0, "explicit panic, word {w:#x}");
    }
    if a.is_empty() {
        trivial("empty program")
    } else {
        real("program")
    }
}

fn words_strategy(_dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let word = prop_oneof![2 => any::<u64>(), 3 => (0..spec::n1(), any::<u64>()).prop_map(|(n, r)| n | r & !0x1fff)];
    proptest::collection::vec(word, 0..32).boxed()
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "every combination of operation, modes and flags at every level, every number, every bitmask of both versions, and random programs; non-trivial unless the program is empty",
        assumptions: vec![],
        kinds: vec![
            Kind::exhaustive("combination", vec![Below(spec::NUM_KEYS)], classify),
            Kind::exhaustive("number", vec![Below(2048)], classify_number),
            Kind::exhaustive("bitmask", vec![Below(num_legal()), Below(2)], classify_mask),
            Kind::history("program", words_strategy, classify_program).list(vec![], Bits(64), 32).cases(40_000),
        ],
    }
}

// ---------------------------------------------------------------- C11

fn fam_shape<F: Fam>(wrap: fn(F) -> Opcode, bit: usize, sub: usize, version: usize) -> Verdict {
    let v = VERSIONS[version];
    let op = members(bit)[sub];
    let want = &spec::ops()[op];
    let f = F::all_variants()
        .into_iter()
        .find(|f| spec::op_ordinal(&wrap(*f)) == Some(op))
        .ok_or_else(|| format!("{} is not among its family's variants", want.name))?;
    let opcode = wrap(f);
    let ins: Vec<Sh> = want.ins[version].to_vec();
    let outs: Vec<Sh> = want.outs.to_vec();
    ensure_eq!(shapes(&f.input_operands(v)), ins, "inputs of {}", want.name);
    ensure_eq!(shapes(&f.output_operands(v)), outs, "outputs of {}", want.name);
    ensure_eq!(shapes(&opcode.input_operands(v)), ins, "inputs of opcode {}", want.name);
    ensure_eq!(shapes(&opcode.output_operands(v)), outs, "outputs of opcode {}", want.name);
    let src_mem = ins.first() == Some(&Sh::F);
    let dst_mem = outs.first() == Some(&Sh::F);
    ensure_eq!(f.can_have_src0_from_mem(v), src_mem, "{} reads its source from memory", want.name);
    ensure_eq!(f.can_write_dst0_into_memory(v), dst_mem, "{} writes memory", want.name);
    ensure_eq!(opcode.can_have_src0_from_mem(v), src_mem, "opcode {} reads its source from memory", want.name);
    ensure_eq!(opcode.can_write_dst0_into_memory(v), dst_mem, "opcode {} writes memory", want.name);
    // declared data of the family, asked of any member
    for data in [f.variants_data(v), OPCODE_PROTOTYPES[FAMILY_ORDER.iter().position(|b| *b == bit).unwrap()].variants_data(v)] {
        let of: Vec<_> = data.iter().filter(|d| d.variant_idx == want.sub).map(|d| (d.num_non_exclusive_flags, d.num_used_immediates)).collect();
        ensure_eq!(of, vec![(want.nflags, want.nimm)], "declared (flags, immediates) of {}", want.name);
        ensure_eq!(data.len(), spec::FAM_SIZES[bit], "declared variants of family {bit}");
    }
    // agreement with the table
    for n in 0..2048 {
        let e = Key::of(&built(version as u64)[n])?;
        if e.op == op && (op != 0 || n == 0) {
            let v = e.variant();
            if matches!(v.src0_operand_type, Operand::Full(m) if m.is_memory_used()) {
                ensure!(src_mem, "number {n} reads memory but {} cannot", want.name);
            }
            if matches!(v.dst0_operand_type, Operand::Full(m) if m.is_memory_used()) {
                ensure!(dst_mem, "number {n} writes memory but {} cannot", want.name);
            }
            match v.dst0_operand_type {
                Operand::Full(m) => ensure!(m.is_allowed_for_dst(), "number {n} has a destination mode that is not allowed"),
                Operand::RegOrImm(m) => ensure!(m.is_allowed_for_dst(), "number {n} has a destination mode that is not allowed"),
                Operand::RegOnly => {}
            }
            ensure!(want.nflags == 2 || !e.flags[1], "number {n} uses a flag {} does not have", want.name);
            ensure!(want.nflags >= 1 || !e.flags[0], "number {n} uses a flag {} does not have", want.name);
        }
    }
    real("operation and version")
}

fn shape(a: &[u64]) -> Verdict {
    let op = &spec::ops()[a[0] as usize];
    family!(op.fam_bit, fam_shape(op.fam_bit, op.sub, a[1] as usize))
}

fn swap(a: &[u64]) -> Verdict {
    let k = Key::nth(a[0]);
    let want = match k.spec().fam_bit {
        3 | 5 | 8 => k.flags[1],
        10 => k.flags[0],
        _ => false,
    };
    ensure_eq!(k.variant().swap_operands(), want, "operand swap of {}", k.show());
    if want {
        real("swapped")
    } else {
        real("not swapped")
    }
}

fn modes(a: &[u64]) -> Verdict {
    let code = a[0] as usize;
    let o = spec::OPERANDS[code];
    ensure_eq!(o.variant_idx(), spec::OPERAND_MODE[code], "mode number of operand {code}");
    let (byte, idx, mem, dst) = match o {
        Operand::RegOnly => return trivial("register only"),
        Operand::RegOrImm(m) => (m.encoding_byte(), m.variant_index(), m.is_memory_used(), m.is_allowed_for_dst()),
        Operand::Full(m) => (m.encoding_byte(), m.variant_index(), m.is_memory_used(), m.is_allowed_for_dst()),
    };
    ensure_eq!(byte as usize, spec::OPERAND_MODE[code], "encoding byte of operand {code}");
    ensure_eq!(idx, spec::OPERAND_MODE[code], "index of operand {code}");
    ensure_eq!(mem, matches!(spec::OPERAND_MODE[code], 1 | 2 | 3 | 5), "memory use of operand {code}");
    ensure_eq!(dst, spec::OPERAND_MODE[code] < 4, "operand {code} as a destination");
    let full: Vec<u8> = ImmMemHandlerFlags::all_variants().iter().map(|m| spec::operand_code(&Operand::Full(*m))).collect();
    ensure_eq!(full, vec![3, 4, 5, 6, 7, 8], "list of full modes");
    let imm: Vec<u8> = RegOrImmFlags::all_variants().iter().map(|m| spec::operand_code(&Operand::RegOrImm(*m))).collect();
    ensure_eq!(imm, vec![1, 2], "list of register-or-immediate modes");
    ensure_eq!(
        (ImmMemHandlerFlags::num_variants(), ImmMemHandlerFlags::num_src_variants(), ImmMemHandlerFlags::num_dst_variants()),
        (6, 6, 4),
        "numbers of full modes"
    );
    ensure_eq!(
        (RegOrImmFlags::num_variants(), RegOrImmFlags::num_src_variants(), RegOrImmFlags::num_dst_variants()),
        (2, 2, 1),
        "numbers of register-or-immediate modes"
    );
    real("addressing mode")
}

fn flag_positions(_a: &[u64]) -> Verdict {
    ensure_eq!(
        (SET_FLAGS_FLAG_IDX, SWAP_OPERANDS_FLAG_IDX_FOR_ARITH_OPCODES, SWAP_OPERANDS_FLAG_IDX_FOR_PTR_OPCODE),
        (0, 1, 0),
        "flag positions"
    );
    ensure_eq!(
        (FAR_CALL_STATIC_FLAG_IDX, FAR_CALL_SHARD_FLAG_IDX, FIRST_MESSAGE_FLAG_IDX, RET_TO_LABEL_BIT_IDX, UMA_INCREMENT_FLAG_IDX),
        (0, 1, 0, 0, 0),
        "flag positions of calls, messages, returns and memory accesses"
    );
    real("flag positions")
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "every operation in both versions at every level and against the whole table, every combination for operand swap, every addressing mode; non-trivial unless the operand is a bare register",
        assumptions: vec![],
        kinds: vec![
            Kind::exhaustive("shape", vec![Below(spec::NUM_OPS as u64), Below(2)], shape),
            Kind::exhaustive("swap", vec![Below(spec::NUM_KEYS)], swap),
            Kind::exhaustive("modes", vec![Below(9)], modes),
            Kind::exhaustive("flag-positions", vec![Below(1)], flag_positions),
        ],
    }
}

// ---------------------------------------------------------------- C12

fn fam_index<F: Fam>(wrap: fn(F) -> Opcode, bit: usize, version: ISAVersion, index: usize) -> Verdict {
    let size = spec::FAM_SIZES[bit];
    let list = members(bit);
    let got = F::from_variant_index_for_version(index, &version);
    let got = match got {
        Some(f) => Some((ordinal(&wrap(f))?, f.variant_index())),
        None => None,
    };
    let want = (index < size).then(|| (list[index], index));
    ensure_eq!(got, want, "variant with index {index} of family {bit}");
    let proto_at = FAMILY_ORDER.iter().position(|b| *b == bit).unwrap();
    let proto = all_opcode_prototypes()[proto_at];
    ensure_eq!(proto.variant_idx(), bit, "family of prototype {proto_at}");
    let made = quiet(|| proto.materialize_subvariant_from_prototype(index, &version));
    match (made, want) {
        (Ok(o), Some((op, i))) => {
            ensure_eq!(ordinal(&o)?, op, "opcode built from prototype {proto_at}, index {index}");
            ensure_eq!(o.materialize_subvariant_idx(), i, "sub-variant index of {}", spec::ops()[op].name);
            ensure_eq!(o.variant_idx(), bit, "family index of {}", spec::ops()[op].name);
            // the prototype is only a name of the family: any other member does as well
            for m in &list {
                let again = spec::ops()[*m].op.materialize_subvariant_from_prototype(index, &version);
                ensure_eq!(ordinal(&again)?, op, "opcode built from {}, index {index}", spec::ops()[*m].name);
            }
        }
        (Err(_), None) => {}
        (Ok(_), None) => return Err(format!("family {bit} built an opcode from index {index}, which it does not have")),
        (Err(m), Some(_)) => return Err(format!("family {bit} refused index {index}: {m}")),
    }
    ensure_eq!(F::max_variant_idx_for_version(version), size - 1, "highest index of family {bit}");
    let all: Vec<usize> = F::all_variants().iter().map(|f| ordinal(&wrap(*f))).collect::<Result<_, _>>()?;
    let mut sorted = all.clone();
    sorted.sort_unstable();
    ensure_eq!(sorted, list, "variants of family {bit}");
    let idx: Vec<usize> = F::all_variants().iter().map(|f| f.variant_index()).collect();
    for (f, i) in F::all_variants().iter().zip(&idx) {
        ensure_eq!(f.max_variant_idx(version), size - 1, "highest index of family {bit} asked of a member");
        ensure_eq!(list[*i], ordinal(&wrap(*f))?, "operation at index {i} of family {bit}");
        let mut data: Vec<usize> = f.variants_data(version).iter().map(|d| d.variant_idx).collect();
        data.sort_unstable();
        ensure_eq!(data, (0..size).collect::<Vec<_>>(), "declared indices of family {bit}");
    }
    ensure_eq!(OPCODE_PROTOTYPES[proto_at].max_variant_idx(version), size - 1, "highest index of listed family {proto_at}");
    ensure_eq!(OPCODE_PROTOTYPES.len(), 16, "number of families");
    if index < size {
        real("index in range")
    } else {
        real("index out of range")
    }
}

fn index(a: &[u64]) -> Verdict {
    family!(a[0], fam_index(a[0] as usize, VERSIONS[a[1] as usize], a[2] as usize))
}

fn condition(a: &[u64]) -> Verdict {
    let i = a[0] as usize;
    let got = quiet(|| Condition::materialize_variant(i));
    if i < 8 {
        let c = got.map_err(|m| format!("condition {i} refused: {m}"))?;
        ensure_eq!(spec::condition_code(&c), a[0], "condition {i}");
        ensure_eq!(c.variant_index(), i, "index of condition {i}");
        ensure_eq!(spec::CONDITIONS[i].variant_index(), i, "index of condition {i}");
        ensure_eq!(spec::condition_code(&ALL_CONDITIONS[i]), a[0], "condition {i} in the list");
        ensure_eq!(ALL_CONDITIONS.len(), 8, "number of conditions");
        real("condition code")
    } else {
        ensure!(got.is_err(), "condition code {i} accepted");
        real("out of range")
    }
}

fn nibbles(a: &[u64]) -> Verdict {
    let b = a[0] as u8;
    let (lo, hi) = split_as_u4(b);
    ensure_eq!((lo, hi), (b % 16, b / 16), "nibbles of {b:#x}");
    ensure_eq!(merge_u4(b % 16, b / 16), b, "merge of the nibbles of {b:#x}");
    real("byte")
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "every family and version with every small index, swept and random 64-bit indices; all condition codes and random others; all bytes; every case counts",
        assumptions: vec!["versions 0 and 1; refusing means returning nothing or panicking, whichever the function documents"],
        kinds: vec![
            Kind::exhaustive("index-small", vec![Below(16), Below(2), Below(300)], index),
            Kind::sweep("index", vec![Below(16), Below(2), Bits(64)], index).cases(20_000).thorough(20),
            Kind::exhaustive("condition-small", vec![Below(512)], condition),
            Kind::sweep("condition", vec![Bits(64)], condition).cases(20_000),
            Kind::exhaustive("nibbles", vec![Bits(8)], nibbles),
        ],
    }
}
