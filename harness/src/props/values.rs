//! C27: equality, hashing and ordering of the crate's values.  C28: the whole fetch-decode-gate path.

use crate::engine::{real, trivial, Arg, Arg::*, Kind, Property, Verdict};
use crate::ins::*;
use crate::spec::{self, Key};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use zkevm_opcode_defs::decoding::{EncodingModeProduction, VariantMonotonicNumber};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

// ---------------------------------------------------------------- C27

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// What equality and hashing owe each other, given whether the contents are the same.
fn equality<T: PartialEq + Hash + Copy + std::fmt::Debug>(x: &T, y: &T, same: bool) -> Result<(), String> {
    ensure_eq!(x == y, same, "{x:?} == {y:?}");
    ensure_eq!(y == x, same, "{y:?} == {x:?}");
    ensure_eq!(x != y, !same, "{x:?} != {y:?}");
    ensure_eq!(*x == *x, true, "{x:?} equals itself");
    let copy = *x;
    ensure_eq!(copy == *x, true, "{x:?} equals its copy");
    #[allow(clippy::clone_on_copy)]
    let clone = x.clone();
    ensure_eq!(clone == *y, same, "the clone of {x:?} == {y:?}");
    let mut clone = *x;
    clone.clone_from(y);
    ensure_eq!(clone == *y, true, "{y:?} cloned over {x:?}");
    if same {
        ensure_eq!(hash_of(x), hash_of(y), "hashes of equal values {x:?} and {y:?}");
        ensure_eq!(hash_of(&[*x, *y, *y]), hash_of(&[*y, *x, *x]), "hashes of lists of equal values {x:?} and {y:?}");
        ensure_eq!(hash_of(&vec![(*x, 1u8)]), hash_of(&vec![(*y, 1u8)]), "hashes of compounds of equal values {x:?} and {y:?}");
    }
    Ok(())
}

fn order<T: Ord + Copy + std::fmt::Debug>(x: &T, y: &T, same: bool) -> Result<(), String> {
    let c = x.cmp(y);
    ensure_eq!(c == Ordering::Equal, same, "{x:?} and {y:?} compare equal");
    ensure_eq!(y.cmp(x), c.reverse(), "{y:?} against {x:?}");
    ensure_eq!(x.partial_cmp(y), Some(c), "partial order of {x:?} and {y:?}");
    ensure_eq!((x < y, x <= y, x > y, x >= y), (c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()), "operators on {x:?} and {y:?}");
    let (low, high) = if c.is_le() { (*x, *y) } else { (*y, *x) };
    ensure_eq!(((*x).min(*y), (*x).max(*y)), (low, high), "min and max of {x:?} and {y:?}");
    ensure_eq!(((*x).clamp(low, low), (*y).clamp(low, high), (*x).clamp(high, high)), (low, *y, high), "{x:?} and {y:?} clamped");
    Ok(())
}

/// Order laws over three values; `f` are their contents.
fn laws<T: Ord + Hash + Copy + std::fmt::Debug, C: PartialEq>(v: [T; 3], f: [C; 3]) -> Result<(), String> {
    let mut sorted = v;
    sorted.sort();
    ensure!(sorted[0] <= sorted[1] && sorted[1] <= sorted[2] && sorted[0] <= sorted[2], "sorted {v:?}: {sorted:?}");
    for x in v {
        ensure!(sorted.binary_search(&x).is_ok(), "{x:?} is not found in {sorted:?}");
    }
    for i in 0..3 {
        for j in 0..3 {
            equality(&v[i], &v[j], f[i] == f[j])?;
            order(&v[i], &v[j], f[i] == f[j])?;
            for k in 0..3 {
                if v[i] <= v[j] && v[j] <= v[k] {
                    ensure!(v[i] <= v[k], "{:?} <= {:?} <= {:?} but not {:?} <= {:?}", v[i], v[j], v[k], v[i], v[k]);
                }
            }
        }
    }
    Ok(())
}

fn variety(different: usize) -> Verdict {
    match different {
        1 => real("all three equal"),
        2 => real("two of three equal"),
        _ => real("all different"),
    }
}

fn distinct<C: PartialEq>(f: &[C; 3]) -> usize {
    1 + (f[1] != f[0]) as usize + (f[2] != f[0] && f[2] != f[1]) as usize
}

fn mode_of(c: u64) -> Operand {
    Key { op: 0, src: (c % 9) as u8, dst: 0, flags: [false; 2] }.variant().src0_operand_type
}

/// Three variants, the second and third derived from the first by replacing one coordinate each.
fn variants(a: &[u64]) -> Verdict {
    let one = Key::nth(a[0]);
    let change = |k: Key, what: u64, v: u64| {
        let mut k = k;
        match what {
            0 => {}
            1 => k.op = (v % spec::NUM_OPS as u64) as usize,
            2 => k.src = (v % 9) as u8,
            3 => k.dst = (v % 9) as u8,
            4 => k.flags[0] = !k.flags[0],
            5 => k.flags[1] = !k.flags[1],
            6 => k = Key::nth(v),
            _ => std::mem::swap(&mut k.src, &mut k.dst),
        }
        k
    };
    let two = change(one, a[1], a[2]);
    let three = change(if a[5] == 0 { one } else { two }, a[3], a[4]);
    let f = [one, two, three];
    laws(f.map(|k| k.variant()), f)?;
    laws(f.map(|k| k.variant().opcode), f.map(|k| k.op))?;
    laws(f.map(|k| k.variant().src0_operand_type), f.map(|k| k.src))?;
    laws(f.map(|k| k.variant().dst0_operand_type), f.map(|k| k.dst))?;
    variety(distinct(&f))
}

/// Small types, all triples.
fn small(a: &[u64]) -> Verdict {
    let conds = [a[0], a[1], a[2]].map(|x| x % 8);
    laws(conds.map(|c| spec::CONDITIONS[c as usize]), conds)?;
    let modes = [a[0], a[1], a[2]].map(|x| x % 9);
    laws(modes.map(mode_of), modes)?;
    let ops = [a[0], a[1], a[2]].map(|x| x % spec::NUM_OPS as u64);
    laws(ops.map(|o| spec::ops()[o as usize].op), ops)?;
    variety(distinct(&ops))
}

/// Versions order as their numbers; opcode numbers are equal as their numbers.
fn versions(a: &[u64]) -> Verdict {
    let (x, y) = (ISAVersion(a[0] as u8), ISAVersion(a[1] as u8));
    equality(&x, &y, a[0] == a[1])?;
    order(&x, &y, a[0] == a[1])?;
    ensure_eq!(x.cmp(&y), a[0].cmp(&a[1]), "order of versions {} and {}", a[0], a[1]);
    real("versions")
}

fn numbers(a: &[u64]) -> Verdict {
    let n = |v: u64| VariantMonotonicNumber::from_usize(v as usize);
    equality(&n(a[0]), &n(a[1]), a[0] == a[1])?;
    ensure_eq!(n(a[0]).into_usize() as u64, a[0], "opcode number through its wrapper");
    real("opcode numbers")
}

/// Eight 32-bit fields for the first value; the second and third replace one of them each.
fn records(a: &[u64]) -> Verdict {
    let one: [u64; 8] = a[..8].try_into().unwrap();
    let mut two = one;
    two[(a[8] % 8) as usize] = a[9];
    let mut three = if a[12] == 0 { one } else { two };
    three[(a[10] % 8) as usize] = a[11];
    record_laws([one, two, three])
}

/// Two fields changed so that their sum, their XOR, or the set of the two stays the same, and that again.
fn related(a: &[u64]) -> Verdict {
    let (i, j, m) = ((a[8] % 8) as usize, (a[9] % 8) as usize, 0xffff_ffff);
    let step = |f: [u64; 8]| {
        let mut g = f;
        match a[10] {
            0 => {
                g[i] = f[i].wrapping_add(a[11]) & m;
                g[j] = f[j].wrapping_sub(a[11]) & m;
            }
            1 => {
                g[i] = f[j];
                g[j] = f[i];
            }
            2 => {
                g[i] = f[i] ^ a[11];
                g[j] = f[j] ^ a[11];
            }
            _ => {
                g[i] = f[i].wrapping_add(a[11]) & m;
                g[j] = f[j].wrapping_add(a[11]) & m;
            }
        }
        g
    };
    let one: [u64; 8] = a[..8].try_into().unwrap();
    record_laws([one, step(one), step(step(one))])
}

/// All fields moved at once, each by its own small multiple of one step, and that again.
fn moved(a: &[u64]) -> Verdict {
    let step = |f: [u64; 8]| {
        let mut g = f;
        for i in 0..8 {
            let by = [0u64, 0, 0, 0, 1, 2, 1u64.wrapping_neg(), 2u64.wrapping_neg()][(a[8 + i] % 8) as usize] << (a[16] % 32);
            g[i] = f[i].wrapping_add(by) & 0xffff_ffff;
        }
        g
    };
    let one: [u64; 8] = a[..8].try_into().unwrap();
    record_laws([one, step(one), step(step(one))])
}

fn moved_args(field: Arg, scale: u64) -> Vec<Arg> {
    let mut v = vec![field; 8];
    v.extend(vec![Below(8); 8]);
    v.push(Below(scale));
    v
}

fn record_laws(f: [[u64; 8]; 3]) -> Verdict {
    let ptr = |f: &[u64; 8]| FatPointer { offset: f[0] as u32, memory_page: f[1] as u32, start: f[2] as u32, length: f[3] as u32 };
    let four = |f: &[u64; 8]| [f[0], f[1], f[2], f[3]];
    laws(f.map(|f| ptr(&f)), f.map(|f| four(&f)))?;

    let near = |f: &[u64; 8]| NearCallABI { ergs_passed: f[0] as u32 };
    laws(f.map(|f| near(&f)), f.map(|f| f[0]))?;

    let fwd = |v: u64| match v % 3 {
        0 => FarCallForwardPageType::UseHeap,
        1 => FarCallForwardPageType::ForwardFatPointer,
        _ => FarCallForwardPageType::UseAuxHeap,
    };
    let far = |f: &[u64; 8]| FarCallABI {
        memory_quasi_fat_pointer: ptr(f),
        ergs_passed: f[4] as u32,
        forwarding_mode: fwd(f[5]),
        shard_id: f[6] as u8,
        constructor_call: f[7] & 1 != 0,
        to_system: f[7] & 2 != 0,
    };
    laws(f.map(|f| far(&f)), f.map(|f| (four(&f), f[4], f[5] % 3, f[6] & 0xff, f[7] & 3)))?;

    let rfwd = |v: u64| match v % 3 {
        0 => RetForwardPageType::UseHeap,
        1 => RetForwardPageType::ForwardFatPointer,
        _ => RetForwardPageType::UseAuxHeap,
    };
    let ret = |f: &[u64; 8]| RetABI { memory_quasi_fat_pointer: ptr(f), page_forwarding_mode: rfwd(f[5]) };
    laws(f.map(|f| ret(&f)), f.map(|f| (four(&f), f[5] % 3)))?;

    let pre = |f: &[u64; 8]| PrecompileCallABI {
        input_memory_offset: f[0] as u32,
        input_memory_length: f[1] as u32,
        output_memory_offset: f[2] as u32,
        output_memory_length: f[3] as u32,
        per_precompile_interpreted: f[6] | f[7] << 32,
    };
    laws(f.map(|f| pre(&f)), f.map(|f| (four(&f), f[6], f[7])))?;

    let inner = |f: &[u64; 8]| PrecompileCallInnerABI {
        input_memory_offset: f[0] as u32,
        input_memory_length: f[1] as u32,
        output_memory_offset: f[2] as u32,
        output_memory_length: f[3] as u32,
        memory_page_to_read: f[4] as u32,
        memory_page_to_write: f[5] as u32,
        precompile_interpreted_data: f[6] | f[7] << 32,
    };
    laws(f.map(|f| inner(&f)), f)?;

    let meta = |f: &[u64; 8]| VmMetaParameters {
        ergs_per_pubdata_byte: f[0] as u32,
        heap_size: f[1] as u32,
        aux_heap_size: f[2] as u32,
        this_shard_id: f[5] as u8,
        caller_shard_id: f[6] as u8,
        code_shard_id: f[7] as u8,
    };
    laws(f.map(|f| meta(&f)), f.map(|f| [f[0], f[1], f[2], f[5] & 0xff, f[6] & 0xff, f[7] & 0xff]))?;

    // versioned hashes: any field, any byte of the partial hash
    let raw = |f: &[u64; 8]| {
        let mut b = [0u8; 32];
        for (i, v) in f.iter().enumerate() {
            b[4 * i..4 * i + 4].copy_from_slice(&(*v as u32).to_be_bytes());
        }
        b[0] = 1;
        b
    };
    let parse = |f: &[u64; 8]| VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(raw(f));
    for i in 0..3 {
        for j in 0..3 {
            let same = raw(&f[i]) == raw(&f[j]);
            match (parse(&f[i]), parse(&f[j])) {
                (Some(x), Some(y)) => {
                    equality(&x, &y, same)?;
                    equality(x.layout_ref(), y.layout_ref(), same)?;
                }
                _ => return Err("a versioned hash with the right version byte does not parse".into()),
            }
        }
    }
    variety(distinct(&f))
}

/// Maps and sets keyed by instruction variants against a model keyed by structure.
/// Elements: variant number * 4 + operation.
fn collections(a: &[u64]) -> Verdict {
    let mut model: HashMap<Key, u64> = HashMap::new();
    let mut hashed: HashMap<OpcodeVariant, u64> = HashMap::new();
    let mut ordered: BTreeMap<OpcodeVariant, u64> = BTreeMap::new();
    let (mut hits, mut misses) = (0u32, 0u32);
    for (step, x) in a.iter().enumerate() {
        let (op, k) = (x & 3, Key::nth(x >> 2));
        let v = k.variant();
        let n = step as u64;
        let want = match op {
            0 | 1 => {
                let w = model.insert(k, n);
                ensure_eq!(hashed.insert(v, n), w, "step {step}: insert {} into a hash map", k.show());
                ensure_eq!(ordered.insert(v, n), w, "step {step}: insert {} into an ordered map", k.show());
                w
            }
            2 => {
                let w = model.get(&k).copied();
                ensure_eq!(hashed.get(&v).copied(), w, "step {step}: look up {} in a hash map", k.show());
                ensure_eq!(ordered.get(&v).copied(), w, "step {step}: look up {} in an ordered map", k.show());
                w
            }
            _ => {
                let w = model.remove(&k);
                ensure_eq!(hashed.remove(&v), w, "step {step}: remove {} from a hash map", k.show());
                ensure_eq!(ordered.remove(&v), w, "step {step}: remove {} from an ordered map", k.show());
                w
            }
        };
        if want.is_some() {
            hits += 1;
        } else {
            misses += 1;
        }
        ensure_eq!((hashed.len(), ordered.len()), (model.len(), model.len()), "step {step}: number of entries");
    }
    if hits > 0 && misses > 0 {
        real("present and absent keys")
    } else {
        trivial("only present or only absent keys")
    }
}

/// All legal variants at once, and all combinations at once.
fn everything(a: &[u64]) -> Verdict {
    let keys: Vec<Key> = if a[0] == 0 { spec::assigned(1).to_vec() } else { (0..spec::NUM_KEYS).map(Key::nth).collect() };
    let h: HashSet<OpcodeVariant> = keys.iter().map(|k| k.variant()).collect();
    let b: BTreeSet<OpcodeVariant> = keys.iter().map(|k| k.variant()).collect();
    ensure_eq!((h.len(), b.len()), (keys.len(), keys.len()), "number of different variants");
    // iteration in order is ascending and complete
    let list: Vec<OpcodeVariant> = b.into_iter().collect();
    for w in list.windows(2) {
        ensure!(w[0] < w[1], "{:?} before {:?} in an ordered set", w[0], w[1]);
    }
    real("whole set")
}

/// A few related keys, so that histories meet them again.
fn collection_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (0..spec::NUM_KEYS, 1..60usize)
        .prop_flat_map(|(base, len)| {
            let near = Key::nth(base);
            let mut pool = vec![base];
            for k in [
                Key { flags: [!near.flags[0], near.flags[1]], ..near },
                Key { flags: [near.flags[0], !near.flags[1]], ..near },
                Key { flags: [near.flags[1], near.flags[0]], ..near },
                Key { src: near.dst, dst: near.src, ..near },
                Key { src: (near.src + 1) % 9, ..near },
                Key { dst: (near.dst + 1) % 9, ..near },
                Key { op: (near.op + 1) % spec::NUM_OPS, ..near },
            ] {
                pool.push(k.ordinal());
            }
            let key = prop_oneof![4 => proptest::sample::select(pool), 1 => 0..spec::NUM_KEYS];
            proptest::collection::vec((key, 0..4u64).prop_map(|(k, op)| k << 2 | op), len)
        })
        .boxed()
}

fn variant_args() -> Vec<Arg> {
    vec![Below(spec::NUM_KEYS), Below(8), Below(spec::NUM_KEYS), Below(8), Below(spec::NUM_KEYS), Below(2)]
}

fn record_args() -> Vec<Arg> {
    let mut v = vec![Bits(32); 8];
    v.extend([Below(8), Bits(32), Below(8), Bits(32), Below(2)]);
    v
}

fn small_record_args() -> Vec<Arg> {
    let mut v = vec![Below(20); 8];
    v.extend([Below(8), Below(20), Below(8), Below(20), Below(2)]);
    v
}

fn related_args(bits: u32) -> Vec<Arg> {
    let mut v = vec![Bits(bits); 8];
    v.extend([Below(8), Below(8), Below(4), Bits(bits)]);
    v
}

pub fn c27() -> Property {
    Property {
        id: "C27",
        rule: "triples of values that agree or differ in one or two chosen fields, for every public value type; all triples of the small types; all pairs of versions; random map histories against a structurally keyed model; a history is non-trivial when it meets both present and absent keys",
        assumptions: vec![],
        kinds: vec![
            Kind::exhaustive("whole-set", vec![Below(2)], everything),
            Kind::exhaustive("small-types", vec![Below(45), Below(45), Below(45)], small),
            Kind::exhaustive("versions", vec![Bits(8), Bits(8)], versions),
            Kind::exhaustive("opcode-numbers", vec![Below(2048), Below(256)], numbers),
            Kind::sweep("variants", variant_args(), variants).cases(60_000),
            Kind::sweep("records", record_args(), records).cases(60_000),
            Kind::sweep("small-records", small_record_args(), records).random_only().cases(60_000),
            Kind::sweep("related-records", related_args(32), related).random_only().cases(60_000),
            Kind::sweep("small-related-records", related_args(5), related).random_only().cases(60_000),
            Kind::sweep("moved-records", moved_args(Bits(32), 32), moved).random_only().cases(60_000),
            Kind::sweep("small-moved-records", moved_args(Below(24), 2), moved).random_only().cases(60_000),
            Kind::history("map-history", collection_strategy, collections).list(vec![], Bits(64), 60).cases(8_000),
        ],
    }
}

// ---------------------------------------------------------------- C28

/// A minimal machine: fetch from packed memory, decode, charge, gate, mask.  The gates are asked of
/// the crate in one of several ways; the model answers from the specification alone.
struct Event {
    number: usize,
    ins: Ins,
    charged: u64,
    refused: bool,
}

fn model_step(word: u128, kernel: bool, is_static: bool, ergs: u64, e: fn(u128) -> (Ins, usize)) -> Event {
    let (ins, number) = e(word);
    let spec = ins.key.spec();
    let price = u64::from(spec.price);
    let broke = ergs < price;
    let refused = broke || ins.key.op == 0 || (spec.kernel && !kernel) || (!spec.static_ok && is_static);
    let charged = price.min(ergs);
    let ins = if refused { Ins { key: spec::PANIC, cond: 0, regs: [0; 4], imm: ins.imm } } else { ins };
    Event { number, ins, charged, refused }
}

/// Arguments: [mode bits, ergs, words...]; mode bits: 0 kernel, 1 static, 2.. how the gates are asked.
fn machine<const N: usize, E: Enc<N>>(a: &[u64]) -> Verdict {
    let (kernel, is_static, how) = (a[0] & 1 != 0, a[0] & 2 != 0, (a[0] >> 2) % 3);
    let mut ergs = a[1] & 0xffff_ffff;
    let per_word = 32 / N;
    // the program in memory, packed by the model
    let wide = N == 16;
    let raw: Vec<u128> = if wide {
        a[2..].chunks(2).map(|c| u128::from(c[0]) | u128::from(c.get(1).copied().unwrap_or(0)) << 64).collect()
    } else {
        a[2..].iter().map(|w| u128::from(*w)).collect()
    };
    let mut memory = vec![];
    for chunk in raw.chunks(per_word) {
        let mut bytes = [0u8; 32];
        for (i, w) in chunk.iter().enumerate() {
            bytes[i * N..(i + 1) * N].copy_from_slice(&w.to_be_bytes()[16 - N..]);
        }
        memory.push(U256::from_big_endian(&bytes));
    }
    let (mut passed, mut refusals) = (0, 0);
    for pc in 0..raw.len() as u64 {
        let want = model_step(raw[pc as usize], kernel, is_static, ergs, E::disassemble);
        let counter = E::I::mk(pc);
        let (at, slot) = E::split_pc(counter);
        let at = at.val() as usize;
        ensure!(at < memory.len(), "counter {pc} leads to memory word {at} of {}", memory.len());
        let word = E::integer_representaiton_from_u256(memory[at], slot);
        let (mut d, n) = E::parse_preliminary_variant_and_absolute_number(word);
        let number = n.into_usize();
        ensure_eq!(number, want.number, "{} opcode number at {pc}", E::NAME);
        let mask = OPCODES_PROPS_INTEGER_BITMASKS[number];
        let aux = total_description_bits_rounded_for_version(DEFAULT_ISA_VERSION);
        let bit = |i: usize| mask >> (aux + i) & 1 == 1;
        let (needs_kernel, static_ok, panics, price) = match how {
            0 => (d.variant.requires_kernel_mode(), d.variant.can_be_used_in_static_context(), d.variant.is_explicit_panic(), OPCODES_PRICES[number]),
            1 => (
                bit(KERNER_MODE_FLAG_IDX),
                bit(CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX),
                bit(EXPLICIT_PANIC_FLAG_IDX),
                d.variant.ergs_price(),
            ),
            _ => (
                OPCODES_TABLE[number].opcode.requires_kernel_mode(),
                OPCODES_TABLE[number].opcode.can_be_used_in_static_context(),
                OPCODES_TABLE[number].is_explicit_panic(),
                OPCODES_TABLE[number].ergs_price(),
            ),
        };
        let price = u64::from(price);
        let charged = price.min(ergs);
        let refused = ergs < price || panics || (needs_kernel && !kernel) || (!static_ok && is_static);
        ensure_eq!(charged, want.charged, "{} charge at {pc} with {ergs} left", E::NAME);
        ensure_eq!(refused, want.refused, "{} instruction at {pc} refused (kernel {kernel}, static {is_static}, {ergs} left)", E::NAME);
        if refused {
            d.mask_into_panic();
            refusals += 1;
        } else {
            passed += 1;
        }
        ensure_eq!(E::read(&d)?, want.ins, "{} instruction executed at {pc}", E::NAME);
        // what is executed is itself a word of the instruction set
        let (again, _) = E::decode(d.serialize_as_integer().val())?;
        ensure_eq!(again, want.ins, "{} instruction executed at {pc}, re-encoded", E::NAME);
        ergs -= charged;
    }
    match (passed, refusals) {
        (0, 0) => trivial("empty program"),
        (_, 0) => real("everything passes"),
        (0, _) => real("everything refused"),
        _ => real("some pass, some refused"),
    }
}

fn machine_strategy(dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let nice: Vec<u64> = dict.iter().copied().chain([0, 1, u64::MAX]).collect();
    let number = prop_oneof![6 => 0..spec::n1(), 1 => 0..2048u64];
    let rest = prop_oneof![3 => any::<u64>(), 1 => proptest::sample::select(nice)];
    let word = prop_oneof![
        8 => (number, rest.clone()).prop_map(|(n, r)| n | r & !0x1fff),
        1 => rest,
    ];
    let ergs = prop_oneof![3 => Just(u64::from(u32::MAX) - 1), 2 => 0..10_000u64, 1 => 0..1_000_000u64, 1 => 0..=u64::from(u32::MAX)];
    (0..12u64, ergs, proptest::collection::vec(word, 0..40))
        .prop_map(|(m, e, w)| {
            let mut v = vec![m, e];
            v.extend(w);
            v
        })
        .boxed()
}

/// Every number in every mode, asked in every way, with just enough and just too few ergs.
fn each_number(a: &[u64]) -> Verdict {
    let price = u64::from(spec::key_at(1, a[0] as usize).spec().price);
    let ergs = if a[2] == 1 { price.saturating_sub(1) } else { price };
    let noise = a[0].wrapping_mul(0x9e37_79b9_7f4a_7c15);
    machine::<8, EncodingModeProduction>(&[a[1], ergs, a[0] | noise & !0x1fff])?;
    machine::<16, T16>(&[a[1], ergs, a[0] | noise & !0x1fff, noise.rotate_left(7)])
}

pub fn c28() -> Property {
    Property {
        id: "C28",
        rule: "every opcode number in kernel/user and static/normal mode with exactly enough and one erg too few, gates asked at each level, and random programs of up to 40 instructions run through fetch, decode, charge, gate and mask against a model machine; non-trivial unless the program is empty",
        assumptions: vec!["an instruction is refused when its price exceeds what is left, when it is an explicit panic, when it needs kernel mode outside of it, and when it is forbidden in a static context; refused instructions are masked into panic"],
        kinds: vec![
            Kind::exhaustive("each-number", vec![Below(2048), Below(12), Below(2)], each_number),
            Kind::history("program-64", machine_strategy, machine::<8, P8>).list(vec![Below(12), Bits(32)], Bits(64), 40).cases(30_000),
            Kind::history("program-128", machine_strategy, machine::<16, T16>).list(vec![Below(12), Bits(32)], Bits(64), 40).cases(30_000),
        ],
    }
}
