//! C25: first-use order, threads, processes, call history.

use crate::engine::{Arg, real, trivial, Kind, Property, Verdict};
use crate::ins::{Enc, Ins, P8, T16};
use crate::props::tables::{legal, num_legal, numbers_in, VERSIONS};
use crate::spec::{self, Key};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use zkevm_opcode_defs::decoding::VmEncodingMode;
use zkevm_opcode_defs::ethereum_types::Address;
use zkevm_opcode_defs::*;

pub const ACTIONS: u64 = 44;

fn hash(items: impl Iterator<Item = u64>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for i in items {
        for b in i.to_le_bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
        }
    }
    h
}

fn code(k: &Key) -> u64 {
    k.op as u64 | (k.src as u64) << 8 | (k.dst as u64) << 16 | (k.flags[0] as u64) << 24 | (k.flags[1] as u64) << 25
}

fn vcode(v: &OpcodeVariant) -> u64 {
    Key::of(v).map(|k| code(&k)).unwrap_or(u64::MAX)
}

fn bits_of(p: u64) -> usize {
    11 + (p % 4) as usize
}

fn version_of(p: u64) -> usize {
    (p / 4 % 2) as usize
}

fn mask_keys(p: u64) -> Vec<Key> {
    (0..5).map(|i| spec::key_at(1, ((p >> (i * 11)) & 0x7ff) as usize)).collect()
}

/// Lists of few different lengths but many different contents.
fn long_list(p: u64) -> (usize, Vec<Key>) {
    let n = num_legal();
    let len = [0, 1, 2, 16, 64, 1 << 10, (1 << 11) - 1, 1 << 11, 1 << 11, 1 << 12][(p % 10) as usize];
    let (start, stride) = (p >> 8 & 0x7ff, [1, 1, 2, 3, 7, n - 1, 0, 64][(p >> 24 & 7) as usize]);
    let version = (p >> 32 & 1) as usize;
    let keys = (0..len as u64).map(|i| {
        if p >> 36 & 1 == 1 {
            // a whole table, possibly of the other version
            spec::key_at((p >> 37 & 1) as usize, ((start & 3) + i) as usize)
        } else {
            legal((start + i * stride) % n)
        }
    });
    (version, keys.collect())
}

fn words_of(p: u64) -> Vec<[u8; 32]> {
    (0..p % 6).map(|i| [(p >> (8 + i * 8)) as u8; 32]).collect()
}

fn pointer_of(p: u64) -> FatPointer {
    FatPointer { offset: (p & 0xff) as u32, memory_page: (p >> 8) as u32, start: (p >> 32) as u32, length: (p >> 16) as u32 }
}

fn folded(x: [u64; 4]) -> u64 {
    hash(x.into_iter())
}

/// One of the lazily built addresses; the two actions ask for any of them and for the contracts' own.
fn address_of(action: u64, p: u64) -> (&'static str, fn() -> Address, u16) {
    let all = super::system::formal();
    match action {
        16 => all[(p >> 3) as usize % all.len()],
        _ => all[(p >> 3) as usize % 4],
    }
}

/// What the crate answers.
pub fn observe(action: u64, p: u64) -> u64 {
    match action {
        0 => hash(OPCODES_TABLE.iter().map(vcode)),
        1 => hash(OPCODES_PROPS_INTEGER_BITMASKS.iter().copied()),
        2 => {
            let mut all: Vec<(u64, u64)> = OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.iter().map(|(k, v)| (vcode(k), v.into_usize() as u64)).collect();
            all.sort_unstable();
            hash(all.into_iter().flat_map(|(a, b)| [a, b]))
        }
        3 => {
            let mut all: Vec<(u64, u64)> = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.iter().map(|(k, v)| (vcode(k), *v as u64)).collect();
            all.sort_unstable();
            hash(all.into_iter().flat_map(|(a, b)| [a, b]))
        }
        4 => vcode(&NOP_OPCODE_VARIANT),
        5 => *NOP_BITSPREAD_U64,
        6 => vcode(&PANIC_OPCODE_VARIANT),
        7 => *PANIC_BITSPREAD_U64,
        8 => hash(OPCODE_PROTOTYPES.iter().map(|o| o.max_variant_idx(VERSIONS[version_of(p)]) as u64)),
        9 => *NUM_LOGICAL_OPCODES as u64,
        10 => hash(OPCODES_PRICES.iter().map(|x| u64::from(*x))),
        11 => (*NUM_INPUT_VARIANTS * 16 + *NUM_OUTPUT_VARIANTS) as u64,
        12 => P8::nop_encoding(),
        13 => P8::exception_revert_encoding(),
        14 => T16::nop_encoding() as u64,
        15 => T16::exception_revert_encoding() as u64,
        16 | 17 => address_of(action, p).1().to_low_u64_be(),
        18 | 19 => hash(synthesize_opcode_decoding_tables(bits_of(p), VERSIONS[version_of(p)]).iter().map(vcode)),
        20 => hash(synthesize_opcode_decoding_tables_legacy(bits_of(p), VERSIONS[0]).iter().map(vcode)),
        21 => {
            let l: Vec<OpcodeVariant> = mask_keys(p).iter().map(|k| k.variant()).collect();
            hash(synthesize_bit_decomposition_table(&l, VERSIONS[version_of(p >> 7)]).into_iter())
        }
        22 | 23 => {
            let (d, n) = P8::parse_preliminary_variant_and_absolute_number(p);
            let Ok(i) = P8::read(&d) else { return u64::MAX };
            hash([n.into_usize() as u64, code(&i.key), i.cond, i.regs[0], i.regs[1], i.regs[2], i.regs[3], i.imm[0], i.imm[1]].into_iter())
        }
        24 => {
            let (d, n) = T16::parse_preliminary_variant_and_absolute_number(u128::from(p) << 17 | u128::from(p >> 47));
            let Ok(i) = T16::read(&d) else { return u64::MAX };
            hash([n.into_usize() as u64, code(&i.key), i.cond, i.regs[0], i.regs[1], i.regs[2], i.regs[3], i.imm[0], i.imm[1]].into_iter())
        }
        25 => {
            let i = Ins { key: spec::key_at(1, (p % spec::n1()) as usize), cond: p >> 20 & 7, regs: [p >> 24 & 15, p >> 28 & 15, 3, 4], imm: [p >> 32 & 0xffff, p >> 48] };
            P8::encode(&i) as u64
        }
        26 => {
            let i = Ins { key: spec::key_at(1, (p % spec::n1()) as usize), cond: p >> 20 & 7, regs: [p >> 24 & 15, p >> 28 & 15, 3, 4], imm: [p >> 32 & 0xffff, p >> 48] };
            let w = T16::encode(&i);
            w as u64 ^ (w >> 64) as u64
        }
        27 => {
            let v = VERSIONS[version_of(p)];
            hash([max_num_variants_for_version(v), max_num_flags_for_version(v), total_description_bits_for_version(v), total_opcode_description_and_aux_bits_for_version(v)].map(|x| x as u64).into_iter())
        }
        28 => hash(numbers_in(&compute_decoding_format(VERSIONS[version_of(p)])).into_iter()),
        29 => {
            let i = Ins { key: spec::key_at(1, (p & 0x7ff) as usize), cond: 1, regs: [1; 4], imm: [p >> 32 & 0xffff, p >> 48] };
            let mut d = P8::build(&i);
            if p >> 11 & 1 == 0 {
                d.mask_into_nop();
            } else {
                d.mask_into_panic();
            }
            d.serialize_as_integer()
        }
        30 => OPCODES_PRICES[(p & 0x7ff) as usize].into(),
        31 | 32 => {
            let (version, keys) = long_list(p);
            let l: Vec<OpcodeVariant> = keys.iter().map(|k| k.variant()).collect();
            hash(synthesize_bit_decomposition_table(&l, VERSIONS[version]).into_iter())
        }
        33 => match bytecode_to_code_hash(&words_of(p)) {
            Ok(h) => hash(h.into_iter().map(u64::from)),
            Err(()) => 0,
        },
        34 => folded(pointer_of(p).to_u256().0) ^ pointer_of(p).validate(p >> 50 & 1 == 1).bits(),
        35 => hash(ISAVersion::all_backward_compatible_versions(VERSIONS[version_of(p)]).into_iter().map(|v| u64::from(v.0))),
        36 => hash(OPCODE_PROTOTYPES.iter().flat_map(|o| o.variants_data(VERSIONS[version_of(p)])).flat_map(|d| {
            [d.variant_idx as u64, d.num_non_exclusive_flags as u64]
        })),
        37 => {
            // text that depends on anything else than the instruction would differ between the two
            let i = Ins { key: spec::key_at(1, (p & 0x7ff) as usize), cond: p >> 11 & 7, regs: [p >> 14 & 15, p >> 18 & 15, p >> 22 & 15, p >> 26 & 15], imm: [p >> 32 & 0xffff, p >> 48] };
            let j = Ins { regs: [15, 15, 15, 15], ..i };
            let before = P8::build(&i).to_string();
            let _ = P8::build(&j).to_string();
            (before == P8::build(&i).to_string()).into()
        }
        // calls that are refused, or that nothing is said about: only what comes after them counts
        38..=41 => {
            let _ = crate::engine::quiet(|| misuse(action - 38, p));
            0
        }
        _ => OPCODES_TABLE[(p & 0x7ff) as usize].ergs_price().into(),
    }
}

fn ignore<T>(t: T) {
    std::hint::black_box(t);
}

fn misuse(what: u64, p: u64) {
    match what {
        0 | 1 => {
            // mostly illegal combinations
            let key = Key::nth(p % spec::NUM_KEYS);
            let i = Ins { key, cond: p >> 20 & 7, regs: [p >> 24 & 15, p >> 28 & 15, p >> 40 & 15, p >> 44 & 15], imm: [p >> 32 & 0xffff, p >> 48] };
            match (what, p >> 19 & 1) {
                (0, 0) => ignore(P8::build(&i).serialize_as_integer()),
                (0, _) => ignore(P8::build(&i).serialize_as_bytes()),
                (_, 0) => ignore(T16::build(&i).serialize_as_integer()),
                _ => ignore(T16::build(&i).serialize_as_bytes()),
            }
        }
        2 => super::tables::too_narrow(p % 24),
        _ => match p & 3 {
            0 => ignore(P8::integer_representaiton_from_u256(ethereum_types::U256([p, p, p, p]), 4 + (p >> 4) as u16 % 100)),
            1 => ignore(Condition::materialize_variant(8 + (p >> 2) as usize % 1000)),
            2 => {
                let all = all_opcode_prototypes();
                ignore(all[(p >> 2) as usize % all.len()].materialize_subvariant_from_prototype(10 + (p >> 8) as usize % 300, &VERSIONS[version_of(p >> 20)]));
            }
            _ => ignore(bytecode_to_code_hash(&vec![[p as u8; 32]; (p >> 4) as usize % 4 * 2])),
        },
    }
}

/// What the reference model says it must answer.
pub fn expected(action: u64, p: u64) -> u64 {
    let table = |bits: usize, version: usize| hash((0..1usize << bits).map(|n| code(&spec::key_at(version, n))));
    let map = || {
        let mut all: Vec<(u64, u64)> = spec::assigned(1).iter().enumerate().map(|(n, k)| (code(k), n as u64)).collect();
        all.sort_unstable();
        hash(all.into_iter().flat_map(|(a, b)| [a, b]))
    };
    let nop = spec::number_of(&spec::NOP).unwrap() as u64;
    let panic = spec::number_of(&spec::PANIC).unwrap() as u64;
    let fields = |(i, n): (Ins, usize)| hash([n as u64, code(&i.key), i.cond, i.regs[0], i.regs[1], i.regs[2], i.regs[3], i.imm[0], i.imm[1]].into_iter());
    match action {
        0 => table(11, 1),
        1 => hash((0..2048).map(|n| spec::bitmask(&spec::key_at(1, n)))),
        2 | 3 => map(),
        4 => code(&spec::NOP),
        5 => spec::bitmask(&spec::NOP),
        6 => code(&spec::PANIC),
        7 => spec::bitmask(&spec::PANIC),
        8 => hash(super::tables::FAMILY_ORDER.iter().map(|b| spec::FAM_SIZES[*b] as u64 - 1)),
        9 => 16,
        10 => hash((0..2048).map(|n| spec::key_at(1, n).spec().price.into())),
        11 => 6 * 16 + 4,
        12 | 14 => nop,
        13 | 15 => panic,
        16 | 17 => u64::from(address_of(action, p).2),
        18 | 19 => table(bits_of(p), version_of(p)),
        20 => table(bits_of(p), 0),
        21 => hash(mask_keys(p).iter().map(spec::bitmask)),
        22 | 23 => fields(P8::disassemble(p.into())),
        24 => fields(T16::disassemble(u128::from(p) << 17 | u128::from(p >> 47))),
        25 | 26 => {
            let i = Ins { key: spec::key_at(1, (p % spec::n1()) as usize), cond: p >> 20 & 7, regs: [p >> 24 & 15, p >> 28 & 15, 3, 4], imm: [p >> 32 & 0xffff, p >> 48] };
            if action == 25 {
                P8::assemble(p % spec::n1(), &i) as u64
            } else {
                let w = T16::assemble(p % spec::n1(), &i);
                w as u64 ^ (w >> 64) as u64
            }
        }
        27 => hash([10, 2, 38, 51].into_iter()),
        28 => hash([38, 16, 10, 2, 6, 4].into_iter()),
        29 => (if p >> 11 & 1 == 0 { nop } else { panic }) | (p >> 32) << 32,
        31 | 32 => hash(long_list(p).1.iter().map(spec::bitmask)),
        33 => match super::hash::reference(&words_of(p), 65535) {
            Some(h) => hash(h.into_iter().map(u64::from)),
            None => 0,
        },
        34 => {
            let f = pointer_of(p);
            let (lo, hi) = (u64::from(f.offset) | u64::from(f.memory_page) << 32, u64::from(f.start) | u64::from(f.length) << 32);
            let mut e = 0;
            if p >> 50 & 1 == 1 && f.offset != 0 {
                e |= 1;
            }
            if u64::from(f.start) + u64::from(f.length) >= 1 << 32 {
                e |= 2;
            }
            folded([lo, hi, 0, 0]) ^ e
        }
        35 => hash((0..=version_of(p)).map(|v| v as u64)),
        36 => hash(super::tables::FAMILY_ORDER.iter().flat_map(|b| {
            (0..spec::FAM_SIZES[*b]).flat_map(move |sub| {
                let op = spec::ops().iter().find(|o| o.fam_bit == *b && o.sub == sub).unwrap();
                [sub as u64, op.nflags as u64]
            })
        })),
        37 => 1,
        38..=41 => 0,
        _ => spec::key_at(1, (p & 0x7ff) as usize).spec().price.into(),
    }
}

pub fn action_of(x: u64) -> (u64, u64) {
    (x % ACTIONS, x / ACTIONS | (x % 7) << 59)
}

/// Words quoted in the sources: a thread or a variable of that name must make no difference.
fn words() -> &'static [String] {
    static W: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let repo = std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into());
        crate::engine::quoted_words(&std::path::Path::new(&repo).join("src"))
    })
}

/// 0: nothing special; otherwise a word, and the value of the variable of that name.
pub fn surroundings(x: u64) -> Option<(&'static str, &'static str)> {
    let w = words();
    if x == 0 || w.is_empty() {
        return None;
    }
    let value = ["1", "0", "true", "false", "2", ""][(x - 1) as usize / w.len() % 6];
    Some((&w[(x - 1) as usize % w.len()], value))
}

/// The child: threads take actions in order from their own lists, all starting together.
pub fn child(threads: usize, steps: &[u64]) {
    let barrier = std::sync::Barrier::new(threads);
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (barrier, out) = (&barrier, &out);
            let name = std::env::var("VH_THREAD").unwrap_or_else(|_| format!("{t}"));
            let body = move || {
                barrier.wait();
                for (i, x) in steps.iter().enumerate() {
                    if i % threads == t {
                        let (a, p) = action_of(*x);
                        let v = crate::engine::quiet(|| observe(a, p));
                        out.lock().unwrap().push((i, v));
                    }
                }
            };
            std::thread::Builder::new().name(name).spawn_scoped(s, body).unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (i, r) in v {
        match r {
            Ok(v) => println!("{i} {v:x}"),
            Err(m) => println!("{i} panic {m}"),
        }
    }
}

/// [threads, surroundings, step...] in a fresh process
fn process(a: &[u64]) -> Verdict {
    let threads = (a[0] % 8 + 1) as usize;
    let steps = &a[2..];
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.arg("fingerprint").arg(threads.to_string()).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null());
    c.args(steps.iter().map(|s| s.to_string()));
    if let Some((name, value)) = surroundings(a[1]) {
        c.env("VH_THREAD", name).env(name, value);
    }
    let mut kid = match c.spawn() {
        Ok(k) => k,
        Err(e) => {
            eprintln!("error: C25 machinery: cannot start a process: {e}");
            std::process::exit(2);
        }
    };
    let begin = Instant::now();
    let mut wait = Duration::from_millis(2);
    let done = loop {
        match kid.try_wait() {
            Ok(Some(_)) => break true,
            _ if begin.elapsed() > Duration::from_secs(120) => break false,
            _ => {
                std::thread::sleep(wait);
                wait = (wait * 2).min(Duration::from_millis(100));
            }
        }
    };
    if !done {
        let _ = kid.kill();
        let _ = kid.wait();
        return Err(format!("{threads} threads taking {} steps did not finish", steps.len()));
    }
    let out = kid.wait_with_output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let lines: Vec<&str> = text.lines().collect();
    ensure_eq!(lines.len(), steps.len(), "answers from the process (exit {:?})", out.status.code());
    for (i, (l, s)) in lines.iter().zip(steps).enumerate() {
        let (act, p) = action_of(*s);
        ensure_eq!(*l, format!("{i} {:x}", expected(act, p)), "step {i}, action {act} with {p:#x}, in a fresh process with {threads} threads");
    }
    match (threads, steps.len()) {
        (_, 0) => trivial("no steps"),
        (1, _) => real("fresh process, one thread"),
        _ => real("fresh process, several threads"),
    }
}

/// The same in this process, after whatever happened before.
fn history(a: &[u64]) -> Verdict {
    for (i, s) in a.iter().enumerate() {
        let (act, p) = action_of(*s);
        let first = observe(act, p);
        let second = observe(act, p);
        ensure_eq!(first, expected(act, p), "step {i}, action {act} with {p:#x}");
        ensure_eq!(second, first, "step {i}, action {act} with {p:#x}, asked again");
    }
    ensure!(a.len() < 1000, "too long");
    if a.len() > 1 {
        real("history")
    } else {
        trivial("one step")
    }
}

fn steps(max: usize) -> BoxedStrategy<Vec<u64>> {
    let step = (0..ACTIONS, 0..(1u64 << 58)).prop_map(|(a, p)| p / ACTIONS * ACTIONS + a);
    proptest::collection::vec(step, 1..=max).boxed()
}

fn process_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (0..8u64, prop_oneof![1 => Just(0u64), 1 => 0..4096u64], steps(24))
        .prop_map(|(t, e, mut s)| {
            s.splice(0..0, [t, e]);
            s
        })
        .boxed()
}

fn history_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    steps(12)
}

pub fn c25() -> Property {
    // every action as the very first use in a process, alone and on eight threads at once
    let mut seeds = vec![];
    for a in 0..ACTIONS {
        let other = |k: u64| (k * 77 + 5) * ACTIONS + (a + k) % ACTIONS;
        seeds.push(vec![0, 0, 9 * ACTIONS + a, other(1), other(2)]);
        seeds.push([7, 0].into_iter().chain((1..9).map(|k| (k + 40) * ACTIONS + a)).collect());
    }
    // everything once, in surroundings the sources mention
    for w in 1..=words().len() as u64 {
        let mut all = vec![1, w];
        all.extend((0..ACTIONS).map(|a| (w * 31 + 7) * ACTIONS + a));
        // a long list in particular: a whole table
        all.push(((1u64 << 36 | 1 << 37 | 1 << 32) / 10 * 10 + 7) * ACTIONS + 31);
        seeds.push(all);
    }
    Property {
        id: "C25",
        rule: "histories of table uses and table-building calls, in fresh processes with 1-8 threads (also with threads and environment variables named by words quoted in the sources) and in one long-lived process, every answer compared with the reference model; non-trivial unless the history has at most one step",
        assumptions: vec!["thread interleavings are the operating system's, not enumerated", "a process that has not answered after two minutes never will"],
        kinds: vec![
            Kind::history("process", process_strategy, process).list(vec![Arg::Below(8), Arg::Below(4096)], Arg::Bits(64), 24).cases(1_600).thorough(10).max_shrink(200).seeds(seeds).no_fuzz(),
            Kind::history("history", history_strategy, history).list(vec![], Arg::Bits(64), 24).cases(2_000).thorough(30).max_shrink(300).no_fuzz(),
        ],
    }
}
