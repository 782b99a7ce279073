//! C29-C31: memory growth and code loading, time and pages, published data.

use super::prices::price_of;
use crate::engine::{real, trivial, Arg::*, Kind, Property, Verdict};
use crate::spec;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use std::collections::HashMap;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::system_params as sp;
use zkevm_opcode_defs::*;

const HEAP_READ: usize = 40;
const FAT_READ: usize = 44;
const FAR: usize = 34;

// ---------------------------------------------------------------- C29

#[derive(Clone, Copy, Debug, PartialEq)]
struct Frame {
    ergs: u64,
    /// heap, auxiliary heap
    size: [u64; 2],
    /// ergs paid for growth of each
    paid: [u64; 2],
}

/// What one step did, in the words of the statement.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Did {
    Refused,
    Within,
    Grew(u64),
    OutOfErgs,
    Called { cost: u64, passed: u64 },
    Returned,
    Nothing,
}

/// Where the two machines differ: one asks the library and computes in 32 bits as a VM does, the
/// other has the statement's numbers and computes in 64 bits.
trait Rules {
    fn price(&self, op: usize, how: u64) -> Result<u64, String>;
    /// end of the access, or None when it may not be dereferenced
    fn end(&self, offset: &[u64; 4]) -> Result<Option<u64>, String>;
    fn growth(&self, bytes: u64) -> Result<u64, String>;
    fn code(&self, hash: &[u8; 32]) -> Result<Option<u64>, String>;
    fn passed(&self, abi: &[u64; 4]) -> u64;
    fn stipend(&self) -> u64;
    fn bootloader(&self) -> u64;
    fn initial(&self) -> u64;
}

struct Library;
struct Statement;

fn fits(v: u64, what: &str) -> Result<u64, String> {
    u32::try_from(v).map(u64::from).map_err(|_| format!("{what} {v} does not fit 32 bits"))
}

impl Rules for Library {
    fn price(&self, op: usize, how: u64) -> Result<u64, String> {
        Ok(price_of(op, how))
    }
    fn end(&self, o: &[u64; 4]) -> Result<Option<u64>, String> {
        if U256(*o) > MAX_OFFSET_TO_DEREF {
            return Ok(None);
        }
        fits(o[0] + 32, "end of a dereferenceable access").map(Some)
    }
    fn growth(&self, bytes: u64) -> Result<u64, String> {
        fits(bytes * u64::from(MEMORY_GROWTH_ERGS_PER_BYTE), "growth cost")
    }
    fn code(&self, hash: &[u8; 32]) -> Result<Option<u64>, String> {
        let Some(h) = VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(*hash) else {
            return Ok(None);
        };
        let words = u64::from(h.layout_ref().code_length_in_words);
        fits(words * u64::from(ERGS_PER_CODE_WORD_DECOMMITTMENT), "cost of loading code").map(Some)
    }
    fn passed(&self, abi: &[u64; 4]) -> u64 {
        u64::from(FarCallABI::from_u256(U256(*abi)).ergs_passed)
    }
    fn stipend(&self) -> u64 {
        u64::from(sp::NEW_FRAME_MEMORY_STIPEND)
    }
    fn bootloader(&self) -> u64 {
        u64::from(sp::BOOTLOADER_MAX_MEMORY)
    }
    fn initial(&self) -> u64 {
        u64::from(sp::VM_INITIAL_FRAME_ERGS)
    }
}

impl Rules for Statement {
    fn price(&self, op: usize, _how: u64) -> Result<u64, String> {
        Ok(u64::from(spec::ops()[op].price))
    }
    fn end(&self, o: &[u64; 4]) -> Result<Option<u64>, String> {
        Ok((o[1..] == [0, 0, 0] && o[0] <= (1 << 32) - 33).then(|| o[0] + 32))
    }
    fn growth(&self, bytes: u64) -> Result<u64, String> {
        Ok(bytes)
    }
    fn code(&self, hash: &[u8; 32]) -> Result<Option<u64>, String> {
        Ok((hash[0] == 1).then(|| 4 * (u64::from(hash[2]) * 256 + u64::from(hash[3]))))
    }
    fn passed(&self, abi: &[u64; 4]) -> u64 {
        abi[3] & 0xffff_ffff
    }
    fn stipend(&self) -> u64 {
        1024
    }
    fn bootloader(&self) -> u64 {
        0xffff_ffff
    }
    fn initial(&self) -> u64 {
        0xffff_ffff
    }
}

fn limb(x: u64) -> u64 {
    x.wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29) ^ x
}

/// Bits 0-1: access, access, call, return.
fn step(r: &dyn Rules, frames: &mut Vec<Frame>, s: u64) -> Result<Did, String> {
    let payload = s >> 2;
    match s & 3 {
        0 | 1 => {
            let op = HEAP_READ + (payload & 7) as usize % 5;
            let how = (payload >> 3) & 3;
            // a 33-bit offset, rarely with something in the upper limbs
            let low = (payload >> 9) & 0x1_ffff_ffff;
            let high = (payload >> 5) & 15;
            let offset = [low, u64::from(high == 1), u64::from(high == 2), u64::from(high == 3) << 63];
            let price = r.price(op, how)?;
            let end = r.end(&offset)?;
            let f = frames.last_mut().unwrap();
            if f.ergs < price {
                return Ok(out(frames));
            }
            f.ergs -= price;
            let Some(end) = end else { return Ok(Did::Refused) };
            if op == FAT_READ {
                return Ok(Did::Within);
            }
            let which = (op - HEAP_READ) / 2;
            if end <= f.size[which] {
                return Ok(Did::Within);
            }
            let cost = r.growth(end - f.size[which])?;
            if f.ergs < cost {
                return Ok(out(frames));
            }
            f.ergs -= cost;
            f.paid[which] += cost;
            f.size[which] = end;
            Ok(Did::Grew(cost))
        }
        2 => {
            let ergs = payload & 0xffff_ffff;
            let words = ((payload >> 32) & 0xffff) as u16;
            let marker = (payload >> 48) as u8;
            let op = FAR + (payload >> 56) as usize % 3;
            let other = (payload >> 58) & 15 == 0;
            let mut hash = [0u8; 32];
            hash[0] = if other { marker } else { 1 };
            hash[1] = marker;
            hash[2..4].copy_from_slice(&words.to_be_bytes());
            for (i, b) in hash[4..].iter_mut().enumerate() {
                *b = (limb(payload + i as u64) >> 13) as u8;
            }
            let abi = [limb(payload), limb(payload ^ 1), limb(payload ^ 2), ergs | (limb(payload ^ 3) << 32)];
            let price = r.price(op, payload >> 60)?;
            let code = r.code(&hash)?;
            let f = frames.last_mut().unwrap();
            let Some(code) = code else { return Ok(Did::Refused) };
            let cost = price + code;
            if f.ergs < cost {
                return Ok(out(frames));
            }
            f.ergs -= cost;
            let passed = r.passed(&abi).min(f.ergs / 64 * 63);
            f.ergs -= passed;
            let size = r.stipend();
            frames.push(Frame { ergs: passed, size: [size; 2], paid: [0; 2] });
            Ok(Did::Called { cost, passed })
        }
        _ => {
            let price = r.price(37 + payload as usize % 3, payload >> 8)?;
            let f = frames.last_mut().unwrap();
            if f.ergs < price {
                return Ok(out(frames));
            }
            f.ergs -= price;
            if frames.len() == 1 {
                return Ok(Did::Nothing);
            }
            let left = frames.pop().unwrap().ergs;
            frames.last_mut().unwrap().ergs += left;
            Ok(Did::Returned)
        }
    }
}

fn out(frames: &mut Vec<Frame>) -> Did {
    if frames.len() == 1 {
        frames[0].ergs = 0;
    } else {
        frames.pop();
    }
    Did::OutOfErgs
}

fn memory(a: &[u64]) -> Verdict {
    let first = |r: &dyn Rules| vec![Frame { ergs: r.initial(), size: [r.bootloader(); 2], paid: [0; 2] }];
    let (mut got, mut want) = (first(&Library), first(&Statement));
    ensure_eq!(got, want, "the bootloader's frame");
    let (mut grew, mut called, mut refused) = (false, false, false);
    for (i, s) in a.iter().enumerate() {
        let g = step(&Library, &mut got, *s).map_err(|m| format!("step {i}: {m}"))?;
        let w = step(&Statement, &mut want, *s)?;
        ensure_eq!(g, w, "step {i}");
        ensure_eq!(got, want, "frames after step {i}");
        for (d, f) in got.iter().enumerate().skip(1) {
            for h in 0..2 {
                ensure!(f.size[h] <= 1024 + f.paid[h], "frame {d} holds {} bytes, having paid {}", f.size[h], f.paid[h]);
            }
        }
        grew |= matches!(g, Did::Grew(_));
        called |= matches!(g, Did::Called { .. });
        refused |= matches!(g, Did::Refused | Did::OutOfErgs);
    }
    match (grew, refused, called) {
        (true, true, _) => real("growth and refusals"),
        (true, false, _) => real("growth"),
        (false, true, _) => real("refusals"),
        (false, false, true) => real("calls"),
        _ => trivial("no growth, call or refusal"),
    }
}

/// [offset low limb (34 bits), upper limb, bytes already held]
fn growth(a: &[u64]) -> Verdict {
    let offset = [a[0], a[1], 0, 0];
    let (g, w) = (Library.end(&offset)?, Statement.end(&offset)?);
    ensure_eq!(g, w, "end of an access at {:#x}", a[0]);
    let Some(end) = g else { return real("not dereferenceable") };
    ensure!(end <= Library.bootloader(), "access at {:#x} leaves the bootloader's memory", a[0]);
    let held = a[2].max(Library.stipend());
    if end <= held {
        return real("within what is held");
    }
    ensure_eq!(Library.growth(end - held)?, end - held, "cost of growing from {held} to {end}");
    real("growth")
}

/// [words]
fn loading(a: &[u64]) -> Verdict {
    let mut hash = [0x5au8; 32];
    hash[0] = 1;
    hash[2..4].copy_from_slice(&(a[0] as u16).to_be_bytes());
    let cost = Library.code(&hash)?.ok_or("a code hash of version 1 does not parse")?;
    ensure_eq!(cost, 4 * a[0], "cost of loading {} words", a[0]);
    let covered = cost <= u64::from(sp::DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD);
    ensure_eq!(covered, a[0] <= 16000, "loading {} words covered by the value-transfer overhead", a[0]);
    let more = u64::from(sp::MSG_VALUE_SIMULATOR_ADDITIVE_COST) - u64::from(sp::DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD);
    ensure_eq!(more, 11500, "value-transfer cost beyond loading code");
    let used = u64::from(sp::MSG_VALUE_SIMULATOR_MIN_USED_ERGS) - u64::from(sp::DECOMMITMENT_MSG_VALUE_SIMULATOR_OVERHEAD);
    ensure_eq!(used, 8000, "value-transfer minimum beyond loading code");
    real("code length")
}

fn access(op: u64, how: u64, high: u64, offset: u64) -> u64 {
    (op | how << 3 | high << 5 | offset << 9) << 2
}
fn call(ergs: u64, words: u64, rest: u64) -> u64 {
    (ergs | words << 32 | rest << 48) << 2 | 2
}

fn memory_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let offset = prop_oneof![
        3 => 0..4096u64,
        2 => 980..1030u64,
        2 => 0..0x1_0000u64,
        2 => 0..0x1_0000_0000u64,
        2 => 0xffff_ff80..=0x1_0000_0040u64,
        1 => 0..0x2_0000_0000u64,
    ];
    let words = prop_oneof![2 => 0..300u64, 2 => 0..0x1_0000u64, 1 => Just(0xffffu64)];
    let ergs = prop_oneof![2 => 0..5000u64, 3 => 0..=0xffff_ffffu64, 2 => Just(0xffff_ffffu64)];
    let one = prop_oneof![
        6 => (0..5u64, 0..4u64, prop_oneof![6 => Just(0u64), 1 => 0..16u64], offset).prop_map(|(o, h, u, x)| access(o, h, u, x)),
        3 => (ergs, words, 0..0x4000u64).prop_map(|(e, w, r)| call(e, w, r)),
        1 => (any::<u64>()).prop_map(|x| x << 2 | 3),
        1 => any::<u64>(),
    ];
    // mostly below the bootloader, whose memory does not grow
    (any::<bool>(), proptest::collection::vec(one, 1..40))
        .prop_map(|(b, mut v)| {
            if b {
                v.insert(0, call(0xffff_ffff, 1, 0x1100));
            }
            v
        })
        .boxed()
}

pub fn c29() -> Property {
    let enter = call(0xffff_ffff, 1, 0x1100);
    let seeds = vec![
        vec![enter, access(0, 0, 0, 992), access(0, 0, 0, 993), access(1, 0, 0, 993)],
        vec![enter, access(3, 0, 0, 0xffff_ffdf)],
        vec![enter, access(3, 0, 0, 0xffff_ffe0)],
        vec![access(1, 0, 0, 0xffff_ffdf), access(4, 1, 0, 0xffff_ffff)],
        vec![enter, call(0xffff_ffff, 0xffff, 0x1100), access(2, 1, 0, 0xfff), 3],
    ];
    Property {
        id: "C29",
        rule: "histories of heap accesses, far calls and returns run by two machines, one asking the library and computing in 32 bits, one having the statement's numbers; single accesses by offset and size held; every code length; non-trivial when something grows, is called or is refused",
        assumptions: vec!["a call passes at most 63/64 of the ergs left, as the VM does", "heaps grow to the end of the access"],
        kinds: vec![
            Kind::history("frames", memory_strategy, memory).list(vec![], Bits(64), 40).cases(60_000).seeds(seeds),
            Kind::sweep("growth", vec![Bits(34), Below(3), Bits(32)], growth).cases(200_000).no_fuzz(),
            Kind::exhaustive("code-lengths", vec![Bits(16)], loading),
        ],
    }
}

// ---------------------------------------------------------------- C30

/// [how to ask for prices, then operations with repeat counts as in C23]
fn time(a: &[u64]) -> Verdict {
    let mut ergs = u64::from(sp::VM_INITIAL_FRAME_ERGS);
    ensure_eq!(ergs, 0xffff_ffff, "ergs of the initial frame");
    let (delta, per) = (u64::from(TIME_DELTA_PER_CYCLE), u64::from(NEW_MEMORY_PAGES_PER_FAR_CALL));
    ensure!(delta >= 4, "a cycle of {delta} timestamps has no room for its four memory phases");
    let mut next_time = u64::from(STARTING_TIMESTAMP);
    let mut next_page = u64::from(STARTING_BASE_PAGE);
    ensure_eq!((next_time, delta, next_page, per), (1024, 4, 2048, 8), "time and page conventions");
    let (mut cycles, mut far_calls) = (0u64, 0u64);
    for s in &a[1..] {
        let op = (s % spec::NUM_OPS as u64) as usize;
        let n = (s / 64) & 0xffff_ffff;
        let price = price_of(op, a[0] + (s >> 61));
        ensure!(price > 0, "operation {} is free", spec::ops()[op].name);
        let n = n.min(ergs / price);
        ergs -= n * price;
        // the last of these n cycles: its last phase must still have a timestamp
        let last = next_time + n * delta;
        ensure!(last - 1 <= 0xffff_ffff, "timestamp {} of cycle {} does not fit 32 bits", last - 1, cycles + n);
        next_time = last;
        cycles += n;
        if (FAR..FAR + 3).contains(&op) {
            let last = next_page + n * per;
            ensure!(last - 1 <= 0xffff_ffff, "page {} of far call {} does not fit 32 bits", last - 1, far_calls + n);
            next_page = last;
            far_calls += n;
        }
    }
    if far_calls > 0 {
        real("cycles and far calls")
    } else if cycles > 0 {
        real("cycles")
    } else {
        trivial("nothing affordable")
    }
}

/// [first cycle, phase, second cycle, phase]: cycles that the initial ergs can pay
fn phases(a: &[u64]) -> Verdict {
    let cheapest = (1..spec::NUM_OPS).map(|o| price_of(o, 0)).min().unwrap();
    ensure!(cheapest > 0, "a free operation");
    let most = u64::from(sp::VM_INITIAL_FRAME_ERGS) / cheapest;
    let (x, y) = (a[0] % most, a[2] % most);
    let stamp = |c: u64, p: u64| u64::from(STARTING_TIMESTAMP) + c * u64::from(TIME_DELTA_PER_CYCLE) + p;
    let (s, t) = (stamp(x, a[1]), stamp(y, a[3]));
    ensure_eq!(s.cmp(&t), (x, a[1]).cmp(&(y, a[3])), "order of phase {} of cycle {x} and phase {} of cycle {y}", a[1], a[3]);
    ensure!(s <= 0xffff_ffff, "timestamp {s} does not fit 32 bits");
    ensure!(s >= 1024, "timestamp {s} before the start");
    real("two phases")
}

/// [pc]: the initial frame's exits
fn exits(a: &[u64]) -> Verdict {
    let (ok, eh) = (u64::from(sp::INITIAL_FRAME_SUCCESSFUL_EXIT_PC), u64::from(sp::INITIAL_FRAME_FORMAL_EH_LOCATION));
    let which = match a[0] {
        0 => (true, false),
        0xffff => (false, true),
        _ => (false, false),
    };
    ensure_eq!((a[0] == ok, a[0] == eh), which, "exit kinds of the initial frame at counter {}", a[0]);
    ensure_eq!((INITIAL_SP_ON_FAR_CALL, MAX_PENDING_CYCLES), (0, 1), "stack pointer on entry, pending cycles");
    real("counter")
}

fn time_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let op = prop_oneof![3 => 1..spec::NUM_OPS as u64, 2 => 19..29u64, 2 => 34..37u64, 1 => 37..40u64];
    let count = prop_oneof![3 => 1..=1000u64, 3 => 1..=0xffff_ffffu64, 2 => Just(0xffff_ffffu64)];
    let step = (op, count, 0..3u64).prop_map(|(op, n, how)| {
        let base = n * 64 + (how << 61);
        let m = spec::NUM_OPS as u64;
        base + (op + m - base % m) % m
    });
    (0..3u64, proptest::collection::vec(step, 1..24))
        .prop_map(|(h, mut v)| {
            v.insert(0, h);
            v
        })
        .boxed()
}

pub fn c30() -> Property {
    let m = spec::NUM_OPS as u64;
    let seeds = (1..m)
        .flat_map(|op| {
            let base = 0xffff_ffffu64 * 64;
            let s = base + (op + m - base % m) % m;
            [vec![0, s], vec![1, s], vec![2, s]]
        })
        .collect();
    Property {
        id: "C30",
        rule: "runs of operations with repeat counts from the initial frame's ergs, each operation alone to exhaustion as a seed; pairs of phases of affordable cycles; every 16-bit counter as an exit of the initial frame; non-trivial when at least one cycle is affordable",
        assumptions: vec!["a cycle has four memory phases", "a skipped instruction is charged as a no-op, which is not the cheapest operation"],
        kinds: vec![
            Kind::history("runs", time_strategy, time).list(vec![Below(3)], Bits(64), 24).cases(60_000).seeds(seeds).no_fuzz(),
            Kind::sweep("phases", vec![Bits(32), Below(4), Bits(32), Below(4)], phases).cases(200_000).no_fuzz(),
            Kind::exhaustive("exits", vec![Bits(16)], exits),
        ],
    }
}

// ---------------------------------------------------------------- C31

/// Elements: bits 0-1: write, write, run of writes to fresh slots, messages; the rest slot and count.
fn published(a: &[u64]) -> Verdict {
    let limit = u64::from(sp::MAX_PUBDATA_PER_BLOCK);
    let first = sp::INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u64;
    let again = sp::REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u64;
    let message = u64::from(sp::L1_MESSAGE_PUBDATA_BYTES);
    ensure_eq!(limit, 110_000, "limit of published bytes");
    let mut written: HashMap<u64, u64> = HashMap::new();
    let (mut bytes, mut model) = (0u64, 0u64);
    let (mut initial, mut repeated, mut messages) = (0u64, 0u64, 0u64);
    let mut fresh = 1 << 40;
    let mut full = false;
    for s in a {
        let n = 1 + ((s >> 2) & 0x1fff);
        let slot = (s >> 15) & 0x3ff;
        for _ in 0..n {
            let (cost, want, count): (u64, u64, &mut u64) = match s & 3 {
                0 | 1 if written.contains_key(&slot) => (again, 8 + 32, &mut repeated),
                0 | 1 => (first, 32 + 32, &mut initial),
                2 => {
                    fresh += 1;
                    (first, 32 + 32, &mut initial)
                }
                _ => (message, 1 + 1 + 2 + 20 + 32 + 32, &mut messages),
            };
            ensure_eq!(cost, want, "published bytes of kind {}", s & 3);
            if bytes + cost > limit {
                full = true;
                break;
            }
            bytes += cost;
            model += want;
            *count += 1;
            if s & 3 < 2 {
                *written.entry(slot).or_default() += 1;
            } else if s & 3 == 2 {
                written.insert(fresh, 1);
            }
        }
        ensure!(initial <= 4600, "{initial} initial writes in one block");
        ensure!(repeated <= 7400, "{repeated} repeated writes in one block");
        ensure!(bytes <= limit && bytes == model, "{bytes} bytes published, {model} expected");
    }
    // one value transfer may write both balances for the first time
    let prepaid = u64::from(sp::MSG_VALUE_SIMULATOR_PUBDATA_BYTES_TO_PREPAY);
    ensure!(prepaid >= 2 * first, "{prepaid} prepaid bytes do not cover two first writes of {first}");
    ensure_eq!(prepaid, 128, "bytes prepaid for a value transfer");
    // 128 KiB less at least 10 KiB
    ensure!(limit + 10 * 1024 <= 128 * 1024, "published bytes leave no margin below 128 KiB");
    match (full, repeated > 0, messages > 0) {
        (true, _, _) => real("full block"),
        (_, true, true) => real("repeated writes and messages"),
        (_, true, false) => real("repeated writes"),
        (_, false, true) => real("messages"),
        _ => real("first writes"),
    }
}

fn published_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let count = prop_oneof![5 => 0..8u64, 2 => 0..400u64, 2 => 0..0x2000u64];
    let slot = prop_oneof![3 => 0..6u64, 1 => 0..1024u64];
    let one = (0..4u64, count, slot).prop_map(|(k, n, s)| k | n << 2 | s << 15);
    proptest::collection::vec(one, 1..40).boxed()
}

pub fn c31() -> Property {
    Property {
        id: "C31",
        rule: "histories of first and repeated storage writes to up to 1024 slots, runs of writes to fresh slots and messages, cut where the block's limit refuses the next; every non-empty history counts",
        assumptions: vec!["the hashing circuits take 4600 initial and 7400 repeated writes, as in the price generator"],
        kinds: vec![Kind::history("blocks", published_strategy, published)
            .list(vec![], Bits(25), 40)
            .cases(20_000)
            .thorough(20)
            .seeds(vec![vec![2 | 0x1fff << 2], vec![0x1fff << 2], vec![3 | 0x1fff << 2], vec![0, 0, 0]])
            .no_fuzz()],
    }
}
