//! C32: pointers through whole histories of calls, returns and pointer arithmetic.

use crate::engine::{real, trivial, Arg::*, Kind, Property, Verdict};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

const TOP: u64 = 1 << 32;

/// A pointer that the machine holds: what the statement says about it, and what the library made of it.
#[derive(Clone, Copy, Debug)]
struct Held {
    page: u64,
    /// the slice that was granted first, absolute
    granted: (u64, u64),
    start: u64,
    length: u64,
    offset: u64,
    lib: FatPointer,
}

impl Held {
    fn agrees(&self, when: &str) -> Result<(), String> {
        let l = &self.lib;
        let got: [u64; 4] = [l.offset.into(), l.memory_page.into(), l.start.into(), l.length.into()];
        ensure_eq!(got, [self.offset, self.page, self.start, self.length], "[offset, page, start, length] {when}");
        ensure!(self.start >= self.granted.0 && self.start + self.length <= self.granted.1, "{self:?} leaves what was granted, {when}");
        Ok(())
    }
}

fn raw(v: [u64; 4]) -> U256 {
    U256(v)
}

/// A step is two numbers: [operation (4 bits), pointer (4), variation (8), noise (48)] and an operand.
struct Step {
    op: u64,
    which: usize,
    vary: u64,
    noise: u64,
    operand: u64,
}

impl Step {
    fn of(s: &[u64]) -> Step {
        Step { op: s[0] & 15, which: (s[0] >> 4 & 15) as usize, vary: s[0] >> 8 & 255, noise: s[0] >> 16, operand: s[1] }
    }
    /// An amount for pointer arithmetic: as given, or near where the answer changes.
    fn amount(&self, h: &Held) -> u64 {
        let near = (self.operand & 127).wrapping_sub(64);
        match self.vary & 7 {
            0 => self.operand & 0xff,
            1 => self.operand & (TOP - 1),
            2 => h.length.wrapping_sub(h.offset).wrapping_add(near),
            3 => h.offset.wrapping_add(near),
            4 => (TOP - h.offset).wrapping_add(near),
            5 => h.length.wrapping_add(near),
            6 => (TOP - 33).wrapping_sub(h.offset).wrapping_add(near),
            _ => self.operand,
        }
    }
    fn wide_amount(&self, h: &Held) -> [u64; 4] {
        let mut v = [self.amount(h), 0, 0, 0];
        if self.vary >> 3 == 31 {
            v[1 + (self.noise % 3) as usize] = 1 << (self.noise >> 2 & 63);
        }
        v
    }
}

/// What a call or a return makes of its argument: the pointer and how it is forwarded.
fn arguments(value: U256, ret: bool, ergs: u64) -> Result<(FatPointer, u8), String> {
    if ret {
        let r = RetABI::from_u256(value);
        let mode = match r.page_forwarding_mode {
            RetForwardPageType::UseHeap => 0,
            RetForwardPageType::ForwardFatPointer => 1,
            RetForwardPageType::UseAuxHeap => 2,
        };
        return Ok((r.memory_quasi_fat_pointer, mode));
    }
    let f = FarCallABI::from_u256(value);
    ensure_eq!(u64::from(f.ergs_passed), ergs & 0xffff_ffff, "ergs passed");
    let mode = match f.forwarding_mode {
        FarCallForwardPageType::UseHeap => 0,
        FarCallForwardPageType::ForwardFatPointer => 1,
        FarCallForwardPageType::UseAuxHeap => 2,
    };
    Ok((f.memory_quasi_fat_pointer, mode))
}

fn history(a: &[u64]) -> Verdict {
    let mut held: Vec<Held> = vec![];
    let mut frame = u64::from(STARTING_BASE_PAGE);
    let (mut moved, mut forwarded, mut refused) = (false, false, false);
    for s in a.chunks_exact(2).map(Step::of) {
        let n = held.len().max(1);
        // 15: the newest
        let h = if s.which == 15 { held.last() } else { held.get(s.which % n) }.copied();
        match (s.op, h) {
            // a slice of this frame's heap, for a call or a return
            (0..=3, _) | (_, None) => {
                let (start, length) = match s.vary & 3 {
                    0 => (s.operand & 0xffff, s.operand >> 16 & 0xffff),
                    // ends around the end of the range
                    1 => {
                        let start = s.operand & (TOP - 1);
                        (start, (TOP - start).wrapping_add(s.operand >> 32 & 7).wrapping_sub(4) & (TOP - 1))
                    }
                    _ => (s.operand & (TOP - 1), s.operand >> 32),
                };
                let offset = if s.vary >> 2 & 7 == 0 { s.noise & 0xff } else { 0 };
                let byte = match s.vary >> 5 {
                    0 => s.noise >> 8 & 0xff,
                    1..=3 => 2,
                    _ => 0,
                };
                let byte = if byte == 1 { 3 } else { byte };
                let ret = s.op & 1 == 1;
                let noise = s.noise >> 16;
                let value = raw([offset | noise << 32, start | length << 32, noise, noise | byte << 32 | (noise & 0xff_ffff) << 40]);
                let (mut lib, mode) = arguments(value, ret, noise)?;
                let aux = byte == 2;
                ensure_eq!(mode, if aux { 2 } else { 0 }, "forwarding of byte {byte}");
                let problems = lib.validate(true);
                let fits = offset == 0 && start + length < TOP;
                ensure_eq!(problems.is_empty(), fits, "slice [{start:#x}; {length:#x}] at offset {offset} acceptable");
                if !fits {
                    refused = true;
                    continue;
                }
                ensure!(lib.validate_as_slice(), "{lib:?} is not a slice");
                let page = frame + if aux { 3 } else { 2 };
                lib.memory_page = page as u32;
                let new = Held { page, granted: (start, start + length), start, length, offset, lib };
                new.agrees("when granted")?;
                keep(&mut held, new);
                frame += 8 * u64::from(!ret);
            }
            // forward, backward
            (op @ 4..=7, Some(mut h)) => {
                let by = s.wide_amount(&h);
                let small = by[1..] == [0; 3] && by[0] < TOP;
                ensure_eq!(raw(by) < MAX_OFFSET_FOR_ADD_SUB, small, "{by:x?} within the bound of pointer arithmetic");
                let expect = match op {
                    _ if !small => None,
                    4 | 5 => Some(h.offset + by[0]).filter(|o| *o < TOP),
                    _ => h.offset.checked_sub(by[0]),
                };
                let got = match op {
                    _ if !small => None,
                    4 | 5 => h.lib.offset.checked_add(by[0] as u32),
                    _ => h.lib.offset.checked_sub(by[0] as u32),
                };
                ensure_eq!(got.map(u64::from), expect, "offset {:#x} moved by {:#x}", h.offset, by[0]);
                let Some(o) = got else {
                    refused = true;
                    continue;
                };
                h.lib.offset = o;
                h.offset = u64::from(o);
                moved = true;
                carried(&mut h, &s)?;
                keep(&mut held, h);
            }
            (8, Some(mut h)) => {
                let by = s.amount(&h);
                if by > h.length {
                    refused = true;
                    continue;
                }
                h.length -= by;
                h.lib.length -= by as u32;
                moved = true;
                carried(&mut h, &s)?;
                keep(&mut held, h);
            }
            // handed on to a call or a return
            (9..=12, Some(mut h)) => {
                let ret = s.op & 1 == 1;
                let packed = h.lib.to_u256().0;
                let value = raw([packed[0], packed[1], s.operand, s.noise & 0xffff_ffff | 1 << 32 | (s.noise >> 24) << 40]);
                let (lib, mode) = arguments(value, ret, s.noise)?;
                ensure_eq!(mode, 1, "forwarding of a pointer");
                h.lib = lib;
                h.agrees("as an argument")?;
                ensure!(h.lib.validate(false).is_empty(), "{:?} was accepted before and is not any more", h.lib);
                ensure_eq!(h.lib.validate(true).is_empty(), h.offset == 0, "{:?} acceptable as a fresh one", h.lib);
                let slice = h.offset <= h.length;
                ensure_eq!(h.lib.validate_as_slice(), slice, "{:?} is a slice", h.lib);
                if !slice {
                    refused = true;
                    continue;
                }
                // the receiver sees what is left of it
                let start = h.lib.start.checked_add(h.lib.offset).ok_or("the start of the rest overflows")?;
                h.lib = FatPointer { offset: 0, memory_page: h.lib.memory_page, start, length: h.lib.length - h.lib.offset };
                (h.start, h.length, h.offset) = (h.start + h.offset, h.length - h.offset, 0);
                h.agrees("after being handed on")?;
                ensure_eq!(h.lib.is_trivial(), h.length == 0, "{:?} trivial", h.lib);
                forwarded = true;
                keep(&mut held, h);
            }
            // 32 bytes read through it
            (_, Some(mut h)) => {
                let within = h.offset < h.length;
                ensure_eq!(h.lib.validate_in_bounds(), within, "{:?} in bounds", h.lib);
                let possible = h.offset <= TOP - 33;
                ensure_eq!(h.lib.offset <= MAX_OFFSET_TO_DEREF_LOW_U32, possible, "offset {:#x} dereferenceable", h.offset);
                ensure_eq!(raw([h.offset, 0, 0, 0]) <= MAX_OFFSET_TO_DEREF, possible, "offset {:#x} dereferenceable", h.offset);
                if !possible {
                    refused = true;
                    continue;
                }
                if within {
                    let first = h.lib.start.checked_add(h.lib.offset).ok_or("the address of the first byte overflows")?;
                    let end = h.lib.start.checked_add(h.lib.length).ok_or("the end of the slice overflows")?;
                    let last = u64::from(end).min(u64::from(first) + 32);
                    ensure!(u64::from(first) >= h.granted.0 && last <= h.granted.1, "bytes {first:#x}..{last:#x} read through {h:?}");
                }
                h.lib.offset = h.lib.offset.checked_add(32).ok_or("the next offset overflows")?;
                h.offset += 32;
                moved = true;
                carried(&mut h, &s)?;
                keep(&mut held, h);
            }
        }
    }
    match (forwarded, moved, refused, held.is_empty()) {
        (true, true, _, _) => real("moved and handed on"),
        (true, ..) => real("handed on"),
        (_, true, ..) => real("moved"),
        (_, _, true, _) => real("refused"),
        (.., false) => real("granted"),
        _ => trivial("nothing"),
    }
}

/// In a register, with something else in the upper half.
fn carried(h: &mut Held, s: &Step) -> Result<(), String> {
    let mut v = h.lib.to_u256();
    ensure_eq!(v.0[2..], [0, 0], "upper half of the packed {:?}", h.lib);
    v.0[2] = s.noise;
    v.0[3] = s.operand;
    h.lib = FatPointer::from_u256(v);
    h.agrees("in a register")
}

fn keep(held: &mut Vec<Held>, h: Held) {
    if held.len() == 16 {
        held.remove(0);
    }
    held.push(h);
}

fn strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let op = prop_oneof![2 => 0..4u64, 5 => 4..16u64];
    let operand = prop_oneof![
        2 => any::<u64>(),
        2 => (any::<u32>(), any::<u16>()).prop_map(|(a, b)| u64::from(a) | u64::from(b) << 32),
        2 => (0..2048u64, 0..2048u64).prop_map(|(a, b)| a | b << 32),
        1 => (0xffff_f000..TOP, 0..8192u64).prop_map(|(a, b)| a | b << 32),
        1 => 0..256u64,
    ];
    let step = (op, prop_oneof![1 => 0..16u64, 2 => Just(15)], 0..256u64, any::<u64>(), operand);
    proptest::collection::vec(step, 1..=20)
        .prop_map(|v| {
            let mut out = vec![];
            for (op, which, vary, noise, operand) in v {
                out.push(op | which << 4 | vary << 8 | noise << 16);
                out.push(operand);
            }
            out
        })
        .boxed()
}

pub fn c32() -> Property {
    let grant = |start: u64, length: u64| [135 << 8, start | length << 32];
    let step = |op: u64, vary: u64, operand: u64| [op | 15 << 4 | vary << 8, operand];
    let seeds = vec![
        [grant(0x40, 0x60), step(4, 0, 0x20), step(9, 0, 0), step(15, 0, 0), step(10, 0, 0)].concat(),
        [grant(0xffff_ff00, 0xff), step(4, 2, 64), step(9, 0, 0), step(15, 0, 0)].concat(),
        [grant(0, 0xffff_ffff), step(4, 6, 64), step(15, 0, 0), step(15, 0, 0)].concat(),
        [grant(0, 0xffff_ffff), step(4, 6, 65), step(15, 0, 0)].concat(),
        [grant(5, 10), step(8, 0, 4), step(4, 0, 7), step(9, 0, 0), step(6, 0, 7), step(9, 0, 0)].concat(),
    ];
    Property {
        id: "C32",
        rule: "histories of up to 20 grants, moves, shrinkings, hand-overs and reads on up to 16 pointers, run on the library's answers with checked 32-bit arithmetic and on the statement's in 64 bits; non-trivial when something is granted or refused",
        assumptions: vec!["the machine narrows a pointer it hands on and moves it by 32 on a read, as the VM does"],
        kinds: vec![Kind::history("histories", strategy, history).list(vec![], Bits(64), 40).cases(150_000).seeds(seeds)],
    }
}
