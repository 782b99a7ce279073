//! C33: code through its whole life: assembled, hashed, deployed, constructed, stored, loaded, run.

use crate::engine::{real, trivial, Arg::*, Dice, Kind, Property, Verdict};
use crate::ins::*;
use crate::spec;
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use std::collections::HashMap;
use zkevm_opcode_defs::decoding::AllowedPcOrImm;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

type Code = Vec<[u8; 32]>;
type Hash = VersionedHashGeneric<ContractCodeSha256>;

/// Words of the longest code of the production encoding.
const LONGEST: u64 = 0xffff;

/// The size of a new code: few words, at times thousands, seldom about as many as there may be.
fn words(rest: u64) -> usize {
    let n = rest & 0x1_ffff;
    match rest >> 17 & 0x3ff {
        0x3ff => n.min(LONGEST + 2) as usize,
        0x3f0..=0x3fe => n as usize & 0xfff,
        _ => n as usize % 40,
    }
}

/// What an account holds: its stored code hash as the library has it, and what was deployed there.
#[derive(Clone)]
struct Account {
    stored: [u8; 32],
    code: Code,
    constructing: bool,
}

/// Instructions of a program, as words of the encoding, packed by ourselves.
fn program(seed: u64, words: usize, wide: bool) -> Code {
    let mut d = Dice(seed);
    let mut code: Code = vec![[0; 32]; words];
    let per = if wide { 2 } else { 4 };
    for (i, w) in code.iter_mut().enumerate() {
        if i >= 512 {
            // a long code: any words from here on
            w.chunks_exact_mut(8).for_each(|c| c.copy_from_slice(&d.roll().to_be_bytes()));
            continue;
        }
        for slot in 0..per {
            let r = d.roll();
            let number = r % 1200;
            let ins = Ins {
                key: spec::key_at(1, number as usize),
                cond: r >> 11 & 7,
                regs: [r >> 16 & 15, r >> 20 & 15, r >> 24 & 15, r >> 28 & 15],
                imm: [r >> 32 & 0xffff, r >> 48],
            };
            let size = 32 / per;
            let at = slot * size;
            let n = if wide { T16::assemble(number, &ins) } else { P8::assemble(number, &ins) };
            w[at..at + size].copy_from_slice(&n.to_be_bytes()[16 - size..]);
        }
    }
    code
}

fn fetch<const N: usize, E: Enc<N>>(code: &Code, counter: u64) -> Result<(), String> {
    let (w, s) = E::split_pc(E::PcOrImm::from_u64_clipped(counter));
    let word = code.get(w.as_u64() as usize).ok_or_else(|| format!("counter {counter:#x} leaves a code of {} words", code.len()))?;
    let got = E::integer_representaiton_from_u256(U256::from_big_endian(word), s);
    let at = counter as usize * N;
    let want = code[at / 32][at % 32..at % 32 + N].iter().fold(0u128, |v, b| v << 8 | u128::from(*b));
    ensure_eq!(got.val(), want, "{} instruction at counter {counter:#x}", E::NAME);
    let (ins, _) = E::decode(got.val())?;
    ensure_eq!(ins, E::disassemble(want).0, "{} instruction at counter {counter:#x}", E::NAME);
    ensure_eq!(E::disassemble(E::encode(&ins)).0, ins, "{} instruction at counter {counter:#x}, assembled again", E::NAME);
    Ok(())
}

/// Pairs: [operation (3 bits), account (3), encoding (1), other account (3), rest], operand
fn life(a: &[u64]) -> Verdict {
    let mut accounts: [Option<Account>; 8] = Default::default();
    let mut known: HashMap<[u8; 32], Code> = HashMap::new();
    let (mut loads, mut deployed) = (0, 0);
    for s in a.chunks_exact(2) {
        let (op, n, wide, other, rest, operand) = (s[0] & 7, (s[0] >> 3 & 7) as usize, s[0] >> 6 & 1 == 1, (s[0] >> 7 & 7) as usize, s[0] >> 10, s[1]);
        match op {
            // deploy: new code, or another account's with one change
            0..=2 => {
                let code = match &accounts[other] {
                    Some(o) if op == 2 => {
                        let mut c = o.code.clone();
                        match rest & 3 {
                            0 => {}
                            1 => {
                                let bit = operand as usize % (c.len() * 256);
                                c[bit / 256][bit / 8 % 32] ^= 1 << (bit % 8);
                            }
                            2 => c.extend([[0; 32]; 2]),
                            _ => {
                                let i = operand as usize % c.len();
                                c.swap(0, i);
                            }
                        }
                        c
                    }
                    _ => program(operand, words(rest), wide),
                };
                let hashed = match wide {
                    false => bytecode_to_code_hash(&code),
                    true => bytecode_to_code_hash_for_mode::<16, T16>(&code),
                };
                let deployable = code.len() % 2 == 1 && code.len() as u64 <= LONGEST;
                if wide && code.len() as u64 > LONGEST {
                    continue; // the field for the length is too short
                }
                ensure_eq!(hashed.is_ok(), deployable, "code of {} words can be deployed", code.len());
                let Ok(hash) = hashed else { continue };
                let at_rest = Hash::try_create_from_raw(hash).ok_or("a new code hash does not parse")?;
                ensure_eq!(at_rest.layout_ref().extra_marker, ContractCodeSha256::CODE_AT_REST_MARKER, "marker of a new code hash");
                ensure_eq!(at_rest.serialize_to_stored(), Some(hash), "stored form of a new code hash");
                if let Some(before) = known.get(&hash) {
                    ensure!(*before == code, "two codes of {} and {} words have one hash", before.len(), code.len());
                }
                known.insert(hash, code.clone());
                let mut constructing = *at_rest.layout_ref();
                constructing.extra_marker = ContractCodeSha256::YET_CONSTRUCTED_MARKER;
                let stored = ContractCodeSha256::serialize(constructing).ok_or("a hash under construction does not serialise")?;
                ensure!(stored != hash, "code under construction looks like code at rest");
                accounts[n] = Some(Account { stored, code, constructing: true });
                deployed += 1;
            }
            3 => {
                if let Some(x) = &mut accounts[n] {
                    let h = Hash::try_create_from_raw(x.stored).ok_or("a stored hash does not parse")?;
                    x.stored = h.serialize_to_stored().ok_or("a stored hash does not serialise")?;
                    x.constructing = false;
                }
            }
            // another version: nobody's code
            4 => {
                if let Some(x) = &accounts[n] {
                    let mut other = x.stored;
                    other[0] ^= (operand as u8).max(1);
                    ensure!(Hash::try_create_from_raw(other).is_none(), "version {} parses", other[0]);
                }
            }
            // load and run
            _ => {
                let Some(x) = &accounts[n] else { continue };
                let h = Hash::try_create_from_raw(x.stored).ok_or("a stored hash does not parse")?;
                let l = *h.layout_ref();
                let marker = if x.constructing { 1 } else { 0 };
                ensure_eq!(l.extra_marker, marker, "marker of account {n}, under construction: {}", x.constructing);
                ensure_eq!(h.serialize(), Some(x.stored), "stored hash of account {n}, serialised again");
                let key = h.serialize_to_stored().ok_or("a stored hash does not serialise")?;
                let code = known.get(&key).ok_or_else(|| format!("the code of account {n} is unknown under its hash"))?;
                ensure!(*code == x.code, "account {n} loads the code of another account");
                ensure_eq!(usize::from(l.code_length_in_words), x.code.len(), "words of account {n}");
                let cost = u64::from(ERGS_PER_CODE_WORD_DECOMMITTMENT) * u64::from(l.code_length_in_words);
                ensure_eq!(cost, 4 * x.code.len() as u64, "cost of loading account {n}");
                if wide {
                    fetch::<16, T16>(code, operand % (2 * code.len() as u64))?;
                } else {
                    fetch::<8, P8>(code, operand % (4 * code.len() as u64).min(1 << 16))?;
                }
                loads += 1;
            }
        }
    }
    match (deployed, loads) {
        (0, _) => trivial("nothing deployed"),
        (_, 0) => real("deployed"),
        (1, _) => real("one code loaded"),
        _ => real("several codes, loaded"),
    }
}

fn strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let op = prop_oneof![3 => 0..2u64, 4 => Just(2u64), 3 => Just(3u64), 1 => Just(4u64), 6 => Just(5u64)];
    let step = (op, 0..4u64, 0..2u64, 0..4u64, 0..1u64 << 40, any::<u64>());
    let longest = prop_oneof![Just(40u64), Just(6), Just(6)];
    (longest, proptest::collection::vec(step, 2..=20))
        .prop_map(|(most, v)| {
            let mut out = vec![];
            for (op, n, wide, other, rest, operand) in v {
                let odd = u64::from(rest >> 30 & 7 != 0);
                let size = if rest >> 17 & 0x3ff < 0x3f0 { rest % most } else { rest & 0x1_ffff };
                let rest = if op < 2 { rest & !0x1_ffff | size | odd } else { rest };
                out.push(op | n << 3 | wide << 6 | other << 7 | rest << 10);
                out.push(operand);
            }
            out
        })
        .boxed()
}

pub fn c33() -> Property {
    let long = |n: u64| n << 10 | 0x3ff << 27;
    let seeds = vec![
        vec![1 << 10, 7, 5, 0, 3, 0, 5, 3],
        vec![39 << 10, 7, 2 | 1 << 3 | 1 << 10, 9, 5, 1, 5 | 1 << 3, 155],
        vec![long(LONGEST), 7, 2 | 1 << 3 | 2 << 10, 0, 5, 262_139, 3, 0, 5, 100_000],
        vec![long(LONGEST + 2), 7, long(LONGEST - 1), 7, long(257), 9, 2 | 1 << 3 | 1 << 10, 65535, 5, 1027, 5 | 1 << 3, 3],
        vec![1 << 10 | 1 << 6, 7, 2 | 1 << 3 | 2 << 10, 0, 5 | 1 << 6, 1, 5 | 1 << 3 | 1 << 6, 5],
    ];
    Property {
        id: "C33",
        rule: "histories of up to 20 deployments (assembled programs, most of up to 39 words and some of up to 65535, copies, copies changed in one bit, extended or with words exchanged), ends of construction, foreign versions, loads and fetches on up to 8 accounts; non-trivial when something is deployed",
        assumptions: vec!["wide code of at most 65535 words, as the length field of its hash allows"],
        kinds: vec![Kind::history("accounts", strategy, life).list(vec![], Bits(64), 40).cases(30_000).thorough(30).seeds(seeds)],
    }
}
