//! C20: bytecode hashing, against an independent SHA-256.

use crate::engine::{Arg::*, real, trivial, Kind, Property, Verdict};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use zkevm_opcode_defs::decoding::{EncodingModeProduction, EncodingModeTesting};
use zkevm_opcode_defs::{bytecode_to_code_hash, bytecode_to_code_hash_for_mode, ContractCodeSha256, VersionedHashGeneric};

/// SHA-256, from FIPS 180-4.  The round constants are computed, not copied.
pub struct Sha {
    k: [u32; 64],
    h0: [u32; 8],
}

/// First 32 fractional bits of the `root`-th root (2 or 3) of n.
fn frac_root(n: u64, root: u32) -> u32 {
    // floor(root(n * 2^(32*root))) mod 2^32, by binary search over big products
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let le = if root == 2 {
            mid * mid <= u128::from(n) << 64
        } else {
            // mid^3 <= n * 2^96: divide both sides to stay within 128 bits
            let sq = mid * mid;
            // sq <= n*2^96/mid  <=>  sq * mid <= n * 2^96
            let target = u128::from(n) << 96;
            sq <= target / mid.max(1)
        };
        if le {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo as u32
}

impl Default for Sha {
    fn default() -> Self {
        let mut primes = vec![];
        let mut n = 2u64;
        while primes.len() < 64 {
            if primes.iter().all(|p| n % p != 0) {
                primes.push(n);
            }
            n += 1;
        }
        let mut k = [0; 64];
        for i in 0..64 {
            k[i] = frac_root(primes[i], 3);
        }
        let mut h0 = [0; 8];
        for i in 0..8 {
            h0[i] = frac_root(primes[i], 2);
        }
        Sha { k, h0 }
    }
}

impl Sha {
    pub fn digest(&self, chunks: impl Iterator<Item = u8>) -> [u8; 32] {
        let mut block = Vec::with_capacity(64);
        let (mut h, mut len) = (self.h0, 0);
        for b in chunks {
            block.push(b);
            len += 8;
            if block.len() == 64 {
                self.round(&mut h, &block);
                block.clear();
            }
        }
        self.finish(h, block, len)
    }
    /// The digest after `len` bits, of which the last incomplete block is given.
    fn finish(&self, mut h: [u32; 8], mut block: Vec<u8>, len: u64) -> [u8; 32] {
        block.push(0x80);
        if block.len() > 56 {
            block.resize(64, 0);
            self.round(&mut h, &block);
            block.clear();
        }
        block.resize(56, 0);
        block.extend(len.to_be_bytes());
        self.round(&mut h, &block);
        let mut out = [0; 32];
        for (i, w) in h.iter().enumerate() {
            out[i * 4..i * 4 + 4].copy_from_slice(&w.to_be_bytes());
        }
        out
    }
    fn round(&self, h: &mut [u32; 8], block: &[u8]) {
        let mut w = [0u32; 64];
        for (i, word) in w.iter_mut().enumerate().take(16) {
            *word = u32::from_be_bytes(block[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = *h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(self.k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
}

pub fn sha() -> &'static Sha {
    static S: std::sync::OnceLock<Sha> = std::sync::OnceLock::new();
    S.get_or_init(Sha::default)
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// [number of words, content seed (0 = all zero), position of a changed byte, xor]
fn content(a: &[u64]) -> Vec<[u8; 32]> {
    let n = a[0] as usize;
    let mut words = vec![[0u8; 32]; n];
    if a[1] != 0 {
        let mut s = a[1];
        for w in words.iter_mut() {
            for c in w.chunks_mut(8) {
                s = mix(s);
                c.copy_from_slice(&s.to_le_bytes());
            }
        }
        // code that is not just noise: zero words, repetitions, padding
        let first = words.first().copied().unwrap_or_default();
        for (i, w) in words.iter_mut().enumerate() {
            match a[1] >> 60 {
                1 if w[0] & 1 == 0 => *w = [0; 32],
                2 => *w = first,
                3 if i > n / 2 => *w = [0; 32],
                4 => w.iter_mut().for_each(|b| *b = if *b & 1 == 0 { 0 } else { 0xff }),
                5 if i != a[1] as usize % n => *w = [0; 32],
                6 if i % 2 == 1 => *w = first,
                7 if i <= n / 2 => *w = [0; 32],
                _ => {}
            }
        }
    }
    words
}

/// The whole construction, or nothing where it must be refused.
pub fn reference(words: &[[u8; 32]], longest: u64) -> Option<[u8; 32]> {
    let n = words.len() as u64;
    if n % 2 == 0 || n > longest {
        return None;
    }
    Some(head(sha().digest(words.iter().flatten().copied()), n))
}

fn head(mut digest: [u8; 32], n: u64) -> [u8; 32] {
    digest[0] = 1;
    digest[1] = 0;
    digest[2] = (n >> 8) as u8;
    digest[3] = n as u8;
    digest
}

fn check(words: &[[u8; 32]], label: &'static str) -> Verdict {
    check_against(words, label, None)
}

fn check_against(words: &[[u8; 32]], label: &'static str, known: Option<[u8; 32]>) -> Verdict {
    let n = words.len() as u64;
    let odd = n % 2 == 1;
    let narrow = bytecode_to_code_hash(words);
    let narrow2 = bytecode_to_code_hash_for_mode::<8, EncodingModeProduction>(words);
    let wide = bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(words);
    ensure_eq!(narrow.is_ok(), odd && n <= 65535, "hashing {n} words succeeds");
    ensure_eq!(narrow2.is_ok(), odd && n <= 65535, "hashing {n} words (64-bit mode) succeeds");
    ensure_eq!(wide.is_ok(), odd && n <= 0xffff_ffff, "hashing {n} words (128-bit mode) succeeds");
    if !odd {
        return real("even length refused");
    }
    let expect = known.unwrap_or_else(|| reference(words, 0xffff_ffff).unwrap());
    ensure_eq!(wide, Ok(expect), "128-bit mode hash of {n} words");
    if n > 65535 {
        return real("too long for the 64-bit mode");
    }
    ensure_eq!(narrow, Ok(expect), "hash of {n} words");
    ensure_eq!(narrow2, Ok(expect), "64-bit mode hash of {n} words");
    let parsed = VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(expect).ok_or("hash does not parse")?;
    ensure_eq!(u64::from(parsed.layout_ref().code_length_in_words), n, "length in the hash");
    real(label)
}

/// [offset, words, seed, surrounding byte]: code that lies inside a larger buffer, at any address.
fn placed(a: &[u64]) -> Verdict {
    let words = content(&[a[1], a[2]]);
    let (offset, bytes) = (a[0] as usize, words.len() * 32);
    let mut buffer = vec![a[3] as u8; bytes + 256];
    let start = buffer.as_ptr() as usize;
    let at = (64 - start % 64) % 64 + offset;
    buffer[at..at + bytes].copy_from_slice(words.as_flattened());
    let (inside, rest) = buffer[at..].as_chunks::<32>().0.split_at(words.len());
    assert!(!rest.is_empty());
    check(inside, if offset % 8 == 0 { "aligned address" } else { "unaligned address" })
}

/// [words, seed, edit...]: one buffer, edited where it lies and hashed again after every edit, whole or in part.
fn edited(a: &[u64]) -> Verdict {
    let mut words = content(&[a[0], a[1]]);
    words.reserve_exact(64);
    check(&words, "")?;
    for e in &a[2..] {
        let n = words.len();
        let (i, j) = ((e >> 3) as usize % n.max(1), (e >> 20) as usize % n.max(1));
        match e & 7 {
            0 | 1 if n > 0 => words[i][j % 32] ^= (e >> 40) as u8 | 1,
            2 if n > 0 => words.swap(i, j),
            3 if n > 0 => words[i] = [(e >> 40) as u8; 32],
            4 if n < 60 => words.extend([[(e >> 40) as u8; 32]; 2]),
            5 if n > 2 => words.truncate(n - 2),
            6 if n > 0 => {
                check(&words[i.min(j)..=i.max(j)], "")?;
            }
            _ => words.reverse(),
        }
        check(&words, "")?;
    }
    match a.len() {
        2 => trivial("not edited"),
        _ => real("edited in place"),
    }
}

fn edited_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (0..24u64, any::<u64>(), proptest::collection::vec(any::<u64>(), 1..=8))
        .prop_map(|(n, s, mut e)| {
            e.splice(0..0, [n | (s & 3 != 0) as u64, s]);
            e
        })
        .boxed()
}

extern "C" {
    fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, offset: i64) -> *mut u8;
    fn munmap(at: *mut u8, len: usize) -> i32;
}

/// More than 2^32 words: reserved address space that must be refused by its length alone.
fn huge(a: &[u64]) -> Verdict {
    let n = (1u64 << 32) + a[0];
    const READ: i32 = 1;
    const PRIVATE_ANONYMOUS_NORESERVE: i32 = 0x2 | 0x20 | 0x4000;
    // SAFETY: a fresh private mapping, readable (as zeros) in its whole length until it is unmapped
    unsafe {
        let p = mmap(std::ptr::null_mut(), n as usize * 32, READ, PRIVATE_ANONYMOUS_NORESERVE, -1, 0);
        if p as isize == -1 {
            return trivial("no address space");
        }
        let words = std::slice::from_raw_parts(p as *const [u8; 32], n as usize);
        let wide = bytecode_to_code_hash_for_mode::<16, EncodingModeTesting>(words);
        let narrow = bytecode_to_code_hash(words);
        munmap(p, n as usize * 32);
        ensure_eq!(wide, Err(()), "128-bit mode hash of {n} words");
        ensure_eq!(narrow, Err(()), "hash of {n} words");
    }
    real("more words than counters")
}

fn hash(a: &[u64]) -> Verdict {
    check(&content(a), "hashed")
}

/// The words themselves, 8 bytes an element; the last word is padded with zeros.
fn raw(a: &[u64]) -> Verdict {
    let mut words = vec![];
    for c in a.chunks(4) {
        let mut w = [0u8; 32];
        for (i, x) in c.iter().enumerate() {
            w[i * 8..i * 8 + 8].copy_from_slice(&x.to_be_bytes());
        }
        words.push(w);
    }
    check(&words, "given words hashed")
}

fn raw_strategy(dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let nice: Vec<u64> = dict.iter().copied().chain([0, 1, u64::MAX]).collect();
    let item = prop_oneof![2 => any::<u64>(), 2 => Just(0u64), 1 => proptest::sample::select(nice)];
    proptest::collection::vec(item, 0..=44).boxed()
}

/// Flipping any byte changes the hash to that of the changed code.
fn flip(a: &[u64]) -> Verdict {
    let mut words = content(a);
    let before = bytecode_to_code_hash(&words);
    let bytes = words.len() * 32;
    if bytes == 0 || a[3] & 0xff == 0 {
        check(&words, "hashed")?;
        return trivial("nothing to change");
    }
    let at = (a[2] % bytes as u64) as usize;
    words[at / 32][at % 32] ^= a[3] as u8;
    let after = bytecode_to_code_hash(&words);
    if let (Ok(x), Ok(y)) = (before, after) {
        ensure!(x != y, "hash does not depend on byte {at} of {bytes}");
    }
    check(&words, "byte changed")
}

const LONGEST: u64 = 140_000;

fn lengths(max: u64, dict: &[u64]) -> BoxedStrategy<u64> {
    // numbers of the sources, as a count of words, of bytes, and nearby
    let mut nice = vec![0, 1];
    for d in dict {
        for v in [*d, d / 32, d.saturating_mul(2)] {
            nice.extend([v, v.saturating_sub(1), v.saturating_add(1)].into_iter().filter(|v| *v <= max));
        }
    }
    prop_oneof![6 => 0..=12u64, 4 => 0..=130u64, 1 => 0..=max, 1 => proptest::sample::select(nice)].boxed()
}

fn flip_strategy(d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (lengths(2000, d), any::<u64>(), any::<u64>(), 0..256u64).prop_map(|(n, s, p, x)| vec![n, s, p, x]).boxed()
}

fn hash_strategy(d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (lengths(4000, d), prop_oneof![1 => Just(0u64), 6 => any::<u64>()]).prop_map(|(n, s)| vec![n, s]).boxed()
}

/// Any length up to twice what the narrow mode takes.
fn long_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (0..=LONGEST, any::<u64>()).prop_map(|(n, s)| vec![n, s]).boxed()
}

/// All lengths the narrow mode takes and some beyond, in 256 interleaved parts, as prefixes of one sequence.
fn all_lengths(a: &[u64]) -> Verdict {
    const TOP: usize = 65_700;
    static PREFIXES: std::sync::OnceLock<(Vec<[u8; 32]>, Vec<[u32; 8]>)> = std::sync::OnceLock::new();
    let (words, states) = PREFIXES.get_or_init(|| {
        let words = content(&[TOP as u64, 0x0123_4567_89ab_cdef]);
        let mut h = sha().h0;
        let mut states = vec![h];
        for pair in words.chunks_exact(2) {
            sha().round(&mut h, &pair.concat());
            states.push(h);
        }
        (words, states)
    });
    let mut n = a[0] as usize;
    while n <= TOP {
        let known = (n % 2 == 1).then(|| head(sha().finish(states[n / 2], words[n - 1].to_vec(), n as u64 * 256), n as u64));
        check_against(&words[..n], "hashed", known)?;
        n += 256;
    }
    real("lengths in steps of 256")
}

pub fn c20() -> Property {
    let mut edge: Vec<Vec<u64>> = (65530..65545u64).map(|n| vec![n, 7]).collect();
    edge.extend([131_071u64, 131_072, 131_073].map(|n| vec![n, 1]));
    edge.extend([255u64, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769].map(|n| vec![n, 3]));
    Property {
        id: "C20",
        rule: "word sequences of random length and content (lengths 0-12 dense, up to 140000 sparse, 65530-65544 and 131071-131073 always; every length up to 65700 as prefixes of one sequence) in both modes, with noise, zero words, repetitions and padding, sequences with one byte changed, and buffers edited in place and hashed after every edit; non-trivial unless there is no byte to change",
        assumptions: vec![
            "the published SHA-256 crate stands in for the pinned git revision, which cannot be fetched here",
            "lengths just below 2^32 words (128 GiB) are not hashed; above it they must be refused by length alone",
        ],
        kinds: vec![
            Kind::exhaustive("lengths", vec![crate::engine::Arg::Below(600), crate::engine::Arg::Below(2)], hash),
            Kind::history("hash", hash_strategy, hash).domain(vec![Below(140_001), Bits(64)]).cases(4_000).max_shrink(400).seeds(edge).no_fuzz(),
            Kind::history("raw", raw_strategy, raw).list(vec![], Bits(64), 44).cases(40_000),
            Kind::history("long", long_strategy, hash).domain(vec![Below(140_001), Bits(64)]).cases(64).thorough(20).max_shrink(40).no_fuzz(),
            Kind::blocks("all-lengths", vec![Below(256)], all_lengths),
            Kind::sweep("placed", vec![Below(64), Below(40), Bits(64), Bits(8)], placed).random_only().cases(40_000),
            Kind::history("edited", edited_strategy, edited).list(vec![Below(24), Bits(64)], Bits(64), 8).cases(8_000),
            Kind::sweep("huge", vec![Below(1 << 32)], huge).random_only().cases(200).seeds(vec![vec![0], vec![1], vec![2], vec![3], vec![65535], vec![65537]]).hang_s(20).no_fuzz(),
            Kind::history("flip", flip_strategy, flip).domain(vec![Below(140_001), Bits(64), Bits(64), Below(256)]).cases(4_000).max_shrink(400).no_fuzz(),
        ],
    }
}
