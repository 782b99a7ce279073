//! C14-C19: packed call-argument formats and versioned hashes.

use crate::engine::{real, trivial, Arg, Arg::*, Kind, Property, Verdict};
use crate::{ensure, ensure_eq};
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

/// The value with the given little-endian 64-bit parts, as 32 little-endian bytes.
fn le_bytes(a: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, l) in a[..4].iter().enumerate() {
        for j in 0..8 {
            out[i * 8 + j] = (l >> (8 * j)) as u8;
        }
    }
    out
}

fn value(a: &[u64]) -> U256 {
    U256([a[0], a[1], a[2], a[3]])
}

fn field(b: &[u8; 32], at: usize, len: usize) -> u64 {
    let mut v = 0u64;
    for i in (0..len).rev() {
        v = v * 256 + u64::from(b[at + i]);
    }
    v
}

fn limbs(v: &U256) -> [u64; 4] {
    v.0
}

/// Thirty-two bits eight times: finer than four limbs for sweeping.
fn halves(a: &[u64]) -> [u64; 4] {
    [a[0] | a[1] << 32, a[2] | a[3] << 32, a[4] | a[5] << 32, a[6] | a[7] << 32]
}

fn half_args() -> Vec<Arg> {
    vec![Bits(32); 8]
}

// ---------------------------------------------------------------- C14

fn fields4(p: &FatPointer) -> [u64; 4] {
    [p.offset.into(), p.memory_page.into(), p.start.into(), p.length.into()]
}

fn pointer(a: &[u64]) -> FatPointer {
    FatPointer { offset: a[0] as u32, memory_page: a[1] as u32, start: a[2] as u32, length: a[3] as u32 }
}

fn ptr_pack(a: &[u64]) -> Verdict {
    let p = pointer(a);
    let packed = p.to_u256();
    ensure_eq!(limbs(&packed), [a[0] | a[1] << 32, a[2] | a[3] << 32, 0, 0], "packed {p:?}");
    ensure_eq!(fields4(&FatPointer::from_u256(packed)), [a[0], a[1], a[2], a[3]], "unpack(pack({p:?}))");
    ensure_eq!(fields4(&FatPointer::empty()), [0; 4], "empty pointer");
    ensure_eq!(limbs(&FatPointer::empty().to_u256()), [0; 4], "packed empty pointer");
    ensure_eq!(FatPointer::FAT_POINTER_PACKED_WIDTH, 128, "packed width");
    if a == [0; 4] {
        trivial("empty pointer")
    } else {
        real("pointer")
    }
}

fn ptr_unpack(a: &[u64]) -> Verdict {
    let l = halves(a);
    let p = FatPointer::from_u256(value(&l));
    ensure_eq!(fields4(&p), [a[0], a[1], a[2], a[3]], "fields of {:#x?}", l);
    ensure_eq!(limbs(&p.to_u256()), [l[0], l[1], 0, 0], "pack(unpack({:#x?}))", l);
    if l[2] | l[3] == 0 {
        real("128-bit value")
    } else {
        real("upper half set")
    }
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "pointers by field and 256-bit values by 32-bit part, swept and random; non-trivial unless the pointer is empty",
        assumptions: vec![],
        kinds: vec![
            Kind::sweep("pack", vec![Bits(32); 4], ptr_pack).cases(200_000),
            Kind::sweep("unpack", half_args(), ptr_unpack).cases(200_000),
        ],
    }
}

// ---------------------------------------------------------------- C15

fn ptr_check(a: &[u64]) -> Verdict {
    let p = pointer(a);
    for fresh in [false, true] {
        let e = p.validate(fresh);
        let offset = fresh && a[0] != 0;
        let range = a[2] + a[3] >= 1 << 32;
        ensure_eq!(
            e.contains(FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED),
            offset,
            "non-zero offset of {p:?} (fresh: {fresh})"
        );
        ensure_eq!(e.contains(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE), range, "range exception of {p:?} (fresh: {fresh})");
        ensure_eq!(e.bits(), offset as u64 | (range as u64) << 1, "exception bits of {p:?} (fresh: {fresh})");
        ensure_eq!(e.is_empty(), !offset && !range, "no exception for {p:?} (fresh: {fresh})");
    }
    ensure_eq!(p.validate_in_bounds(), a[0] < a[3], "{p:?} in bounds");
    ensure_eq!(p.validate_as_slice(), a[0] <= a[3], "{p:?} as a slice");
    ensure_eq!(p.is_trivial(), a[0] == 0 && a[3] == 0, "{p:?} trivial");
    match (a[2] + a[3] >= 1 << 32, a[0].cmp(&a[3])) {
        _ if a == [0; 4] => trivial("empty pointer"),
        (true, _) => real("beyond the range"),
        (_, std::cmp::Ordering::Less) => real("in bounds"),
        (_, std::cmp::Ordering::Equal) => real("at the end"),
        (_, std::cmp::Ordering::Greater) => real("past the end"),
    }
}

/// Boundary-focused: start and length around the end of the range, offset around the length.
fn ptr_edge(a: &[u64]) -> Verdict {
    let start = a[0];
    let length = ((1u64 << 32) - start).wrapping_add(a[1]).wrapping_sub(16) & 0xffff_ffff;
    let offset = length.wrapping_add(a[2]).wrapping_sub(16) & 0xffff_ffff;
    ptr_check(&[offset, a[3], start, length])
}

fn deref_limit(a: &[u64]) -> Verdict {
    let m = U256([1u64 << 32, 0, 0, 0]);
    ensure_eq!(limbs(&MAX_OFFSET_FOR_ADD_SUB), limbs(&m), "pointer-arithmetic bound");
    ensure_eq!(u64::from(MAX_OFFSET_TO_DEREF_LOW_U32), (1u64 << 32) - 33, "largest dereferenceable offset");
    ensure_eq!(limbs(&MAX_OFFSET_TO_DEREF), [(1 << 32) - 33, 0, 0, 0], "largest dereferenceable offset");
    // any offset up to the limit leaves its whole word in range, one more word does not fit twice
    let offset = a[0] % (u64::from(MAX_OFFSET_TO_DEREF_LOW_U32) + 1);
    ensure!(offset + 32 < 1 << 32, "word at {offset:#x} leaves the range");
    ensure_eq!(U256([offset, 0, 0, 0]) <= MAX_OFFSET_TO_DEREF, true, "offset {offset:#x} within the limit");
    real("offset")
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "pointers by field, swept, random and concentrated at the range end and at offset = length, each fresh and not; non-trivial unless the pointer is empty",
        assumptions: vec![],
        kinds: vec![
            Kind::sweep("check", vec![Bits(32); 4], ptr_check).cases(200_000),
            Kind::sweep("edge", vec![Bits(32), Below(33), Below(33), Bits(32)], ptr_edge).cases(200_000),
            Kind::sweep("deref-limit", vec![Bits(32)], deref_limit).cases(50_000),
        ],
    }
}

// ---------------------------------------------------------------- C16

fn mode_number(m: &FarCallForwardPageType) -> u64 {
    match m {
        FarCallForwardPageType::UseHeap => 0,
        FarCallForwardPageType::ForwardFatPointer => 1,
        FarCallForwardPageType::UseAuxHeap => 2,
    }
}

fn ret_mode_number(m: &RetForwardPageType) -> u64 {
    match m {
        RetForwardPageType::UseHeap => 0,
        RetForwardPageType::ForwardFatPointer => 1,
        RetForwardPageType::UseAuxHeap => 2,
    }
}

fn mode_of(byte: u64) -> u64 {
    if byte == 1 || byte == 2 {
        byte
    } else {
        0
    }
}

fn call_abi_limbs(l: &[u64]) -> Verdict {
    let b = le_bytes(l);
    let v = value(l);
    let ptr = [field(&b, 0, 4), field(&b, 4, 4), field(&b, 8, 4), field(&b, 12, 4)];
    let far = FarCallABI::from_u256(v);
    ensure_eq!(fields4(&far.memory_quasi_fat_pointer), ptr, "far call pointer of {l:#x?}");
    ensure_eq!(u64::from(far.ergs_passed), field(&b, 24, 4), "far call ergs of {l:#x?}");
    ensure_eq!(mode_number(&far.forwarding_mode), mode_of(b[28].into()), "far call forwarding mode of {l:#x?}");
    ensure_eq!(far.shard_id, b[29], "far call shard of {l:#x?}");
    ensure_eq!(far.constructor_call, b[30] != 0, "constructor flag of {l:#x?}");
    ensure_eq!(far.to_system, b[31] != 0, "system flag of {l:#x?}");
    let ret = RetABI::from_u256(v);
    ensure_eq!(fields4(&ret.memory_quasi_fat_pointer), ptr, "return pointer of {l:#x?}");
    ensure_eq!(ret_mode_number(&ret.page_forwarding_mode), mode_of(b[28].into()), "return forwarding mode of {l:#x?}");
    let near = NearCallABI::from_u256(v);
    ensure_eq!(u64::from(near.ergs_passed), field(&b, 0, 4), "near call ergs of {l:#x?}");
    if l == [0; 4] {
        trivial("zero value")
    } else if b[28] > 2 {
        real("unknown forwarding mode")
    } else {
        real("known forwarding mode")
    }
}

/// [pointer x4, unused limb, ergs, mode byte, shard, constructor byte, system byte]
fn call_abi(a: &[u64]) -> Verdict {
    let l = [a[0] | a[1] << 32, a[2] | a[3] << 32, a[4], a[5] | a[6] << 32 | a[7] << 40 | a[8] << 48 | a[9] << 56];
    call_abi_limbs(&l)
}

fn byte_positions(a: &[u64]) -> Verdict {
    let byte = a[0] as u8;
    let n = u64::from(byte);
    ensure_eq!(mode_number(&FarCallForwardPageType::from_u8(byte)), mode_of(n), "far call mode of byte {n}");
    ensure_eq!(ret_mode_number(&RetForwardPageType::from_u8(byte)), mode_of(n), "return mode of byte {n}");
    // setting just the published byte changes just that field
    let put = |at: usize| {
        let mut b = [0u8; 32];
        b[at] = byte;
        let mut l = [0u64; 4];
        for (i, limb) in l.iter_mut().enumerate() {
            *limb = field(&b, i * 8, 8);
        }
        value(&l)
    };
    let base = FarCallABI::from_u256(U256::zero());
    let check = |at: usize, want: (u64, u8, bool, bool)| -> Result<(), String> {
        let f = FarCallABI::from_u256(put(at));
        ensure_eq!((mode_number(&f.forwarding_mode), f.shard_id, f.constructor_call, f.to_system), want, "byte {at} set to {n}");
        ensure_eq!((fields4(&f.memory_quasi_fat_pointer), f.ergs_passed), (fields4(&base.memory_quasi_fat_pointer), 0), "other fields, byte {at} set to {n}");
        Ok(())
    };
    check(FAR_CALL_FORWARDING_MODE_BYTE_IDX, (mode_of(n), 0, false, false))?;
    check(FAR_CALL_SHARD_ID_BYTE_IDX, (0, byte, false, false))?;
    check(FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX, (0, 0, byte != 0, false))?;
    check(FAR_CALL_SYSTEM_CALL_BYTE_IDX, (0, 0, false, byte != 0))?;
    let r = RetABI::from_u256(put(RET_FORWARDING_MODE_BYTE_IDX));
    ensure_eq!(ret_mode_number(&r.page_forwarding_mode), mode_of(n), "return mode byte set to {n}");
    ensure_eq!(
        (
            FAR_CALL_FORWARDING_MODE_BYTE_IDX,
            FAR_CALL_SHARD_ID_BYTE_IDX,
            FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX,
            FAR_CALL_SYSTEM_CALL_BYTE_IDX,
            RET_FORWARDING_MODE_BYTE_IDX
        ),
        (28, 29, 30, 31, 28),
        "published byte positions"
    );
    real("byte value")
}

fn all_top(a: &[u64]) -> Verdict {
    super::encoding::block(a, |t| {
        let n = t.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        call_abi_limbs(&[n, n.rotate_left(13), n.rotate_left(29), t << 32 | n >> 32])
    })
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "256-bit values given by field and by limb, swept and random, plus all byte values at the published positions; non-trivial unless the value is zero",
        assumptions: vec![],
        kinds: vec![
            Kind::sweep(
                "fields",
                vec![Bits(32), Bits(32), Bits(32), Bits(32), Bits(64), Bits(32), Bits(8), Bits(8), Bits(8), Bits(8)],
                call_abi,
            )
            .cases(200_000),
            Kind::sweep("limbs", vec![Bits(64); 4], call_abi_limbs).cases(200_000),
            Kind::exhaustive("byte-positions", vec![Bits(8)], byte_positions),
            Kind::blocks("all-top-bytes", vec![Bits(16)], all_top),
        ],
    }
}

// ---------------------------------------------------------------- C17

fn precompile(a: &[u64]) -> Verdict {
    let l = [a[0] | a[1] << 32, a[2] | a[3] << 32, a[4] | a[5] << 32, a[6]];
    let v = value(&l);
    let p = PrecompileCallInnerABI::from_u256(v);
    let got = [
        u64::from(p.input_memory_offset),
        p.input_memory_length.into(),
        p.output_memory_offset.into(),
        p.output_memory_length.into(),
        p.memory_page_to_read.into(),
        p.memory_page_to_write.into(),
        p.precompile_interpreted_data,
    ];
    ensure_eq!(got[..], a[..], "inner fields of {l:#x?}");
    ensure_eq!(limbs(&p.to_u256()), l, "inner re-encoding of {l:#x?}");
    let q = PrecompileCallInnerABI {
        input_memory_offset: a[0] as u32,
        input_memory_length: a[1] as u32,
        output_memory_offset: a[2] as u32,
        output_memory_length: a[3] as u32,
        memory_page_to_read: a[4] as u32,
        memory_page_to_write: a[5] as u32,
        precompile_interpreted_data: a[6],
    };
    ensure_eq!(limbs(&q.to_u256()), l, "inner encoding of {q:?}");
    let o = PrecompileCallABI::from_u256(v);
    let got = [
        u64::from(o.input_memory_offset),
        o.input_memory_length.into(),
        o.output_memory_offset.into(),
        o.output_memory_length.into(),
        o.per_precompile_interpreted,
    ];
    ensure_eq!(got, [a[0], a[1], a[2], a[3], a[6]], "outer fields of {l:#x?}");
    if a.iter().all(|x| *x == 0) {
        trivial("all zero")
    } else {
        real("parameters")
    }
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "seven fields, swept and random; non-trivial unless all are zero",
        assumptions: vec![],
        kinds: vec![Kind::sweep("fields", vec![Bits(32), Bits(32), Bits(32), Bits(32), Bits(32), Bits(32), Bits(64)], precompile).cases(400_000)],
    }
}

// ---------------------------------------------------------------- C18

fn meta_of(a: &[u64]) -> VmMetaParameters {
    VmMetaParameters {
        ergs_per_pubdata_byte: a[0] as u32,
        heap_size: a[1] as u32,
        aux_heap_size: a[2] as u32,
        this_shard_id: a[3] as u8,
        caller_shard_id: a[4] as u8,
        code_shard_id: a[5] as u8,
    }
}

fn meta(a: &[u64]) -> Verdict {
    let got = limbs(&meta_of(a).to_u256());
    let b = le_bytes(&got);
    let mut expect = [0u8; 32];
    expect[0..4].copy_from_slice(&(a[0] as u32).to_le_bytes());
    expect[8..12].copy_from_slice(&(a[1] as u32).to_le_bytes());
    expect[12..16].copy_from_slice(&(a[2] as u32).to_le_bytes());
    expect[28] = a[3] as u8;
    expect[29] = a[4] as u8;
    expect[30] = a[5] as u8;
    ensure_eq!(b, expect, "bytes of {:?}", meta_of(a));
    if a.iter().all(|x| *x == 0) {
        trivial("all zero")
    } else {
        real("parameters")
    }
}

/// One field changed: only its own bits change.
fn meta_change(a: &[u64]) -> Verdict {
    let which = a[6] as usize;
    let mut other = a[..6].to_vec();
    other[which] = a[7] & if which < 3 { 0xffff_ffff } else { 0xff };
    let x = limbs(&meta_of(a).to_u256());
    let y = limbs(&meta_of(&other).to_u256());
    let masks: [[u64; 4]; 6] = [
        [0xffff_ffff, 0, 0, 0],
        [0, 0xffff_ffff, 0, 0],
        [0, 0xffff_ffff << 32, 0, 0],
        [0, 0, 0, 0xff << 32],
        [0, 0, 0, 0xff << 40],
        [0, 0, 0, 0xff << 48],
    ];
    for i in 0..4 {
        ensure_eq!((x[i] ^ y[i]) & !masks[which][i], 0, "limb {i}: bits outside parameter {which} changed");
    }
    ensure_eq!(x == y, a[which] == other[which], "packed values equal");
    if x == y {
        trivial("no change")
    } else {
        real("one parameter changed")
    }
}

fn all_shards(a: &[u64]) -> Verdict {
    super::encoding::block(a, |t| {
        let n = t.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        meta(&[n & 0xffff_ffff, n >> 32, n >> 16 & 0xffff_ffff, t & 0xff, t >> 8 & 0xff, t >> 16])
    })
}

pub fn c18() -> Property {
    let p = vec![Bits(32), Bits(32), Bits(32), Bits(8), Bits(8), Bits(8)];
    let mut c = p.clone();
    c.extend([Below(6), Bits(32)]);
    Property {
        id: "C18",
        rule: "six parameters, swept and random, and pairs differing in one; non-trivial unless all are zero or nothing changed",
        assumptions: vec![],
        kinds: vec![
            Kind::sweep("pack", p, meta).cases(300_000),
            Kind::exhaustive("all-shards", vec![Bits(8)], all_shards),
            Kind::sweep("change", c, meta_change).random_only().cases(200_000),
        ],
    }
}

// ---------------------------------------------------------------- C19

type Hash = VersionedHashGeneric<ContractCodeSha256>;

/// [version byte, marker, length, 3.5 limbs of hash]
fn hash_bytes(a: &[u64]) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[0] = a[0] as u8;
    b[1] = a[1] as u8;
    b[2..4].copy_from_slice(&(a[2] as u16).to_be_bytes());
    b[4..8].copy_from_slice(&(a[3] as u32).to_be_bytes());
    b[8..16].copy_from_slice(&a[4].to_be_bytes());
    b[16..24].copy_from_slice(&a[5].to_be_bytes());
    b[24..32].copy_from_slice(&a[6].to_be_bytes());
    b
}

fn hash_args() -> Vec<Arg> {
    vec![Bits(8), Bits(8), Bits(16), Bits(32), Bits(64), Bits(64), Bits(64)]
}

fn parse(b: [u8; 32]) -> Verdict {
    let layout = ContractCodeSha256::try_deserialize(b);
    let generic = Hash::try_create_from_raw(b);
    let ok = b[0] == 1;
    ensure_eq!(layout.is_some(), ok, "{b:02x?} parses");
    ensure_eq!(generic.is_some(), ok, "{b:02x?} parses (generic)");
    let (Some(layout), Some(generic)) = (layout, generic) else {
        return real("other version byte");
    };
    let check = |l: &ContractCodeSha256Storage| -> Result<(), String> {
        ensure_eq!(l.extra_marker, b[1], "marker of {b:02x?}");
        ensure_eq!(u32::from(l.code_length_in_words), u32::from(b[2]) * 256 + u32::from(b[3]), "length of {b:02x?}");
        ensure_eq!(l.partial_hash[..], b[4..], "partial hash of {b:02x?}");
        Ok(())
    };
    check(&layout)?;
    check(generic.layout_ref())?;
    let mut stored = b;
    stored[1] = 0;
    for (name, got, want) in [
        ("serialised", ContractCodeSha256::serialize(layout), b),
        ("serialised (generic)", generic.serialize(), b),
        ("stored", ContractCodeSha256::serialize_to_stored(layout), stored),
        ("stored (generic)", generic.serialize_to_stored(), stored),
    ] {
        ensure_eq!(got, Some(want), "{name} form of {b:02x?}");
    }
    let again = Hash::try_create_from_raw(stored).ok_or("stored form does not parse")?;
    ensure_eq!(again.serialize(), Some(stored), "stored form serialised again");
    ensure_eq!(again.serialize_to_stored(), Some(stored), "stored form stored again");
    ensure_eq!((generic == again, b[1] == 0), (b[1] == 0, b[1] == 0), "parsed hashes equal");
    if b[1] == 0 {
        real("code at rest")
    } else {
        real("marker set")
    }
}

fn parse_fields(a: &[u64]) -> Verdict {
    parse(hash_bytes(a))
}

fn parse_version1(a: &[u64]) -> Verdict {
    let mut b = hash_bytes(a);
    b[0] = 1;
    parse(b)
}

fn digest(a: &[u64]) -> Verdict {
    let d = hash_bytes(a);
    let words = a[7] as u16;
    let h = Hash::from_digest_and_preimage_num_words(d, words);
    let mut expect = d;
    expect[0] = 1;
    expect[1] = 0;
    expect[2] = (words >> 8) as u8;
    expect[3] = words as u8;
    ensure_eq!(h.serialize(), Some(expect), "from digest {d:02x?}, {words} words");
    ensure_eq!(h.serialize_to_stored(), Some(expect), "stored, from digest {d:02x?}, {words} words");
    ensure_eq!((ContractCodeSha256::VERSION_BYTE, ContractCodeSha256::CODE_AT_REST_MARKER, ContractCodeSha256::YET_CONSTRUCTED_MARKER), (1, 0, 1), "markers");
    real("digest")
}

fn all_heads(a: &[u64]) -> Verdict {
    super::encoding::block(a, |t| {
        let n = t.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        parse_version1(&[1, t & 0xff, t >> 8 & 0xffff, n & 0xffff_ffff, n.rotate_left(13), n.rotate_left(29), n.rotate_left(47)])
    })
}

pub fn c19() -> Property {
    let mut d = hash_args();
    d.push(Bits(16));
    Property {
        id: "C19",
        rule: "32-byte strings by field with any and with the right version byte, digests with lengths; every case counts",
        assumptions: vec![],
        kinds: vec![
            Kind::sweep("parse", hash_args(), parse_fields).cases(100_000),
            Kind::sweep("parse-version-1", hash_args()[..].to_vec(), parse_version1).cases(200_000),
            Kind::blocks("all-markers-and-lengths", vec![Bits(8)], all_heads),
            Kind::sweep("digest", d, digest).cases(100_000),
        ],
    }
}
