//! C24: addresses, memory pages, registers.

use crate::engine::{real, Arg::*, Kind, Property, Verdict};
use crate::{ensure, ensure_eq};
use zkevm_opcode_defs::ethereum_types::Address;
use zkevm_opcode_defs::system_params as sp;
use zkevm_opcode_defs::*;

fn lows() -> Vec<(&'static str, u16, u16)> {
    // name, compiled value, published value
    vec![
        ("ecrecover", sp::ADDRESS_ECRECOVER, 0x0001),
        ("sha256", sp::ADDRESS_SHA256, 0x0002),
        ("ripemd160", sp::ADDRESS_RIPEMD160, 0x0003),
        ("identity", sp::ADDRESS_IDENTITY, 0x0004),
        ("bootloader", sp::ADDRESS_BOOTLOADER, 0x8001),
        ("account code storage", sp::ADDRESS_ACCOUNT_CODE_STORAGE, 0x8002),
        ("nonce holder", sp::ADDRESS_NONCE_HOLDER, 0x8003),
        ("known codes storage", sp::ADDRESS_KNOWN_CODES_STORAGE, 0x8004),
        ("immutable simulator", sp::ADDRESS_IMMUTABLE_SIMULATOR, 0x8005),
        ("contract deployer", sp::ADDRESS_CONTRACT_DEPLOYER, 0x8006),
        ("force deployer", sp::ADDRESS_FORCE_DEPLOYER, 0x8007),
        ("l1 messenger", sp::ADDRESS_L1_MESSENGER, 0x8008),
        ("msg value", sp::ADDRESS_MSG_VALUE, 0x8009),
        ("eth token", sp::ADDRESS_ETH_TOKEN, 0x800a),
        ("system context", sp::ADDRESS_SYSTEM_CONTEXT, 0x800b),
        ("bootloader utilities", sp::ADDRESS_BOOTLOADER_UTILITIES, 0x800c),
        ("event writer", sp::ADDRESS_EVENT_WRITER, 0x800d),
        ("keccak256", sp::ADDRESS_KECCAK256, 0x8010),
    ]
}

/// Each is only touched when it is asked for: the order in which they are first used is up to the user.
pub fn formal() -> [(&'static str, fn() -> Address, u16); 7] {
    [
        ("bootloader", || *sp::BOOTLOADER_FORMAL_ADDRESS, 0x8001),
        ("deployer", || *sp::DEPLOYER_SYSTEM_CONTRACT_ADDRESS, 0x8002),
        ("nonce manager", || *sp::NONCE_MANAGER_SYSTEM_CONTRACT_ADDRESS, 0x8003),
        ("known code factory", || *sp::KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS, 0x8004),
        ("keccak256 precompile", || *sp::KECCAK256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, 0x8010),
        ("sha256 precompile", || *sp::SHA256_ROUND_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, 0x02),
        ("ecrecover precompile", || *sp::ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS, 0x01),
    ]
}

fn addresses(a: &[u64]) -> Verdict {
    let l = lows();
    let (x, y) = (&l[a[0] as usize], &l[a[1] as usize]);
    ensure_eq!(x.1, x.2, "address of {}", x.0);
    ensure!(u64::from(x.1) < sp::ADDRESS_UNRESTRICTED_SPACE, "address of {} is not restricted", x.0);
    ensure_eq!(x.1 == y.1, a[0] == a[1], "addresses of {} and {} equal", x.0, y.0);
    ensure_eq!(sp::ADDRESS_UNRESTRICTED_SPACE, 1 << 16, "start of the unrestricted space");
    // the root of the crate publishes the same
    let root = [
        (ADDRESS_ECRECOVER, 0x0001), (ADDRESS_SHA256, 0x0002), (ADDRESS_RIPEMD160, 0x0003), (ADDRESS_IDENTITY, 0x0004),
        (ADDRESS_BOOTLOADER, 0x8001), (ADDRESS_ACCOUNT_CODE_STORAGE, 0x8002), (ADDRESS_NONCE_HOLDER, 0x8003),
        (ADDRESS_KNOWN_CODES_STORAGE, 0x8004), (ADDRESS_IMMUTABLE_SIMULATOR, 0x8005), (ADDRESS_CONTRACT_DEPLOYER, 0x8006),
        (ADDRESS_FORCE_DEPLOYER, 0x8007), (ADDRESS_L1_MESSENGER, 0x8008), (ADDRESS_MSG_VALUE, 0x8009), (ADDRESS_ETH_TOKEN, 0x800a),
        (ADDRESS_SYSTEM_CONTEXT, 0x800b), (ADDRESS_EVENT_WRITER, 0x800d), (ADDRESS_KECCAK256, 0x8010),
    ];
    for (got, want) in root {
        ensure_eq!(got, want, "address published at the root");
    }
    real("pair of addresses")
}

fn formal_addresses(a: &[u64]) -> Verdict {
    let f = formal();
    let (x, y) = (&f[a[0] as usize], &f[a[1] as usize]);
    let mut want = [0u8; 20];
    want[18..].copy_from_slice(&x.2.to_be_bytes());
    ensure_eq!(x.1().0, want, "formal address of {}", x.0);
    ensure_eq!(x.1().0 == y.1().0, a[0] == a[1], "formal addresses of {} and {} equal", x.0, y.0);
    ensure_eq!(
        (sp::BOOTLOADER_FORMAL_ADDRESS_LOW, sp::DEPLOYER_SYSTEM_CONTRACT_ADDRESS_LOW),
        (0x8001, 0x8002),
        "low parts of formal addresses"
    );
    ensure_eq!(
        (
            sp::KECCAK256_ROUND_FUNCTION_PRECOMPILE_ADDRESS,
            sp::SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS,
            sp::ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS
        ),
        (0x8010, 2, 1),
        "precompile addresses"
    );
    real("pair of formal addresses")
}

fn bootloader_pages() -> [u64; 5] {
    [BOOTLOADER_CODE_PAGE, BOOTLOADER_CALLDATA_PAGE, BOOTLOADER_STACK_PAGE, BOOTLOADER_HEAP_PAGE, BOOTLOADER_AUX_HEAP_PAGE].map(u64::from)
}

/// [first frame, second frame, page within the first, page within the second]
fn pages(a: &[u64]) -> Verdict {
    let per = u64::from(NEW_MEMORY_PAGES_PER_FAR_CALL);
    let page = |frame: u64, i: u64| u64::from(STARTING_BASE_PAGE) + frame * per + i;
    let (x, y) = (page(a[0], a[2]), page(a[1], a[3]));
    ensure_eq!(x == y, a[0] == a[1] && a[2] == a[3], "page {} of frame {} and page {} of frame {} equal", a[2], a[0], a[3], a[1]);
    for b in bootloader_pages() {
        ensure!(x != b, "page {} of frame {} is the bootloader's page {b}", a[2], a[0]);
    }
    ensure!(x != u64::from(UNMAPPED_PAGE), "page {} of frame {} is the unmapped page", a[2], a[0]);
    ensure!(x <= u64::from(u32::MAX), "page {x} does not fit 32 bits");
    real("two pages")
}

fn boot(a: &[u64]) -> Verdict {
    let p = bootloader_pages();
    let (i, j) = (a[0] as usize, a[1] as usize);
    ensure_eq!(p[i] == p[j], i == j, "bootloader pages {i} and {j} equal");
    ensure!(p[i] != u64::from(UNMAPPED_PAGE), "bootloader page {i} is the unmapped page");
    ensure_eq!(p, [8, 7, 9, 10, 11], "bootloader pages");
    ensure_eq!((BOOTLOADER_BASE_PAGE, STARTING_BASE_PAGE, UNMAPPED_PAGE, NEW_MEMORY_PAGES_PER_FAR_CALL), (8, 2048, 0, 8), "page numbering");
    real("bootloader pages")
}

fn registers(a: &[u64]) -> Verdict {
    let r = a[0] as u8;
    let mut owners = vec![];
    if r == CALL_IMPLICIT_CALLDATA_FAT_PTR_REGISTER {
        owners.push("calldata");
    }
    if r == CALL_IMPLICIT_CONSTRUCTOR_MARKER_REGISTER {
        owners.push("constructor marker");
    }
    if CALL_SYSTEM_ABI_REGISTERS.contains(&r) {
        owners.push("system");
    }
    if CALL_RESERVED_RANGE.contains(&r) {
        owners.push("reserved");
    }
    if r == CALL_IMPLICIT_PARAMETER_REG_IDX {
        owners.push("implicit parameter");
    }
    let want = match r {
        0 => vec!["calldata"],
        1 => vec!["constructor marker"],
        2..=11 => vec!["system"],
        12 | 13 => vec!["reserved"],
        14 => vec!["implicit parameter"],
        _ => vec![],
    };
    ensure_eq!(owners, want, "call convention of register {r}");
    let mut owners = vec![];
    for (name, reg) in [
        ("returndata", RET_IMPLICIT_RETURNDATA_PARAMS_REGISTER),
        ("reserved 0", RET_RESERVED_REGISTER_0),
        ("reserved 1", RET_RESERVED_REGISTER_1),
        ("reserved 2", RET_RESERVED_REGISTER_2),
    ] {
        if reg == r {
            owners.push(name);
        }
    }
    let want: Vec<&str> = ["returndata", "reserved 0", "reserved 1", "reserved 2"].get(r as usize).copied().into_iter().collect();
    ensure_eq!(owners, want, "return convention of register {r}");
    ensure_eq!(REGISTERS_COUNT, 15, "number of registers");
    real("register")
}

fn aux_bytes(a: &[u64]) -> Verdict {
    let b = [sp::STORAGE_AUX_BYTE, sp::EVENT_AUX_BYTE, sp::L1_MESSAGE_AUX_BYTE, sp::PRECOMPILE_AUX_BYTE];
    let (i, j) = (a[0] as usize, a[1] as usize);
    ensure_eq!(b[i] == b[j], i == j, "log types {i} and {j} equal");
    ensure_eq!(u64::from(b[i]), a[0], "log type {i}");
    real("log types")
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "all pairs of addresses, bootloader pages and log types, every 8-bit register number, and swept and random pairs of frames and pages within them; every case counts",
        assumptions: vec!["frames number at most 2^29 - 257, the 32-bit page range divided by 8 pages per frame"],
        kinds: vec![
            Kind::exhaustive("addresses", vec![Below(18), Below(18)], addresses),
            Kind::exhaustive("formal-addresses", vec![Below(7), Below(7)], formal_addresses),
            Kind::exhaustive("bootloader", vec![Below(5), Below(5)], boot),
            Kind::exhaustive("registers", vec![Bits(8)], registers),
            Kind::exhaustive("log-types", vec![Below(4), Below(4)], aux_bytes),
            Kind::sweep("pages", vec![Below((1 << 29) - 256), Below((1 << 29) - 256), Below(8), Below(8)], pages).cases(200_000).no_fuzz(),
        ],
    }
}
