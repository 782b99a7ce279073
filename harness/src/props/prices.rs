//! C21-C23: opcode prices, the price generator, economic limits.

use crate::engine::{real, trivial, Arg::*, Kind, Property, Verdict};
use crate::ins::P8;
use crate::spec::{self, Key};
use crate::{ensure, ensure_eq};
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use zkevm_opcode_defs::decoding::VmEncodingMode;
use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::*;

// ---------------------------------------------------------------- C21

fn price_any(a: &[u64]) -> Verdict {
    let k = Key::nth(a[0]);
    let want = k.spec().price;
    let v = k.variant();
    ensure_eq!(v.ergs_price(), want, "price of variant {}", k.show());
    ensure_eq!(v.opcode.ergs_price(), want, "price of opcode {}", k.spec().name);
    let sub = match v.opcode {
        Opcode::Invalid(x) => x.ergs_price(),
        Opcode::Nop(x) => x.ergs_price(),
        Opcode::Add(x) => x.ergs_price(),
        Opcode::Sub(x) => x.ergs_price(),
        Opcode::Mul(x) => x.ergs_price(),
        Opcode::Div(x) => x.ergs_price(),
        Opcode::Jump(x) => x.ergs_price(),
        Opcode::Context(x) => x.ergs_price(),
        Opcode::Shift(x) => x.ergs_price(),
        Opcode::Binop(x) => x.ergs_price(),
        Opcode::Ptr(x) => x.ergs_price(),
        Opcode::NearCall(x) => x.ergs_price(),
        Opcode::Log(x) => x.ergs_price(),
        Opcode::FarCall(x) => x.ergs_price(),
        Opcode::Ret(x) => x.ergs_price(),
        Opcode::UMA(x) => x.ergs_price(),
    };
    ensure_eq!(sub, want, "price of operation variant {}", k.spec().name);
    ensure!(want >= circuit_prices::VM_CYCLE_COST_IN_ERGS + circuit_prices::RAM_PERMUTATION_COST_IN_ERGS, "{} is too cheap", k.spec().name);
    real("combination")
}

fn price_number(a: &[u64]) -> Verdict {
    let n = a[0] as usize;
    let want = spec::key_at(1, n).spec().price;
    ensure_eq!(OPCODES_PRICES[n], want, "price of number {n} ({})", spec::key_at(1, n).show());
    ensure_eq!(OPCODES_TABLE[n].ergs_price(), want, "price of table entry {n}");
    ensure_eq!(OPCODES_PRICES.len(), 2048, "price table length");
    real("number")
}

fn price_components(_a: &[u64]) -> Verdict {
    use circuit_prices::*;
    ensure_eq!((VM_CYCLE_COST_IN_ERGS, RAM_PERMUTATION_COST_IN_ERGS), (4, 1), "cycle and memory prices");
    ensure_eq!((RICH_ADDRESSING_OPCODE_ERGS, AVERAGE_OPCODE_ERGS, CALL_LIKE_ERGS_COST), (6, 5, 20), "opcode charges");
    ensure_eq!((STORAGE_READ_IO_PRICE, STORAGE_WRITE_IO_PRICE, EVENT_IO_PRICE, L1_MESSAGE_IO_PRICE), (150, 250, 25, 100), "I/O charges");
    ensure_eq!(INVALID_OPCODE_ERGS, u32::MAX, "invalid opcode charge");
    ensure_eq!(ERGS_PER_CODE_WORD_DECOMMITTMENT, CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS, "code word charge");
    ensure_eq!(MIN_STORAGE_WRITE_COST, 3501, "minimal storage write charge");
    ensure_eq!(MEMORY_GROWTH_ERGS_PER_BYTE, 1, "memory growth charge");
    real("components")
}

fn price_program(a: &[u64]) -> Verdict {
    let (mut by_table, mut by_variant, mut want) = (0u64, 0u64, 0u64);
    for w in a {
        let (d, n) = P8::parse_preliminary_variant_and_absolute_number(*w);
        by_table += u64::from(OPCODES_PRICES[n.into_usize()]);
        by_variant += u64::from(d.variant.ergs_price());
        want += u64::from(spec::key_at(1, (*w & 0x7ff) as usize).spec().price);
    }
    ensure_eq!(by_table, want, "program price by table");
    ensure_eq!(by_variant, want, "program price by variant");
    if a.is_empty() {
        trivial("empty program")
    } else {
        real("program")
    }
}

fn words_strategy(_dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let word = prop_oneof![1 => any::<u64>(), 4 => (0..spec::n1(), any::<u64>()).prop_map(|(n, r)| n | r & !0x1fff)];
    proptest::collection::vec(word, 0..48).boxed()
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "every combination of operation, modes and flags at every level, every number, and random programs; non-trivial unless the program is empty",
        assumptions: vec!["prices are those in force for the current parameters"],
        kinds: vec![
            Kind::exhaustive("combination", vec![Below(spec::NUM_KEYS)], price_any),
            Kind::exhaustive("number", vec![Below(2048)], price_number),
            Kind::exhaustive("components", vec![Below(1)], price_components),
            Kind::history("program", words_strategy, price_program).list(vec![], Bits(64), 48).cases(40_000),
        ],
    }
}

// ---------------------------------------------------------------- C22

const CAPACITY: [(&str, u64); 14] = [
    ("VM_CYCLE_COST_IN_ERGS", 23000),
    ("RAM_PERMUTATION_COST_IN_ERGS", 260000),
    ("CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS", 2 * 12100),
    ("STORAGE_APPLICATION_COST_IN_ERGS", 118),
    ("CODE_DECOMMITTER_SORTER_COST_IN_ERGS", 192500),
    ("CODE_DECOMMITMENT_SORTER_COST_IN_ERGS", 192500),
    ("LOG_DEMUXER_COST_IN_ERGS", 101500),
    ("STORAGE_SORTER_COST_IN_ERGS", 79000),
    ("EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS", 88000),
    ("INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS", 4600),
    ("REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS", 7400),
    ("KECCAK256_CIRCUIT_COST_IN_ERGS", 2050),
    ("SHA256_CIRCUIT_COST_IN_ERGS", 11500),
    ("ECRECOVER_CIRCUIT_COST_IN_ERGS", 72),
];

/// [ergs per circuit, tx ergs limit, pubdata limit, initial write bytes, repeated write bytes]
type Config = [u64; 5];

const PARAMS: [(&str, &str); 5] = [
    ("ERGS_PER_CIRCUIT", "u32"),
    ("MAX_TX_ERGS_LIMIT", "u32"),
    ("MAX_PUBDATA_PER_BLOCK", "u32"),
    ("INITIAL_STORAGE_WRITE_PUBDATA_BYTES", "usize"),
    ("REPEATED_STORAGE_WRITE_PUBDATA_BYTES", "usize"),
];

fn real_config() -> Config {
    [
        ERGS_PER_CIRCUIT.into(),
        MAX_TX_ERGS_LIMIT.into(),
        MAX_PUBDATA_PER_BLOCK.into(),
        INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u64,
        REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u64,
    ]
}

/// Smallest p with p * capacity >= total.
fn smallest(total: u64, capacity: u64) -> u64 {
    let mut p = total / capacity;
    while p * capacity < total {
        p += 1;
    }
    p
}

fn model(c: &Config) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    for (name, cap) in CAPACITY {
        out.insert(name.to_string(), smallest(c[0], cap));
    }
    out.insert("L1_MESSAGE_MIN_COST_IN_ERGS".into(), smallest(c[1], 512));
    let hasher = |limit: u64, bytes: u64| if limit * bytes >= c[2] { 0 } else { smallest(c[1], limit) };
    let (i, r) = (hasher(4600, c[3]), hasher(7400, c[4]));
    out.insert("INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS".into(), i);
    out.insert("REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS".into(), r);
    out.insert("STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS".into(), i.max(r));
    out
}

fn committed() -> BTreeMap<String, u64> {
    use circuit_prices as p;
    let mut m = BTreeMap::new();
    macro_rules! put { ($($n:ident),*) => { $( m.insert(stringify!($n).to_string(), u64::from(p::$n)); )* } }
    put!(
        VM_CYCLE_COST_IN_ERGS,
        RAM_PERMUTATION_COST_IN_ERGS,
        CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS,
        STORAGE_APPLICATION_COST_IN_ERGS,
        CODE_DECOMMITTER_SORTER_COST_IN_ERGS,
        LOG_DEMUXER_COST_IN_ERGS,
        STORAGE_SORTER_COST_IN_ERGS,
        EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS,
        INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS,
        REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS,
        CODE_DECOMMITMENT_SORTER_COST_IN_ERGS,
        L1_MESSAGE_MIN_COST_IN_ERGS,
        INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS,
        REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS,
        STORAGE_WRITE_HASHER_MIN_COST_IN_ERGS,
        KECCAK256_CIRCUIT_COST_IN_ERGS,
        SHA256_CIRCUIT_COST_IN_ERGS,
        ECRECOVER_CIRCUIT_COST_IN_ERGS
    );
    m
}

pub fn repo() -> PathBuf {
    std::env::var_os("VH_REPO").map(PathBuf::from).unwrap_or_else(|| "/repo".into())
}

fn generator() -> PathBuf {
    repo().join("src/circuit_pricing_generator/main.rs")
}

fn deps_dir() -> PathBuf {
    match std::env::var_os("VH_DEPS") {
        Some(d) => d.into(),
        None => std::env::current_exe().unwrap().parent().unwrap().join("deps"),
    }
}

fn rlib() -> &'static Path {
    static R: OnceLock<PathBuf> = OnceLock::new();
    R.get_or_init(|| {
        let mut found: Vec<(std::time::SystemTime, PathBuf)> = std::fs::read_dir(deps_dir())
            .into_iter()
            .flatten()
            .flatten()
            .map(|e| e.path())
            .filter(|p| {
                let n = p.file_name().unwrap().to_string_lossy().to_string();
                n.starts_with("libzkevm_opcode_defs-") && n.ends_with(".rlib")
            })
            .filter_map(|p| Some((std::fs::metadata(&p).ok()?.modified().ok()?, p)))
            .collect();
        found.sort();
        match found.pop() {
            Some(f) => f.1,
            None => internal("the compiled crate is not where it should be"),
        }
    })
}

/// The machinery itself failed: no verdict.
fn internal(m: &str) -> ! {
    eprintln!("error: C22 machinery: {m}");
    std::process::exit(2);
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let d = base.join(format!("vh-c22-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        if std::fs::create_dir_all(d.join("src")).is_err() {
            internal("cannot create a scratch directory");
        }
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn rustc(args: &[&std::ffi::OsStr], dir: &Path) -> Result<(), String> {
    match Command::new("rustc").args(args).current_dir(dir).env("CARGO_MANIFEST_DIR", dir).output() {
        Err(e) => internal(&format!("cannot run rustc: {e}")),
        Ok(o) if o.status.success() => Ok(()),
        Ok(o) => Err(String::from_utf8_lossy(&o.stderr).chars().take(2000).collect()),
    }
}

fn edition() -> &'static str {
    static E: OnceLock<String> = OnceLock::new();
    E.get_or_init(|| {
        let toml = std::fs::read_to_string(repo().join("Cargo.toml")).unwrap_or_default();
        toml.lines()
            .find_map(|l| l.trim().strip_prefix("edition")?.split('"').nth(1).map(str::to_string))
            .unwrap_or_else(|| "2021".into())
    })
}

/// Compiles the generator against the crate with the given parameters, runs it, returns the file it wrote.
fn generate(config: Option<&Config>, over: Option<&str>) -> Result<String, String> {
    let s = Scratch::new();
    let deps = format!("dependency={}", deps_dir().display());
    let mut lib = rlib().to_path_buf();
    if let Some(c) = config {
        let mut shim = String::from("pub use base::*;\npub mod system_params {\n pub use base::system_params::*;\n");
        for ((name, ty), v) in PARAMS.iter().zip(c) {
            shim += &format!(" pub const {name}: {ty} = {v};\n");
        }
        shim += "}\npub use system_params::{";
        shim += &PARAMS.map(|p| p.0).join(", ");
        shim += "};\n";
        std::fs::write(s.0.join("shim.rs"), shim).unwrap_or_else(|e| internal(&e.to_string()));
        let ext = format!("base={}", lib.display());
        let args = [
            "--crate-name", "zkevm_opcode_defs", "--crate-type", "rlib", "--edition", "2021", "-Cmetadata=vshim", "--cap-lints=allow",
            "-L", &deps, "--extern", &ext, "-o", "libzkevm_opcode_defs.rlib", "shim.rs",
        ];
        rustc(&args.map(|a| a.as_ref()), &s.0).unwrap_or_else(|e| internal(&e));
        lib = s.0.join("libzkevm_opcode_defs.rlib");
    }
    let ext = format!("zkevm_opcode_defs={}", lib.display());
    let main = generator();
    let args: Vec<&std::ffi::OsStr> = vec![
        "--crate-name".as_ref(), "generator".as_ref(), "--crate-type".as_ref(), "bin".as_ref(), "--edition".as_ref(), edition().as_ref(),
        "--cap-lints=allow".as_ref(), "-Cdebug-assertions=on".as_ref(), "-L".as_ref(), deps.as_ref(), "--extern".as_ref(), ext.as_ref(),
        "-o".as_ref(), "generator".as_ref(), main.as_os_str(),
    ];
    rustc(&args, &s.0).map_err(|e| format!("the generator does not compile: {e}"))?;
    run_generator(&s.0.join("generator"), &s.0, over)
}

/// What an earlier run with other parameters may have left where the generator writes.
fn stale() -> String {
    let mut t = String::from("// This file is auto-generated, do not edit it manually\n");
    for i in [1_000_000_001, 0, 7] {
        for (k, n) in committed().keys().enumerate() {
            t += &format!("pub const {n}: u32 = {};\n", if k % 2 == 0 { i } else { 7 * (i == 0) as u32 });
        }
    }
    for i in 0..400 {
        t += &format!("pub const VM_CYCLE_COST_IN_ERGS: u32 = {i};\n");
    }
    t
}

fn run_generator(bin: &Path, dir: &Path, over: Option<&str>) -> Result<String, String> {
    let first = run_generator_once(bin, dir, over, None)?;
    // the parameters decide, not what happens to be in the environment
    for value in ["1", "", "true", "90000001"] {
        let again = run_generator_once(bin, dir, over, Some(value))?;
        ensure_eq!(again, first, "output of the generator with words of its sources as environment variables of value {value:?}");
    }
    Ok(first)
}

/// Names that could select something: the parameters, the prices and every word the sources quote,
/// less what steers any program.
fn names() -> &'static [String] {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    N.get_or_init(|| {
        let mut n = crate::engine::quoted_words(&repo().join("src"));
        n.extend(PARAMS.iter().map(|p| p.0.to_string()));
        n.extend(committed().keys().cloned());
        n.retain(|w| {
            std::env::var_os(w).is_none()
                && !["CARGO", "RUST", "PATH", "HOME", "TMP", "OUT_DIR", "LD_"].iter().any(|p| w.starts_with(p))
        });
        n.sort();
        n.dedup();
        n
    })
}

fn run_generator_once(bin: &Path, dir: &Path, over: Option<&str>, value: Option<&str>) -> Result<String, String> {
    if let Some(text) = over {
        std::fs::write(dir.join("src/circuit_prices.rs"), text).unwrap_or_else(|e| internal(&e.to_string()));
    }
    let env = names().iter().filter_map(|n| Some((n, value?)));
    let out = Command::new(bin).current_dir(dir).env("CARGO_MANIFEST_DIR", dir).envs(env).output().unwrap_or_else(|e| internal(&e.to_string()));
    if !out.status.success() {
        return Err(format!("the generator failed: {}", String::from_utf8_lossy(&out.stderr).chars().take(600).collect::<String>()));
    }
    std::fs::read_to_string(dir.join("src/circuit_prices.rs")).map_err(|e| format!("the generator wrote no price file: {e}"))
}

/// Second way to set the parameters: a copy of the crate's sources with the five constants rewritten,
/// compiled whole.  None when the constants are not found as plain definitions.
fn generate_from_copy(c: &Config, over: Option<&str>) -> Option<Result<String, String>> {
    let s = Scratch::new();
    fn copy(from: &Path, to: &Path, c: &Config, hits: &mut [u32; 5]) -> std::io::Result<()> {
        std::fs::create_dir_all(to)?;
        for e in std::fs::read_dir(from)? {
            let e = e?;
            let (p, t) = (e.path(), to.join(e.file_name()));
            if p.is_dir() {
                copy(&p, &t, c, hits)?;
            } else if let Ok(mut text) = std::fs::read_to_string(&p) {
                for (i, (name, _)) in PARAMS.iter().enumerate() {
                    let key = format!("const {name}:");
                    if let Some(at) = text.find(&key) {
                        let rest = &text[at..];
                        if let (Some(eq), Some(semi)) = (rest.find('='), rest.find(';')) {
                            if eq < semi {
                                text = format!("{} {}{}", &text[..at + eq + 1], c[i], &text[at + semi..]);
                                hits[i] += 1;
                            }
                        }
                    }
                }
                std::fs::write(&t, text)?;
            }
        }
        Ok(())
    }
    let mut hits = [0; 5];
    copy(&repo().join("src"), &s.0.join("copy"), c, &mut hits).ok()?;
    if hits != [1; 5] {
        return None;
    }
    let deps = format!("dependency={}", deps_dir().display());
    let mut args: Vec<String> = ["--crate-name", "zkevm_opcode_defs", "--crate-type", "rlib", "-Cmetadata=vcopy", "--cap-lints=allow", "-L"].map(String::from).to_vec();
    args.push(deps.clone());
    args.extend(["--edition".into(), edition().into()]);
    for name in ["bitflags", "ethereum_types", "k256", "lazy_static", "sha2", "sha3", "blake2"] {
        let lib = std::fs::read_dir(deps_dir()).ok()?.flatten().map(|e| e.path()).find(|p| {
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            n.starts_with(&format!("lib{name}-")) && n.ends_with(".rlib")
        });
        if let Some(l) = lib {
            args.extend(["--extern".into(), format!("{name}={}", l.display())]);
        }
    }
    args.extend(["-o".into(), "libzkevm_opcode_defs.rlib".into(), "copy/lib.rs".into()]);
    rustc(&args.iter().map(|a| a.as_ref()).collect::<Vec<_>>(), &s.0).ok()?;
    let args = [
        "--crate-name", "generator", "--crate-type", "bin", "--edition", edition(), "--cap-lints=allow", "-Cdebug-assertions=on", "-L", &deps,
        "--extern", "zkevm_opcode_defs=libzkevm_opcode_defs.rlib", "-o", "generator", "copy/circuit_pricing_generator/main.rs",
    ];
    rustc(&args.map(|a| a.as_ref()), &s.0).ok()?;
    Some(run_generator(&s.0.join("generator"), &s.0, over))
}

/// Values by compiling the file and asking the compiler, so that any valid notation is fine.
fn values_by_compiling(text: &str, names: &[&String]) -> Result<BTreeMap<String, u64>, String> {
    let s = Scratch::new();
    std::fs::write(s.0.join("prices.rs"), text).unwrap_or_else(|e| internal(&e.to_string()));
    let mut main = String::from("#[path = \"prices.rs\"]\nmod prices;\nfn main() {\n");
    for n in names {
        main += &format!(" let v: u32 = prices::{n}; println!(\"{n} {{}}\", v);\n");
    }
    main += "}\n";
    std::fs::write(s.0.join("main.rs"), main).unwrap_or_else(|e| internal(&e.to_string()));
    rustc(&["--edition=2021", "--cap-lints=allow", "-o", "show", "main.rs"].map(|a| a.as_ref()), &s.0)
        .map_err(|e| format!("the generated file does not define the prices: {e}"))?;
    let out = Command::new(s.0.join("show")).output().unwrap_or_else(|e| internal(&e.to_string()));
    let mut m = BTreeMap::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        if let Some((n, v)) = l.split_once(' ') {
            m.insert(n.to_string(), v.parse().unwrap_or_else(|_| internal("unreadable value")));
        }
    }
    Ok(m)
}

/// Plain `pub const NAME: u32 = V;` lines.
fn values_by_reading(text: &str) -> Option<BTreeMap<String, u64>> {
    let mut m = BTreeMap::new();
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with("//") {
            continue;
        }
        let (name, v) = l.strip_prefix("pub const ")?.strip_suffix(';')?.split_once(": u32 = ")?;
        if m.insert(name.to_string(), v.replace('_', "").parse().ok()?).is_some() {
            return None;
        }
    }
    Some(m)
}

fn compare(text: &str, want: &BTreeMap<String, u64>, what: &str) -> Result<(), String> {
    let names: Vec<&String> = want.keys().collect();
    let got = match values_by_reading(text) {
        Some(m) => m,
        None => values_by_compiling(text, &names)?,
    };
    for (n, w) in want {
        ensure_eq!(got.get(n), Some(w), "{what}: {n}");
    }
    Ok(())
}

fn generated(a: &[u64]) -> Verdict {
    let c: Config = a.try_into().unwrap();
    let want = model(&c);
    let what = format!("parameters {:?}", PARAMS.iter().map(|p| p.0).zip(c).collect::<Vec<_>>());
    // half of the runs find an older, longer file where they write
    let old = stale();
    let over = (c.iter().fold(0, |x, y| x ^ y) & 1 == 0).then_some(old.as_str());
    let first = generate(Some(&c), over).and_then(|t| compare(&t, &want, &what));
    if let Err(m) = first {
        // the parameters may reach the generator by another way than its imports
        match generate_from_copy(&c, over) {
            Some(t) => t.and_then(|t| compare(&t, &want, &what))?,
            None => return Err(m),
        }
    }
    match (want["INITIAL_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS"] > 0, want["REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS"] > 0) {
        (false, false) => real("no hasher minimum"),
        (true, false) => real("initial minimum"),
        (false, true) => real("repeated minimum"),
        (true, true) => real("both minima"),
    }
}

fn current(_a: &[u64]) -> Verdict {
    let want = model(&real_config());
    ensure_eq!(committed(), want, "prices the library uses, against the model");
    let text = generate(None, None)?;
    compare(&text, &want, "current parameters")?;
    let again = generate(None, Some(&stale()))?;
    ensure_eq!(again, text, "output of the generator over an existing file");
    // a valid source file, each price exactly once
    let names: Vec<&String> = want.keys().collect();
    let by_compiler = values_by_compiling(&text, &names)?;
    ensure_eq!(by_compiler, want, "compiled output of the generator");
    real("current parameters")
}

fn config_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let ergs_max = u64::from(u32::MAX) - 260_000;
    let tx_max = u64::from(u32::MAX) - 7_400;
    let caps: Vec<u64> = CAPACITY.iter().map(|c| c.1).collect();
    let ergs = prop_oneof![
        2 => 1..=1_000_000u64,
        2 => 1..=ergs_max,
        3 => (proptest::sample::select(caps), 1..=200u64, 0..3u64).prop_map(|(c, k, d)| (c * k + d).saturating_sub(1)),
        1 => Just(80_000u64),
        1 => 0..=2u64,
    ]
    .prop_map(move |v| v.min(ergs_max));
    let tx = prop_oneof![
        2 => 1..=200_000_000u64,
        2 => 1..=tx_max,
        3 => (proptest::sample::select(vec![512u64, 4600, 7400]), 1..=100_000u64, 0..3u64).prop_map(|(c, k, d)| (c * k + d).saturating_sub(1)),
        1 => 0..=2u64,
    ]
    .prop_map(move |v| v.min(tx_max));
    let bytes = || prop_oneof![4 => 0..=200u64, 1 => 0..=100_000u64];
    (ergs, tx, bytes(), bytes(), 0..8u64, 0..=u64::from(u32::MAX), 0..3u64)
        .prop_map(|(e, t, i, r, how, any, d)| {
            let p = match how {
                0 | 1 => (4600 * i + d).saturating_sub(1),
                2 | 3 => (7400 * r + d).saturating_sub(1),
                4 => 110_000,
                5 => any,
                6 => any % 2_000_000,
                _ => (4600 * i + 7400 * r) / 2,
            };
            vec![e, t, p.min(u64::from(u32::MAX)), i, r]
        })
        .boxed()
}

pub fn c22() -> Property {
    let seeds = vec![
        vec![80_000, 80_000_000, 4600 * 64, 64, 40],
        vec![80_000, 80_000_000, 4600 * 64 + 1, 64, 40],
        vec![80_000, 80_000_000, 7400 * 40, 64, 40],
        vec![80_000, 80_000_000, 7400 * 40 + 1, 64, 40],
        vec![80_000, 80_000_001, 500_000, 64, 100],
        vec![80_000, 80_000_001, 500_000, 200, 40],
        vec![1, 1, 1, 0, 0],
        vec![0, 80_000_000, 500_000, 64, 40],
        vec![80_000, 0, 500_000, 64, 40],
        vec![0, 0, 0, 1, 1],
        vec![23_000, 512, 0, 0, 0],
        vec![4_294_707_295, 4_294_959_895, 4_294_967_295, 100, 100],
    ];
    Property {
        id: "C22",
        rule: "the generator compiled against and run with generated parameter settings (multiples of capacities and neighbours, pubdata limits at and around what the circuits can hold), outputs compared with an independent search for the smallest sufficient price; every setting counts",
        assumptions: vec!["parameters for which the generator's 32-bit products fit", "published circuit capacities"],
        kinds: vec![
            Kind::exhaustive("current", vec![Below(1)], current),
            Kind::history("settings", config_strategy, generated).cases(72).thorough(30).max_shrink(60).seeds(seeds),
        ],
    }
}

// ---------------------------------------------------------------- C23

/// One metered run.  Elements: (operation, repeat count).
struct Meter {
    ergs: u64,
    writes: u64,
    messages: u64,
    depth: u64,
    deepest: u64,
    completed: u64,
}

pub fn price_of(op: usize, how: u64) -> u64 {
    let n = spec::assigned(1).iter().position(|k| k.op == op).unwrap();
    u64::from(match how % 3 {
        0 => OPCODES_PRICES[n],
        1 => OPCODES_TABLE[n].ergs_price(),
        _ => spec::ops()[op].op.ergs_price(),
    })
}

fn meter(start: u64, steps: &[u64]) -> Meter {
    let mut m = Meter { ergs: start, writes: 0, messages: 0, depth: 1, deepest: 1, completed: 0 };
    for s in steps {
        let op = (s % spec::NUM_OPS as u64) as usize;
        let mut n = (s / 64) & 0xffff_ffff;
        let price = price_of(op, s >> 61);
        if op == 0 {
            break;
        }
        if price > 0 {
            n = n.min(m.ergs / price);
        }
        m.ergs -= n * price;
        m.completed += n;
        match spec::ops()[op].name {
            "log.swrite" => m.writes += n,
            "log.to_l1" => m.messages += n,
            "near_call" | "far_call" | "delegate_call" | "mimic_call" => {
                m.depth += n;
                m.deepest = m.deepest.max(m.depth);
            }
            "ret.ok" | "ret.revert" | "ret.panic" => m.depth = m.depth.saturating_sub(n).max(1),
            _ => {}
        }
    }
    m
}

fn safety(a: &[u64]) -> Verdict {
    let steps = &a[1..];
    let stipends = [2300u64, u64::from(MSG_VALUE_SIMULATOR_ADDITIVE_COST) - u64::from(MSG_VALUE_SIMULATOR_MIN_USED_ERGS)];
    for s in stipends {
        // any part of the stipend may be what the frame is entered with
        for start in [s, a[0] % (s + 1)] {
            let m = meter(start, steps);
            ensure_eq!(m.writes, 0, "storage writes completed with a stipend of {start}");
        }
    }
    let m1 = meter(u64::from(MAX_TX_ERGS_LIMIT), steps);
    ensure!(m1.messages <= 512, "{} L1 messages within one transaction", m1.messages);
    let m2 = meter(u64::from(VM_INITIAL_FRAME_ERGS), steps);
    ensure!(m2.deepest <= u64::from(VM_MAX_STACK_DEPTH), "{} nested frames, limit {VM_MAX_STACK_DEPTH}", m2.deepest);
    ensure!(
        u64::from(VM_INITIAL_FRAME_ERGS) / u64::from(CALL_LIKE_ERGS_COST) + 80 <= u64::from(VM_MAX_STACK_DEPTH),
        "stack depth limit {VM_MAX_STACK_DEPTH} leaves no 80 frames to spare"
    );
    ensure!(
        stipends.iter().all(|s| u64::from(MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION) > *s),
        "the minimal write price {MIN_STORAGE_WRITE_PRICE_FOR_REENTRANCY_PROTECTION} does not exceed the stipends {stipends:?}"
    );
    if m1.messages > 0 && m2.deepest > 1 {
        real("messages and calls")
    } else if m1.messages > 0 {
        real("messages")
    } else if m2.deepest > 1 {
        real("calls")
    } else if steps.iter().any(|s| s % spec::NUM_OPS as u64 == 30) {
        real("write attempts")
    } else {
        trivial("none of the limited operations")
    }
}

fn safety_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    let op = prop_oneof![
        4 => 0..spec::NUM_OPS as u64,
        3 => Just(30u64),
        3 => Just(31u64),
        2 => Just(18u64),
        1 => 34..37u64,
        1 => 37..40u64,
    ];
    let count = prop_oneof![4 => 1..=8u64, 2 => 500..=520u64, 2 => 1..=0xffff_ffffu64, 1 => Just(0xffff_ffffu64)];
    // s % 45 == op and (s / 64) is about the count: choose s = 64 * count + r with the right remainder
    let step = (op, count, 0..3u64).prop_map(|(op, n, how)| {
        let base = n * 64 + (how << 61);
        let m = spec::NUM_OPS as u64;
        base + (op + m - base % m) % m
    });
    (any::<u64>(), proptest::collection::vec(step, 1..30))
        .prop_map(|(b, mut v)| {
            v.insert(0, b);
            v
        })
        .boxed()
}

pub fn c23() -> Property {
    let m = spec::NUM_OPS as u64;
    let step = |op: u64, n: u64| {
        let base = n * 64;
        base + (op + m - base % m) % m
    };
    let seeds = vec![
        vec![0, step(30, 1)],
        vec![0, step(31, 0xffff_ffff)],
        vec![0, step(18, 0xffff_ffff)],
        vec![0, step(34, 0xffff_ffff)],
        vec![0, step(35, 0xffff_ffff)],
        vec![0, step(36, 0xffff_ffff)],
    ];
    Property {
        id: "C23",
        rule: "metered runs of random operation sequences with repeat counts from stipends, the transaction limit and the initial frame's ergs; non-trivial when the sequence attempts a write, a message or a call",
        assumptions: vec!["the merklizer takes 512 messages", "0-value transfers grant 2300 ergs"],
        kinds: vec![Kind::history("metered-run", safety_strategy, safety).list(vec![Bits(64)], Bits(64), 30).cases(60_000).seeds(seeds).no_fuzz()],
    }
}
