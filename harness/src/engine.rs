//! Generation, judging, shrinking, counting.  Knows nothing about the code under test.

use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a judge says about a case on which the property held.
#[derive(Clone, Copy, Debug)]
pub struct Class {
    pub label: &'static str,
    pub nontrivial: bool,
}

pub type Verdict = Result<Class, String>;

pub fn real(label: &'static str) -> Verdict {
    Ok(Class { label, nontrivial: true })
}

pub fn trivial(label: &'static str) -> Verdict {
    Ok(Class { label, nontrivial: false })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond {
            return Err(format!($($fmt)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b));
        }
    }};
}

/// One bounded integer argument of a case.
#[derive(Clone, Copy, Debug)]
pub enum Arg {
    /// any value of that many bits (1..=64)
    Bits(u32),
    /// any value below that number
    Below(u64),
}

impl Arg {
    fn size(&self) -> Option<u64> {
        match self {
            Arg::Bits(64) => None,
            Arg::Bits(b) => Some(1u64 << b),
            Arg::Below(n) => Some(*n),
        }
    }
    fn bytes(&self) -> usize {
        match self.size() {
            None => 8,
            Some(n) => ((64 - (n - 1).max(1).leading_zeros()) as usize).div_ceil(8),
        }
    }
    /// Forces any value into the domain.
    pub fn fit(&self, v: u64) -> u64 {
        match self.size() {
            None => v,
            Some(n) => v % n,
        }
    }
    fn values(&self, cap_full: u64, dict: &[u64]) -> Vec<u64> {
        match self.size() {
            Some(n) if n <= cap_full => (0..n).collect(),
            _ => self.interesting(dict),
        }
    }
    fn pair_values(&self, dict: &[u64]) -> Vec<u64> {
        let max = match self.size() {
            None => u64::MAX,
            Some(n) => n - 1,
        };
        if max < 2048 {
            return (0..=max).collect();
        }
        let mut out = vec![0, 1, 2, 3, max, max - 1, max / 2, max / 3];
        for k in 2..64 {
            out.extend([1u64 << k, (1u64 << k) - 1]);
        }
        out.extend(dict);
        out.retain(|v| *v <= max);
        out.sort_unstable();
        out.dedup();
        out
    }
    fn interesting(&self, dict: &[u64]) -> Vec<u64> {
        let max = match self.size() {
            None => u64::MAX,
            Some(n) => n - 1,
        };
        let mut out = vec![0, 1, 2, 3, 5, 7, max, max.wrapping_sub(1), max.wrapping_sub(2), max / 2, max / 2 + 1, max / 3];
        let mut k = 0;
        while k < 64 && (1u64 << k) <= max {
            let p = 1u64 << k;
            out.extend([p, p - 1, p + 1, max ^ p, max ^ (p - 1)]);
            k += 1;
        }
        for d in dict {
            out.extend([*d, d.wrapping_sub(1), d.wrapping_add(1)]);
        }
        out.retain(|v| *v <= max);
        let mut seen = std::collections::HashSet::new();
        out.retain(|v| seen.insert(*v));
        out
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// enumerate the whole argument space, nothing else
    Exhaustive,
    /// sweeps over single arguments and pairs of arguments, then random search
    Sweep,
    /// as Exhaustive, in the thorough tier only
    Thorough,
    /// as Exhaustive, in the thorough tier, and in the quick tier in the optimised build
    Release,
    /// random search only (expensive judges, variable-length histories)
    Random,
}

pub type Judge = fn(&[u64]) -> Verdict;
pub type MakeStrategy = fn(&[u64]) -> BoxedStrategy<Vec<u64>>;

pub struct Kind {
    pub name: &'static str,
    pub args: Vec<Arg>,
    pub judge: Judge,
    pub mode: Mode,
    /// random cases in the quick tier (the thorough tier multiplies them)
    pub cases: u32,
    /// factor of the thorough tier
    pub thorough: u32,
    pub strategy: Option<MakeStrategy>,
    /// Domain of variable-length cases: leading arguments, every further element, longest length.
    pub list: Option<(Vec<Arg>, Arg, usize)>,
    pub fuzz: bool,
    pub max_shrink: u32,
    /// a single case that takes longer than this never returned
    pub hang_s: u64,
    /// cases at the boundaries that are always tried, in order
    pub seeds: Vec<Vec<u64>>,
}

impl Kind {
    pub fn new(name: &'static str, mode: Mode, args: Vec<Arg>, judge: Judge) -> Self {
        Kind { name, args, judge, mode, cases: 60_000, thorough: 50, strategy: None, list: None, fuzz: true, max_shrink: 4096, hang_s: 60, seeds: vec![] }
    }
    pub fn exhaustive(name: &'static str, args: Vec<Arg>, judge: Judge) -> Self {
        Self::new(name, Mode::Exhaustive, args, judge)
    }
    pub fn thorough_only(name: &'static str, args: Vec<Arg>, judge: Judge) -> Self {
        Self::new(name, Mode::Thorough, args, judge).hang_s(600)
    }
    /// Large blocks: in the quick tier only the optimised build enumerates them.
    pub fn blocks(name: &'static str, args: Vec<Arg>, judge: Judge) -> Self {
        Self::new(name, Mode::Release, args, judge).hang_s(600)
    }
    pub fn sweep(name: &'static str, args: Vec<Arg>, judge: Judge) -> Self {
        Self::new(name, Mode::Sweep, args, judge)
    }
    /// Variable-length cases: `item` is the domain of every element, `max` the longest length.
    pub fn history(name: &'static str, strategy: MakeStrategy, judge: Judge) -> Self {
        let mut k = Self::new(name, Mode::Random, vec![], judge);
        k.strategy = Some(strategy);
        k
    }
    pub fn cases(mut self, n: u32) -> Self {
        self.cases = n;
        self
    }
    pub fn thorough(mut self, n: u32) -> Self {
        self.thorough = n;
        self
    }
    pub fn max_shrink(mut self, n: u32) -> Self {
        self.max_shrink = n;
        self
    }
    pub fn hang_s(mut self, n: u64) -> Self {
        self.hang_s = n;
        self
    }
    pub fn random_only(mut self) -> Self {
        self.mode = Mode::Random;
        self
    }
    pub fn seeds(mut self, s: Vec<Vec<u64>>) -> Self {
        self.seeds = s;
        self
    }
    pub fn list(mut self, head: Vec<Arg>, item: Arg, max: usize) -> Self {
        self.list = Some((head, item, max));
        self
    }
    /// Fixed-length cases with a strategy of their own.
    pub fn domain(mut self, args: Vec<Arg>) -> Self {
        self.args = args;
        self
    }
    pub fn no_fuzz(mut self) -> Self {
        self.fuzz = false;
        self
    }
    /// Worth a coverage-guided search: not enumerated anyway, cheap, in process.
    pub fn fuzzable(&self) -> bool {
        self.fuzz && self.open() && !self.enumerated()
    }
    pub fn enumerated(&self) -> bool {
        matches!(self.mode, Mode::Exhaustive | Mode::Thorough | Mode::Release)
    }
    /// Is the whole domain known, so that a fuzzer or a shrinker can move in it?
    pub fn open(&self) -> bool {
        self.list.is_some() || !self.args.is_empty()
    }
    /// Forces raw numbers (from a fuzzer or a shrinker) into this kind's domain.
    pub fn fit(&self, raw: &[u64]) -> Vec<u64> {
        let at = |i: usize| raw.get(i).copied().unwrap_or(0);
        if let Some((head, item, max)) = &self.list {
            let mut v: Vec<u64> = head.iter().enumerate().map(|(i, a)| a.fit(at(i))).collect();
            v.extend(raw.iter().skip(head.len()).take(*max).map(|x| item.fit(*x)));
            return v;
        }
        self.args.iter().enumerate().map(|(i, a)| a.fit(at(i))).collect()
    }
    /// How a fuzzer's bytes spell a case: every argument in as few bytes as it needs.
    pub fn from_bytes(&self, data: &[u8]) -> Vec<u64> {
        let mut at = 0;
        let mut take = |a: &Arg| {
            let n = a.bytes();
            let mut v = [0u8; 8];
            for b in v.iter_mut().take(n) {
                *b = data.get(at).copied().unwrap_or(0);
                at += 1;
            }
            (u64::from_le_bytes(v), at >= data.len())
        };
        if let Some((head, item, max)) = &self.list {
            let mut raw: Vec<u64> = head.iter().map(|a| take(a).0).collect();
            let used: usize = head.iter().map(Arg::bytes).sum();
            if data.len() > used {
                for _ in 0..*max {
                    let (v, end) = take(item);
                    raw.push(v);
                    if end {
                        break;
                    }
                }
            }
            return self.fit(&raw);
        }
        let raw: Vec<u64> = self.args.iter().map(|a| take(a).0).collect();
        self.fit(&raw)
    }
    pub fn to_bytes(&self, args: &[u64]) -> Vec<u8> {
        let mut out = vec![];
        for (i, v) in args.iter().enumerate() {
            let n = match &self.list {
                Some((head, item, _)) => head.get(i).unwrap_or(item).bytes(),
                None => self.args[i].bytes(),
            };
            out.extend(&v.to_le_bytes()[..n]);
        }
        out
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub kinds: Vec<Kind>,
}

impl Property {
    pub fn case_from_bytes<'a>(&'a self, kinds: &[usize], data: &[u8]) -> (&'a Kind, Vec<u64>) {
        let (which, rest) = match (kinds.len(), data.split_first()) {
            (1, _) => (0, data),
            (_, Some((b, rest))) => (*b as usize % kinds.len(), rest),
            (_, None) => (0, data),
        };
        let kind = &self.kinds[kinds[which]];
        (kind, kind.from_bytes(rest))
    }
    pub fn case_to_bytes(&self, kinds: &[usize], which: usize, args: &[u64]) -> Vec<u8> {
        let mut out = if kinds.len() > 1 { vec![which as u8] } else { vec![] };
        out.extend(self.kinds[kinds[which]].to_bytes(args));
        out
    }
}

pub fn failure_text(kind: &str, args: &[u64], message: &str) -> String {
    let (before, found) = past();
    json!({"kind": kind, "args": hex(args), "message": message, "found_by": "coverage-guided fuzzing",
        "found": hex(&found), "before": history_json(&before)}).to_string()
}

pub fn history_json(h: &[(&'static str, Vec<u64>)]) -> serde_json::Value {
    json!(h.iter().map(|(k, a)| json!({"kind": k, "args": hex(a)})).collect::<Vec<_>>())
}

/// Starting points for a coverage-guided search.
pub fn fuzz_seeds(p: &Property, kinds: &[usize], seed: u64, h: &Hints, per_kind: usize) -> Vec<Vec<u8>> {
    let mut out = vec![];
    for (w, ki) in kinds.iter().enumerate() {
        let kind = &p.kinds[*ki];
        for s in kind.seeds.iter().take(per_kind) {
            out.push(p.case_to_bytes(kinds, w, s));
        }
        for directed in [false, true] {
            if directed && h.fresh.is_empty() {
                break;
            }
            let strat = disturbed(kind, h, directed);
            let mut r = runner(seed, p.id, 1 << 20 | w, 1, 0);
            for _ in 0..per_kind {
                let args = strat.new_tree(&mut r).unwrap().current();
                if args.len() <= 64 {
                    out.push(p.case_to_bytes(kinds, w, &args));
                }
            }
        }
    }
    out
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = text);
    }));
}

/// Runs a closure of the code under test; Err carries the panic message.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = PANIC_MSG.with(|m| m.borrow().clone());
        m.lines().collect::<Vec<_>>().join(" | ")
    })
}

type Slot = Mutex<Option<(Instant, &'static str, u64, Vec<u64>)>>;

thread_local! {
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

/// What every worker is judging, in a file that outlives this process: a call that kills the process
/// (stack overflow, abort, exit) leaves its case behind.
pub mod flight {
    use std::cell::Cell;
    use std::fs::File;
    use std::os::fd::AsRawFd;
    use std::path::Path;

    /// Per worker: length of the arguments + 1 (0: nothing), length of the kind's name, name, arguments.
    const WORDS: usize = 1 << 17;
    const HEAD: usize = 16;

    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }

    thread_local! {
        static MINE: Cell<*mut u64> = const { Cell::new(std::ptr::null_mut()) };
    }

    pub struct Recorder(*mut u64);
    unsafe impl Sync for Recorder {}

    /// The recorder that the parent asked for, if any.
    pub fn open(threads: usize) -> Option<Recorder> {
        let f = File::options().read(true).write(true).open(std::env::var_os("VH_FLIGHT")?).ok()?;
        let len = threads * WORDS * 8;
        f.set_len(len as u64).ok()?;
        let at = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        (at as isize != -1).then_some(Recorder(at.cast()))
    }

    impl Recorder {
        /// This thread is that worker from now on.
        pub fn take(&self, worker: usize) {
            MINE.with(|m| m.set(unsafe { self.0.add(worker * WORDS) }));
        }
    }

    pub fn begin(kind: &str, args: &[u64]) {
        let at = MINE.with(|m| m.get());
        if at.is_null() || args.len() > WORDS - HEAD {
            return;
        }
        let name = &kind.as_bytes()[..kind.len().min((HEAD - 2) * 8)];
        unsafe {
            at.write_volatile(0);
            at.add(1).write(name.len() as u64);
            std::ptr::copy_nonoverlapping(name.as_ptr(), at.add(2).cast(), name.len());
            std::ptr::copy_nonoverlapping(args.as_ptr(), at.add(HEAD), args.len());
            at.write_volatile(args.len() as u64 + 1);
        }
    }

    pub fn end() {
        let at = MINE.with(|m| m.get());
        if !at.is_null() {
            unsafe { at.write_volatile(0) };
        }
    }

    /// The cases that were being judged when the process ended.
    pub fn read(path: &Path) -> Vec<(String, Vec<u64>)> {
        let bytes = std::fs::read(path).unwrap_or_default();
        let words: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let mut out = vec![];
        for w in words.chunks_exact(WORDS) {
            let (n, m) = (w[0] as usize, w[1] as usize);
            if n == 0 || n > WORDS - HEAD + 1 || m > (HEAD - 2) * 8 {
                continue;
            }
            let name: Vec<u8> = w[2..HEAD].iter().flat_map(|x| x.to_le_bytes()).take(m).collect();
            out.push((String::from_utf8_lossy(&name).to_string(), w[HEAD..HEAD + n - 1].to_vec()));
        }
        out
    }
}

/// The last cases this thread judged, newest last, for failures that need what came before them.
const REMEMBERED: usize = 32;

#[derive(Default)]
struct Past {
    depth: u32,
    ring: Vec<(&'static str, Vec<u64>)>,
    next: usize,
    /// what came before the first failure, and the failing case itself
    frozen: Option<(Vec<(&'static str, Vec<u64>)>, Vec<u64>)>,
}

impl Past {
    fn push(&mut self, kind: &'static str, args: &[u64]) {
        if self.ring.len() < REMEMBERED {
            self.ring.push((kind, args.to_vec()));
            return;
        }
        let slot = &mut self.ring[self.next];
        slot.0 = kind;
        slot.1.clear();
        slot.1.extend_from_slice(args);
        self.next = (self.next + 1) % REMEMBERED;
    }
    fn list(&self) -> Vec<(&'static str, Vec<u64>)> {
        let mut v = self.ring[self.next..].to_vec();
        v.extend_from_slice(&self.ring[..self.next]);
        v
    }
}

thread_local! {
    static PAST: RefCell<Past> = RefCell::default();
}

/// What this thread judged before its first failure, and the case that failed.
pub fn past() -> (Vec<(&'static str, Vec<u64>)>, Vec<u64>) {
    PAST.with(|p| p.borrow().frozen.clone()).unwrap_or_default()
}

pub fn judge(kind: &Kind, args: &[u64]) -> Verdict {
    // cases judged inside other cases are part of those
    let outermost = PAST.with(|p| {
        let mut p = p.borrow_mut();
        p.depth += 1;
        p.depth == 1
    });
    let slot = if outermost { SLOT.with(|s| s.borrow().clone()) } else { None };
    if let Some(s) = &slot {
        *s.lock().unwrap() = Some((Instant::now(), kind.name, kind.hang_s, args.to_vec()));
        flight::begin(kind.name, args);
    }
    let v = match quiet(|| (kind.judge)(args)) {
        Ok(v) => v,
        Err(m) => Err(format!("panicked: {m}")),
    };
    if let Some(s) = &slot {
        *s.lock().unwrap() = None;
        flight::end();
    }
    PAST.with(|p| {
        let mut p = p.borrow_mut();
        p.depth -= 1;
        if outermost && p.frozen.is_none() {
            if v.is_err() {
                p.frozen = Some((p.list(), args.to_vec()));
            } else {
                p.push(kind.name, args);
            }
        }
    });
    v
}

fn arg_strategy(arg: Arg, dict: &[u64]) -> BoxedStrategy<u64> {
    match arg {
        Arg::Below(n) if n <= 1 => Just(0u64).boxed(),
        Arg::Below(n) => (0..n).boxed(),
        Arg::Bits(b) => {
            let mask = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
            let uniform = (0..=mask).boxed();
            if b <= 8 {
                return uniform;
            }
            let nice = arg.interesting(dict);
            prop_oneof![
                4 => uniform,
                3 => proptest::sample::select(nice),
                1 => 0..=16u64,
                1 => (0..b, 0..=mask).prop_map(move |(s, v)| (v >> s) & mask),
                1 => (0..b, 0..=mask).prop_map(move |(s, v)| (v << s) & mask),
            ]
            .boxed()
        }
    }
}

/// Independent arguments, sometimes with one copied (with a small offset) from another.
pub fn args_strategy(args: &[Arg], dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    if args.is_empty() {
        return Just(vec![]).boxed();
    }
    let each: Vec<_> = args.iter().map(|a| arg_strategy(*a, dict)).collect();
    let spec: Vec<Arg> = args.to_vec();
    let n = args.len();
    (each, proptest::option::weighted(0.3, (0..n, 0..n, -2i64..=2)))
        .prop_map(move |(mut v, mirror)| {
            if let Some((i, j, d)) = mirror {
                v[i] = spec[i].fit(v[j].wrapping_add(d as u64));
            }
            v
        })
        .boxed()
}

pub fn kind_strategy(kind: &Kind, dict: &[u64]) -> BoxedStrategy<Vec<u64>> {
    match kind.strategy {
        Some(make) => make(dict),
        None => args_strategy(&kind.args, dict),
    }
}

/// What steers generation; no verdict ever depends on it.
#[derive(Default)]
pub struct Hints {
    /// every number written in the sources under test
    pub dict: Vec<u64>,
    /// those that occur more often than in the tree the checks were written for
    pub fresh: Vec<u64>,
}

/// A stream of choices from one number.
pub struct Dice(pub u64);

impl Dice {
    pub fn roll(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.roll() % n.max(1) as u64) as usize
    }
    fn pick(&mut self, v: &[u64]) -> u64 {
        if v.is_empty() {
            self.roll()
        } else {
            v[self.below(v.len())]
        }
    }
}

impl Arg {
    fn width(&self) -> u32 {
        match self.size() {
            None => 64,
            Some(n) => (64 - (n - 1).leading_zeros()).max(1),
        }
    }
}

impl Kind {
    fn arg_at(&self, i: usize) -> Option<Arg> {
        match &self.list {
            Some((head, item, max)) => head.get(i).copied().or((i < head.len() + max).then_some(*item)),
            None => self.args.get(i).copied(),
        }
    }
}

/// One argument made a function of itself or of one or two others.
fn relate(arg: Arg, me: u64, x: u64, y: u64, d: &mut Dice, numbers: &[u64]) -> u64 {
    let w = arg.width();
    let top = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    let s = d.below(w as usize) as u32;
    let half = (w / 2).max(1) % 64;
    let rot = |v: u64, k: u32| (v & top) << k % 64 | (v & top) >> ((w - k.min(w)).min(63));
    // a factor or modulus
    let m = match d.below(3) {
        0 => 2 + d.below(31) as u64,
        1 => 2 + d.below(1 << 10) as u64,
        _ => d.pick(numbers).max(2),
    };
    match d.below(34) {
        0 => x,
        1 => x.wrapping_add(1 + d.below(2) as u64),
        2 => x.wrapping_sub(1 + d.below(2) as u64),
        3 => !x & top,
        4 => x.wrapping_neg() & top,
        5 => (x & top).swap_bytes() >> (64 - w.div_ceil(8) * 8),
        6 => rot(x, half),
        7 => rot(x, s),
        8 => (x & top).reverse_bits() >> (64 - w),
        9 => x ^ 1 << s,
        10 => x << s,
        11 => (x & top) >> s,
        12 => d.pick(numbers).wrapping_sub(x),
        13 => d.pick(numbers) ^ x,
        14 => x.wrapping_add(y),
        15 => x ^ y,
        16 => x.wrapping_sub(y),
        17 => x.wrapping_mul(y),
        18 => x.wrapping_mul(m),
        19 => x / m,
        20 => x % m,
        21 => me - me % m,
        22 => (me - me % m).wrapping_add(d.pick(numbers) % m),
        23 => (me - me % m).wrapping_add(x % m),
        24 => x.wrapping_add(d.pick(numbers)),
        25 => d.pick(numbers).wrapping_sub(x).wrapping_sub(y),
        26 => u64::from(x.count_ones()),
        27 => x.wrapping_mul(x),
        28 => x & y,
        29 => x | y,
        31 => x.wrapping_mul(m).wrapping_add(d.pick(numbers)),
        32 => x.wrapping_mul(m).wrapping_add(y),
        30 => (x << half | y & ((1 << half) - 1)) & top,
        _ => me ^ (x ^ y) & 0xff << (s & !7),
    }
}

/// A stretch of arguments read as one byte string with a regular pattern.
fn pattern(kind: &Kind, v: &mut [u64], d: &mut Dice) {
    let from = d.below(v.len());
    let to = if d.below(2) == 0 { v.len() } else { from + 1 + d.below(v.len() - from) };
    let from = if to == v.len() || d.below(2) == 0 { from } else { 0 };
    let big_endian = d.below(2) == 0;
    let mut byte = d.roll() as u8;
    let other = d.roll() as u8;
    let step = [0, 1, 1, 0xff, 2, 16, 17][d.below(7)];
    let alternate = d.below(4) == 0;
    let period = (d.below(4) == 0).then(|| ([2, 3, 4, 4, 8, 8][d.below(6)], d.roll()));
    let mut at = 0;
    for i in from..to {
        let n = kind.arg_at(i).unwrap_or(Arg::Bits(64)).bytes();
        let mut x = 0u64;
        for k in 0..n {
            if let Some((p, block)) = period {
                // a block of bytes over and over
                byte = (block >> (8 * (at % p))) as u8;
                at += 1;
            }
            x |= u64::from(byte) << if big_endian { 8 * (n - 1 - k) } else { 8 * k };
            byte = if alternate { byte ^ other } else { byte.wrapping_add(step) };
        }
        v[i] = x;
    }
}

/// Disturbs a generated case: related arguments, repeated and moved elements; with `directed`,
/// most places take one of the fresh numbers.
pub fn disturb(kind: &Kind, mut v: Vec<u64>, seed: u64, h: &Hints, directed: bool) -> Vec<u64> {
    let mut d = Dice(seed);
    if v.is_empty() {
        return v;
    }
    if directed {
        let often = 2 + d.below(7) as u64;
        for i in 0..v.len() {
            if d.roll() % 10 >= often {
                continue;
            }
            let mut n = d.pick(&h.fresh);
            match d.below(8) {
                0 => n = n.wrapping_add(1),
                1 => n = n.wrapping_sub(1),
                _ => {}
            }
            let arg = kind.arg_at(i).unwrap_or(Arg::Bits(64));
            v[i] = match (arg.width(), d.below(8)) {
                // elements that pack several numbers
                (64, 0..=3) => {
                    let at = [4, 8, 16, 20, 24, 28, 32, 40, 48, 56][d.below(10)];
                    let keep = [4, 8, 16, 32][d.below(4)];
                    let m = (((1u128 << keep) - 1) as u64) << at;
                    v[i] & !m | n << at & m
                }
                _ => n,
            };
        }
    } else if d.roll() % 4 != 0 {
        return v;
    }
    for _ in 0..1 + d.below(3) {
        let n = v.len();
        let (i, j, k) = (d.below(n), d.below(n), d.below(n));
        let head = kind.list.as_ref().map(|l| l.0.len()).unwrap_or(n);
        match d.below(if n > head { 13 } else { 7 }) {
            12 | 6 if n == head || d.below(2) == 0 => pattern(kind, &mut v, &mut d),
            0..=4 => {
                let numbers = if directed && d.below(4) != 0 { &h.fresh } else { &h.dict };
                v[i] = relate(kind.arg_at(i).unwrap_or(Arg::Bits(64)), v[i], v[j], v[k], &mut d, numbers);
            }
            5 => {
                let x = v[j];
                v.iter_mut().for_each(|y| *y = x);
            }
            6 | 12 => {
                let x = v[head + d.below(n - head)];
                v[head..].iter_mut().for_each(|y| *y = x);
            }
            7 => {
                // a run of one element
                let at = head + d.below(n - head);
                let x = v[at];
                for _ in 0..1 + d.below(6) {
                    v.insert(at, x);
                }
            }
            8 => v.push(v[i]),
            9 => {
                let (a, b) = (head + d.below(n - head), head + d.below(n - head));
                v.swap(a, b);
            }
            10 => {
                let block = v[head + d.below(n - head)..].to_vec();
                v.extend(block);
            }
            _ => v[head..].reverse(),
        }
    }
    kind.fit(&v)
}

/// Generated cases of a kind whose domain is known, some of them disturbed.
fn disturbed<'a>(kind: &'a Kind, h: &'a Hints, directed: bool) -> impl Strategy<Value = Vec<u64>> + 'a {
    let active = kind.fuzzable();
    (kind_strategy(kind, &h.dict), any::<u64>()).prop_map(move |(v, s)| if active { disturb(kind, v, s, h, directed) } else { v })
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn case_hash(kind: usize, args: &[u64]) -> u64 {
    let mut h = mix(kind as u64 ^ (args.len() as u64) << 32);
    for a in args {
        h = mix(h ^ a);
    }
    h
}

pub fn runner(seed: u64, prop: &str, job: usize, cases: u32, max_shrink: u32) -> TestRunner {
    let mut s = mix(seed);
    for b in prop.bytes() {
        s = mix(s ^ b as u64);
    }
    let mut bytes = [0u8; 32];
    for i in 0..4 {
        s = mix(s ^ (job as u64 + 1) << (i * 3));
        bytes[i * 8..i * 8 + 8].copy_from_slice(&s.to_le_bytes());
    }
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: max_shrink,
        source_file: None,
        rng_seed: RngSeed::Fixed(seed),
        ..Config::default()
    };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

#[derive(Clone, Debug)]
enum Work {
    Seeds,
    Range(u64, u64),
    Single(usize, usize),
    Pair(usize, usize),
    Random(u32),
    Directed(u32),
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub kind: &'static str,
    pub args: Vec<u64>,
    pub message: String,
    pub found_by: &'static str,
    /// the case before it was made smaller, and the cases judged before it on the same thread
    pub found: Vec<u64>,
    pub before: Vec<(&'static str, Vec<u64>)>,
}

impl Failure {
    fn new(kind: &Kind, args: Vec<u64>, message: String, found_by: &'static str) -> Self {
        let (before, found) = past();
        Failure { kind: kind.name, args, message, found_by, found, before }
    }
}

/// Distinct cases are counted up to a limit per job and for the whole run; the count is then a lower bound.
const HASH_CAP: usize = 8_000_000;

#[derive(Default)]
struct Tally {
    evals: u64,
    hashes: Vec<u64>,
    classes: BTreeMap<(usize, &'static str), (u64, bool)>,
    samples: Vec<(usize, Vec<u64>, &'static str)>,
    by_work: BTreeMap<&'static str, u64>,
    failure: Option<Failure>,
}

impl Tally {
    fn see(&mut self, ki: usize, args: &[u64], c: Class, work: &'static str) {
        self.evals += 1;
        *self.by_work.entry(work).or_default() += 1;
        let e = self.classes.entry((ki, c.label)).or_insert((0, c.nontrivial));
        e.0 += 1;
        if c.nontrivial {
            if self.hashes.len() < HASH_CAP {
                self.hashes.push(case_hash(ki, args));
            }
            if e.0 == 1 || (e.0 == 1000 && self.samples.len() < 64) {
                self.samples.push((ki, args.to_vec(), c.label));
            }
        }
    }
    fn merge(&mut self, o: Tally) {
        self.evals += o.evals;
        // enough is enough: from here on the number of distinct cases is a lower bound
        if self.hashes.len() < 4 * HASH_CAP {
            self.hashes.extend(o.hashes);
        }
        for (k, v) in o.classes {
            self.classes.entry(k).or_insert((0, v.1)).0 += v.0;
        }
        for (k, v) in o.by_work {
            *self.by_work.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

/// Greedy minimisation: shorter lists, then smaller numbers.
pub fn shrink(kind: &Kind, args: &[u64], mut message: String) -> (Vec<u64>, String) {
    let mut best = args.to_vec();
    if !kind.open() {
        return (best, message);
    }
    let mut budget = kind.max_shrink;
    let begin = Instant::now();
    // A failure that depends on what happened before may not come back: then the case stays as found.
    match judge(kind, &best) {
        Err(m) => message = m,
        Ok(_) => return (best, message),
    }
    loop {
        let mut improved = false;
        if let Some((head, _, _)) = &kind.list {
            let mut size = (best.len() - head.len()) / 2;
            while size > 0 {
                let mut at = head.len();
                while at + size <= best.len() && budget > 0 && begin.elapsed().as_secs() < 30 {
                    budget -= 1;
                    let mut cand = best.clone();
                    cand.drain(at..at + size);
                    match judge(kind, &cand) {
                        Err(m) => {
                            best = cand;
                            message = m;
                            improved = true;
                        }
                        Ok(_) => at += size,
                    }
                }
                size /= 2;
            }
        }
        for i in 0..best.len() {
            let v = best[i];
            let mut tries: Vec<u64> = vec![0, 1];
            let mut half = v / 2;
            while half > 1 {
                tries.push(v - half);
                half /= 2;
            }
            for b in (0..64).rev() {
                if v >> b & 1 == 1 {
                    tries.push(v & !(1 << b));
                }
            }
            tries.push(v.wrapping_sub(1));
            for t in tries {
                if t >= v || budget == 0 || begin.elapsed().as_secs() >= 30 {
                    continue;
                }
                budget -= 1;
                let mut cand = best.clone();
                cand[i] = t;
                if let Err(m) = judge(kind, &cand) {
                    best = cand;
                    message = m;
                    improved = true;
                    break;
                }
            }
        }
        if !improved || budget == 0 || begin.elapsed().as_secs() >= 30 {
            return (best, message);
        }
    }
}

fn run_job(p: &Property, ki: usize, work: &Work, job: usize, o: &Options, h: &Hints) -> Tally {
    let dict = &h.dict[..];
    let kind = &p.kinds[ki];
    let mut t = Tally::default();
    let label = match work {
        Work::Seeds => "boundary seeds",
        Work::Range(..) => "exhaustive enumeration",
        Work::Single(..) => "single-argument sweep",
        Work::Pair(..) => "pair sweep",
        Work::Random(..) => "random search",
        Work::Directed(..) => "random search with the numbers of the change",
    };
    macro_rules! try_case {
        ($args:expr) => {{
            let args: &[u64] = $args;
            match judge(kind, args) {
                Ok(c) => t.see(ki, args, c, label),
                Err(m) => {
                    t.evals += 1;
                    let (args, message) = shrink(kind, args, m);
                    t.failure = Some(Failure::new(kind, args, message, label));
                    return t;
                }
            }
        }};
    }
    let mut rng = runner(o.seed, p.id, job, 1, kind.max_shrink);
    match work {
        Work::Seeds => {
            for s in &kind.seeds {
                try_case!(s);
            }
            if kind.strategy.is_none() {
                // everything smallest, everything largest, and the largest in one place only
                let top: Vec<u64> = kind.args.iter().map(|a| a.fit(a.size().unwrap_or(0).wrapping_sub(1))).collect();
                let zero = vec![0; top.len()];
                try_case!(&zero);
                try_case!(&top);
                for i in 0..top.len() {
                    let (mut x, mut y) = (zero.clone(), top.clone());
                    x[i] = top[i];
                    y[i] = 0;
                    try_case!(&x);
                    try_case!(&y);
                }
            }
        }
        Work::Range(from, to) => {
            for n in *from..*to {
                let mut rest = n;
                let mut args = vec![0; kind.args.len()];
                // the first argument varies slowest
                for i in (0..args.len()).rev() {
                    let size = kind.args[i].size().unwrap();
                    args[i] = rest % size;
                    rest /= size;
                }
                try_case!(&args);
            }
        }
        Work::Single(i, backgrounds) => {
            let strat = kind_strategy(kind, dict);
            let values = kind.args[*i].values(1 << 16, dict);
            for _ in 0..*backgrounds {
                let mut args = strat.new_tree(&mut rng).unwrap().current();
                for v in &values {
                    args[*i] = *v;
                    try_case!(&args);
                }
            }
        }
        Work::Pair(i, j) => {
            let strat = kind_strategy(kind, dict);
            let mut args = strat.new_tree(&mut rng).unwrap().current();
            let (a, b) = (kind.args[*i].pair_values(dict), kind.args[*j].pair_values(dict));
            for x in &a {
                for y in &b {
                    args[*i] = *x;
                    args[*j] = *y;
                    try_case!(&args);
                }
            }
        }
        Work::Random(n) | Work::Directed(n) => {
            let strat = disturbed(kind, h, matches!(work, Work::Directed(_)));
            let mut run = runner(o.seed, p.id, job, *n, if kind.open() { 0 } else { kind.max_shrink });
            let first = RefCell::new(None);
            let cell = RefCell::new(std::mem::take(&mut t));
            let failed = std::cell::Cell::new(false);
            let res = run.run(&strat, |args| match judge(kind, &args) {
                Ok(c) => {
                    if !failed.get() {
                        cell.borrow_mut().see(ki, &args, c, label);
                    }
                    Ok(())
                }
                Err(m) => {
                    if !failed.replace(true) {
                        *first.borrow_mut() = Some(args.clone());
                    }
                    Err(TestCaseError::fail(m))
                }
            });
            t = cell.into_inner();
            match res {
                Ok(()) => {}
                Err(TestError::Fail(reason, args)) => {
                    t.evals += 1;
                    let (args, message) = match first.into_inner() {
                        // open domains have a shrinker of their own, faster on long lists
                        Some(found) if kind.open() => shrink(kind, &found, reason.message().to_string()),
                        _ => (args, reason.message().to_string()),
                    };
                    t.failure = Some(Failure::new(kind, args, message, label));
                }
                Err(TestError::Abort(r)) => {
                    eprintln!("error: proptest aborted: {r}");
                    std::process::exit(2);
                }
            }
        }
    }
    t
}

pub struct Options {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
}

pub struct Report {
    pub failure: Option<Failure>,
    pub coverage: Value,
}

pub fn hex(args: &[u64]) -> Vec<String> {
    args.iter().map(|a| format!("{a:#x}")).collect()
}

pub fn run(p: &Property, o: &Options, h: &Hints, on_hang: &(dyn Fn(&Failure) + Sync)) -> Report {
    let mut jobs: Vec<(usize, Work)> = vec![];
    for (ki, kind) in p.kinds.iter().enumerate() {
        if !kind.seeds.is_empty() || (!kind.enumerated() && kind.strategy.is_none()) {
            jobs.push((ki, Work::Seeds));
        }
        match kind.mode {
            Mode::Thorough if !o.thorough => {}
            Mode::Release if !o.thorough && cfg!(debug_assertions) => {}
            Mode::Exhaustive | Mode::Thorough | Mode::Release => {
                let total: u64 = kind.args.iter().map(|a| a.size().unwrap()).product();
                let chunk = if total <= 64 { 1 } else { (total / 32).max(64) };
                let mut at = 0;
                while at < total {
                    jobs.push((ki, Work::Range(at, (at + chunk).min(total))));
                    at += chunk;
                }
            }
            Mode::Sweep => {
                for i in 0..kind.args.len() {
                    for _ in 0..if o.thorough { 16 } else { 1 } {
                        jobs.push((ki, Work::Single(i, if o.thorough { 12 } else { 6 })));
                    }
                }
                for i in 0..kind.args.len() {
                    for j in i + 1..kind.args.len() {
                        for _ in 0..if o.thorough { 8 } else { 1 } {
                            jobs.push((ki, Work::Pair(i, j)));
                        }
                    }
                }
            }
            Mode::Random => {}
        }
        if !kind.enumerated() {
            // cheap judges get more of the quick tier's time
            let quick = if kind.mode == Mode::Sweep { 4 } else { 1 };
            let total = kind.cases.saturating_mul(if o.thorough { kind.thorough.max(quick) } else { quick });
            let parts = if total >= 64 { (o.threads as u32 * 2).max(1) } else { total.max(1) };
            for _ in 0..parts {
                jobs.push((ki, Work::Random((total / parts).max(1))));
                if kind.fuzzable() && !h.fresh.is_empty() {
                    jobs.push((ki, Work::Directed((total / parts).max(1))));
                }
            }
        }
    }
    let next = AtomicUsize::new(0);
    let first_bad = AtomicUsize::new(usize::MAX);
    let out: Mutex<(Tally, Vec<(usize, Failure)>)> = Mutex::new(Default::default());
    let slots: Vec<Arc<Slot>> = (0..o.threads).map(|_| Arc::default()).collect();
    let recorder = flight::open(o.threads);
    let done = AtomicBool::new(false);
    let alive = AtomicUsize::new(o.threads);
    std::thread::scope(|s| {
        s.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                for slot in &slots {
                    let g = slot.lock().unwrap();
                    if let Some((since, kind, limit, args)) = &*g {
                        if since.elapsed().as_secs() >= *limit {
                            on_hang(&Failure {
                                kind,
                                args: args.clone(),
                                message: format!("did not return within {limit} s"),
                                found_by: "watchdog",
                                found: args.clone(),
                                before: vec![],
                            });
                        }
                    }
                }
            }
        });
        for w in 0..o.threads {
            let slot = slots[w].clone();
            let (jobs, next, first_bad, out, alive, done) = (&jobs, &next, &first_bad, &out, &alive, &done);
            let recorder = &recorder;
            s.spawn(move || {
            if let Some(r) = recorder {
                r.take(w);
            }
            SLOT.with(|s| *s.borrow_mut() = Some(slot));
            // also when this thread unwinds
            struct Leave<'a>(&'a AtomicUsize, &'a AtomicBool);
            impl Drop for Leave<'_> {
                fn drop(&mut self) {
                    if self.0.fetch_sub(1, Ordering::SeqCst) == 1 {
                        self.1.store(true, Ordering::SeqCst);
                    }
                }
            }
            let _leave = Leave(alive, done);
            loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= jobs.len() || n > first_bad.load(Ordering::SeqCst) {
                    return;
                }
                let (ki, work) = &jobs[n];
                let mut t = run_job(p, *ki, work, n, o, h);
                let f = t.failure.take();
                let mut g = out.lock().unwrap();
                g.0.merge(t);
                if let Some(f) = f {
                    first_bad.fetch_min(n, Ordering::SeqCst);
                    g.1.push((n, f));
                }
            }});
        }
    });
    let (mut tally, mut bad) = out.into_inner().unwrap();
    bad.sort_by_key(|b| b.0);
    tally.hashes.sort_unstable();
    tally.hashes.dedup();
    let mut classes = serde_json::Map::new();
    for ((ki, label), (n, nontrivial)) in &tally.classes {
        classes.insert(format!("{}/{}{}", p.kinds[*ki].name, label, if *nontrivial { "" } else { " (trivial)" }), json!(n));
    }
    let mut samples: Vec<Value> = vec![];
    tally.samples.sort_by(|a, b| (a.0, a.2, &a.1).cmp(&(b.0, b.2, &b.1)));
    let mut last = None;
    let mut per = 0;
    for (ki, args, label) in &tally.samples {
        per = if last == Some((*ki, *label)) { per + 1 } else { 0 };
        last = Some((*ki, *label));
        if per < 2 && samples.len() < 60 {
            let mut shown = hex(args);
            if shown.len() > 24 {
                shown.truncate(24);
                shown.push(format!("... {} in all", args.len()));
            }
            samples.push(json!({"kind": p.kinds[*ki].name, "args": shown, "class": label}));
        }
    }
    let exhaustive = p.kinds.iter().all(|k| k.mode == Mode::Exhaustive);
    let coverage = json!({
        "evaluations": tally.evals,
        "distinct_nontrivial": tally.hashes.len(),
        "rule": p.rule,
        "samples": samples,
        "classes": classes,
        "by_generator": tally.by_work,
        "kinds": p.kinds.iter().map(|k| format!("{} ({:?})", k.name, k.mode)).collect::<Vec<_>>(),
        "dictionary_size": h.dict.len(),
        "new_numbers": h.fresh.len(),
        "exhaustive": exhaustive && bad.is_empty(),
    });
    Report { failure: bad.into_iter().next().map(|b| b.1), coverage }
}

/// All integer literals in the sources under test, and those that are new there.
pub fn mine(dir: &std::path::Path) -> Hints {
    let now = count_literals(dir);
    let mut base: BTreeMap<u64, u32> = BTreeMap::new();
    for l in include_str!("../base_literals.txt").lines() {
        let mut f = l.split_whitespace();
        if let (Some(v), Some(n)) = (f.next().and_then(|v| v.parse().ok()), f.next().and_then(|n| n.parse().ok())) {
            base.insert(v, n);
        }
    }
    let fresh = now.iter().filter(|(v, n)| **n > base.get(v).copied().unwrap_or(0)).map(|(v, _)| *v).collect();
    Hints { dict: now.into_keys().collect(), fresh }
}

pub fn count_literals(dir: &std::path::Path) -> BTreeMap<u64, u32> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let path = e.path();
            if path.is_dir() {
                todo.push(path);
            } else if path.extension().map(|x| x == "rs").unwrap_or(false) {
                if let Ok(text) = std::fs::read_to_string(&path) {
                    literals(&text, &mut out);
                }
            }
        }
    }
    out
}

fn literals(text: &str, out: &mut BTreeMap<u64, u32>) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let start_ok = i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_');
        if b[i] == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
            // b'x'
            *out.entry(b[i + 1] as u64).or_default() += 1;
            i += 3;
            continue;
        }
        if b[i].is_ascii_digit() && start_ok {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let mut tok: String = b[i..j].iter().filter(|c| **c != '_').collect();
            for suf in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"] {
                if let Some(t) = tok.strip_suffix(suf) {
                    tok = t.to_string();
                    break;
                }
            }
            let (digits, radix) = match tok.get(..2) {
                Some("0x") => (&tok[2..], 16),
                Some("0b") => (&tok[2..], 2),
                Some("0o") => (&tok[2..], 8),
                _ => (&tok[..], 10),
            };
            if let Ok(v) = u64::from_str_radix(digits, radix) {
                *out.entry(v).or_default() += 1;
                // the parts of a packed number
                for part in [v & 0xffff_ffff, v >> 32, v & 0xffff, v >> 16 & 0xffff] {
                    if v > 0xffff_ffff && part != 0 {
                        *out.entry(part).or_default() += 1;
                    }
                }
            } else if let Ok(v) = u128::from_str_radix(digits, radix) {
                for part in [v as u64, (v >> 64) as u64] {
                    *out.entry(part).or_default() += 1;
                    *out.entry(part & 0xffff_ffff).or_default() += 1;
                    *out.entry(part >> 32).or_default() += 1;
                }
            } else if radix == 16 && digits.chars().all(|c| c.is_ascii_hexdigit()) {
                for c in digits.as_bytes().rchunks(16) {
                    if let Ok(v) = u64::from_str_radix(std::str::from_utf8(c).unwrap(), 16) {
                        *out.entry(v).or_default() += 1;
                    }
                }
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

/// Words quoted in the sources under test: possible names of threads and environment variables.
pub fn quoted_words(dir: &std::path::Path) -> Vec<String> {
    let mut out = std::collections::BTreeSet::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let path = e.path();
            if path.is_dir() {
                todo.push(path);
            } else if let Ok(text) = std::fs::read_to_string(&path) {
                for w in text.split('"') {
                    let ok = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-';
                    if (2..40).contains(&w.len()) && w.chars().all(ok) && !w.starts_with("LD_") {
                        out.insert(w.to_string());
                    }
                }
            }
        }
    }
    out.into_iter().collect()
}
