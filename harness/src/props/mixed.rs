//! Two kinds that every property gets: its own judges inside a history of other calls, and the same
//! in a fresh process with several threads.

use super::determinism::{action_of, observe, surroundings, ACTIONS};
use crate::engine::{self, judge, quiet, real, trivial, Arg, Dice, Kind, Mode, Verdict};
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use std::cell::RefCell;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);

/// A process judges one property.
pub fn set_current(ordinal: usize) {
    CURRENT.store(ordinal, Ordering::SeqCst);
}

struct Own {
    id: &'static str,
    kinds: Vec<Kind>,
}

fn own() -> &'static Own {
    static OWN: OnceLock<Own> = OnceLock::new();
    OWN.get_or_init(|| {
        let (id, make) = super::ALL[CURRENT.load(Ordering::SeqCst)];
        let kinds = make().kinds.into_iter().filter(|k| k.open() && k.cases >= 8_000 && !matches!(k.mode, Mode::Thorough | Mode::Release)).collect();
        Own { id, kinds }
    })
}

thread_local! {
    static STRATEGIES: RefCell<Vec<BoxedStrategy<Vec<u64>>>> = const { RefCell::new(vec![]) };
}

fn fresh_case(which: usize, seed: u64) -> Vec<u64> {
    STRATEGIES.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_empty() {
            *s = own().kinds.iter().map(|k| engine::kind_strategy(k, &[])).collect();
        }
        let mut r = engine::runner(seed, "mixed", which, 1, 0);
        s[which].new_tree(&mut r).unwrap().current()
    })
}

/// A case like the last one, one argument changed.
fn changed(kind: &Kind, which: usize, last: &[u64], d: &mut Dice) -> Vec<u64> {
    let mut v = last.to_vec();
    if v.is_empty() {
        return v;
    }
    let i = d.below(v.len());
    v[i] = match d.below(6) {
        0 => v[i] ^ 1 << d.below(64),
        1 => v[i].wrapping_add(1),
        2 => v[i].wrapping_sub(1),
        3 => v[d.below(v.len())],
        _ => {
            let other = fresh_case(which, d.roll());
            *other.get(i).unwrap_or(&0)
        }
    };
    kind.fit(&v)
}

/// Runs steps in order; each is another call of the library or a case of this property.
fn walk(steps: &[u64]) -> Result<(u64, u64), String> {
    let kinds = &own().kinds;
    let mut last: Option<(usize, Vec<u64>)> = None;
    let (mut cases, mut others) = (0, 0);
    for (n, s) in steps.iter().enumerate() {
        let mut d = Dice(s >> 3);
        let (which, args) = match (s & 7, &last) {
            (6 | 7, _) => {
                let (action, p) = action_of(d.roll() >> 1);
                // what it answers is another property's business
                let _ = quiet(|| observe(action, p));
                others += 1;
                continue;
            }
            (2..=4, Some((w, l))) => (*w, changed(&kinds[*w], *w, l, &mut d)),
            (5, Some((w, l))) => (*w, l.clone()),
            _ => {
                let w = d.below(kinds.len());
                (w, fresh_case(w, d.roll()))
            }
        };
        let kind = &kinds[which];
        if let Err(m) = judge(kind, &args) {
            return Err(format!("step {n}, {} {:?}: {m}", kind.name, engine::hex(&args)));
        }
        cases += 1;
        last = Some((which, args));
    }
    Ok((cases, others))
}

fn mixed(a: &[u64]) -> Verdict {
    match walk(a)? {
        (0, _) => trivial("no case of this property"),
        (_, 0) => real("cases in a row"),
        _ => real("cases among other calls"),
    }
}

/// The child: each thread walks its own share.
pub fn child(threads: usize, steps: &[u64]) {
    let barrier = std::sync::Barrier::new(threads);
    let bad = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (barrier, bad) = (&barrier, &bad);
            let name = std::env::var("VH_THREAD").unwrap_or_else(|_| format!("{t}"));
            let mine: Vec<u64> = steps.iter().skip(t).step_by(threads).copied().collect();
            let body = move || {
                barrier.wait();
                if let Err(m) = walk(&mine) {
                    bad.lock().unwrap().push(format!("thread {t}: {m}"));
                }
            };
            std::thread::Builder::new().name(name).spawn_scoped(s, body).unwrap();
        }
    });
    match bad.into_inner().unwrap().first() {
        None => println!("held"),
        Some(m) => println!("failed {}", m.lines().collect::<Vec<_>>().join(" | ")),
    }
}

/// [threads, surroundings, step...] in a fresh process
fn process(a: &[u64]) -> Verdict {
    let threads = (a[0] % 8 + 1) as usize;
    let steps = &a[2..];
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.args(["within", own().id]).arg(threads.to_string()).stdout(Stdio::piped()).stderr(Stdio::null()).stdin(Stdio::null());
    c.args(steps.iter().map(|s| s.to_string()));
    if let Some((name, value)) = surroundings(a[1]) {
        c.env("VH_THREAD", name).env(name, value);
    }
    let mut kid = match c.spawn() {
        Ok(k) => k,
        Err(e) => {
            eprintln!("error: machinery: cannot start a process: {e}");
            std::process::exit(2);
        }
    };
    let begin = Instant::now();
    let mut wait = Duration::from_millis(2);
    loop {
        match kid.try_wait() {
            Ok(Some(_)) => break,
            _ if begin.elapsed() > Duration::from_secs(240) => {
                let _ = kid.kill();
                let _ = kid.wait();
                return Err(format!("a fresh process with {threads} threads did not finish"));
            }
            _ => {
                std::thread::sleep(wait);
                wait = (wait * 2).min(Duration::from_millis(50));
            }
        }
    }
    let out = kid.wait_with_output().map_err(|e| e.to_string())?;
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if text != "held" {
        let what = text.strip_prefix("failed ").unwrap_or("the process died");
        return Err(format!("in a fresh process with {threads} threads (exit {:?}): {what}", out.status.code()));
    }
    match threads {
        1 => real("fresh process, one thread"),
        _ => real("fresh process, several threads"),
    }
}

fn steps(max: usize) -> BoxedStrategy<Vec<u64>> {
    let step = any::<u64>();
    // alternating with one other call is the shape of many state-dependent mistakes
    prop_oneof![
        5 => proptest::collection::vec(step, 2..=max),
        1 => (proptest::collection::vec(any::<u64>().prop_map(|s| s & !7), 1..=3), any::<u64>(), 1..=max / 3).prop_map(|(c, o, n)| {
            let mut v = vec![];
            for i in 0..n {
                v.push(o | 6);
                v.push(if i < c.len() { c[i] } else { c[i % c.len()] | 5 });
            }
            v
        }),
    ]
    .boxed()
}

fn mixed_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    steps(16)
}

fn process_strategy(_d: &[u64]) -> BoxedStrategy<Vec<u64>> {
    (0..8u64, prop_oneof![1 => Just(0u64), 1 => 0..4096u64], steps(24))
        .prop_map(|(t, e, mut s)| {
            s.splice(0..0, [t, e]);
            s
        })
        .boxed()
}

/// Their own histories and processes: C25; compiles a program per case: C22.
pub fn add(id: &str, kinds: &mut Vec<Kind>) {
    if id == "C25" || id == "C22" {
        return;
    }
    debug_assert!(ACTIONS > 0);
    kinds.push(Kind::history("among-other-calls", mixed_strategy, mixed).list(vec![], Arg::Bits(64), 24).cases(2_400).thorough(40).max_shrink(400).hang_s(240).no_fuzz());
    kinds.push(Kind::history("fresh-process", process_strategy, process).list(vec![Arg::Below(8), Arg::Below(4096)], Arg::Bits(64), 24).cases(160).thorough(20).max_shrink(60).hang_s(600).no_fuzz());
}
