//! Coverage-guided search over the kinds of one property (VH_FUZZ_PROP), judged by the same judges.
//! A failing case is written to VH_FUZZ_OUT and ends the process with status 3.
#![no_main]

use libfuzzer_sys::fuzz_target;
use std::sync::OnceLock;
use vh::engine::{self, Kind, Property};

fn target() -> &'static (Property, Vec<usize>) {
    static T: OnceLock<(Property, Vec<usize>)> = OnceLock::new();
    T.get_or_init(|| {
        // after libfuzzer-sys has installed its own, which would abort on the panics judged here
        engine::install_panic_hook();
        let id = std::env::var("VH_FUZZ_PROP").expect("VH_FUZZ_PROP");
        let p = vh::props::get(&id).expect("property");
        let kinds: Vec<usize> = (0..p.kinds.len()).filter(|i| p.kinds[*i].fuzzable()).collect();
        (p, kinds)
    })
}

fuzz_target!(|data: &[u8]| {
    let (p, kinds) = target();
    let (kind, args) = p.case_from_bytes(kinds, data);
    let kind: &Kind = kind;
    if let Err(m) = engine::judge(kind, &args) {
        let out = std::env::var("VH_FUZZ_OUT").expect("VH_FUZZ_OUT");
        let _ = std::fs::write(out, engine::failure_text(kind.name, &args, &m));
        std::process::exit(3);
    }
});
