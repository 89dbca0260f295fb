//! Coverage-guided search of a property's cases: libFuzzer's bytes are the choice sequence (four bytes a choice, little-endian).
//! REZIP_PROP names the property. With REZIP_RAW they are the input itself.
#![no_main]

use libfuzzer_sys::fuzz_target;
use rezip_verif::engine::{self, Fail, Obs, Prop, Src};
use std::cell::OnceCell;

struct State {
    p: Box<dyn Prop>,
    root: std::path::PathBuf,
    raw: bool,
}

thread_local! {
    static STATE: OnceCell<State> = const { OnceCell::new() };
}

fn state() -> State {
    // libFuzzer's own hook aborts; a panic inside a case is judged by the property
    engine::install_panic_hook();
    let id = std::env::var("REZIP_PROP").expect("REZIP_PROP");
    let p = rezip_verif::props::by_id(&id).expect("property");
    State { p, root: std::env::var("VERIF_ROOT").expect("VERIF_ROOT").into(), raw: std::env::var_os("REZIP_RAW").is_some() }
}

fuzz_target!(|data: &[u8]| {
    STATE.with(|s| {
        let s = s.get_or_init(state);
        let mut obs = Obs::default();
        let r = if s.raw {
            engine::guarded_case(|| s.p.run_raw(data, &mut obs).unwrap_or(Ok(())))
        } else {
            let choices: Vec<u32> = data.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
            engine::guarded_case(|| s.p.run(&mut Src::new(&choices), &mut obs))
        };
        match r {
            Ok(()) => {}
            Err(Fail::Known(sig, _)) if engine::known_listed(&s.root, s.p.id(), sig) => {}
            Err(e) => {
                eprintln!("{e:?}");
                std::process::abort();
            }
        }
    });
});
