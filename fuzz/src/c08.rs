#![no_main]
use libfuzzer_sys::fuzz_target;
use std::sync::Once;

static HOOK: Once = Once::new();

fuzz_target!(|data: &[u8]| {
    // Panics of the code under test are caught and judged by the oracle.
    HOOK.call_once(azv::engine::install_panic_hook);
    azv::fuzz_c08(data);
});
