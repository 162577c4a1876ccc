//! Library half of the harness, shared by the `azv` binary and the coverage-guided targets in /verif/fuzz.
#![allow(dead_code)]
pub mod alloc;
pub mod codec;
pub mod data;
pub mod engine;
pub mod exec;
pub mod foreign;
pub mod model;
pub mod props;
pub mod readers;
pub mod refzip;
pub mod sio;
pub mod sparse;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

/// Entry point of the coverage-guided target for C08; a violation is a panic.
pub fn fuzz_c08(bytes: &[u8]) {
    let mut ctx = engine::Ctx::default();
    if let Err(e) = props::c08::exercise(bytes, false, &mut ctx) {
        eprintln!("C08: {e}");
        std::process::abort();
    }
}

/// Writes generated archives as a starting corpus.
pub fn write_corpus(dir: &std::path::Path, n: u64, seed: u64) {
    use proptest::strategy::{Strategy, ValueTree};
    std::fs::create_dir_all(dir).expect("corpus directory");
    for i in 0..n {
        let mut r = engine::runner(engine::case_seed(seed, "corpus", "archives", i));
        let bytes = if i % 3 == 0 {
            model::write_mem(&model::archive_strategy(0..4, 120).new_tree(&mut r).unwrap().current()).unwrap_or_default()
        } else {
            foreign::farchive_strategy(0..4, 120, i % 3 == 1).new_tree(&mut r).unwrap().current().build().bytes
        };
        if bytes.len() <= 4096 {
            std::fs::write(dir.join(format!("seed-{i:05}")), bytes).expect("corpus file");
        }
    }
}
