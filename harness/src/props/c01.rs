//! C01: every archive written reads back with the same entries, order and bytes.

use crate::data::*;
use crate::engine::*;
use crate::model::*;
use proptest::prelude::*;

pub fn property() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        rule: "random write histories (entries with name/metadata/method/level/write mode/chunking/flush/payload, ZIP64 mode, comment) written through the public API and read back with the in-memory reader; non-trivial = at least two entries, one of them non-empty and compressed or streamed (history), or payload above 64 KiB (large), or more than 100 entries (many)",
        assumptions: &["ideal in-memory I/O (schedules and faults are C10/C11)", "LZMA streams are not flushed mid-entry (encoder limitation)", "Deflate64 cannot be written (documented panic) and is excluded"],
        parts: || {
            vec![
                part("history", 48_000, 384_000, archive_strategy(0..7, 80_000), check_history),
                part("large", 1_280, 10_240, large_strategy(), check_large),
                part("many", 320, 2_560, many_strategy(), check_many),
            ]
        },
    }
}

pub fn check_history(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    classify(a, ctx);
    ctx.nontrivial_if(is_mixed(a));
    let bytes = write_mem(a)?;
    check_roundtrip(bytes, &a.entries.iter().collect::<Vec<_>>())?;
    Ok(())
}

fn large_strategy() -> BoxedStrategy<ArchiveSpec> {
    let big = (entry_strategy(100), 60_000u32..6_000_000, any::<u64>(), 0u8..3).prop_map(|(mut e, len, seed, kind)| {
        // Slow encoders get smaller payloads.
        let len = match e.method {
            Method::Xz | Method::Lzma | Method::Bz => len / 8 + 60_000,
            _ => len,
        };
        e.data = match kind {
            0 => DataSpec::Zeros(len),
            1 => DataSpec::Rand { seed, len },
            _ => DataSpec::Text { seed, len },
        };
        e
    });
    archive_strategy_with(big.boxed(), 1..3)
}

fn check_large(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    classify(a, ctx);
    ctx.nontrivial();
    let bytes = write_mem(a)?;
    check_roundtrip(bytes, &a.entries.iter().collect::<Vec<_>>())?;
    Ok(())
}

pub fn many_strategy() -> BoxedStrategy<ArchiveSpec> {
    // A few templates repeated many times with distinct payloads keep the case compact.
    let tmpl = entry_strategy_with(light_method_strategy(), 300);
    (archive_strategy_with(tmpl, 1..5), 100usize..1500).prop_map(|(a, n)| ManySpec { a, n }.expand()).boxed()
}

struct ManySpec {
    a: ArchiveSpec,
    n: usize,
}

impl ManySpec {
    fn expand(self) -> ArchiveSpec {
        let k = self.a.entries.len();
        let entries = (0..self.n)
            .map(|i| {
                let mut e = self.a.entries[i % k].clone();
                e.name = NameSpec::Utf8(format!("{i}"));
                e.data = DataSpec::Rand { seed: i as u64, len: (e.data.len() as u32).min(300) };
                e
            })
            .collect();
        ArchiveSpec { entries, ..self.a }
    }
}

fn check_many(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(a.entries.len() > 100);
    ctx.label("many");
    let bytes = write_mem(a)?;
    check_roundtrip(bytes, &a.entries.iter().collect::<Vec<_>>())?;
    Ok(())
}
