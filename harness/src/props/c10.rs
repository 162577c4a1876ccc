//! C10: I/O chunking and readiness never change the result.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::props::c06::{streamable, Src};
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{seek, stream};
use async_zip::base::write::ZipFileWriter;
use futures_lite::io::{AsyncWriteExt, Cursor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C10",
        level: "exploration",
        rule: "write histories and archives run with ideal I/O and again with a source or sink following a random schedule of full, short and not-ready answers (woken at once or later), and with every schedule of up to three steps; results compared, task wake-ups tracked (lost wake-up, busy loop), close calls on the sink counted; non-trivial = the schedule actually produced short transfers or not-ready polls and the archive has data",
        assumptions: &["the sink and source keep the Async traits' contract", "decoded results, not bytes, are compared for streamed compressed entries"],
        parts: || {
            vec![
                part("write", 42_000, 336_000, (archive_strategy(0..5, 6_000), schedule_strategy(), any::<bool>()).prop_map(|(a, sched, raw)| WCase { a, sched, raw }), check_write),
                part("write-plain", 42_000, 336_000, (plain_archive(), schedule_strategy(), any::<bool>()).prop_map(|(a, sched, raw)| WCase { a, sched, raw }), check_write),
                part("read", 42_000, 336_000, read_strategy(6_000), check_read),
                part("large", 900, 7_200, (archive_strategy(1..3, 300_000), big_schedule(), any::<bool>()).prop_map(|(a, sched, raw)| WCase { a, sched, raw }), check_write),
                part("read-large", 900, 7_200, read_large_strategy(), check_read),
                part("every-schedule", 480, 3_840, archive_strategy_with(entry_strategy_with(light_method_strategy(), 40), 1..3).prop_map(streamable), check_every),
            ]
        },
    }
}

/// Only stored or whole entries: the bytes must be identical.
fn plain_archive() -> BoxedStrategy<ArchiveSpec> {
    archive_strategy(0..5, 3_000)
        .prop_map(|mut a| {
            for e in &mut a.entries {
                if e.how.is_stream() && e.method != Method::Stored {
                    if e.date.0 & 1 == 0 {
                        e.how = How::Whole;
                    } else {
                        e.method = Method::Stored;
                    }
                }
            }
            a
        })
        .boxed()
}

fn big_schedule() -> BoxedStrategy<Schedule> {
    proptest::collection::vec(prop_oneof![(200u32..70_000).prop_map(Step::Short), Just(Step::Full), Just(Step::Pending), Just(Step::PendingLater)], 1..6).prop_map(Schedule).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WCase {
    a: ArchiveSpec,
    sched: Schedule,
    /// Streamed data is handed over with plain `write` calls instead of `write_all`.
    raw: bool,
}

/// `write_archive`, but with single `write` calls for streamed entries.
async fn write_raw<W: futures_lite::io::AsyncWrite + Unpin>(w: ZipFileWriter<W>, a: &ArchiveSpec) -> Result<W, String> {
    let mut w = set_mode(w, a.zip64);
    for e in &a.entries {
        match &e.how {
            How::Stream { chunks, .. } => {
                let data = e.data.bytes();
                let mut b = builder_for(e);
                if e.stale {
                    b = b.crc32(0xdead_beefu32).compressed_size(12345u64).uncompressed_size(77u64);
                }
                let mut s = w.write_entry_stream(b).await.map_err(|e| e.to_string())?;
                for c in chunked(&data, chunks) {
                    let mut rest = c;
                    while !rest.is_empty() {
                        let n = s.write(rest).await.map_err(|e| e.to_string())?;
                        if n == 0 || n > rest.len() {
                            return Err(format!("write of {} bytes returns {n}", rest.len()));
                        }
                        rest = &rest[n..];
                    }
                }
                s.close().await.map_err(|e| e.to_string())?;
            }
            _ => write_entry(&mut w, e).await.map_err(|e| e.to_string())?,
        }
    }
    if let Some(c) = &a.comment {
        w.comment(c.clone());
    }
    w.close().await.map_err(|e| e.to_string())
}

fn check_write(c: &WCase, ctx: &mut Ctx) -> Check {
    classify(&c.a, ctx);
    run_write(&c.a, &c.sched, c.raw, ctx)
}

fn run_write(a: &ArchiveSpec, sched: &Schedule, raw: bool, ctx: &mut Ctx) -> Check {
    let ideal = write_mem(a)?;
    let sw = SchedWriter::new(Vec::new(), sched.clone());
    let log = sw.log.clone();
    let out = if raw { block_on(write_raw(ZipFileWriter::new(sw), a))? } else { block_on(write_archive(ZipFileWriter::new(sw), a)).map_err(|e| format!("writing with the schedule fails: {e}"))? };
    let bytes = out.sink;
    let l = log.borrow();
    ctx.nontrivial_if((l.shorts > 0 || l.pendings > 0) && a.entries.iter().any(|e| e.data.len() > 0));
    ctx.label_if(l.pendings > 0, "pending");
    ctx.label_if(l.shorts > 0, "short");
    if l.closed != 0 {
        return Err(format!("the underlying sink was closed {} times", l.closed));
    }
    let plain = a.entries.iter().all(|e| e.method == Method::Stored || !e.how.is_stream());
    if plain && bytes != ideal {
        return Err(format!("archive of stored or whole entries differs under the schedule: {}", diff(&ideal, &bytes)));
    }
    let x = open_mem(ideal.clone()).map_err(|e| format!("ideal archive: {e}"))?;
    let y = check_roundtrip(bytes.clone(), &a.entries.iter().collect::<Vec<_>>()).map_err(|e| format!("archive written under the schedule: {e}"))?;
    let strip = |mut l: Listing| {
        for e in &mut l.entries {
            e.offset = 0;
            e.meta.csize = 0;
            e.meta.extra.clear();
        }
        l
    };
    let (lx, ly) = (strip(listing(x.file())), strip(listing(y.file())));
    if lx != ly {
        return Err(format!("reported metadata differs under the schedule:\n {lx:?}\n {ly:?}"));
    }
    crate::props::c03::parse_written(a, &Rc::new(bytes)).map_err(|e| format!("archive written under the schedule: {e}"))?;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    src: Src,
    sched: Schedule,
    cap: u16,
    reads: Vec<u16>,
}

fn read_strategy(max: u32) -> BoxedStrategy<RCase> {
    (
        prop_oneof![archive_strategy(0..5, max).prop_map(|a| Src::Own(streamable(a))), farchive_strategy(0..5, max, true).prop_map(Src::Foreign)],
        schedule_strategy(),
        prop_oneof![1u16..10, 1u16..9000],
        proptest::collection::vec(prop_oneof![1u16..8, 1u16..9000], 1..4),
    )
        .prop_map(|(src, sched, cap, reads)| RCase { src, sched, cap, reads })
        .boxed()
}

fn read_large_strategy() -> BoxedStrategy<RCase> {
    (
        prop_oneof![archive_strategy(1..3, 300_000).prop_map(|a| Src::Own(streamable(a))), farchive_strategy(1..3, 300_000, true).prop_map(Src::Foreign)],
        big_schedule(),
        300u16..9000,
        proptest::collection::vec(300u16..60_000, 1..4),
    )
        .prop_map(|(src, sched, cap, reads)| RCase { src, sched, cap, reads })
        .boxed()
}

fn check_read(c: &RCase, ctx: &mut Ctx) -> Check {
    let bytes = match &c.src {
        Src::Own(a) => write_mem(a)?,
        Src::Foreign(f) => f.build().bytes,
    };
    run_read(&bytes, &c.sched, c.cap as usize, &c.reads, ctx)
}

fn run_read(bytes: &[u8], sched: &Schedule, cap: usize, reads: &[u16], ctx: &mut Ctx) -> Check {
    let rc = Rc::new(bytes.to_vec());
    let src = || SchedReader::new(rc.clone(), sched.clone()).with_cap(cap);
    let ideal = block_on(snap_seek(Cursor::new(bytes.to_vec())));
    let s = src();
    let log = s.log.clone();
    let got = block_on(snap_seek(s));
    same_result("ideal/scheduled seek reader", &ideal, &got)?;
    let data = ideal.as_ref().map(|s| s.with.iter().any(|c| !c.data.is_empty())).unwrap_or(false);
    {
        let l = log.borrow();
        ctx.nontrivial_if((l.shorts > 0 || l.pendings > 0) && data);
        ctx.label_if(l.pendings > 0, "pending");
        ctx.label_if(l.shorts > 0, "short");
    }
    let si = block_on(snap_stream(Cursor::new(bytes.to_vec()), true));
    let ss = block_on(snap_stream(src(), true));
    same_stream("ideal/scheduled streaming reader", &si, &ss)?;
    // Reads of chosen sizes under the schedule.
    let Ok(snap) = ideal else { return Ok(()) };
    block_on(async {
        let mut z = seek::ZipFileReader::new(src()).await.map_err(|e| e.to_string())?;
        for i in 0..snap.with.len() {
            let mut er = z.reader_without_entry(i).await.map_err(|e| format!("entry {i}: {e}"))?;
            let mut got = vec![];
            let mut k = 0;
            loop {
                let b = read_some(&mut er, reads[k % reads.len()] as usize).await.map_err(|e| format!("entry {i}: {e}"))?;
                k += 1;
                if b.is_empty() {
                    break;
                }
                got.extend(b);
            }
            if got != snap.with[i].data {
                return Err(format!("entry {i} under the schedule: {}", diff(&got, &snap.with[i].data)));
            }
            if er.compute_hash() != crc32(&got) {
                return Err(format!("entry {i}: running hash differs under the schedule"));
            }
        }
        // Skipping under the schedule.
        let mut z = stream::ZipFileReader::new(src());
        let mut n = 0;
        let end = loop {
            match z.next_without_entry().await {
                Ok(None) => break None,
                Err(e) => break Some(errkey(&e)),
                Ok(Some(rd)) => match rd.skip().await {
                    Ok(x) => {
                        z = x;
                        n += 1;
                    }
                    Err(e) => break Some(errkey(&e)),
                },
            }
        };
        if n != si.0.len() || end != si.1.as_ref().err().map(errkey) {
            return Err(format!("skipping under the schedule visits {n} entries and ends with {end:?}; reading visits {} and ends with {:?}", si.0.len(), si.1.as_ref().err().map(errkey)));
        }
        Ok(())
    })
}

fn check_every(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    let bytes = write_mem(a)?;
    let steps = [Step::Full, Step::Short(1), Step::Pending, Step::PendingLater, Step::Short(3)];
    for n in 1..=3usize {
        for k in 0..steps.len().pow(n as u32) {
            let mut x = k;
            let mut v = vec![];
            for _ in 0..n {
                v.push(steps[x % steps.len()]);
                x /= steps.len();
            }
            let s = Schedule(v);
            ctx.sub(2);
            run_write(a, &s, k % 2 == 0, ctx).map_err(|e| format!("schedule {s:?}: {e}"))?;
            run_read(&bytes, &s, 1 + k % 40, &[1 + (k % 7) as u16], ctx).map_err(|e| format!("schedule {s:?}: {e}"))?;
        }
    }
    ctx.labels.sort();
    ctx.labels.dedup();
    Ok(())
}
