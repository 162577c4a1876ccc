//! C23: entries that fail, are cancelled or abandoned never harm the others.

use crate::engine::*;
use crate::exec::*;
use crate::model::*;
use crate::sio::*;
use async_zip::base::write::ZipFileWriter;
use futures_lite::io::AsyncWriteExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::task::Poll;

pub fn property() -> Property {
    Property {
        id: "C23",
        level: "exploration",
        rule: "write histories over a sink with a generated schedule in which entries are completed, dropped after some writes to their stream writer, or have the future that opens, writes or closes them dropped after a generated number of polls, or hit a transient sink error; oracle: finishing the archive succeeds and the in-memory reader lists exactly the completed entries with their names, metadata and contents; non-trivial = an entry was not completed and another was completed after it",
        assumptions: &["the sink keeps the bytes it has accepted, and an error or not-ready answer means that it accepted none", "the archive is judged by its directory: a streaming reader cannot pass the remains of an abandoned entry"],
        parts: || {
            vec![
                part("history", 60_000, 480_000, strategy(3_000, 80), check),
                part("cancel-every-poll", 12_000, 96_000, sweep_strategy(), check_sweep),
                part("big", 7_500, 60_000, strategy(300_000, 5_000), check),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fate {
    Complete,
    /// The stream writer is dropped after this many chunks.
    Drop { chunks: u8, flush: bool },
    /// The future that performs the whole write is dropped after this many polls.
    Cancel { polls: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    items: Vec<(EntrySpec, Fate)>,
    mode: Zip64Mode,
    comment: Option<String>,
    sched: Schedule,
    fault: Option<Fault>,
}

fn strategy(max: u32, polls: u16) -> BoxedStrategy<Case> {
    let fate = prop_oneof![
        4 => Just(Fate::Complete),
        2 => (0u8..6, any::<bool>()).prop_map(|(chunks, flush)| Fate::Drop { chunks, flush }),
        3 => prop_oneof![3 => 0u16..12, 1 => 0u16..polls].prop_map(|polls| Fate::Cancel { polls }),
    ];
    let kind = prop_oneof![Just(FaultKind::TimedOut), Just(FaultKind::Other), Just(FaultKind::WriteZero)];
    (
        proptest::collection::vec((entry_strategy(max), fate), 1..6),
        zip64_strategy(),
        archive_comment_strategy(),
        schedule_strategy(),
        proptest::option::weighted(0.4, (0u64..60, kind).prop_map(|(at, kind)| Fault { at, kind })),
    )
        .prop_map(|(items, mode, comment, sched, fault)| Case { items, mode, comment, sched, fault })
        .boxed()
}

/// Polls `f` the given number of times; None if it is still pending and so was cancelled.
fn polled<F: std::future::Future>(f: F, polls: u16) -> Option<F::Output> {
    let p = Poller::new();
    let mut f = Box::pin(f);
    for _ in 0..polls {
        if let Poll::Ready(v) = p.poll(f.as_mut()) {
            return Some(v);
        }
    }
    None
}

fn run(c: &Case, ctx: &mut Ctx) -> Check {
    let sink = SchedWriter::new(Vec::new(), c.sched.clone()).with_fault(c.fault);
    let mut z = set_mode(ZipFileWriter::new(sink), c.mode);
    let mut done: Vec<&EntrySpec> = vec![];
    let mut lost = false;
    let mut after = false;
    for (e, fate) in &c.items {
        let ok = match fate {
            Fate::Complete => block_on(write_entry(&mut z, e)).is_ok(),
            Fate::Cancel { polls } => {
                ctx.label("cancel");
                matches!(polled(write_entry(&mut z, e), *polls), Some(Ok(())))
            }
            Fate::Drop { chunks, flush } => {
                ctx.label("drop");
                let data = e.data.bytes();
                let pieces = match &e.how {
                    How::Stream { chunks, .. } | How::StreamPre { chunks, .. } => chunked(&data, chunks),
                    _ => vec![&data[..]],
                };
                let _ = block_on(async {
                    let mut s = z.write_entry_stream(builder_for(e)).await?;
                    let mut since = 0;
                    for p in pieces.into_iter().take(*chunks as usize) {
                        s.write_all(p).await?;
                        since += p.len();
                        if flush_now(e.method, &mut since, *flush) {
                            s.flush().await?;
                        }
                    }
                    Ok::<(), async_zip::error::ZipError>(())
                });
                false
            }
        };
        if ok {
            done.push(e);
            after |= lost;
        } else {
            lost = true;
        }
    }
    ctx.nontrivial_if(lost && after);
    ctx.label_if(z.inner_mut().log.borrow().fault_hit, "fault");
    z.inner_mut().fault = None;
    if let Some(t) = &c.comment {
        z.comment(t.clone());
    }
    let bytes = block_on(z.close()).map_err(|e| format!("finishing the archive: {e}"))?.sink;
    let r = check_roundtrip(bytes, &done).map_err(|e| format!("of {} entries {} were completed: {e}", c.items.len(), done.len()))?;
    for (i, e) in done.iter().enumerate() {
        let m = meta(&r.file().entries()[i]);
        if m.date != e.date || m.method != e.method.id() {
            return Err(format!("completed entry {i} has the metadata of another: {m:?}"));
        }
        e.comment.check_read("comment", &m.comment)?;
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    run(c, ctx)
}

fn sweep_strategy() -> BoxedStrategy<(EntrySpec, EntrySpec, EntrySpec, Zip64Mode, u8)> {
    (entry_strategy_with(light_method_strategy(), 300), entry_strategy_with(light_method_strategy(), 1500), entry_strategy_with(light_method_strategy(), 300), zip64_strategy(), 0u8..3).boxed()
}

/// One entry between two others is cancelled after every possible number of polls in turn.
fn check_sweep((a, b, d, mode, kind): &(EntrySpec, EntrySpec, EntrySpec, Zip64Mode, u8), ctx: &mut Ctx) -> Check {
    let sched = match kind {
        0 => vec![Step::Pending, Step::Full],
        1 => vec![Step::Pending, Step::Short(64)],
        _ => vec![Step::PendingLater, Step::Short(5), Step::Short(700)],
    };
    let mut polls = 0;
    loop {
        // Without any wait before its end the write completes, and so do all longer ones.
        let c = Case { items: vec![(a.clone(), Fate::Complete), (b.clone(), Fate::Cancel { polls }), (d.clone(), Fate::Complete)], mode: *mode, comment: None, sched: Schedule(sched.clone()), fault: None };
        run(&c, ctx).map_err(|e| format!("second entry cancelled after {polls} polls: {e}"))?;
        ctx.sub(1);
        let done = {
            let mut z = set_mode(ZipFileWriter::new(SchedWriter::new(Vec::new(), Schedule(sched.clone()))), *mode);
            block_on(write_entry(&mut z, a)).map_err(|e| e.to_string())?;
            polled(write_entry(&mut z, b), polls).is_some()
        };
        if done || polls > 120 {
            return Ok(());
        }
        polls += if polls < 24 { 1 } else { 7 };
    }
}
