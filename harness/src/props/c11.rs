//! C11: an I/O failure is always reported, never turned into success.

use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::props::c06::{streamable, Src};
use crate::sio::*;
use async_zip::error::ZipError;
use async_zip::base::read::{seek, stream};
use async_zip::base::write::ZipFileWriter;
use futures_lite::io::{AsyncReadExt, AsyncWriteExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::fmt::Display;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C11",
        level: "fault_enumeration",
        rule: "random write histories and archives; the run is repeated with a failure injected at every single operation on the sink or source (write, flush, seek, read, fill; histories up to 400 operations, above that at 400 of them), with all failure kinds; the API call during which the failure was injected must return an error carrying it; non-trivial = at least one entry with data",
        assumptions: &["the injected error carries a marker text that must appear in the returned error; a sink that accepts zero bytes must give any error", "the failure is transient: a swallowed error would let the run succeed"],
        parts: || {
            vec![
                part("write", 10000, 100000, write_strategy(1_500), check_write),
                part("write-large", 200, 2500, write_strategy(100_000), check_write),
                part("seek", 10000, 100000, read_strategy(1_500), check_seek),
                part("stream", 10000, 100000, read_strategy(1_500), check_stream),
                part("read-large", 300, 4000, read_strategy(100_000), check_both),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    src: Src,
    sched: Schedule,
    cap: u16,
    kind: FaultKind,
    mode: u8,
}

fn kind(write: bool) -> BoxedStrategy<FaultKind> {
    let mut v = FaultKind::ERRORS.to_vec();
    // The kinds readers and writers are most tempted to treat specially.
    v.extend([FaultKind::UnexpectedEof, FaultKind::UnexpectedEof, FaultKind::UnexpectedEof, FaultKind::BrokenPipe, FaultKind::ConnectionReset, FaultKind::InvalidInput]);
    if write {
        v.extend([FaultKind::WriteZero; 5]);
    }
    proptest::sample::select(v).boxed()
}

fn sched() -> BoxedStrategy<Schedule> {
    prop_oneof![2 => Just(Schedule::full()), 1 => proptest::collection::vec(prop_oneof![(20u32..3000).prop_map(Step::Short), Just(Step::Full), Just(Step::Pending), Just(Step::PendingLater)], 1..5).prop_map(Schedule)].boxed()
}

fn write_strategy(max: u32) -> BoxedStrategy<Case> {
    (archive_strategy(0..4, max), sched(), 1u16..3000, kind(true), any::<u8>()).prop_map(|(a, sched, cap, kind, mode)| Case { src: Src::Own(a), sched, cap, kind, mode }).boxed()
}

fn read_strategy(max: u32) -> BoxedStrategy<Case> {
    (
        prop_oneof![archive_strategy(0..4, max).prop_map(|a| Src::Own(streamable(a))), farchive_strategy(0..4, max, true).prop_map(Src::Foreign)],
        sched(),
        prop_oneof![16u16..300, 16u16..5000],
        kind(false),
        any::<u8>(),
    )
        .prop_map(|(src, sched, cap, kind, mode)| Case { src, sched, cap, kind, mode })
        .boxed()
}

/// Outcome of a run: Ok(true) = the failure was reported properly, Ok(false) = the run ended without meeting it.
struct Watch {
    log: SharedLog,
    kind: FaultKind,
    at: u64,
}

impl Watch {
    /// Judges one API call. Ok(Some(v)) = go on, Ok(None) = failure properly reported.
    fn call<T, E: Display + std::fmt::Debug>(&self, what: impl Display, r: Result<T, E>) -> Result<Option<T>, String> {
        let (hit, op) = {
            let l = self.log.borrow();
            (l.fault_hit, l.fault_op)
        };
        match r {
            Ok(_) if hit => Err(format!("operation {} ({op}) failed with {:?}, but {what} succeeds", self.at, self.kind)),
            Ok(v) => Ok(Some(v)),
            Err(e) if !hit => Err(format!("{what} fails without an injected failure: {e:?}")),
            Err(e) => {
                let zero = self.kind == FaultKind::WriteZero && op == "write";
                let text = format!("{e} {e:?}");
                if !zero && !text.contains(MARK) {
                    return Err(format!("operation {} ({op}) failed with {:?}; {what} reports something else: {e:?}", self.at, self.kind));
                }
                Ok(None)
            }
        }
    }
}

macro_rules! step {
    ($w:expr, $what:expr, $r:expr) => {
        match $w.call($what, $r)? {
            Some(v) => v,
            None => return Ok(true),
        }
    };
}

async fn write_run(a: &ArchiveSpec, c: &Case, fault: Option<Fault>, log: SharedLog) -> Result<bool, String> {
    let mut sw = SchedWriter::new(Vec::new(), c.sched.clone()).with_fault(fault);
    sw.log = log.clone();
    let w = Watch { log, kind: c.kind, at: fault.map(|f| f.at).unwrap_or(0) };
    let mut z = set_mode(ZipFileWriter::new(sw), a.zip64);
    for (i, e) in a.entries.iter().enumerate() {
        let data = e.data.bytes();
        match &e.how {
            How::Stream { chunks, flush, quirk } => {
                let mut s = step!(w, format!("opening entry {i}"), z.write_entry_stream(builder_for(e)).await);
                let mut since = 0;
                for (k, ch) in chunked(&data, chunks).into_iter().enumerate() {
                    step!(w, format!("writing to entry {i}"), put(&mut s, ch, *quirk).await);
                    since += ch.len();
                    if flush_now(e.method, &mut since, !flush.is_empty() && flush[k % flush.len()] && k < 10) {
                        step!(w, format!("flushing entry {i}"), s.flush().await);
                    }
                }
                if quirk & 2 != 0 {
                    step!(w, format!("closing the write side of entry {i}"), AsyncWriteExt::close(&mut s).await);
                }
                step!(w, format!("closing entry {i}"), s.close().await);
            }
            _ => {
                step!(w, format!("writing entry {i}"), write_entry(&mut z, e).await);
            }
        }
    }
    if let Some(t) = &a.comment {
        z.comment(t.clone());
    }
    step!(w, "closing the archive", z.close().await);
    Ok(false)
}

async fn seek_run(bytes: &Rc<Vec<u8>>, c: &Case, fault: Option<Fault>, log: SharedLog) -> Result<bool, String> {
    let mut src = SchedReader::new(bytes.clone(), c.sched.clone()).with_cap(c.cap as usize).with_fault(fault);
    src.log = log.clone();
    let w = Watch { log, kind: c.kind, at: fault.map(|f| f.at).unwrap_or(0) };
    let mut z = step!(w, "opening the archive", seek::ZipFileReader::new(src).await);
    let n = z.file().entries().len();
    for i in 0..n {
        if (i + c.mode as usize) % 2 == 0 {
            let mut er = step!(w, format!("opening entry {i}"), z.reader_with_entry(i).await);
            step!(w, format!("checked read of entry {i}"), er.read_to_end_checked(&mut vec![]).await);
        } else {
            let mut er = step!(w, format!("opening entry {i}"), z.reader_without_entry(i).await);
            let mut b = vec![0; 1 + c.mode as usize * 8];
            while step!(w, format!("reading entry {i}"), er.read(&mut b).await) > 0 {}
        }
    }
    Ok(false)
}

async fn stream_run(bytes: &Rc<Vec<u8>>, c: &Case, fault: Option<Fault>, log: SharedLog) -> Result<bool, String> {
    let mut src = SchedReader::new(bytes.clone(), c.sched.clone()).with_cap(c.cap as usize).with_fault(fault);
    src.log = log.clone();
    let w = Watch { log, kind: c.kind, at: fault.map(|f| f.at).unwrap_or(0) };
    let mut z = stream::ZipFileReader::new(src);
    let mut i = 0usize;
    loop {
        match (i + c.mode as usize) % 4 {
            0 => {
                let Some(rd) = step!(w, format!("next entry ({i})"), z.next_without_entry().await) else { break };
                z = step!(w, format!("skipping entry {i}"), rd.skip().await);
            }
            1 => {
                let Some(mut rd) = step!(w, format!("next entry ({i})"), z.next_with_entry().await) else { break };
                step!(w, format!("reading entry {i}"), rd.reader_mut().read_to_end(&mut vec![]).await);
                z = step!(w, format!("finishing entry {i}"), rd.done().await);
            }
            2 => {
                // Declared done too early: refused, unless the source fails first.
                let Some(mut rd) = step!(w, format!("next entry ({i})"), z.next_with_entry().await) else { break };
                let mut b = vec![0; c.mode as usize];
                step!(w, format!("reading entry {i}"), rd.reader_mut().read(&mut b).await);
                match rd.done().await {
                    Err(ZipError::EOFNotReached) if !w.log.borrow().fault_hit => return Ok(false),
                    r => z = step!(w, format!("finishing entry {i}"), r),
                }
            }
            _ => {
                let Some(mut rd) = step!(w, format!("next entry ({i})"), z.next_without_entry().await) else { break };
                let mut b = vec![0; 1 + c.mode as usize];
                step!(w, format!("reading entry {i}"), rd.reader_mut().read(&mut b).await);
                z = step!(w, format!("skipping entry {i}"), rd.skip().await);
            }
        }
        i += 1;
    }
    Ok(false)
}

fn enumerate(c: &Case, ctx: &mut Ctx, run: &dyn Fn(Option<Fault>, SharedLog) -> Result<bool, String>) -> Check {
    let log = SharedLog::default();
    if run(None, log.clone())? {
        return Err("harness: failure reported without injection".into());
    }
    let n = log.borrow().ops;
    ctx.label(if n <= 400 { "every-operation" } else { "sampled-operations" });
    let stride = n.div_ceil(400).max(1);
    let mut at = if stride > 1 { c.mode as u64 % stride } else { 0 };
    while at < n {
        let log = SharedLog::default();
        ctx.sub(1);
        let reported = run(Some(Fault { at, kind: c.kind }), log.clone())?;
        if !reported && log.borrow().fault_hit {
            return Err(format!("operation {at} failed but nothing was reported"));
        }
        if !log.borrow().fault_hit {
            return Err(format!("harness: operation {at} of {n} was not reached"));
        }
        at += stride;
    }
    Ok(())
}

fn heavy(s: &Src) -> bool {
    match s {
        Src::Own(a) => a.entries.iter().any(|e| matches!(e.method, Method::Xz | Method::Lzma | Method::Bz)),
        Src::Foreign(f) => f.entries.iter().any(|e| matches!(e.method, 12 | 14 | 95)),
    }
}

fn note(c: &Case, ctx: &mut Ctx) {
    ctx.label(format!("{:?}", c.kind));
    ctx.label_if(heavy(&c.src), "bz/xz/lzma");
    ctx.nontrivial_if(match &c.src {
        Src::Own(a) => a.entries.iter().any(|e| e.data.len() > 0),
        Src::Foreign(f) => f.entries.iter().any(|e| e.data.len() > 0),
    });
}

fn check_write(c: &Case, ctx: &mut Ctx) -> Check {
    note(c, ctx);
    let Src::Own(a) = &c.src else { unreachable!() };
    enumerate(c, ctx, &|f, log| block_on(write_run(a, c, f, log)))
}

fn bytes_of(s: &Src) -> Result<Rc<Vec<u8>>, String> {
    Ok(Rc::new(match s {
        Src::Own(a) => write_mem(a)?,
        Src::Foreign(f) => f.build().bytes,
    }))
}

fn check_seek(c: &Case, ctx: &mut Ctx) -> Check {
    note(c, ctx);
    let b = bytes_of(&c.src)?;
    enumerate(c, ctx, &|f, log| block_on(seek_run(&b, c, f, log)))
}

fn check_stream(c: &Case, ctx: &mut Ctx) -> Check {
    note(c, ctx);
    let b = bytes_of(&c.src)?;
    enumerate(c, ctx, &|f, log| block_on(stream_run(&b, c, f, log)))
}

fn check_both(c: &Case, ctx: &mut Ctx) -> Check {
    check_seek(c, ctx)?;
    check_stream(c, ctx)
}
