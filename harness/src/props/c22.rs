//! C22: the tokio front end is interchangeable with the futures front end.

use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::props::c06::{streamable, Src};
use crate::props::c08::{corpus_bytes, corpus_strategy, mut_strategy, mutate, KCase, Mut};
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use futures_lite::io::Cursor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use tokio_util::compat::{FuturesAsyncReadCompatExt, FuturesAsyncWriteCompatExt};

pub fn property() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        rule: "the same write history through the futures and the tokio writer constructors (memory, scheduled sink with optional fault, buffered, file), and the same archive, damaged archive or mutated input of a coverage-guided search through the futures and tokio seek, stream and filesystem readers with the same schedule of short, not-ready and failing transfers; results compared including errors; non-trivial = the archive has at least one entry with data, or the input is damaged",
        assumptions: &["the tokio I/O object keeps the traits' contract", "an end of file met while seeking or reading is compared as such whatever the I/O error kind for the filesystem reader"],
        parts: || {
            vec![
                part("write", 12_000, 120_000, (archive_strategy(0..5, 6_000), schedule_strategy(), proptest::option::weighted(0.3, fault())).prop_map(|(a, sched, fault)| WCase { a, sched, fault }), check_write),
                part("read", 20_000, 200_000, (src(), schedule_strategy(), prop_oneof![1u16..10, 1u16..9000], proptest::option::weighted(0.2, fault())).prop_map(|(src, sched, cap, fault)| RCase { src, sched, cap, fault }), check_read),
                part("damaged", 60_000, 600_000, (farchive_strategy(0..4, 600, false), proptest::collection::vec(mut_strategy(), 1..4), schedule_strategy(), 1u16..2000, proptest::bool::weighted(0.1)).prop_map(|(a, muts, sched, cap, fs)| DCase { a, muts, sched, cap, fs }), check_damaged),
                part("found", 16_000, 400_000, (corpus_strategy(), schedule_strategy(), 1u16..2000, proptest::bool::weighted(0.1)).prop_map(|(from, sched, cap, fs)| FCase { from, sched, cap, fs }), check_found),
                part("write-big", 600, 6_000, (prop_oneof![3 => archive_strategy(1..4, 300_000), 1 => crate::props::c01::many_strategy()], schedule_strategy(), proptest::option::weighted(0.3, fault())).prop_map(|(a, sched, fault)| WCase { a, sched, fault }), check_write),
                part("read-big", 400, 4_000, (big_src(), schedule_strategy(), 60u16..9000, proptest::option::weighted(0.2, fault())).prop_map(|(src, sched, cap, fault)| RCase { src, sched, cap, fault }), check_read),
                part("file", 600, 6_000, (src(), archive_strategy(0..4, 20_000)), check_file),
            ]
        },
    }
}

fn fault() -> BoxedStrategy<Fault> {
    (prop_oneof![0u64..12, 0u64..80], proptest::sample::select(FaultKind::ERRORS.to_vec())).prop_map(|(at, kind)| Fault { at, kind }).boxed()
}

fn src() -> BoxedStrategy<Src> {
    prop_oneof![archive_strategy(0..5, 6_000).prop_map(|a| Src::Own(streamable(a))), farchive_strategy(0..5, 6_000, true).prop_map(Src::Foreign)].boxed()
}

fn big_src() -> BoxedStrategy<Src> {
    prop_oneof![
        3 => archive_strategy(1..4, 300_000).prop_map(|a| Src::Own(streamable(a))),
        3 => farchive_strategy(1..4, 300_000, true).prop_map(Src::Foreign),
        2 => many_farchive_strategy(true).prop_map(Src::Foreign),
        2 => long_farchive_strategy(true, 65_535).prop_map(Src::Foreign),
    ]
    .boxed()
}

fn bytes_of(s: &Src) -> Result<Vec<u8>, String> {
    match s {
        Src::Own(a) => write_mem(a),
        Src::Foreign(f) => Ok(f.build().bytes),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WCase {
    a: ArchiveSpec,
    sched: Schedule,
    fault: Option<Fault>,
}

fn same_bytes(what: &str, a: &Result<Vec<u8>, ZipError>, b: &Result<Vec<u8>, ZipError>) -> Check {
    match (a, b) {
        (Ok(x), Ok(y)) if x == y => Ok(()),
        (Ok(x), Ok(y)) => Err(format!("{what}: {}", diff(x, y))),
        (Err(x), Err(y)) if errkey(x) == errkey(y) => Ok(()),
        (x, y) => Err(format!("{what}: futures front end {:?}, tokio front end {:?}", x.as_ref().err(), y.as_ref().err())),
    }
}

fn check_write(c: &WCase, ctx: &mut Ctx) -> Check {
    classify(&c.a, ctx);
    ctx.nontrivial_if(c.a.entries.iter().any(|e| e.data.len() > 0));
    let ideal = block_on(write_archive(ZipFileWriter::new(Vec::new()), &c.a));
    let tokio = block_on(write_archive(ZipFileWriter::with_tokio(Vec::<u8>::new()), &c.a)).map(|w| w.into_inner());
    same_bytes("in memory", &ideal, &tokio)?;
    // The same schedule (and fault) on both sides.
    let sink = || SchedWriter::new(Vec::new(), c.sched.clone()).with_fault(c.fault);
    let f = sink();
    let flog = f.log.clone();
    let f = block_on(write_archive(ZipFileWriter::new(f), &c.a)).map(|w| w.sink);
    let t = sink();
    let tlog = t.log.clone();
    let t = block_on(write_archive(ZipFileWriter::with_tokio(t.compat_write()), &c.a)).map(|w| w.into_inner().into_inner().sink);
    same_bytes("scheduled sink", &f, &t)?;
    let (fl, tl) = (flog.borrow(), tlog.borrow());
    ctx.label_if(fl.fault_hit, "fault");
    ctx.label_if(fl.pendings > 0, "pending");
    if (fl.fault_hit, fl.closed) != (tl.fault_hit, tl.closed) {
        return Err(format!("the sinks saw different things: fault {}/{}, closed {}/{}", fl.fault_hit, tl.fault_hit, fl.closed, tl.closed));
    }
    // A buffered tokio sink, flushed by its owner.
    if c.fault.is_none() {
        let cap = 1 + c.sched.0.len() * 37;
        let b = block_on(async {
            use tokio::io::AsyncWriteExt;
            let mut w = write_archive(ZipFileWriter::with_tokio(tokio::io::BufWriter::with_capacity(cap, Vec::<u8>::new())), &c.a).await?.into_inner();
            w.flush().await?;
            Ok(w.into_inner())
        });
        same_bytes("buffered sink", &ideal, &b)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    src: Src,
    sched: Schedule,
    cap: u16,
    fault: Option<Fault>,
}

/// `snap_stream` through the tokio constructor.
async fn tokio_stream<R: tokio::io::AsyncBufRead + Unpin>(r: R, with: bool) -> (Vec<StreamEntry>, Result<(), ZipError>) {
    let z = stream::ZipFileReader::with_tokio(r);
    snap_stream_reader(z, with).await
}

async fn seek_tokio<R: tokio::io::AsyncBufRead + tokio::io::AsyncSeek + Unpin>(r: R) -> Result<Snapshot, ZipError> {
    snap_seek_reader(seek::ZipFileReader::with_tokio(r).await?).await
}

fn compare(bytes: &[u8], sched: &Schedule, cap: usize, fault: Option<Fault>, ctx: &mut Ctx) -> Check {
    let rc = Rc::new(bytes.to_vec());
    let src = || SchedReader::new(rc.clone(), sched.clone()).with_cap(cap).with_fault(fault);
    let f = block_on(snap_seek(Cursor::new(bytes)));
    let t = block_on(seek_tokio(std::io::Cursor::new(bytes)));
    same_result("seek reader, ideal source", &f, &t)?;
    let s = src();
    let log = s.log.clone();
    let f = block_on(snap_seek(s));
    let t = block_on(seek_tokio(src().compat()));
    same_result("seek reader, scheduled source", &f, &t)?;
    ctx.label_if(log.borrow().fault_hit, "fault");
    ctx.label_if(log.borrow().pendings > 0, "pending");
    ctx.label_if(f.is_err(), "refused");
    for with in [true, false] {
        let f = block_on(snap_stream(Cursor::new(bytes), with));
        let t = block_on(tokio_stream(std::io::Cursor::new(bytes), with));
        same_stream("streaming reader, ideal source", &f, &t)?;
        let f = block_on(snap_stream(src(), with));
        let t = block_on(tokio_stream(src().compat(), with));
        same_stream("streaming reader, scheduled source", &f, &t)?;
    }
    Ok(())
}

fn check_read(c: &RCase, ctx: &mut Ctx) -> Check {
    let bytes = bytes_of(&c.src)?;
    ctx.nontrivial_if(match &c.src {
        Src::Own(a) => a.entries.iter().any(|e| e.data.len() > 0),
        Src::Foreign(a) => a.entries.iter().any(|e| e.data.len() > 0),
    });
    compare(&bytes, &c.sched, c.cap as usize, c.fault, ctx)?;
    // tokio's own buffering between a slow source and the reader: intact archives give the same result.
    if c.fault.is_none() {
        let rc = Rc::new(bytes.to_vec());
        let ideal = block_on(snap_seek(Cursor::new(&bytes)));
        let t = block_on(seek_tokio(tokio::io::BufReader::with_capacity(c.cap as usize, SchedReader::new(rc.clone(), c.sched.clone()).compat())));
        same_result("seek reader, tokio BufReader", &ideal, &t)?;
        let ideal = block_on(snap_stream(Cursor::new(&bytes), true));
        let t = block_on(tokio_stream(tokio::io::BufReader::with_capacity(c.cap as usize, SchedReader::new(rc, c.sched.clone()).compat()), true));
        same_stream("streaming reader, tokio BufReader", &ideal, &t)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    a: FArchive,
    muts: Vec<Mut>,
    sched: Schedule,
    cap: u16,
    fs: bool,
}

fn check_damaged(c: &DCase, ctx: &mut Ctx) -> Check {
    judge_damaged(mutate(&c.a, &c.muts), &c.sched, c.cap, c.fs, ctx)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    from: KCase,
    sched: Schedule,
    cap: u16,
    fs: bool,
}

fn check_found(c: &FCase, ctx: &mut Ctx) -> Check {
    judge_damaged(corpus_bytes(&c.from), &c.sched, c.cap, c.fs, ctx)
}

fn judge_damaged(v: Vec<u8>, sched: &Schedule, cap: u16, fs: bool, ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    compare(&v, sched, cap as usize, None, ctx)?;
    // Small enough for the file to come in one piece.
    if fs && v.len() < 8000 {
        ctx.label("fs");
        let d = Scratch::new();
        let p = d.file("x.zip", &v);
        let mut m = block_on(snap_mem(v));
        let mut f = on_tokio(snap_fs(&p));
        // An empty directory at such an offset is never read, so the buffer does not even find that.
        let refused = matches!(&f, Err(ZipError::UpstreamReadError(e)) if e.kind() == std::io::ErrorKind::InvalidInput);
        if refused && m.as_ref().is_ok_and(|m| m.listing.entries.is_empty()) {
            ctx.label("empty-directory-beyond-files");
            return Ok(());
        }
        for r in [&mut m, &mut f] {
            soften(r);
        }
        same_result("filesystem reader", &m, &f)?;
    }
    Ok(())
}

/// Files refuse offsets which a memory buffer merely finds to be beyond its end.
fn soften(r: &mut Result<Snapshot, ZipError>) {
    let s = |e: &mut Option<String>| {
        if e.as_deref() == Some("io:InvalidInput") {
            *e = Some("io:UnexpectedEof".into());
        }
    };
    match r {
        Err(ZipError::UpstreamReadError(e)) if e.kind() == std::io::ErrorKind::InvalidInput => *r = Err(ZipError::UpstreamReadError(std::io::ErrorKind::UnexpectedEof.into())),
        Ok(x) => {
            x.with.iter_mut().for_each(|c| s(&mut c.err));
            x.without.iter_mut().for_each(|c| s(&mut c.0.err));
        }
        _ => {}
    }
}

fn check_file((s, a): &(Src, ArchiveSpec), ctx: &mut Ctx) -> Check {
    use tokio::io::AsyncWriteExt;
    let d = Scratch::new();
    // Writing through a tokio file.
    let want = write_mem(a)?;
    ctx.nontrivial_if(a.entries.iter().any(|e| e.data.len() > 0));
    let p = d.0.join("out.zip");
    on_tokio(async {
        let f = tokio::fs::File::create(&p).await?;
        let mut f = write_archive(ZipFileWriter::with_tokio(f), a).await?.into_inner();
        f.flush().await?;
        Ok(())
    })
    .map_err(|e: ZipError| format!("writing to a file: {e}"))?;
    let got = std::fs::read(&p).map_err(|e| e.to_string())?;
    if got != want {
        return Err(format!("the archive written to a file differs: {}", diff(&want, &got)));
    }
    // Reading: filesystem reader, seek and stream readers over a tokio file, against memory.
    let bytes = bytes_of(s)?;
    let p = d.file("in.zip", &bytes);
    let m = block_on(snap_mem(bytes.clone()));
    same_result("filesystem reader", &m, &on_tokio(snap_fs(&p)))?;
    let open = || async { Ok::<_, ZipError>(tokio::io::BufReader::new(tokio::fs::File::open(&p).await?)) };
    same_result("seek reader over a tokio file", &m, &on_tokio(async { seek_tokio(open().await?).await }))?;
    let st = block_on(snap_stream(Cursor::new(&bytes), true));
    let t = on_tokio(async { Ok::<_, ZipError>(tokio_stream(open().await?, true).await) }).map_err(|e| e.to_string())?;
    same_stream("streaming reader over a tokio file", &st, &t)?;
    // A pipe whose other end is fed concurrently.
    let t = on_tokio(async {
        let (mut tx, rx) = tokio::io::duplex(1 + bytes.len() % 97);
        let b = bytes.clone();
        let feed = async move {
            let _ = tx.write_all(&b).await;
        };
        let read = tokio_stream(tokio::io::BufReader::with_capacity(1 + bytes.len() % 61, rx), false);
        futures_lite::future::zip(feed, read).await.1
    });
    let st = block_on(snap_stream(Cursor::new(&bytes), false));
    same_stream("streaming reader over a pipe", &st, &t)?;
    // A path that doesn't exist.
    let gone = d.0.join("absent.zip");
    match on_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&gone)) {
        Err(ZipError::UpstreamReadError(e)) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
        r => Err(format!("opening a missing file: {:?}", r.err())),
    }
}
