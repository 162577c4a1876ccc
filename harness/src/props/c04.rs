//! C04: all readers report the same archive.

use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::props::c06::streamable;
use crate::readers::*;
use crate::sio::*;
use futures_lite::io::{AsyncReadExt, Cursor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C04",
        level: "exploration",
        rule: "archives written by the crate and archives from an independent encoder, opened with the in-memory, seek (ideal and scheduled I/O), filesystem and streaming readers, with and without entry and via into_entry; all answers compared pairwise; non-trivial = at least two entries, one of them non-empty",
        assumptions: &["the streaming reader reports no comment, attributes or (with a data descriptor) sizes and CRC", "foreign archives in the streaming part have no gaps and directory order equal to file order, as the streaming reader requires", "temporary files live in a scratch directory"],
        parts: || {
            vec![
                part("written", 27_000, 216_000, (archive_strategy(0..6, 12_000), schedule_strategy(), any::<u8>()).prop_map(|(a, sched, pick)| Case { a: Src::Own(a), sched, pick }), check),
                part("foreign", 18_000, 144_000, (farchive_strategy(0..6, 12_000, false), schedule_strategy(), any::<u8>()).prop_map(|(a, sched, pick)| Case { a: Src::Foreign(a), sched, pick }), check),
                part("foreign-stream", 18_000, 144_000, (farchive_strategy(0..6, 12_000, true), schedule_strategy(), any::<u8>()).prop_map(|(a, sched, pick)| Case { a: Src::ForeignStream(a), sched, pick }), check),
                part("big", 1_500, 15_000, case(prop_oneof![archive_strategy(1..4, 300_000).prop_map(Src::Own), farchive_strategy(1..4, 300_000, false).prop_map(Src::Foreign), farchive_strategy(1..4, 300_000, true).prop_map(Src::ForeignStream)].boxed()), check),
                part("long", 3_000, 24_000, case(prop_oneof![crate::props::c02::long_strategy().prop_map(|a| Src::Own(streamable(a))), long_farchive_strategy(false, 65_535).prop_map(Src::Foreign), long_farchive_strategy(true, 65_535).prop_map(Src::ForeignStream)].boxed()), check),
                part("many", 300, 3_000, case(prop_oneof![crate::props::c01::many_strategy().prop_map(Src::Own), many_farchive_strategy(false).prop_map(Src::Foreign), many_farchive_strategy(true).prop_map(Src::ForeignStream)].boxed()), check),
            ]
        },
    }
}

fn case(src: BoxedStrategy<Src>) -> BoxedStrategy<Case> {
    (src, schedule_strategy(), any::<u8>()).prop_map(|(a, sched, pick)| Case { a, sched, pick }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Src {
    Own(ArchiveSpec),
    Foreign(FArchive),
    ForeignStream(FArchive),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: Src,
    sched: Schedule,
    pick: u8,
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let (bytes, streamable) = match &c.a {
        Src::Own(a) => {
            classify(a, ctx);
            (write_mem(a)?, true)
        }
        Src::Foreign(f) => (f.build().bytes, false),
        Src::ForeignStream(f) => (f.build().bytes, true),
    };
    let mem = block_on(snap_mem(bytes.clone()));
    let Ok(m) = &mem else { return Err(format!("in-memory reader refuses the archive: {}", mem.err().unwrap())) };
    ctx.nontrivial_if(m.listing.entries.len() >= 2 && m.with.iter().any(|c| !c.data.is_empty()));
    for (i, w) in m.with.iter().enumerate() {
        if let Some(e) = &w.err {
            return Err(format!("in-memory reader: entry {i}: {e}"));
        }
        if m.without[i].0.data != w.data || m.without[i].0.err.is_some() {
            return Err(format!("entry {i}: reading without entry differs from reading with entry ({:?})", m.without[i].0.err));
        }
    }
    let rc = Rc::new(bytes.clone());
    same_result("mem/seek", &mem, &block_on(snap_seek(Cursor::new(bytes.clone()))))?;
    let sr = SchedReader::new(rc.clone(), c.sched.clone()).with_cap(1 + c.pick as usize * 16);
    same_result("mem/seek (scheduled)", &mem, &block_on(snap_seek(sr)))?;
    let s = Scratch::new();
    let p = s.file("a.zip", &bytes);
    same_result("mem/fs", &mem, &on_tokio(snap_fs(&p)))?;
    // Consuming access to one entry.
    let n = m.listing.entries.len();
    if n > 0 {
        let i = c.pick as usize % n;
        let got = block_on(async {
            let z = async_zip::base::read::seek::ZipFileReader::new(Cursor::new(bytes.clone())).await.map_err(|e| e.to_string())?;
            let mut er = z.into_entry(i).await.map_err(|e| e.to_string())?;
            let mut v = vec![];
            er.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
            Ok::<_, String>((v, er.compute_hash()))
        })
        .map_err(|e| format!("into_entry({i}): {e}"))?;
        if got.0 != m.with[i].data || got.1 != m.without[i].1 {
            return Err(format!("into_entry({i}): {}", diff(&got.0, &m.with[i].data)));
        }
    }
    // Reconstructed readers.
    let z = block_on(async_zip::base::read::mem::ZipFileReader::new(bytes.clone())).map_err(|e| e.to_string())?;
    let again = async_zip::base::read::mem::ZipFileReader::from_raw_parts(z.data().to_vec(), z.file().clone());
    if listing(again.file()) != m.listing {
        return Err("from_raw_parts changes the listing".into());
    }
    if streamable {
        check_stream(&bytes, m, c, ctx)?;
    }
    Ok(())
}

fn check_stream(bytes: &[u8], m: &Snapshot, c: &Case, ctx: &mut Ctx) -> Check {
    let a = block_on(snap_stream(Cursor::new(bytes.to_vec()), true));
    let sr = SchedReader::new(Rc::new(bytes.to_vec()), c.sched.clone()).with_cap(1 + c.pick as usize * 16);
    let b = block_on(snap_stream(sr, true));
    same_stream("stream/stream (scheduled)", &a, &b)?;
    let w = block_on(snap_stream(Cursor::new(bytes.to_vec()), false));
    if w.0.len() != a.0.len() || w.0.iter().zip(&a.0).any(|(x, y)| x.data != y.data) || w.1.as_ref().err().map(errkey) != a.1.as_ref().err().map(errkey) {
        return Err("streaming without entry differs from streaming with entry".into());
    }
    // What the streaming reader documents as unsupported: stored entries with a data descriptor.
    let refused = (0..m.listing.entries.len()).find(|i| {
        let e = &m.listing.entries[*i];
        e.meta.method == 0 && u16::from_le_bytes([bytes[e.offset as usize + 6], bytes[e.offset as usize + 7]]) & 8 != 0
    });
    let want = refused.unwrap_or(m.listing.entries.len());
    ctx.label_if(refused.is_some(), "stream-refuses-stored-descriptor");
    if a.0.len() != want {
        return Err(format!("streaming reader visits {} entries instead of {want}: {:?}", a.0.len(), a.1.as_ref().err().map(|e| e.to_string())));
    }
    match (&a.1, refused) {
        (Ok(()), None) => {}
        (Err(async_zip::error::ZipError::FeatureNotSupported(_)), Some(_)) => {}
        (r, _) => return Err(format!("streaming traversal ends with {:?} (refusal expected: {refused:?})", r.as_ref().err().map(|e| e.to_string()))),
    }
    for (i, s) in a.0.iter().enumerate() {
        let d = &m.listing.entries[i];
        let x = s.meta.as_ref().unwrap();
        if x.name != d.meta.name || x.method != d.meta.method || x.date != d.meta.date {
            return Err(format!("streamed entry {i}: name, method or date differ: {x:?} against {:?}", d.meta));
        }
        if s.data != m.with[i].data {
            return Err(format!("streamed entry {i}: {}", diff(&s.data, &m.with[i].data)));
        }
        let dd = u16::from_le_bytes([bytes[d.offset as usize + 6], bytes[d.offset as usize + 7]]) & 8 != 0;
        if !dd && (x.crc, x.csize, x.usize_) != (d.meta.crc, d.meta.csize, d.meta.usize_) {
            return Err(format!("streamed entry {i}: CRC or sizes differ"));
        }
    }
    Ok(())
}
