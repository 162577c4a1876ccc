//! C27: readers can be taken apart and put together again.

use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::props::c06::Src;
use crate::props::c08::{mut_strategy, mutate, Mut};
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{mem, seek};
use async_zip::error::ZipError;
use async_zip::tokio::read::fs;
use async_zip::ZipFile;
use futures_lite::io::{AsyncReadExt, AsyncSeekExt, Cursor, SeekFrom};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::rc::Rc;
use tokio_util::compat::FuturesAsyncReadCompatExt;

pub fn property() -> Property {
    Property {
        id: "C27",
        level: "exploration",
        rule: "the directory read by one kind of reader (memory, seek, tokio seek, file) joined with the archive's bytes in another kind of reader through from_raw_parts, the source standing anywhere; all answers compared with those of a reader that read the directory itself; and directories joined with bytes they do not describe (damaged copies, other archives); non-trivial = the archive has an entry with data",
        assumptions: &["a directory joined with other bytes is only required not to panic, to keep its listing and never to pass a checked read that fails its CRC"],
        parts: || {
            vec![
                part("parts", 30_000, 240_000, (src(), 0u8..4, schedule_strategy(), prop_oneof![1u16..64, 1u16..9000], any::<u16>()).prop_map(|(src, from, sched, cap, at)| Case { src, from, sched, cap, at }), check),
                part("parts-big", 800, 8_000, (crate::props::c13::big_src(), 0u8..4, schedule_strategy(), 64u16..9000, any::<u16>()).prop_map(|(src, from, sched, cap, at)| Case { src, from, sched, cap, at }), check),
                part("strangers", 40_000, 320_000, (farchive_strategy(1..4, 900, false), prop_oneof![3 => proptest::collection::vec(mut_strategy(), 1..4).prop_map(Other::Damaged), 1 => farchive_strategy(0..4, 900, false).prop_map(Other::Archive), 1 => proptest::collection::vec(any::<u8>(), 0..300).prop_map(Other::Bytes)], 1u16..3000), check_stranger),
            ]
        },
    }
}

fn src() -> BoxedStrategy<Src> {
    prop_oneof![archive_strategy_with(entry_strategy_with(light_method_strategy(), 4_000), 0..5).prop_map(Src::Own), farchive_strategy(0..5, 4_000, false).prop_map(Src::Foreign)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    src: Src,
    /// The kind of reader that reads the directory.
    from: u8,
    sched: Schedule,
    cap: u16,
    /// Where the source stands when the parts are joined.
    at: u16,
}

/// The directory as read by one kind of reader, which gives its source back unchanged.
fn directory(kind: u8, bytes: &[u8], path: &Path) -> Result<ZipFile, String> {
    let e = |e: ZipError| format!("opening: {e}");
    Ok(match kind {
        0 => {
            let r = block_on(mem::ZipFileReader::new(bytes.to_vec())).map_err(e)?;
            if r.data() != bytes {
                return Err(format!("data() of the in-memory reader: {}", diff(r.data(), bytes)));
            }
            r.file().clone()
        }
        1 => {
            let s = SchedReader::new(Rc::new(bytes.to_vec()), Schedule::full());
            let log = s.log.clone();
            let r = block_on(seek::ZipFileReader::new(s)).map_err(e)?;
            let f = r.file().clone();
            let mut back = r.into_inner();
            if !Rc::ptr_eq(&back.log, &log) {
                return Err("into_inner returns another source".into());
            }
            back.fault = None;
            let mut v = vec![];
            block_on(async {
                back.seek(SeekFrom::Start(0)).await?;
                back.read_to_end(&mut v).await
            })
            .map_err(|e| format!("reading the source taken back: {e}"))?;
            if v != bytes {
                return Err(format!("source taken back: {}", diff(&v, bytes)));
            }
            f
        }
        2 => block_on(seek::ZipFileReader::with_tokio(std::io::Cursor::new(bytes))).map_err(e)?.file().clone(),
        _ => on_tokio(fs::ZipFileReader::new(path)).map_err(e)?.file().clone(),
    })
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let bytes = match &c.src {
        Src::Own(a) => write_mem(a)?,
        Src::Foreign(f) => f.build().bytes,
    };
    let want = block_on(snap_mem(bytes.clone()));
    if let Ok(w) = &want {
        ctx.nontrivial_if(w.with.iter().any(|c| !c.data.is_empty()));
    }
    let dir = Scratch::new();
    let p = dir.file("a.zip", &bytes);
    let from = ["memory", "seek", "tokio seek", "file"][c.from as usize % 4];
    ctx.label(format!("directory from {from}"));
    let f = directory(c.from % 4, &bytes, &p)?;
    let what = |to: &str| format!("directory from the {from} reader in a {to} reader");
    let r = mem::ZipFileReader::from_raw_parts(bytes.clone(), f.clone());
    if r.data() != bytes {
        return Err(format!("data() after from_raw_parts: {}", diff(r.data(), &bytes)));
    }
    same_result(&what("memory"), &want, &block_on(snap_mem_reader(r.clone())))?;
    // The clone's original is still whole.
    same_result(&what("cloned memory"), &want, &block_on(snap_mem_reader(r)))?;
    // Seek readers, with the source standing anywhere.
    let at = c.at as u64 % (bytes.len() as u64 + 20);
    let mut cur = Cursor::new(&bytes[..]);
    cur.set_position(at);
    same_result(&what("seek"), &want, &block_on(snap_seek_reader(seek::ZipFileReader::from_raw_parts(cur, f.clone()))))?;
    let mut s = SchedReader::new(Rc::new(bytes.clone()), c.sched.clone()).with_cap(c.cap as usize);
    block_on(async {
        s.seek(SeekFrom::Start(at)).await?;
        s.read(&mut [0; 3]).await
    })
    .map_err(|e| e.to_string())?;
    let mut r = seek::ZipFileReader::from_raw_parts(s, f.clone());
    if listing(r.file()) != want.as_ref().unwrap().listing {
        return Err(what("seek") + ": the listing differs");
    }
    // The source is reachable, and using it does no harm.
    block_on(async {
        let i = r.inner_mut();
        i.seek(SeekFrom::Start(at / 2)).await?;
        i.read(&mut [0; 7]).await
    })
    .map_err(|e| e.to_string())?;
    same_result(&what("scheduled seek"), &want, &block_on(snap_seek_reader(r)))?;
    let t = SchedReader::new(Rc::new(bytes.clone()), c.sched.clone()).with_cap(c.cap as usize).compat();
    let r = block_on(seek::ZipFileReader::with_tokio(t)).map_err(|e| e.to_string())?;
    let r = seek::ZipFileReader::from_raw_parts(r.into_inner(), f.clone());
    same_result(&what("tokio seek"), &want, &block_on(snap_seek_reader(r)))?;
    // Files: another copy under another name, and one that does not exist (yet).
    if c.at % 4 == 0 {
        ctx.label("file");
        let mut q = dir.0.join("later.zip");
        // The path is kept as it was given: roundabout or relative.
        match c.at / 4 % 3 {
            1 => q = dir.0.join("..").join(dir.0.file_name().unwrap()).join("later.zip"),
            2 => {
                if let (Ok(cwd), Ok(rest)) = (std::env::current_dir(), q.strip_prefix("/")) {
                    q = cwd.components().skip(1).map(|_| "..").collect::<std::path::PathBuf>().join(rest);
                }
            }
            _ => {}
        }
        let r = fs::ZipFileReader::from_raw_parts(&q, f.clone());
        if r.path().as_os_str() != q.as_os_str() {
            return Err(format!("path() is {:?} instead of {q:?}", r.path()));
        }
        if listing(r.file()) != want.as_ref().unwrap().listing {
            return Err(what("file") + ": the listing differs");
        }
        if !f.entries().is_empty() {
            match on_tokio(r.reader_with_entry(0)) {
                Err(ZipError::UpstreamReadError(e)) if e.kind() == std::io::ErrorKind::NotFound => {}
                Err(e) => return Err(format!("entry of a missing file: {e}")),
                Ok(_) => return Err("entry of a missing file was opened".into()),
            }
        }
        std::fs::rename(&p, &q).map_err(|e| e.to_string())?;
        let opened = on_tokio(fs::ZipFileReader::new(&q)).map_err(|e| format!("opening {q:?}: {e}"))?;
        if opened.path().as_os_str() != q.as_os_str() {
            return Err(format!("path() is {:?} instead of {q:?}", opened.path()));
        }
        same_result(&what("file"), &want, &on_tokio(snap_fs_reader(r.clone())))?;
        same_result(&what("cloned file"), &want, &on_tokio(snap_fs_reader(r)))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Other {
    Damaged(Vec<Mut>),
    Archive(FArchive),
    Bytes(Vec<u8>),
}

/// A directory and bytes it does not describe.
fn check_stranger((a, other, cap): &(FArchive, Other, u16), ctx: &mut Ctx) -> Check {
    let bytes = a.build().bytes;
    let f = open_mem(bytes).map_err(|e| format!("opening: {e}"))?.file().clone();
    let want = listing(&f);
    ctx.nontrivial_if(a.entries.iter().any(|e| e.data.len() > 0));
    let b = match other {
        Other::Damaged(m) => mutate(a, m),
        Other::Archive(o) => o.build().bytes,
        Other::Bytes(v) => v.clone(),
    };
    let m = block_on(snap_mem_reader(mem::ZipFileReader::from_raw_parts(b.clone(), f.clone()))).map_err(|e| e.to_string())?;
    if m.listing != want {
        return Err("the listing changes with the bytes".into());
    }
    let mut failed = false;
    for (i, c) in m.with.iter().enumerate() {
        match &c.err {
            None => {
                let crc = crate::data::crc32(&c.data);
                if crc != want.entries[i].meta.crc {
                    return Err(format!("entry {i}: checked read accepts data with CRC {crc:08x} instead of {:08x}", want.entries[i].meta.crc));
                }
            }
            Some(_) => failed = true,
        }
    }
    ctx.label_if(failed, "some entry unreadable");
    let s = block_on(snap_seek_reader(seek::ZipFileReader::from_raw_parts(Cursor::new(&b[..]), f.clone())));
    same_result("memory and seek reader", &Ok(m.clone()), &s)?;
    // Smaller transfers may notice damage after other bytes, but what is accepted stays the same.
    let s = block_on(snap_seek_reader(seek::ZipFileReader::from_raw_parts(SchedReader::new(Rc::new(b), Schedule::full()).with_cap(*cap as usize), f))).map_err(|e| e.to_string())?;
    for (i, (x, y)) in m.with.iter().zip(&s.with).enumerate() {
        if x.err.is_none() != y.err.is_none() || x.err.is_none() && x.data != y.data {
            return Err(format!("entry {i}: checked read {:?} in memory and {:?} from a source", x.err, y.err));
        }
    }
    Ok(())
}
