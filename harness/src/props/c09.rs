//! C09: a truncated archive is never taken for a complete one.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::props::c06::{layout, streamable, Layout, Src};
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{mem, seek, stream};
use futures_lite::io::{AsyncReadExt, Cursor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C09",
        level: "exploration",
        rule: "archives of the crate and of an independent encoder cut at every byte position (archives up to 1.2 kB) or at positions around every record boundary plus random ones (larger archives), given to the in-memory, seek, filesystem and streaming readers (reading, checked reading, skipping); non-trivial = at least one entry",
        assumptions: &["archives in which the end-of-directory signature occurs more than once are excluded: a cut can then leave a different complete archive", "the streaming reader cannot notice cuts behind the first signature of the directory"],
        parts: || {
            vec![
                part("written-all", 2500, 25000, strategy(archive_strategy_with(entry_strategy_with(light_method_strategy(), 150), 0..5).prop_map(|a| Src::Own(streamable(a))).boxed(), false), check),
                part("foreign-all", 2500, 25000, strategy(farchive_strategy(0..5, 150, true).prop_map(Src::Foreign).boxed(), false), check),
                part("larger", 1500, 15000, strategy(prop_oneof![archive_strategy(1..4, 20_000).prop_map(|a| Src::Own(streamable(a))), farchive_strategy(1..4, 20_000, true).prop_map(Src::Foreign)].boxed(), true), check),
                part("directory-only", 4000, 40000, strategy(farchive_strategy(0..6, 60, false).prop_map(Src::Foreign).boxed(), false), check_dir),
                part("long-comment", 400, 4000, strategy(long_comment(), true), check),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    src: Src,
    cuts: Vec<u32>,
    sched: Schedule,
}

fn tame(d: &mut DataSpec) {
    if let DataSpec::Sigs { seed, len } = d {
        *d = DataSpec::Rand { seed: *seed, len: *len };
    }
}

fn strategy(src: BoxedStrategy<Src>, many: bool) -> BoxedStrategy<Case> {
    let cuts = proptest::collection::vec(any::<u32>(), if many { 20..40 } else { 0..2 });
    (src, cuts, prop_oneof![2 => Just(Schedule::full()), 1 => schedule_strategy()])
        .prop_map(|(mut src, cuts, sched)| {
            match &mut src {
                Src::Own(a) => a.entries.iter_mut().for_each(|e| tame(&mut e.data)),
                Src::Foreign(f) => f.entries.iter_mut().for_each(|e| tame(&mut e.data)),
            }
            Case { src, cuts, sched }
        })
        .boxed()
}

fn long_comment() -> BoxedStrategy<Src> {
    (archive_strategy_with(entry_strategy_with(light_method_strategy(), 60), 0..3), 1000u32..65536)
        .prop_map(|(mut a, n)| {
            a.comment = Some("c".repeat(n as usize));
            Src::Own(streamable(a))
        })
        .boxed()
}

fn cuts(c: &Case, bytes: &[u8], marks: &[u64]) -> Vec<usize> {
    let n = bytes.len();
    if n <= 1200 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = c.cuts.iter().map(|x| *x as usize % n).collect();
    for m in marks.iter().copied().chain([n as u64]) {
        for d in -5i64..=5 {
            let x = m as i64 + d;
            if x >= 0 && (x as usize) < n {
                v.push(x as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn unique_end(bytes: &[u8]) -> bool {
    bytes.windows(4).filter(|w| *w == [0x50, 0x4b, 5, 6]).count() == 1
}

fn dir_readers(bytes: &[u8], cut: usize, sched: &Schedule, fs: bool) -> Check {
    let part = bytes[..cut].to_vec();
    if let Ok(r) = block_on(mem::ZipFileReader::new(part.clone())) {
        return Err(format!("cut at {cut} of {}: the in-memory reader opens it with {} entries", bytes.len(), r.file().entries().len()));
    }
    let ok = if sched.0.is_empty() { block_on(seek::ZipFileReader::new(Cursor::new(part.clone()))).is_ok() } else { block_on(seek::ZipFileReader::new(SchedReader::new(Rc::new(part.clone()), sched.clone()))).is_ok() };
    if ok {
        return Err(format!("cut at {cut} of {}: the seek reader opens it", bytes.len()));
    }
    if fs {
        let s = Scratch::new();
        let p = s.file("a.zip", &part);
        if on_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&p)).is_ok() {
            return Err(format!("cut at {cut} of {}: the filesystem reader opens it", bytes.len()));
        }
    }
    Ok(())
}

/// Traverses a cut archive; returns whether it ended normally.
async fn traverse(l: &Layout, data_ends: &[u64], cut: usize, mode: u8, sched: &Schedule) -> Result<bool, String> {
    let part = l.bytes[..cut].to_vec();
    let mut z = stream::ZipFileReader::new(SchedReader::new(Rc::new(part), sched.clone()));
    let mut i = 0;
    loop {
        match mode {
            0 => {
                let rd = match z.next_without_entry().await {
                    Ok(Some(rd)) => rd,
                    Ok(None) => return Ok(true),
                    Err(_) => return Ok(false),
                };
                match rd.skip().await {
                    Ok(n) => z = n,
                    Err(_) => return Ok(false),
                }
            }
            _ => {
                let mut rd = match z.next_with_entry().await {
                    Ok(Some(rd)) => rd,
                    Ok(None) => return Ok(true),
                    Err(_) => return Ok(false),
                };
                if i >= l.names.len() || rd.reader().entry().filename().as_bytes() != l.names[i] {
                    return Err(format!("cut at {cut}: entry {i} is reported as {}", show(rd.reader().entry().filename().as_bytes())));
                }
                let mut v = vec![];
                let r = if mode == 1 {
                    rd.reader_mut().read_to_end_checked(&mut v).await.map_err(|e| e.to_string())
                } else {
                    rd.reader_mut().read_to_end(&mut v).await.map_err(|e| e.to_string())
                };
                match r {
                    Ok(_) if mode == 1 && (cut as u64) < data_ends[i] && !l.data[i].is_empty() => {
                        return Err(format!("cut at {cut}: checked read of entry {i} succeeds although its data ends at {}", data_ends[i]));
                    }
                    Ok(_) if v != l.data[i] => return Err(format!("cut at {cut}: read of entry {i} (mode {mode}) ends normally with other data: {}", diff(&v, &l.data[i]))),
                    Ok(_) => {}
                    Err(_) if mode == 1 && !l.crc_known[i] && (cut as u64) >= data_ends[i] => {}
                    Err(_) => return Ok(false),
                }
                match rd.done().await {
                    Ok(n) => z = n,
                    Err(_) => return Ok(false),
                }
            }
        }
        i += 1;
        if i > l.names.len() {
            return Err(format!("cut at {cut}: more entries than the archive holds"));
        }
    }
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let l = layout(&c.src)?;
    if !unique_end(&l.bytes) {
        ctx.label("excluded");
        return Ok(());
    }
    ctx.nontrivial_if(!l.names.is_empty());
    // Where the streaming traversal ends, and where each entry's compressed data ends.
    let (stop, data_ends, marks) = match &c.src {
        Src::Own(a) => {
            let r = crate::props::c03::parse_written(a, &Rc::new(l.bytes.clone()))?;
            let de: Vec<u64> = r.entries.iter().map(|e| e.data_start + e.csize).collect();
            let mut m: Vec<u64> = r.entries.iter().flat_map(|e| [e.offset, e.data_start, e.data_start + e.csize]).collect();
            m.push(r.cd_offset);
            m.push(r.cd_offset + r.cd_size);
            (r.cd_offset, de, m)
        }
        Src::Foreign(f) => {
            let b = f.build();
            let mut m: Vec<u64> = b.offsets.clone();
            m.extend(b.lfh_ends.iter().map(|x| *x as u64));
            m.extend(b.data_ranges.iter().map(|x| x.1 as u64));
            m.push(b.cd_offset as u64);
            m.push(b.eocdr as u64);
            (b.cd_offset as u64, b.data_ranges.iter().map(|x| x.1 as u64).collect(), m)
        }
    };
    let heavy = match &c.src {
        Src::Own(a) => a.entries.iter().any(|e| matches!(e.method, Method::Xz | Method::Lzma | Method::Bz)),
        Src::Foreign(f) => f.entries.iter().any(|e| matches!(e.method, 12 | 14 | 95)),
    };
    let list = cuts(c, &l.bytes, &marks);
    for (k, &cut) in list.iter().enumerate() {
        if heavy && k % 4 != (c.cuts.len() % 4) && list.len() > 60 {
            continue;
        }
        ctx.sub(1);
        dir_readers(&l.bytes, cut, &c.sched, k % 97 == 5)?;
        for mode in 0..3 {
            let normal = block_on(traverse(&l, &data_ends, cut, mode, &c.sched))?;
            if normal && (cut as u64) < stop + 4 {
                return Err(format!("cut at {cut} of {} (directory at {stop}): the streaming traversal (mode {mode}) ends normally", l.bytes.len()));
            }
        }
    }
    // A source that has lost its end since the directory was read.
    let whole = block_on(mem::ZipFileReader::new(l.bytes.clone())).map_err(|e| format!("the uncut archive does not open: {e}"))?;
    for (k, &cut) in list.iter().enumerate() {
        if k % 3 != c.cuts.len() % 3 {
            continue;
        }
        for i in 0..l.names.len() {
            if (cut as u64) < data_ends[i] && (i == 0 || cut as u64 >= data_ends[i - 1]) {
                ctx.sub(1);
                block_on(lost_end(&whole, &l, cut, i, &c.sched))?;
            }
        }
    }
    // The uncut archive must be fine, or the above means nothing.
    if mem_ok(&l.bytes).is_err() {
        return Err("the uncut archive does not open".into());
    }
    for mode in 0..3 {
        if !block_on(traverse(&l, &data_ends, l.bytes.len(), mode, &c.sched))? {
            return Err(format!("the uncut archive is not traversed (mode {mode})"));
        }
    }
    Ok(())
}

/// Reads an entry whose data was cut after the directory had been read.
async fn lost_end(whole: &mem::ZipFileReader, l: &Layout, cut: usize, i: usize, sched: &Schedule) -> Check {
    let cutm = mem::ZipFileReader::from_raw_parts(l.bytes[..cut].to_vec(), whole.file().clone());
    let mut cuts = seek::ZipFileReader::from_raw_parts(SchedReader::new(Rc::new(l.bytes[..cut].to_vec()), sched.clone()), whole.file().clone());
    for checked in [false, true] {
        for k in 0..2 {
            let mut v = vec![];
            let r = if k == 0 {
                match cutm.reader_with_entry(i).await {
                    Ok(mut r) if checked => r.read_to_end_checked(&mut v).await.is_ok(),
                    Ok(mut r) => r.read_to_end(&mut v).await.is_ok(),
                    Err(_) => false,
                }
            } else {
                match cuts.reader_with_entry(i).await {
                    Ok(mut r) if checked => r.read_to_end_checked(&mut v).await.is_ok(),
                    Ok(mut r) => r.read_to_end(&mut v).await.is_ok(),
                    Err(_) => false,
                }
            };
            if r && v != l.data[i] {
                return Err(format!("data cut at {cut} after opening: read of entry {i} (checked: {checked}) ends normally with other data: {}", diff(&v, &l.data[i])));
            }
        }
    }
    Ok(())
}

fn mem_ok(b: &[u8]) -> Result<(), String> {
    open_mem(b.to_vec()).map(|_| ()).map_err(|e| e.to_string())
}

fn check_dir(c: &Case, ctx: &mut Ctx) -> Check {
    let Src::Foreign(f) = &c.src else { unreachable!() };
    let b = f.build();
    if !unique_end(&b.bytes) {
        ctx.label("excluded");
        return Ok(());
    }
    ctx.nontrivial_if(!f.entries.is_empty());
    let marks: Vec<u64> = b.cd_record_offsets.iter().map(|x| *x as u64).chain([b.eocdr as u64]).collect();
    for cut in cuts(c, &b.bytes, &marks) {
        ctx.sub(1);
        dir_readers(&b.bytes, cut, &Schedule::full(), false)?;
    }
    mem_ok(&b.bytes)
}
