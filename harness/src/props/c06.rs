//! C06: streaming traversal lands exactly on every entry boundary.

use crate::codec;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::stream::ZipFileReader;
use async_zip::error::ZipError;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C06",
        level: "exploration",
        rule: "archives of the crate and of an independent encoder (all descriptor forms), traversed by random scripts of read-all, partial read, skip and done, with or without entry; the position of the source after each entry, the data and the outcome of done are compared with the encoder's layout; non-trivial = at least two entries and a script that does not merely read everything",
        assumptions: &["entries without gaps, directory order equal to file order", "stored entries with a data descriptor are excluded (documented as unsupported, decided in C20)", "Deflate64 entries with a data descriptor: finding F4"],
        parts: || {
            vec![
                part("written", 12000, 120000, strategy(archive_strategy(0..7, 9_000).prop_map(|a| Src::Own(streamable(a))).boxed()), check),
                part("foreign", 14000, 140000, strategy(farchive_strategy(0..7, 9_000, true).prop_map(Src::Foreign).boxed()), check),
                part("small", 30000, 300000, strategy(farchive_strategy(0..5, 40, true).prop_map(Src::Foreign).boxed()), check),
                part("large", 1_200, 18_000, strategy(prop_oneof![archive_strategy(1..4, 400_000).prop_map(|a| Src::Own(streamable(a))), farchive_strategy(1..4, 400_000, true).prop_map(Src::Foreign)].boxed()), check),
                part("long", 9_000, 90_000, strategy(long_farchive_strategy(true, 65_535).prop_map(Src::Foreign).boxed()), check),
                part("many", 800, 8_000, strategy(prop_oneof![crate::props::c01::many_strategy().prop_map(|a| Src::Own(streamable(a))), many_farchive_strategy(true).prop_map(Src::Foreign)].boxed()), check),
                part("deflate64-descriptor", 300, 3000, strategy(d64_strategy().prop_map(Src::Foreign).boxed()), check_d64),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Src {
    Own(ArchiveSpec),
    Foreign(FArchive),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Do {
    /// Read to the end, then `done`.
    All,
    /// Read exactly the data without observing the end, then `done`.
    Exact,
    /// Read a part (permille of the data), then `skip`.
    PartSkip(u16),
    /// Read a part, then `done`.
    PartDone(u16),
    Skip,
    /// Checked read, then `done` (with entry only).
    Checked,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Act {
    what: Do,
    with: bool,
    chunk: u16,
    /// Take the source out of the reader and wrap it anew afterwards.
    rewrap: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    src: Src,
    scripts: Vec<Vec<Act>>,
    sched: Schedule,
    cap: u16,
}

/// Stored data is not streamed (the streaming reader documents that it cannot read that).
pub fn streamable(mut a: ArchiveSpec) -> ArchiveSpec {
    for e in &mut a.entries {
        if e.method == Method::Stored && e.how.is_stream() {
            e.method = Method::Deflate;
        }
    }
    a
}

fn strategy(src: BoxedStrategy<Src>) -> BoxedStrategy<Case> {
    let what = prop_oneof![
        3 => Just(Do::All),
        2 => Just(Do::Exact),
        3 => (0u16..1000).prop_map(Do::PartSkip),
        1 => (0u16..1000).prop_map(Do::PartDone),
        3 => Just(Do::Skip),
        1 => Just(Do::Checked),
    ];
    let act = (what, any::<bool>(), prop_oneof![1u16..9, 1u16..3000], proptest::bool::weighted(0.3)).prop_map(|(what, with, chunk, rewrap)| Act { what, with, chunk, rewrap });
    (src, proptest::collection::vec(proptest::collection::vec(act, 1..6), 1..3), prop_oneof![1 => Just(Schedule::full()), 2 => schedule_strategy()], prop_oneof![1u16..10, 1u16..5000])
        .prop_map(|(src, scripts, sched, cap)| Case { src, scripts, sched, cap })
        .boxed()
}

fn d64_strategy() -> BoxedStrategy<FArchive> {
    (farchive_strategy(1..4, 2_000, true), 0usize..4, any::<bool>())
        .prop_map(|(mut a, i, sig)| {
            let i = i % a.entries.len();
            let e = &mut a.entries[i];
            e.method = codec::DEFLATE64;
            e.dd = if sig { Dd::Sig32 } else { Dd::NoSig32 };
            e.lfh64 = false;
            a
        })
        .boxed()
}

pub struct Layout {
    pub bytes: Vec<u8>,
    /// Position after each entry (including its descriptor).
    pub ends: Vec<u64>,
    pub data: Vec<Vec<u8>>,
    pub names: Vec<Vec<u8>>,
    pub crc_known: Vec<bool>,
}

pub fn layout(s: &Src) -> Result<Layout, String> {
    match s {
        Src::Own(a) => {
            let (bytes, offsets) = crate::props::c02::write_with_offsets(a)?;
            let r = crate::props::c03::parse_written(a, &Rc::new(bytes.clone()))?;
            let mut ends: Vec<u64> = offsets.iter().skip(1).copied().collect();
            if !offsets.is_empty() {
                ends.push(r.cd_offset);
            }
            Ok(Layout {
                ends,
                data: a.entries.iter().map(|e| e.data.bytes()).collect(),
                names: a.entries.iter().map(|e| e.name.text_bytes()).collect(),
                crc_known: a.entries.iter().map(|e| !e.how.is_stream()).collect(),
                bytes,
            })
        }
        Src::Foreign(f) => {
            let b = f.build();
            Ok(Layout {
                ends: b.ends.iter().map(|x| *x as u64).collect(),
                data: f.entries.iter().map(|e| e.data.bytes()).collect(),
                names: f.entries.iter().map(|e| e.name.0.clone()).collect(),
                crc_known: f.entries.iter().map(|e| e.dd == Dd::None || e.lfh_filled).collect(),
                bytes: b.bytes,
            })
        }
    }
}

/// Error with the index of the entry at which the traversal went wrong.
type At = (usize, String);

async fn traverse(l: &Layout, script: &[Act], c: &Case, ctx: &mut Ctx) -> Result<(), At> {
    let reader = SchedReader::new(Rc::new(l.bytes.clone()), c.sched.clone()).with_cap(c.cap as usize);
    let mut z = ZipFileReader::new(reader);
    let n = l.data.len();
    for i in 0..=n {
        let act = &script[i % script.len()];
        macro_rules! step {
            ($rd:expr, $withentry:expr) => {{
                let mut rd = match $rd.map_err(|e| (i, format!("entry {i}: {e}")))? {
                    None if i == n => return Ok(()),
                    None => return Err((i, format!("traversal ends at entry {i} of {n}"))),
                    Some(_) if i == n => return Err((n, "an entry is reported after the last one".into())),
                    Some(rd) => rd,
                };
                let data = &l.data[i];
                let err = |e: std::io::Error| (i, format!("entry {i}: read error {e}"));
                let mut complete = true;
                let mut skip = false;
                match act.what {
                    Do::All | Do::Checked => {
                        let mut got = vec![];
                        loop {
                            let b = read_some(rd.reader_mut(), act.chunk as usize).await.map_err(err)?;
                            if b.is_empty() {
                                break;
                            }
                            got.extend_from_slice(&b);
                        }
                        if &got != data {
                            return Err((i, format!("entry {i}: {}", diff(&got, data))));
                        }
                    }
                    Do::Exact => {
                        let got = read_some(rd.reader_mut(), data.len()).await.map_err(err)?;
                        if &got != data {
                            return Err((i, format!("entry {i}: {}", diff(&got, data))));
                        }
                    }
                    Do::PartSkip(p) | Do::PartDone(p) => {
                        let k = data.len() * p as usize / 1000;
                        let got = read_some(rd.reader_mut(), k).await.map_err(err)?;
                        if got != data[..k] {
                            return Err((i, format!("entry {i}: partial read: {}", diff(&got, &data[..k]))));
                        }
                        complete = k == data.len();
                        skip = matches!(act.what, Do::PartSkip(_));
                    }
                    Do::Skip => skip = true,
                }
                let res = if skip { rd.skip().await } else { rd.done().await };
                match res {
                    Ok(nz) if skip || complete => z = nz,
                    Ok(_) => return Err((i, format!("entry {i}: done succeeds although data is left"))),
                    Err(ZipError::EOFNotReached) if !skip && !complete => {
                        ctx.label("done-refused");
                        return Ok(());
                    }
                    Err(e) => return Err((i, format!("entry {i}: {} (complete: {complete}) fails with {e:?}", if skip { "skip" } else { "done" }))),
                }
            }};
        }
        if act.with && act.what == Do::Checked && i < n && l.crc_known[i] {
            let mut rd = match z.next_with_entry().await.map_err(|e| (i, format!("entry {i}: {e}")))? {
                Some(rd) => rd,
                None => return Err((i, format!("traversal ends at entry {i} of {n}"))),
            };
            if rd.reader().entry().filename().as_bytes() != l.names[i] {
                return Err((i, format!("entry {i} has the wrong name")));
            }
            let mut got = vec![];
            rd.reader_mut().read_to_end_checked(&mut got).await.map_err(|e| (i, format!("entry {i}: checked read: {e}")))?;
            if got != l.data[i] {
                return Err((i, format!("entry {i}: {}", diff(&got, &l.data[i]))));
            }
            z = rd.done().await.map_err(|e| (i, format!("entry {i}: done: {e}")))?;
        } else if act.with {
            let rd = z.next_with_entry().await;
            if let Ok(Some(rd)) = &rd {
                if i < n && rd.reader().entry().filename().as_bytes() != l.names[i] {
                    return Err((i, format!("entry {i} has the wrong name")));
                }
            }
            step!(rd, true);
        } else {
            let rd = z.next_without_entry().await;
            step!(rd, false);
        }
        if act.rewrap {
            let inner = z.into_inner().await;
            let pos = inner.logical_pos();
            if pos != l.ends[i] {
                return Err((i, format!("after entry {i} the source stands at {pos} instead of {}", l.ends[i])));
            }
            z = ZipFileReader::new(inner);
        }
    }
    unreachable!()
}

fn note(c: &Case, l: &Layout, ctx: &mut Ctx) {
    ctx.nontrivial_if(l.data.len() >= 2 && c.scripts.iter().flatten().any(|a| !matches!(a.what, Do::All | Do::Checked)));
    ctx.label(format!("entries={}", l.data.len().min(6)));
    for a in c.scripts.iter().flatten() {
        ctx.label(match a.what {
            Do::All => "all",
            Do::Exact => "exact",
            Do::PartSkip(_) => "part-skip",
            Do::PartDone(_) => "part-done",
            Do::Skip => "skip",
            Do::Checked => "checked",
        });
        ctx.label_if(a.rewrap, "rewrap");
    }
    if let Src::Foreign(f) = &c.src {
        for e in &f.entries {
            ctx.label(format!("dd={:?}", e.dd));
        }
        ctx.label_if(f.end64.is_some(), "end64");
    }
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let l = layout(&c.src)?;
    note(c, &l, ctx);
    for s in &c.scripts {
        ctx.sub(1);
        block_on(traverse(&l, s, c, ctx)).map_err(|e| e.1)?;
    }
    Ok(())
}

fn check_d64(c: &Case, ctx: &mut Ctx) -> Check {
    let l = layout(&c.src)?;
    note(c, &l, ctx);
    let Src::Foreign(f) = &c.src else { unreachable!() };
    for s in &c.scripts {
        ctx.sub(1);
        if let Err((i, e)) = block_on(traverse(&l, s, c, ctx)) {
            if f.entries.iter().take(i + 1).any(|x| x.method == codec::DEFLATE64 && x.dd != Dd::None) {
                ctx.known("F4", &e)?;
            } else {
                return Err(e);
            }
        }
    }
    Ok(())
}
