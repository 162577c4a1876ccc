//! C13: entry readers are independent of each other and of history.

use crate::engine::*;
use crate::exec::{block_on, Poller};
use crate::foreign::farchive_strategy;
use crate::model::*;
use crate::props::c06::Src;
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{mem, seek, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::error::ZipError;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncReadExt, AsyncSeekExt, Cursor, SeekFrom};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use std::task::Poll;

pub fn property() -> Property {
    Property {
        id: "C13",
        level: "exploration",
        rule: "random histories of open (any index, also out of bounds, with or without entry, on the reader or a clone), partial read, checked read of the rest, abandonment and cancellation over several simultaneously open entry readers; every read is compared with the independently known content at the model's position; non-trivial = at least two readers open at once (or, for the seek reader, an entry opened after another was left half read)",
        assumptions: &["the archive does not change while it is read", "threads: sampled interleavings of real threads"],
        parts: || {
            vec![
                part("mem", 60_000, 200_000, (src(4_000), proptest::collection::vec(op(), 1..28)), check_mem),
                part("seek", 60_000, 200_000, (src(4_000), proptest::collection::vec(use_(), 1..10), schedule_strategy(), prop_oneof![2 => 1u16..64, 1 => 64u16..9000]), check_seek),
                part("seek-clones", 30_000, 100_000, (src(4_000), proptest::collection::vec(op(), 1..28)), check_clones),
                part("fs", 14_000, 60_000, (src(30_000), proptest::collection::vec(op(), 1..24)), check_fs),
                part("mem-big", 3_600, 24_000, (big_src(), proptest::collection::vec(op(), 1..28)), check_mem),
                part("seek-big", 3_600, 24_000, (big_src(), proptest::collection::vec(use_(), 1..10), schedule_strategy(), prop_oneof![64u16..9000]), check_seek),
                part("threads", 1_500, 6_000, (src(40_000), proptest::collection::vec(proptest::collection::vec((any::<u16>(), any::<bool>(), 1u16..9000), 1..8), 2..5)), check_threads),
            ]
        },
    }
}

fn src(max: u32) -> BoxedStrategy<Src> {
    prop_oneof![
        archive_strategy_with(entry_strategy_with(light_method_strategy(), max), 0..6).prop_map(Src::Own),
        farchive_strategy(0..6, max, false).prop_map(Src::Foreign),
    ]
    .boxed()
}

pub fn big_src() -> BoxedStrategy<Src> {
    prop_oneof![
        3 => archive_strategy_with(entry_strategy_with(light_method_strategy(), 300_000), 1..4).prop_map(Src::Own),
        3 => farchive_strategy(1..4, 300_000, false).prop_map(Src::Foreign),
        2 => crate::foreign::many_farchive_strategy(false).prop_map(Src::Foreign),
        2 => crate::foreign::long_farchive_strategy(false, 65_535).prop_map(Src::Foreign),
    ]
    .boxed()
}

/// The archive and the contents of its entries in directory order.
fn materialise(s: &Src) -> Result<(Vec<u8>, Vec<Vec<u8>>), String> {
    Ok(match s {
        Src::Own(a) => (write_mem(a)?, a.entries.iter().map(|e| e.data.bytes()).collect()),
        Src::Foreign(f) => {
            let b = f.build();
            let c = b.cd_order.iter().map(|i| f.entries[*i].data.bytes()).collect();
            (b.bytes, c)
        }
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Open { slot: u8, clone: bool, index: u16, with: bool },
    Read { slot: u8, n: u16 },
    /// Polls a read once and abandons it if it is not ready.
    Poke { slot: u8, n: u16 },
    Rest { slot: u8 },
    Close { slot: u8 },
}

const SLOTS: usize = 5;

fn op() -> impl Strategy<Value = Op> {
    let slot = 0u8..SLOTS as u8;
    let n = prop_oneof![3 => 1u16..40, 2 => 1u16..3000, 1 => Just(0u16)];
    prop_oneof![
        5 => (slot.clone(), any::<bool>(), any::<u16>(), any::<bool>()).prop_map(|(slot, clone, index, with)| Op::Open { slot, clone, index, with }),
        6 => (slot.clone(), n.clone()).prop_map(|(slot, n)| Op::Read { slot, n }),
        2 => (slot.clone(), n).prop_map(|(slot, n)| Op::Poke { slot, n }),
        2 => slot.clone().prop_map(|slot| Op::Rest { slot }),
        1 => slot.prop_map(|slot| Op::Close { slot }),
    ]
}

/// Mostly valid indices; now and then one out of bounds.
fn pick(index: u16, n: usize) -> usize {
    match index % 16 {
        0 => n,
        1 => n + (index as usize >> 4),
        2 if index > 40_000 => usize::MAX,
        _ if n == 0 => 0,
        _ => (index as usize >> 4) % n,
    }
}

enum Er<'a, R> {
    With(ZipEntryReader<'a, R, WithEntry<'a>>),
    Without(ZipEntryReader<'a, R, WithoutEntry>),
}

struct Slot<'a, R> {
    er: Er<'a, R>,
    index: usize,
    pos: usize,
}

impl<R: AsyncBufRead + Unpin> Slot<'_, R> {
    fn took(&mut self, want: &[u8], got: &[u8], asked: usize) -> Check {
        let left = &want[self.pos..];
        if got.len() > left.len() || got != &left[..got.len()] {
            return Err(format!("reader of entry {} delivered other bytes at position {}: {}", self.index, self.pos, diff(&left[..left.len().min(got.len())], got)));
        }
        if got.is_empty() && asked > 0 && !left.is_empty() {
            return Err(format!("reader of entry {} ended at {} of {}", self.index, self.pos, want.len()));
        }
        self.pos += got.len();
        Ok(())
    }

    async fn read(&mut self, want: &[u8], n: usize) -> Check {
        let mut buf = vec![0; n];
        let r = match &mut self.er {
            Er::With(e) => e.read(&mut buf).await,
            Er::Without(e) => e.read(&mut buf).await,
        };
        let k = r.map_err(|e| format!("reader of entry {} failed at {}: {e}", self.index, self.pos))?;
        self.took(want, &buf[..k], n)
    }

    async fn poke(&mut self, want: &[u8], n: usize) -> Result<bool, String> {
        let mut buf = vec![0; n];
        let r = match &mut self.er {
            Er::With(e) => futures_lite::future::poll_once(e.read(&mut buf)).await,
            Er::Without(e) => futures_lite::future::poll_once(e.read(&mut buf)).await,
        };
        match r {
            None => Ok(true),
            Some(r) => {
                let k = r.map_err(|e| format!("reader of entry {} failed at {}: {e}", self.index, self.pos))?;
                self.took(want, &buf[..k], n).map(|_| false)
            }
        }
    }

    async fn rest(&mut self, want: &[u8]) -> Check {
        let mut v = vec![];
        match &mut self.er {
            Er::With(e) => {
                let n = e.read_to_end_checked(&mut v).await.map_err(|e| format!("checked read of entry {} from {}: {e}", self.index, self.pos))?;
                if n != v.len() {
                    return Err(format!("checked read returned {n} for {} bytes", v.len()));
                }
            }
            Er::Without(e) => {
                e.read_to_end(&mut v).await.map_err(|e| format!("reading the rest of entry {} from {}: {e}", self.index, self.pos))?;
                let h = e.compute_hash();
                if h != crate::data::crc32(want) {
                    return Err(format!("hash of entry {} read in parts is {h:08x}", self.index));
                }
            }
        }
        if v != want[self.pos..] {
            return Err(format!("rest of entry {} from {}: {}", self.index, self.pos, diff(&want[self.pos..], &v)));
        }
        self.pos = want.len();
        Ok(())
    }
}

/// Runs a history against an opener; `None` from the opener's result means out of bounds.
async fn history<'a, R, O, F>(ops: &[Op], want: &[Vec<u8>], ctx: &mut Ctx, open: O) -> Check
where
    R: AsyncBufRead + Unpin + 'a,
    O: Fn(bool, usize, bool) -> F,
    F: std::future::Future<Output = Result<Er<'a, R>, ZipError>>,
{
    let mut slots: Vec<Option<Slot<'a, R>>> = (0..SLOTS).map(|_| None).collect();
    // A slot whose checked read completed has had its hash reset; it is only read for end of file afterwards.
    let mut finished = [false; SLOTS];
    for o in ops {
        match o {
            Op::Open { slot, clone, index, with } => {
                let i = pick(*index, want.len());
                let r = open(*clone, i, *with).await;
                if i >= want.len() {
                    ctx.label("out-of-bounds");
                    match r {
                        Err(ZipError::EntryIndexOutOfBounds) => continue,
                        Err(e) => return Err(format!("index {i} of {} entries: {e} instead of out of bounds", want.len())),
                        Ok(_) => return Err(format!("index {i} of {} entries was opened", want.len())),
                    }
                }
                let er = r.map_err(|e| format!("opening entry {i}: {e}"))?;
                let s = *slot as usize;
                ctx.label_if(slots[s].as_ref().is_some_and(|s| s.pos > 0 && s.pos < want[s.index].len()), "abandoned-halfway");
                slots[s] = Some(Slot { er, index: i, pos: 0 });
                finished[s] = false;
                let open_now: Vec<usize> = slots.iter().flatten().map(|s| s.index).collect();
                ctx.nontrivial_if(open_now.len() >= 2 && open_now.iter().any(|i| !want[*i].is_empty()));
                ctx.label_if(open_now.len() >= 3, "open>=3");
                ctx.label_if((1..open_now.len()).any(|k| open_now[..k].contains(&open_now[k])), "same-entry-twice");
            }
            Op::Read { slot, n } => {
                if let Some(s) = &mut slots[*slot as usize] {
                    let i = s.index;
                    s.read(&want[i], *n as usize).await?;
                }
            }
            Op::Poke { slot, n } => {
                if let Some(s) = &mut slots[*slot as usize] {
                    let i = s.index;
                    if s.poke(&want[i], *n as usize).await? {
                        ctx.label("cancelled-read");
                    }
                }
            }
            Op::Rest { slot } => {
                let k = *slot as usize;
                if finished[k] {
                    continue;
                }
                if let Some(s) = &mut slots[k] {
                    let i = s.index;
                    s.rest(&want[i]).await?;
                    finished[k] = true;
                }
            }
            Op::Close { slot } => slots[*slot as usize] = None,
        }
    }
    for (k, s) in slots.iter_mut().enumerate() {
        if let (Some(s), false) = (s, finished[k]) {
            let i = s.index;
            s.rest(&want[i]).await?;
        }
    }
    Ok(())
}

fn check_mem((s, ops): &(Src, Vec<Op>), ctx: &mut Ctx) -> Check {
    let (bytes, want) = materialise(s)?;
    let r = open_mem(bytes).map_err(|e| format!("opening: {e}"))?;
    let c = r.clone();
    let pair = [r, c];
    let pair = &pair;
    block_on(history(ops, &want, ctx, |clone, i, with| async move {
        let r: &mem::ZipFileReader = &pair[clone as usize];
        Ok(if with { Er::With(r.reader_with_entry(i).await?) } else { Er::Without(r.reader_without_entry(i).await?) })
    }))
}

fn check_clones((s, ops): &(Src, Vec<Op>), ctx: &mut Ctx) -> Check {
    let (bytes, want) = materialise(s)?;
    let mut r = block_on(seek::ZipFileReader::new(Cursor::new(&bytes[..]))).map_err(|e| format!("opening: {e}"))?;
    // One of the two originals has been used, so its clones start wherever that left the source.
    let fresh = r.clone();
    if !want.is_empty() {
        let mut er = block_on(r.reader_without_entry(want.len() - 1)).map_err(|e| format!("opening: {e}"))?;
        block_on(er.read(&mut [0; 5])).map_err(|e| format!("reading: {e}"))?;
    }
    let pair = [fresh, r];
    let pair = &pair;
    block_on(history(ops, &want, ctx, |clone, i, _| async move { Ok(Er::Without(pair[clone as usize].clone().into_entry(i).await?)) }))
}

fn check_fs((s, ops): &(Src, Vec<Op>), ctx: &mut Ctx) -> Check {
    let (bytes, want) = materialise(s)?;
    let dir = Scratch::new();
    let p = dir.file("a.zip", &bytes);
    on_tokio(async {
        let r = fs::ZipFileReader::new(&p).await.map_err(|e| format!("opening: {e}"))?;
        let c = r.clone();
        let pair = [r, c];
        let pair = &pair;
        history(ops, &want, ctx, |clone, i, with| async move {
            let r = &pair[clone as usize];
            Ok(if with { Er::With(r.reader_with_entry(i).await?) } else { Er::Without(r.reader_without_entry(i).await?) })
        })
        .await
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Use {
    index: u16,
    with: bool,
    /// Abandon the open after this many polls.
    cancel: Option<u8>,
    reads: Vec<u16>,
    /// Read the rest (checked if possible).
    rest: bool,
    /// Abandon a read after one poll at the end.
    poke: bool,
    /// Afterwards move the source somewhere else.
    displace: Option<u16>,
}

fn use_() -> impl Strategy<Value = Use> {
    (
        (any::<u16>(), any::<bool>(), proptest::option::weighted(0.2, 0u8..9)),
        (proptest::collection::vec(prop_oneof![1u16..30, 1u16..3000], 0..4), any::<bool>(), proptest::bool::weighted(0.3), proptest::option::weighted(0.2, any::<u16>())),
    )
        .prop_map(|((index, with, cancel), (reads, rest, poke, displace))| Use { index, with, cancel, reads, rest, poke, displace })
}

fn check_seek((s, uses, sched, cap): &(Src, Vec<Use>, Schedule, u16), ctx: &mut Ctx) -> Check {
    let (bytes, want) = materialise(s)?;
    let bytes = Rc::new(bytes);
    let mut r = block_on(seek::ZipFileReader::new(SchedReader::new(bytes.clone(), sched.clone()).with_cap(*cap as usize))).map_err(|e| format!("opening: {e}"))?;
    let mut left_open = false;
    for u in uses {
        let i = pick(u.index, want.len());
        if let Some(k) = u.cancel {
            let mut f = Box::pin(r.reader_without_entry(i));
            let p = Poller::new();
            let mut ready = false;
            for _ in 0..k {
                if let Poll::Ready(x) = p.poll(f.as_mut()) {
                    ready = true;
                    if x.is_ok() != (i < want.len()) {
                        return Err(format!("opening index {i} of {}: {:?}", want.len(), x.err().map(|e| errkey(&e))));
                    }
                    break;
                }
            }
            ctx.label_if(!ready && k > 0, "cancelled-open");
            drop(f);
            continue;
        }
        let er = block_on(async { Ok(if u.with { Er::With(r.reader_with_entry(i).await?) } else { Er::Without(r.reader_without_entry(i).await?) }) });
        if i >= want.len() {
            ctx.label("out-of-bounds");
            match er {
                Err(ZipError::EntryIndexOutOfBounds) => continue,
                Err(e) => return Err(format!("index {i} of {} entries: {e} instead of out of bounds", want.len())),
                Ok(_) => return Err(format!("index {i} of {} entries was opened", want.len())),
            }
        }
        ctx.nontrivial_if(left_open && !want[i].is_empty());
        let mut slot = Slot { er: er.map_err(|e| format!("opening entry {i}: {e}"))?, index: i, pos: 0 };
        for n in &u.reads {
            block_on(slot.read(&want[i], *n as usize))?;
        }
        if u.poke {
            ctx.label_if(block_on(slot.poke(&want[i], 64))?, "cancelled-read");
        }
        if u.rest {
            block_on(slot.rest(&want[i]))?;
        }
        left_open = slot.pos < want[i].len();
        drop(slot);
        if let Some(d) = u.displace {
            let to = d as u64 % (bytes.len() as u64 + 50);
            block_on(r.inner_mut().seek(SeekFrom::Start(to))).map_err(|e| e.to_string())?;
            ctx.label("displaced");
        }
    }
    // The last open consumes the reader, or the source is taken out and everything is read anew.
    match uses.last() {
        Some(u) if u.with && !want.is_empty() => {
            let i = u.index as usize % want.len();
            let er = block_on(r.into_entry(i)).map_err(|e| format!("into_entry({i}): {e}"))?;
            block_on(Slot { er: Er::Without(er), index: i, pos: 0 }.rest(&want[i]))
        }
        _ => {
            let file = r.file().clone();
            let mut r = seek::ZipFileReader::from_raw_parts(r.into_inner(), file);
            for (i, w) in want.iter().enumerate().rev() {
                let er = block_on(r.reader_with_entry(i)).map_err(|e| format!("opening entry {i}: {e}"))?;
                block_on(Slot { er: Er::With(er), index: i, pos: 0 }.rest(w))?;
            }
            Ok(())
        }
    }
}

fn check_threads((s, jobs): &(Src, Vec<Vec<(u16, bool, u16)>>), ctx: &mut Ctx) -> Check {
    let (bytes, want) = materialise(s)?;
    if want.is_empty() {
        return Ok(());
    }
    let dir = Scratch::new();
    let p = dir.file("a.zip", &bytes);
    let m = open_mem(bytes).map_err(|e| format!("opening: {e}"))?;
    let f = on_tokio(fs::ZipFileReader::new(&p)).map_err(|e| format!("opening the file: {e}"))?;
    ctx.nontrivial_if(want.iter().any(|w| w.len() > 100));
    let want = &want;
    // A reader started on this thread and continued on another.
    let (i0, _, n0) = jobs[0][0];
    let i0 = i0 as usize % want.len();
    let mut head = Slot { er: Er::With(block_on(m.reader_with_entry(i0)).map_err(|e| e.to_string())?), index: i0, pos: 0 };
    block_on(head.read(&want[i0], n0 as usize))?;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for job in jobs {
            let (m, f) = (m.clone(), f.clone());
            hs.push(sc.spawn(move || -> Check {
                for (k, (i, with, n)) in job.iter().enumerate() {
                    let i = *i as usize % want.len();
                    let n = *n as usize;
                    if k % 2 == 0 {
                        block_on(async {
                            let er = if *with { Er::With(m.reader_with_entry(i).await.map_err(|e| e.to_string())?) } else { Er::Without(m.reader_without_entry(i).await.map_err(|e| e.to_string())?) };
                            drain(Slot { er, index: i, pos: 0 }, want, n).await
                        })?;
                    } else {
                        on_tokio(async {
                            let er = if *with { Er::With(f.reader_with_entry(i).await.map_err(|e| e.to_string())?) } else { Er::Without(f.reader_without_entry(i).await.map_err(|e| e.to_string())?) };
                            drain(Slot { er, index: i, pos: 0 }, want, n).await
                        })?;
                    }
                }
                Ok(())
            }));
        }
        let handed = sc.spawn(move || block_on(head.rest(&want[i0])));
        let mut out = handed.join().unwrap_or_else(|_| Err("panic in a reading thread".into()));
        for h in hs {
            let r = h.join().unwrap_or_else(|_| Err("panic in a reading thread".into()));
            out = out.and(r);
        }
        out
    })
}

async fn drain<R: AsyncBufRead + Unpin>(mut s: Slot<'_, R>, want: &[Vec<u8>], n: usize) -> Check {
    let w = &want[s.index];
    for _ in 0..6 {
        s.read(w, n).await?;
    }
    s.rest(w).await
}
