//! C07: checked reads never accept data that fails its CRC.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::error::ZipError;
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        rule: "archives with an intact or corrupted entry (CRC field, data bytes, recorded sizes), read through the in-memory, seek and streaming readers with random earlier partial reads, then a checked read to bytes or string; success is compared with an independent CRC-32 over everything delivered; non-trivial = corrupted, or partially read before the checked read",
        assumptions: &["compute_hash resets the running hash, so it is called once per reader", "a checked read to a string is only required to succeed if the remaining data is valid UTF-8"],
        parts: || {
            vec![
                part("intact", 56_000, 448_000, strategy(6_000, false), check),
                part("corrupt", 96_000, 768_000, strategy(3_000, true), check),
                part("corrupt-small", 160_000, 1_280_000, strategy(48, true), check),
                part("large", 1_200, 9_600, strategy(300_000, true), check),
                part("hash", 56_000, 448_000, (farchive_strategy(1..3, 20_000, true), proptest::collection::vec(reads(), 0..6), any::<bool>(), schedule_strategy(), 1u16..6000).prop_map(|(a, reads, to_end, sched, cap)| HashCase { a, reads, to_end, sched, cap }), check_hash),
            ]
        },
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Corrupt {
    None,
    /// Recorded CRC (central and local) xor this.
    Crc(u32),
    /// One byte of the compressed data xor this (position in permille).
    Data(u16, u8),
    /// Two equal-distance bytes swapped.
    Swap(u16, u16),
    /// Recorded compressed size changed.
    CSize(i16),
    /// Recorded uncompressed size changed (must not matter to the CRC).
    USize(i16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: FArchive,
    pick: u8,
    corrupt: Corrupt,
    reads: Vec<u16>,
    string: bool,
    prefill: u8,
    sched: Schedule,
    cap: u16,
}

fn reads() -> BoxedStrategy<u16> {
    prop_oneof![1 => Just(0u16), 4 => 1u16..8, 3 => 1u16..300, 2 => 1u16..9000].boxed()
}

fn strategy(max: u32, corrupt: bool) -> BoxedStrategy<Case> {
    let cor = if corrupt {
        prop_oneof![
            3 => prop_oneof![(0u32..32).prop_map(|b| 1 << b), 1u32..].prop_map(Corrupt::Crc),
            6 => (0u16..1000, prop_oneof![(0u32..8).prop_map(|b| 1u8 << b), 1u8..]).prop_map(|(p, x)| Corrupt::Data(p, x)),
            1 => (0u16..1000, 0u16..1000).prop_map(|(a, b)| Corrupt::Swap(a, b)),
            2 => (-9i16..10).prop_map(Corrupt::CSize),
            1 => (-9i16..10).prop_map(Corrupt::USize),
        ]
        .boxed()
    } else {
        Just(Corrupt::None).boxed()
    };
    let a = farchive_strategy(1..4, max, true).prop_map(|mut a| {
        for e in &mut a.entries {
            e.lfh_extra.clear();
            e.cd_extra.clear();
        }
        a
    });
    (a, any::<u8>(), cor, proptest::collection::vec(reads(), 0..4), any::<bool>(), 0u8..20, prop_oneof![1 => Just(Schedule::full()), 1 => schedule_strategy()], 1u16..6000)
        .prop_map(|(a, pick, corrupt, reads, string, prefill, sched, cap)| Case { a, pick, corrupt, reads, string, prefill, sched, cap })
        .boxed()
}

struct Out {
    /// Everything delivered by the partial reads and (on success) the checked read.
    delivered: Vec<u8>,
    result: Result<(), ZipError>,
    recorded: u32,
}

async fn checked<R: AsyncBufRead + Unpin>(er: &mut ZipEntryReader<'_, R, WithEntry<'_>>, c: &Case) -> Result<Out, String> {
    let recorded = er.entry().crc32();
    let mut delivered = vec![];
    for n in &c.reads {
        let mut b = vec![0; *n as usize];
        match er.read(&mut b).await {
            Ok(k) => delivered.extend_from_slice(&b[..k]),
            Err(e) => return Ok(Out { delivered, result: Err(e.into()), recorded }),
        }
    }
    // Only the read to bytes appends; the read to a string is given an empty one.
    let prefix = if c.string { String::new() } else { "x".repeat(c.prefill as usize) };
    let (res, buf) = if c.string {
        let mut s = prefix.clone();
        let r = er.read_to_string_checked(&mut s).await;
        (r, s.into_bytes())
    } else {
        let mut v = prefix.clone().into_bytes();
        let r = er.read_to_end_checked(&mut v).await;
        (r, v)
    };
    match res {
        Ok(n) => {
            if !buf.starts_with(prefix.as_bytes()) {
                return Err("checked read does not append: the previous contents of the buffer are gone".into());
            }
            let new = &buf[prefix.len()..];
            if n != new.len() {
                return Err(format!("checked read returns {n} but appends {} bytes", new.len()));
            }
            delivered.extend_from_slice(new);
            Ok(Out { delivered, result: Ok(()), recorded })
        }
        Err(e) => Ok(Out { delivered, result: Err(e), recorded }),
    }
}

async fn plain<R: AsyncBufRead + Unpin>(er: &mut ZipEntryReader<'_, R, WithoutEntry>) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    er.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
    Ok(v)
}

fn damaged(c: &Case) -> bool {
    let e = &c.a.entries[c.pick as usize % c.a.entries.len()];
    e.method != 0 && matches!(c.corrupt, Corrupt::Data(..) | Corrupt::Swap(..) | Corrupt::CSize(_))
}

fn judge(who: &str, c: &Case, out: Result<Out, String>, full: &Result<Vec<u8>, String>, intact: Option<&[u8]>, ctx: &mut Ctx) -> Check {
    let out = out.map_err(|e| format!("{who}: {e}"))?;
    match &out.result {
        Ok(()) => {
            let crc = crc32(&out.delivered);
            if crc != out.recorded {
                return Err(format!("{who}: checked read succeeds although the data has CRC {crc:08x} and the entry records {:08x}", out.recorded));
            }
            // How early a decoder notices damage to its input depends on how that input is split.
            match full {
                _ if damaged(c) => {}
                Ok(f) if *f == out.delivered => {}
                Ok(f) => return Err(format!("{who}: checked read is not the complete data: {}", diff(&out.delivered, f))),
                Err(e) => return Err(format!("{who}: checked read succeeds where a plain read fails with {e}")),
            }
            ctx.label("accepted");
        }
        Err(e) => {
            ctx.label(if matches!(e, ZipError::CRC32CheckError) { "crc-error" } else { "other-error" });
            if let (Ok(f), false) = (full, damaged(c)) {
                let rest = f.get(out.delivered.len()..).unwrap_or(&[]);
                let textual = !c.string || std::str::from_utf8(rest).is_ok();
                if textual && crc32(f) == out.recorded {
                    return Err(format!("{who}: checked read of good data fails with {e:?}"));
                }
                if textual && !matches!(e, ZipError::CRC32CheckError) {
                    return Err(format!("{who}: readable data with a wrong CRC is reported as {e:?}"));
                }
            }
            if let Some(want) = intact {
                let textual = !c.string || std::str::from_utf8(want.get(out.delivered.len()..).unwrap_or(&[])).is_ok();
                if textual && out.recorded == crc32(want) {
                    return Err(format!("{who}: checked read of an intact entry fails with {e:?}"));
                }
            }
        }
    }
    Ok(())
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let b = c.a.build();
    let i = c.pick as usize % c.a.entries.len();
    let e = &c.a.entries[i];
    let mut bytes = b.bytes.clone();
    let (lfh, cd) = (b.offsets[i] as usize, b.cd_record_offsets[i]);
    let (s, t) = b.data_ranges[i];
    let put32 = |bytes: &mut Vec<u8>, at: usize, f: &dyn Fn(u32) -> u32| {
        let v = u32::from_le_bytes(bytes[at..at + 4].try_into().unwrap());
        bytes[at..at + 4].copy_from_slice(&f(v).to_le_bytes());
    };
    let mut corrupted = true;
    match c.corrupt {
        Corrupt::None => corrupted = false,
        Corrupt::Crc(x) => {
            put32(&mut bytes, cd + 16, &|v| v ^ x);
            put32(&mut bytes, lfh + 14, &|v| v ^ x);
        }
        Corrupt::Data(p, x) if t > s => bytes[s + (t - s) * p as usize / 1000] ^= x,
        Corrupt::Swap(p, q) if t > s => bytes.swap(s + (t - s) * p as usize / 1000, s + (t - s) * q as usize / 1000),
        Corrupt::CSize(d) => {
            if e.cd64 & 2 == 0 {
                put32(&mut bytes, cd + 20, &|v| v.wrapping_add_signed(d as i32));
            }
            if !e.lfh64 {
                put32(&mut bytes, lfh + 18, &|v| v.wrapping_add_signed(d as i32));
            }
        }
        Corrupt::USize(d) => {
            if e.cd64 & 1 == 0 {
                put32(&mut bytes, cd + 24, &|v| v.wrapping_add_signed(d as i32));
            }
        }
        _ => corrupted = false,
    }
    let corrupted = corrupted && bytes != b.bytes;
    ctx.nontrivial_if(corrupted || c.reads.iter().any(|r| *r > 0));
    ctx.label(format!("{:?}", c.corrupt).split('(').next().unwrap().to_string());
    ctx.label(format!("method={}", e.method));
    ctx.label_if(c.string, "string");
    let data = e.data.bytes();
    let intact = if corrupted { None } else { Some(&data[..]) };
    // Directory order equals file order in these archives.
    let rc = Rc::new(bytes.clone());
    let big = data.len() > 100_000;
    let src = || if big { SchedReader::new(rc.clone(), Schedule::full()).with_cap(c.cap as usize + 500) } else { SchedReader::new(rc.clone(), c.sched.clone()).with_cap(c.cap as usize) };
    let r = block_on(mem::ZipFileReader::new(bytes.clone())).map_err(|e| format!("mem: {e}"))?;
    let full = block_on(async {
        match r.reader_without_entry(i).await {
            Ok(mut er) => plain(&mut er).await,
            Err(e) => Err(e.to_string()),
        }
    });
    if let Some(want) = intact {
        if full.as_deref() != Ok(want) {
            return Err(format!("plain read of an intact entry: {:?}", full.as_ref().map(|f| diff(f, want))));
        }
    }
    if let Ok(mut er) = block_on(r.reader_with_entry(i)) {
        judge("mem", c, block_on(checked(&mut er, c)), &full, intact, ctx)?;
    }
    if let Ok(mut z) = block_on(seek::ZipFileReader::new(src())) {
        if let Ok(mut er) = block_on(z.reader_with_entry(i)) {
            judge("seek", c, block_on(checked(&mut er, c)), &full, intact, ctx)?;
        };
    }
    // Streaming: skip to the entry twice, once for the plain reference and once for the checked read.
    let reach = || async {
        let mut z = stream::ZipFileReader::new(src());
        for _ in 0..i {
            z = z.next_without_entry().await.ok()??.skip().await.ok()?;
        }
        Some(z)
    };
    let sfull = block_on(async {
        let mut rd = reach().await?.next_without_entry().await.ok()??;
        Some(plain(rd.reader_mut()).await)
    });
    if let Some(sfull) = sfull {
        let out = block_on(async {
            let mut rd = reach().await?.next_with_entry().await.ok()??;
            Some(checked(rd.reader_mut(), c).await)
        });
        let Some(out) = out else { return Err("stream: entry reachable without but not with entry".into()) };
        let known = e.dd == Dd::None || e.lfh_filled;
        judge("stream", c, out, &sfull, if known { intact } else { None }, ctx)?;
    } else if intact.is_some() {
        return Err("stream: intact entry cannot be reached".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HashCase {
    a: FArchive,
    reads: Vec<u16>,
    to_end: bool,
    sched: Schedule,
    cap: u16,
}

async fn hash_of<R: AsyncBufRead + Unpin, E>(er: &mut ZipEntryReader<'_, R, E>, c: &HashCase, data: &[u8]) -> Check {
    let mut got = vec![];
    for n in &c.reads {
        got.extend(read_some(er, *n as usize).await.map_err(|e| e.to_string())?);
    }
    if c.to_end {
        er.read_to_end(&mut got).await.map_err(|e| e.to_string())?;
    }
    if !data.starts_with(&got) || (c.to_end && got.len() != data.len()) {
        return Err(format!("delivered data: {}", diff(&got, data)));
    }
    let h = er.compute_hash();
    if h != crc32(&got) {
        return Err(format!("running hash {h:08x} after {} of {} bytes, CRC-32 of the delivered bytes is {:08x}", got.len(), data.len(), crc32(&got)));
    }
    Ok(())
}

fn check_hash(c: &HashCase, ctx: &mut Ctx) -> Check {
    let b = c.a.build();
    ctx.nontrivial_if(c.reads.len() > 1);
    let rc = Rc::new(b.bytes.clone());
    let m = open_mem(b.bytes.clone()).map_err(|e| e.to_string())?;
    for (i, e) in c.a.entries.iter().enumerate() {
        let data = e.data.bytes();
        block_on(async {
            hash_of(&mut m.reader_without_entry(i).await.map_err(|e| e.to_string())?, c, &data).await?;
            let mut z = seek::ZipFileReader::new(SchedReader::new(rc.clone(), c.sched.clone()).with_cap(c.cap as usize)).await.map_err(|e| e.to_string())?;
            hash_of(&mut z.reader_with_entry(i).await.map_err(|e| e.to_string())?, c, &data).await
        })
        .map_err(|m| format!("entry {i}: {m}"))?;
        if i == 0 {
            block_on(async {
                let z = stream::ZipFileReader::new(SchedReader::new(rc.clone(), c.sched.clone()).with_cap(c.cap as usize));
                let Some(mut rd) = z.next_without_entry().await.map_err(|e| e.to_string())? else { return Err("no entry".into()) };
                hash_of(rd.reader_mut(), c, &data).await
            })
            .map_err(|m| format!("streamed entry: {m}"))?;
        }
    }
    Ok(())
}
