//! C12: ZIP64 takes over exactly at the classic limits, or is refused.

use crate::codec;
use crate::data::crc32;
use crate::engine::*;
use crate::exec::block_on;
use crate::model::{set_mode, zip64_strategy, Zip64Mode};
use crate::refzip::{self, DdForm};
use crate::sio::{SchedReader, SchedWriter, Schedule, Storage};
use crate::sparse::{crc_of_map, map, Sparse};
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::{Zip64ErrorCase, ZipError};
use async_zip::{Compression, ZipEntryBuilder, ZipString, StringEncoding};
use futures_lite::io::{AsyncReadExt, AsyncWriteExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn property() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        rule: "histories on sparse virtual storage whose sizes, header offsets, directory offset, directory size and entry count lie around 2^32-1 and 2^16-1, in every ZIP64 mode; non-trivial: at least one such value is within 64 of its limit or beyond it",
        assumptions: &["a value exactly at 0xFFFFFFFF with ZIP64 forbidden may be refused or written classically, if it reads back exactly", "sizes of precompressed entries are what the caller claims", "contents of the giant entries are zeros with tags every 256 MiB", "reading back uses the seek reader (and the stream reader for whole entries) over virtual storage"],
        parts: || {
            vec![
                part("history", 5_000, 120_000, history_strategy(), check_history),
                part("count", 160, 1_600, count_strategy(), check_count),
                heavy_part("content", 48, 400, content_strategy(), check_content),
                heavy_part("directory", 2, 8, directory_strategy(), check_directory),
            ]
        },
    }
}

const LIM: u64 = u32::MAX as u64;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Sz {
    Small(u16),
    Lim(i32),
}
impl Sz {
    fn get(&self) -> u64 {
        match self {
            Sz::Small(n) => *n as u64,
            Sz::Lim(d) => (LIM as i64 + *d as i64) as u64,
        }
    }
}

fn near() -> BoxedStrategy<i32> {
    prop_oneof![5 => -2i32..=2, 3 => -64i32..=64, 1 => -100_000i32..100_000].boxed()
}
fn sz() -> BoxedStrategy<Sz> {
    prop_oneof![3 => near().prop_map(Sz::Lim), 2 => (0u16..300).prop_map(Sz::Small)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// A filler such that the next header (or the directory) starts at the limit plus this.
    Fill(i32),
    /// Precompressed entry with these sizes, whole or streamed (in two chunks).
    Big { stream: bool, c: Sz, u: Sz },
    /// An ordinary small entry: whole, stream, whole precompressed, stream precompressed.
    Small { how: u8, deflate: bool, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    mode: Zip64Mode,
    comment: Option<u16>,
    ops: Vec<Op>,
}

fn history_strategy() -> impl Strategy<Value = History> {
    let op = prop_oneof![
        3 => near().prop_map(Op::Fill),
        3 => (any::<bool>(), sz(), sz()).prop_map(|(stream, c, u)| Op::Big { stream, c, u }),
        4 => (0u8..4, any::<bool>(), 0u16..200).prop_map(|(how, deflate, len)| Op::Small { how, deflate, len }),
    ];
    (zip64_strategy(), proptest::option::weighted(0.2, 0u16..80), proptest::collection::vec(op, 0..6))
        .prop_map(|(mode, comment, ops)| History { mode, comment, ops })
}

#[derive(Debug)]
struct Expect {
    name: String,
    stream: bool,
    csize: u64,
    usize_: u64,
    crc: u32,
    offset: u64,
    content: Option<Vec<u8>>,
    /// Compressed bytes are a prefix of the mapping.
    mapped: bool,
}

fn large_file(r: &Result<(), ZipError>) -> bool {
    matches!(r, Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile)))
}

fn check_history(h: &History, ctx: &mut Ctx) -> Check {
    let sink = Sparse::default();
    let mut w = set_mode(ZipFileWriter::new(SchedWriter::new(sink.clone(), Schedule::full())), h.mode);
    let forbid = matches!(h.mode, Zip64Mode::Forbid);
    if let Some(n) = h.comment {
        w.comment("c".repeat(n as usize));
    }
    let mut exp: Vec<Expect> = vec![];
    let mut refused_stream = false;
    let mut streams = false;
    let mut needs_any = false;
    let mut refused = 0;
    for (i, op) in h.ops.iter().enumerate() {
        let name = format!("e{i}");
        let pos = sink.len();
        let (e, r) = match op {
            Op::Fill(d) => {
                let target = (LIM as i64 + *d as i64) as u64;
                // 30 bytes of header, the name, no extra field.
                let Some(n) = target.checked_sub(pos + 30 + name.len() as u64) else { continue };
                let data = &map()[..n as usize];
                let b = ZipEntryBuilder::new(name.clone().into(), Compression::Stored).crc32(7u32).uncompressed_size(n);
                let r = block_on(w.write_entry_whole_precompressed(b, data));
                if r.is_ok() && n < LIM && sink.len() != target {
                    return Err(format!("entry of {n} precompressed bytes took {} bytes instead of {}", sink.len() - pos, target - pos));
                }
                (Expect { name, stream: false, csize: n, usize_: n, crc: 7, offset: pos, content: None, mapped: true }, r)
            }
            Op::Big { stream, c, u } => {
                let (c, u) = (c.get(), u.get());
                let data = &map()[..c as usize];
                let b = ZipEntryBuilder::new(name.clone().into(), Compression::Stored).crc32(9u32).uncompressed_size(u);
                let r = if *stream {
                    streams = true;
                    block_on(async {
                        let mut s = w.write_entry_stream_precompressed(b).await?;
                        let mid = data.len() / 3;
                        s.write_all(&data[..mid]).await?;
                        s.write_all(&data[mid..]).await?;
                        s.close().await
                    })
                } else {
                    block_on(w.write_entry_whole_precompressed(b, data))
                };
                (Expect { name, stream: *stream, csize: c, usize_: u, crc: 9, offset: pos, content: None, mapped: true }, r)
            }
            Op::Small { how, deflate, len } => {
                let data: Vec<u8> = (0..*len).map(|k| (k as u8).wrapping_mul(i as u8 + 3) >> 2).collect();
                let comp = if *deflate { Compression::Deflate } else { Compression::Stored };
                let raw = if *deflate { codec::encode(8, &data, 6) } else { data.clone() };
                let b = ZipEntryBuilder::new(name.clone().into(), comp);
                let pre = ZipEntryBuilder::new(name.clone().into(), comp).crc32(crc32(&data)).uncompressed_size(data.len() as u64);
                streams |= how % 2 == 1;
                let r = block_on(async {
                    match how {
                        0 => w.write_entry_whole(b, &data).await,
                        2 => w.write_entry_whole_precompressed(pre, &raw).await,
                        1 => {
                            let mut s = w.write_entry_stream(b).await?;
                            s.write_all(&data).await?;
                            s.close().await
                        }
                        _ => {
                            let mut s = w.write_entry_stream_precompressed(pre).await?;
                            s.write_all(&raw).await?;
                            s.close().await
                        }
                    }
                });
                let csize = if *how >= 2 || !*deflate { raw.len() as u64 } else { u64::MAX };
                (
                    Expect { name, stream: how % 2 == 1, csize, usize_: data.len() as u64, crc: crc32(&data), offset: pos, content: Some(data), mapped: false },
                    r,
                )
            }
        };
        let c = if e.csize == u64::MAX { 0 } else { e.csize };
        let vals = [c, e.usize_, e.offset];
        ctx.nontrivial_if(vals.iter().any(|v| v.abs_diff(LIM) <= 64 || *v > LIM));
        for v in vals {
            if v.abs_diff(LIM) <= 2 {
                ctx.label(format!("limit{:+}", v as i64 - LIM as i64));
            }
        }
        let beyond = vals.iter().any(|v| *v > LIM);
        let at = vals.iter().any(|v| *v == LIM);
        needs_any |= beyond | at;
        let what = format!("op {i} {op:?} at {pos}");
        if forbid && beyond {
            if !large_file(&r) {
                return Err(format!("{what}: needs ZIP64, which is forbidden, but the result is {r:?}"));
            }
        } else if forbid && at {
            if r.is_err() && !large_file(&r) {
                return Err(format!("{what}: {r:?}"));
            }
        } else if let Err(x) = &r {
            return Err(format!("{what}: refused with {x:?}"));
        }
        if r.is_err() {
            refused += 1;
            refused_stream |= e.stream;
            ctx.label("refused");
        } else {
            exp.push(e);
        }
    }
    let cd_offset = sink.len();
    ctx.nontrivial_if(cd_offset.abs_diff(LIM) <= 64 || cd_offset > LIM);
    ctx.label_if(cd_offset.abs_diff(LIM) <= 2, "directory-at-limit");
    ctx.label(format!("{:?}", h.mode));
    let r = block_on(w.close());
    if forbid && cd_offset > LIM {
        return match r {
            Err(ZipError::Zip64Needed(_)) => Ok(()),
            r => Err(format!("directory at {cd_offset} needs ZIP64, which is forbidden; close: {:?}", r.map(|_| ()))),
        };
    }
    if let Err(x) = &r {
        if forbid && cd_offset == LIM && matches!(x, ZipError::Zip64Needed(_)) {
            return Ok(());
        }
        return Err(format!("close with the directory at {cd_offset}: {x:?}"));
    }
    drop(r);
    // Independent structural judgement.
    let a = refzip::parse(&sink, h.comment.unwrap_or(0) as usize, !refused_stream)?;
    if a.cd_offset != cd_offset {
        return Err(format!("directory recorded at {}, is at {cd_offset}", a.cd_offset));
    }
    if a.entries.len() != exp.len() {
        return Err(format!("{} entries listed, {} written", a.entries.len(), exp.len()));
    }
    for (e, x) in exp.iter().zip(&a.entries) {
        let w = &e.name;
        if x.name != e.name.as_bytes() || e.csize != u64::MAX && x.csize != e.csize || x.usize_ != e.usize_ || x.crc != e.crc || x.offset != e.offset {
            return Err(format!(
                "{w}: recorded name {:?} sizes {}/{} crc {:#x} offset {}, written {e:?}",
                String::from_utf8_lossy(&x.name), x.csize, x.usize_, x.crc, x.offset
            ));
        }
        let needs = x.csize >= LIM || x.usize_ >= LIM || x.offset >= LIM;
        if forbid {
            if x.cd64 || x.lfh64 || x.dd == DdForm::Sig64 {
                return Err(format!("{w}: ZIP64 structures although forbidden"));
            }
        } else if needs && !x.cd64 {
            return Err(format!("{w}: sizes {}/{} offset {} without ZIP64 field", x.csize, x.usize_, x.offset));
        } else if !e.stream && !needs && (x.cd64 || x.lfh64) {
            return Err(format!("{w}: ZIP64 field for sizes {}/{} offset {}", x.csize, x.usize_, x.offset));
        }
    }
    let end_needed = needs_any || cd_offset >= LIM;
    match h.mode {
        Zip64Mode::Forbid if a.zip64_end => return Err("ZIP64 end records although forbidden".into()),
        Zip64Mode::Force if !a.zip64_end => return Err("no ZIP64 end records although forced".into()),
        Zip64Mode::Default if cd_offset > LIM && !a.zip64_end => return Err("no ZIP64 end records for the directory offset".into()),
        Zip64Mode::Default if a.zip64_end && !end_needed && !streams && refused == 0 => return Err("ZIP64 end records without need".into()),
        _ => {}
    }
    // Reading back.
    read_back(&sink, &exp, &a)
}

fn read_back(sink: &Sparse, exp: &[Expect], a: &refzip::RefArchive) -> Check {
    block_on(async {
        let mut r = seek::ZipFileReader::new(SchedReader::new(sink.clone(), Schedule::full())).await.map_err(|e| format!("does not open: {e:?}"))?;
        let n = r.file().entries().len();
        if n != exp.len() {
            return Err(format!("reader lists {n} entries instead of {}", exp.len()));
        }
        if r.file().zip64() != a.zip64_end {
            return Err(format!("zip64() is {}, ZIP64 end records present: {}", r.file().zip64(), a.zip64_end));
        }
        for (i, e) in exp.iter().enumerate() {
            let x = &r.file().entries()[i];
            if x.filename().as_str().ok() != Some(&e.name)
                || x.compressed_size() != a.entries[i].csize
                || x.uncompressed_size() != e.usize_
                || x.crc32() != e.crc
                || x.header_offset() != e.offset
            {
                return Err(format!(
                    "entry {i} reads as {:?} sizes {}/{} crc {:#x} offset {}, written {e:?}",
                    x.filename(),
                    x.compressed_size(),
                    x.uncompressed_size(),
                    x.crc32(),
                    x.header_offset()
                ));
            }
        }
        for (i, e) in exp.iter().enumerate() {
            let mut x = r.reader_with_entry(i).await.map_err(|x| format!("entry {i} ({}): {x:?}", e.name))?;
            if let Some(d) = &e.content {
                let mut out = vec![];
                x.read_to_end_checked(&mut out).await.map_err(|x| format!("entry {i} ({}): {x:?}", e.name))?;
                if out != *d {
                    return Err(format!("entry {i} ({}): content differs", e.name));
                }
            } else if e.mapped {
                let mut out = vec![];
                let k = e.csize.min(100);
                (&mut x).take(k).read_to_end(&mut out).await.map_err(|x| format!("entry {i}: {x:?}"))?;
                if out != map()[..k as usize] {
                    return Err(format!("entry {i} ({}): data starts with other bytes", e.name));
                }
            }
        }
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Count {
    mode: Zip64Mode,
    n: u32,
    /// Every k-th entry is streamed (0: none).
    stream_every: u16,
    stream_last: bool,
}

fn count_strategy() -> impl Strategy<Value = Count> {
    (zip64_strategy(), prop_oneof![8 => 65533u32..=65538, 1 => 65000u32..72000], prop_oneof![3 => Just(0u16), 1 => Just(1), 1 => 2u16..9999], any::<bool>())
        .prop_map(|(mode, n, stream_every, stream_last)| Count { mode, n, stream_every, stream_last })
}

fn check_count(c: &Count, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(c.n >= 65533);
    ctx.label(format!("{:?}", c.mode));
    ctx.label(if c.n <= 65538 { format!("n={}", c.n) } else { "n>65538".into() });
    let forbid = matches!(c.mode, Zip64Mode::Forbid);
    let mut w = set_mode(ZipFileWriter::new(futures_lite::io::Cursor::new(Vec::with_capacity(16 << 20))), c.mode);
    let mut ok: Vec<u32> = vec![];
    let mut streams = false;
    for i in 0..c.n {
        let b = ZipEntryBuilder::new(format!("{i:x}").into(), Compression::Stored);
        let stream = c.stream_every != 0 && i % c.stream_every as u32 == 0 || c.stream_last && i + 1 == c.n;
        streams |= stream;
        let d = (i as u16).to_le_bytes();
        let r = block_on(async {
            if stream {
                let mut s = w.write_entry_stream(b).await?;
                s.write_all(&d).await?;
                s.close().await
            } else {
                w.write_entry_whole(b, &d).await
            }
        });
        match r {
            Ok(()) => ok.push(i),
            Err(ZipError::Zip64Needed(Zip64ErrorCase::TooManyFiles)) if forbid && ok.len() >= 65535 => ctx.label("refused"),
            Err(e) => return Err(format!("entry number {} ({}): {e:?}", i + 1, if stream { "streamed" } else { "whole" })),
        }
        if forbid && ok.len() > 65535 {
            return Err(format!("{} entries accepted with ZIP64 forbidden", ok.len()));
        }
    }
    let bytes = block_on(w.close()).map_err(|e| format!("close: {e:?}"))?.into_inner();
    let tile = !(forbid && c.n > 65535 && streams);
    let bytes = std::rc::Rc::new(bytes);
    let a = refzip::parse(&bytes, 0, tile)?;
    if a.entries.len() != ok.len() {
        return Err(format!("{} entries recorded, {} written", a.entries.len(), ok.len()));
    }
    let want64 = match c.mode {
        Zip64Mode::Forbid => Some(false),
        Zip64Mode::Force => Some(true),
        Zip64Mode::Default if ok.len() > 65535 => Some(true),
        Zip64Mode::Default if ok.len() < 65535 && !streams => Some(false),
        _ => None,
    };
    if want64.is_some_and(|x| x != a.zip64_end) {
        return Err(format!("{} entries, mode {:?}: ZIP64 end records present: {}", ok.len(), c.mode, a.zip64_end));
    }
    if ok.len() > 65535 && a.raw_end.0 != u16::MAX {
        return Err(format!("classic count is {} for {} entries", a.raw_end.0, ok.len()));
    }
    let r = block_on(mem::ZipFileReader::new(std::rc::Rc::try_unwrap(bytes).unwrap())).map_err(|e| format!("does not open: {e:?}"))?;
    let es = r.file().entries();
    if es.len() != ok.len() {
        return Err(format!("reader lists {} entries, {} written", es.len(), ok.len()));
    }
    for (k, i) in ok.iter().enumerate() {
        let name = format!("{i:x}");
        if es[k].filename().as_str().ok() != Some(&name) {
            return Err(format!("entry {k} is {:?} instead of {name}", es[k].filename()));
        }
        if k % 1021 == 0 || k + 3 > ok.len() {
            let mut v = vec![];
            block_on(async { r.reader_with_entry(k).await?.read_to_end_checked(&mut v).await }).map_err(|e| format!("entry {k}: {e:?}"))?;
            if v != (*i as u16).to_le_bytes() {
                return Err(format!("entry {k}: content differs"));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Content12 {
    mode: Zip64Mode,
    /// whole, stream, whole precompressed, stream precompressed
    how: u8,
    zstd: bool,
    d: i32,
    lead: bool,
    stream_reader: bool,
}

fn content_strategy() -> impl Strategy<Value = Content12> {
    (zip64_strategy(), 0u8..4, prop::bool::weighted(0.2), near(), any::<bool>(), any::<bool>())
        .prop_map(|(mode, how, zstd, d, lead, stream_reader)| Content12 { mode, how, zstd: zstd && how < 2, d, lead, stream_reader })
}

fn check_content(c: &Content12, ctx: &mut Ctx) -> Check {
    let n = (LIM as i64 + c.d as i64) as u64;
    let forbid = matches!(c.mode, Zip64Mode::Forbid);
    ctx.nontrivial();
    ctx.label(format!("how{}{}", c.how, if c.zstd { "-zstd" } else { "" }));
    ctx.label(format!("{:?}", c.mode));
    let data = &map()[..n as usize];
    let crc = crc_of_map(n);
    let comp = if c.zstd { Compression::Zstd } else { Compression::Stored };
    let sink = Sparse::default();
    let mut w = set_mode(ZipFileWriter::new(SchedWriter::new(sink.clone(), Schedule::full())), c.mode);
    let mut exp: Vec<(String, Vec<u8>)> = vec![];
    block_on(async {
        if c.lead {
            w.write_entry_whole(ZipEntryBuilder::new("lead".into(), Compression::Deflate), b"leading entry").await.map_err(|e| format!("lead: {e:?}"))?;
            exp.push(("lead".into(), b"leading entry".to_vec()));
        }
        let b = ZipEntryBuilder::new("big".into(), comp);
        let b = if c.how >= 2 { b.crc32(crc).uncompressed_size(n) } else { b };
        let r = match c.how {
            0 => w.write_entry_whole(b, data).await,
            2 => w.write_entry_whole_precompressed(b, data).await,
            h => {
                let s = if h == 1 { w.write_entry_stream(b).await } else { w.write_entry_stream_precompressed(b).await };
                match s {
                    Ok(mut s) => {
                        for piece in data.chunks(1 << 30) {
                            s.write_all(piece).await.map_err(|e| format!("write: {e:?}"))?;
                        }
                        s.close().await
                    }
                    Err(e) => Err(e),
                }
            }
        };
        match (&r, forbid, n.cmp(&LIM)) {
            (Ok(()), true, std::cmp::Ordering::Greater) => return Err(format!("{n} bytes accepted with ZIP64 forbidden")),
            (Ok(()), _, _) => exp.push(("big".into(), vec![])),
            (Err(ZipError::Zip64Needed(Zip64ErrorCase::LargeFile)), true, std::cmp::Ordering::Greater | std::cmp::Ordering::Equal) => {
                ctx.label("refused");
            }
            (Err(e), _, _) => return Err(format!("{n} bytes refused: {e:?}")),
        }
        if sink.len() > LIM - 1000 && forbid {
            return match w.close().await {
                Err(ZipError::Zip64Needed(_)) => Ok(()),
                Ok(_) if sink.len() < LIM + 200 => Ok(()),
                r => Err(format!("close with the directory beyond the limit: {:?}", r.map(|_| ()))),
            };
        }
        w.write_entry_whole(ZipEntryBuilder::new("tail".into(), Compression::Deflate), b"trailing entry").await.map_err(|e| format!("tail: {e:?}"))?;
        exp.push(("tail".into(), b"trailing entry".to_vec()));
        w.close().await.map_err(|e| format!("close: {e:?}"))?;
        let a = refzip::parse(&sink, 0, exp.len() == 2 + c.lead as usize || c.how % 2 == 0)?;
        if let Some(b) = a.entries.iter().find(|e| e.name == b"big") {
            if b.crc != crc || b.usize_ != n {
                return Err(format!("recorded CRC {:#x} and size {}, should be {crc:#x} and {n}", b.crc, b.usize_));
            }
        }
        if c.stream_reader && c.how % 2 == 0 {
            ctx.label("stream-reader");
            let mut r = stream::ZipFileReader::new(SchedReader::new(sink.clone(), Schedule::full()).with_cap(1 << 20));
            for (name, content) in &exp {
                let mut x = match r.next_with_entry().await.map_err(|e| format!("before {name}: {e:?}"))? {
                    Some(x) => x,
                    None => return Err(format!("stream ends before {name}")),
                };
                if x.reader().entry().filename().as_str().ok() != Some(name) {
                    return Err(format!("{:?} instead of {name}", x.reader().entry().filename()));
                }
                if name == "big" {
                    consume(x.reader_mut(), n).await?;
                    if x.reader_mut().compute_hash() != crc {
                        return Err("hash of the large entry differs".into());
                    }
                } else {
                    let mut v = vec![];
                    x.reader_mut().read_to_end_checked(&mut v).await.map_err(|e| format!("{name}: {e:?}"))?;
                    if v != *content {
                        return Err(format!("{name}: content differs"));
                    }
                }
                r = x.done().await.map_err(|e| format!("after {name}: {e:?}"))?;
            }
            if r.next_with_entry().await.map_err(|e| format!("end: {e:?}"))?.is_some() {
                return Err("another entry at the end".into());
            }
        } else {
            let mut r = seek::ZipFileReader::new(SchedReader::new(sink.clone(), Schedule::full()).with_cap(1 << 20)).await.map_err(|e| format!("open: {e:?}"))?;
            if r.file().entries().len() != exp.len() {
                return Err(format!("{} entries instead of {}", r.file().entries().len(), exp.len()));
            }
            for (i, (name, content)) in exp.iter().enumerate() {
                let mut x = r.reader_with_entry(i).await.map_err(|e| format!("{name}: {e:?}"))?;
                if name == "big" {
                    if x.entry().uncompressed_size() != n || x.entry().crc32() != crc {
                        return Err(format!("reader reports size {} and CRC {:#x}", x.entry().uncompressed_size(), x.entry().crc32()));
                    }
                    consume(&mut x, n).await?;
                    let mut v = vec![];
                    x.read_to_end_checked(&mut v).await.map_err(|e| format!("big: {e:?}"))?;
                } else {
                    let mut v = vec![];
                    x.read_to_end_checked(&mut v).await.map_err(|e| format!("{name}: {e:?}"))?;
                    if v != *content {
                        return Err(format!("{name}: content differs"));
                    }
                }
            }
        }
        Ok(())
    })
}

/// Reads to the end, comparing with the mapping.
async fn consume<R: futures_lite::io::AsyncRead + Unpin>(r: &mut R, n: u64) -> Check {
    let mut buf = vec![0u8; 1 << 20];
    let mut at = 0usize;
    loop {
        let k = r.read(&mut buf).await.map_err(|e| format!("reading the large entry at {at}: {e:?}"))?;
        if k == 0 {
            break;
        }
        if (at + k) as u64 > n {
            return Err(format!("large entry yields more than {n} bytes"));
        }
        if buf[..k] != map()[at..at + k] {
            return Err(format!("large entry differs within {at}..{}", at + k));
        }
        at += k;
    }
    if at as u64 != n {
        return Err(format!("large entry yields {at} bytes instead of {n}"));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Directory {
    mode: Zip64Mode,
    n: u32,
}

fn directory_strategy() -> impl Strategy<Value = Directory> {
    (index_strategy(), prop_oneof![Just(65534u32), Just(65500u32)]).prop_map(|(i, n)| Directory { mode: [Zip64Mode::Default, Zip64Mode::Forbid, Zip64Mode::Default, Zip64Mode::Force][i as usize % 4], n })
}

/// A central directory larger than 4 GiB, while no other value exceeds its limit.
fn check_directory(d: &Directory, ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    ctx.label(format!("{:?}", d.mode));
    // One at a time: this takes most of the memory.
    let lock = std::fs::File::create(std::env::var_os("AZV_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir).join("c12-directory.lock")).map_err(|e| format!("harness: {e}"))?;
    lock.lock().map_err(|e| format!("harness: {e}"))?;
    // The comments alone are 4 GiB, and the reader's buffers for them may have twice that capacity.
    crate::alloc::set_cap(14 << 30);
    let r = directory(d);
    crate::alloc::set_cap(6 << 30);
    r
}

fn directory(d: &Directory) -> Check {
    let sink = Sparse::default();
    let mut w = set_mode(ZipFileWriter::new(SchedWriter::new(sink.clone(), Schedule::full())), d.mode);
    for i in 0..d.n {
        let b = ZipEntryBuilder::new(format!("{i}").into(), Compression::Stored)
            .comment(ZipString::new(vec![b'x'; 65535], StringEncoding::Utf8));
        block_on(w.write_entry_whole(b, b"")).map_err(|e| format!("entry {i}: {e:?}"))?;
    }
    let r = block_on(w.close());
    if matches!(d.mode, Zip64Mode::Forbid) {
        return match r {
            Err(ZipError::Zip64Needed(_)) => Ok(()),
            r => Err(format!("directory beyond 4 GiB with ZIP64 forbidden: {:?}", r.map(|_| ()))),
        };
    }
    r.map_err(|e| format!("close: {e:?}"))?;
    // The end records; the whole directory is not parsed twice.
    let len = sink.len();
    let mut end = [0u8; 98];
    if len < 98 || sink.read_at(len - 98, &mut end) != 98 || end[..4] != *b"PK\x06\x06" || end[56..60] != *b"PK\x06\x07" {
        return Err("no ZIP64 end records although the directory is larger than 4 GiB".into());
    }
    let size = u64::from_le_bytes(end[40..48].try_into().unwrap());
    let off = u64::from_le_bytes(end[48..56].try_into().unwrap());
    if off + size != len - 98 || end[88..92] != [0xFF; 4] {
        return Err(format!("directory at {off} of {size} bytes does not end at {}", len - 98));
    }
    let mut r = block_on(seek::ZipFileReader::new(SchedReader::new(sink.clone(), Schedule::full()).with_cap(1 << 16))).map_err(|e| format!("open: {e:?}"))?;
    if r.file().entries().len() != d.n as usize {
        return Err(format!("{} entries instead of {}", r.file().entries().len(), d.n));
    }
    let last = d.n as usize - 1;
    let e = &r.file().entries()[last];
    if e.filename().as_str().ok() != Some(&format!("{last}")) || e.comment().as_bytes().len() != 65535 {
        return Err("the last entry differs".into());
    }
    block_on(async { r.reader_with_entry(last).await?.read_to_end_checked(&mut vec![]).await }).map_err(|e| format!("last entry: {e:?}"))?;
    Ok(())
}
