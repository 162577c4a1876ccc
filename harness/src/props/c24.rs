//! C24: the work and memory a call takes follow from what is asked for, not from the size of the archive.

use crate::data::*;
use crate::engine::*;
use crate::exec::*;
use crate::foreign::*;
use crate::model::*;
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use futures_lite::io::{AsyncRead, AsyncReadExt, AsyncWriteExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C24",
        level: "exploration",
        rule: "write: entries of 4-24 MiB streamed in generated chunks into a sink that keeps nothing; read: entries of 4-64 MiB read in generated pieces, or skipped, with all four readers; io: archives of entries up to 1 MiB opened and read from a source that counts what is fetched. Oracle: peak heap growth stays below 3 MiB (11 MiB for bzip2; 5 MiB more with the filesystem reader, whose file type buffers 2 MiB) + 4 x the chunk, what cannot be compressed is passed on before that much more is taken in, opening fetches at most the directory, end records and comment (three times over) + 64 KiB, opening an entry its header + 16 KiB, reading it its compressed size + 16 KiB; non-trivial = the entry or archive is larger than the bound",
        assumptions: &["memory that the C libraries of codecs allocate is not counted", "the constants leave room for any reasonable buffering but not for a buffer of the entry's size"],
        parts: || {
            vec![
                heavy_part("write", 160, 2_400, write_strategy(), check_write),
                heavy_part("read", 300, 4_000, read_strategy(), check_read),
                part("io", 12_000, 96_000, io_strategy(), check_io),
            ]
        },
    }
}

/// Heap growth allowed (bzip2 needs some 8 MiB for its block, whatever the entry).
fn bound_of(m: Method) -> usize {
    if m == Method::Bz { 11 << 20 } else { 3 << 20 }
}


struct Mem(usize);

impl Mem {
    fn start() -> Mem {
        crate::alloc::reset_peak();
        Mem(crate::alloc::live())
    }
    fn judge(&self, what: &str, bound: usize) -> Check {
        let grown = crate::alloc::peak().saturating_sub(self.0);
        if grown > bound {
            return Err(format!("{what}: memory grew by {grown} bytes (bound {bound})"));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- writing

#[derive(Clone, Default)]
struct Count(Rc<RefCell<u64>>);

impl Sink for Count {
    fn put(&mut self, b: &[u8]) {
        *self.0.borrow_mut() += b.len() as u64;
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WCase {
    method: Method,
    pre: bool,
    mib: u8,
    chunk: u32,
    random: Option<u64>,
    mode: Zip64Mode,
    entries: u8,
}

fn write_strategy() -> BoxedStrategy<WCase> {
    let m = prop_oneof![2 => Just(Method::Stored), 3 => Just(Method::Deflate), 2 => Just(Method::Zstd), 1 => Just(Method::Bz), 1 => Just(Method::Xz), 1 => Just(Method::Lzma)];
    (m, proptest::bool::weighted(0.2), 4u8..24, prop_oneof![3 => 1024u32..300_000, 1 => Just(1u32 << 20)], proptest::option::of(any::<u64>()), zip64_strategy(), 1u8..3)
        .prop_map(|(method, pre, mib, chunk, random, mode, entries)| WCase { method, pre, mib: if matches!(method, Method::Xz | Method::Lzma) { 4 + mib / 6 } else if method == Method::Bz { 12 + mib / 6 } else { mib }, chunk, random, mode, entries })
        .boxed()
}

fn check_write(c: &WCase, ctx: &mut Ctx) -> Check {
    ctx.label(format!("method={:?}", c.method));
    ctx.label_if(c.pre, "precompressed");
    let chunk = match c.random {
        Some(s) => DataSpec::Rand { seed: s, len: c.chunk }.bytes(),
        None => vec![0; c.chunk as usize],
    };
    let bound = bound_of(c.method) + 4 * chunk.len();
    let total = (c.mib as u64) << 20;
    ctx.nontrivial_if(total > bound as u64);
    let count = Count::default();
    block_on(async {
        let mem = Mem::start();
        let mut z = set_mode(ZipFileWriter::new(SchedWriter::new(count.clone(), Schedule::full())), c.mode);
        for i in 0..c.entries {
            let b = async_zip::ZipEntryBuilder::new(format!("{i}").into(), c.method.compression());
            let es = |e: &dyn std::fmt::Display| format!("streaming: {e}");
            let mut s = if c.pre { z.write_entry_stream_precompressed(b).await.map_err(|e| es(&e))? } else { z.write_entry_stream(b).await.map_err(|e| es(&e))? };
            let start = *count.0.borrow();
            let mut sent = 0u64;
            let mut chunk = chunk.clone();
            while sent < total {
                if let Some(k) = c.random {
                    chunk = DataSpec::Rand { seed: k.wrapping_add(sent), len: c.chunk }.bytes();
                }
                s.write_all(&chunk).await.map_err(|e| es(&e))?;
                sent += chunk.len() as u64;
                let out = *count.0.borrow() - start;
                // What cannot be compressed (or isn't) has to be passed on.
                if (c.random.is_some() || c.pre || c.method == Method::Stored) && !matches!(c.method, Method::Xz | Method::Lzma) && out + (bound as u64) < sent {
                    return Err(format!("{sent} bytes taken in, {out} passed on"));
                }
                mem.judge("streaming an entry", bound)?;
            }
            s.close().await.map_err(|e| es(&e))?;
            mem.judge("closing an entry", bound)?;
        }
        z.close().await.map_err(|e| format!("closing: {e}"))?;
        mem.judge("closing the archive", bound)
    })
}

// ---------------------------------------------------------------- reading

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    method: Method,
    mib: u8,
    piece: u32,
    reader: u8,
    checked: bool,
    cap: u16,
}

fn read_strategy() -> BoxedStrategy<RCase> {
    let m = prop_oneof![2 => Just(Method::Stored), 3 => Just(Method::Deflate), 2 => Just(Method::Zstd), 1 => Just(Method::Bz), 1 => Just(Method::Xz), 1 => Just(Method::Lzma)];
    (m, 4u8..64, prop_oneof![3 => 500u32..70_000, 1 => Just(1u32 << 20)], 0u8..6, any::<bool>(), prop_oneof![64u16..9000, Just(8192u16)])
        .prop_map(|(method, mib, piece, reader, checked, cap)| RCase { method, mib: if matches!(method, Method::Lzma | Method::Xz) { 4 + mib / 6 } else if method == Method::Bz { 12 + mib / 6 } else { mib }, piece, reader, checked, cap })
        .boxed()
}

/// Draws everything in pieces; the number of bytes.
async fn draw<R: AsyncRead + Unpin>(r: &mut R, piece: u32) -> Result<u64, String> {
    let mut buf = vec![0; piece as usize];
    let mut n = 0;
    loop {
        match r.read(&mut buf).await {
            Ok(0) => return Ok(n),
            Ok(k) => n += k as u64,
            Err(e) => return Err(format!("reading: {e}")),
        }
    }
}

thread_local! {
    /// Archives of one large and one small entry by method and size: writing them is not what is judged here.
    static ARCHIVES: RefCell<std::collections::HashMap<(u16, u8, bool), Rc<Vec<u8>>>> = RefCell::default();
}

fn archive(method: Method, mib: u8, whole: bool) -> Result<Rc<Vec<u8>>, String> {
    let key = (method.id(), mib, whole);
    if let Some(a) = ARCHIVES.with(|m| m.borrow().get(&key).cloned()) {
        return Ok(a);
    }
    let data = vec![0u8; (mib as usize) << 20];
    let v = block_on(async {
        let mut z = ZipFileWriter::new(Vec::new());
        let b = async_zip::ZipEntryBuilder::new("large".into(), method.compression());
        if whole {
            z.write_entry_whole(b, &data).await?;
        } else {
            let mut s = z.write_entry_stream(b).await?;
            s.write_all(&data).await?;
            s.close().await?;
        }
        z.write_entry_whole(async_zip::ZipEntryBuilder::new("small".into(), method.compression()), b"small").await?;
        z.close().await
    })
    .map_err(|e: async_zip::error::ZipError| format!("writing: {e}"))?;
    let v = Rc::new(v);
    ARCHIVES.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 8 {
            m.clear();
        }
        m.insert(key, v.clone());
    });
    Ok(v)
}

fn check_read(c: &RCase, ctx: &mut Ctx) -> Check {
    let streaming = matches!(c.reader, 3..=5);
    let bytes = archive(c.method, c.mib, c.method == Method::Stored || c.reader == 5)?;
    let total = (c.mib as u64) << 20;
    let bound = bound_of(c.method) + 4 * c.piece as usize;
    ctx.nontrivial_if(total > bound as u64);
    ctx.label(["mem", "seek", "fs", "stream", "skip", "stream"][c.reader as usize]);
    ctx.label_if(!streaming && c.checked, "with-entry");
    let all = |n: u64| if n == total { Ok(()) } else { Err(format!("{n} of {total} bytes read")) };
    match c.reader {
        0 => block_on(async {
            // The reader owns the archive, so only what comes on top of that counts.
            let r = mem::ZipFileReader::new(bytes.to_vec()).await.map_err(|e| e.to_string())?;
            let m = Mem::start();
            if c.checked {
                all(draw(&mut r.reader_with_entry(0).await.map_err(|e| e.to_string())?, c.piece).await?)?;
            } else {
                all(draw(&mut r.reader_without_entry(0).await.map_err(|e| e.to_string())?, c.piece).await?)?;
            }
            m.judge("reading from memory", bound)
        }),
        1 => block_on(async {
            let m = Mem::start();
            let mut r = seek::ZipFileReader::new(SchedReader::new(bytes.clone(), Schedule::full()).with_cap(c.cap as usize)).await.map_err(|e| e.to_string())?;
            m.judge("opening a seekable source", bound)?;
            if c.checked {
                all(draw(&mut r.reader_with_entry(0).await.map_err(|e| e.to_string())?, c.piece).await?)?;
            } else {
                all(draw(&mut r.reader_without_entry(0).await.map_err(|e| e.to_string())?, c.piece).await?)?;
            }
            m.judge("reading from a seekable source", bound)
        }),
        2 => {
            let s = Scratch::new();
            let p = s.file("a.zip", &bytes);
            on_tokio(async {
                let m = Mem::start();
                let r = async_zip::tokio::read::fs::ZipFileReader::new(&p).await.map_err(|e| e.to_string())?;
                m.judge("opening a file", bound + (5 << 20))?;
                if c.checked {
                    all(draw(&mut r.reader_with_entry(0).await.map_err(|e| e.to_string())?, c.piece).await?)?;
                } else {
                    all(draw(&mut r.reader_without_entry(0).await.map_err(|e| e.to_string())?, c.piece).await?)?;
                }
                m.judge("reading from a file", bound + (5 << 20))
            })
        }
        _ => block_on(async {
            let m = Mem::start();
            let z = stream::ZipFileReader::new(SchedReader::new(bytes.clone(), Schedule::full()).with_cap(c.cap as usize));
            let mut e = z.next_with_entry().await.map_err(|e| e.to_string())?.ok_or("no entry")?;
            let z = if c.reader == 4 {
                e.skip().await
            } else {
                all(draw(e.reader_mut(), c.piece).await?)?;
                e.done().await
            }
            .map_err(|e| e.to_string())?;
            m.judge("streaming from a source", bound)?;
            match z.next_with_entry().await {
                Ok(Some(e)) if e.reader().entry().filename().as_bytes() == b"small" => Ok(()),
                _ => Err("the next entry was not found".into()),
            }
        }),
    }
}

// ---------------------------------------------------------------- what is fetched

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ICase {
    a: FArchive,
    big: u32,
    comment: u16,
    cap: u16,
    order: Vec<u8>,
}

fn io_strategy() -> BoxedStrategy<ICase> {
    (farchive_strategy(1..5, 600, false), 200_000u32..1_000_000, prop_oneof![3 => Just(0u16), 1 => 0u16..5000, 1 => any::<u16>()], prop_oneof![64u16..4096, Just(8192u16)], proptest::collection::vec(any::<u8>(), 1..5))
        .prop_map(|(a, big, comment, cap, order)| ICase { a, big, comment, cap, order })
        .boxed()
}

fn check_io(c: &ICase, ctx: &mut Ctx) -> Check {
    let mut f = c.a.clone();
    f.entries.insert(0, FEntry { data: DataSpec::Zeros(c.big), ..plain_entry(b"big") });
    f.order = vec![];
    f.comment = Hex(vec![b'c'; c.comment as usize]);
    let b = f.build();
    let len = b.bytes.len() as u64;
    let dir = len - b.cd_record_offsets.iter().copied().min().unwrap_or(b.eocdr) as u64;
    let src = SchedReader::new(Rc::new(b.bytes.clone()), Schedule::full()).with_cap(c.cap as usize);
    let log = src.log.clone();
    let cap = c.cap as u64;
    block_on(async {
        let mut z = seek::ZipFileReader::new(src).await.map_err(|e| format!("opening: {e}"))?;
        let fetched = log.borrow().fetched;
        let bound = 3 * dir + (64 << 10) + 4 * cap;
        ctx.nontrivial_if(bound < len);
        if fetched > bound {
            return Err(format!("opening an archive of {len} bytes with a directory of {dir} fetched {fetched}"));
        }
        let n = z.file().entries().len();
        for k in &c.order {
            let i = *k as usize % n;
            let e = &z.file().entries()[i];
            let (csize, h) = (e.compressed_size(), e.header_offset() as usize);
            let head = 30 + u16::from_le_bytes([b.bytes[h + 26], b.bytes[h + 27]]) as u64 + u16::from_le_bytes([b.bytes[h + 28], b.bytes[h + 29]]) as u64;
            log.borrow_mut().fetched = 0;
            let mut er = z.reader_without_entry(i).await.map_err(|e| format!("opening entry {i}: {e}"))?;
            let fetched = log.borrow().fetched;
            if fetched > head + (16 << 10) + 2 * cap {
                return Err(format!("opening entry {i} fetched {fetched} bytes"));
            }
            log.borrow_mut().fetched = 0;
            draw(&mut er, 5000).await?;
            let fetched = log.borrow().fetched;
            if fetched > csize + (16 << 10) + 2 * cap {
                return Err(format!("reading entry {i} of {csize} bytes fetched {fetched}"));
            }
        }
        Ok(())
    })
}
