//! C17: entries can be copied from archive to archive for any number of generations.

use crate::codec;
use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::props::c06::streamable;
use crate::props::c16;
use crate::readers::snap_stream;
use crate::refzip::{self, RefArchive};
use crate::sio::{SchedReader, SchedWriter, Schedule, Storage};
use crate::sparse::{map, Sparse};
use async_zip::base::read::{seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{Compression, ZipEntry, ZipEntryBuilder};
use futures_lite::io::{AsyncReadExt, AsyncWrite, AsyncWriteExt, Cursor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C17",
        level: "exploration",
        rule: "archives of the crate and of an independent encoder (ZIP64 fields, data descriptors, Unicode fields right and stale, every method) are copied through up to five generations: random entries in random order, entry information taken from the in-memory, seek or streaming reader, written whole or streamed, compressed anew, precompressed or as a raw copy of the compressed bytes, in random ZIP64 modes; each generation is judged by the strict parser and by reading back; far does so behind and from behind the 4 GiB boundary and with leftover claims of giant sizes on sparse storage; non-trivial = two generations or more of at least one entry (far: always)",
        assumptions: &["entries of a method the crate cannot compress (Deflate64) are recompressed with another method or copied raw", "precompressed modes: the caller supplies checksum and size, or leaves those of the source for a raw copy"],
        parts: || {
            vec![
                part("own", 40_000, 320_000, chain(archive_strategy_with(entry_strategy_with(light_method_strategy(), 2_000), 1..5).prop_map(Start::Own).boxed()), check),
                part("foreign", 60_000, 480_000, chain(farchive_strategy(1..5, 1_500, false).prop_map(Start::Foreign).boxed()), check),
                part("text", 60_000, 480_000, chain(proptest::collection::vec(c16::entry(), 1..4).prop_map(Start::Text).boxed()), check),
                part("big", 2_400, 24_000, chain(prop_oneof![archive_strategy_with(entry_strategy_with(light_method_strategy(), 300_000), 1..3).prop_map(Start::Own), farchive_strategy(1..3, 300_000, false).prop_map(Start::Foreign)].boxed()), check),
                part("long", 12_000, 96_000, chain(long_farchive_strategy(false, 20_000).prop_map(Start::Foreign).boxed()), check),
                part("far", 2_400, 20_000, far_strategy(), check_far),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Own(ArchiveSpec),
    Foreign(FArchive),
    Text(Vec<c16::TEntry>),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Via {
    Mem,
    Seek,
    Stream,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Put {
    Whole,
    Stream,
    WholePre,
    StreamPre,
    /// The source's compressed bytes with the source's checksum and size left as they are.
    RawWhole,
    RawStream,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Copy {
    from: u16,
    via: Via,
    put: Put,
    /// Recompress with another method.
    method: Option<Method>,
    /// Write something else than the source's content.
    data: Option<DataSpec>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gen {
    mode: Zip64Mode,
    copies: Vec<Copy>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    start: Start,
    gens: Vec<Gen>,
}

fn copy_strategy() -> impl Strategy<Value = Copy> {
    (
        any::<u16>(),
        prop_oneof![3 => Just(Via::Mem), 1 => Just(Via::Seek), 1 => Just(Via::Stream)],
        prop_oneof![4 => Just(Put::Whole), 4 => Just(Put::Stream), 1 => Just(Put::WholePre), 1 => Just(Put::StreamPre), 2 => Just(Put::RawWhole), 2 => Just(Put::RawStream)],
        proptest::option::weighted(0.2, light_method_strategy()),
        proptest::option::weighted(0.15, data_strategy(600)),
    )
        .prop_map(|(from, via, put, method, data)| Copy { from, via, put, method, data })
}

fn gen_strategy() -> impl Strategy<Value = Gen> {
    (zip64_strategy(), proptest::collection::vec(copy_strategy(), 1..5)).prop_map(|(mode, copies)| Gen { mode, copies })
}

fn chain(start: BoxedStrategy<Start>) -> BoxedStrategy<Case> {
    (start, proptest::collection::vec(gen_strategy(), 1..6)).prop_map(|(start, gens)| Case { start, gens }).boxed()
}

/// What is independently known of an entry.
#[derive(Clone, Debug)]
struct Known {
    content: Vec<u8>,
    compressed: Vec<u8>,
    method: u16,
    cd_extra: Vec<(u16, Vec<u8>)>,
    lfh_extra: Vec<(u16, Vec<u8>)>,
}

fn unknown(id: u16) -> bool {
    !matches!(id, 1 | 0x6375 | 0x7075)
}

fn of_specs(x: &[ExtraSpec]) -> Vec<(u16, Vec<u8>)> {
    x.iter().filter(|x| unknown(x.id)).map(|x| (x.id, x.data.0.clone())).collect()
}

fn of_ref(x: &[refzip::Extra]) -> Vec<(u16, Vec<u8>)> {
    x.iter().filter(|x| unknown(x.id)).map(|x| (x.id, x.data.clone())).collect()
}

fn from_foreign(f: &FArchive) -> (Vec<u8>, Vec<Known>, bool) {
    let b = f.build();
    let known = b
        .cd_order
        .iter()
        .map(|i| {
            let e = &f.entries[*i];
            let (s, t) = b.data_ranges[*i];
            Known { content: e.data.bytes(), compressed: b.bytes[s..t].to_vec(), method: e.method, cd_extra: of_specs(&e.cd_extra), lfh_extra: of_specs(&e.lfh_extra) }
        })
        .collect();
    // The streaming reader can traverse it if there are no gaps and no stored or Deflate64 entries with descriptors.
    let streamable = b.cd_order.iter().enumerate().all(|(k, i)| k == *i)
        && f.gap_before_cd.0.is_empty()
        && (!f.entries.is_empty() || f.gap_after_cd.0.is_empty())
        && f.entries.iter().all(|e| e.gap.0.is_empty() && e.lfh_pad == 0 && (e.dd == Dd::None || e.method != codec::STORED && e.method != codec::DEFLATE64) && (e.dd == Dd::None || (matches!(e.dd, Dd::Sig64 | Dd::NoSig64) == e.lfh64)));
    (b.bytes, known, streamable)
}

fn from_ref(bytes: &Rc<Vec<u8>>, rf: &RefArchive, contents: Vec<Vec<u8>>) -> Vec<Known> {
    rf.entries
        .iter()
        .zip(contents)
        .map(|(e, content)| {
            let mut compressed = vec![0; e.csize as usize];
            bytes.read_at(e.data_start, &mut compressed);
            Known { content, compressed, method: e.method, cd_extra: of_ref(&e.cd_extra), lfh_extra: of_ref(&e.lfh_extra) }
        })
        .collect()
}

/// Entry information as the chosen reader reports it.
fn entry_via(bytes: &Rc<Vec<u8>>, via: Via, i: usize) -> Result<ZipEntry, ZipError> {
    block_on(async {
        Ok(match via {
            Via::Mem => {
                let r = async_zip::base::read::mem::ZipFileReader::new(bytes.to_vec()).await?;
                let e = r.reader_with_entry(i).await?;
                e.entry().clone()
            }
            Via::Seek => {
                let r = seek::ZipFileReader::new(Cursor::new(&bytes[..])).await?;
                (*r.file().entries()[i]).clone()
            }
            Via::Stream => {
                let mut z = stream::ZipFileReader::new(Cursor::new(&bytes[..]));
                let mut k = 0;
                loop {
                    let mut rd = z.next_with_entry().await?.expect("the streaming traversal ended early");
                    if k == i {
                        break rd.reader().entry().clone();
                    }
                    k += 1;
                    rd.reader_mut().read_to_end(&mut vec![]).await?;
                    z = rd.done().await?;
                }
            }
        })
    })
}

async fn put<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, b: ZipEntryBuilder, how: Put, content: &[u8], compressed: &[u8]) -> Result<(), ZipError> {
    let full = |b: ZipEntryBuilder| b.crc32(crc32(content)).uncompressed_size(content.len() as u64);
    match how {
        Put::Whole => w.write_entry_whole(b, content).await,
        Put::Stream => {
            let mut s = w.write_entry_stream(b).await?;
            s.write_all(content).await?;
            s.close().await
        }
        Put::WholePre => w.write_entry_whole_precompressed(full(b), compressed).await,
        Put::RawWhole => w.write_entry_whole_precompressed(b, compressed).await,
        Put::StreamPre | Put::RawStream => {
            let b = if how == Put::StreamPre { full(b) } else { b };
            let mut s = w.write_entry_stream_precompressed(b).await?;
            s.write_all(compressed).await?;
            s.close().await
        }
    }
}

fn same_text(what: &str, want: &StrView, got: &StrView) -> Check {
    if want.bytes != got.bytes || want.utf8 != got.utf8 {
        return Err(format!("{what}: {} (UTF-8: {}) became {} (UTF-8: {})", show(&want.bytes), want.utf8, show(&got.bytes), got.utf8));
    }
    match (&want.alternative, &got.alternative) {
        (None, None) => Ok(()),
        // A plain text whose companion is not may gain an alternative equal to itself.
        (None, Some(a)) if *a == want.bytes => Ok(()),
        (Some(a), Some(b)) if a == b => Ok(()),
        (a, b) => Err(format!("{what}: alternative {:?} became {:?}", a.as_deref().map(show), b.as_deref().map(show))),
    }
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let (bytes, mut known, mut streams) = match &c.start {
        Start::Own(a) => {
            let a = streamable(a.clone());
            let bytes = Rc::new(write_mem(&a)?);
            let rf = crate::props::c03::parse_written(&a, &bytes)?;
            let known = from_ref(&bytes, &rf, a.entries.iter().map(|e| e.data.bytes()).collect());
            (bytes.to_vec(), known, true)
        }
        Start::Foreign(f) => from_foreign(f),
        Start::Text(t) => from_foreign(&FArchive { entries: t.iter().map(c16::fentry).collect(), order: vec![], gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]), comment: Hex(vec![]), end64: None }),
    };
    let mut bytes = Rc::new(bytes);
    for (g, gen) in c.gens.iter().enumerate() {
        let what = |k: usize| format!("generation {} ({:?}), entry {k}", g + 1, gen.mode);
        let mut w = set_mode(ZipFileWriter::new(Vec::new()), gen.mode);
        let mut next: Vec<(Meta, Known, Vec<(u16, Vec<u8>)>)> = vec![];
        let mut next_streams = true;
        for (k, cp) in gen.copies.iter().enumerate() {
            let from = cp.from as usize % known.len();
            let src = &known[from];
            let via = if cp.via == Via::Stream && !streams { Via::Mem } else { cp.via };
            let entry = entry_via(&bytes, via, from).map_err(|e| format!("{}: reading entry {from} of the source via {via:?}: {e}", what(k)))?;
            let reported = meta(&entry);
            let mut b = ZipEntryBuilder::from(entry);
            let mut how = cp.put;
            let mut content = src.content.clone();
            let mut compressed = src.compressed.clone();
            let mut method = src.method;
            // The streaming reader knows the true checksum and size only without a descriptor.
            if matches!(how, Put::RawWhole | Put::RawStream) && via == Via::Stream {
                how = if how == Put::RawWhole { Put::WholePre } else { Put::StreamPre };
            }
            if !matches!(how, Put::RawWhole | Put::RawStream) {
                if let Some(d) = &cp.data {
                    content = d.bytes();
                }
                if let Some(m) = cp.method {
                    method = m.id();
                    b = b.compression(m.compression());
                }
                if method == codec::DEFLATE64 {
                    method = codec::DEFLATE;
                    b = b.compression(Compression::Deflate);
                }
                if cp.data.is_some() || method != src.method {
                    compressed = codec::encode(method, &content, 4);
                }
            }
            ctx.label(format!("put={how:?}"));
            ctx.label(format!("via={via:?}"));
            block_on(put(&mut w, b, how, &content, &compressed)).map_err(|e| format!("{}: writing: {e}", what(k)))?;
            let is_stream = matches!(how, Put::Stream | Put::StreamPre | Put::RawStream);
            if is_stream && (method == codec::STORED || method == codec::DEFLATE64) {
                next_streams = false;
            }
            let extra = if via == Via::Stream { src.lfh_extra.clone() } else { src.cd_extra.clone() };
            next.push((reported, Known { content, compressed, method, cd_extra: vec![], lfh_extra: vec![] }, extra));
        }
        let out = Rc::new(block_on(w.close()).map_err(|e| format!("generation {}: closing: {e}", g + 1))?);
        let rf = refzip::parse(&out, 0, true).map_err(|e| format!("generation {}: {e}", g + 1))?;
        if rf.entries.len() != next.len() {
            return Err(format!("generation {}: {} entries of {}", g + 1, rf.entries.len(), next.len()));
        }
        let r = open_mem(out.to_vec()).map_err(|e| format!("generation {}: opening: {e}", g + 1))?;
        if r.file().entries().len() != next.len() {
            return Err(format!("generation {}: {} entries read of {}", g + 1, r.file().entries().len(), next.len()));
        }
        for (k, (src, kn, extra)) in next.iter().enumerate() {
            let got = meta(&r.file().entries()[k]);
            same_text(&format!("{} filename", what(k)), &src.name, &got.name)?;
            same_text(&format!("{} comment", what(k)), &src.comment, &got.comment)?;
            if (got.date, got.internal, got.external) != (src.date, src.internal, src.external) {
                return Err(format!("{}: date or attributes changed: {:?} {:?}", what(k), (src.date, src.internal, src.external), (got.date, got.internal, got.external)));
            }
            if got.method != kn.method || got.usize_ != kn.content.len() as u64 || got.crc != crc32(&kn.content) {
                return Err(format!("{}: method {}, size {}, checksum {:08x} reported for method {}, size {}, checksum {:08x}", what(k), got.method, got.usize_, got.crc, kn.method, kn.content.len(), crc32(&kn.content)));
            }
            for (side, l) in [("central", &rf.entries[k].cd_extra), ("local", &rf.entries[k].lfh_extra)] {
                if of_ref(l) != *extra {
                    return Err(format!("{}: {side} extra fields {:x?} instead of {:x?}", what(k), of_ref(l), extra));
                }
            }
            let content = mem_content(&r, k).map_err(|e| format!("{}: {e}", what(k)))?;
            if content != kn.content {
                return Err(format!("{}: content: {}", what(k), diff(&kn.content, &content)));
            }
        }
        if next_streams {
            let (s, end) = block_on(snap_stream(Cursor::new(&out[..]), true));
            end.map_err(|e| format!("generation {}: streaming: {e}", g + 1))?;
            for (k, (x, (_, kn, _))) in s.iter().zip(&next).enumerate() {
                if x.data != kn.content {
                    return Err(format!("{}: streamed content: {}", what(k), diff(&kn.content, &x.data)));
                }
            }
            if s.len() != next.len() {
                return Err(format!("generation {}: streaming finds {} of {} entries", g + 1, s.len(), next.len()));
            }
        }
        ctx.nontrivial_if(g >= 1);
        ctx.label(format!("generations>={}", g + 1));
        known = from_ref(&out, &rf, next.into_iter().map(|n| n.1.content).collect());
        streams = next_streams;
        bytes = out;
    }
    Ok(())
}

// ---------------------------------------------------------------- around 4 GiB

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FarSrc {
    /// A small entry whose header lies the given distance from 4 GiB.
    Behind { delta: i32, stream: bool },
    /// Precompressed entry which claims (or has) giant sizes.
    Giant { c: Option<i32>, u: i32, stream: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    src: FarSrc,
    /// Position of the copies relative to 4 GiB; None: at the start.
    dst: Option<i32>,
    mode: Zip64Mode,
    data: DataSpec,
    puts: Vec<(Put, bool)>,
}

fn far_strategy() -> BoxedStrategy<Far> {
    let near = || prop_oneof![4 => -3i32..4, 1 => -200i32..200];
    let src = prop_oneof![
        3 => (near(), any::<bool>()).prop_map(|(delta, stream)| FarSrc::Behind { delta, stream }),
        2 => (proptest::option::weighted(0.4, near()), near(), any::<bool>()).prop_map(|(c, u, stream)| FarSrc::Giant { c, u, stream }),
    ];
    let put = prop_oneof![Just(Put::Whole), Just(Put::Stream), Just(Put::WholePre), Just(Put::StreamPre)];
    (src, proptest::option::of(near()), zip64_strategy(), data_strategy(200), proptest::collection::vec((put, any::<bool>()), 1..4))
        .prop_map(|(src, dst, mode, data, puts)| Far { src, dst, mode, data, puts })
        .boxed()
}

const LIM: i64 = u32::MAX as i64;

/// Adds two entries so that the next one starts at `target`.
fn fill(w: &mut ZipFileWriter<SchedWriter<Sparse>>, target: i64) -> Result<(), String> {
    for n in [1000, (target - 2 * (30 + 4) - 1000) as usize] {
        let b = ZipEntryBuilder::new("fill".to_string().into(), Compression::Stored).crc32(1u32).uncompressed_size(n as u64);
        block_on(w.write_entry_whole_precompressed(b, &map()[..n])).map_err(|e| format!("harness: filler of {n} bytes: {e}"))?;
    }
    Ok(())
}

fn check_far(f: &Far, ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    // The source.
    let store = Sparse::default();
    let mut w = ZipFileWriter::new(SchedWriter::new(store.clone(), Schedule::full()));
    let name = || ZipEntryBuilder::new("src".to_string().into(), Compression::Stored).comment("c".to_string().into()).external_file_attribute(0x81a4_0020u32.into());
    let index = match &f.src {
        FarSrc::Behind { delta, stream } => {
            fill(&mut w, LIM + *delta as i64)?;
            let how = if *stream { Put::Stream } else { Put::Whole };
            block_on(put(&mut w, name(), how, b"original", b"")).map_err(|e| format!("writing the source: {e}"))?;
            2
        }
        FarSrc::Giant { c, u, stream } => {
            let n = c.map(|d| LIM + d as i64).unwrap_or(5) as usize;
            let b = name().crc32(3u32).uncompressed_size((LIM + *u as i64) as u64);
            let how = if *stream { Put::RawStream } else { Put::RawWhole };
            block_on(put(&mut w, b, how, b"", &map()[..n])).map_err(|e| format!("writing the source: {e}"))?;
            0
        }
    };
    block_on(w.close()).map_err(|e| format!("closing the source: {e}"))?;
    let r = block_on(seek::ZipFileReader::new(SchedReader::new(store, Schedule::full()))).map_err(|e| format!("opening the source: {e}"))?;
    let entry: ZipEntry = (*r.file().entries()[index]).clone();
    let src = meta(&entry);

    // The copies, each of other data than the source's.
    let out = Sparse::default();
    let mut w = set_mode(ZipFileWriter::new(SchedWriter::new(out.clone(), Schedule::full())), f.mode);
    let forbid = f.mode == Zip64Mode::Forbid;
    let mut first = 0;
    if let Some(d) = f.dst {
        fill(&mut w, LIM + d as i64)?;
        first = 2;
    }
    let data = f.data.bytes();
    let mut done = 0;
    for (how, deflate) in &f.puts {
        let m = if *deflate { Method::Deflate } else { Method::Stored };
        let b = ZipEntryBuilder::from(entry.clone()).compression(m.compression());
        let pos = out.len();
        let comp = codec::encode(m.id(), &data, 3);
        match block_on(put(&mut w, b, *how, &data, &comp)) {
            Ok(()) if forbid && pos as i64 > LIM => return Err(format!("{how:?} at {pos} accepted although ZIP64 is forbidden")),
            Ok(()) => done += 1,
            // At the limit exactly, either answer is fine.
            Err(ZipError::Zip64Needed(_)) if forbid && pos as i64 >= LIM => ctx.label("refused"),
            Err(e) => return Err(format!("{how:?} of {} bytes at {pos} with information of {:?}: {e}", data.len(), f.src)),
        }
        ctx.label_if(pos as i64 >= LIM, "copy-behind-4GiB");
    }
    match block_on(w.close()) {
        Ok(_) => {}
        Err(ZipError::Zip64Needed(_)) if forbid && out.len() as i64 >= LIM => {
            ctx.label("close-refused");
            return Ok(());
        }
        Err(e) => return Err(format!("closing: {e}")),
    }
    let rf = refzip::parse(&out, 0, false)?;
    let mut r = block_on(seek::ZipFileReader::new(SchedReader::new(out, Schedule::full()))).map_err(|e| format!("opening the copy: {e}"))?;
    if rf.entries.len() != first + done || r.file().entries().len() != first + done {
        return Err(format!("{} entries expected, {} in the directory, {} read", first + done, rf.entries.len(), r.file().entries().len()));
    }
    for k in first..first + done {
        let got = meta(&r.file().entries()[k]);
        if got.name != src.name || got.comment != src.comment || got.date != src.date || got.internal != src.internal || got.external != src.external {
            return Err(format!("copy {k}: information changed: {src:?} -> {got:?}"));
        }
        if got.usize_ != data.len() as u64 || rf.entries[k].usize_ != got.usize_ || rf.entries[k].csize != got.csize || rf.entries[k].offset != r.file().entries()[k].header_offset() {
            return Err(format!("copy {k}: sizes or offset differ between readers"));
        }
        let mut v = vec![];
        block_on(async {
            let mut er = r.reader_with_entry(k).await?;
            er.read_to_end_checked(&mut v).await
        })
        .map_err(|e| format!("reading copy {k}: {e}"))?;
        if v != data {
            return Err(format!("copy {k}: {}", diff(&data, &v)));
        }
    }
    Ok(())
}
