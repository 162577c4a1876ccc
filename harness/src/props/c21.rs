//! C21: precompressed writing is equivalent to writing the plain data.

use crate::codec;
use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::model::*;
use crate::readers::*;
use async_zip::base::write::{self, ZipFileWriter};
use futures_lite::io::AsyncWriteExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C21",
        level: "exploration",
        rule: "helper: random data, method and level through the compression and checksum helpers, judged by independent decoders and a bitwise CRC; write: the same entry written plain, and precompressed by the helper or by an independent encoder, whole or streamed in any chunking, at random positions of the archive, compared after reading and byte by byte where the compressed data lies (found by an independent parser); non-trivial = data not empty and method other than stored, or streamed in more than one piece",
        assumptions: &["Deflate64 cannot be written (documented panic) and is excluded", "CRC and uncompressed size given with precompressed data are the true ones, as the API demands"],
        parts: || {
            vec![
                part("helper", 60_000, 480_000, (method_strategy(), any_level(), data_strategy(70_000)), check_helper),
                part("small", 200_000, 1_600_000, (method_strategy(), any_level(), data_strategy(40)), check_helper),
                part("crc", 200_000, 1_600_000, proptest::collection::vec(data_strategy(3_000), 0..3), check_crc),
                part("write", 75_000, 600_000, (proptest::collection::vec(item(), 1..5), zip64_strategy()), check_write),
                part("write-large", 400, 3_200, (large(), zip64_strategy()), |(i, m): &(Item, Zip64Mode), ctx: &mut Ctx| check_write(&(vec![i.clone()], *m), ctx)),
            ]
        },
    }
}

fn any_level() -> BoxedStrategy<Option<i32>> {
    prop_oneof![4 => level_strategy(), 1 => proptest::sample::select(vec![i32::MIN, -1000, -131072, 10, 22, 100, i32::MAX]).prop_map(Some)].boxed()
}

/// Levels beyond a codec's range are clamped by it; keep its memory and time in bounds.
fn bounded(m: Method, l: Option<i32>) -> Option<i32> {
    match m {
        Method::Xz | Method::Lzma => l.map(|x| x.min(4)),
        Method::Zstd => l.map(|x| x.min(9)),
        _ => l,
    }
}

fn entry(m: Method, l: Option<i32>) -> async_zip::ZipEntryBuilder {
    let b = async_zip::ZipEntryBuilder::new("x".to_string().into(), m.compression());
    match l {
        Some(l) => b.deflate_option(async_zip::DeflateOption::Other(l)),
        None => b,
    }
}

fn check_helper((m, l, d): &(Method, Option<i32>, DataSpec), ctx: &mut Ctx) -> Check {
    let data = d.bytes();
    let l = bounded(*m, *l);
    ctx.nontrivial_if(!data.is_empty() && *m != Method::Stored);
    ctx.label(format!("{m:?}"));
    ctx.label_if(l.is_some(), "level-set");
    let comp = block_on(write::compress(&entry(*m, l).build(), &data));
    if *m == Method::Stored && comp != data {
        return Err(format!("stored data is not its own compressed form: {}", diff(&comp, &data)));
    }
    let back = codec::decode(m.id(), &comp).map_err(|e| format!("{m:?} at {l:?}: an independent decoder refuses the helper's output: {e}"))?;
    if back != data {
        return Err(format!("{m:?} at {l:?}: {}", diff(&back, &data)));
    }
    if write::crc32(&data) != crc32(&data) {
        return Err(format!("crc32 of {} bytes is {:08x}, should be {:08x}", data.len(), write::crc32(&data), crc32(&data)));
    }
    Ok(())
}

fn check_crc(d: &Vec<DataSpec>, ctx: &mut Ctx) -> Check {
    let mut all = vec![];
    let mut r = 0xffff_ffff;
    for p in d {
        let b = p.bytes();
        // Bit by bit, from the definition of the polynomial.
        for x in &b {
            r ^= *x as u32;
            for _ in 0..8 {
                r = if r & 1 != 0 { r >> 1 ^ 0xedb8_8320 } else { r >> 1 };
            }
        }
        all.extend_from_slice(&b);
    }
    ctx.nontrivial_if(all.len() > 16);
    if write::crc32(&all) != !r {
        return Err(format!("crc32 of {} bytes is {:08x}, should be {:08x}", all.len(), write::crc32(&all), !r));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    e: EntrySpec,
    /// Compress with the helper rather than with an independent encoder.
    helper: bool,
    /// Stream the precompressed data in these chunks.
    stream: Option<Vec<u32>>,
}

fn item() -> BoxedStrategy<Item> {
    (entry_strategy(6_000), any::<bool>(), proptest::option::of(proptest::collection::vec(prop_oneof![0u32..20, 0u32..5000], 1..4))).prop_map(|(e, helper, stream)| Item { e, helper, stream }).boxed()
}

fn large() -> BoxedStrategy<Item> {
    (item(), any::<u64>(), 60_000u32..3_000_000, 0u8..3)
        .prop_map(|(mut i, seed, len, kind)| {
            let len = if matches!(i.e.method, Method::Xz | Method::Lzma | Method::Bz) { len / 8 } else { len };
            i.e.data = match kind {
                0 => DataSpec::Zeros(len),
                1 => DataSpec::Rand { seed, len },
                _ => DataSpec::Text { seed, len },
            };
            i
        })
        .boxed()
}

fn check_write((items, mode): &(Vec<Item>, Zip64Mode), ctx: &mut Ctx) -> Check {
    let plain = ArchiveSpec {
        entries: items
            .iter()
            .map(|i| {
                let mut e = i.e.clone();
                // Streamed entries carry different structures from whole ones, so compare like with like.
                e.how = match (&i.stream, e.how) {
                    (None, _) => How::Whole,
                    (Some(_), How::Stream { chunks, flush, quirk }) => How::Stream { chunks, flush, quirk },
                    (Some(c), _) => How::Stream { chunks: c.clone(), flush: vec![], quirk: 0 },
                };
                e
            })
            .collect(),
        comment: None,
        zip64: *mode,
    };
    let mut want = block_on(snap_mem(write_mem(&plain)?)).map_err(|e| format!("opening the plain archive: {e}"))?;

    let mut supplied = vec![];
    let bytes = block_on(async {
        let mut w = set_mode(ZipFileWriter::new(Vec::new()), *mode);
        for i in items {
            let data = i.e.data.bytes();
            let b = builder_for(&i.e);
            let comp = if i.helper {
                write::compress(&entry(i.e.method, i.e.level).build(), &data).await
            } else {
                precompressed_for(&i.e, &data)
            };
            ctx.label(if i.helper { "by-helper" } else { "by-independent-encoder" });
            ctx.nontrivial_if(!data.is_empty() && i.e.method != Method::Stored || i.stream.is_some() && comp.len() > 20);
            let b = b.crc32(write::crc32(&data)).uncompressed_size(data.len() as u64);
            let b = if i.e.stale { b.compressed_size(999u32) } else { b };
            match &i.stream {
                None => w.write_entry_whole_precompressed(b, &comp).await?,
                Some(chunks) => {
                    ctx.label("streamed");
                    let mut s = w.write_entry_stream_precompressed(b).await?;
                    for c in chunked(&comp, chunks) {
                        s.write_all(c).await?;
                    }
                    s.close().await?;
                }
            }
            supplied.push(comp);
        }
        w.close().await
    })
    .map_err(|e: async_zip::error::ZipError| format!("writing precompressed: {e}"))?;

    let mut got = block_on(snap_mem(bytes.clone())).map_err(|e| format!("opening: {e}"))?;
    let r = crate::refzip::parse(&Rc::new(bytes.clone()), 0, true)?;
    for (i, c) in supplied.iter().enumerate() {
        let s = r.entries[i].data_start as usize;
        let at = bytes.get(s..s + c.len()).ok_or("data beyond the end")?;
        if at != c || got.listing.entries[i].meta.csize != c.len() as u64 || r.entries[i].csize != c.len() as u64 {
            return Err(format!("entry {i}: the supplied compressed bytes are not in the archive unchanged ({} reported, {} supplied; {})", got.listing.entries[i].meta.csize, c.len(), diff(at, c)));
        }
        // What may differ: where things lie and how long they are in compressed form.
        got.listing.entries[i].offset = want.listing.entries[i].offset;
        got.listing.entries[i].meta.csize = want.listing.entries[i].meta.csize;
        for s in [&mut got, &mut want] {
            s.listing.entries[i].meta.extra.retain(|x| !x.starts_with("Zip64ExtendedInformation"));
        }
    }
    snap_diff("precompressed and plain archive", &got, &want)
}
