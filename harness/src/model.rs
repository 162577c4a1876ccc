//! Archive specifications, their strategies, and access to the code under test through its public API.

use crate::codec;
use crate::data::*;
use crate::foreign;
use async_zip::base::read::mem;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{Compression, DeflateOption, StringEncoding, ZipDateTime, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipFile, ZipString};
use futures_lite::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::IoSlice;

// ---------------------------------------------------------------- names

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum NameSpec {
    Utf8(String),
    /// UTF-8 text with a native-encoding alternative.
    Alt(String, Hex),
    /// Bytes of unknown encoding.
    Raw(Hex),
    /// `n` copies of a pattern character (long names stay compact).
    Long(char, u32),
}

impl NameSpec {
    pub fn zip_string(&self) -> ZipString {
        match self {
            NameSpec::Utf8(s) => s.clone().into(),
            NameSpec::Alt(s, a) => ZipString::new_with_alternative(s.clone(), a.0.clone()),
            NameSpec::Raw(b) => ZipString::new(b.0.clone(), StringEncoding::Raw),
            NameSpec::Long(c, n) => std::iter::repeat_n(*c, *n as usize).collect::<String>().into(),
        }
    }
    pub fn text_bytes(&self) -> Vec<u8> {
        match self {
            NameSpec::Utf8(s) | NameSpec::Alt(s, _) => s.clone().into_bytes(),
            NameSpec::Raw(b) => b.0.clone(),
            NameSpec::Long(c, n) => std::iter::repeat_n(*c, *n as usize).collect::<String>().into_bytes(),
        }
    }
    pub fn alternative(&self) -> Option<Vec<u8>> {
        match self {
            NameSpec::Alt(_, a) => Some(a.0.clone()),
            _ => None,
        }
    }
    pub fn is_plain_utf8(&self) -> bool {
        matches!(self, NameSpec::Utf8(_) | NameSpec::Long(..))
    }
    pub fn is_utf8(&self) -> bool {
        !matches!(self, NameSpec::Raw(_))
    }
    /// The bytes that go in the classic name/comment field.
    pub fn basic(&self) -> Vec<u8> {
        self.alternative().unwrap_or_else(|| self.text_bytes())
    }
    /// Compares what a reader reports with this specification.
    pub fn check_read(&self, what: &str, got: &StrView) -> Result<(), String> {
        let want = self.text_bytes();
        if got.bytes != want {
            return Err(format!("{what}: bytes differ: wrote {} read {}", show(&want), show(&got.bytes)));
        }
        match self {
            NameSpec::Raw(_) => {
                // Pure ASCII is legitimately reported as text.
                if !want.is_ascii() && got.utf8 {
                    return Err(format!("{what}: raw bytes {} reported as UTF-8", show(&want)));
                }
            }
            _ => {
                if !got.utf8 {
                    return Err(format!("{what}: UTF-8 text {} reported as raw", show(&want)));
                }
            }
        }
        if let Some(a) = self.alternative() {
            if got.alternative.as_ref() != Some(&a) {
                return Err(format!("{what}: alternative differs: wrote {} read {:?}", show(&a), got.alternative.as_deref().map(show)));
            }
        }
        Ok(())
    }
}

pub fn show(b: &[u8]) -> String {
    if b.len() > 60 {
        format!("{}..({} bytes)", to_hex(&b[..60]), b.len())
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}

fn text_strategy(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        4 => proptest::collection::vec(proptest::char::range('a', 'z'), 0..=max.min(12)).prop_map(|v| v.into_iter().collect()),
        2 => proptest::collection::vec(any::<char>(), 0..=max.min(8)).prop_map(|v| v.into_iter().collect()),
        2 => proptest::collection::vec(proptest::sample::select(vec!["a", "/", "..", "\\", "dir/", "é", "日本", "🗜", " ", ".txt", "\u{0}", "PK"]), 0..6).prop_map(|v| v.concat()),
    ]
    .boxed()
}

fn raw_strategy() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => proptest::collection::vec(any::<u8>(), 1..24),
        2 => proptest::collection::vec(0x80u8..=0xff, 1..12),
        1 => proptest::collection::vec(proptest::sample::select(vec![b'P', b'K', 5, 6, 1, 2, 3, 4, 7, 8, 0xff, 0]), 1..30),
    ]
    .boxed()
}

/// Names and comments as a user may construct them.
pub fn name_strategy() -> BoxedStrategy<NameSpec> {
    prop_oneof![
        6 => text_strategy(12).prop_map(NameSpec::Utf8),
        2 => (text_strategy(10), prop_oneof![7 => raw_strategy(), 1 => Just(vec![])]).prop_map(|(s, a)| NameSpec::Alt(s, Hex(a))),
        2 => raw_strategy().prop_map(|b| NameSpec::Raw(Hex(b))),
    ]
    .boxed()
}

pub fn comment_strategy() -> BoxedStrategy<NameSpec> {
    prop_oneof![4 => Just(NameSpec::Utf8(String::new())), 5 => name_strategy()].boxed()
}

// ---------------------------------------------------------------- entries

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Method {
    Stored,
    Deflate,
    Bz,
    Lzma,
    Zstd,
    Xz,
}

impl Method {
    pub fn id(self) -> u16 {
        match self {
            Method::Stored => codec::STORED,
            Method::Deflate => codec::DEFLATE,
            Method::Bz => codec::BZ,
            Method::Lzma => codec::LZMA,
            Method::Zstd => codec::ZSTD,
            Method::Xz => codec::XZ,
        }
    }
    pub fn compression(self) -> Compression {
        match self {
            Method::Stored => Compression::Stored,
            Method::Deflate => Compression::Deflate,
            Method::Bz => Compression::Bz,
            Method::Lzma => Compression::Lzma,
            Method::Zstd => Compression::Zstd,
            Method::Xz => Compression::Xz,
        }
    }
}

pub const ALL_METHODS: [Method; 6] = [Method::Stored, Method::Deflate, Method::Bz, Method::Zstd, Method::Xz, Method::Lzma];

pub fn method_strategy() -> BoxedStrategy<Method> {
    prop_oneof![
        8 => Just(Method::Stored),
        10 => Just(Method::Deflate),
        4 => Just(Method::Zstd),
        3 => Just(Method::Bz),
        1 => Just(Method::Xz),
        1 => Just(Method::Lzma),
    ]
    .boxed()
}

/// Cheap methods only (no multi-megabyte encoder state).
pub fn light_method_strategy() -> BoxedStrategy<Method> {
    prop_oneof![8 => Just(Method::Stored), 8 => Just(Method::Deflate), 3 => Just(Method::Zstd)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct ExtraSpec {
    pub id: u16,
    pub data: Hex,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum How {
    Whole,
    WholePre,
    /// quirk: 1 = vectored writes, 2 = the AsyncWrite side is closed before the entry is.
    Stream {
        chunks: Vec<u32>,
        flush: Vec<bool>,
        #[serde(default)]
        quirk: u8,
    },
    StreamPre {
        chunks: Vec<u32>,
        #[serde(default)]
        quirk: u8,
    },
}

impl How {
    pub fn is_stream(&self) -> bool {
        matches!(self, How::Stream { .. } | How::StreamPre { .. })
    }
    pub fn label(&self) -> &'static str {
        match self {
            How::Whole => "whole",
            How::WholePre => "whole-pre",
            How::Stream { .. } => "stream",
            How::StreamPre { .. } => "stream-pre",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntrySpec {
    pub name: NameSpec,
    pub comment: NameSpec,
    pub method: Method,
    pub level: Option<i32>,
    pub date: (u16, u16),
    pub internal: u16,
    pub external: u32,
    pub perms: Option<u16>,
    pub extra: Vec<ExtraSpec>,
    pub data: DataSpec,
    pub how: How,
    /// Leave wrong CRC and sizes on the builder where the writer is documented to compute them.
    pub stale: bool,
}

pub fn how_strategy() -> BoxedStrategy<How> {
    let quirk = prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
    let chunk = prop_oneof![3 => 1u32..20, 2 => 1u32..5000, 1 => Just(1u32), 1 => Just(100_000u32), 1 => Just(0u32)];
    prop_oneof![
        4 => Just(How::Whole),
        1 => Just(How::WholePre),
        4 => (proptest::collection::vec(chunk.clone(), 1..5), proptest::collection::vec(proptest::bool::weighted(0.3), 0..4), quirk.clone()).prop_map(|(chunks, flush, quirk)| How::Stream { chunks, flush, quirk }),
        1 => (proptest::collection::vec(chunk, 1..4), quirk).prop_map(|(chunks, quirk)| How::StreamPre { chunks, quirk }),
    ]
    .boxed()
}

/// Fields of a few bytes each, as many as fit in `total` bytes.
pub fn tiny_fields(total: usize, seed: u64) -> Vec<ExtraSpec> {
    let mut v = vec![];
    let mut used = 0;
    for i in 0u64.. {
        let k = seed.wrapping_add(i).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let len = if seed & 1 == 0 { 1 } else { 1 + (k >> 60) as usize % 6 };
        used += 4 + len;
        if used > total {
            break;
        }
        v.push(ExtraSpec { id: 0x4100 + (k >> 40) as u16 % 1000, data: Hex((0..len).map(|j| (k >> (8 * j)) as u8).collect()) });
    }
    v
}

pub fn extra_strategy() -> BoxedStrategy<Vec<ExtraSpec>> {
    let one = (
        prop_oneof![3 => num16(), 1 => proptest::sample::select(vec![0x5455u16, 0x7875, 0xCAFE, 0x000a, 0x9901, 0, 2, 0xffff])],
        prop_oneof![1 => Just(vec![]), 4 => proptest::collection::vec(any::<u8>(), 0..24), 1 => proptest::collection::vec(any::<u8>(), 24..300)],
    )
        .prop_map(|(id, d)| ExtraSpec { id: if matches!(id, 0x0001 | 0x6375 | 0x7075) { 0x4444 } else { id }, data: Hex(d) });
    (prop_oneof![4 => Just(vec![]), 3 => proptest::collection::vec(one, 0..4)], proptest::bool::weighted(0.1))
        .prop_map(|(mut v, same)| {
            // Fields of one kind may repeat.
            if let (true, Some(id)) = (same, v.first().map(|f| f.id)) {
                v.iter_mut().for_each(|f| f.id = id);
            }
            v
        })
        .boxed()
}

pub fn level_strategy() -> BoxedStrategy<Option<i32>> {
    prop_oneof![3 => Just(None), 2 => (-3i32..=4).prop_map(Some), 1 => proptest::sample::select(vec![5, 6, 7, 8, 9]).prop_map(Some)].boxed()
}

pub fn fix_level(m: Method, l: Option<i32>) -> Option<i32> {
    match m {
        // Keep the memory of xz/lzma/zstd encoders bounded; the level itself is clamped by the codec.
        Method::Xz | Method::Lzma => l.map(|x| x.clamp(-3, 4)),
        _ => l,
    }
}

pub fn entry_strategy_with(method: BoxedStrategy<Method>, max_data: u32) -> BoxedStrategy<EntrySpec> {
    (
        (name_strategy(), comment_strategy(), method, level_strategy()),
        ((num16(), num16()), num16(), num32(), proptest::option::of(num16()), extra_strategy()),
        (data_strategy(max_data), how_strategy(), proptest::bool::weighted(0.15)),
    )
        .prop_map(|((name, comment, method, level), (date, internal, external, perms, extra), (data, how, stale))| EntrySpec {
            name,
            comment,
            method,
            level: fix_level(method, level),
            date,
            internal,
            external,
            perms,
            extra,
            data,
            how,
            stale,
        })
        .boxed()
}

pub fn entry_strategy(max_data: u32) -> BoxedStrategy<EntrySpec> {
    entry_strategy_with(method_strategy(), max_data)
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Zip64Mode {
    Default,
    Force,
    Forbid,
}

pub fn zip64_strategy() -> BoxedStrategy<Zip64Mode> {
    prop_oneof![3 => Just(Zip64Mode::Default), 1 => Just(Zip64Mode::Force), 2 => Just(Zip64Mode::Forbid)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArchiveSpec {
    pub entries: Vec<EntrySpec>,
    pub comment: Option<String>,
    pub zip64: Zip64Mode,
}

pub fn archive_strategy_with(entry: BoxedStrategy<EntrySpec>, n: std::ops::Range<usize>) -> BoxedStrategy<ArchiveSpec> {
    (proptest::collection::vec(entry, n), archive_comment_strategy(), zip64_strategy(), proptest::bool::weighted(0.06))
        .prop_map(|(mut entries, comment, zip64, same)| {
            // Names may repeat.
            if let (true, Some(name)) = (same, entries.first().map(|e| e.name.clone())) {
                let small = |e: &EntrySpec| e.comment.text_bytes().len() < 2000 && e.extra.iter().map(|x| x.data.0.len()).sum::<usize>() < 2000;
                entries.iter_mut().skip(1).step_by(2).filter(|e| small(e) && name.text_bytes().len() < 2000).for_each(|e| e.name = name.clone());
            }
            ArchiveSpec { entries, comment, zip64 }
        })
        .boxed()
}

pub fn archive_comment_strategy() -> BoxedStrategy<Option<String>> {
    prop_oneof![2 => Just(None), 3 => text_strategy(30).prop_map(Some)].boxed()
}

pub fn archive_strategy(n: std::ops::Range<usize>, max_data: u32) -> BoxedStrategy<ArchiveSpec> {
    archive_strategy_with(entry_strategy(max_data), n)
}

// ---------------------------------------------------------------- building through the public API

pub fn dos_date(d: (u16, u16)) -> ZipDateTime {
    ZipDateTimeBuilder::new()
        .year(1980 + (d.0 >> 9) as i32)
        .month((d.0 >> 5 & 15) as u32)
        .day((d.0 & 31) as u32)
        .hour((d.1 >> 11) as u32)
        .minute((d.1 >> 5 & 63) as u32)
        .second((d.1 & 31) as u32 * 2)
        .build()
}

pub fn date_pattern(d: &ZipDateTime) -> (u16, u16) {
    (
        (((d.year() - 1980) as u16) << 9) | (d.month() as u16) << 5 | d.day() as u16,
        (d.hour() as u16) << 11 | (d.minute() as u16) << 5 | (d.second() / 2) as u16,
    )
}

/// Attaches unknown extra fields. Their type has no public constructor, so they are obtained from the reader.
pub fn with_extra(b: ZipEntryBuilder, extra: &[ExtraSpec]) -> ZipEntryBuilder {
    if extra.is_empty() {
        return b;
    }
    let bytes = foreign::single_with_cd_extra(extra);
    let r = crate::exec::block_on(mem::ZipFileReader::new(bytes)).expect("carrier archive for extra fields must open");
    b.extra_fields(r.file().entries()[0].extra_fields().to_vec())
}

pub fn builder_for(e: &EntrySpec) -> ZipEntryBuilder {
    let mut b = ZipEntryBuilder::new(e.name.zip_string(), e.method.compression())
        .comment(e.comment.zip_string())
        .last_modification_date(dos_date(e.date))
        .internal_file_attribute(e.internal)
        .external_file_attribute(e.external);
    if let Some(p) = e.perms {
        b = b.unix_permissions(p);
    }
    if let Some(l) = e.level {
        b = b.deflate_option(DeflateOption::Other(l));
    }
    with_extra(b, &e.extra)
}

/// Parts of `data` as the chunk list (cyclic) dictates.
pub fn chunked<'a>(data: &'a [u8], chunks: &[u32]) -> Vec<&'a [u8]> {
    let mut out = Vec::new();
    let mut pos = 0;
    let mut i = 0;
    let all_zero = chunks.iter().all(|c| *c == 0);
    while pos < data.len() {
        let c = if chunks.is_empty() || all_zero { data.len() as u32 } else { chunks[i % chunks.len()] } as usize;
        // Many-entry chunk lists are capped so a 1-byte chunking of a large payload stays affordable.
        let c = if i > 3000 { data.len() } else { c };
        let end = (pos + c).min(data.len());
        out.push(&data[pos..end]);
        pos = end;
        i += 1;
    }
    if data.is_empty() {
        for c in chunks {
            if *c == 0 {
                out.push(&data[..0]);
            }
        }
    }
    out
}

pub fn flush_supported(m: Method) -> bool {
    // The LZMA-alone encoder has no sync flush.
    !matches!(m, Method::Lzma)
}

/// Whether flushing after `*since` bytes since the last flush is judged elsewhere (finding F5: with a full output buffer and a
/// sink that takes a few bytes at a time, flushing Deflate never ends; C25 decides that).
pub fn flush_now(m: Method, since: &mut usize, wanted: bool) -> bool {
    let now = wanted && flush_supported(m) && (m != Method::Deflate || *since < 8000);
    if now {
        *since = 0;
    }
    now
}

pub fn precompressed_for(e: &EntrySpec, data: &[u8]) -> Vec<u8> {
    codec::encode(e.method.id(), data, e.level.map(|l| l.clamp(0, 9) as u32).unwrap_or(3))
}

pub async fn write_entry<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, e: &EntrySpec) -> Result<(), ZipError> {
    let data = e.data.bytes();
    let b = builder_for(e);
    write_built(w, b, e, &data).await
}

/// Writes all of `data`, gathered from several slices if the quirk asks for it.
pub async fn put<W: AsyncWrite + Unpin>(w: &mut W, mut data: &[u8], quirk: u8) -> std::io::Result<()> {
    if quirk & 1 == 0 {
        return w.write_all(data).await;
    }
    while !data.is_empty() {
        let (a, b) = data.split_at(data.len() / 3);
        let (b, c) = b.split_at(b.len() / 2);
        let n = w.write_vectored(&[IoSlice::new(&[]), IoSlice::new(a), IoSlice::new(b), IoSlice::new(c)]).await?;
        if n == 0 {
            return Err(std::io::ErrorKind::WriteZero.into());
        }
        data = &data[n..];
    }
    Ok(())
}

pub async fn write_built<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, mut b: ZipEntryBuilder, e: &EntrySpec, data: &[u8]) -> Result<(), ZipError> {
    if e.stale {
        b = b.crc32(0xdead_beefu32).compressed_size(12345u64).uncompressed_size(77u64);
    }
    match &e.how {
        How::Whole => w.write_entry_whole(b, data).await,
        How::WholePre => {
            let comp = precompressed_for(e, data);
            let b = b.crc32(crc32(data)).uncompressed_size(data.len() as u64);
            w.write_entry_whole_precompressed(b, &comp).await
        }
        How::Stream { chunks, flush, quirk } => {
            let mut s = w.write_entry_stream(b).await?;
            let mut since = 0;
            for (i, c) in chunked(data, chunks).into_iter().enumerate() {
                put(&mut s, c, *quirk).await?;
                since += c.len();
                if flush_now(e.method, &mut since, !flush.is_empty() && flush[i % flush.len()] && i < 40) {
                    s.flush().await?;
                }
            }
            if quirk & 2 != 0 {
                AsyncWriteExt::close(&mut s).await?;
            }
            s.close().await
        }
        How::StreamPre { chunks, quirk } => {
            let comp = precompressed_for(e, data);
            let b = b.crc32(crc32(data)).uncompressed_size(data.len() as u64);
            let mut s = w.write_entry_stream_precompressed(b).await?;
            for c in chunked(&comp, chunks) {
                put(&mut s, c, *quirk).await?;
            }
            if quirk & 2 != 0 {
                AsyncWriteExt::close(&mut s).await?;
            }
            s.close().await
        }
    }
}

pub fn set_mode<W: AsyncWrite + Unpin>(w: ZipFileWriter<W>, m: Zip64Mode) -> ZipFileWriter<W> {
    match m {
        Zip64Mode::Default => w,
        Zip64Mode::Force => w.force_zip64(),
        Zip64Mode::Forbid => w.force_no_zip64(),
    }
}

pub async fn write_archive<W: AsyncWrite + Unpin>(w: ZipFileWriter<W>, a: &ArchiveSpec) -> Result<W, ZipError> {
    let mut w = set_mode(w, a.zip64);
    // The comment may be set at any time, and the last one counts.
    if let (1, Some(_)) = (a.entries.len() % 3, &a.comment) {
        w.comment("superseded".into());
    }
    if let (2, Some(c)) = (a.entries.len() % 3, &a.comment) {
        w.comment(c.clone());
    }
    for e in &a.entries {
        write_entry(&mut w, e).await?;
    }
    if let (0 | 1, Some(c)) = (a.entries.len() % 3, &a.comment) {
        w.comment(c.clone());
    }
    w.close().await
}

/// Writes into memory with ideal I/O.
pub fn write_mem(a: &ArchiveSpec) -> Result<Vec<u8>, String> {
    crate::exec::block_on(write_archive(ZipFileWriter::new(Vec::new()), a)).map_err(|e| format!("writing failed: {e}"))
}

// ---------------------------------------------------------------- what a reader reports

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StrView {
    pub bytes: Vec<u8>,
    pub utf8: bool,
    pub alternative: Option<Vec<u8>>,
}

pub fn str_view(s: &ZipString) -> StrView {
    let utf8 = matches!(s.encoding(), StringEncoding::Utf8);
    // A string claimed to be UTF-8 must be valid, and conversions must agree with the claim.
    if utf8 {
        let t = std::str::from_utf8(s.as_bytes()).unwrap_or_else(|_| panic!("string labelled UTF-8 is not valid UTF-8: {}", show(s.as_bytes())));
        assert_eq!(s.as_str().expect("as_str on UTF-8"), t);
    } else {
        assert!(s.as_str().is_err(), "as_str succeeded on a raw string");
    }
    StrView { bytes: s.as_bytes().to_vec(), utf8, alternative: s.alternative().map(|a| a.to_vec()) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Meta {
    pub name: StrView,
    pub comment: StrView,
    pub method: u16,
    pub crc: u32,
    pub csize: u64,
    pub usize_: u64,
    pub date: (u16, u16),
    pub internal: u16,
    pub external: u32,
    pub perms: Option<u16>,
    pub extra: Vec<String>,
}

pub fn meta(e: &ZipEntry) -> Meta {
    Meta {
        name: str_view(e.filename()),
        comment: str_view(e.comment()),
        method: e.compression().into(),
        crc: e.crc32(),
        csize: e.compressed_size(),
        usize_: e.uncompressed_size(),
        date: date_pattern(e.last_modification_date()),
        internal: e.internal_file_attribute(),
        external: e.external_file_attribute(),
        perms: e.unix_permissions(),
        extra: e.extra_fields().iter().map(|x| format!("{x:?}")).collect(),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stored {
    pub meta: Meta,
    pub offset: u64,
    pub header_size: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Listing {
    pub comment: StrView,
    pub zip64: bool,
    pub entries: Vec<Stored>,
}

pub fn listing(f: &ZipFile) -> Listing {
    Listing {
        comment: str_view(f.comment()),
        zip64: f.zip64(),
        entries: f
            .entries()
            .iter()
            .map(|s| Stored { meta: meta(s), offset: s.header_offset(), header_size: s.header_size() })
            .collect(),
    }
}

pub fn open_mem(bytes: Vec<u8>) -> Result<mem::ZipFileReader, ZipError> {
    crate::exec::block_on(mem::ZipFileReader::new(bytes))
}

/// Checked content of entry `i` through the in-memory reader.
pub fn mem_content(r: &mem::ZipFileReader, i: usize) -> Result<Vec<u8>, String> {
    crate::exec::block_on(async {
        let mut er = r.reader_with_entry(i).await.map_err(|e| format!("opening entry {i}: {e}"))?;
        let mut out = Vec::new();
        let n = er.read_to_end_checked(&mut out).await.map_err(|e| format!("checked read of entry {i}: {e}"))?;
        if n != out.len() {
            return Err(format!("checked read of entry {i} returned {n} for {} bytes", out.len()));
        }
        Ok(out)
    })
}

pub async fn read_all<R: AsyncRead + Unpin>(r: &mut R) -> Result<Vec<u8>, std::io::Error> {
    let mut v = Vec::new();
    r.read_to_end(&mut v).await?;
    Ok(v)
}

/// Short description of the first difference between two byte strings.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} / {}, first difference at {}", a.len(), b.len(), i)
}

// ---------------------------------------------------------------- shared oracles

/// Entry names, order and contents against the specification (C01's core; reused elsewhere).
pub fn check_roundtrip(bytes: Vec<u8>, entries: &[&EntrySpec]) -> Result<mem::ZipFileReader, String> {
    let r = open_mem(bytes).map_err(|e| format!("opening the finished archive: {e}"))?;
    let n = r.file().entries().len();
    if n != entries.len() {
        return Err(format!("{} entries written, {n} read", entries.len()));
    }
    for (i, e) in entries.iter().enumerate() {
        e.name.check_read(&format!("entry {i} filename"), &str_view(r.file().entries()[i].filename()))?;
        let want = e.data.bytes();
        let got = mem_content(&r, i)?;
        if got != want {
            return Err(format!("entry {i} content: {}", diff(&want, &got)));
        }
        let m = &r.file().entries()[i];
        if m.uncompressed_size() != want.len() as u64 || m.crc32() != crc32(&want) {
            return Err(format!("entry {i}: size {} and CRC {:08x} recorded for {} bytes with CRC {:08x}", m.uncompressed_size(), m.crc32(), want.len(), crc32(&want)));
        }
    }
    Ok(r)
}

pub fn classify(a: &ArchiveSpec, ctx: &mut crate::engine::Ctx) {
    for e in &a.entries {
        ctx.label(format!("how={}", e.how.label()));
        ctx.label(format!("method={:?}", e.method));
        ctx.label_if(e.data.len() == 0, "empty-data");
        ctx.label_if(e.data.len() > 65536, "data>64K");
        ctx.label_if(e.stale, "stale-fields");
        ctx.label_if(!e.name.is_plain_utf8(), "name-not-plain-utf8");
        if let How::Stream { flush, .. } = &e.how {
            ctx.label_if(flush.iter().any(|f| *f), "flush");
        }
    }
    ctx.label(format!("zip64={:?}", a.zip64));
    ctx.label(match a.entries.len() {
        0 => "entries=0",
        1 => "entries=1",
        2..=5 => "entries=2-5",
        _ => "entries>5",
    });
    ctx.label_if(a.comment.is_some(), "archive-comment");
}

pub fn is_mixed(a: &ArchiveSpec) -> bool {
    a.entries.len() >= 2 && a.entries.iter().any(|e| e.data.len() > 0 && (e.method != Method::Stored || e.how.is_stream()))
}
