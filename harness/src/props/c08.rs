//! C08: no input makes a reader panic, hang or over-allocate.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::readers::*;
use crate::sio::*;
use async_zip::base::read::{mem, seek, stream, ZipEntryReader};
use async_zip::{ZipEntry, ZipEntryBuilder};
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        rule: "arbitrary bytes given to the in-memory, seek, filesystem and streaming readers: mutations and splices of valid archives, hand-laid records with hostile counts, sizes and offsets, arbitrary extra-field areas, garbage as compressed data, random bytes laced with signatures, the inputs a coverage-guided search kept and mutations and splices of them; oracle: returns (CPU and operation budgets), no panic or overflow (overflow checks and debug assertions on), allocation while opening at most 64 MiB + 64 x input; non-trivial = the input still contains an end record or a local header that a reader looks at",
        assumptions: &["at most 1 MiB of each entry's data is drawn, as decompressed size is legitimately unbounded", "memory of the decoders in dependencies is not judged"],
        parts: || {
            vec![
                part("mutated", 200000, 4000000, mutated_strategy(), check_mutated),
                part("hostile", 250000, 4000000, hostile_strategy(), check_hostile),
                part("extra", 250000, 4000000, extra_area_strategy(), check_extra),
                part("garbage", 40000, 800000, garbage_strategy(), check_garbage),
                part("corpus", 150000, 3000000, corpus_strategy(), check_corpus),
                part("raw", 150000, 3000000, raw_strategy(), check_raw),
            ]
        },
    }
}

const LIMIT: usize = 1 << 20;

async fn drain<R: AsyncBufRead + Unpin, E>(er: &mut ZipEntryReader<'_, R, E>) -> bool {
    let mut buf = vec![0u8; 16384];
    let mut total = 0;
    loop {
        match er.read(&mut buf).await {
            Ok(0) => return true,
            Ok(n) => total += n,
            Err(_) => return false,
        }
        if total > LIMIT {
            return false;
        }
    }
}

/// Everything a caller may ask of a reported entry.
fn touch(e: &ZipEntry) {
    let _ = meta(e);
    let _ = e.dir();
    let d = e.last_modification_date();
    let _ = d.as_chrono();
    let _ = format!("{e:?}");
    let b: ZipEntryBuilder = e.clone().into();
    let _ = b.unix_permissions(1).build();
}

pub fn exercise(bytes: &[u8], fs: bool, ctx: &mut Ctx) -> Check {
    let len = bytes.len();
    let cap = (64 << 20) + 64 * len;
    let judge = |what: &str, base: usize| {
        let grown = crate::alloc::peak().saturating_sub(base);
        if grown > cap {
            Err(format!("{what}: {grown} bytes allocated for an input of {len} bytes"))
        } else {
            Ok(())
        }
    };
    // In-memory.
    let owned = bytes.to_vec();
    let base = crate::alloc::live();
    crate::alloc::reset_peak();
    let m = no_panic(|| block_on(mem::ZipFileReader::new(owned))).map_err(|e| format!("mem: {e}"))?;
    judge("mem", base)?;
    let mut opened = 0;
    if let Ok(r) = m {
        opened = r.file().entries().len();
        ctx.label("mem-opened");
        let _ = str_view(r.file().comment());
        for i in 0..opened.min(40) {
            touch(&r.file().entries()[i]);
            let e = &r.file().entries()[i];
            let _ = (e.header_offset(), e.header_size());
        }
        for i in (0..opened.min(6)).chain([opened, usize::MAX]) {
            no_panic(|| {
                block_on(async {
                    if let Ok(mut er) = r.reader_without_entry(i).await {
                        drain(&mut er).await;
                        er.compute_hash();
                    }
                    if let Ok(mut er) = r.reader_with_entry(i).await {
                        drain(&mut er).await;
                        let _ = er.read_to_end_checked_limited().await;
                    }
                })
            })
            .map_err(|e| format!("mem entry {i}: {e}"))?;
        }
    }
    // Seek, counting operations.
    let rc = Rc::new(bytes.to_vec());
    let budget = 200_000 + 64 * len as u64;
    let base = crate::alloc::live();
    crate::alloc::reset_peak();
    let src = SchedReader::new(rc.clone(), Schedule::full()).with_budget(budget);
    let log = src.log.clone();
    let s = no_panic(|| block_on(seek::ZipFileReader::new(src))).map_err(|e| format!("seek: {e}"))?;
    judge("seek", base)?;
    if let Ok(mut z) = s {
        for i in 0..opened.min(6) {
            log.borrow_mut().ops = 0;
            no_panic(|| {
                block_on(async {
                    if let Ok(mut er) = z.reader_with_entry(i).await {
                        drain(&mut er).await;
                    }
                })
            })
            .map_err(|e| format!("seek entry {i}: {e}"))?;
        }
    }
    // Streaming.
    for with in [false, true] {
        let src = SchedReader::new(rc.clone(), Schedule::full()).with_budget(budget).with_cap(if with { 4096 } else { 17 });
        let base = crate::alloc::live();
        crate::alloc::reset_peak();
        let n = no_panic(|| block_on(walk(src, with))).map_err(|e| format!("stream (with entry: {with}): {e}"))?;
        let _ = base;
        ctx.label_if(n > 0, "stream-entry");
    }
    if fs {
        let s = Scratch::new();
        let p = s.file("a.zip", bytes);
        no_panic(|| {
            on_tokio(async {
                if let Ok(r) = async_zip::tokio::read::fs::ZipFileReader::new(&p).await {
                    for i in 0..r.file().entries().len().min(3) {
                        if let Ok(mut er) = r.reader_with_entry(i).await {
                            drain(&mut er).await;
                        }
                    }
                }
            })
        })
        .map_err(|e| format!("fs: {e}"))?;
    }
    Ok(())
}

/// Traverses up to 40 entries, drawing at most LIMIT bytes of each.
async fn walk(src: SchedReader<Rc<Vec<u8>>>, with: bool) -> usize {
    let small = src.data.len() < 2000;
    let mut z = stream::ZipFileReader::new(src);
    let mut n = 0;
    while n < 40 {
        if with {
            let Ok(Some(mut rd)) = z.next_with_entry().await else { break };
            n += 1;
            touch(rd.reader().entry());
            let cheap = matches!(rd.reader().entry().compression(), async_zip::Compression::Stored | async_zip::Compression::Deflate);
            if small && cheap && n % 2 == 0 {
                match rd.skip().await {
                    Ok(x) => z = x,
                    Err(_) => break,
                }
                continue;
            }
            if !drain(rd.reader_mut()).await {
                break;
            }
            match rd.done().await {
                Ok(x) => z = x,
                Err(_) => break,
            }
        } else {
            let Ok(Some(mut rd)) = z.next_without_entry().await else { break };
            n += 1;
            if !drain(rd.reader_mut()).await {
                break;
            }
            match rd.done().await {
                Ok(x) => z = x,
                Err(_) => break,
            }
        }
    }
    n
}

/// A checked read after the data was drawn up to the limit (so that it returns soon unless more than LIMIT is left).
trait Limited {
    async fn read_to_end_checked_limited(&mut self) -> Option<usize>;
}
impl<R: AsyncBufRead + Unpin> Limited for ZipEntryReader<'_, R, async_zip::base::read::WithEntry<'_>> {
    async fn read_to_end_checked_limited(&mut self) -> Option<usize> {
        let mut b = [0u8; 1];
        match self.read(&mut b).await {
            Ok(0) => self.read_to_end_checked(&mut vec![]).await.ok(),
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- mutations

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    Byte(u32, u8),
    Bit(u32, u8),
    V16(u32, u16),
    V32(u32, u32),
    V64(u32, u64),
    /// Field of a structure: which record (index into the known record starts), offset within it, width, value.
    Field(u16, u8, u8, u64),
    Cut(u32),
    Drop(u32, u16),
    Insert(u32, Hex),
    Copy(u32, u32, u16),
    Prefix(Hex),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    a: FArchive,
    muts: Vec<Mut>,
    fs: bool,
}

pub fn interesting() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => proptest::sample::select(vec![0u64, 1, 2, 3, 4, 7, 8, 15, 16, 17, 20, 21, 22, 28, 30, 45, 46, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX - 30, u64::MAX - 1, u64::MAX]),
        1 => any::<u64>(),
        2 => 0u64..300,
        1 => proptest::sample::select(SIGNATURES.to_vec()).prop_map(|s| s as u64),
    ]
    .boxed()
}

pub fn mut_strategy() -> BoxedStrategy<Mut> {
    let pos = any::<u32>();
    prop_oneof![
        2 => (pos, any::<u8>()).prop_map(|(p, b)| Mut::Byte(p, b)),
        1 => (pos, 0u8..8).prop_map(|(p, b)| Mut::Bit(p, b)),
        1 => (pos, interesting()).prop_map(|(p, v)| Mut::V16(p, v as u16)),
        1 => (pos, interesting()).prop_map(|(p, v)| Mut::V32(p, v as u32)),
        1 => (pos, interesting()).prop_map(|(p, v)| Mut::V64(p, v)),
        10 => (any::<u16>(), prop_oneof![4 => 0u8..60, 1 => any::<u8>()], prop_oneof![Just(1u8), Just(2), Just(4), Just(8)], interesting()).prop_map(|(r, o, w, v)| Mut::Field(r, o, w, v)),
        1 => pos.prop_map(Mut::Cut),
        1 => (pos, 1u16..60).prop_map(|(p, n)| Mut::Drop(p, n)),
        1 => (pos, proptest::collection::vec(any::<u8>(), 1..30)).prop_map(|(p, b)| Mut::Insert(p, Hex(b))),
        1 => (pos, pos, 1u16..200).prop_map(|(a, b, n)| Mut::Copy(a, b, n)),
        1 => proptest::collection::vec(any::<u8>(), 1..40).prop_map(|b| Mut::Prefix(Hex(b))),
    ]
    .boxed()
}

fn mutated_strategy() -> BoxedStrategy<MCase> {
    (farchive_strategy(0..5, 600, false), proptest::collection::vec(mut_strategy(), 0..5), proptest::bool::weighted(0.1)).prop_map(|(a, muts, fs)| MCase { a, muts, fs }).boxed()
}

fn set(v: &mut [u8], p: usize, b: &[u8]) {
    for (i, x) in b.iter().enumerate() {
        if let Some(y) = v.get_mut(p + i) {
            *y = *x;
        }
    }
}

fn check_mutated(c: &MCase, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(!c.muts.is_empty());
    exercise(&mutate(&c.a, &c.muts), c.fs, ctx)
}

pub fn mutate(a: &FArchive, muts: &[Mut]) -> Vec<u8> {
    let b = a.build();
    let mut v = b.bytes.clone();
    let mut recs: Vec<usize> = b.offsets.iter().map(|x| *x as usize).chain(b.cd_record_offsets.iter().copied()).collect();
    recs.push(b.eocdr);
    recs.push(b.eocdr);
    if a.end64.is_some() {
        recs.push(b.eocdr - 20);
        recs.push(b.eocdr - 20 - 56 - a.end64.as_ref().unwrap().ext.0.len());
    }
    apply(&mut v, &recs, muts);
    v
}

/// Applies mutations to bytes whose records start at the given positions.
fn apply(v: &mut Vec<u8>, recs: &[usize], muts: &[Mut]) {
    for m in muts {
        let n = v.len().max(1);
        match m {
            Mut::Byte(p, x) => set(v, *p as usize % n, &[*x]),
            Mut::Bit(p, k) => {
                if let Some(x) = v.get_mut(*p as usize % n) {
                    *x ^= 1 << k
                }
            }
            Mut::V16(p, x) => set(v, *p as usize % n, &x.to_le_bytes()),
            Mut::V32(p, x) => set(v, *p as usize % n, &x.to_le_bytes()),
            Mut::V64(p, x) => set(v, *p as usize % n, &x.to_le_bytes()),
            Mut::Field(r, o, w, x) => set(v, recs[*r as usize % recs.len()] + *o as usize, &x.to_le_bytes()[..*w as usize]),
            Mut::Cut(p) => v.truncate(*p as usize % n),
            Mut::Drop(p, k) => {
                let p = *p as usize % n;
                let e = (p + *k as usize).min(v.len());
                if p < e {
                    v.drain(p..e);
                }
            }
            Mut::Insert(p, h) => {
                let p = (*p as usize % n).min(v.len());
                v.splice(p..p, h.0.iter().copied());
            }
            Mut::Copy(a, d, k) => {
                let a = *a as usize % n;
                let e = (a + *k as usize).min(v.len());
                if a < e {
                    let part = v[a..e].to_vec();
                    set(v, *d as usize % n, &part);
                }
            }
            Mut::Prefix(h) => {
                v.splice(0..0, h.0.iter().copied());
            }
        }
    }
}

// ---------------------------------------------------------------- corpus

/// Inputs which a coverage-guided search (tools/fuzz.sh) kept, each preceded by its length.
static CORPUS: &[u8] = include_bytes!("../../corpus/c08.bin");

fn corpus() -> &'static Vec<&'static [u8]> {
    static ITEMS: std::sync::OnceLock<Vec<&'static [u8]>> = std::sync::OnceLock::new();
    ITEMS.get_or_init(|| {
        let mut items = vec![];
        let mut rest = CORPUS;
        while let [a, b, tail @ ..] = rest {
            let n = u16::from_le_bytes([*a, *b]) as usize;
            items.push(&tail[..n]);
            rest = &tail[n..];
        }
        items
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KCase {
    pub item: u64,
    pub muts: Vec<Mut>,
    pub splice: Option<(u64, u16, u16)>,
}

pub fn corpus_strategy() -> BoxedStrategy<KCase> {
    let n = corpus().len() as u64;
    let splice = proptest::option::weighted(0.2, (0..n, any::<u16>(), any::<u16>()));
    (index_strategy(), proptest::collection::vec(mut_strategy(), 1..4), splice)
        // The inputs themselves come first.
        .prop_map(move |(i, muts, splice)| if i < n { KCase { item: i, muts: vec![], splice: None } } else { KCase { item: i % n, muts, splice } })
        .boxed()
}

pub fn corpus_bytes(c: &KCase) -> Vec<u8> {
    let items = corpus();
    let mut v = items[c.item as usize % items.len()].to_vec();
    let recs: Vec<usize> = (0..v.len().saturating_sub(3)).filter(|i| v[*i..].starts_with(b"PK")).chain([0]).collect();
    apply(&mut v, &recs, &c.muts);
    if let Some((other, at, from)) = &c.splice {
        let o = items[*other as usize % items.len()];
        v.truncate(*at as usize % v.len().max(1));
        v.extend_from_slice(&o[*from as usize % o.len().max(1)..]);
    }
    v
}

fn check_corpus(c: &KCase, ctx: &mut Ctx) -> Check {
    let v = corpus_bytes(c);
    ctx.nontrivial_if(v.windows(4).any(|w| w == [0x50, 0x4b, 5, 6]) || v.starts_with(&[0x50, 0x4b, 3, 4]));
    ctx.label_if(c.muts.is_empty(), "as-found");
    exercise(&v, c.item % 64 == 0, ctx)
}

// ---------------------------------------------------------------- hostile records

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HCase {
    /// Records of the central directory: (field offset, width, value) overrides, then bytes.
    cd: Vec<(Vec<(u8, u64)>, u8, u8, u8)>,
    count: u64,
    count_disk: Option<u64>,
    cd_offset: Option<u64>,
    cd_size: u64,
    disk: (u16, u16),
    z64: Option<Z64>,
    comment_len: Option<u16>,
    comment: Hex,
    prefix: Hex,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Z64 {
    sentinels: u8,
    size: u64,
    count: u64,
    count_disk: u64,
    cd_size: u64,
    cd_offset: Option<u64>,
    disk: (u32, u32),
    locator: Option<u64>,
    disks: u32,
    ext: u8,
}

fn hostile_strategy() -> BoxedStrategy<HCase> {
    let rec = (proptest::collection::vec((0u8..12, interesting()), 0..4), 0u8..20, 0u8..40, 0u8..20);
    let count = prop_oneof![3 => 0u64..8, 2 => interesting()];
    let z64 = (
        (0u8..16, interesting(), interesting(), interesting(), interesting()),
        (proptest::option::of(interesting()), (any::<u32>(), any::<u32>()), proptest::option::weighted(0.3, interesting()), any::<u32>(), 0u8..40, any::<bool>()),
    )
        .prop_map(|((sentinels, size, count, cdk, cd_size), (cd_offset, disk, locator, disks, ext, same))| Z64 { sentinels, size, count, count_disk: if same { count } else { cdk }, cd_size, cd_offset, disk: if same { (disk.0, disk.0) } else { disk }, locator, disks, ext });
    (
        proptest::collection::vec(rec, 0..6),
        count,
        proptest::option::weighted(0.2, interesting()),
        proptest::option::weighted(0.3, interesting()),
        interesting(),
        prop_oneof![3 => Just((0u16, 0u16)), 1 => any::<(u16, u16)>()],
        proptest::option::of(z64),
        (proptest::option::weighted(0.2, any::<u16>()), prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 0..60)], proptest::collection::vec(any::<u8>(), 0..120)),
    )
        .prop_map(|(cd, count, count_disk, cd_offset, cd_size, disk, z64, (comment_len, comment, prefix))| HCase { cd, count, count_disk, cd_offset, cd_size, disk, z64, comment_len, comment: Hex(comment), prefix: Hex(prefix) })
        .boxed()
}

const CD_FIELDS: [(usize, usize); 12] = [(8, 2), (10, 2), (16, 4), (20, 4), (24, 4), (28, 2), (30, 2), (32, 2), (34, 2), (36, 2), (38, 4), (42, 4)];

fn check_hostile(c: &HCase, ctx: &mut Ctx) -> Check {
    let mut v = c.prefix.0.clone();
    // A plausible local header to point to.
    let lfh = v.len();
    p32(&mut v, 0x04034b50);
    v.extend_from_slice(&[20, 0, 0, 0, 0, 0, 0, 0, 0x21, 0]);
    v.extend_from_slice(&[0; 12]);
    v.extend_from_slice(&[1, 0, 0, 0, b'a']);
    let start = v.len();
    for (over, nl, xl, cl) in &c.cd {
        let mut r = vec![];
        p32(&mut r, 0x02014b50);
        r.resize(46, 0);
        r[28] = *nl;
        r[30] = *xl;
        r[32] = *cl;
        r[42..46].copy_from_slice(&(lfh as u32).to_le_bytes());
        for (f, x) in over {
            let (o, w) = CD_FIELDS[*f as usize];
            r[o..o + w].copy_from_slice(&x.to_le_bytes()[..w]);
        }
        v.extend_from_slice(&r);
        v.resize(v.len() + *nl as usize, b'n');
        // Extra fields of the form id, length, content as far as they fit.
        let mut x = vec![];
        if *xl >= 4 {
            p16(&mut x, if xl % 3 == 0 { 1 } else { 0x7075 });
            p16(&mut x, (*xl as u16 - 4).wrapping_add((over.len() as u16) / 2));
        }
        x.resize(*xl as usize, 0xff);
        v.extend_from_slice(&x);
        v.resize(v.len() + *cl as usize, b'c');
    }
    let s = c.z64.as_ref().map(|z| z.sentinels).unwrap_or(0);
    if let Some(z) = &c.z64 {
        let at = v.len() as u64;
        p32(&mut v, 0x06064b50);
        p64(&mut v, z.size);
        p32(&mut v, 0x002d_002d);
        p32(&mut v, z.disk.0);
        p32(&mut v, z.disk.1);
        p64(&mut v, z.count_disk);
        p64(&mut v, z.count);
        p64(&mut v, z.cd_size);
        p64(&mut v, z.cd_offset.unwrap_or(start as u64));
        v.resize(v.len() + z.ext as usize, 7);
        p32(&mut v, 0x07064b50);
        p32(&mut v, 0);
        p64(&mut v, z.locator.unwrap_or(at));
        p32(&mut v, z.disks);
    }
    p32(&mut v, 0x06054b50);
    let d = if s & 8 != 0 { (u16::MAX, u16::MAX) } else { c.disk };
    p16(&mut v, d.0);
    p16(&mut v, d.1);
    p16(&mut v, if s & 1 != 0 { u16::MAX } else { c.count_disk.unwrap_or(c.count) as u16 });
    p16(&mut v, if s & 1 != 0 { u16::MAX } else { c.count as u16 });
    p32(&mut v, if s & 2 != 0 { u32::MAX } else { c.cd_size as u32 });
    p32(&mut v, if s & 4 != 0 { u32::MAX } else { c.cd_offset.unwrap_or(start as u64) as u32 });
    p16(&mut v, c.comment_len.unwrap_or(c.comment.0.len() as u16));
    v.extend_from_slice(&c.comment.0);
    ctx.nontrivial();
    ctx.label_if(c.count > 60_000 || c.z64.as_ref().is_some_and(|z| z.count > 60_000), "hostile-count");
    exercise(&v, false, ctx)
}

// ---------------------------------------------------------------- extra-field areas

#[derive(Clone, Debug, Serialize, Deserialize)]
struct XCase {
    area: Hex,
    claimed: Option<u16>,
    sizes: (u32, u32, u32),
    method: u16,
    flags: u16,
    name: Hex,
}

fn extra_area_strategy() -> BoxedStrategy<XCase> {
    let field = (
        prop_oneof![3 => Just(1u16), 2 => Just(0x7075u16), 2 => Just(0x6375u16), 2 => any::<u16>()],
        prop_oneof![4 => Just(None), 1 => interesting().prop_map(|x| Some(x as u16))],
        prop_oneof![2 => proptest::collection::vec(any::<u8>(), 0..33), 1 => proptest::collection::vec(Just(0xffu8), 0..33), 1 => proptest::sample::select(vec![0usize, 1, 4, 5, 8, 12, 16, 20, 24, 28, 32]).prop_map(|n| vec![1; n])],
    );
    let size = || prop_oneof![2 => Just(u32::MAX), 2 => 0u32..40, 1 => any::<u32>()];
    (
        proptest::collection::vec(field, 0..5),
        proptest::collection::vec(any::<u8>(), 0..6),
        proptest::option::weighted(0.15, interesting().prop_map(|x| x as u16)),
        (size(), size(), size()),
        proptest::sample::select(vec![0u16, 8, 8, 12, 93, 9]),
        any::<u16>(),
        proptest::collection::vec(any::<u8>(), 0..10),
    )
        .prop_map(|(fields, tail, claimed, sizes, method, flags, name)| {
            let mut area = vec![];
            for (id, len, data) in fields {
                p16(&mut area, id);
                p16(&mut area, len.unwrap_or(data.len() as u16));
                area.extend_from_slice(&data);
            }
            area.extend_from_slice(&tail);
            XCase { area: Hex(area), claimed, sizes, method, flags, name: Hex(name) }
        })
        .boxed()
}

fn check_extra(c: &XCase, ctx: &mut Ctx) -> Check {
    let mut v = vec![];
    let xl = c.claimed.unwrap_or(c.area.0.len() as u16);
    p32(&mut v, 0x04034b50);
    p16(&mut v, 20);
    p16(&mut v, c.flags);
    p16(&mut v, c.method);
    p32(&mut v, 0x21);
    p32(&mut v, 0);
    p32(&mut v, c.sizes.0);
    p32(&mut v, c.sizes.1);
    p16(&mut v, c.name.0.len() as u16);
    p16(&mut v, xl);
    v.extend_from_slice(&c.name.0);
    v.extend_from_slice(&c.area.0);
    v.extend_from_slice(&[3, 0, 1, 2, 3, 4, 5]);
    let cd = v.len();
    p32(&mut v, 0x02014b50);
    p32(&mut v, 0x0014_0014);
    p16(&mut v, c.flags);
    p16(&mut v, c.method);
    p32(&mut v, 0x21);
    p32(&mut v, 0);
    p32(&mut v, c.sizes.0);
    p32(&mut v, c.sizes.1);
    p16(&mut v, c.name.0.len() as u16);
    p16(&mut v, xl);
    p16(&mut v, 0);
    v.extend_from_slice(&[0; 8]);
    p32(&mut v, if c.sizes.2 < 40 { 0 } else { c.sizes.2 });
    v.extend_from_slice(&c.name.0);
    v.extend_from_slice(&c.area.0);
    let size = v.len() - cd;
    p32(&mut v, 0x06054b50);
    p32(&mut v, 0);
    p16(&mut v, 1);
    p16(&mut v, 1);
    p32(&mut v, size as u32);
    p32(&mut v, cd as u32);
    p16(&mut v, 0);
    ctx.nontrivial_if(!c.area.0.is_empty());
    exercise(&v, false, ctx)
}

// ---------------------------------------------------------------- garbage as compressed data

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GCase {
    method: u16,
    /// Valid data damaged at these places, or plain garbage.
    base: Option<DataSpec>,
    hits: Vec<(u16, u8)>,
    garbage: Hex,
    dd: bool,
}

fn garbage_strategy() -> BoxedStrategy<GCase> {
    (
        proptest::sample::select(vec![8u16, 8, 9, 12, 14, 93, 95]),
        proptest::option::of(data_strategy(3000)),
        proptest::collection::vec((any::<u16>(), any::<u8>()), 0..6),
        proptest::collection::vec(any::<u8>(), 0..200),
        any::<bool>(),
    )
        .prop_map(|(method, base, hits, g, dd)| GCase { method, base, hits, garbage: Hex(g), dd })
        .boxed()
}

fn check_garbage(c: &GCase, ctx: &mut Ctx) -> Check {
    let mut comp = match &c.base {
        Some(d) => crate::codec::encode(c.method, &d.bytes(), 3),
        None => c.garbage.0.clone(),
    };
    for (p, x) in &c.hits {
        let n = comp.len().max(1);
        if let Some(b) = comp.get_mut(*p as usize % n) {
            *b = *x;
        }
    }
    // A stored entry of these bytes, relabelled with the method.
    let a = FArchive { entries: vec![FEntry { data: DataSpec::Lit(Hex(comp)), dd: if c.dd { Dd::Sig32 } else { Dd::None }, ..plain_entry(b"g") }, plain_entry(b"h")], order: vec![], gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]), comment: Hex(vec![]), end64: None };
    let b = a.build();
    let mut v = b.bytes;
    v[8..10].copy_from_slice(&c.method.to_le_bytes());
    let cd = b.cd_record_offsets[0];
    v[cd + 10..cd + 12].copy_from_slice(&c.method.to_le_bytes());
    ctx.nontrivial();
    ctx.label(format!("method={}", c.method));
    exercise(&v, false, ctx)
}

// ---------------------------------------------------------------- raw bytes

fn raw_strategy() -> BoxedStrategy<Hex> {
    let piece = prop_oneof![
        3 => proptest::sample::select(SIGNATURES.to_vec()).prop_map(|s| s.to_le_bytes().to_vec()),
        3 => proptest::collection::vec(any::<u8>(), 0..24),
        2 => (0usize..60).prop_map(|n| vec![0; n]),
        1 => (0usize..30).prop_map(|n| vec![0xff; n]),
        2 => interesting().prop_map(|x| x.to_le_bytes().to_vec()),
        1 => Just({ let mut v = vec![]; p32(&mut v, 0x06054b50); v.resize(22, 0); v }),
    ];
    prop_oneof![
        4 => proptest::collection::vec(piece, 0..14).prop_map(|v| Hex(v.concat())),
        1 => (any::<u64>(), len_strategy(70_000)).prop_map(|(seed, len)| Hex(DataSpec::Sigs { seed, len: len.min(4000) }.bytes())),
    ]
    .boxed()
}

fn check_raw(c: &Hex, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(c.0.windows(4).any(|w| w == [0x50, 0x4b, 5, 6]) || c.0.starts_with(&[0x50, 0x4b, 3, 4]));
    exercise(&c.0, false, ctx)
}
