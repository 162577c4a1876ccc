//! C18: the central directory is found whatever surrounds the end record.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::readers::errkey;
use crate::sio::*;
use async_zip::base::read::seek;
use async_zip::error::ZipError;
use async_zip::ZipFile;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        rule: "lengths enumerates all archive comment lengths 0-65535 and sizes all archive sizes up to 16 KiB; lookalikes builds archives whose entry data, entry comments and archive comment are made of record signatures, truncated and complete copies of end records, ZIP64 locators pointing at random places and at copies of ZIP64 record signatures (also directly before the real end record); trailing appends bytes; none holds inputs without an end record in reach. The directory must be the encoder's, or the input refused; non-trivial = a comment longer than the search buffer, a look-alike in the search range, or an input to be refused of at least 22 bytes",
        assumptions: &["the archive comment does not itself end in a complete end record (its interpretation would be ambiguous)", "an input is to be refused if no end signature lies in its last 65557 bytes and one search buffer (2 KiB) before those"],
        parts: || {
            vec![
                part("lengths", 6_144, 49_152 * 1024, (index_strategy(), filler(), base()).prop_map(|(i, fill, base)| Lengths { first: (i % 1024) as u32 * 64, fill, base }), check_lengths),
                part("sizes", 1_536, 12_288, (index_strategy(), any::<bool>(), filler()).prop_map(|(i, z64, fill)| Sizes { first: (i % 256) as u32 * 64, z64, fill }), check_sizes),
                part("lookalikes", 360_000, 2_880_000, look_strategy(), check_look),
                part("trailing", 48_000, 384_000, (base(), proptest::collection::vec(any::<u8>(), 0..40), prop_oneof![3 => 0u32..5000, 1 => 0u32..65_000], any::<u64>(), filler()), check_trailing),
                part("none", 72_000, 576_000, none_strategy(), check_none),
            ]
        },
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Filler {
    Zeros,
    Signatures,
    /// Copies of a complete end record.
    Records,
    Partial,
    Random(u64),
}

fn filler() -> impl Strategy<Value = Filler> {
    prop_oneof![Just(Filler::Zeros), Just(Filler::Signatures), Just(Filler::Records), Just(Filler::Partial), any::<u64>().prop_map(Filler::Random)]
}

const SIG: [u8; 4] = *b"PK\x05\x06";

fn fill(f: Filler, n: usize) -> Vec<u8> {
    let cycle = |p: &[u8]| p.iter().copied().cycle().take(n).collect::<Vec<u8>>();
    match f {
        Filler::Zeros => vec![0; n],
        Filler::Signatures => cycle(&SIG),
        Filler::Records => cycle(&[&SIG[..], &[0; 18]].concat()),
        Filler::Partial => cycle(b"PK\x05PPK\x05\x05KPK\x06\x06PK\x05"),
        Filler::Random(s) => {
            let mut r = Rng(s);
            (0..n).map(|_| r.next() as u8).collect()
        }
    }
}

/// Makes sure no copy of a record within the comment ends exactly where the comment does.
fn disarm(comment: &mut [u8]) {
    let n = comment.len();
    loop {
        let mut changed = false;
        for i in 0..n.saturating_sub(21) {
            if comment[i..i + 4] == SIG && u16::from_le_bytes([comment[i + 20], comment[i + 21]]) as usize == n - i - 22 {
                comment[i + 20] ^= 0x80;
                changed = true;
            }
        }
        if !changed {
            return;
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Base {
    entries: u8,
    z64: bool,
    /// Bytes before the directory: without enough of them, the search reaches the start in one step and rereads the rest.
    pad: u32,
}

fn base() -> impl Strategy<Value = Base> {
    (0u8..3, any::<bool>(), prop_oneof![1 => Just(0u32), 3 => 2100u32..6500]).prop_map(|(entries, z64, pad)| Base { entries, z64, pad })
}

fn archive(b: &Base, comment: Vec<u8>) -> FArchive {
    FArchive {
        entries: (0..b.entries).map(|i| FEntry { data: DataSpec::Zeros(5 + i as u32), comment: Hex(vec![b'c'; i as usize]), ..plain_entry(format!("entry{i}").as_bytes()) }).collect(),
        order: vec![],
        gap_before_cd: Hex(vec![0; b.pad as usize]), gap_after_cd: Hex(vec![]),
        comment: Hex(comment),
        end64: b.z64.then(|| FEnd64 { sentinels: 7, ext: Hex(vec![]), decoy: 0 }),
    }
}

/// The directory must be the encoder's.
fn same_directory(f: &FArchive, b: &Built, got: Result<&ZipFile, &ZipError>, what: &str) -> Check {
    let z = got.map_err(|e| format!("{what}: not opened: {e}"))?;
    if z.comment().as_bytes() != f.comment.0 {
        return Err(format!("{what}: archive comment: {}", diff(&f.comment.0, z.comment().as_bytes())));
    }
    if z.entries().len() != f.entries.len() {
        return Err(format!("{what}: {} entries instead of {}", z.entries().len(), f.entries.len()));
    }
    for (k, e) in z.entries().iter().enumerate() {
        let i = b.cd_order[k];
        let fe = &f.entries[i];
        if e.header_offset() != b.offsets[i] || e.filename().as_bytes() != fe.name.0 || e.comment().as_bytes() != fe.comment.0 || e.compressed_size() != b.csizes[i] {
            return Err(format!("{what}: entry {k} is not the encoder's"));
        }
    }
    Ok(())
}

fn open_and_compare(f: &FArchive, what: &str) -> Check {
    let b = f.build();
    let r = open_mem(b.bytes.clone());
    same_directory(f, &b, r.as_ref().map(|r| r.file()), what)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lengths {
    first: u32,
    fill: Filler,
    base: Base,
}

fn check_lengths(c: &Lengths, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(c.first >= 2048);
    for n in c.first..c.first + 64 {
        let mut comment = fill(c.fill, n as usize);
        disarm(&mut comment);
        open_and_compare(&archive(&c.base, comment), &format!("comment of {n} bytes"))?;
        ctx.sub(1);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sizes {
    first: u32,
    z64: bool,
    fill: Filler,
}

fn check_sizes(c: &Sizes, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(c.first >= 1024);
    for n in c.first..c.first + 64 {
        // The size is made up of a gap before the (empty) directory, as a self-extracting stub would be.
        let mut f = archive(&Base { entries: 0, z64: c.z64, pad: 0 }, vec![]);
        f.gap_before_cd = Hex(fill(c.fill, n as usize));
        open_and_compare(&f, &format!("archive of {n} bytes and an end record"))?;
        ctx.sub(1);
    }
    Ok(())
}

// ---------------------------------------------------------------- look-alikes

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Piece {
    Bytes(Hex),
    Sig(u8),
    /// An end record with these contents; the comment length as given.
    Record { fields: Hex, comment_len: u16 },
    /// A ZIP64 locator pointing to a place: permille of the file, or the n-th last ZIP64 record signature.
    Locator { at: Option<u16>, nth: u8 },
    /// A ZIP64 end record (possibly cut short).
    Record64 { fields: Hex },
    Zeros(u16),
}

fn piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        3 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(|b| Piece::Bytes(Hex(b))),
        3 => (0u8..8).prop_map(Piece::Sig),
        3 => (proptest::collection::vec(prop_oneof![Just(0u8), Just(0xff), any::<u8>()], 16), prop_oneof![3 => 0u16..80, 1 => any::<u16>()]).prop_map(|(f, comment_len)| Piece::Record { fields: Hex(f), comment_len }),
        3 => (proptest::option::of(0u16..=1000), 0u8..3).prop_map(|(at, nth)| Piece::Locator { at, nth }),
        2 => proptest::collection::vec(prop_oneof![Just(0u8), Just(0xff), any::<u8>()], 0..52).prop_map(|f| Piece::Record64 { fields: Hex(f) }),
        1 => (0u16..3000).prop_map(Piece::Zeros),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Look {
    data: Vec<Piece>,
    entry_comment: Vec<Piece>,
    /// The locator at the very end of the directory.
    last: Option<(Option<u16>, u8)>,
    comment: Vec<Piece>,
    z64: Option<FEnd64>,
    sched: Schedule,
    more: u8,
}

fn look_strategy() -> BoxedStrategy<Look> {
    (
        proptest::collection::vec(piece(), 0..4),
        proptest::collection::vec(piece(), 0..3),
        proptest::option::weighted(0.6, (proptest::option::weighted(0.3, 0u16..=1000), 0u8..3)),
        proptest::collection::vec(piece(), 0..5),
        proptest::option::weighted(0.3, (0u8..64).prop_map(|s| FEnd64 { sentinels: s, ext: Hex(vec![]), decoy: 0 })),
        prop_oneof![3 => Just(Schedule::full()), 1 => schedule_strategy()],
        0u8..3,
    )
        .prop_map(|(data, entry_comment, last, comment, z64, sched, more)| Look { data, entry_comment, last, comment, z64, sched, more })
        .boxed()
}

const SIGS: [u32; 8] = [0x06054b50, 0x06064b50, 0x07064b50, 0x02014b50, 0x04034b50, 0x08074b50, 0x06054b50, 0x06064b50];

/// Renders pieces; locators get their target from a previous rendering of the whole file.
fn render(ps: &[Piece], file: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for p in ps {
        match p {
            Piece::Bytes(b) => v.extend_from_slice(&b.0),
            Piece::Sig(k) => p32(&mut v, SIGS[*k as usize]),
            Piece::Record { fields, comment_len } => {
                v.extend_from_slice(&SIG);
                v.extend_from_slice(&fields.0);
                p16(&mut v, *comment_len);
            }
            Piece::Locator { at, nth } => locator(&mut v, *at, *nth, file),
            Piece::Record64 { fields } => {
                p32(&mut v, 0x06064b50);
                v.extend_from_slice(&fields.0);
            }
            Piece::Zeros(n) => v.resize(v.len() + *n as usize, 0),
        }
    }
    v
}

fn locator(v: &mut Vec<u8>, at: Option<u16>, nth: u8, file: &[u8]) {
    p32(v, 0x07064b50);
    p32(v, 0);
    let hits: Vec<usize> = (0..file.len().saturating_sub(3)).rev().filter(|i| file[*i..*i + 4] == [0x50, 0x4b, 6, 6]).take(4).collect();
    p64(
        v,
        match at {
            Some(a) => file.len() as u64 * a as u64 / 1000,
            None => hits.get(nth as usize).or(hits.last()).map(|x| *x as u64).unwrap_or(1 << 40),
        },
    );
    p32(v, 1);
}

fn check_look(c: &Look, ctx: &mut Ctx) -> Check {
    let make = |file: &[u8]| {
        let mut ec = render(&c.entry_comment, file);
        if let Some((at, nth)) = &c.last {
            locator(&mut ec, *at, *nth, file);
        }
        let mut comment = render(&c.comment, file);
        disarm(&mut comment);
        let mut entries: Vec<FEntry> = (0..c.more).map(|i| plain_entry(format!("more{i}").as_bytes())).collect();
        entries.push(FEntry { data: DataSpec::Lit(Hex(render(&c.data, file))), comment: Hex(ec), utf8: false, ..plain_entry(b"last") });
        FArchive { entries, order: vec![], gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]), comment: Hex(comment), end64: c.z64.clone() }
    };
    // The layout does not depend on the locators' targets, so one more rendering settles them.
    let first = make(&[]).build().bytes;
    let f = make(&first);
    let b = f.build();
    if b.bytes.len() != first.len() {
        return Err("harness: layout is not stable".into());
    }
    let count = |x: &[u8], s: [u8; 4]| x.windows(4).filter(|w| *w == s).count();
    ctx.nontrivial_if(count(&b.bytes, SIG) > 1 || count(&b.bytes, [0x50, 0x4b, 6, 7]) > c.z64.is_some() as usize);
    ctx.label_if(count(&f.comment.0, SIG) > 0, "signature-in-comment");
    ctx.label_if(c.last.is_some() && c.z64.is_none(), "locator-before-end-record");
    ctx.label_if(c.last.is_some() && c.z64.is_none() && count(&b.bytes, [0x50, 0x4b, 6, 6]) > 0 && c.last.as_ref().unwrap().0.is_none(), "locator-to-signature");
    if c.sched.0.is_empty() {
        let r = open_mem(b.bytes.clone());
        same_directory(&f, &b, r.as_ref().map(|r| r.file()), "in memory")
    } else {
        let r = block_on(seek::ZipFileReader::new(SchedReader::new(Rc::new(b.bytes.clone()), c.sched.clone())));
        same_directory(&f, &b, r.as_ref().map(|r| r.file()), "from a scheduled source")
    }
}

// ---------------------------------------------------------------- trailing bytes, and nothing to find

fn has_sig(b: &[u8]) -> bool {
    b.windows(4).any(|w| w == SIG)
}

fn check_trailing((base, comment, n, seed, before): &(Base, Vec<u8>, u32, u64, Filler), ctx: &mut Ctx) -> Check {
    let mut f = archive(base, comment.clone());
    // Whatever lies before the directory.
    f.gap_before_cd = Hex(fill(*before, base.pad as usize));
    if let Some(e) = f.entries.first_mut() {
        e.data = DataSpec::Lit(Hex(fill(*before, 70)));
    }
    let b = f.build();
    let tail = fill(Filler::Random(*seed), *n as usize);
    let mut bytes = b.bytes.clone();
    bytes.extend_from_slice(&tail);
    // No other candidate, and the record must be within the range of a comment.
    let after = bytes.len() - b.eocdr;
    if has_sig(&bytes[b.eocdr + 4..]) || after > 65557 {
        return Ok(());
    }
    // A copy whose comment would reach exactly to the end is ambiguous.
    let exact = |i: usize| bytes[i..i + 4] == SIG && i + 22 + u16::from_le_bytes([bytes[i + 20], bytes[i + 21]]) as usize == bytes.len();
    if (0..b.eocdr).any(exact) {
        ctx.label("ambiguous");
        return Ok(());
    }
    ctx.nontrivial_if(*n > 0);
    ctx.label_if(has_sig(&bytes[..b.eocdr]), "look-alikes-before");
    let r = open_mem(bytes);
    same_directory(&f, &b, r.as_ref().map(|r| r.file()), &format!("{n} trailing bytes"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum None_ {
    /// Arbitrary bytes without the signature.
    Junk(DataSpec),
    /// An archive followed by more bytes than the longest comment has.
    Buried { base: Base, extra: u32, seed: u64 },
    /// An end record cut off before its end.
    Cut { base: Base, keep: u8 },
}

fn none_strategy() -> BoxedStrategy<None_> {
    prop_oneof![
        3 => data_strategy(5_000).prop_map(None_::Junk),
        1 => data_strategy(80_000).prop_map(None_::Junk),
        1 => (base(), 0u32..5000, any::<u64>()).prop_map(|(base, extra, seed)| None_::Buried { base, extra, seed }),
        2 => (base(), 0u8..22).prop_map(|(base, keep)| None_::Cut { base, keep }),
    ]
    .boxed()
}

fn check_none(c: &None_, ctx: &mut Ctx) -> Check {
    let (bytes, no_sig) = match c {
        None_::Junk(d) => {
            let mut b = d.bytes();
            for i in 0..b.len().saturating_sub(3) {
                if b[i..i + 4] == SIG {
                    b[i] = 0;
                }
            }
            ctx.label("junk");
            (b, true)
        }
        None_::Buried { base, extra, seed } => {
            let mut b = archive(base, vec![]).build().bytes;
            let mut tail = fill(Filler::Random(*seed), 65557 + 2048 + *extra as usize);
            for i in 0..tail.len() - 3 {
                if tail[i..i + 4] == SIG {
                    tail[i] = 0;
                }
            }
            b.extend_from_slice(&tail);
            ctx.label("buried");
            (b, true)
        }
        None_::Cut { base, keep } => {
            let x = archive(base, vec![]).build();
            let b = x.bytes[..x.eocdr + *keep as usize].to_vec();
            ctx.label("cut");
            (b, *keep < 4)
        }
    };
    ctx.nontrivial_if(bytes.len() >= 22);
    match open_mem(bytes.clone()) {
        Ok(r) => Err(format!("{} bytes without an end record opened as an archive of {} entries", bytes.len(), r.file().entries().len())),
        Err(ZipError::UnableToLocateEOCDR) => Ok(()),
        Err(e) if no_sig => Err(format!("{} bytes without an end record: {} instead of being unable to locate it", bytes.len(), errkey(&e))),
        Err(_) => Ok(()),
    }
}
