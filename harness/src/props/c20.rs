//! C20: unsupported features are refused with the right error, never misread.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::{plain_entry, Built, Dd, FArchive, FEnd64, FEntry};
use crate::readers::*;
use async_zip::base::read::{mem, seek};
use async_zip::error::ZipError;
use async_zip::{AttributeCompatibility, Compression};
use futures_lite::io::Cursor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const LFH: u32 = 0x04034b50;
const CDH: u32 = 0x02014b50;
const END: u32 = 0x06054b50;
const END64: u32 = 0x06064b50;

pub fn property() -> Property {
    Property {
        id: "C20",
        level: "exploration",
        rule: "ids enumerates all 65536 method and host identifiers through the conversions; method places every identifier (enumerated) in the central or local header of a random entry of an archive; spanned sets disk numbers and entry counts of the classic and ZIP64 end records; flags sets general purpose bits of a streamed entry; signature overwrites the signature of a directory record, a local header or the ZIP64 end record; the expected outcome is computed from the values placed; non-trivial = the archive must be refused",
        assumptions: &["where an entry combines two unsupported features, either may be the one reported"],
        parts: || {
            vec![
                part("ids", 65_536, 65_536, index_strategy(), check_ids),
                part("method", 131_072, 655_360, (index_strategy(), 0u8..3, 1usize..4, any::<u8>(), any::<bool>()), check_method),
                part("spanned", 500_000, 4_000_000, spanned(), check_spanned),
                part("flags", 400_000, 4_000_000, (any::<u16>(), 0usize..4, method_id(), data_strategy(200), any::<bool>()), check_flags),
                part("signature", 500_000, 5_000_000, (signature(), 0u8..4, 1usize..5, any::<u8>(), 0u8..64), check_signature),
            ]
        },
    }
}

fn method_id() -> BoxedStrategy<u16> {
    prop_oneof![3 => Just(0u16), 2 => Just(8u16), 1 => Just(93u16), 1 => Just(12u16)].boxed()
}

const SUPPORTED: [(u16, Compression); 7] = [
    (0, Compression::Stored),
    (8, Compression::Deflate),
    (9, Compression::Deflate64),
    (12, Compression::Bz),
    (14, Compression::Lzma),
    (93, Compression::Zstd),
    (95, Compression::Xz),
];

fn check_ids(i: &u64, ctx: &mut Ctx) -> Check {
    let id = *i as u16;
    let want = SUPPORTED.iter().find(|(n, _)| *n == id).map(|(_, c)| *c);
    ctx.nontrivial_if(want.is_none());
    match (Compression::try_from(id), want) {
        (Ok(c), Some(w)) if c == w && u16::from(c) == id && u16::from(&c) == id => {}
        (Err(ZipError::CompressionNotSupported(n)), None) if n == id => {}
        (r, _) => return Err(format!("method {id} converts to {r:?}")),
    }
    match (AttributeCompatibility::try_from(id), id) {
        (Ok(a), 3) if a == AttributeCompatibility::Unix && u16::from(a) == 3 && u16::from(&a) == 3 => {}
        (Err(ZipError::AttributeCompatibilityNotSupported(n)), _) if n == id && id != 3 => {}
        (r, _) => return Err(format!("host {id} converts to {r:?}")),
    }
    Ok(())
}

/// Entries with recognisable names and contents.
fn entries(n: usize) -> Vec<FEntry> {
    (0..n).map(|i| FEntry { data: DataSpec::Lit(Hex([b'0' + i as u8, 0x50, 0x4b].repeat(i + 1))), ..plain_entry(format!("entry-{i}").as_bytes()) }).collect()
}

fn archive(entries: Vec<FEntry>, end64: Option<FEnd64>) -> FArchive {
    FArchive { entries, order: vec![], gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]), comment: Hex(vec![]), end64 }
}

/// Both directory-based readers on the same bytes; they must agree on the outcome.
fn open_both(bytes: &[u8]) -> Result<Result<Snapshot, ZipError>, String> {
    let a = block_on(snap_mem(bytes.to_vec()));
    let b = block_on(snap_seek(Cursor::new(bytes)));
    same_result("in-memory and seekable reader", &a, &b)?;
    Ok(a)
}

fn set16(v: &mut [u8], at: usize, x: u16) {
    v[at..at + 2].copy_from_slice(&x.to_le_bytes());
}
fn set32(v: &mut [u8], at: usize, x: u32) {
    v[at..at + 4].copy_from_slice(&x.to_le_bytes());
}
fn set64(v: &mut [u8], at: usize, x: u64) {
    v[at..at + 8].copy_from_slice(&x.to_le_bytes());
}

fn check_method((i, place, n, at, with): &(u64, u8, usize, u8, bool), ctx: &mut Ctx) -> Check {
    let id = *i as u16;
    let at = *at as usize % n;
    let Built { mut bytes, cd_record_offsets, offsets, .. } = archive(entries(*n), None).build();
    if *place != 1 {
        set16(&mut bytes, cd_record_offsets[at] + 10, id);
    }
    if *place != 0 {
        set16(&mut bytes, offsets[at] as usize + 8, id);
    }
    let supported = SUPPORTED.iter().any(|(n, _)| *n == id);
    ctx.nontrivial_if(!supported);
    ctx.label(["central", "local", "both"][*place as usize]);
    match (block_on(mem::ZipFileReader::new(bytes.clone())), block_on(seek::ZipFileReader::new(Cursor::new(&bytes)))) {
        (Err(ZipError::CompressionNotSupported(a)), Err(ZipError::CompressionNotSupported(b))) if *place != 1 && !supported && a == id && b == id => {}
        (Ok(a), Ok(b)) if *place == 1 || supported => {
            let want = if *place == 1 { 0 } else { id };
            for f in [a.file(), b.file()] {
                let e = &f.entries()[at];
                if f.entries().len() != *n || u16::from(e.compression()) != want {
                    return Err(format!("method {id}: listed as {:?}", e.compression()));
                }
            }
        }
        (a, b) => return Err(format!("directory with method {id} in entry {at}: {:?} / {:?}", a.err(), b.err())),
    }
    if *place != 0 && !supported {
        let (got, end) = block_on(snap_stream(Cursor::new(&bytes), *with));
        match end {
            Err(ZipError::CompressionNotSupported(x)) if x == id && got.len() == at => {}
            r => return Err(format!("stream with method {id} in entry {at}: {} entries, then {r:?}", got.len())),
        }
    }
    Ok(())
}

/// Values of (disk, disk of directory, entries on disk, entries) in the ZIP64 record, the classic ones, and which of the
/// classic ones are sentinels.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spanned {
    n: usize,
    classic: [u16; 4],
    zip64: Option<([u32; 2], [u64; 2])>,
    sentinels: u8,
    swap: bool,
}

fn spanned() -> BoxedStrategy<Spanned> {
    fn disk() -> BoxedStrategy<u16> {
        prop_oneof![5 => Just(0u16), 1 => Just(1u16), 1 => 0u16..6, 1 => any::<u16>()].boxed()
    }
    fn disk32() -> BoxedStrategy<u32> {
        prop_oneof![5 => Just(0u32), 1 => Just(1u32), 1 => (0u32..4).prop_map(|x| x << 16), 1 => any::<u32>()].boxed()
    }
    // Difference to the true count.
    fn delta() -> BoxedStrategy<u16> {
        prop_oneof![5 => Just(0u16), 1 => Just(1u16), 1 => Just(u16::MAX), 1 => any::<u16>()].boxed()
    }
    fn delta64() -> BoxedStrategy<u64> {
        prop_oneof![5 => Just(0u64), 1 => Just(1u64), 1 => (0u64..4).prop_map(|x| x << 32), 1 => any::<u64>()].boxed()
    }
    (0usize..4, (disk(), disk(), delta()), proptest::option::of(((disk32(), disk32()), delta64())), 0u8..16, any::<bool>())
        .prop_map(|(n, (a, b, d), z, sentinels, swap)| {
            let n16 = n as u16;
            let n64 = n as u64;
            // One of the two counts is the true one.
            let counts = |d: u16| if swap { [n16.wrapping_add(d), n16] } else { [n16, n16.wrapping_add(d)] };
            let counts64 = |d: u64| if swap { [n64.wrapping_add(d), n64] } else { [n64, n64.wrapping_add(d)] };
            let [c0, c1] = counts(d);
            Spanned { n, classic: [a, b, c0, c1], zip64: z.map(|((x, y), d)| ([x, y], counts64(d))), sentinels, swap }
        })
        .boxed()
}

fn check_spanned(s: &Spanned, ctx: &mut Ctx) -> Check {
    let Built { mut bytes, eocdr, .. } = archive(entries(s.n), s.zip64.as_ref().map(|_| FEnd64 { sentinels: 0, ext: Hex(vec![]), decoy: 0 })).build();
    let mut classic = s.classic;
    if let Some((disks, counts)) = s.zip64 {
        for k in 0..4 {
            if s.sentinels & 1 << k != 0 {
                classic[k] = u16::MAX;
            }
        }
        let r = eocdr - 20 - 56;
        set32(&mut bytes, r + 16, disks[0]);
        set32(&mut bytes, r + 20, disks[1]);
        set64(&mut bytes, r + 24, counts[0]);
        set64(&mut bytes, r + 32, counts[1]);
    }
    for k in 0..4 {
        set16(&mut bytes, eocdr + 4 + 2 * k, classic[k]);
    }
    let eff = |k: usize| match s.zip64 {
        Some((d, c)) if classic[k] == u16::MAX => {
            if k < 2 {
                d[k] as u64
            } else {
                c[k - 2]
            }
        }
        _ => classic[k] as u64,
    };
    let spans = eff(0) != eff(1) || eff(2) != eff(3);
    ctx.nontrivial_if(spans);
    ctx.label_if(s.zip64.is_some(), "zip64");
    match open_both(&bytes)? {
        Err(ZipError::FeatureNotSupported(_)) if spans => Ok(()),
        r if spans => Err(format!("directory spans disks (disk {}, directory on {}, {} of {} entries on this disk) but the result is {:?}", eff(0), eff(1), eff(2), eff(3), r.map(|s| s.listing.entries.len()))),
        Ok(snap) if eff(3) == s.n as u64 && snap.listing.entries.len() == s.n => Ok(()),
        r if eff(3) == s.n as u64 => Err(format!("nothing is spanned, but: {:?}", r.map(|s| s.listing.entries.len()))),
        // A wrong count on which both fields agree: not this property's matter.
        _ => Ok(()),
    }
}

fn check_flags((flags, at, method, data, with): &(u16, usize, u16, DataSpec, bool), ctx: &mut Ctx) -> Check {
    let mut es = entries(at + 2);
    es[*at] = FEntry { method: *method, data: data.clone(), dd: if flags & 8 != 0 { Dd::Sig32 } else { Dd::None }, lfh_filled: flags & 0x8000 != 0, ..plain_entry(b"special") };
    let Built { mut bytes, offsets, .. } = archive(es, None).build();
    set16(&mut bytes, offsets[*at] as usize + 6, *flags);
    let encrypted = flags & 1 != 0;
    let undelimited = flags & 8 != 0 && *method == 0;
    ctx.nontrivial_if(encrypted || undelimited);
    ctx.label_if(encrypted, "encrypted");
    ctx.label_if(undelimited, "stored-with-descriptor");
    let (got, end) = block_on(snap_stream(Cursor::new(&bytes), *with));
    match (&end, encrypted || undelimited) {
        (Err(ZipError::FeatureNotSupported(_)), true) if got.len() == *at => Ok(()),
        (r, true) => Err(format!("flags {flags:04x}, method {method} in entry {at}: {} entries, then {r:?}", got.len())),
        (Ok(()), false) if got.len() == at + 2 && got[*at].data == data.bytes() => Ok(()),
        (r, false) => Err(format!("flags {flags:04x} use nothing unsupported, but: {} entries, then {r:?}", got.len())),
    }
}

fn signature() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => any::<u32>(),
        3 => (proptest::sample::select(SIGNATURES.to_vec()), 0u32..32).prop_map(|(s, b)| s ^ 1 << b),
        3 => proptest::sample::select(SIGNATURES.to_vec()),
        1 => proptest::sample::select(SIGNATURES.to_vec()).prop_map(|s| s.swap_bytes()),
    ]
    .boxed()
}

fn check_signature((sig, place, n, at, sentinels): &(u32, u8, usize, u8, u8), ctx: &mut Ctx) -> Check {
    let at = *at as usize % n;
    let end64 = (*place == 3 || sentinels & 32 != 0).then(|| FEnd64 { sentinels: *sentinels & 31 | if *place == 3 && sentinels & 5 == 0 { 1 } else { 0 }, ext: Hex(vec![]), decoy: 0 });
    let Built { mut bytes, eocdr, offsets, cd_record_offsets, .. } = archive(entries(*n), end64).build();
    let what = format!("signature {sig:08x} at place {place} of entry {at}");
    match place {
        0 => {
            set32(&mut bytes, cd_record_offsets[at], *sig);
            ctx.label("directory");
            ctx.nontrivial_if(*sig != CDH);
            match open_both(&bytes)? {
                Ok(s) if *sig == CDH && s.listing.entries.len() == *n => Ok(()),
                Err(ZipError::UnexpectedHeaderError(a, CDH)) if *sig != CDH && a == *sig => Ok(()),
                r => Err(format!("{what}: {:?}", r.map(|s| s.listing.entries.len()))),
            }
        }
        1 => {
            set32(&mut bytes, offsets[at] as usize, *sig);
            ctx.label("local");
            ctx.nontrivial_if(*sig != LFH);
            // Listed all the same; opening that entry must fail and opening any other must not.
            let s = open_both(&bytes)?.map_err(|e| format!("{what}: {e}"))?;
            let want = format!("{:?}", ZipError::UnexpectedHeaderError(*sig, LFH));
            for i in 0..*n {
                let bad = i == at && *sig != LFH;
                for (c, k) in [(&s.with[i], "with"), (&s.without[i].0, "without")] {
                    let ok = match &c.err {
                        Some(e) => bad && *e == want,
                        None => !bad && c.data == entries(*n)[i].data.bytes(),
                    };
                    if !ok {
                        return Err(format!("{what}: entry {i} read {k} entry gives {:?}", c.err));
                    }
                }
                let z = block_on(seek::ZipFileReader::new(Cursor::new(&bytes))).map_err(|e| format!("{what}: {e}"))?;
                match block_on(z.into_entry(i)) {
                    Ok(_) if !bad => {}
                    Err(ZipError::UnexpectedHeaderError(a, LFH)) if bad && a == *sig => {}
                    r => return Err(format!("{what}: into_entry({i}) gives {:?}", r.err())),
                }
            }
            Ok(())
        }
        2 => {
            set32(&mut bytes, offsets[at] as usize, *sig);
            ctx.label("streamed");
            ctx.nontrivial_if(*sig != LFH);
            let (got, end) = block_on(snap_stream(Cursor::new(&bytes), sentinels & 1 != 0));
            match (end, *sig) {
                (Ok(()), LFH) if got.len() == *n => Ok(()),
                (Ok(()), CDH | END | END64) if got.len() == at => Ok(()),
                (Err(ZipError::UnexpectedHeaderError(a, LFH)), s) if !matches!(s, LFH | CDH | END | END64) && a == s && got.len() == at => Ok(()),
                (r, _) => Err(format!("{what}: {} entries, then {r:?}", got.len())),
            }
        }
        _ => {
            // The classic record refers to a ZIP64 record which isn't there.
            set32(&mut bytes, eocdr - 20 - 56, *sig);
            ctx.label("zip64-end");
            ctx.nontrivial_if(*sig != END64);
            match open_both(&bytes)? {
                Ok(s) if *sig == END64 && s.listing.entries.len() == *n => Ok(()),
                Err(ZipError::UnexpectedHeaderError(a, END64)) if *sig != END64 && a == *sig => Ok(()),
                r => Err(format!("{what}: {:?}", r.map(|s| s.listing.entries.len()))),
            }
        }
    }
}
