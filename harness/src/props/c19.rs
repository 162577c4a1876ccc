//! C19: builders change exactly what they are told to change.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign;
use crate::model::*;
use async_zip::base::write::compress;
use async_zip::error::ZipError;
use async_zip::{AttributeCompatibility, Compression, DeflateOption, ZipEntry, ZipEntryBuilder, ZipFile, ZipFileBuilder, ZipString};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn property() -> Property {
    Property {
        id: "C19",
        level: "exploration",
        rule: "random sequences of builder calls, from a fresh builder or one made from an entry read from an archive, with conversions to an entry and back in between; after every call all accessors are compared with a model, and at the end the compression level through the output of the compression helper; archive builder likewise; non-trivial = at least three calls, two of them on different attributes",
        assumptions: &["the compression level has no accessor; it is observed through the compressed output of a sample"],
        parts: || {
            vec![
                part("entry", 800_000, 6_400_000, (start(), proptest::collection::vec(call(), 0..14)), check_entry),
                part("archive", 160_000, 1_280_000, (proptest::option::of((0u8..4, any::<bool>(), comment_strategy())), proptest::collection::vec(comment_strategy(), 0..5), any::<bool>()), check_archive),
                part("directory", 400_000, 3_200_000, (name_strategy(), 0u8..4), check_dir),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    New(NameSpec, u16),
    /// An entry as a reader reports it.
    Read(Box<foreign::FEntry>),
}

fn start() -> BoxedStrategy<Start> {
    prop_oneof![
        3 => (name_strategy(), method_id()).prop_map(|(n, m)| Start::New(n, m)),
        1 => foreign::fentry_strategy(20, false).prop_map(|mut e| {
            e.decoy = None;
            Start::Read(Box::new(e))
        }),
    ]
    .boxed()
}

fn method_id() -> BoxedStrategy<u16> {
    proptest::sample::select(vec![0u16, 8, 9, 12, 14, 93, 95]).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Filename(NameSpec),
    Compression(u16),
    Crc(u32),
    CrcSmall(u8),
    Csize(u64),
    Usize(u64),
    UsizeSmall(u16),
    /// 0-3 the named options, otherwise this level.
    Level(u8, i32),
    Compat,
    Date(u16, u16),
    Internal(u16),
    External(u32),
    Extra(Vec<ExtraSpec>),
    Comment(NameSpec),
    Perms(u16),
    /// To an entry and back.
    Convert(u8),
}

fn call() -> BoxedStrategy<Call> {
    prop_oneof![
        name_strategy().prop_map(Call::Filename),
        method_id().prop_map(Call::Compression),
        num32().prop_map(Call::Crc),
        any::<u8>().prop_map(Call::CrcSmall),
        any::<u64>().prop_map(Call::Csize),
        any::<u64>().prop_map(Call::Usize),
        num16().prop_map(Call::UsizeSmall),
        (0u8..9, 0i32..10).prop_map(|(k, l)| Call::Level(k, l)),
        Just(Call::Compat),
        (num16(), num16()).prop_map(|(a, b)| Call::Date(a, b)),
        num16().prop_map(Call::Internal),
        num32().prop_map(Call::External),
        extra_strategy().prop_map(Call::Extra),
        comment_strategy().prop_map(Call::Comment),
        num16().prop_map(Call::Perms),
        (0u8..4).prop_map(Call::Convert),
    ]
    .boxed()
}

#[derive(Clone, Debug, PartialEq)]
struct Model {
    name: StrView,
    comment: StrView,
    method: u16,
    crc: u32,
    csize: u64,
    usize_: u64,
    date: (u16, u16),
    internal: u16,
    external: u32,
    extra: Vec<String>,
    level: Option<i32>,
}

fn plain(s: &NameSpec) -> StrView {
    StrView { bytes: s.text_bytes(), utf8: s.is_utf8(), alternative: s.alternative() }
}

fn method(id: u16) -> Compression {
    Compression::try_from(id).expect("supported method")
}

/// The accessors against the model.
fn verify(e: &ZipEntry, m: &Model, after: &dyn std::fmt::Debug) -> Check {
    let g = meta(e);
    let got = Model { name: g.name, comment: g.comment, method: g.method, crc: g.crc, csize: g.csize, usize_: g.usize_, date: g.date, internal: g.internal, external: g.external, extra: g.extra, level: m.level };
    if got != *m {
        return Err(format!("after {after:?}: accessors report {got:?}, expected {m:?}"));
    }
    if e.unix_permissions() != Some((m.external >> 16) as u16) {
        return Err(format!("after {after:?}: permissions {:?} with external attributes {:08x}", e.unix_permissions(), m.external));
    }
    if e.attribute_compatibility() != AttributeCompatibility::Unix {
        return Err(format!("after {after:?}: attribute compatibility changed"));
    }
    dir_of(e)
}

fn dir_of(e: &ZipEntry) -> Check {
    let n = str_view(e.filename());
    match (e.dir(), n.utf8) {
        (Ok(d), true) if d == (n.bytes.last() == Some(&b'/')) => Ok(()),
        (Err(ZipError::StringNotUtf8), false) => Ok(()),
        (d, _) => Err(format!("dir() of {} is {d:?}", show(&n.bytes))),
    }
}

fn extra_fields(x: &[ExtraSpec]) -> async_zip::base::read::mem::ZipFileReader {
    open_mem(foreign::single_with_cd_extra(x)).expect("carrier archive for extra fields must open")
}

fn option(k: u8, l: i32) -> (DeflateOption, Option<i32>) {
    match k {
        0 => (DeflateOption::Normal, None),
        1 => (DeflateOption::Maximum, None),
        2 => (DeflateOption::Fast, None),
        3 => (DeflateOption::Super, None),
        _ => (DeflateOption::Other(l), Some(l)),
    }
}

const SAMPLE: &[u8] = b"abcabcabcabcabcdabcdeabcdefabcdefgabcdefghiabcdefghijabcabcabcabcabcdabcdeabcdefzyxwvutsrqponmzyxwvutsrqponm0123456789012345678901234567890";

fn check_entry((s, calls): &(Start, Vec<Call>), ctx: &mut Ctx) -> Check {
    let (mut b, mut m) = match s {
        Start::New(n, id) => {
            let m = Model {
                name: plain(n),
                comment: StrView { bytes: vec![], utf8: true, alternative: None },
                method: *id,
                crc: 0,
                csize: 0,
                usize_: 0,
                date: (0, 0),
                internal: 0,
                external: 0,
                extra: vec![],
                level: None,
            };
            (ZipEntryBuilder::new(n.zip_string(), method(*id)), m)
        }
        Start::Read(f) => {
            let a = foreign::FArchive { entries: vec![(**f).clone()], order: vec![], gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]), comment: Hex(vec![]), end64: None };
            let r = open_mem(a.build().bytes).map_err(|e| format!("opening: {e}"))?;
            let e: ZipEntry = (*r.file().entries()[0]).clone();
            let g = meta(&e);
            let m = Model { name: g.name, comment: g.comment, method: g.method, crc: g.crc, csize: g.csize, usize_: g.usize_, date: g.date, internal: g.internal, external: g.external, extra: g.extra, level: None };
            ctx.label("from-read-entry");
            (ZipEntryBuilder::from(e), m)
        }
    };
    verify(b.current(), &m, s)?;
    let mut kinds = std::collections::HashSet::new();
    for c in calls {
        kinds.insert(std::mem::discriminant(c));
        b = match c.clone() {
            Call::Filename(n) => {
                m.name = plain(&n);
                b.filename(n.zip_string())
            }
            Call::Compression(id) => {
                m.method = id;
                b.compression(method(id))
            }
            Call::Crc(x) => {
                m.crc = x;
                b.crc32(x)
            }
            Call::CrcSmall(x) => {
                m.crc = x as u32;
                b.crc32(x)
            }
            Call::Csize(x) => {
                m.csize = x;
                b.compressed_size(x)
            }
            Call::Usize(x) => {
                m.usize_ = x;
                b.uncompressed_size(x)
            }
            Call::UsizeSmall(x) => {
                m.usize_ = x as u64;
                b.uncompressed_size(x)
            }
            Call::Level(k, l) => {
                let (o, l) = option(k, l);
                m.level = l;
                b.deflate_option(o)
            }
            Call::Compat => b.attribute_compatibility(AttributeCompatibility::Unix),
            Call::Date(d, t) => {
                m.date = (d, t);
                b.last_modification_date(dos_date((d, t)))
            }
            Call::Internal(x) => {
                m.internal = x;
                b.internal_file_attribute(x)
            }
            Call::External(x) => {
                m.external = x;
                b.external_file_attribute(x)
            }
            Call::Extra(x) => {
                let r = extra_fields(&x);
                let f = r.file().entries()[0].extra_fields();
                m.extra = f.iter().map(|x| format!("{x:?}")).collect();
                b.extra_fields(f.to_vec())
            }
            Call::Comment(n) => {
                m.comment = plain(&n);
                b.comment(n.zip_string())
            }
            Call::Perms(x) => {
                m.external = m.external & 0xffff | (x as u32) << 16;
                b.unix_permissions(x)
            }
            Call::Convert(k) => {
                let was = format!("{:?}", b.current());
                let e: ZipEntry = if k & 1 == 0 { b.build() } else { b.into() };
                let nb: ZipEntryBuilder = if k & 2 == 0 { e.clone().into() } else { ZipEntryBuilder::from(e.clone()) };
                if format!("{e:?}") != was || format!("{:?}", nb.current()) != was {
                    return Err(format!("conversion between builder and entry changes it: {was} -> {e:?}"));
                }
                ctx.label("converted");
                nb
            }
        };
        verify(b.current(), &m, c)?;
    }
    ctx.nontrivial_if(calls.len() >= 3 && kinds.len() >= 2);
    let e = b.build();
    verify(&e, &m, &"build")?;
    // The level shows in the compressed form only.
    if matches!(m.method, 0 | 8 | 93) {
        let mut f = ZipEntryBuilder::new("x".to_string().into(), method(m.method));
        if let Some(l) = m.level {
            f = f.deflate_option(DeflateOption::Other(l));
            ctx.label("level-set");
        }
        if block_on(compress(&e, SAMPLE)) != block_on(compress(&f.build(), SAMPLE)) {
            return Err(format!("the compression level {:?} set last is not the one in effect", m.level));
        }
    }
    Ok(())
}

fn check_archive((start, comments, from): &(Option<(u8, bool, NameSpec)>, Vec<NameSpec>, bool), ctx: &mut Ctx) -> Check {
    let (mut b, mut want, entries, zip64) = match start {
        None => (if *from { ZipFileBuilder::new() } else { ZipFileBuilder::default() }, StrView { bytes: vec![], utf8: true, alternative: None }, vec![], false),
        Some((n, z64, c)) => {
            let a = foreign::FArchive {
                entries: (0..*n).map(|i| foreign::plain_entry(&[b'a' + i])).collect(),
                order: vec![],
                gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]),
                comment: Hex(c.text_bytes()),
                end64: z64.then(|| foreign::FEnd64 { sentinels: 0, ext: Hex(vec![]), decoy: 0 }),
            };
            let r = open_mem(a.build().bytes).map_err(|e| format!("opening: {e}"))?;
            let l = listing(r.file());
            let z: ZipFile = r.file().clone();
            ctx.label("from-read-archive");
            (ZipFileBuilder::from(z), l.comment, l.entries, *z64)
        }
    };
    for c in comments {
        b = b.comment(c.zip_string());
        want = plain(c);
    }
    ctx.nontrivial_if(comments.len() >= 2 || start.is_some() && !comments.is_empty());
    let z: ZipFile = if *from { b.build() } else { b.into() };
    let l = listing(&z);
    if l.comment != want || l.entries != entries || l.zip64 != zip64 {
        return Err(format!("archive builder: {l:?}, expected comment {want:?}"));
    }
    Ok(())
}

fn check_dir((n, slashes): &(NameSpec, u8), ctx: &mut Ctx) -> Check {
    // Any name, with trailing slashes or something after them.
    let tail: &[u8] = [&b""[..], b"/", b"//", b"/ "][*slashes as usize];
    let mut t = n.text_bytes();
    t.extend_from_slice(tail);
    let s = match n {
        NameSpec::Raw(_) => ZipString::new(t, async_zip::StringEncoding::Raw),
        NameSpec::Alt(_, a) => ZipString::new_with_alternative(String::from_utf8(t).unwrap(), a.0.clone()),
        _ => String::from_utf8(t).unwrap().into(),
    };
    ctx.nontrivial_if(*slashes > 0);
    dir_of(&ZipEntryBuilder::new(s, Compression::Stored).build())
}
