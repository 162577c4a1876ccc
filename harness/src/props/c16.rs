//! C16: text is never mislabelled; UTF-8 claims are always valid.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::readers::snap_stream;
use async_zip::{StringEncoding, ZipString};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn property() -> Property {
    Property {
        id: "C16",
        level: "exploration",
        rule: "archives of an independent encoder with random name and comment bytes (ASCII, UTF-8, almost-UTF-8, arbitrary), UTF-8 flag and Info-ZIP Unicode fields (right, stale or random checksum, valid or invalid text, known or unknown version, before and after other fields) in both headers, read through the in-memory and the streaming reader and compared with a decision table; short enumerates all two-byte names (and the third byte for random pairs) with and without the flag; string exercises the string type itself; non-trivial = bytes that are not ASCII or a Unicode field is present",
        assumptions: &["at most one Unicode field of a kind has a matching checksum (the outcome with several is not specified)", "Unicode fields are at least long enough for their version and checksum"],
        parts: || {
            vec![
                part("read", 1_200_000, 9_600_000, proptest::collection::vec(entry(), 1..4), check_read),
                part("read-long", 60_000, 480_000, proptest::collection::vec(entry_with(long_bytes(65_535), long_bytes(9_000)), 1..3), check_read),
                part("short", 9_000, 72_000, (any::<u8>(), proptest::option::weighted(0.6, any::<u8>()), any::<bool>()), check_short),
                part("archive-comment", 300_000, 2_400_000, bytes(), check_comment),
                part("archive-comment-long", 20_000, 160_000, long_bytes(65_535), check_comment),
                part("string", 1_200_000, 9_600_000, (bytes(), proptest::option::of(bytes()), 0u8..5), check_string),
                part("string-long", 60_000, 480_000, (long_bytes(70_000), proptest::option::of(long_bytes(70_000)), 0u8..5), check_string),
            ]
        },
    }
}

/// Byte strings around the edge of UTF-8 validity.
fn bytes() -> BoxedStrategy<Hex> {
    let piece = proptest::sample::select(vec![
        &b"a"[..], b"/", b"dir/", b"\0", b"\x7f", "é".as_bytes(), "日本".as_bytes(), "🗜".as_bytes(), "\u{7ff}".as_bytes(), "\u{800}".as_bytes(), "\u{ffff}".as_bytes(), "\u{10ffff}".as_bytes(),
        b"\xc3", b"\xe6\x97", b"\xf0\x9f\x97", b"\xed\xa0\x80", b"\xc0\x80", b"\xe0\x9f\xbf", b"\xf4\x90\x80\x80", b"\x80", b"\xff", b"\xe9", b"\xef\xbb\xbf",
    ]);
    prop_oneof![
        2 => proptest::collection::vec(0x20u8..0x7f, 0..16),
        2 => proptest::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>().into_bytes()),
        4 => proptest::collection::vec(piece, 0..6).prop_map(|v| v.concat()),
        2 => proptest::collection::vec(any::<u8>(), 0..16),
        1 => proptest::collection::vec(0x80u8..=0xff, 1..8),
    ]
    .prop_map(Hex)
    .boxed()
}

/// The same somewhere in a long run of plain or accented letters.
fn long_bytes(max: u32) -> BoxedStrategy<Hex> {
    let at = prop_oneof![1 => Just(0u32), 2 => Just(u32::MAX), 2 => any::<u32>()];
    (bytes(), long_len(max), at, 0u8..4)
        .prop_map(move |(odd, len, at, kind)| {
            let unit = ["n".as_bytes(), "ab/".as_bytes(), "é".as_bytes(), "🗜".as_bytes()][kind as usize];
            let n = (len as usize).saturating_sub(odd.0.len()) / unit.len();
            let before = if at == u32::MAX { n } else { at as usize % (n + 1) };
            let mut v = unit.repeat(before);
            v.extend_from_slice(&odd.0);
            v.extend_from_slice(&unit.repeat(n - before));
            Hex(v)
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Crc {
    Match,
    /// The checksum of the unicode text, of nothing, or anything else.
    OfText,
    Zero,
    Off(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UField {
    version: u8,
    crc: Crc,
    text: Hex,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    bytes: Hex,
    fields: Vec<UField>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TEntry {
    flag: bool,
    name: Text,
    comment: Text,
    /// Other extra fields before and after.
    before: bool,
    after: bool,
    /// The local header has the Unicode path fields, too.
    local: bool,
}

fn ufield(bytes: BoxedStrategy<Hex>) -> BoxedStrategy<UField> {
    let crc = prop_oneof![5 => Just(Crc::Match), 1 => Just(Crc::OfText), 1 => Just(Crc::Zero), 2 => any::<u32>().prop_map(Crc::Off)];
    (prop_oneof![8 => Just(1u8), 1 => Just(0u8), 1 => Just(2u8), 1 => any::<u8>()], crc, bytes).prop_map(|(version, crc, text)| UField { version, crc, text }).boxed()
}

fn text(bytes: BoxedStrategy<Hex>, field: BoxedStrategy<Hex>) -> BoxedStrategy<Text> {
    (bytes, prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec(ufield(field), 1..4)])
        .prop_map(|(bytes, mut fields)| {
            // Keep one field with a matching checksum at most, wherever it is.
            let mut seen = false;
            for f in &mut fields {
                if f.version == 1 && field_crc(f, &bytes.0) == crc32(&bytes.0) {
                    if seen {
                        f.crc = Crc::Off(crc32(&bytes.0) ^ 1);
                    }
                    seen = true;
                }
            }
            Text { bytes, fields }
        })
        .boxed()
}

pub fn entry() -> BoxedStrategy<TEntry> {
    entry_with(bytes(), bytes())
}

fn entry_with(b: BoxedStrategy<Hex>, field: BoxedStrategy<Hex>) -> BoxedStrategy<TEntry> {
    (any::<bool>(), text(b.clone(), field.clone()), text(b, field), any::<(bool, bool, bool)>()).prop_map(|(flag, name, comment, (before, after, local))| TEntry { flag, name, comment, before, after, local }).boxed()
}

fn field_crc(f: &UField, basic: &[u8]) -> u32 {
    match f.crc {
        Crc::Match => crc32(basic),
        Crc::OfText => crc32(&f.text.0),
        Crc::Zero => 0,
        Crc::Off(x) => x,
    }
}

fn field_bytes(f: &UField, basic: &[u8]) -> Hex {
    let mut v = vec![f.version];
    p32(&mut v, field_crc(f, basic));
    v.extend_from_slice(&f.text.0);
    Hex(v)
}

/// The decision table.
fn expect(flag: bool, basic: &[u8], fields: &[UField]) -> StrView {
    let view = |b: &[u8], utf8, alternative| StrView { bytes: b.to_vec(), utf8, alternative };
    if flag {
        return view(basic, std::str::from_utf8(basic).is_ok(), None);
    }
    for f in fields {
        if f.version == 1 && field_crc(f, basic) == crc32(basic) && std::str::from_utf8(&f.text.0).is_ok() {
            return view(&f.text.0, true, Some(basic.to_vec()));
        }
    }
    view(basic, basic.is_ascii(), None)
}

fn same(what: &str, want: &StrView, got: &StrView) -> Check {
    if want != got {
        return Err(format!(
            "{what}: expected {} (UTF-8: {}, alternative {:?}), reported {} (UTF-8: {}, alternative {:?})",
            show(&want.bytes),
            want.utf8,
            want.alternative.as_deref().map(show),
            show(&got.bytes),
            got.utf8,
            got.alternative.as_deref().map(show)
        ));
    }
    Ok(())
}

fn archive(entries: Vec<FEntry>, comment: &[u8]) -> FArchive {
    FArchive { entries, order: vec![], gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]), comment: Hex(comment.to_vec()), end64: None }
}

/// The encoder's form of an entry.
pub fn fentry(e: &TEntry) -> FEntry {
    let path: Vec<ExtraSpec> = e.name.fields.iter().map(|f| ExtraSpec { id: 0x7075, data: field_bytes(f, &e.name.bytes.0) }).collect();
    let com: Vec<ExtraSpec> = e.comment.fields.iter().map(|f| ExtraSpec { id: 0x6375, data: field_bytes(f, &e.comment.bytes.0) }).collect();
    let mut cd = vec![];
    if e.before {
        cd.push(ExtraSpec { id: 0x5455, data: Hex(vec![1, 2, 3, 4, 5]) });
    }
    let mut lfh = cd.clone();
    // Both kinds of fields, interleaved.
    let (mut p, mut c) = (path.iter(), com.iter());
    loop {
        match (p.next(), c.next()) {
            (None, None) => break,
            (a, b) => cd.extend(a.into_iter().chain(b).cloned()),
        }
    }
    if e.local {
        lfh.extend(path);
    }
    if e.after {
        cd.push(ExtraSpec { id: 0xCAFE, data: Hex(vec![]) });
        lfh.push(ExtraSpec { id: 0xCAFE, data: Hex(vec![7]) });
    }
    FEntry { comment: e.comment.bytes.clone(), utf8: e.flag, cd_extra: cd, lfh_extra: lfh, ..plain_entry(&e.name.bytes.0) }
}

fn check_read(es: &Vec<TEntry>, ctx: &mut Ctx) -> Check {
    let fe: Vec<FEntry> = es.iter().map(|e| fentry(e)).collect();
    let built = archive(fe, b"").build().bytes;
    let r = open_mem(built.clone()).map_err(|e| format!("opening: {e}"))?;
    let (streamed, end) = block_on(snap_stream(futures_lite::io::Cursor::new(&built), true));
    end.map_err(|e| format!("streaming: {e}"))?;
    if r.file().entries().len() != es.len() || streamed.len() != es.len() {
        return Err("number of entries differs".into());
    }
    for (i, e) in es.iter().enumerate() {
        let se = &r.file().entries()[i];
        let want = expect(e.flag, &e.name.bytes.0, &e.name.fields);
        let wantc = expect(e.flag, &e.comment.bytes.0, &e.comment.fields);
        for (t, w) in [(&e.name, &want), (&e.comment, &wantc)] {
            ctx.nontrivial_if(!t.bytes.0.is_ascii() || !t.fields.is_empty());
            ctx.label(match (e.flag, w.utf8, w.alternative.is_some()) {
                (true, true, _) => "flag-utf8",
                (true, false, _) => "flag-but-invalid",
                (false, true, true) => "unicode-field-used",
                (false, true, false) => "ascii",
                (false, false, _) => "raw",
            });
            ctx.label_if(!e.flag && w.alternative.is_none() && t.fields.iter().any(|f| f.version == 1 && f.crc == Crc::Match), "matching-field-with-invalid-text");
            ctx.label_if(!e.flag && w.alternative.is_some() && t.fields.len() > 1, "used-among-several");
        }
        same(&format!("entry {i} filename"), &want, &str_view(se.filename()))?;
        same(&format!("entry {i} comment"), &wantc, &str_view(se.comment()))?;
        let wantl = expect(e.flag, &e.name.bytes.0, if e.local { &e.name.fields } else { &[] });
        same(&format!("entry {i} filename from the local header"), &wantl, &streamed[i].meta.as_ref().unwrap().name)?;
    }
    Ok(())
}

fn check_short((a, b, flag): &(u8, Option<u8>, bool), ctx: &mut Ctx) -> Check {
    ctx.nontrivial();
    let names: Vec<Vec<u8>> = (0..=255u8)
        .map(|x| match b {
            Some(b) => vec![*a, *b, x],
            None => vec![*a, x],
        })
        .collect();
    let built = archive(names.iter().map(|n| FEntry { utf8: *flag, comment: Hex(n.clone()), ..plain_entry(n) }).collect(), b"").build().bytes;
    let r = open_mem(built).map_err(|e| format!("opening: {e}"))?;
    for (n, e) in names.iter().zip(r.file().entries()) {
        same("filename", &expect(*flag, n, &[]), &str_view(e.filename()))?;
        same("comment", &expect(*flag, n, &[]), &str_view(e.comment()))?;
    }
    ctx.sub(512);
    Ok(())
}

fn check_comment(c: &Hex, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(!c.0.is_ascii());
    let r = open_mem(archive(vec![], &c.0).build().bytes).map_err(|e| format!("opening: {e}"))?;
    // There is no flag for the archive comment; what is not UTF-8 must be raw, what is reported as text must be it.
    let v = str_view(r.file().comment());
    if v.bytes != c.0 {
        return Err(format!("archive comment: {}", diff(&c.0, &v.bytes)));
    }
    if c.0.is_ascii() && !v.utf8 {
        return Err("ASCII archive comment reported as raw".into());
    }
    Ok(())
}

fn check_string((b, alt, how): &(Hex, Option<Hex>, u8), ctx: &mut Ctx) -> Check {
    let valid = std::str::from_utf8(&b.0).ok();
    ctx.nontrivial_if(!b.0.is_ascii());
    ctx.label(format!("how={how} valid={}", valid.is_some()));
    let (s, utf8, alternative) = match how {
        0 => (ZipString::new(b.0.clone(), StringEncoding::Utf8), valid.is_some(), None),
        1 => (ZipString::new(b.0.clone(), StringEncoding::Raw), false, None),
        2 | 3 => {
            let Some(t) = valid else { return Ok(()) };
            (if *how == 2 { t.to_string().into() } else { t.into() }, true, None)
        }
        _ => {
            let (Some(t), Some(a)) = (valid, alt) else { return Ok(()) };
            (ZipString::new_with_alternative(t.to_string(), a.0.clone()), true, Some(a.0.clone()))
        }
    };
    same("string", &StrView { bytes: b.0.clone(), utf8, alternative: alternative.clone() }, &str_view(&s))?;
    if s.is_utf8_without_alternative() != (utf8 && alternative.is_none()) {
        return Err(format!("is_utf8_without_alternative is {} for {:?}", s.is_utf8_without_alternative(), s));
    }
    if s.clone().into_alternative() != alternative {
        return Err("into_alternative differs from alternative".into());
    }
    match (s.clone().into_string(), utf8) {
        (Ok(t), true) if t.as_bytes() == b.0 => {}
        (Err(async_zip::error::ZipError::StringNotUtf8), false) => {}
        (r, _) => return Err(format!("into_string of {} (UTF-8: {utf8}) is {r:?}", show(&b.0))),
    }
    match (s.as_str(), utf8) {
        (Ok(t), true) if t.as_bytes() == b.0 => Ok(()),
        (Err(async_zip::error::ZipError::StringNotUtf8), false) => Ok(()),
        (r, _) => Err(format!("as_str of {} (UTF-8: {utf8}) is {r:?}", show(&b.0))),
    }
}
