//! C02: entry and archive metadata survive a write/read round trip.

use crate::data::*;
use crate::engine::*;
use crate::model::*;
use crate::readers::*;
use crate::refzip;
use async_zip::base::write::ZipFileWriter;
use proptest::prelude::*;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C02",
        level: "exploration",
        rule: "random write histories with every metadata field drawn from its whole domain; reported metadata compared with the specification, with byte positions observed at the sink and with an independent strict parser; non-trivial = an entry with non-empty extra fields or comment, or a name that is not plain UTF-8, or a name/comment/extra area within 64 bytes of the 65535 limit (long)",
        assumptions: &["a UTF-8 string given no alternative may be reported with its own bytes as alternative", "raw strings that are pure ASCII may be reported as text", "an empty text with a non-empty alternative has no representation in the format and is excluded"],
        parts: || {
            vec![
                part("metadata", 200_000, 1_600_000, archive_strategy_with(entry_strategy_with(light_method_strategy(), 2000), 0..6), check_meta),
                part("methods", 25_000, 200_000, archive_strategy(1..4, 3000), check_meta),
                part("long", 20_000, 160_000, long_strategy(), check_meta),
                part("big", 3_000, 30_000, archive_strategy(1..4, 400_000), check_meta),
                part("many", 600, 6_000, crate::props::c01::many_strategy(), check_meta),
            ]
        },
    }
}

/// Writes and returns the bytes with the sink position at the start of each entry.
pub fn write_with_offsets(a: &ArchiveSpec) -> Result<(Vec<u8>, Vec<u64>), String> {
    crate::exec::block_on(async {
        let mut w = set_mode(ZipFileWriter::new(Vec::new()), a.zip64);
        let mut offs = vec![];
        for e in &a.entries {
            offs.push(w.inner_mut().len() as u64);
            write_entry(&mut w, e).await?;
        }
        if let Some(c) = &a.comment {
            w.comment(c.clone());
        }
        Ok((w.close().await?, offs))
    })
    .map_err(|e: async_zip::error::ZipError| format!("writing failed: {e}"))
}

pub fn expected_external(e: &EntrySpec) -> u32 {
    match e.perms {
        Some(p) => (e.external & 0xffff) | (p as u32) << 16,
        None => e.external,
    }
}

pub fn check_meta(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    classify(a, ctx);
    ctx.nontrivial_if(a.entries.iter().any(|e| !e.extra.is_empty() || !e.comment.text_bytes().is_empty() || !e.name.is_plain_utf8()));
    let (bytes, offs) = write_with_offsets(a)?;
    let clen = a.comment.as_ref().map(|c| c.len()).unwrap_or(0);
    let rf = refzip::parse(&Rc::new(bytes.clone()), clen, false)?;
    let r = open_mem(bytes).map_err(|e| format!("opening: {e}"))?;
    let l = listing(r.file());
    if l.entries.len() != a.entries.len() {
        return Err(format!("{} entries written, {} reported", a.entries.len(), l.entries.len()));
    }
    let want = a.comment.clone().unwrap_or_default();
    if l.comment.bytes != want.as_bytes() || !l.comment.utf8 {
        return Err(format!("archive comment: wrote {:?}, read {:?}", want, l.comment));
    }
    if l.zip64 != rf.zip64_end {
        return Err(format!("zip64() is {}, ZIP64 end record present: {}", l.zip64, rf.zip64_end));
    }
    for (i, e) in a.entries.iter().enumerate() {
        let s = &l.entries[i];
        let m = &s.meta;
        let data = e.data.bytes();
        e.name.check_read(&format!("entry {i} filename"), &m.name)?;
        e.comment.check_read(&format!("entry {i} comment"), &m.comment)?;
        for (what, spec, got) in [("filename", &e.name, &m.name), ("comment", &e.comment, &m.comment)] {
            if spec.alternative().is_none() && got.alternative.as_ref().is_some_and(|x| *x != got.bytes) {
                return Err(format!("entry {i} {what}: alternative {:?} appeared from nowhere", got.alternative));
            }
        }
        macro_rules! same {
            ($what:expr, $got:expr, $want:expr) => {
                if $got != $want {
                    return Err(format!("entry {i} ({}) {}: wrote {:?}, read {:?}", e.how.label(), $what, $want, $got));
                }
            };
        }
        same!("compression", m.method, e.method.id());
        same!("date", m.date, e.date);
        same!("internal attribute", m.internal, e.internal);
        same!("external attribute", m.external, expected_external(e));
        same!("unix permissions", m.perms, Some((expected_external(e) >> 16) as u16));
        same!("crc32", m.crc, crc32(&data));
        same!("uncompressed size", m.usize_, data.len() as u64);
        same!("compressed size", m.csize, rf.entries[i].csize);
        same!("header offset", s.offset, offs[i]);
        same!("header offset (parser)", rf.entries[i].offset, offs[i]);
        let xl: usize = rf.entries[i].cd_extra.iter().map(|x| 4 + x.data.len()).sum();
        same!("header size", s.header_size, (30 + rf.entries[i].name.len() + xl) as u64);
        let given: Vec<(u16, Vec<u8>)> = e.extra.iter().map(|x| (x.id, x.data.0.clone())).collect();
        let stored: Vec<(u16, Vec<u8>)> = rf.entries[i].cd_extra.iter().filter(|x| !matches!(x.id, 1 | 0x6375 | 0x7075)).map(|x| (x.id, x.data.clone())).collect();
        same!("extra fields (stored)", stored, given);
        if !given.is_empty() && xl < 30000 {
            same!("extra fields (reported)", extras_of(&r.file().entries()[i])?, given);
        }
    }
    Ok(())
}

fn near_limit() -> BoxedStrategy<u32> {
    prop_oneof![3 => 65472u32..=65535, 1 => Just(65535u32), 1 => 0u32..200, 1 => 32_760u32..32_775].boxed()
}

pub fn long_strategy() -> BoxedStrategy<ArchiveSpec> {
    let ch = proptest::sample::select(vec!['n', 'P', '/']);
    let e = (entry_strategy_with(light_method_strategy(), 300), near_limit(), near_limit(), near_limit(), ch, 0u8..8, any::<bool>()).prop_map(|(mut e, n, c, x, ch, which, alt)| {
        if which & 1 != 0 {
            e.name = NameSpec::Long(ch, n);
        }
        if which & 2 != 0 {
            e.comment = NameSpec::Long(ch, c);
        }
        // The area must also hold the writer's own fields: ZIP64 (<= 32) and Unicode (9 + text) fields.
        let unicode = |s: &NameSpec, o: &NameSpec| if s.is_utf8() && !(s.is_plain_utf8() && o.is_plain_utf8()) { 9 + s.text_bytes().len() } else { 0 };
        if alt && which & 4 == 0 {
            // Alternatives as long as the classic field allows, text as long as the extra area allows.
            e.extra.clear();
            e.comment = NameSpec::Utf8(String::new());
            let keep = 65535 - 9 - 32;
            e.name = NameSpec::Alt(std::iter::repeat_n('t', (n as usize).min(keep).max(1)).collect(), Hex(vec![0x81; c as usize]));
        }
        let used = unicode(&e.name, &e.comment) + unicode(&e.comment, &e.name);
        if used + 32 > 65535 {
            e.comment = NameSpec::Utf8(String::new());
            if !e.name.is_plain_utf8() && e.name.text_bytes().len() > 60000 && !matches!(e.name, NameSpec::Alt(..)) {
                e.name = NameSpec::Utf8("n".into());
            }
        }
        let used = unicode(&e.name, &e.comment) + unicode(&e.comment, &e.name);
        let room = (65535usize - 32).saturating_sub(used);
        if which & 4 != 0 && room > 8 {
            let total = (x as usize).min(room);
            e.extra = match (alt, total) {
                (true, 5..) => tiny_fields(total, x as u64 ^ n as u64),
                _ => vec![ExtraSpec { id: 0x4444, data: Hex(vec![7; total.saturating_sub(4)]) }],
            };
        } else if e.extra.iter().map(|x| 4 + x.data.0.len()).sum::<usize>() > room {
            e.extra.clear();
        }
        e
    });
    (archive_strategy_with(e.boxed(), 1..3), near_limit(), any::<bool>())
        .prop_map(|(mut a, n, long)| {
            if long {
                a.comment = Some("c".repeat(n as usize));
            }
            a
        })
        .boxed()
}
