//! C03: written archives conform to the ZIP format for an independent reader.

use crate::codec;
use crate::data::*;
use crate::engine::*;
use crate::model::*;
use crate::readers::Scratch;
use crate::refzip::{self, RefArchive};
use proptest::prelude::*;
use std::collections::HashSet;
use std::io::Read;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C03",
        level: "exploration",
        rule: "random write histories; the bytes are judged by a strict parser written from APPNOTE (records must tile the file, all redundant values must agree), raw entry data is decoded by independent codecs, and the archive is listed and extracted by the zip crate, Python's zipfile and Info-ZIP unzip; non-trivial = at least two entries, one of them non-empty and compressed or streamed",
        assumptions: &["version-needed values are not judged", "the zip crate merges duplicate names, so its part uses distinct names", "external tools judge stored, deflate and bzip2 entries only", "known finding F2 (LZMA data without the ZIP LZMA header) is reported as such"],
        parts: || {
            vec![
                part("structure", 72_000, 576_000, archive_strategy(0..7, 20_000), check_structure),
                part("structure-long", 1_800, 14_400, crate::props::c02::long_strategy(), check_structure),
                part("structure-big", 2_500, 20_000, archive_strategy(1..4, 400_000), check_structure),
                part("many", 216, 1_728, crate::props::c01::many_strategy(), check_structure),
                part("zip-crate", 30_000, 240_000, distinct(archive_strategy(0..6, 6_000)), check_zip_crate),
                part("python", 1_200, 9_600, distinct(tools_strategy()), check_python),
                part("unzip", 1_200, 9_600, distinct(ascii_names(tools_strategy())), check_unzip),
            ]
        },
    }
}

fn distinct(s: BoxedStrategy<ArchiveSpec>) -> BoxedStrategy<ArchiveSpec> {
    s.prop_map(|mut a| {
        let mut seen = HashSet::new();
        for (i, e) in a.entries.iter_mut().enumerate() {
            let fresh = seen.insert(e.name.basic());
            if e.name.is_plain_utf8() && fresh {
                continue;
            }
            // Distinct under every decoding.
            let pre = format!("{i}:");
            e.name = match &e.name {
                NameSpec::Alt(s, a) => NameSpec::Alt(format!("{pre}{s}"), Hex([pre.as_bytes(), &a.0].concat())),
                NameSpec::Raw(a) => NameSpec::Raw(Hex([pre.as_bytes(), &a.0].concat())),
                other => NameSpec::Utf8(format!("{pre}{}", String::from_utf8(other.text_bytes()).unwrap())),
            };
        }
        a
    })
    .boxed()
}

fn ascii_names(s: BoxedStrategy<ArchiveSpec>) -> BoxedStrategy<ArchiveSpec> {
    s.prop_map(|mut a| {
        for (i, e) in a.entries.iter_mut().enumerate() {
            e.name = NameSpec::Utf8(format!("file{i}"));
            // unzip 6.0 mistakes an entry with a Unicode comment field and a descriptor for an overlap.
            if !e.comment.is_plain_utf8() {
                e.comment = NameSpec::Utf8(format!("comment {i}"));
            }
        }
        a
    })
    .boxed()
}

fn tools_strategy() -> BoxedStrategy<ArchiveSpec> {
    let m = prop_oneof![3 => Just(Method::Stored), 3 => Just(Method::Deflate), 1 => Just(Method::Bz)].boxed();
    archive_strategy_with(entry_strategy_with(m, 5_000), 1..12)
        .prop_map(|mut a| {
            // A comment holding a signature confuses the tools' own search for the end record.
            if a.comment.as_ref().is_some_and(|c| c.contains("PK")) {
                a.comment = None;
            }
            for e in &mut a.entries {
                // The tools interpret well-known extra fields.
                e.extra.retain(|x| !matches!(x.id, 0x5455 | 0x9901 | 0x000a | 0x7875 | 0x7855 | 0x5855 | 0x000d | 0x4453 | 0x0009 | 0x0014..=0x0017 | 0x0065 | 0x0066 | 0x2605 | 0x2705 | 0x334d | 0x4341 | 0x4453..=0x4454 | 0x4704 | 0x470f | 0x4b46 | 0x4c41 | 0x4d49 | 0x4f4c | 0x5356 | 0x554e | 0x6542 | 0x756e | 0xfb4a | 0x07c8 | 0x4d63 | 0xa220 | 0xfd4a));
                e.internal &= 1;
            }
            a
        })
        .boxed()
}

pub fn parse_written(a: &ArchiveSpec, bytes: &Rc<Vec<u8>>) -> Result<RefArchive, String> {
    refzip::parse(bytes, a.comment.as_ref().map(|c| c.len()).unwrap_or(0), true)
}

fn check_structure(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    classify(a, ctx);
    ctx.nontrivial_if(is_mixed(a));
    let bytes = Rc::new(write_mem(a)?);
    let rf = parse_written(a, &bytes)?;
    judge(a, &bytes, &rf, ctx)
}

/// Judges a parsed archive against its specification.
pub fn judge(a: &ArchiveSpec, bytes: &Rc<Vec<u8>>, rf: &RefArchive, ctx: &mut Ctx) -> Check {
    if rf.entries.len() != a.entries.len() {
        return Err(format!("{} entries written, parser finds {}", a.entries.len(), rf.entries.len()));
    }
    if rf.comment != a.comment.clone().unwrap_or_default().into_bytes() {
        return Err("archive comment differs".into());
    }
    let mut last = None;
    for (i, e) in a.entries.iter().enumerate() {
        let x = &rf.entries[i];
        if last.is_some_and(|l| x.offset <= l) {
            return Err(format!("entry {i} precedes its predecessor in the file"));
        }
        last = Some(x.offset);
        let data = e.data.bytes();
        if x.name != e.name.basic() || x.comment != e.comment.basic() {
            return Err(format!("entry {i}: classic name/comment bytes {} {} differ from the specification", show(&x.name), show(&x.comment)));
        }
        // Text labelling.
        if x.flags & 0x800 != 0 {
            if std::str::from_utf8(&x.name).is_err() || std::str::from_utf8(&x.comment).is_err() {
                return Err(format!("entry {i}: UTF-8 flag set on bytes that are not UTF-8"));
            }
            if !e.name.is_utf8() && !x.name.is_ascii() || !e.comment.is_utf8() && !x.comment.is_ascii() {
                return Err(format!("entry {i}: UTF-8 flag set although the encoding of a string is unknown"));
            }
            if e.name.alternative().is_some() || e.comment.alternative().is_some() {
                return Err(format!("entry {i}: UTF-8 flag set although a string is stored in a native encoding"));
            }
        } else {
            for (what, spec, id, local) in [("name", &e.name, 0x7075u16, true), ("comment", &e.comment, 0x6375, false)] {
                let text = spec.text_bytes();
                if spec.is_utf8() && !text.is_empty() && (!text.is_ascii() || spec.alternative().is_some()) {
                    let mut areas = vec![("central", &x.cd_extra)];
                    if local {
                        areas.push(("local", &x.lfh_extra));
                    }
                    for (place, ex) in areas {
                        let f = ex.iter().find(|f| f.id == id && f.data.first() == Some(&1)).ok_or_else(|| format!("entry {i}: no Unicode {what} field in the {place} header"))?;
                        if f.data.len() < 5 || f.data[1..5] != crc32(&spec.basic()).to_le_bytes() || f.data[5..] != text[..] {
                            return Err(format!("entry {i}: Unicode {what} field in the {place} header does not match the stored {what}"));
                        }
                    }
                }
            }
        }
        if x.flags & !(0x800 | 8 | 6) != 0 {
            return Err(format!("entry {i}: flags {:#x}", x.flags));
        }
        // Recorded values against the truth.
        if (x.method, x.date, x.internal, x.external) != (e.method.id(), e.date, e.internal, crate::props::c02::expected_external(e)) {
            return Err(format!("entry {i}: method/date/attributes differ: {:?}", (x.method, x.date, x.internal, x.external)));
        }
        if x.made_by >> 8 != 3 {
            return Err(format!("entry {i}: made-by host {} although the attributes are Unix", x.made_by >> 8));
        }
        if x.usize_ != data.len() as u64 || x.crc != crc32(&data) {
            return Err(format!("entry {i}: size {} or CRC {:#x} are not those of the data", x.usize_, x.crc));
        }
        let raw = &bytes[x.data_start as usize..(x.data_start + x.csize) as usize];
        let plain = codec::decode(x.method, raw).map_err(|m| format!("entry {i}: {m}"))?;
        if plain != data {
            return Err(format!("entry {i}: independently decoded data differs: {}", diff(&plain, &data)));
        }
        if x.method == codec::LZMA {
            ctx.known("F2", &format!("entry {i}: LZMA data is a bare LZMA-alone stream, without the 4-byte header the ZIP format prescribes"))?;
        }
        // ZIP64 usage.
        if !e.how.is_stream() {
            if x.cd64 || x.lfh64 {
                return Err(format!("entry {i}: ZIP64 field although sizes and offset are small and known"));
            }
            if x.flags & 8 != 0 {
                return Err(format!("entry {i}: data descriptor on an entry of known size"));
            }
        }
        if a.zip64 == Zip64Mode::Forbid && (x.cd64 || x.lfh64) {
            return Err(format!("entry {i}: ZIP64 field although ZIP64 is forbidden"));
        }
        // Extra fields in both headers.
        let given: Vec<(u16, &[u8])> = e.extra.iter().map(|x| (x.id, &x.data.0[..])).collect();
        for (place, ex) in [("central", &x.cd_extra), ("local", &x.lfh_extra)] {
            let got: Vec<(u16, &[u8])> = ex.iter().filter(|f| !matches!(f.id, 1 | 0x6375 | 0x7075)).map(|f| (f.id, &f.data[..])).collect();
            if got != given {
                return Err(format!("entry {i}: extra fields of the {place} header differ from those given"));
            }
        }
    }
    let streams = a.entries.iter().any(|e| e.how.is_stream());
    match a.zip64 {
        Zip64Mode::Force if !rf.zip64_end => return Err("no ZIP64 end record although forced".into()),
        Zip64Mode::Forbid if rf.zip64_end => return Err("ZIP64 end record although forbidden".into()),
        Zip64Mode::Default if rf.zip64_end && !streams => return Err("ZIP64 end record although nothing needs it".into()),
        _ => {}
    }
    Ok(())
}

fn check_zip_crate(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    let a = &ArchiveSpec {
        entries: a
            .entries
            .iter()
            .filter(|e| e.method != Method::Lzma)
            .cloned()
            .map(|mut e| {
                e.extra.retain(|x| !matches!(x.id, 0x5455 | 0x9901 | 0x000a | 0xa220 | 0x7875));
                // The zip crate checks a Unicode comment field against the wrong bytes.
                if !(e.name.is_plain_utf8() && e.comment.is_plain_utf8()) {
                    e.comment = NameSpec::Utf8(String::new());
                }
                e
            })
            .collect(),
        comment: a.comment.clone().filter(|c| !c.contains("PK")),
        zip64: a.zip64,
    };
    classify(a, ctx);
    ctx.nontrivial_if(is_mixed(a));
    let bytes = write_mem(a)?;
    if stray_locator(&bytes, a) {
        return Ok(());
    }
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(bytes)).map_err(|e| format!("zip crate refuses the archive: {e}"))?;
    if z.len() != a.entries.len() {
        return Err(format!("zip crate lists {} entries of {}", z.len(), a.entries.len()));
    }
    if z.comment() != a.comment.clone().unwrap_or_default().as_bytes() {
        return Err("zip crate reports another archive comment".into());
    }
    for (i, e) in a.entries.iter().enumerate() {
        let want = e.data.bytes();
        let mut f = z.by_index(i).map_err(|x| format!("zip crate, entry {i}: {x}"))?;
        let unicode = !(e.name.is_plain_utf8() && e.comment.is_plain_utf8()) && e.name.is_utf8() && !e.name.text_bytes().is_empty();
        let names = [e.name.basic(), e.name.text_bytes()];
        if f.name_raw() != &names[0][..] && !(unicode && f.name_raw() == &names[1][..]) {
            return Err(format!("zip crate, entry {i}: name {}", show(f.name_raw())));
        }
        if e.name.is_plain_utf8() && e.comment.is_plain_utf8() && f.name().as_bytes() != &names[1][..] {
            return Err(format!("zip crate, entry {i}: decoded name {:?}", f.name()));
        }
        if f.size() != want.len() as u64 || f.crc32() != crc32(&want) {
            return Err(format!("zip crate, entry {i}: size {} crc {:#x}", f.size(), f.crc32()));
        }
        let mut got = vec![];
        f.read_to_end(&mut got).map_err(|x| format!("zip crate, reading entry {i} ({:?} {}): {x}", e.method, e.how.label()))?;
        if got != want {
            return Err(format!("zip crate, entry {i}: {}", diff(&got, &want)));
        }
    }
    Ok(())
}

const PY: &str = r#"
import sys, zipfile, json, zlib
z = zipfile.ZipFile(sys.argv[1])
out = []
for i in z.infolist():
    d = z.read(i)
    out.append([i.orig_filename.encode('utf-8','surrogatepass').hex(), i.CRC, i.compress_size, i.file_size, i.header_offset, i.comment.hex(), i.compress_type, i.internal_attr, i.external_attr, len(d), zlib.crc32(d), i.create_system])
print(json.dumps([z.comment.hex(), out]))
"#;

/// Whether metadata before the end record happens to read like a ZIP64 locator, which tools do not verify.
fn stray_locator(bytes: &[u8], a: &ArchiveSpec) -> bool {
    let end = bytes.len() - 22 - a.comment.as_ref().map_or(0, |c| c.len());
    end >= 20 && bytes[end - 20..].starts_with(&0x07064b50u32.to_le_bytes()) && !(end >= 76 && bytes[end - 76..].starts_with(&0x06064b50u32.to_le_bytes()))
}

fn check_python(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    classify(a, ctx);
    ctx.nontrivial_if(is_mixed(a));
    let (bytes, offs) = crate::props::c02::write_with_offsets(a)?;
    if stray_locator(&bytes, a) {
        return Ok(());
    }
    let s = Scratch::new();
    let p = s.file("a.zip", &bytes);
    let out = std::process::Command::new("/usr/bin/python3").arg("-S").arg("-c").arg(PY).arg(&p).output().map_err(|e| format!("python3: {e}"));
    let Ok(out) = out else { return Ok(()) };
    if !out.status.success() {
        return Err(format!("Python's zipfile refuses the archive: {}", String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or("")));
    }
    let v: serde_json::Value = serde_json::from_slice(&out.stdout).map_err(|e| format!("python output: {e}"))?;
    if v[0].as_str() != Some(&to_hex(a.comment.clone().unwrap_or_default().as_bytes())) {
        return Err("Python reports another archive comment".into());
    }
    let list = v[1].as_array().unwrap();
    if list.len() != a.entries.len() {
        return Err(format!("Python lists {} entries of {}", list.len(), a.entries.len()));
    }
    for (i, e) in a.entries.iter().enumerate() {
        let x = &list[i];
        let d = e.data.bytes();
        if e.name.is_plain_utf8() && e.comment.is_plain_utf8() && x[0].as_str() != Some(&to_hex(&e.name.text_bytes())) {
            return Err(format!("Python, entry {i}: name {}", x[0]));
        }
        let want = (crc32(&d) as u64, d.len() as u64, offs[i], d.len() as u64, crc32(&d) as u64);
        let g = |k: usize| x[k].as_u64().unwrap();
        if (g(1), g(3), g(4), g(9), g(10)) != want {
            return Err(format!("Python, entry {i}: {x} differs from {want:?}"));
        }
        if (g(6), g(7), g(8), g(11)) != (e.method.id() as u64, e.internal as u64, crate::props::c02::expected_external(e) as u64, 3) {
            return Err(format!("Python, entry {i}: method/attributes differ: {x}"));
        }
        if x[5].as_str() != Some(&to_hex(&e.comment.basic())) {
            return Err(format!("Python, entry {i}: comment {}", x[5]));
        }
    }
    Ok(())
}

fn check_unzip(a: &ArchiveSpec, ctx: &mut Ctx) -> Check {
    classify(a, ctx);
    ctx.nontrivial_if(is_mixed(a));
    let bytes = write_mem(a)?;
    if stray_locator(&bytes, a) {
        return Ok(());
    }
    let s = Scratch::new();
    let p = s.file("a.zip", &bytes);
    // -t only tests; nothing is extracted to disk.
    let Ok(out) = std::process::Command::new("/usr/bin/unzip").arg("-t").arg(&p).stdin(std::process::Stdio::null()).output() else { return Ok(()) };
    if out.status.code() != Some(0) {
        return Err(format!("unzip -t ends with {:?}: {} {}", out.status.code(), String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr)));
    }
    let oks = String::from_utf8_lossy(&out.stdout).matches(" OK").count();
    if oks < a.entries.len() {
        return Err(format!("unzip tested {oks} of {} entries", a.entries.len()));
    }
    Ok(())
}
