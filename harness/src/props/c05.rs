//! C05: archives made by other writers are read faithfully.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign::*;
use crate::model::*;
use crate::readers::*;
use crate::sio::*;
use futures_lite::io::Cursor;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C05",
        level: "exploration",
        rule: "archives from an independent encoder with random layout choices (gaps, directory order, differing local/central extra fields, descriptor forms, subsets of values in ZIP64 fields and end record, decoy ZIP64 values, extensible data, all methods incl. Deflate64), and archives from the zip crate, Python's zipfile and Info-ZIP zip; the reported metadata and contents are compared with what was encoded; non-trivial = a gap, an order unlike file order, a ZIP64 field or record, or a data descriptor",
        assumptions: &["LZMA entries of the encoder use the stream form this crate supports (finding F2)", "encoder and codecs are independent of the code under test"],
        parts: || {
            vec![
                part("encoder", 60_000, 480_000, (farchive_strategy(0..7, 9_000, false), schedule_strategy()).prop_map(|(a, sched)| Case { a, sched }), check),
                part("encoder-small", 90_000, 720_000, (farchive_strategy(0..4, 64, false), Just(Schedule::full())).prop_map(|(a, sched)| Case { a, sched }), check),
                part("encoder-big", 700, 7_000, (farchive_strategy(1..4, 400_000, false), schedule_strategy()).prop_map(|(a, sched)| Case { a, sched }), check),
                part("encoder-long", 5_000, 40_000, (long_farchive_strategy(false, 65_535), schedule_strategy()).prop_map(|(a, sched)| Case { a, sched }), check),
                part("encoder-many", 900, 9_000, (many_farchive_strategy(false), schedule_strategy()).prop_map(|(a, sched)| Case { a, sched }), check),
                part("zip-crate", 12_000, 96_000, tool_strategy(5_000, 8), check_zip_crate),
                part("python", 480, 3_840, tool_strategy(3_000, 20), check_python),
                part("info-zip", 480, 3_840, tool_strategy(3_000, 12), check_info_zip),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: FArchive,
    sched: Schedule,
}

/// What the reader must report for a classic string without Unicode extra field.
pub fn expect_text(basic: &[u8], flag: bool) -> StrView {
    let utf8 = if flag { std::str::from_utf8(basic).is_ok() } else { basic.is_ascii() };
    StrView { bytes: basic.to_vec(), utf8, alternative: None }
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let a = &c.a;
    let b = a.build();
    let fancy = a.end64.is_some()
        || !a.gap_before_cd.0.is_empty()
        || !a.gap_after_cd.0.is_empty()
        || b.cd_order.windows(2).any(|w| w[0] > w[1])
        || a.entries.iter().any(|e| e.dd != Dd::None || e.cd64 != 0 || e.decoy.is_some() || !e.gap.0.is_empty());
    ctx.nontrivial_if(fancy && !a.entries.is_empty());
    for e in &a.entries {
        ctx.label(format!("method={}", e.method));
        ctx.label(format!("dd={:?}", e.dd));
        ctx.label_if(e.cd64 != 0, "cd64");
        ctx.label_if(e.lfh64, "lfh64");
        ctx.label_if(e.decoy.is_some() && e.cd64 == 0, "zip64-decoy");
        ctx.label_if(!e.gap.0.is_empty(), "gap");
    }
    ctx.label_if(a.end64.is_some(), "end64");
    ctx.label_if(!a.gap_after_cd.0.is_empty(), "gap-after-directory");
    ctx.label_if(b.cd_order.windows(2).any(|w| w[0] > w[1]), "reordered");
    let snap = block_on(snap_mem(b.bytes.clone()));
    let seek = if c.sched.0.is_empty() { block_on(snap_seek(Cursor::new(b.bytes.clone()))) } else { block_on(snap_seek(SchedReader::new(Rc::new(b.bytes.clone()), c.sched.clone()))) };
    same_result("mem/seek", &snap, &seek)?;
    let s = snap.map_err(|e| format!("well-formed archive refused: {e}"))?;
    if s.listing.entries.len() != a.entries.len() {
        return Err(format!("{} entries encoded, {} reported", a.entries.len(), s.listing.entries.len()));
    }
    if s.listing.comment != expect_text(&a.comment.0, true) {
        return Err(format!("archive comment: {:?}", s.listing.comment));
    }
    if s.listing.zip64 != a.end64.is_some() {
        return Err(format!("zip64() is {} although the ZIP64 end record is {}", s.listing.zip64, a.end64.is_some()));
    }
    let r = open_mem(b.bytes.clone()).map_err(|e| e.to_string())?;
    for (k, &i) in b.cd_order.iter().enumerate() {
        let e = &a.entries[i];
        let x = &s.listing.entries[k];
        let plain = e.data.bytes();
        macro_rules! same {
            ($what:expr, $got:expr, $want:expr) => {
                if $got != $want {
                    return Err(format!("entry {k} (encoded {i}) {}: encoded {:?}, reported {:?}", $what, $want, $got));
                }
            };
        }
        same!("name", x.meta.name, expect_text(&e.name.0, e.utf8));
        same!("comment", x.meta.comment, expect_text(&e.comment.0, e.utf8));
        same!("method", x.meta.method, e.method);
        same!("date", x.meta.date, e.date);
        same!("internal", x.meta.internal, e.internal);
        same!("external", x.meta.external, e.external);
        same!("crc", x.meta.crc, crc32(&plain));
        same!("csize", x.meta.csize, b.csizes[i]);
        same!("usize", x.meta.usize_, plain.len() as u64);
        same!("offset", x.offset, b.offsets[i]);
        if s.with[k].err.is_some() {
            return Err(format!("entry {k} (method {}): {:?}", e.method, s.with[k].err));
        }
        if s.with[k].data != plain {
            return Err(format!("entry {k} content: {}", diff(&s.with[k].data, &plain)));
        }
        same!("running hash", s.without[k].1, crc32(&plain));
        if !e.cd_extra.is_empty() {
            let want: Vec<(u16, Vec<u8>)> = e.cd_extra.iter().map(|x| (x.id, x.data.0.clone())).collect();
            same!("extra fields", extras_of(&r.file().entries()[k])?, want);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- archives from real tools

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TEntry {
    name: String,
    data: DataSpec,
    method: u8,
    large: bool,
    mode: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TCase {
    entries: Vec<TEntry>,
    comment: String,
    stream: bool,
}

fn tool_strategy(max: u32, n: usize) -> BoxedStrategy<TCase> {
    let e = (
        prop_oneof![3 => "[a-z]{1,8}", 1 => "[a-zéß日本🗜]{1,6}"],
        data_strategy(max),
        0u8..5,
        proptest::bool::weighted(0.3),
        0u16..0o777,
    )
        .prop_map(|(name, data, method, large, mode)| TEntry { name, data, method, large, mode });
    (proptest::collection::vec(e, 1..n), prop_oneof![2 => Just(String::new()), 1 => "[a-z é]{0,30}"], any::<bool>())
        .prop_map(|(mut entries, comment, stream)| {
            for (i, e) in entries.iter_mut().enumerate() {
                e.name = format!("{i}-{}", e.name);
            }
            TCase { entries, comment, stream }
        })
        .boxed()
}

fn verify(c: &TCase, bytes: Vec<u8>, methods: &dyn Fn(&TEntry) -> Option<u16>) -> Check {
    let s = block_on(snap_mem(bytes.clone())).map_err(|e| format!("archive refused: {e}"))?;
    same_result("mem/seek", &Ok(s.clone()), &block_on(snap_seek(Cursor::new(bytes.clone()))))?;
    if s.listing.entries.len() != c.entries.len() {
        return Err(format!("{} entries stored, {} reported", c.entries.len(), s.listing.entries.len()));
    }
    if s.listing.comment.bytes != c.comment.as_bytes() {
        return Err(format!("archive comment {:?}", s.listing.comment));
    }
    for (i, e) in c.entries.iter().enumerate() {
        let m = &s.listing.entries[i].meta;
        let d = e.data.bytes();
        if m.name.bytes != e.name.as_bytes() || !m.name.utf8 {
            return Err(format!("entry {i}: name {:?} reported as {:?}", e.name, m.name));
        }
        if let Some(id) = methods(e) {
            if m.method != id {
                return Err(format!("entry {i}: method {id} reported as {}", m.method));
            }
        }
        if (m.crc, m.usize_) != (crc32(&d), d.len() as u64) {
            return Err(format!("entry {i}: crc/size {:#x} {}", m.crc, m.usize_));
        }
        if s.with[i].err.is_some() || s.with[i].data != d {
            return Err(format!("entry {i}: {:?} {}", s.with[i].err, diff(&s.with[i].data, &d)));
        }
    }
    Ok(())
}

fn check_zip_crate(c: &TCase, ctx: &mut Ctx) -> Check {
    use std::io::Write;
    use zip::CompressionMethod as M;
    ctx.nontrivial_if(c.entries.len() > 1);
    let mut w = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    let method = |e: &TEntry| [M::Stored, M::Deflated, M::Bzip2, M::Zstd, M::Xz][(e.method % 5) as usize];
    for e in &c.entries {
        let o = zip::write::SimpleFileOptions::default().compression_method(method(e)).large_file(e.large).unix_permissions(e.mode as u32);
        w.start_file(e.name.clone(), o).map_err(|e| format!("zip crate: {e}"))?;
        w.write_all(&e.data.bytes()).map_err(|e| format!("zip crate: {e}"))?;
    }
    w.set_comment(c.comment.clone());
    let bytes = w.finish().map_err(|e| format!("zip crate: {e}"))?.into_inner();
    verify(c, bytes.clone(), &|e| Some([0, 8, 12, 93, 95][(e.method % 5) as usize]))?;
    let s = block_on(snap_mem(bytes)).unwrap();
    for (i, e) in c.entries.iter().enumerate() {
        if s.listing.entries[i].meta.perms != Some(0o100000 | e.mode) {
            return Err(format!("entry {i}: permissions {:o} reported as {:?}", e.mode, s.listing.entries[i].meta.perms));
        }
    }
    Ok(())
}

const PY: &str = r#"
import sys, json, zipfile, io
c = json.load(open(sys.argv[1]))
class NoSeek:
    def __init__(s, f): s.f = f; s.n = 0
    def write(s, b): s.n += len(b); return s.f.write(b)
    def flush(s): s.f.flush()
f = open(sys.argv[2], 'wb')
z = zipfile.ZipFile(NoSeek(f) if c['stream'] else f, 'w')
M = [zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2]
for e in c['entries']:
    i = zipfile.ZipInfo(e['name'], (2001, 2, 3, 4, 5, 6))
    i.compress_type = M[e['method'] % 3]
    i.external_attr = e['mode'] << 16
    d = bytes.fromhex(e['hex'])
    with z.open(i, 'w', force_zip64=e['large']) as w:
        w.write(d)
z.comment = c['comment'].encode()
z.close()
"#;

fn case_json(c: &TCase) -> serde_json::Value {
    serde_json::json!({"stream": c.stream, "comment": c.comment, "entries": c.entries.iter().map(|e| serde_json::json!({"name": e.name, "method": e.method, "mode": e.mode, "large": e.large, "hex": to_hex(&e.data.bytes())})).collect::<Vec<_>>()})
}

fn check_python(c: &TCase, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(c.entries.len() > 1);
    ctx.label_if(c.stream, "unseekable");
    let s = Scratch::new();
    let j = s.file("c.json", &serde_json::to_vec(&case_json(c)).unwrap());
    let out = s.0.join("a.zip");
    let Ok(st) = std::process::Command::new("/usr/bin/python3").arg("-S").arg("-c").arg(PY).arg(&j).arg(&out).output() else { return Ok(()) };
    if !st.status.success() {
        return Err(format!("harness: python failed: {}", String::from_utf8_lossy(&st.stderr)));
    }
    let bytes = std::fs::read(&out).unwrap();
    verify(c, bytes.clone(), &|e| Some([0, 8, 12][(e.method % 3) as usize]))?;
    let s = block_on(snap_mem(bytes)).unwrap();
    for (i, e) in c.entries.iter().enumerate() {
        let m = &s.listing.entries[i].meta;
        // zipfile replaces an external attribute of zero with 0600.
        let mode = if e.mode == 0 { 0o600 } else { e.mode };
        if m.perms != Some(mode) || m.date != (((2001 - 1980) << 9) | 2 << 5 | 3, 4 << 11 | 5 << 5 | 3) {
            return Err(format!("entry {i}: attributes or date: {m:?}"));
        }
    }
    Ok(())
}

fn check_info_zip(c: &TCase, ctx: &mut Ctx) -> Check {
    ctx.nontrivial_if(c.entries.len() > 1);
    let s = Scratch::new();
    let mut cmd = std::process::Command::new("/usr/bin/zip");
    cmd.current_dir(&s.0).arg("-q").env("LC_ALL", "C.UTF-8");
    match c.entries[0].method % 3 {
        0 => cmd.arg("-0"),
        1 => cmd.arg("-Z").arg("bzip2"),
        _ => cmd.arg("-6"),
    };
    let c = &TCase {
        entries: c
            .entries
            .iter()
            .map(|e| TEntry { name: e.name.chars().map(|c| if c.is_ascii() { c } else { 'u' }).collect(), ..e.clone() })
            .collect(),
        comment: String::new(),
        stream: c.stream,
    };
    for e in &c.entries {
        s.file(&e.name, &e.data.bytes());
    }
    cmd.arg("-");
    for e in &c.entries {
        cmd.arg(&e.name);
    }
    // To standard output: a pipe (streamed, with descriptors) or a file.
    let bytes = if c.stream {
        let Ok(o) = cmd.stdin(std::process::Stdio::null()).output() else { return Ok(()) };
        o.stdout
    } else {
        let f = std::fs::File::create(s.0.join("out.zip")).unwrap();
        let Ok(_) = cmd.stdin(std::process::Stdio::null()).stdout(f).status() else { return Ok(()) };
        std::fs::read(s.0.join("out.zip")).unwrap()
    };
    ctx.label_if(c.stream, "pipe");
    verify(c, bytes, &|_| None)
}
