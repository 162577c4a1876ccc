//! C14: values the format cannot hold are refused and leave the archive sound.

use crate::data::*;
use crate::engine::*;
use crate::exec::block_on;
use crate::foreign;
use crate::model::*;
use crate::readers::errkey;
use crate::refzip;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{StringEncoding, ZipEntryBuilder, ZipString};
use futures_lite::io::AsyncWriteExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C14",
        level: "exploration",
        rule: "histories of entries (all four write modes, all ZIP64 modes) whose name, comment, alternative texts and extra fields have lengths below, at, just above and a multiple of 65536 above the 16-bit limit, and archive comments likewise; every outcome is compared with the length model and the closed archive with the list of accepted entries by a strict independent parser and by reading back; non-trivial = some length is within 40 of the limit or beyond it",
        assumptions: &["when several values are too long any of their errors may be reported", "an entry refused after its stream was started may leave unreferenced bytes in the file", "whether fields the writer itself adds still fit is only judged by the validity of the archive"],
        parts: || {
            vec![
                part("history", 60_000, 120_000, case_strategy(), check),
                part("single", 80_000, 150_000, (entry_strategy_long(), zip64_strategy()).prop_map(|(e, zip64)| Case { entries: vec![e], comments: vec![], zip64 }), check),
                part("archive-comment", 20_000, 60_000, (proptest::collection::vec(text_len(), 1..4), zip64_strategy(), any::<bool>()).prop_map(|(comments, zip64, entry)| Case {
                    entries: if entry { vec![small_entry()] } else { vec![] },
                    comments,
                    zip64
                }), check),
            ]
        },
    }
}

const MAX: usize = u16::MAX as usize;

/// `n` copies of a character, optionally with an alternative (or as raw bytes).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LText {
    c: char,
    n: u32,
    alt: Option<u32>,
    raw: bool,
}

impl LText {
    fn text(&self) -> String {
        std::iter::repeat_n(self.c, self.n as usize).collect()
    }
    fn zip_string(&self) -> ZipString {
        match self.alt {
            Some(a) if self.n > 0 => ZipString::new_with_alternative(self.text(), vec![0xe9; a as usize]),
            _ if self.raw => ZipString::new(self.text().into_bytes(), StringEncoding::Raw),
            _ => self.text().into(),
        }
    }
    fn name_spec(&self) -> NameSpec {
        match self.alt {
            Some(a) if self.n > 0 => NameSpec::Alt(self.text(), Hex(vec![0xe9; a as usize])),
            _ if self.raw => NameSpec::Raw(Hex(self.text().into_bytes())),
            _ => NameSpec::Long(self.c, self.n),
        }
    }
    fn basic_len(&self) -> usize {
        match self.alt {
            Some(a) if self.n > 0 => a as usize,
            _ => self.n as usize * self.c.len_utf8(),
        }
    }
}

/// Byte lengths, clustered at the limit and beyond.
fn blen() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => 0u32..20,
        3 => 65530u32..=65540,
        2 => 65480u32..65600,
        1 => prop_oneof![Just(65536u32), Just(65537), Just(131071), Just(131072), Just(131075)],
        1 => 0u32..140_000,
    ]
    .boxed()
}

fn char_() -> BoxedStrategy<char> {
    prop_oneof![4 => Just('n'), 1 => Just('é'), 1 => Just('日'), 1 => Just('🗜')].boxed()
}

fn text_len() -> BoxedStrategy<LText> {
    (char_(), blen(), 0u32..2, proptest::option::weighted(0.25, blen()), proptest::bool::weighted(0.15))
        .prop_map(|(c, b, up, alt, raw)| LText { c, n: b / c.len_utf8() as u32 + up, alt, raw })
        .boxed()
}

fn short_text() -> BoxedStrategy<LText> {
    (char_(), 0u32..12, proptest::option::weighted(0.2, 0u32..9)).prop_map(|(c, n, alt)| LText { c, n, alt, raw: false }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LEntry {
    name: LText,
    comment: LText,
    /// Lengths of the contents of unknown extra fields.
    extra: Vec<u16>,
    method: Method,
    data: DataSpec,
    /// whole, stream, whole precompressed, stream precompressed
    how: u8,
}

fn small_entry() -> LEntry {
    let t = |n| LText { c: 'x', n, alt: None, raw: false };
    LEntry { name: t(1), comment: t(0), extra: vec![], method: Method::Deflate, data: DataSpec::Zeros(10), how: 0 }
}

fn extras() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        3 => Just(vec![]),
        1 => proptest::collection::vec(0u16..40, 1..3),
        // One field which fills the area up to a few bytes.
        2 => (0u16..70).prop_map(|d| vec![65531 - d]),
        // Two fields whose sum is near the limit.
        2 => (0u16..65000, -40i32..40).prop_map(|(a, d)| vec![a, ((65535 - 8 - a as i32) + d).clamp(0, 65531) as u16]),
        // Sums that wrap to something small.
        1 => (0u16..60).prop_map(|d| vec![65531, 1 + d]),
        1 => Just(vec![65531, 65531, 20]),
    ]
    .boxed()
}

fn entry_strategy_long() -> BoxedStrategy<LEntry> {
    let text = || prop_oneof![2 => text_len(), 3 => short_text()];
    (text(), text(), extras(), light_method_strategy(), data_strategy(300), 0u8..4)
        .prop_map(|(name, comment, extra, method, data, how)| LEntry { name, comment, extra, method, data, how })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    entries: Vec<LEntry>,
    /// Archive comments set one after the other.
    comments: Vec<LText>,
    zip64: Zip64Mode,
}

fn case_strategy() -> BoxedStrategy<Case> {
    let entry = prop_oneof![
        3 => entry_strategy_long(),
        2 => (short_text(), light_method_strategy(), data_strategy(300), 0u8..4).prop_map(|(name, method, data, how)| LEntry { name, method, data, how, ..small_entry() }),
    ];
    (proptest::collection::vec(entry, 1..6), prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec(text_len(), 1..3)], zip64_strategy())
        .prop_map(|(entries, comments, zip64)| Case { entries, comments, zip64 })
        .boxed()
}

fn builder(e: &LEntry) -> ZipEntryBuilder {
    let mut b = ZipEntryBuilder::new(e.name.zip_string(), e.method.compression()).comment(e.comment.zip_string());
    if !e.extra.is_empty() {
        let mut all = vec![];
        for (k, n) in e.extra.iter().enumerate() {
            let x = ExtraSpec { id: 0x7700 + k as u16, data: Hex(vec![k as u8 + 1; *n as usize]) };
            let r = open_mem(foreign::single_with_cd_extra(&[x])).expect("carrier archive for extra fields must open");
            all.extend_from_slice(r.file().entries()[0].extra_fields());
        }
        b = b.extra_fields(all);
    }
    b
}

fn near(n: usize) -> bool {
    n + 40 > MAX
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let mut w = set_mode(ZipFileWriter::new(Vec::new()), c.zip64);
    let mut accepted: Vec<&LEntry> = vec![];
    let mut refused = 0;
    for (i, e) in c.entries.iter().enumerate() {
        let data = e.data.bytes();
        let comp = if e.how >= 2 { crate::codec::encode(e.method.id(), &data, 3) } else { vec![] };
        let r = block_on(async {
            let b = builder(e);
            match e.how {
                0 => w.write_entry_whole(b, &data).await,
                1 => {
                    let mut s = w.write_entry_stream(b).await?;
                    s.write_all(&data).await?;
                    s.close().await
                }
                2 => w.write_entry_whole_precompressed(b.crc32(crc32(&data)).uncompressed_size(data.len() as u64), &comp).await,
                _ => {
                    let mut s = w.write_entry_stream_precompressed(b.crc32(crc32(&data)).uncompressed_size(data.len() as u64)).await?;
                    s.write_all(&comp).await?;
                    s.close().await
                }
            }
        });
        let (nl, cl) = (e.name.basic_len(), e.comment.basic_len());
        let own: usize = e.extra.iter().map(|n| 4 + *n as usize).sum();
        // Whatever the writer may add: a ZIP64 field and both Unicode fields.
        let most = own + 32 + 9 + e.name.text().len() + 9 + e.comment.text().len();
        let must = nl > MAX || cl > MAX || own > MAX;
        ctx.nontrivial_if(near(nl) || near(cl) || near(own) || near(most) && (own > 40 || e.name.alt.is_some() || e.comment.alt.is_some()));
        match &r {
            Ok(()) if must => return Err(format!("entry {i}: name of {nl}, comment of {cl}, extra fields of {own} bytes accepted")),
            Ok(()) => {
                ctx.label_if(nl == MAX, "name=65535");
                ctx.label_if(cl == MAX, "comment=65535");
                ctx.label_if(near(own), "extra-near-limit-accepted");
                accepted.push(e);
            }
            Err(err) => {
                refused += 1;
                ctx.label(format!("refused:{}", errkey(err)));
                ctx.label_if(!must, "refused-by-added-fields");
                let ok = match err {
                    ZipError::FileNameTooLarge => nl > MAX,
                    ZipError::CommentTooLarge => cl > MAX,
                    ZipError::ExtraFieldTooLarge => most > MAX,
                    _ => false,
                };
                if !ok {
                    return Err(format!("entry {i}: name of {nl}, comment of {cl}, extra fields of {own} bytes refused with {err}"));
                }
            }
        }
    }
    ctx.label_if(refused > 0 && !accepted.is_empty(), "refused-and-accepted");
    for t in &c.comments {
        w.comment(t.text());
    }
    let comment = c.comments.last().map(|t| t.text()).unwrap_or_default();
    ctx.nontrivial_if(near(comment.len()));
    let bytes = match block_on(w.close()) {
        Err(ZipError::CommentTooLarge) if comment.len() > MAX => {
            ctx.label("archive-comment-refused");
            return Ok(());
        }
        Err(e) => return Err(format!("closing with a comment of {} bytes: {e}", comment.len())),
        Ok(_) if comment.len() > MAX => return Err(format!("archive comment of {} bytes accepted", comment.len())),
        Ok(b) => b,
    };
    ctx.label_if(comment.len() == MAX, "archive-comment=65535");
    let rc = Rc::new(bytes);
    let p = refzip::parse(&rc, comment.len(), false)?;
    if p.comment != comment.as_bytes() {
        return Err("archive comment differs".into());
    }
    if p.entries.len() != accepted.len() {
        return Err(format!("{} entries accepted, {} in the directory", accepted.len(), p.entries.len()));
    }
    for (i, (e, g)) in accepted.iter().zip(&p.entries).enumerate() {
        if g.name != e.name.name_spec().basic() || g.comment != e.comment.name_spec().basic() {
            return Err(format!("entry {i}: stored name of {} and comment of {} bytes differ from those written ({}, {})", g.name.len(), g.comment.len(), e.name.basic_len(), e.comment.basic_len()));
        }
        for (k, n) in e.extra.iter().enumerate() {
            let id = 0x7700 + k as u16;
            for (what, l) in [("central", &g.cd_extra), ("local", &g.lfh_extra)] {
                if !l.iter().any(|x| x.id == id && x.data == vec![k as u8 + 1; *n as usize]) {
                    return Err(format!("entry {i}: extra field of {n} bytes is missing from the {what} header"));
                }
            }
        }
    }
    // And through the crate's own reader.
    let bytes = Rc::try_unwrap(rc).unwrap();
    let r = open_mem(bytes).map_err(|e| format!("opening the finished archive: {e}"))?;
    if r.file().entries().len() != accepted.len() {
        return Err(format!("{} entries accepted, {} read", accepted.len(), r.file().entries().len()));
    }
    if r.file().comment().as_bytes() != comment.as_bytes() {
        return Err("archive comment differs when read back".into());
    }
    for (i, e) in accepted.iter().enumerate() {
        let se = &r.file().entries()[i];
        e.name.name_spec().check_read(&format!("entry {i} filename"), &str_view(se.filename()))?;
        e.comment.name_spec().check_read(&format!("entry {i} comment"), &str_view(se.comment()))?;
        let got = mem_content(&r, i)?;
        if got != e.data.bytes() {
            return Err(format!("entry {i} content: {}", diff(&e.data.bytes(), &got)));
        }
    }
    Ok(())
}
