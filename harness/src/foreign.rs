//! Independent ZIP encoder, able to lay archives out in ways the code under test never writes.

use crate::codec;
use crate::data::*;
use crate::model::ExtraSpec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes());
}
pub fn p64(v: &mut Vec<u8>, x: u64) {
    v.extend_from_slice(&x.to_le_bytes());
}

pub fn extra_bytes(extra: &[ExtraSpec]) -> Vec<u8> {
    let mut v = Vec::new();
    for e in extra {
        p16(&mut v, e.id);
        p16(&mut v, e.data.0.len() as u16);
        v.extend_from_slice(&e.data.0);
    }
    v
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Dd {
    None,
    Sig32,
    NoSig32,
    Sig64,
    NoSig64,
}

/// One entry of a foreign archive.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FEntry {
    pub name: Hex,
    pub comment: Hex,
    pub utf8: bool,
    pub method: u16,
    pub level: u8,
    pub data: DataSpec,
    pub date: (u16, u16),
    pub internal: u16,
    pub external: u32,
    pub lfh_extra: Vec<ExtraSpec>,
    pub cd_extra: Vec<ExtraSpec>,
    pub dd: Dd,
    /// Local header uses a ZIP64 field (both sizes).
    pub lfh64: bool,
    /// With a data descriptor: leave the true sizes and CRC in the local header instead of zeros.
    pub lfh_filled: bool,
    /// Which central fields are moved to the ZIP64 field: 1 uncompressed, 2 compressed, 4 offset, 8 disk.
    pub cd64: u8,
    /// Position of the ZIP64 field among the central extra fields.
    pub z64_last: bool,
    /// Unrelated bytes before this entry's local header.
    pub gap: Hex,
    pub version_made: u16,
    pub version_needed: u16,
    /// Additional general purpose bits (compression option bits 1-2).
    pub flag_bits: u16,
    /// Content of a ZIP64 field in a central record whose 32-bit fields hold no sentinel (only if cd64 is 0).
    pub decoy: Option<Hex>,
    /// Zero bytes after the local extra fields, too few to be a field (as alignment tools leave them).
    #[serde(default)]
    pub lfh_pad: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FEnd64 {
    /// Sentinels in the classic record: 1 entries, 2 size, 4 offset, 8 disk number, 16 entries on this disk, 32 disk of
    /// the directory.
    pub sentinels: u8,
    pub ext: Hex,
    /// Fields of the ZIP64 record that hold nonsense because the classic record holds the value.
    pub decoy: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FArchive {
    pub entries: Vec<FEntry>,
    /// Order of the central directory: sort keys per entry.
    pub order: Vec<u16>,
    pub gap_before_cd: Hex,
    /// Between the directory and the end records (a digital signature, say).
    #[serde(default)]
    pub gap_after_cd: Hex,
    pub comment: Hex,
    pub end64: Option<FEnd64>,
}

#[derive(Clone, Debug)]
pub struct Built {
    pub bytes: Vec<u8>,
    /// Central directory order: index into entries.
    pub cd_order: Vec<usize>,
    pub offsets: Vec<u64>,
    pub csizes: Vec<u64>,
    /// (start, end) of the compressed data.
    pub data_ranges: Vec<(usize, usize)>,
    pub ends: Vec<usize>,
    pub lfh_ends: Vec<usize>,
    pub cd_offset: usize,
    pub cd_record_offsets: Vec<usize>,
    pub eocdr: usize,
}

impl FArchive {
    pub fn cd_order(&self) -> Vec<usize> {
        let mut o: Vec<usize> = (0..self.entries.len()).collect();
        o.sort_by_key(|i| self.order.get(*i).copied().unwrap_or(0));
        o
    }

    pub fn build(&self) -> Built {
        let mut v = Vec::new();
        let mut b = Built {
            bytes: vec![],
            cd_order: self.cd_order(),
            offsets: vec![],
            csizes: vec![],
            data_ranges: vec![],
            ends: vec![],
            lfh_ends: vec![],
            cd_offset: 0,
            cd_record_offsets: vec![0; self.entries.len()],
            eocdr: 0,
        };
        let mut crcs = vec![];
        let mut usizes = vec![];
        for e in &self.entries {
            v.extend_from_slice(&e.gap.0);
            b.offsets.push(v.len() as u64);
            let plain = e.data.bytes();
            let comp = codec::encode(e.method, &plain, e.level as u32);
            let crc = crc32(&plain);
            let show = e.dd == Dd::None || e.lfh_filled;
            let (lcrc, lc, lu) = if show { (crc, comp.len() as u64, plain.len() as u64) } else { (0, 0, 0) };
            let mut extra = vec![];
            if e.lfh64 {
                p16(&mut extra, 1);
                p16(&mut extra, 16);
                p64(&mut extra, lu);
                p64(&mut extra, lc);
            }
            let others = extra_bytes(&e.lfh_extra);
            if e.z64_last {
                extra = [others, extra].concat();
            } else {
                extra.extend_from_slice(&others);
            }
            extra.resize(extra.len() + e.lfh_pad as usize, 0);
            p32(&mut v, 0x04034b50);
            p16(&mut v, e.version_needed);
            p16(&mut v, self.flags(e));
            p16(&mut v, e.method);
            p16(&mut v, e.date.1);
            p16(&mut v, e.date.0);
            p32(&mut v, lcrc);
            p32(&mut v, if e.lfh64 { u32::MAX } else { lc as u32 });
            p32(&mut v, if e.lfh64 { u32::MAX } else { lu as u32 });
            p16(&mut v, e.name.0.len() as u16);
            p16(&mut v, extra.len() as u16);
            v.extend_from_slice(&e.name.0);
            v.extend_from_slice(&extra);
            b.lfh_ends.push(v.len());
            let s = v.len();
            v.extend_from_slice(&comp);
            b.data_ranges.push((s, v.len()));
            match e.dd {
                Dd::None => {}
                k => {
                    if matches!(k, Dd::Sig32 | Dd::Sig64) {
                        p32(&mut v, 0x08074b50);
                    }
                    p32(&mut v, crc);
                    if matches!(k, Dd::Sig32 | Dd::NoSig32) {
                        p32(&mut v, comp.len() as u32);
                        p32(&mut v, plain.len() as u32);
                    } else {
                        p64(&mut v, comp.len() as u64);
                        p64(&mut v, plain.len() as u64);
                    }
                }
            }
            b.ends.push(v.len());
            crcs.push(crc);
            usizes.push(plain.len() as u64);
            b.csizes.push(comp.len() as u64);
        }
        v.extend_from_slice(&self.gap_before_cd.0);
        b.cd_offset = v.len();
        for &i in &b.cd_order {
            let e = &self.entries[i];
            b.cd_record_offsets[i] = v.len();
            let mut z = vec![];
            if e.cd64 & 15 != 0 {
                let mut c = vec![];
                if e.cd64 & 1 != 0 {
                    p64(&mut c, usizes[i]);
                }
                if e.cd64 & 2 != 0 {
                    p64(&mut c, b.csizes[i]);
                }
                if e.cd64 & 4 != 0 {
                    p64(&mut c, b.offsets[i]);
                }
                if e.cd64 & 8 != 0 {
                    p32(&mut c, 0);
                }
                p16(&mut z, 1);
                p16(&mut z, c.len() as u16);
                z.extend_from_slice(&c);
            }
            if let (0, Some(d)) = (e.cd64 & 15, &e.decoy) {
                p16(&mut z, 1);
                p16(&mut z, d.0.len() as u16);
                z.extend_from_slice(&d.0);
            }
            let others = extra_bytes(&e.cd_extra);
            let extra = if e.z64_last { [others, z].concat() } else { [z, others].concat() };
            p32(&mut v, 0x02014b50);
            p16(&mut v, e.version_made);
            p16(&mut v, e.version_needed);
            p16(&mut v, self.flags(e));
            p16(&mut v, e.method);
            p16(&mut v, e.date.1);
            p16(&mut v, e.date.0);
            p32(&mut v, crcs[i]);
            p32(&mut v, if e.cd64 & 2 != 0 { u32::MAX } else { b.csizes[i] as u32 });
            p32(&mut v, if e.cd64 & 1 != 0 { u32::MAX } else { usizes[i] as u32 });
            p16(&mut v, e.name.0.len() as u16);
            p16(&mut v, extra.len() as u16);
            p16(&mut v, e.comment.0.len() as u16);
            p16(&mut v, if e.cd64 & 8 != 0 { u16::MAX } else { 0 });
            p16(&mut v, e.internal);
            p32(&mut v, e.external);
            p32(&mut v, if e.cd64 & 4 != 0 { u32::MAX } else { b.offsets[i] as u32 });
            v.extend_from_slice(&e.name.0);
            v.extend_from_slice(&extra);
            v.extend_from_slice(&e.comment.0);
        }
        let cd_size = (v.len() - b.cd_offset) as u64;
        v.extend_from_slice(&self.gap_after_cd.0);
        let n = self.entries.len() as u64;
        let s = self.end64.as_ref().map(|x| x.sentinels).unwrap_or(0);
        if let Some(e64) = &self.end64 {
            let off = v.len() as u64;
            p32(&mut v, 0x06064b50);
            p64(&mut v, 44 + e64.ext.0.len() as u64);
            p16(&mut v, 45);
            p16(&mut v, 45);
            let decoy = |bit: u8, x: u64| if e64.decoy & !s & bit != 0 { x.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(77) } else { x };
            p32(&mut v, decoy(8, 0) as u32);
            p32(&mut v, decoy(32, 0) as u32);
            p64(&mut v, decoy(16, n));
            p64(&mut v, decoy(1, n));
            p64(&mut v, decoy(2, cd_size));
            p64(&mut v, decoy(4, b.cd_offset as u64));
            v.extend_from_slice(&e64.ext.0);
            p32(&mut v, 0x07064b50);
            p32(&mut v, 0);
            p64(&mut v, off);
            p32(&mut v, 1);
        }
        b.eocdr = v.len();
        p32(&mut v, 0x06054b50);
        p16(&mut v, if s & 8 != 0 { u16::MAX } else { 0 });
        p16(&mut v, if s & 32 != 0 { u16::MAX } else { 0 });
        p16(&mut v, if s & 16 != 0 { u16::MAX } else { n as u16 });
        p16(&mut v, if s & 1 != 0 { u16::MAX } else { n as u16 });
        p32(&mut v, if s & 2 != 0 { u32::MAX } else { cd_size as u32 });
        p32(&mut v, if s & 4 != 0 { u32::MAX } else { b.cd_offset as u32 });
        p16(&mut v, self.comment.0.len() as u16);
        v.extend_from_slice(&self.comment.0);
        b.bytes = v;
        b
    }

    fn flags(&self, e: &FEntry) -> u16 {
        (if e.utf8 { 0x800 } else { 0 }) | (if e.dd != Dd::None { 8 } else { 0 }) | (e.flag_bits & 0b110)
    }
}

/// A one-entry archive (stored, empty) whose central record carries the given extra fields.
pub fn single_with_cd_extra(extra: &[ExtraSpec]) -> Vec<u8> {
    let a = FArchive {
        entries: vec![FEntry { cd_extra: extra.to_vec(), ..plain_entry(b"x") }],
        order: vec![],
        gap_before_cd: Hex(vec![]), gap_after_cd: Hex(vec![]),
        comment: Hex(vec![]),
        end64: None,
    };
    a.build().bytes
}

pub fn plain_entry(name: &[u8]) -> FEntry {
    FEntry {
        name: Hex(name.to_vec()),
        comment: Hex(vec![]),
        utf8: true,
        method: 0,
        level: 3,
        data: DataSpec::Zeros(0),
        date: (0x21, 0),
        internal: 0,
        external: 0,
        lfh_extra: vec![],
        cd_extra: vec![],
        dd: Dd::None,
        lfh64: false,
        lfh_filled: false,
        cd64: 0,
        z64_last: false,
        gap: Hex(vec![]),
        version_made: 0x031e,
        version_needed: 20,
        flag_bits: 0,
        decoy: None,
        lfh_pad: 0,
    }
}

pub fn foreign_method_strategy() -> BoxedStrategy<u16> {
    prop_oneof![
        6 => Just(codec::STORED),
        6 => Just(codec::DEFLATE),
        3 => Just(codec::DEFLATE64),
        2 => Just(codec::BZ),
        3 => Just(codec::ZSTD),
        1 => Just(codec::XZ),
        1 => Just(codec::LZMA),
    ]
    .boxed()
}

fn extras() -> BoxedStrategy<Vec<ExtraSpec>> {
    crate::model::extra_strategy()
}

fn gap() -> BoxedStrategy<Hex> {
    prop_oneof![
        5 => Just(Hex(vec![])),
        1 => proptest::collection::vec(any::<u8>(), 1..20).prop_map(Hex),
        1 => proptest::sample::select(SIGNATURES.to_vec()).prop_map(|s| Hex(s.to_le_bytes().to_vec())),
    ]
    .boxed()
}

/// Nothing, a digital signature record, or unrelated bytes.
fn after_cd() -> BoxedStrategy<Hex> {
    prop_oneof![
        5 => Just(Hex(vec![])),
        1 => proptest::collection::vec(any::<u8>(), 0..30).prop_map(|d| {
            let mut v = vec![];
            p32(&mut v, 0x05054b50);
            p16(&mut v, d.len() as u16);
            v.extend_from_slice(&d);
            Hex(v)
        }),
        1 => proptest::collection::vec(any::<u8>(), 1..60).prop_map(Hex),
    ]
    .boxed()
}

fn name_bytes() -> BoxedStrategy<(Vec<u8>, bool)> {
    prop_oneof![
        3 => proptest::collection::vec(proptest::char::range('a', 'z'), 0..10).prop_map(|c| (c.into_iter().collect::<String>().into_bytes(), false)),
        2 => proptest::collection::vec(any::<char>(), 0..8).prop_map(|c| (c.into_iter().collect::<String>().into_bytes(), true)),
        2 => proptest::collection::vec(any::<u8>(), 0..16).prop_map(|c| (c, false)),
    ]
    .boxed()
}

pub fn fentry_strategy(max: u32, stream: bool) -> BoxedStrategy<FEntry> {
    let dd = prop_oneof![4 => Just(Dd::None), 1 => Just(Dd::Sig32), 1 => Just(Dd::NoSig32), 1 => Just(Dd::Sig64), 1 => Just(Dd::NoSig64)].boxed();
    (
        (name_bytes(), proptest::collection::vec(any::<u8>(), 0..12), foreign_method_strategy(), 0u8..10, data_strategy(max)),
        ((num16(), num16()), num16(), num32(), extras(), extras()),
        (dd, any::<bool>(), any::<bool>(), prop_oneof![1 => Just(0u8), 1 => 0u8..16], any::<bool>()),
        (gap(), num16(), num16(), 0u16..4, proptest::option::weighted(0.2, proptest::collection::vec(any::<u8>(), 0..29)), prop_oneof![4 => Just(0u8), 1 => 1u8..4]),
    )
        .prop_map(move |((name, comment, method, level, data), (date, internal, external, lx, cx), (dd, lfh64, lfh_filled, cd64, z64_last), (gap, vm, vn, fb, decoy, pad))| {
            // A descriptor without signature whose CRC is the signature cannot be told from one with.
            let dd = match (dd, &data) {
                (Dd::NoSig32, DataSpec::Crc { crc: 0x08074b50, .. }) if stream => Dd::Sig32,
                (Dd::NoSig64, DataSpec::Crc { crc: 0x08074b50, .. }) if stream => Dd::Sig64,
                (dd, _) => dd,
            };
            // Stored with a descriptor is refused by design; for Deflate64 see finding F4 (decided in C06's own part).
            let dd = if stream && (method == codec::STORED || method == codec::DEFLATE64) { Dd::None } else { dd };
            FEntry {
                name: Hex(name.0),
                comment: Hex(if name.1 { String::from_utf8_lossy(&comment).into_owned().into_bytes() } else { comment }),
                utf8: name.1,
                method,
                level,
                data,
                date,
                internal,
                external,
                lfh_extra: lx,
                cd_extra: cx,
                dd,
                // The form of a descriptor is told by the ZIP64 field of the local header.
                lfh64: match dd {
                    Dd::None => lfh64,
                    Dd::Sig32 | Dd::NoSig32 => lfh64 && !stream,
                    Dd::Sig64 | Dd::NoSig64 => lfh64 || stream,
                },
                lfh_filled,
                cd64,
                z64_last,
                gap: if stream { Hex(vec![]) } else { gap },
                version_made: vm,
                version_needed: vn,
                flag_bits: fb << 1,
                decoy: decoy.map(Hex),
                lfh_pad: if stream { 0 } else { pad },
            }
        })
        .boxed()
}

/// Lengths around the limits and sizes code may treat specially, up to `max`.
pub fn long_len(max: u32) -> BoxedStrategy<u32> {
    let at: Vec<u32> = [64u32, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 49152, 65535].into_iter().filter(|x| *x <= max).collect();
    prop_oneof![3 => (proptest::sample::select(at), 0u32..4).prop_map(move |(a, d)| (a + d).saturating_sub(1).min(max)), 1 => 0..=max].boxed()
}

fn long_text(seed: u64, len: u32, kind: u8) -> (Vec<u8>, bool) {
    let mut r = Rng(seed);
    let n = len as usize;
    match kind {
        0 => ((0..n).map(|_| b'a' + r.below(26) as u8).collect(), false),
        1 => ((0..n).map(|_| b'a' + r.below(26) as u8).collect(), true),
        2 => {
            let mut s = String::new();
            while s.len() < n {
                let c = ['\u{e9}', '\u{20ac}', '\u{1f600}', 'z', '/', '\\'][r.below(6) as usize];
                if s.len() + c.len_utf8() > n {
                    s.push('.');
                } else {
                    s.push(c);
                }
            }
            (s.into_bytes(), true)
        }
        _ => ((0..n).map(|_| r.next() as u8).collect(), false),
    }
}

/// Archives with long names, comments and extra areas.
pub fn long_farchive_strategy(stream: bool, max: u32) -> BoxedStrategy<FArchive> {
    let one = (fentry_strategy(200, stream), 0u8..16, (long_len(max), long_len(max), long_len(max.min(60_000)), long_len(max.min(60_000))), 0u8..4, any::<u64>()).prop_map(
        |(mut e, which, (n, c, lx, cx), kind, seed)| {
            if which & 3 != 0 {
                // Both texts follow the one flag.
                let (name, utf8) = long_text(seed, if which & 1 != 0 { n } else { 5 }, kind);
                e.name = Hex(name);
                e.comment = Hex(long_text(seed ^ 1, if which & 2 != 0 { c } else { 3 }, kind).0);
                e.utf8 = utf8;
            }
            let area = |len: u32, k: u64| match (DataSpec::Sigs { seed: seed ^ k, len: len.saturating_sub(4) }).bytes() {
                d if seed & 12 == 12 && d.len() > 8 => crate::model::tiny_fields(d.len(), seed ^ k),
                d if k & 2 == 0 || d.len() < 20 => vec![ExtraSpec { id: 0x4242, data: Hex(d) }],
                d => {
                    // Several fields, two of them of the same kind.
                    let (a, b) = d.split_at(d.len() / 3);
                    vec![ExtraSpec { id: 0x4243, data: Hex(a.to_vec()) }, ExtraSpec { id: 0x4242, data: Hex(vec![]) }, ExtraSpec { id: 0x4243, data: Hex(b[..b.len() - 8].to_vec()) }]
                }
            };
            if which & 4 != 0 {
                e.lfh_extra = area(lx, seed & 2 | 4);
            }
            if which & 8 != 0 {
                e.cd_extra = area(cx, seed >> 1 & 2 | 8);
            }
            e
        },
    );
    (farchive_strategy(1..2, 10, stream), proptest::collection::vec(one, 1..4), proptest::option::of((long_len(65_535), any::<u64>())))
        .prop_map(|(mut a, entries, comment)| {
            a.entries = entries;
            if let Some((len, seed)) = comment {
                a.comment = Hex(DataSpec::Rand { seed, len }.bytes());
            }
            a
        })
        .boxed()
}

/// A few kinds of entries repeated many times.
pub fn many_farchive_strategy(stream: bool) -> BoxedStrategy<FArchive> {
    (farchive_strategy(1..5, 120, stream), prop_oneof![2 => 10usize..130, 2 => 240usize..300, 1 => 300usize..1200], any::<u64>(), any::<bool>())
        .prop_map(move |(mut a, n, seed, rename)| {
            let mut r = Rng(seed);
            let k = a.entries.len();
            a.entries = (0..n)
                .map(|i| {
                    let mut e = a.entries[i % k].clone();
                    if rename {
                        e.name = Hex(format!("{i}").into_bytes());
                    }
                    // The signature among checksums is the business of other cases.
                    e.data = match e.data {
                        DataSpec::Crc { .. } => DataSpec::Text { seed: i as u64, len: 40 },
                        d if i < k => d,
                        d => DataSpec::Rand { seed: i as u64, len: (d.len() as u32).min(120) },
                    };
                    e
                })
                .collect();
            if !stream && !a.order.is_empty() {
                a.order = (0..n).map(|_| r.next() as u16).collect();
            }
            a
        })
        .boxed()
}

pub fn farchive_strategy(n: std::ops::Range<usize>, max: u32, stream: bool) -> BoxedStrategy<FArchive> {
    (
        proptest::collection::vec(fentry_strategy(max, stream), n),
        proptest::collection::vec(any::<u16>(), 0..10),
        (gap(), after_cd()),
        prop_oneof![2 => Just(vec![]), 2 => proptest::collection::vec(any::<u8>(), 0..40)],
        proptest::option::of((0u8..64, proptest::collection::vec(any::<u8>(), 0..20), prop_oneof![Just(0u8), 0u8..64]).prop_map(|(sentinels, ext, decoy)| FEnd64 { sentinels, ext: Hex(ext), decoy })),
        proptest::bool::weighted(0.06),
    )
        .prop_map(move |(mut entries, order, (g, ga), comment, end64, same)| {
            // Names may repeat.
            if let (true, Some(name)) = (same, entries.first().filter(|e| !e.utf8).map(|e| e.name.clone())) {
                entries.iter_mut().skip(1).filter(|e| !e.utf8).for_each(|e| e.name = name.clone());
            }
            (entries.is_empty(), entries, order, (g, ga), comment, end64)
        })
        .prop_map(move |(none, entries, order, (g, ga), comment, end64)| FArchive {
            entries,
            order: if stream { vec![] } else { order },
            gap_before_cd: if stream { Hex(vec![]) } else { g },
            // Without entries, the streaming reader expects the directory to be empty as well.
            gap_after_cd: if stream && none { Hex(vec![]) } else { ga },
            comment: Hex(comment),
            end64,
        })
        .boxed()
}
