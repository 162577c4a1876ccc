//! Strict reference parser written from the ZIP specification (APPNOTE.TXT), independent of the code under test.

use crate::data::to_hex;
use crate::sio::Storage;

#[derive(Clone, Debug)]
pub struct Extra {
    pub id: u16,
    pub data: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DdForm {
    None,
    Sig32,
    Sig64,
}

#[derive(Clone, Debug)]
pub struct RefEntry {
    pub name: Vec<u8>,
    pub comment: Vec<u8>,
    pub flags: u16,
    pub method: u16,
    pub date: (u16, u16),
    pub crc: u32,
    pub csize: u64,
    pub usize_: u64,
    pub internal: u16,
    pub external: u32,
    pub made_by: u16,
    pub needed: u16,
    pub offset: u64,
    pub data_start: u64,
    pub end: u64,
    pub cd_extra: Vec<Extra>,
    pub lfh_extra: Vec<Extra>,
    pub cd64: bool,
    pub lfh64: bool,
    pub dd: DdForm,
    /// Raw 32-bit values of the central record.
    pub raw32: (u32, u32, u32),
}

#[derive(Clone, Debug)]
pub struct RefArchive {
    pub entries: Vec<RefEntry>,
    pub cd_offset: u64,
    pub cd_size: u64,
    pub zip64_end: bool,
    pub comment: Vec<u8>,
    pub raw_end: (u16, u32, u32),
}

fn bytes<S: Storage + ?Sized>(s: &S, pos: u64, n: usize, what: &str) -> Result<Vec<u8>, String> {
    let mut v = vec![0; n];
    if s.read_at(pos, &mut v) != n {
        return Err(format!("{what} at {pos} runs past the end of the archive ({} bytes)", s.len()));
    }
    Ok(v)
}
fn u16a(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
fn u32a(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64a(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

fn parse_extra(b: &[u8], what: &str) -> Result<Vec<Extra>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        ensure!(i + 4 <= b.len(), "{what}: {} stray bytes in extra field area {}", b.len() - i, to_hex(&b[..b.len().min(64)]));
        let id = u16a(b, i);
        let n = u16a(b, i + 2) as usize;
        ensure!(i + 4 + n <= b.len(), "{what}: extra field {id:#x} of {n} bytes overruns the area of {}", b.len());
        v.push(Extra { id, data: b[i + 4..i + 4 + n].to_vec() });
        i += 4 + n;
    }
    Ok(v)
}

/// Parses strictly. `comment_len` fixes where the end record must be. `tile` requires records to cover the file exactly.
pub fn parse<S: Storage + ?Sized>(s: &S, comment_len: usize, tile: bool) -> Result<RefArchive, String> {
    let len = s.len();
    ensure!(len >= 22 + comment_len as u64, "archive of {len} bytes is too short for its end record and comment of {comment_len}");
    let eo = len - 22 - comment_len as u64;
    let e = bytes(s, eo, 22 + comment_len, "end record")?;
    ensure!(u32a(&e, 0) == 0x06054b50, "no end record at {eo}: {}", to_hex(&e[..4]));
    ensure!(u16a(&e, 20) as usize == comment_len, "end record says comment length {}, actual {comment_len}", u16a(&e, 20));
    let comment = e[22..].to_vec();
    let (d1, d2, n1, n2, cds, cdo) = (u16a(&e, 4), u16a(&e, 6), u16a(&e, 8), u16a(&e, 10), u32a(&e, 12), u32a(&e, 16));
    ensure!(n1 == n2, "entry counts on disk and in total differ: {n1} {n2}");
    let mut n = n2 as u64;
    let mut cd_size = cds as u64;
    let mut cd_offset = cdo as u64;
    let mut zip64_end = false;
    let mut cd_end = eo;
    if eo >= 20 {
        let l = bytes(s, eo - 20, 20, "ZIP64 locator")?;
        // A directory that reaches up to the end record leaves no room for a locator: its last record merely looks like one.
        if u32a(&l, 0) == 0x07064b50 && cd_offset + cd_size != eo {
            zip64_end = true;
            ensure!(u32a(&l, 4) == 0, "ZIP64 locator disk {}", u32a(&l, 4));
            ensure!(u32a(&l, 16) == 1, "ZIP64 locator total disks {}", u32a(&l, 16));
            let zo = u64a(&l, 8);
            let z = bytes(s, zo, 56, "ZIP64 end record")?;
            ensure!(u32a(&z, 0) == 0x06064b50, "no ZIP64 end record at {zo}");
            let sz = u64a(&z, 4);
            ensure!(zo + 12 + sz == eo - 20, "ZIP64 end record at {zo} of size {sz} does not end at its locator {}", eo - 20);
            ensure!(u32a(&z, 16) == 0 && u32a(&z, 20) == 0, "ZIP64 end record names disks");
            let (zn1, zn2, zs, zoff) = (u64a(&z, 24), u64a(&z, 32), u64a(&z, 40), u64a(&z, 48));
            ensure!(zn1 == zn2, "ZIP64 entry counts differ: {zn1} {zn2}");
            ensure!(n2 == u16::MAX || n2 as u64 == zn1, "classic count {n2} neither sentinel nor {zn1}");
            ensure!(cds == u32::MAX || cds as u64 == zs, "classic directory size {cds} neither sentinel nor {zs}");
            ensure!(cdo == u32::MAX || cdo as u64 == zoff, "classic directory offset {cdo} neither sentinel nor {zoff}");
            n = zn1;
            cd_size = zs;
            cd_offset = zoff;
            cd_end = zo;
        }
    }
    ensure!(d1 == d2 && (d1 == 0 || d1 == u16::MAX && zip64_end), "disk numbers {d1} {d2}");
    ensure!(cd_offset.checked_add(cd_size) == Some(cd_end), "directory at {cd_offset} of size {cd_size} does not end where the end records start ({cd_end})");
    let mut pos = cd_offset;
    let mut entries = vec![];
    for i in 0..n {
        let h = bytes(s, pos, 46, &format!("central record {i}"))?;
        ensure!(u32a(&h, 0) == 0x02014b50, "central record {i} at {pos}: bad signature {:#x}", u32a(&h, 0));
        let (nl, xl, cl) = (u16a(&h, 28) as usize, u16a(&h, 30) as usize, u16a(&h, 32) as usize);
        let t = bytes(s, pos + 46, nl + xl + cl, &format!("central record {i} tail"))?;
        let name = t[..nl].to_vec();
        let what = format!("central record {i}");
        let cd_extra = parse_extra(&t[nl..nl + xl], &what)?;
        let comment = t[nl + xl..].to_vec();
        pos += (46 + nl + xl + cl) as u64;
        ensure!(pos <= cd_end, "central record {i} overruns the directory");
        let (c32, u32_, o32) = (u32a(&h, 20), u32a(&h, 24), u32a(&h, 42));
        let disk = u16a(&h, 34);
        let mut csize = c32 as u64;
        let mut usize_ = u32_ as u64;
        let mut offset = o32 as u64;
        let z: Vec<&Extra> = cd_extra.iter().filter(|x| x.id == 1).collect();
        ensure!(z.len() <= 1, "{what}: {} ZIP64 fields", z.len());
        let cd64 = !z.is_empty();
        if let Some(z) = z.first() {
            let mut p = 0;
            let mut take = |need: bool, k: usize| -> Result<Option<u64>, String> {
                if !need {
                    return Ok(None);
                }
                if p + k > z.data.len() {
                    return Err(format!("{what}: ZIP64 field too short ({} bytes)", z.data.len()));
                }
                let v = if k == 8 { u64a(&z.data, p) } else { u32a(&z.data, p) as u64 };
                p += k;
                Ok(Some(v))
            };
            if let Some(v) = take(u32_ == u32::MAX, 8)? {
                usize_ = v;
            }
            if let Some(v) = take(c32 == u32::MAX, 8)? {
                csize = v;
            }
            if let Some(v) = take(o32 == u32::MAX, 8)? {
                offset = v;
            }
            if let Some(v) = take(disk == u16::MAX, 4)? {
                ensure!(v == 0, "{what}: ZIP64 disk {v}");
            }
            ensure!(p == z.data.len(), "{what}: ZIP64 field has {} bytes, {p} are called for by sentinels", z.data.len());
        }
        ensure!(disk == 0 || disk == u16::MAX && cd64, "{what}: disk {disk}");
        // Local header.
        let lw = format!("local header of entry {i} at {offset}");
        let l = bytes(s, offset, 30, &lw)?;
        ensure!(u32a(&l, 0) == 0x04034b50, "{lw}: bad signature {:#x}", u32a(&l, 0));
        let (lnl, lxl) = (u16a(&l, 26) as usize, u16a(&l, 28) as usize);
        let lt = bytes(s, offset + 30, lnl + lxl, &lw)?;
        ensure!(lt[..lnl] == name[..], "{lw}: name differs from the central record");
        let lfh_extra = parse_extra(&lt[lnl..], &lw)?;
        let flags = u16a(&h, 8);
        ensure!(u16a(&l, 6) == flags, "{lw}: flags {:#x} differ from central {:#x}", u16a(&l, 6), flags);
        ensure!(u16a(&l, 8) == u16a(&h, 10), "{lw}: method differs");
        ensure!(u32a(&l, 10) == u32a(&h, 12), "{lw}: date/time differ");
        ensure!(u16a(&l, 4) == u16a(&h, 6), "{lw}: version needed differs");
        let lz: Vec<&Extra> = lfh_extra.iter().filter(|x| x.id == 1).collect();
        ensure!(lz.len() <= 1, "{lw}: {} ZIP64 fields", lz.len());
        let lfh64 = !lz.is_empty();
        let crc = u32a(&h, 16);
        let (lc32, lu32) = (u32a(&l, 18), u32a(&l, 22));
        let (mut lcs, mut lus) = (lc32 as u64, lu32 as u64);
        if let Some(z) = lz.first() {
            ensure!(z.data.len() == 16, "{lw}: ZIP64 field must hold both sizes, has {} bytes", z.data.len());
            ensure!(lc32 == u32::MAX && lu32 == u32::MAX, "{lw}: ZIP64 field without size sentinels");
            lus = u64a(&z.data, 0);
            lcs = u64a(&z.data, 8);
        }
        let data_start = offset + 30 + (lnl + lxl) as u64;
        ensure!(data_start.checked_add(csize).is_some_and(|x| x <= cd_offset), "{lw}: data of {csize} bytes overruns the directory");
        let mut end = data_start + csize;
        let mut dd = DdForm::None;
        if flags & 8 == 0 {
            ensure!(u32a(&l, 14) == crc, "{lw}: CRC {:#x} differs from central {crc:#x}", u32a(&l, 14));
            ensure!(lcs == csize, "{lw}: compressed size {lcs} differs from central {csize}");
            ensure!(lus == usize_, "{lw}: uncompressed size {lus} differs from central {usize_}");
        } else {
            let lcrc = u32a(&l, 14);
            ensure!(
                (lcrc == 0 || lcrc == crc) && (lcs == 0 || lcs == csize) && (lus == 0 || lus == usize_),
                "{lw}: CRC {lcrc:#x} and sizes {lcs} {lus} are neither zero nor those of the data ({crc:#x} {csize} {usize_})"
            );
            let d = bytes(s, end, 16, &format!("data descriptor of entry {i}"))?;
            ensure!(u32a(&d, 0) == 0x08074b50, "entry {i}: no data descriptor signature at {end}");
            ensure!(u32a(&d, 4) == crc, "entry {i}: descriptor CRC {:#x} differs from central {crc:#x}", u32a(&d, 4));
            if lfh64 {
                let d = bytes(s, end, 24, &format!("data descriptor of entry {i}"))?;
                ensure!(
                    u64a(&d, 8) == csize && u64a(&d, 16) == usize_,
                    "entry {i}: descriptor sizes {} {} differ from {csize} {usize_}",
                    u64a(&d, 8),
                    u64a(&d, 16)
                );
                dd = DdForm::Sig64;
                end += 24;
            } else {
                ensure!(u32a(&d, 8) as u64 == csize, "entry {i}: descriptor compressed size {} differs from {csize}", u32a(&d, 8));
                ensure!(u32a(&d, 12) as u64 == usize_, "entry {i}: descriptor uncompressed size {} differs from {usize_}", u32a(&d, 12));
                dd = DdForm::Sig32;
                end += 16;
            }
        }
        entries.push(RefEntry {
            name,
            comment,
            flags,
            method: u16a(&h, 10),
            date: (u16a(&h, 14), u16a(&h, 12)),
            crc,
            csize,
            usize_,
            internal: u16a(&h, 36),
            external: u32a(&h, 38),
            made_by: u16a(&h, 4),
            needed: u16a(&h, 6),
            offset,
            data_start,
            end,
            cd_extra,
            lfh_extra,
            cd64,
            lfh64,
            dd,
            raw32: (c32, u32_, o32),
        });
    }
    ensure!(pos == cd_end, "directory of {n} records ends at {pos}, end records start at {cd_end}");
    let mut spans: Vec<(u64, u64, usize)> = entries.iter().enumerate().map(|(i, e)| (e.offset, e.end, i)).collect();
    spans.sort();
    let mut at = 0;
    for (a, b, i) in &spans {
        if tile {
            ensure!(*a == at, "entry {i} starts at {a}, previous record ended at {at}");
        } else {
            ensure!(*a >= at, "entry {i} at {a} overlaps the previous record ending at {at}");
        }
        at = *b;
    }
    if tile {
        ensure!(at == cd_offset, "last entry ends at {at}, directory starts at {cd_offset}");
    } else {
        ensure!(at <= cd_offset, "last entry ends at {at}, beyond the directory start {cd_offset}");
    }
    Ok(RefArchive { entries, cd_offset, cd_size, zip64_end, comment, raw_end: (n2, cds, cdo) })
}
