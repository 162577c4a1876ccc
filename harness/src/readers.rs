//! Uniform views of the crate's readers, so that their answers can be compared.

use crate::model::*;
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{Compression, ZipEntry, ZipEntryBuilder};
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncSeek};
use std::io::IoSliceMut;
use std::path::{Path, PathBuf};

/// Comparable form of an error: variant and arguments, I/O errors by kind.
pub fn errkey(e: &ZipError) -> String {
    match e {
        ZipError::UpstreamReadError(io) => format!("io:{:?}", io.kind()),
        other => format!("{other:?}"),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Content {
    pub data: Vec<u8>,
    /// Error of the checked read, if any.
    pub err: Option<String>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Snapshot {
    pub listing: Listing,
    /// Checked read with entry.
    pub with: Vec<Content>,
    /// Plain read without entry, with the running hash at its end.
    pub without: Vec<(Content, u32)>,
    /// Outcome of opening entries that do not exist.
    pub beyond: Vec<String>,
}

macro_rules! beyond {
    ($r:expr, $n:expr) => {{
        let mut v = vec![];
        for i in [$n, $n + 7, usize::MAX] {
            v.push($r.reader_with_entry(i).await.err().map(|e| errkey(&e)).unwrap_or_else(|| format!("entry {i} of {} opens", $n)));
            v.push($r.reader_without_entry(i).await.err().map(|e| errkey(&e)).unwrap_or_else(|| format!("entry {i} of {} opens", $n)));
        }
        v
    }};
}

async fn checked<R: AsyncBufRead + Unpin>(r: Result<async_zip::base::read::ZipEntryReader<'_, R, async_zip::base::read::WithEntry<'_>>, ZipError>, want: &Meta) -> Content {
    match r {
        Err(e) => Content { data: vec![], err: Some(errkey(&e)) },
        Ok(mut er) => {
            let got = meta(er.entry());
            assert_eq!(&got, want, "entry attached to the reader differs from the directory listing");
            let mut data = vec![];
            let err = er.read_to_end_checked(&mut data).await.err().map(|e| errkey(&e));
            Content { data, err }
        }
    }
}

/// One vectored read, its bytes appended to `data`.
pub async fn read_scattered<R: AsyncRead + Unpin>(r: &mut R, data: &mut Vec<u8>) -> std::io::Result<usize> {
    let (mut a, mut b, mut c) = ([0u8; 3], [0u8; 9], [0u8; 70]);
    let n = r.read_vectored(&mut [IoSliceMut::new(&mut []), IoSliceMut::new(&mut a), IoSliceMut::new(&mut b), IoSliceMut::new(&mut c)]).await?;
    assert!(n <= 82, "a vectored read of 82 bytes returned {n}");
    let all = [&a[..], &b[..], &c[..]].concat();
    data.extend_from_slice(&all[..n]);
    Ok(n)
}

async fn plain<R: AsyncBufRead + Unpin>(r: Result<async_zip::base::read::ZipEntryReader<'_, R, async_zip::base::read::WithoutEntry>, ZipError>) -> (Content, u32) {
    match r {
        Err(e) => (Content { data: vec![], err: Some(errkey(&e)) }, 0),
        Ok(mut er) => {
            let mut data = vec![];
            let mut err = read_scattered(&mut er, &mut data).await.err().map(|e| format!("io:{:?}", e.kind()));
            if err.is_none() {
                err = er.read_to_end(&mut data).await.err().map(|e| format!("io:{:?}", e.kind()));
            }
            let h = er.compute_hash();
            (Content { data, err }, h)
        }
    }
}

pub async fn snap_mem(bytes: Vec<u8>) -> Result<Snapshot, ZipError> {
    snap_mem_reader(mem::ZipFileReader::new(bytes).await?).await
}

pub async fn snap_mem_reader(r: mem::ZipFileReader) -> Result<Snapshot, ZipError> {
    let listing = listing(r.file());
    let (mut with, mut without) = (vec![], vec![]);
    for i in 0..listing.entries.len() {
        with.push(checked(r.reader_with_entry(i).await, &listing.entries[i].meta).await);
        without.push(plain(r.reader_without_entry(i).await).await);
    }
    let beyond = beyond!(r, listing.entries.len());
    Ok(Snapshot { listing, with, without, beyond })
}

pub async fn snap_seek_reader<R: AsyncBufRead + AsyncSeek + Unpin>(mut r: seek::ZipFileReader<R>) -> Result<Snapshot, ZipError> {
    let listing = listing(r.file());
    let (mut with, mut without) = (vec![], vec![]);
    for i in 0..listing.entries.len() {
        with.push(checked(r.reader_with_entry(i).await, &listing.entries[i].meta).await);
        without.push(plain(r.reader_without_entry(i).await).await);
    }
    let beyond = beyond!(r, listing.entries.len());
    Ok(Snapshot { listing, with, without, beyond })
}

pub async fn snap_seek<R: AsyncBufRead + AsyncSeek + Unpin>(r: R) -> Result<Snapshot, ZipError> {
    snap_seek_reader(seek::ZipFileReader::new(r).await?).await
}

pub async fn snap_fs(path: &Path) -> Result<Snapshot, ZipError> {
    let r = async_zip::tokio::read::fs::ZipFileReader::new(path).await?;
    assert_eq!(r.path(), path);
    snap_fs_reader(r).await
}

pub async fn snap_fs_reader(r: async_zip::tokio::read::fs::ZipFileReader) -> Result<Snapshot, ZipError> {
    let listing = listing(r.file());
    let (mut with, mut without) = (vec![], vec![]);
    for i in 0..listing.entries.len() {
        with.push(checked(r.reader_with_entry(i).await, &listing.entries[i].meta).await);
        without.push(plain(r.reader_without_entry(i).await).await);
    }
    let beyond = beyond!(r, listing.entries.len());
    Ok(Snapshot { listing, with, without, beyond })
}

/// First difference between two snapshots, or None.
pub fn snap_diff(what: &str, a: &Snapshot, b: &Snapshot) -> Result<(), String> {
    if a.listing.comment != b.listing.comment || a.listing.zip64 != b.listing.zip64 {
        return Err(format!("{what}: archive comment or zip64 flag differ"));
    }
    if a.beyond != b.beyond {
        return Err(format!("{what}: opening entries that do not exist: {:?} against {:?}", a.beyond, b.beyond));
    }
    if a.listing.entries.len() != b.listing.entries.len() {
        return Err(format!("{what}: {} entries against {}", a.listing.entries.len(), b.listing.entries.len()));
    }
    for i in 0..a.listing.entries.len() {
        if a.listing.entries[i] != b.listing.entries[i] {
            return Err(format!("{what}: entry {i} metadata differs:\n {:?}\n {:?}", a.listing.entries[i], b.listing.entries[i]));
        }
        if a.with[i] != b.with[i] {
            return Err(format!("{what}: entry {i} checked read differs: {:?}/{:?}, {}", a.with[i].err, b.with[i].err, diff(&a.with[i].data, &b.with[i].data)));
        }
        if a.without[i] != b.without[i] {
            return Err(format!(
                "{what}: entry {i} plain read differs: {:?}/{:?} hash {:x}/{:x}, {}",
                a.without[i].0.err,
                b.without[i].0.err,
                a.without[i].1,
                b.without[i].1,
                diff(&a.without[i].0.data, &b.without[i].0.data)
            ));
        }
    }
    Ok(())
}

pub fn same_result(what: &str, a: &Result<Snapshot, ZipError>, b: &Result<Snapshot, ZipError>) -> Result<(), String> {
    match (a, b) {
        (Ok(a), Ok(b)) => snap_diff(what, a, b),
        (Err(a), Err(b)) if errkey(a) == errkey(b) => Ok(()),
        (Err(a), Err(b)) => Err(format!("{what}: errors differ: {} / {}", errkey(a), errkey(b))),
        (Ok(_), Err(e)) => Err(format!("{what}: first succeeds, second fails with {e}")),
        (Err(e), Ok(_)) => Err(format!("{what}: first fails with {e}, second succeeds")),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StreamEntry {
    pub meta: Option<Meta>,
    pub data: Vec<u8>,
}

/// Traverses with full reads; alternating with/without entry according to `with`.
pub async fn snap_stream<R: AsyncBufRead + Unpin>(r: R, with: bool) -> (Vec<StreamEntry>, Result<(), ZipError>) {
    snap_stream_reader(stream::ZipFileReader::new(r), with).await
}

pub async fn snap_stream_reader<R: AsyncBufRead + Unpin>(mut z: stream::ZipFileReader<stream::Ready<R>>, with: bool) -> (Vec<StreamEntry>, Result<(), ZipError>) {
    let mut out = vec![];
    loop {
        if with {
            match z.next_with_entry().await {
                Err(e) => return (out, Err(e)),
                Ok(None) => return (out, Ok(())),
                Ok(Some(mut rd)) => {
                    let m = meta(rd.reader().entry());
                    let mut data = vec![];
                    if let Err(e) = rd.reader_mut().read_to_end(&mut data).await {
                        return (out, Err(e.into()));
                    }
                    out.push(StreamEntry { meta: Some(m), data });
                    match rd.done().await {
                        Ok(n) => z = n,
                        Err(e) => return (out, Err(e)),
                    }
                }
            }
        } else {
            match z.next_without_entry().await {
                Err(e) => return (out, Err(e)),
                Ok(None) => return (out, Ok(())),
                Ok(Some(mut rd)) => {
                    let mut data = vec![];
                    if let Err(e) = rd.reader_mut().read_to_end(&mut data).await {
                        return (out, Err(e.into()));
                    }
                    out.push(StreamEntry { meta: None, data });
                    match rd.done().await {
                        Ok(n) => z = n,
                        Err(e) => return (out, Err(e)),
                    }
                }
            }
        }
    }
}

pub fn same_stream(what: &str, a: &(Vec<StreamEntry>, Result<(), ZipError>), b: &(Vec<StreamEntry>, Result<(), ZipError>)) -> Result<(), String> {
    if a.0.len() != b.0.len() {
        return Err(format!("{what}: {} entries against {} ({:?} / {:?})", a.0.len(), b.0.len(), a.1.as_ref().err().map(errkey), b.1.as_ref().err().map(errkey)));
    }
    for i in 0..a.0.len() {
        if a.0[i] != b.0[i] {
            return Err(format!("{what}: streamed entry {i} differs: {}", diff(&a.0[i].data, &b.0[i].data)));
        }
    }
    let (x, y) = (a.1.as_ref().err().map(errkey), b.1.as_ref().err().map(errkey));
    if x != y {
        return Err(format!("{what}: traversal ends with {x:?} against {y:?}"));
    }
    Ok(())
}

/// The unknown extra fields of an entry as (id, bytes), obtained by writing the entry and parsing the result independently.
pub fn extras_of(e: &ZipEntry) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let b = ZipEntryBuilder::from(e.clone()).filename("x".to_string().into()).comment(String::new().into()).compression(Compression::Stored);
    let bytes = crate::exec::block_on(async {
        let mut w = ZipFileWriter::new(Vec::new());
        w.write_entry_whole(b, &[]).await?;
        w.close().await
    })
    .map_err(|e| format!("writing an entry with the reported extra fields: {e}"))?;
    let r = crate::refzip::parse(&std::rc::Rc::new(bytes), 0, true)?;
    Ok(r.entries[0].cd_extra.iter().filter(|x| !matches!(x.id, 1 | 0x6375 | 0x7075)).map(|x| (x.id, x.data.clone())).collect())
}

/// Scratch directory of this process, removed on drop.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("AZV_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("azv-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, name: &str, bytes: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, bytes).expect("scratch file");
        p
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().expect("tokio runtime");
}

pub fn on_tokio<F: std::future::Future>(f: F) -> F::Output {
    RT.with(|rt| rt.block_on(f))
}

pub async fn read_some<R: AsyncRead + Unpin>(r: &mut R, n: usize) -> std::io::Result<Vec<u8>> {
    let mut v = vec![0; n];
    let mut got = 0;
    while got < n {
        let k = r.read(&mut v[got..]).await?;
        if k == 0 {
            break;
        }
        got += k;
    }
    v.truncate(got);
    Ok(v)
}
