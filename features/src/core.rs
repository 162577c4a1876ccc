// What a build of async_zip makes of a request. Compiled into every subset's runner and, with all features, into the harness.

use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{Compression, ZipEntryBuilder, ZipString};
use futures_lite::io::{AsyncReadExt, AsyncWriteExt, Cursor};
use serde_json::{json, Value};

fn key(e: &ZipError) -> String {
    match e {
        ZipError::UpstreamReadError(io) => format!("io:{:?}", io.kind()),
        other => format!("{other:?}"),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| (c as char).to_digit(16).expect("hex") as u8;
    s.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}

fn listing(f: &async_zip::ZipFile) -> Value {
    let e: Vec<Value> = f
        .entries()
        .iter()
        .map(|e| {
            json!([
                hex(e.filename().as_bytes()),
                hex(e.comment().as_bytes()),
                u16::from(e.compression()),
                e.crc32(),
                e.compressed_size(),
                e.uncompressed_size(),
                e.internal_file_attribute(),
                e.external_file_attribute(),
                e.unix_permissions(),
                e.header_offset(),
                [e.last_modification_date().year(), e.last_modification_date().month() as i32, e.last_modification_date().day() as i32, e.last_modification_date().hour() as i32, e.last_modification_date().minute() as i32, e.last_modification_date().second() as i32],
            ])
        })
        .collect();
    json!({ "entries": e, "comment": hex(f.comment().as_bytes()) })
}

fn outcome(data: Vec<u8>, err: Option<String>) -> Value {
    json!([hex(&data), err])
}

macro_rules! contents {
    ($r:expr) => {{
        let r = $r;
        let mut out = vec![listing(r.file())];
        for i in 0..r.file().entries().len() {
            let mut data = vec![];
            let err = match r.reader_with_entry(i).await {
                Ok(mut e) => e.read_to_end_checked(&mut data).await.err().map(|e| key(&e)),
                Err(e) => Some(key(&e)),
            };
            out.push(outcome(data, err));
        }
        Value::Array(out)
    }};
}

macro_rules! traverse {
    ($z:expr) => {{
        let mut z = $z;
        let mut out = vec![];
        let end = loop {
            match z.next_with_entry().await {
                Err(e) => break Some(key(&e)),
                Ok(None) => break None,
                Ok(Some(mut r)) => {
                    let e = r.reader().entry();
                    let head = json!([hex(e.filename().as_bytes()), u16::from(e.compression()), e.crc32(), e.compressed_size(), e.uncompressed_size()]);
                    let mut data = vec![];
                    if let Err(e) = r.reader_mut().read_to_end(&mut data).await {
                        break Some(key(&e.into()));
                    }
                    out.push(json!([head, hex(&data)]));
                    match r.done().await {
                        Ok(n) => z = n,
                        Err(e) => break Some(key(&e)),
                    }
                }
            }
        };
        json!({ "entries": out, "end": end })
    }};
}

async fn read(bytes: Vec<u8>) -> Value {
    let m = match mem::ZipFileReader::new(bytes.clone()).await {
        Ok(r) => contents!(r),
        Err(e) => json!({ "err": key(&e) }),
    };
    let s = match seek::ZipFileReader::new(Cursor::new(bytes.clone())).await {
        Ok(mut r) => contents!(&mut r),
        Err(e) => json!({ "err": key(&e) }),
    };
    let t = traverse!(stream::ZipFileReader::new(Cursor::new(bytes)));
    json!({ "mem": m, "seek": s, "stream": t })
}

#[cfg(any(feature = "tokio", feature = "tokio-fs"))]
async fn read_tokio(bytes: Vec<u8>) -> Value {
    let s = match async_zip::tokio::read::seek::ZipFileReader::with_tokio(std::io::Cursor::new(bytes.clone())).await {
        Ok(mut r) => contents!(&mut r),
        Err(e) => json!({ "err": key(&e) }),
    };
    let t = traverse!(stream::ZipFileReader::with_tokio(std::io::Cursor::new(bytes)));
    json!({ "seek": s, "stream": t })
}

#[cfg(feature = "tokio-fs")]
async fn read_fs(path: &str) -> Value {
    match async_zip::tokio::read::fs::ZipFileReader::new(path).await {
        Ok(r) => contents!(r),
        Err(e) => json!({ "err": key(&e) }),
    }
}

/// Entries: [name, method, how, data, precompressed data, crc, other name, level]; those whose method isn't in `only` (if given) are left out.
macro_rules! write_with {
    ($q:expr, $z:expr, $inner:expr) => {{
    let q: &Value = $q;
    let mut z = $z;
    match q["mode"].as_u64() {
        Some(1) => z = z.force_zip64(),
        Some(2) => z = z.force_no_zip64(),
        _ => {}
    }
    let mut results = vec![];
    for e in q["entries"].as_array().expect("entries") {
        let id = e[1].as_u64().unwrap() as u16;
        if let Some(only) = q["only"].as_array() {
            if !only.iter().any(|o| o.as_u64() == Some(id as u64)) {
                results.push(json!(format!("CompressionNotSupported({id})")));
                continue;
            }
        }
        let method = match Compression::try_from(id) {
            Ok(m) => m,
            Err(e) => {
                results.push(json!(key(&e)));
                continue;
            }
        };
        let name = String::from_utf8(unhex(e[0].as_str().unwrap())).unwrap();
        let b = || {
            let name = match e[6].as_str() {
                Some(other) => ZipString::new_with_alternative(name.clone(), unhex(other)),
                None => name.clone().into(),
            };
            #[allow(unused_mut)]
            let mut b = ZipEntryBuilder::new(name, method).comment(format!("{id}").into()).unix_permissions(id);
            // Only matters to entries of methods the build has.
            #[cfg(any(feature = "deflate", feature = "bzip2", feature = "zstd", feature = "lzma", feature = "xz"))]
            if let Some(l) = e[7].as_i64() {
                b = b.deflate_option(async_zip::DeflateOption::Other(l as i32));
            }
            b
        };
        let data = unhex(e[3].as_str().unwrap());
        let pre = unhex(e[4].as_str().unwrap());
        let pb = || b().crc32(e[5].as_u64().unwrap() as u32).uncompressed_size(data.len() as u64);
        let r: Result<(), ZipError> = match e[2].as_u64().unwrap() {
            0 => z.write_entry_whole(b(), &data).await,
            1 => z.write_entry_whole_precompressed(pb(), &pre).await,
            2 => async {
                let mut s = z.write_entry_stream(b()).await?;
                s.write_all(&data).await?;
                s.close().await
            }
            .await,
            _ => async {
                let mut s = z.write_entry_stream_precompressed(pb()).await?;
                s.write_all(&pre).await?;
                s.close().await
            }
            .await,
        };
        results.push(json!(r.err().map(|e| key(&e))));
    }
    let inner = $inner;
    let bytes = match z.close().await {
        Ok(b) => json!(hex(&inner(b))),
        Err(e) => json!({ "err": key(&e) }),
    };
    (results, bytes)
    }};
}

async fn write(q: &Value) -> Value {
    let (results, bytes) = write_with!(q, ZipFileWriter::new(Vec::<u8>::new()), |w| w);
    json!({ "results": results, "bytes": bytes })
}

#[cfg(any(feature = "tokio", feature = "tokio-fs"))]
async fn write_tokio(q: &Value) -> Value {
    let (results, bytes) = write_with!(q, ZipFileWriter::with_tokio(Vec::<u8>::new()), |w: tokio_util::compat::Compat<Vec<u8>>| w.into_inner());
    json!({ "results": results, "bytes": bytes })
}

/// The dates of an archive and of a few instants, there and back.
#[cfg(feature = "chrono")]
async fn dates(bytes: Vec<u8>) -> Value {
    use async_zip::ZipDateTime;
    let Ok(m) = mem::ZipFileReader::new(bytes).await else { return Value::Null };
    let out: Vec<Value> = m
        .file()
        .entries()
        .iter()
        .map(|e| {
            let d = e.last_modification_date();
            let c = d.as_chrono().single();
            let back = c.map(|c| ZipDateTime::from_chrono(&c) == *d && ZipDateTime::from(c) == *d);
            json!([c.map(|c| c.timestamp()), back])
        })
        .collect();
    json!(out)
}

fn methods() -> Value {
    json!((0..=65535u16).filter(|m| matches!(Compression::try_from(*m), Ok(c) if u16::from(c) == *m)).collect::<Vec<_>>())
}

pub async fn run(q: &Value) -> Value {
    match q["op"].as_str() {
        Some("methods") => methods(),
        Some("write") => {
            #[allow(unused_mut)]
            let mut v = write(q).await;
            #[cfg(any(feature = "tokio", feature = "tokio-fs"))]
            {
                v["tokio"] = write_tokio(q).await;
            }
            v
        }
        Some("read") => {
            let bytes = unhex(q["archive"].as_str().expect("archive"));
            #[allow(unused_mut)]
            let mut v = read(bytes.clone()).await;
            #[cfg(any(feature = "tokio", feature = "tokio-fs"))]
            {
                v["tokio"] = read_tokio(bytes.clone()).await;
            }
            #[cfg(feature = "chrono")]
            {
                v["chrono"] = dates(bytes).await;
            }
            #[cfg(feature = "tokio-fs")]
            {
                v["fs"] = read_fs(q["path"].as_str().expect("path")).await;
            }
            v
        }
        _ => json!("unknown request"),
    }
}
