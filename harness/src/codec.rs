//! Independent codecs (sync libraries used directly, plus a tiny Deflate64 encoder).

use std::io::{Read, Write};

pub const STORED: u16 = 0;
pub const DEFLATE: u16 = 8;
pub const DEFLATE64: u16 = 9;
pub const BZ: u16 = 12;
pub const LZMA: u16 = 14;
pub const ZSTD: u16 = 93;
pub const XZ: u16 = 95;

pub fn encode(method: u16, data: &[u8], level: u32) -> Vec<u8> {
    match method {
        STORED => data.to_vec(),
        DEFLATE => {
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        DEFLATE64 => deflate64(data),
        BZ => {
            let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(level.clamp(1, 9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        LZMA => {
            let opts = liblzma::stream::LzmaOptions::new_preset(level.min(3)).unwrap();
            let s = liblzma::stream::Stream::new_lzma_encoder(&opts).unwrap();
            let mut e = liblzma::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        ZSTD => zstd::stream::encode_all(data, level.min(9) as i32).unwrap(),
        XZ => {
            let mut e = liblzma::write::XzEncoder::new(Vec::new(), level.min(3));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        m => panic!("no encoder for method {m}"),
    }
}

/// Decodes and requires the whole input to be consumed.
pub fn decode(method: u16, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    let es = |e: std::io::Error| format!("independent decoder (method {method}): {e}");
    match method {
        STORED => out.extend_from_slice(data),
        DEFLATE => {
            let mut d = flate2::bufread::DeflateDecoder::new(data);
            d.read_to_end(&mut out).map_err(es)?;
            if d.total_in() != data.len() as u64 {
                return Err(format!("deflate stream uses {} of {} bytes", d.total_in(), data.len()));
            }
        }
        BZ => {
            let mut d = bzip2::bufread::BzDecoder::new(data);
            d.read_to_end(&mut out).map_err(es)?;
            if d.total_in() != data.len() as u64 {
                return Err(format!("bzip2 stream uses {} of {} bytes", d.total_in(), data.len()));
            }
        }
        ZSTD => {
            out = zstd::stream::decode_all(data).map_err(es)?;
        }
        XZ => {
            let mut d = liblzma::bufread::XzDecoder::new(data);
            d.read_to_end(&mut out).map_err(es)?;
            if d.total_in() != data.len() as u64 {
                return Err(format!("xz stream uses {} of {} bytes", d.total_in(), data.len()));
            }
        }
        LZMA => {
            let s = liblzma::stream::Stream::new_lzma_decoder(u64::MAX).map_err(|e| e.to_string())?;
            let mut d = liblzma::bufread::XzDecoder::new_stream(data, s);
            d.read_to_end(&mut out).map_err(es)?;
            if d.total_in() != data.len() as u64 {
                return Err(format!("lzma stream uses {} of {} bytes", d.total_in(), data.len()));
            }
        }
        m => return Err(format!("no decoder for method {m}")),
    }
    Ok(out)
}

struct Bits {
    out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        self.acc |= (v as u64) << self.n;
        self.n += n;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn huff(&mut self, code: u32, n: u32) {
        // Huffman codes are packed most significant bit first.
        let mut r = 0;
        for i in 0..n {
            if code & (1 << i) != 0 {
                r |= 1 << (n - 1 - i);
            }
        }
        self.put(r, n);
    }
    fn litlen(&mut self, s: u32) {
        match s {
            0..=143 => self.huff(0x30 + s, 8),
            144..=255 => self.huff(0x190 + s - 144, 9),
            256..=279 => self.huff(s - 256, 7),
            _ => self.huff(0xC0 + s - 280, 8),
        }
    }
}

/// Minimal Deflate64 encoder: fixed Huffman, literals, and runs as matches (length code 285 with 16 extra bits).
pub fn deflate64(data: &[u8]) -> Vec<u8> {
    let mut b = Bits { out: vec![], acc: 0, n: 0 };
    // Alternate stored blocks for incompressible stretches so both block types occur.
    let mut i = 0;
    while i < data.len() {
        if data.len() - i > 300 && data[i] & 3 == 1 {
            let n = 257.min(data.len() - i);
            b.put(0, 1);
            b.put(0, 2);
            let pad = (8 - b.n % 8) % 8;
            b.put(0, pad);
            b.put(n as u32, 16);
            b.put(!(n as u32) & 0xffff, 16);
            for x in &data[i..i + n] {
                b.put(*x as u32, 8);
            }
            i += n;
            continue;
        }
        b.put(0, 1);
        b.put(1, 2);
        let stop = (i + 5000).min(data.len());
        while i < stop {
            b.litlen(data[i] as u32);
            let c = data[i];
            i += 1;
            let mut run = 0;
            while i + run < data.len() && data[i + run] == c && run < 65538 {
                run += 1;
            }
            if run >= 3 {
                b.litlen(285);
                b.put((run - 3) as u32, 16);
                b.huff(0, 5); // distance 1
                i += run;
            }
        }
        b.litlen(256);
    }
    // Final empty fixed block.
    b.put(1, 1);
    b.put(1, 2);
    b.litlen(256);
    let pad = (8 - b.n % 8) % 8;
    b.put(0, pad);
    b.out
}
