//! Compact, shrinkable payload descriptions; own CRC-32.

use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone, PartialEq, Eq, Default)]
pub struct Hex(pub Vec<u8>);

impl fmt::Debug for Hex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Hex({})", to_hex(&self.0))
    }
}

pub fn to_hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    const D: &[u8; 16] = b"0123456789abcdef";
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}

impl Serialize for Hex {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&to_hex(&self.0))
    }
}

impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let b = s.as_bytes();
        let v = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
        Ok(Hex(b.chunks(2).map(|c| v(c[0]) << 4 | v(c[1])).collect()))
    }
}

/// Bit-by-bit CRC-32 (IEEE), table built here; independent of crc32fast.
pub fn crc32(data: &[u8]) -> u32 {
    crc32_update(0, data)
}

const fn table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static TABLE: [u32; 256] = table();

pub fn crc32_update(crc: u32, data: &[u8]) -> u32 {
    let mut c = !crc;
    for b in data {
        c = TABLE[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum DataSpec {
    Lit(Hex),
    Zeros(u32),
    /// Incompressible.
    Rand { seed: u64, len: u32 },
    /// Compressible text-like (valid UTF-8).
    Text { seed: u64, len: u32 },
    /// Random bytes laced with ZIP record signatures.
    Sigs { seed: u64, len: u32 },
    /// `len` incompressible bytes and four more that give the whole the stated CRC-32.
    Crc { seed: u64, len: u32, crc: u32 },
}

pub const SIGNATURES: [u32; 7] = [0x04034b50, 0x02014b50, 0x06054b50, 0x08074b50, 0x06064b50, 0x07064b50, 0x30304b50];

impl DataSpec {
    pub fn len(&self) -> usize {
        match self {
            DataSpec::Lit(h) => h.0.len(),
            DataSpec::Zeros(n) => *n as usize,
            DataSpec::Crc { len, .. } => *len as usize + 4,
            DataSpec::Rand { len, .. } | DataSpec::Text { len, .. } | DataSpec::Sigs { len, .. } => *len as usize,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            DataSpec::Lit(h) => h.0.clone(),
            DataSpec::Zeros(n) => vec![0; *n as usize],
            DataSpec::Rand { seed, len } => {
                let mut r = Rng(*seed);
                let mut v = Vec::with_capacity(*len as usize + 8);
                while v.len() < *len as usize {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(*len as usize);
                v
            }
            DataSpec::Text { seed, len } => {
                const WORDS: [&str; 12] =
                    ["alpha ", "beta ", "gamma\n", "delta ", "zip", "archive ", "entry\t", "x", "1234567890", "stream ", "\r\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
                let mut r = Rng(*seed);
                let mut v = Vec::with_capacity(*len as usize + 32);
                while v.len() < *len as usize {
                    let w = WORDS[r.below(12) as usize];
                    v.extend_from_slice(w.as_bytes());
                }
                v.truncate(*len as usize);
                v
            }
            DataSpec::Sigs { seed, len } => {
                let mut r = Rng(*seed);
                let mut v = Vec::with_capacity(*len as usize + 8);
                while v.len() < *len as usize {
                    if r.below(3) == 0 {
                        v.extend_from_slice(&SIGNATURES[r.below(7) as usize].to_le_bytes());
                    } else {
                        v.push(r.next() as u8);
                    }
                }
                v.truncate(*len as usize);
                v
            }
            DataSpec::Crc { seed, len, crc } => {
                let mut v = DataSpec::Rand { seed: *seed, len: *len }.bytes();
                let state = !crc32(&v);
                let mut back = !*crc;
                for _ in 0..32 {
                    back = if back >> 31 != 0 { (back ^ 0xEDB88320) << 1 | 1 } else { back << 1 };
                }
                v.extend_from_slice(&(state ^ back).to_le_bytes());
                v
            }
        }
    }
}

/// Integers of any value, with the ones code likes to single out (zero, all ones, single bits, small ones) frequent.
pub fn num16() -> BoxedStrategy<u16> {
    prop_oneof![4 => any::<u16>(), 2 => Just(0u16), 1 => Just(u16::MAX), 1 => 0u16..20, 1 => (0u32..16).prop_map(|b| 1 << b), 1 => any::<u8>().prop_map(|b| (b as u16) << 8)].boxed()
}

pub fn num32() -> BoxedStrategy<u32> {
    prop_oneof![4 => any::<u32>(), 2 => Just(0u32), 1 => Just(u32::MAX), 1 => 0u32..20, 1 => (0u32..32).prop_map(|b| 1 << b), 1 => num16_pair(), 1 => proptest::sample::select(SIGNATURES.to_vec())].boxed()
}

fn num16_pair() -> BoxedStrategy<u32> {
    (prop_oneof![Just(0u16), any::<u16>()], prop_oneof![Just(0u16), any::<u16>()]).prop_map(|(h, l)| (h as u32) << 16 | l as u32).boxed()
}

/// Lengths biased towards small values and the buffer/limit boundaries of the code under test.
pub fn len_strategy(max: u32) -> BoxedStrategy<u32> {
    let bounds: Vec<u32> = [1u32, 2, 4, 8, 31, 32, 64, 127, 128, 255, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65535, 65536, 131072, 262144, 1 << 20]
        .into_iter()
        .filter(|b| *b + 4 < max)
        .collect();
    let mut opts: Vec<(u32, BoxedStrategy<u32>)> = vec![(1, Just(0u32).boxed()), (5, (0u32..64.min(max + 1)).boxed())];
    if max > 64 {
        opts.push((3, (0u32..=max.min(4096)).boxed()));
    }
    if !bounds.is_empty() {
        opts.push((4, (proptest::sample::select(bounds), 0u32..=6).prop_map(|(b, d)| (b + d).saturating_sub(3)).boxed()));
    }
    if max > 4096 {
        opts.push((1, (4096..=max).boxed()));
    }
    proptest::strategy::Union::new_weighted(opts).boxed()
}

pub fn data_strategy(max: u32) -> BoxedStrategy<DataSpec> {
    prop_oneof![
        2 => proptest::collection::vec(any::<u8>(), 0..40).prop_map(|v| DataSpec::Lit(Hex(v))),
        1 => len_strategy(max).prop_map(DataSpec::Zeros),
        3 => (any::<u64>(), len_strategy(max)).prop_map(|(seed, len)| DataSpec::Rand { seed, len }),
        3 => (any::<u64>(), len_strategy(max)).prop_map(|(seed, len)| DataSpec::Text { seed, len }),
        2 => (any::<u64>(), len_strategy(max)).prop_map(|(seed, len)| DataSpec::Sigs { seed, len }),
        1 => (any::<u64>(), len_strategy(max.min(3_000)), prop_oneof![Just(0u32), Just(u32::MAX), Just(1), proptest::sample::select(SIGNATURES.to_vec())]).prop_map(|(seed, len, crc)| DataSpec::Crc { seed, len, crc }),
    ]
    .boxed()
}
