//! Virtual storage for archives beyond 4 GiB: slices of one shared sparse mapping are kept by reference, long runs of
//! one byte by length, everything else literally.

use crate::data::crc32_update;
use crate::sio::{Sink, Storage};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::OnceLock;

/// Length of the mapping: a bit more than 2^32.
pub const MAP_LEN: usize = (1usize << 32) + (1 << 21);
/// Non-zero tags are placed at every multiple of this.
const TAG_STEP: usize = 1 << 28;

struct Map(*mut u8);
unsafe impl Send for Map {}
unsafe impl Sync for Map {}

/// The mapping: zeros with a tag of 8 bytes every 256 MiB. Costs a few pages.
pub fn map() -> &'static [u8] {
    static M: OnceLock<Map> = OnceLock::new();
    let m = M.get_or_init(|| unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            MAP_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        libc::madvise(p, MAP_LEN, libc::MADV_HUGEPAGE);
        let p = p as *mut u8;
        let mut at = 0;
        while at + 8 <= MAP_LEN {
            let tag = ((at as u64) | 0xA5).wrapping_mul(0x9E3779B97F4A7C15) | 1;
            std::ptr::copy_nonoverlapping(tag.to_le_bytes().as_ptr(), p.add(at), 8);
            at += TAG_STEP;
        }
        Map(p)
    });
    unsafe { std::slice::from_raw_parts(m.0, MAP_LEN) }
}

enum Seg {
    Lit(Vec<u8>),
    Map(usize, usize),
    Run(u8, usize),
}

impl Seg {
    fn len(&self) -> u64 {
        match self {
            Seg::Lit(v) => v.len() as u64,
            Seg::Map(_, n) | Seg::Run(_, n) => *n as u64,
        }
    }
}

#[derive(Default)]
struct Inner {
    segs: Vec<(u64, Seg)>,
    len: u64,
}

#[derive(Clone, Default)]
pub struct Sparse(Rc<RefCell<Inner>>);

impl Sparse {
    pub fn literal_bytes(&self) -> u64 {
        self.0.borrow().segs.iter().map(|(_, s)| if let Seg::Lit(v) = s { v.len() as u64 } else { 0 }).sum()
    }
}

fn uniform(b: &[u8]) -> bool {
    let f = b[0];
    b.chunks(64).all(|c| c.iter().fold(0u8, |a, x| a | (x ^ f)) == 0)
}

impl Sink for Sparse {
    fn put(&mut self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let mut i = self.0.borrow_mut();
        let m = map().as_ptr() as usize;
        let p = b.as_ptr() as usize;
        let at = i.len;
        i.len += b.len() as u64;
        if p >= m && p < m + MAP_LEN {
            if let Some((_, Seg::Map(o, n))) = i.segs.last_mut() {
                if *o + *n == p - m {
                    *n += b.len();
                    return;
                }
            }
            i.segs.push((at, Seg::Map(p - m, b.len())));
        } else if b.len() >= 512 && uniform(b) {
            if let Some((_, Seg::Run(x, n))) = i.segs.last_mut() {
                if *x == b[0] {
                    *n += b.len();
                    return;
                }
            }
            i.segs.push((at, Seg::Run(b[0], b.len())));
        } else {
            if let Some((_, Seg::Lit(v))) = i.segs.last_mut() {
                v.extend_from_slice(b);
                return;
            }
            i.segs.push((at, Seg::Lit(b.to_vec())));
        }
    }
}

impl Storage for Sparse {
    fn len(&self) -> u64 {
        self.0.borrow().len
    }
    fn read_at(&self, pos: u64, buf: &mut [u8]) -> usize {
        let i = self.0.borrow();
        if pos >= i.len {
            return 0;
        }
        let mut k = i.segs.partition_point(|(s, _)| *s <= pos) - 1;
        let mut done = 0;
        while done < buf.len() && k < i.segs.len() {
            let (start, seg) = &i.segs[k];
            let from = (pos + done as u64 - start) as usize;
            let n = (seg.len() as usize - from).min(buf.len() - done);
            match seg {
                Seg::Lit(v) => buf[done..done + n].copy_from_slice(&v[from..from + n]),
                Seg::Map(o, _) => buf[done..done + n].copy_from_slice(&map()[o + from..o + from + n]),
                Seg::Run(x, _) => buf[done..done + n].fill(*x),
            }
            done += n;
            k += 1;
        }
        done
    }
}

type Mat = [u32; 32];
fn times(m: &Mat, mut v: u32) -> u32 {
    let mut s = 0;
    let mut i = 0;
    while v != 0 {
        if v & 1 != 0 {
            s ^= m[i];
        }
        v >>= 1;
        i += 1;
    }
    s
}
fn square(m: &Mat) -> Mat {
    let mut r = [0; 32];
    for i in 0..32 {
        r[i] = times(m, m[i]);
    }
    r
}

/// CRC-32 after `n` further zero bytes.
pub fn crc_zeros(crc: u32, mut n: u64) -> u32 {
    // Operator of one zero bit, then squared up to one byte and beyond.
    let mut m: Mat = [0; 32];
    m[0] = 0xEDB88320;
    for i in 1..32 {
        m[i] = 1 << (i - 1);
    }
    for _ in 0..3 {
        m = square(&m);
    }
    let mut c = !crc;
    while n != 0 {
        if n & 1 != 0 {
            c = times(&m, c);
        }
        m = square(&m);
        n >>= 1;
    }
    !c
}

/// CRC-32 of `map()[..n]`.
pub fn crc_of_map(n: u64) -> u32 {
    let mut c = 0;
    let mut at = 0u64;
    while at < n {
        let k = 8.min(n - at);
        c = crc32_update(c, &map()[at as usize..(at + k) as usize]);
        let rest = (TAG_STEP as u64 - k).min(n - at - k);
        c = crc_zeros(c, rest);
        at += k + rest;
    }
    c
}

#[cfg(test)]
mod t {
    #[test]
    fn crc() {
        let v = vec![0u8; 1000];
        assert_eq!(super::crc_zeros(crate::data::crc32(b"abc"), 1000), crate::data::crc32_update(crate::data::crc32(b"abc"), &v));
        assert_eq!(super::crc_of_map(100_000), crate::data::crc32(&super::map()[..100_000]));
    }
}
