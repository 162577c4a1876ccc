//! C25: a flush delivers what was written so far.

use crate::data::*;
use crate::engine::*;
use crate::exec::*;
use crate::model::*;
use crate::sio::*;
use async_zip::base::write::ZipFileWriter;
use futures_lite::io::AsyncWriteExt;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::future::Future;
use std::io::Read;
use std::rc::Rc;

pub fn property() -> Property {
    Property {
        id: "C25",
        level: "exploration",
        rule: "streamed entries (plain and precompressed) written in generated chunks with flushes at generated places over a sink with a generated schedule; after each flush the sink must have been flushed after the last bytes it received, and what it received of the entry must decode (independent decoders) to everything written so far; without compression each write is delivered at once; the finished archive must still read back; non-trivial = a flush after data followed by more data",
        assumptions: &["decoding after a flush is judged for stored, deflate, zstd and xz: a bzip2 block need not end on a byte, and the LZMA encoder cannot flush"],
        parts: || vec![part("flush", 60_000, 480_000, strategy(5_000), check), part("flush-big", 7_500, 60_000, strategy(200_000), check)],
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write(DataSpec),
    Flush,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    before: Option<EntrySpec>,
    method: Method,
    pre: bool,
    ops: Vec<Op>,
    mode: Zip64Mode,
    sched: Schedule,
}

fn strategy(max: u32) -> BoxedStrategy<Case> {
    let op = prop_oneof![3 => data_strategy(max).prop_map(Op::Write), 2 => Just(Op::Flush)];
    (
        proptest::option::weighted(0.3, entry_strategy_with(light_method_strategy(), 100)),
        method_strategy(),
        proptest::bool::weighted(0.15),
        proptest::collection::vec(op, 1..9),
        zip64_strategy(),
        prop_oneof![1 => Just(Schedule::full()), 2 => schedule_strategy()],
    )
        .prop_map(|(before, method, pre, ops, mode, sched)| Case { before, method, pre, ops, mode, sched })
        .boxed()
}

#[derive(Clone, Default)]
struct Shared(Rc<RefCell<Vec<u8>>>);

impl Sink for Shared {
    fn put(&mut self, b: &[u8]) {
        self.0.borrow_mut().extend_from_slice(b);
    }
}

/// Ends a case at a known finding.
const STOP: &str = "stop";

/// Whatever can be decoded from an unfinished stream.
fn decode_prefix(m: Method, b: &[u8]) -> Vec<u8> {
    fn drain(mut r: impl Read) -> Vec<u8> {
        let mut out = vec![];
        let mut buf = [0; 4096];
        while let Ok(n) = r.read(&mut buf) {
            if n == 0 {
                break;
            }
            out.extend_from_slice(&buf[..n]);
        }
        out
    }
    match m {
        Method::Deflate => drain(flate2::bufread::DeflateDecoder::new(b)),
        Method::Zstd => zstd::stream::read::Decoder::with_buffer(b).map(drain).unwrap_or_default(),
        Method::Xz => drain(liblzma::bufread::XzDecoder::new(b)),
        _ => b.to_vec(),
    }
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let sink = Shared::default();
    let w = SchedWriter::new(sink.clone(), c.sched.clone());
    let log = w.log.clone();
    let mut z = set_mode(ZipFileWriter::new(w), c.mode);
    let all: Vec<u8> = c.ops.iter().flat_map(|o| if let Op::Write(d) = o { d.bytes() } else { vec![] }).collect();
    // The precompressed form is written in pieces as long as the plain chunks.
    let comp = crate::codec::encode(c.method.id(), &all, 2);
    let direct = c.pre || c.method == Method::Stored;
    ctx.label(format!("method={:?}", c.method));
    ctx.label_if(c.pre, "precompressed");
    let ended = block_on(async {
        if let Some(e) = &c.before {
            write_entry(&mut z, e).await.map_err(|e| format!("entry before: {e}"))?;
        }
        let b = async_zip::ZipEntryBuilder::new("entry".into(), c.method.compression());
        let es = |e: &dyn std::fmt::Display| format!("streaming: {e}");
        let mut s = if c.pre {
            z.write_entry_stream_precompressed(b.crc32(crc32(&all)).uncompressed_size(all.len() as u64)).await.map_err(|e| es(&e))?
        } else {
            z.write_entry_stream(b).await.map_err(|e| es(&e))?
        };
        let start = sink.0.borrow().len();
        let mut sent: Vec<u8> = vec![];
        let mut flushed = false;
        for (i, o) in c.ops.iter().enumerate() {
            match o {
                Op::Write(d) => {
                    let d = d.bytes();
                    let d = if c.pre { comp[sent.len().min(comp.len())..(sent.len() + d.len()).min(comp.len())].to_vec() } else { d };
                    s.write_all(&d).await.map_err(|e| es(&e))?;
                    sent.extend_from_slice(&d);
                    ctx.nontrivial_if(flushed && !d.is_empty());
                    if direct && sink.0.borrow()[start..] != sent {
                        return Err(format!("operation {i}: {} bytes written without compression, the sink has {}", sent.len(), sink.0.borrow().len() - start));
                    }
                }
                Op::Flush if !c.pre && !flush_supported(c.method) => {}
                Op::Flush => {
                    let held = sink.0.borrow().len();
                    let mut polls = 0u32;
                    let done = {
                        let mut f = s.flush();
                        std::future::poll_fn(|cx| {
                            polls += 1;
                            match std::pin::Pin::new(&mut f).poll(cx) {
                                std::task::Poll::Ready(r) => std::task::Poll::Ready(Some(r)),
                                std::task::Poll::Pending if polls > 200_000 => std::task::Poll::Ready(None),
                                std::task::Poll::Pending => std::task::Poll::Pending,
                            }
                        })
                        .await
                    };
                    match done {
                        Some(r) => r.map_err(|e| es(&e))?,
                        None => {
                            let got = sink.0.borrow();
                            let markers = got.ends_with(&[0, 0, 0, 255, 255].repeat(40)[3..]) || (0..5).any(|k| got.ends_with(&[0, 0, 0, 255, 255].repeat(40)[..195 + k]));
                            let what = format!("operation {i}: flush has not ended after {polls} polls and {} bytes of output", got.len() - held);
                            if c.method == Method::Deflate && markers && got.len() - held > 20_000 {
                                drop(got);
                                ctx.known("F5", &what)?;
                                return Err(STOP.into());
                            }
                            return Err(what);
                        }
                    }
                    flushed |= !sent.is_empty();
                    let (lw, lf) = (log.borrow().last_write, log.borrow().last_flush);
                    if lf < lw {
                        return Err(format!("operation {i}: flush returned, but the sink was not flushed after the last bytes it received"));
                    }
                    if direct || !matches!(c.method, Method::Bz) {
                        let got = if direct { sink.0.borrow()[start..].to_vec() } else { decode_prefix(c.method, &sink.0.borrow()[start..]) };
                        if got != sent {
                            return Err(format!("operation {i}: after the flush the sink holds {} of {} bytes: {}", got.len(), sent.len(), diff(&sent, &got)));
                        }
                        ctx.label_if(!direct && !sent.is_empty(), "decoded-after-flush");
                    }
                }
            }
        }
        if c.pre {
            s.write_all(&comp[sent.len()..]).await.map_err(|e| es(&e))?;
        }
        s.close().await.map_err(|e| es(&e))
    });
    match ended {
        Err(e) if e == STOP => return Ok(()),
        r => r?,
    }
    block_on(z.close()).map_err(|e| format!("finishing: {e}"))?;
    let r = open_mem(sink.0.take()).map_err(|e| format!("opening: {e}"))?;
    let got = mem_content(&r, c.before.is_some() as usize)?;
    if got != all {
        return Err(format!("content after flushes: {}", diff(&all, &got)));
    }
    Ok(())
}
