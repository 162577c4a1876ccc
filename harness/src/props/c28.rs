//! C28: what a writer or reader produces depends on its own calls only.

use crate::engine::*;
use crate::exec::{block_on, Poller};
use crate::model::*;
use crate::readers::*;
use crate::sio::*;
use async_zip::base::write::ZipFileWriter;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

pub fn property() -> Property {
    Property {
        id: "C28",
        level: "exploration",
        rule: "several write histories and archive readings, first each by itself, then all at once on one task in a generated polling order (some abandoned half way), then on several threads, then again by itself; archives compared byte for byte and reading results completely; non-trivial = at least two jobs were under way at the same time and one of them has data",
        assumptions: &["threads: sampled interleavings of real threads", "the codecs are deterministic"],
        parts: || {
            vec![
                part("interleaved", 15_000, 120_000, (proptest::collection::vec(job(4_000), 2..5), proptest::collection::vec(any::<u8>(), 1..24)).prop_map(|(jobs, order)| Case { jobs, order }), check),
                part("interleaved-big", 900, 9_000, (proptest::collection::vec(job(300_000), 2..4), proptest::collection::vec(any::<u8>(), 1..24)).prop_map(|(jobs, order)| Case { jobs, order }), check),
                part("files", 2_000, 20_000, files_strategy(), check_files),
                part("threads", 2_500, 20_000, proptest::collection::vec(job(20_000), 2..6), check_threads),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    a: ArchiveSpec,
    sched: Schedule,
    /// Read the archive instead of writing it.
    read: bool,
    /// In the interleaved run, abandon the job after this many polls.
    abandon: Option<u8>,
}

fn job(max: u32) -> impl Strategy<Value = Job> {
    (archive_strategy_with(entry_strategy_with(light_method_strategy(), max), 0..4), schedule_strategy(), proptest::bool::weighted(0.3), proptest::option::weighted(0.25, 0u8..40))
        .prop_map(|(a, sched, read, abandon)| Job { a, sched, read, abandon })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    jobs: Vec<Job>,
    order: Vec<u8>,
}

#[derive(Debug)]
enum Out {
    Written(Result<Vec<u8>, String>),
    Read(Result<Snapshot, String>),
}

fn same(what: &str, a: &Out, b: &Out) -> Check {
    match (a, b) {
        (Out::Written(Ok(x)), Out::Written(Ok(y))) if x == y => Ok(()),
        (Out::Written(Ok(x)), Out::Written(Ok(y))) => Err(format!("{what}: {}", diff(x, y))),
        (Out::Read(Ok(x)), Out::Read(Ok(y))) => snap_diff(what, x, y),
        (Out::Written(Err(x)), Out::Written(Err(y))) | (Out::Read(Err(x)), Out::Read(Err(y))) if x == y => Ok(()),
        _ => Err(format!("{what}: one run succeeds, the other fails")),
    }
}

async fn run(j: &Job, bytes: Rc<Vec<u8>>) -> Out {
    if j.read {
        Out::Read(snap_seek(SchedReader::new(bytes, j.sched.clone()).with_cap(1 + j.sched.0.len() * 61)).await.map_err(|e| errkey(&e)))
    } else {
        Out::Written(write_archive(ZipFileWriter::new(SchedWriter::new(Vec::new(), j.sched.clone())), &j.a).await.map(|w| w.sink).map_err(|e| errkey(&e)))
    }
}

fn alone(jobs: &[Job]) -> Result<(Vec<Rc<Vec<u8>>>, Vec<Out>), String> {
    let bytes: Vec<Rc<Vec<u8>>> = jobs.iter().map(|j| write_mem(&j.a).map(Rc::new)).collect::<Result<_, _>>()?;
    let outs: Vec<Out> = jobs.iter().zip(&bytes).map(|(j, b)| block_on(run(j, b.clone()))).collect();
    Ok((bytes, outs))
}

fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let (bytes, want) = alone(&c.jobs)?;
    let n = c.jobs.len();
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = Out> + '_>>>> = c.jobs.iter().zip(&bytes).map(|(j, b)| Some(Box::pin(run(j, b.clone())) as Pin<Box<dyn Future<Output = Out>>>)).collect();
    let pollers: Vec<Poller> = (0..n).map(|_| Poller::new()).collect();
    let mut polls = vec![0u64; n];
    let mut k = 0usize;
    let mut together = false;
    while tasks.iter().any(|t| t.is_some()) {
        // The generated order, with every job getting its turn.
        let i = if k % 3 == 2 { (k / 3) % n } else { c.order[k % c.order.len()] as usize % n };
        k += 1;
        let Some(t) = &mut tasks[i] else { continue };
        if c.jobs[i].abandon.is_some_and(|a| polls[i] >= a as u64) {
            ctx.label("abandoned");
            tasks[i] = None;
            continue;
        }
        polls[i] += 1;
        if let Poll::Ready(got) = pollers[i].poll(t.as_mut()) {
            same(&format!("job {i} together with others"), &want[i], &got)?;
            tasks[i] = None;
        }
        together |= (0..n).filter(|i| polls[*i] > 0 && tasks[*i].is_some()).count() >= 2;
        if k > 30_000_000 {
            return Err("jobs polled in turns make no progress".into());
        }
    }
    ctx.nontrivial_if(together && c.jobs.iter().any(|j| j.a.entries.iter().any(|e| e.data.len() > 0)));
    ctx.label_if(c.jobs.iter().any(|j| j.read) && c.jobs.iter().any(|j| !j.read), "readers and writers");
    // And once more by themselves.
    let (bytes2, again) = alone(&c.jobs)?;
    if bytes != bytes2 {
        return Err("writing the same history again gives another archive".into());
    }
    for (i, (a, b)) in want.iter().zip(&again).enumerate() {
        same(&format!("job {i} run again"), a, b)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Files {
    entries: Vec<(String, u16, bool)>,
    /// File, contents and whether the file is replaced (or overwritten).
    steps: Vec<(u8, u8, bool)>,
    tokio: bool,
}

fn files_strategy() -> BoxedStrategy<Files> {
    let e = ("[a-c]{1,3}", prop_oneof![0u16..200, 0u16..20_000], any::<bool>());
    (proptest::collection::vec(e, 1..4), proptest::collection::vec((0u8..3, 0u8..4, any::<bool>()), 2..8), any::<bool>()).prop_map(|(entries, steps, tokio)| Files { entries, steps, tokio }).boxed()
}

/// Archives of one size but different contents take turns in the same few files.
fn check_files(c: &Files, ctx: &mut Ctx) -> Check {
    use async_zip::{Compression, ZipEntryBuilder};
    let make = |v: u8| -> Result<Vec<u8>, String> {
        block_on(async {
            let mut w = ZipFileWriter::new(Vec::new());
            for (i, (name, len, same)) in c.entries.iter().enumerate() {
                let d = crate::data::DataSpec::Rand { seed: i as u64 + if *same { 0 } else { 1000 * v as u64 }, len: *len as u32 }.bytes();
                let name = if *same { name.clone() } else { format!("{name}{v}") };
                let name = if *same { format!("{name}_") } else { name };
                w.write_entry_whole(ZipEntryBuilder::new(name.into(), Compression::Stored), &d).await?;
            }
            w.close().await
        })
        .map_err(|e: async_zip::error::ZipError| e.to_string())
    };
    let versions: Vec<Vec<u8>> = (0..4).map(make).collect::<Result<_, _>>()?;
    let want: Vec<Snapshot> = versions.iter().map(|b| block_on(snap_mem(b.clone())).map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
    let s = Scratch::new();
    let mut seen = [None; 3];
    for (k, (f, v, replace)) in c.steps.iter().enumerate() {
        let (f, v) = (*f as usize % 3, *v as usize % 4);
        let name = format!("{f}.zip");
        let p = if *replace {
            let q = s.file("new", &versions[v]);
            let p = q.with_file_name(&name);
            std::fs::rename(&q, &p).map_err(|e| e.to_string())?;
            p
        } else {
            s.file(&name, &versions[v])
        };
        ctx.nontrivial_if(seen[f].is_some_and(|x| x != v));
        seen[f] = Some(v);
        let got = if c.tokio && k % 2 == 1 {
            on_tokio(async {
                let f = tokio::io::BufReader::new(tokio::fs::File::open(&p).await?);
                let z = async_zip::base::read::seek::ZipFileReader::with_tokio(f).await?;
                snap_seek_reader(z).await
            })
        } else {
            on_tokio(snap_fs(&p))
        };
        let got = got.map_err(|e| format!("step {k}: reading file {f}: {e}"))?;
        snap_diff(&format!("step {k}: file {f} against its bytes"), &want[v], &got)?;
    }
    Ok(())
}

fn check_threads(jobs: &Vec<Job>, ctx: &mut Ctx) -> Check {
    let (bytes, want) = alone(jobs)?;
    let bytes: Vec<Vec<u8>> = bytes.iter().map(|b| (**b).clone()).collect();
    ctx.nontrivial_if(jobs.iter().filter(|j| j.a.entries.iter().any(|e| e.data.len() > 0)).count() >= 2);
    let gate = std::sync::Barrier::new(jobs.len());
    let gate = &gate;
    std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .zip(bytes)
            .map(|(j, b)| {
                sc.spawn(move || {
                    gate.wait();
                    block_on(run(j, Rc::new(b)))
                })
            })
            .collect();
        let mut out = Ok(());
        for (i, h) in hs.into_iter().enumerate() {
            let r = match h.join() {
                Ok(o) => same(&format!("job {i} on a thread of its own"), &want[i], &o),
                Err(_) => Err(format!("job {i} panicked on a thread of its own")),
            };
            out = out.and(r);
        }
        out
    })
}
