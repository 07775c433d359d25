//! Progress: no lost wake-ups, no busy loops, no over-reading.
use super::foreign::*;
use super::*;
use crate::codec::{LZMA, XZ};
use crate::refzip::walk;
use async_zip::base::read::{seek, stream};
use futures_lite::io::{AsyncBufRead, AsyncReadExt, AsyncSeek};

/// The I/O of this property waits a lot.
fn gen_waiting() -> IoCfg {
    let mut c = IoCfg::gen_benign();
    c.pend = [100, 300, 600, 1000][draw(4) as usize];
    c.delay = [0, 1, 3, 50][draw(4) as usize];
    if chance(200) {
        c.err = [5, 30, 150][draw(3) as usize];
        c.err_budget = 1 + draw(3);
        c.sticky = chance(300);
    }
    c
}

fn exec() -> ExecCfg {
    ExecCfg { spurious: [0, 20, 200, 500][draw(4) as usize], strict_pending: true, ..Default::default() }
}

/// How often one poll may ask the same waiting I/O object again.
/// A compressor takes small writes while its sink waits, and looks at the sink each time.
fn check_repolls(slow_codec: bool, writes: u64) {
    let r = with(|s| s.max_repolls) as u64;
    let max = if slow_codec { 1_000_000 } else { 64 + writes };
    ensure!(r <= max, "spin", "one poll asked the same pending I/O object {r} more times");
    if r > 0 {
        probe("repolled");
    }
}

pub fn run() {
    match weighted(&[4, 5, 4]) {
        0 => write_side(),
        1 => seek_side(),
        _ => stream_side(),
    }
}

fn write_side() {
    let spec = Rc::new(gen_archive(&GenCfg { max_data: 6000, ..GenCfg::DEFAULT }, 5));
    let cfg = gen_waiting();
    let tok = chance(400);
    sample(|| format!("write {}; {cfg:?}", describe(&spec)));
    let slow = spec.entries.iter().any(|e| matches!(e.method, XZ | LZMA));
    let (sink, ctl) = SimSink::new(1, cfg, false);
    let sp = spec.clone();
    let cancel = if chance(200) { 150 } else { 0 };
    let attempts = sim_run(exec(), async move {
        if tok {
            drive(configure(ZipFileWriter::with_tokio(TokioSink(sink)), sp.z64), &sp, cancel).await
        } else {
            drive(configure(ZipFileWriter::new(sink), sp.z64), &sp, cancel).await
        }
    });
    let c = ctl.borrow();
    let bytes = c.data.len();
    let flush_calls: u64 = spec.entries.iter().map(flushes).sum();
    // Every write accepts a byte or fails; what is left are flushes.
    let bound = bytes + c.errors as u64 + 2 * flush_calls + 8 * attempts + 32;
    let sticky = cfg.sticky && c.failed;
    ensure!(sticky || c.ops <= bound, "steps", "{} sink operations for {bytes} bytes in {attempts} entries (bound {bound}); {}", c.ops, describe(&spec));
    let writes = spec.entries.iter().map(|e| if e.chunk > 0 { 2 * e.data.len() as u64 / e.chunk } else { 0 }).max();
    check_repolls(slow, writes.unwrap_or(0));
    probe("written");
}

async fn drive<W: futures_lite::io::AsyncWrite + Unpin>(mut zip: ZipFileWriter<W>, spec: &ArchiveSpec, cancel: u32) -> u64 {
    let mut n = 0;
    for e in &spec.entries {
        n += 1;
        match maybe_cancel(write_entry(&mut zip, e), cancel).await {
            None => probe("entry_abandoned"),
            Some(Ok(())) => {}
            Some(Err(_)) => probe("entry_failed"),
        }
    }
    let _ = zip.close().await;
    n
}

struct Case {
    a: AnyArchive,
    /// Per entry: where its data end.
    ends: Option<Vec<u64>>,
    slow: bool,
    /// Where the directory begins.
    cd: u64,
}

fn gen_case() -> Rc<Case> {
    let a = gen_any(8000, 5);
    let w = walk(&a.bytes);
    let slow = w.as_ref().map(|w| w.locs.iter().any(|l| matches!(l.method, XZ | LZMA))).unwrap_or(true);
    let cd = w.as_ref().map(|w| w.cd_off).unwrap_or(0);
    let ends = w.map(|w| w.locs.iter().map(|l| l.data + l.csize).collect::<Vec<_>>()).filter(|e| e.len() == a.data.len());
    if ends.is_none() {
        probe("not_walkable");
    }
    Rc::new(Case { a, ends, slow, cd })
}

fn seek_side() {
    let case = gen_case();
    let cfg = gen_waiting();
    sample(|| format!("seek {}; {cfg:?}", case.a.what));
    trace(|| case.a.what.clone());
    let (s, ctl) = SimSource::new(2, case.a.bytes.clone(), cfg);
    let tok = chance(400);
    let cancel = if chance(200) { 100 } else { 0 };
    // An abandoned seek is tokio-util's to sort out, see DESIGN.md.
    let cancel = if tok { 0 } else { cancel };
    let (c, k) = (case.clone(), ctl.clone());
    sim_run(exec(), async move {
        if tok {
            use_seek(seek::ZipFileReader::with_tokio(TokioSource(s)).await, &c, &k, cancel).await
        } else {
            use_seek(seek::ZipFileReader::new(s).await, &c, &k, cancel).await
        }
    });
    check_repolls(case.slow, 0);
}

async fn use_seek<R: AsyncBufRead + AsyncSeek + Unpin>(
    r: Result<seek::ZipFileReader<R>, ZipError>,
    case: &Case,
    ctl: &Rc<RefCell<SrcCtl>>,
    cancel: u32,
) {
    let len = case.a.bytes.len() as u64;
    {
        let c = ctl.borrow();
        // The search reads backwards in windows, then the directory is read.
        let tail = len - case.cd;
        let bound = 4 * tail + 16384;
        ensure!(c.bytes <= bound, "steps", "opening an archive of {len} bytes, {tail} of them directory and end records, read {} bytes (bound {bound})", c.bytes);
        let bound = c.bytes + 16 * (case.a.data.len() as u64) + 512 + tail / 8;
        ensure!(c.ops <= bound, "steps", "opening an archive of {len} bytes took {} operations (bound {bound})", c.ops);
    }
    let mut r = match r {
        Ok(r) => r,
        Err(e) => {
            ensure!(ctl.borrow().failed, "open", "a well-formed archive is refused: {e}; {}", case.a.what);
            return probe("open_failed");
        }
    };
    let n = r.file().entries().len();
    if n == 0 {
        return;
    }
    for _ in 0..1 + draw(3) {
        let i = draw(n as u32) as usize;
        let failed_before = ctl.borrow().errors;
        let (ops0, bytes0) = {
            let c = ctl.borrow();
            (c.ops, c.bytes)
        };
        let want = &case.a.data[i];
        let with_entry = chance(300);
        let mut got = Vec::new();
        let mut reads = 0u64;
        let done = if with_entry {
            match r.reader_with_entry(i).await {
                Ok(mut e) => pull(&mut e, &mut got, want.len(), cancel, &mut reads, i, case, ctl).await,
                Err(e) => Some(Err(e.to_string())),
            }
        } else {
            match r.reader_without_entry(i).await {
                Ok(mut e) => pull(&mut e, &mut got, want.len(), cancel, &mut reads, i, case, ctl).await,
                Err(e) => Some(Err(e.to_string())),
            }
        };
        match done {
            Some(Ok(())) => {
                check_data(want, &got, &format!("entry {i}"));
                probe("read_complete");
            }
            Some(Err(x)) => {
                if known_buferror(&x, want.len()) {
                    return;
                }
                ensure!(ctl.borrow().errors > failed_before || (ctl.borrow().failed && ctl.borrow().cfg.sticky), "read", "entry {i} fails on a healthy source after {} of {} bytes: {x}", got.len(), want.len());
                probe("read_failed");
            }
            None => probe("read_stopped"),
        }
        let c = ctl.borrow();
        let used = c.bytes - bytes0;
        let ops = c.ops - ops0;
        // Each operation moves at least a byte, except seeks, failures and looks at the end.
        let bound = used + 2 * (c.errors as u64) + 2 * reads + 32;
        ensure!(ops <= bound, "steps", "reading entry {i} ({} of {} bytes in {reads} reads) took {ops} source operations for {used} bytes", got.len(), want.len());
    }
}

#[allow(clippy::too_many_arguments)]
async fn pull<R: AsyncRead + Unpin>(
    e: &mut R,
    got: &mut Vec<u8>,
    len: usize,
    cancel: u32,
    reads: &mut u64,
    i: usize,
    case: &Case,
    ctl: &Rc<RefCell<SrcCtl>>,
) -> Option<Result<(), String>> {
    let mut buf = vec![0u8; [1usize, 3, 64, 1000, 8192][draw(5) as usize]];
    let stop = if chance(200) { Some(range(0, len as u64) as usize) } else { None };
    loop {
        if let Some(s) = stop {
            if got.len() >= s {
                return None;
            }
        }
        *reads += 1;
        let r = maybe_cancel(e.read(&mut buf), cancel).await;
        if let Some(ends) = &case.ends {
            let pos = ctl.borrow().pos;
            ensure!(pos <= ends[i], "over-read", "the reader of entry {i} consumed up to {pos}, its data end at {}", ends[i]);
        }
        match r {
            None => probe("read_abandoned"),
            Some(Err(e)) => return Some(Err(e.to_string())),
            Some(Ok(0)) => return Some(Ok(())),
            Some(Ok(n)) => {
                got.extend_from_slice(&buf[..n]);
                ensure!(got.len() <= len, "data", "entry {i} gives more than its {len} bytes");
            }
        }
    }
}

fn stream_side() {
    let s = gen_foreign(&FCfg { streamable: true, prefix: false, gaps: false, max_data: 6000, ..FOREIGN });
    let (b, locs) = crate::refzip::write_foreign(&s.f);
    let b = Rc::new(b);
    let cfg = gen_waiting();
    sample(|| format!("stream {}; {cfg:?}", describe_foreign(&s)));
    trace(|| describe_foreign(&s));
    let slow = s.f.entries.iter().any(|e| matches!(e.method, XZ | LZMA));
    let (src, ctl) = SimSource::new(2, b.clone(), cfg);
    let tok = chance(400);
    let cancel = if chance(200) { 100 } else { 0 };
    let ends: Vec<(u64, u64)> = s
        .f
        .entries
        .iter()
        .zip(&locs)
        .map(|(e, l)| (if e.dd == crate::refzip::Dd::None { l.2 } else { l.1 + e.cdata.len() as u64 }, l.2))
        .collect();
    let lens: Vec<usize> = s.data.iter().map(|d| d.len()).collect();
    let n_entries = lens.len() as u64;
    let k = ctl.clone();
    sim_run(exec(), async move {
        if tok {
            use_stream(stream::ZipFileReader::with_tokio(TokioSource(src)), &ends, &lens, &k, cancel).await
        } else {
            use_stream(stream::ZipFileReader::new(src), &ends, &lens, &k, cancel).await
        }
    });
    let c = ctl.borrow();
    let bound = c.bytes + 4 * n_entries + c.errors as u64 * 2 + 16 + with(|s| s.probes.get("reads").copied().unwrap_or(0));
    ensure!(c.ops <= bound, "steps", "streaming {} bytes took {} source operations (bound {bound})", c.bytes, c.ops);
    check_repolls(slow, 0);
}

async fn use_stream<R: AsyncBufRead + Unpin + 'static>(
    mut r: stream::ZipFileReader<stream::Ready<R>>,
    ends: &[(u64, u64)],
    lens: &[usize],
    ctl: &Rc<RefCell<SrcCtl>>,
    cancel: u32,
) {
    for (k, end) in ends.iter().enumerate() {
        let healthy = |x: &str| {
            ensure!(ctl.borrow().failed || known_buferror(x, lens[k]), "read", "streaming entry {k} fails on a healthy source: {x}");
            probe("stream_failed");
        };
        let mut e = match r.next_with_entry().await {
            Ok(Some(e)) => e,
            Ok(None) => violation("lost", format!("the stream ends before entry {k}")),
            Err(e) => return healthy(&e.to_string()),
        };
        let mut buf = vec![0u8; [1usize, 3, 64, 1000, 8192][draw(5) as usize]];
        let whole = chance(600);
        let mut left = if whole { u64::MAX } else { small(6) as u64 };
        while left > 0 {
            left -= 1;
            probe("reads");
            let n = maybe_cancel(e.reader_mut().read(&mut buf), cancel).await;
            let pos = ctl.borrow().pos;
            ensure!(pos <= end.0, "over-read", "the reader of entry {k} consumed up to {pos}, its data end at {}", end.0);
            match n {
                None | Some(Ok(1..)) => {}
                Some(Ok(0)) => break,
                Some(Err(e)) => return healthy(&e.to_string()),
            }
        }
        r = match e.skip().await {
            Ok(r) => r,
            Err(e) => return healthy(&e.to_string()),
        };
        let pos = ctl.borrow().pos;
        ensure!(pos == end.1, "over-read", "after entry {k} the source is at {pos}, its record ends at {}", end.1);
    }
    probe("stream_complete");
}
