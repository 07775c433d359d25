//! Read faults never yield wrong data and never poison the reader.
use super::foreign::*;
use super::*;
use async_zip::base::read::{seek, stream};
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncReadExt, BufReader as FBuf};
use tokio_util::compat::TokioAsyncReadCompatExt;

#[derive(Clone)]
struct Plan {
    ops: u32,
    cancel: u32,
    data: Rc<Vec<Rc<Vec<u8>>>>,
    stored: Rc<Vec<bool>>,
}

pub fn run() {
    if chance(200) {
        return run_stream();
    }
    let a = gen_any(5000, 5);
    let ops = 1 + draw(6);
    let cancel = [0, 150, 500][weighted(&[3, 4, 3])];
    let plan = Plan { ops, cancel, data: Rc::new(a.data.clone()), stored: Rc::new(a.stored.clone()) };
    if chance(60) {
        return run_fs(a, plan);
    }
    let mut cfg = if chance(850) { IoCfg::gen_faulty(1 + small(8)) } else { IoCfg::gen_benign() };
    cfg.sticky = chance(60);
    if cancel > 0 && cfg.pend == 0 {
        cfg.pend = 300;
    }
    let kind = draw(5);
    let cap = [1, 7, 64, 1000, 8192][draw(5) as usize];
    sample(|| format!("{}; source kind {kind}, {ops} reads, cancel {cancel}, {cfg:?}", a.what));
    let (s, ctl) = SimSource::new(2, a.bytes.clone(), cfg);
    // tokio-util's Compat forgets to restart a seek that was cancelled and whose completion then
    // fails (a defect of that crate): tokio sources see either cancellations or failing seeks.
    ctl.borrow_mut().seeks_safe = cancel > 0 && (kind == 2 || kind == 3);
    sim_run(gen_exec(), async move {
        match kind {
            0 => seekable(s, plan, ctl).await,
            1 => seekable(FBuf::with_capacity(cap, s), plan, ctl).await,
            2 => seekable(TokioSource(s).compat(), plan, ctl).await,
            3 => seekable(tokio::io::BufReader::with_capacity(cap, TokioSource(s)).compat(), plan, ctl).await,
            _ => consuming(s, a.bytes, plan, ctl).await,
        }
    });
}

fn heal(ctl: &Rc<RefCell<SrcCtl>>) {
    let mut c = ctl.borrow_mut();
    c.cfg.err = 0;
    c.cfg.sticky = false;
    c.err_at_op = None;
    c.cut = None;
    c.failed = false;
}

/// Moves the source in and out of trouble between operations.
fn weather(ctl: &Rc<RefCell<SrcCtl>>, len: u64) {
    let mut c = ctl.borrow_mut();
    match weighted(&[6, 2, 2, 2]) {
        0 => {}
        1 => {
            c.cfg.sticky = false;
            c.failed = false;
        }
        2 => {
            let n = c.ops + 1 + small(12) as u64;
            c.err_at_op = Some(n);
            c.cfg.err_budget += 1;
        }
        _ => c.cut = if c.cut.is_none() && chance(300) { Some(range(0, len)) } else { None },
    }
}

/// One read of one entry, with retries on the same entry reader after errors and cancelled reads.
/// Everything delivered is appended to `got`; Ok(true) when the end was reported.
async fn pull<R: futures_lite::io::AsyncRead + Unpin>(er: &mut R, got: &mut Vec<u8>, cancel: u32, resume: bool) -> std::io::Result<bool> {
    let limit = if chance(500) { usize::MAX } else { range(0, 6000) as usize };
    let step = [1usize, 3, 100, 4096][draw(4) as usize];
    let mut buf = vec![0u8; step];
    // The decompressors (a dependency) drop what they had decoded when the source fails, so only a
    // Stored entry's reader can be used further after an error.
    let mut retries = if resume { small(4) } else { 0 };
    loop {
        if got.len() >= limit {
            return Ok(false);
        }
        match maybe_cancel(er.read(&mut buf), cancel / 8).await {
            None => probe("read_resumed_after_cancel"),
            Some(Ok(0)) => return Ok(true),
            Some(Ok(n)) => {
                ensure!(n <= step, "contract", "a read of {step} bytes reported {n}");
                got.extend_from_slice(&buf[..n])
            }
            Some(Err(e)) => {
                if retries == 0 {
                    return Err(e);
                }
                retries -= 1;
                probe("read_resumed_after_error");
            }
        }
    }
}

macro_rules! one_op {
    ($r:expr, $plan:expr, $cutting:expr) => {{
        let i = draw($plan.data.len() as u32) as usize;
        let want = $plan.data[i].clone();
        let mut got = Vec::new();
        let kind = weighted(&[5, 3, 2]);
        trace(|| format!("op read entry {i} kind {kind}"));
        let cancel = $plan.cancel;
        let res = maybe_cancel(
            async {
                match kind {
                    0 => {
                        let mut er = $r.reader_without_entry(i).await.map_err(|e| e.to_string())?;
                        let end = pull(&mut er, &mut got, cancel, $plan.stored[i]).await.map_err(|e| e.to_string())?;
                        if end && !$cutting {
                            let h = er.compute_hash();
                            ensure!(h == crc32fast::hash(&want), "hash", "entry {i}: end reached, but compute_hash gives {h:08x}");
                        }
                        Ok(end)
                    }
                    1 => {
                        let mut er = $r.reader_with_entry(i).await.map_err(|e| e.to_string())?;
                        er.read_to_end_checked(&mut got).await.map_err(|e| e.to_string())?;
                        Ok(true)
                    }
                    _ => {
                        let mut er = $r.reader_with_entry(i).await.map_err(|e| e.to_string())?;
                        let mut s = String::new();
                        er.read_to_string_checked(&mut s).await.map_err(|e| e.to_string())?;
                        got = s.into_bytes();
                        Ok::<bool, String>(true)
                    }
                }
            },
            cancel,
        )
        .await;
        ensure!(
            got.len() <= want.len() && got[..] == want[..got.len()],
            "garbage",
            "entry {i} (read kind {kind}): delivered {} bytes that are not a prefix of its {} bytes",
            got.len(),
            want.len()
        );
        match res {
            None => probe("read_cancelled"),
            Some(Err(e)) => {
                trace(|| format!("op failed: {e}"));
                probe("read_failed");
            }
            Some(Ok(end)) => {
                trace(|| format!("op ok, end {end}"));
                if end && (kind != 0 || !$cutting) {
                    ensure!(
                        got.len() == want.len(),
                        "incomplete",
                        "entry {i} (read kind {kind}): the read succeeded with {} of {} bytes",
                        got.len(),
                        want.len()
                    );
                    probe("read_complete");
                }
            }
        }
    }};
}

macro_rules! verify_all {
    ($r:expr, $plan:expr) => {{
        for (i, want) in $plan.data.iter().enumerate() {
            let mut got = Vec::new();
            let r = match $r.reader_with_entry(i).await {
                Ok(mut er) => er.read_to_end_checked(&mut got).await.map(|_| ()),
                Err(e) => Err(e),
            };
            if let Err(e) = r {
                if known_buferror(&e.to_string(), want.len()) {
                    continue;
                }
                violation("poisoned", format!("entry {i} cannot be read although the source is healthy again: {e}"));
            }
            check_data(want, &got, &format!("entry {i} read after the faults were over"));
        }
    }};
}

fn check_listing(f: &ZipFile, plan: &Plan) {
    ensure!(f.entries().len() == plan.data.len(), "entries", "{} entries listed, {} stored", f.entries().len(), plan.data.len());
    for (e, d) in f.entries().iter().zip(plan.data.iter()) {
        ensure!(
            e.uncompressed_size() == d.len() as u64 && e.crc32() == crc32fast::hash(d),
            "meta",
            "an archive opened over a faulty source lists wrong sizes or checksums"
        );
    }
}

async fn seekable<R>(mut src: R, plan: Plan, ctl: Rc<RefCell<SrcCtl>>)
where
    R: futures_lite::io::AsyncBufRead + futures_lite::io::AsyncSeek + Unpin,
{
    // Opening: failed and cancelled attempts are repeated over the same source.
    let mut tries = 0;
    let file = loop {
        let opened = maybe_cancel(seek::ZipFileReader::new(&mut src), plan.cancel / 2).await;
        match opened {
            Some(Ok(r)) => break r.file().clone(),
            Some(Err(e)) => {
                trace(|| format!("open failed: {e}"));
                ensure!(ctl.borrow().errors > 0, "open", "opening failed without any fault: {e}");
                probe("open_failed");
            }
            None => probe("open_cancelled"),
        }
        tries += 1;
        if tries > 3 {
            heal(&ctl);
            match seek::ZipFileReader::new(&mut src).await {
                Ok(r) => break r.file().clone(),
                Err(e) => violation("poisoned", format!("opening fails although the source is healthy again: {e}")),
            }
        }
    };
    check_listing(&file, &plan);
    let mut r = seek::ZipFileReader::from_raw_parts(src, file);
    let len: u64 = plan.data.iter().map(|d| d.len() as u64 + 100).sum();
    for _ in 0..plan.ops {
        if plan.data.is_empty() {
            break;
        }
        weather(&ctl, len);
        let cutting = ctl.borrow().cut.is_some();
        one_op!(r, plan, cutting);
    }
    heal(&ctl);
    verify_all!(r, plan);
}

/// into_entry: the reader is consumed, so every access uses a fresh source.
async fn consuming(src: SimSource, bytes: Rc<Vec<u8>>, plan: Plan, ctl: Rc<RefCell<SrcCtl>>) {
    let cfg = ctl.borrow().cfg;
    heal(&ctl);
    let file = match seek::ZipFileReader::new(src).await {
        Ok(r) => r.file().clone(),
        Err(e) => violation("open", format!("opening failed without any fault: {e}")),
    };
    check_listing(&file, &plan);
    for _ in 0..plan.ops {
        if plan.data.is_empty() {
            break;
        }
        let i = draw(plan.data.len() as u32) as usize;
        let want = &plan.data[i];
        let (s, c) = SimSource::new(2, bytes.clone(), cfg);
        weather(&c, bytes.len() as u64);
        let cutting = c.borrow().cut.is_some();
        let r = seek::ZipFileReader::from_raw_parts(s, file.clone());
        let mut got = Vec::new();
        let res = maybe_cancel(
            async {
                let mut er = r.into_entry(i).await.map_err(|e| e.to_string())?;
                let end = pull(&mut er, &mut got, plan.cancel, plan.stored[i]).await.map_err(|e| e.to_string())?;
                let h = er.compute_hash();
                Ok::<_, String>((end, h))
            },
            plan.cancel,
        )
        .await;
        ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "garbage", "into_entry({i}) delivered wrong bytes");
        if let Some(Ok((end, h))) = res {
            ensure!(h == crc32fast::hash(&got), "hash", "into_entry({i}): compute_hash does not match what was delivered");
            if end && !cutting {
                ensure!(got.len() == want.len(), "incomplete", "into_entry({i}) ended after {} of {} bytes", got.len(), want.len());
            }
        } else if let Some(Err(e)) = res {
            ensure!(c.borrow().errors > 0 || cutting || known_buferror(&e, want.len()), "read", "into_entry({i}) failed without any fault: {e}");
        }
    }
}

fn run_fs(a: AnyArchive, plan: Plan) {
    let fsim = crate::fsim::FsSim::new([20, 80, 250][draw(3) as usize]);
    let path = fsim.put("a.zip", &a.bytes);
    sample(|| format!("{}; file reader, {} reads", a.what, plan.ops));
    let exec = ExecCfg { external: true, ..Default::default() };
    let g = fsim.enter();
    sim_run(exec, async move {
        let mut tries = 0;
        let r = loop {
            match maybe_cancel(fs::ZipFileReader::new(&path), plan.cancel / 2).await {
                Some(Ok(r)) => break r,
                Some(Err(e)) => {
                    ensure!(crate::fsim::errors() > 0, "open", "opening the file failed without any fault: {e}");
                    probe("open_failed");
                }
                None => probe("open_cancelled"),
            }
            tries += 1;
            if tries > 3 {
                crate::fsim::set_failing(false);
                match fs::ZipFileReader::new(&path).await {
                    Ok(r) => break r,
                    Err(e) => violation("poisoned", format!("opening fails although the disk is healthy again: {e}")),
                }
            }
        };
        check_listing(r.file(), &plan);
        for _ in 0..plan.ops {
            if plan.data.is_empty() {
                break;
            }
            one_op!(r, plan, false);
        }
        crate::fsim::set_failing(false);
        verify_all!(r, plan);
    });
    drop(g);
    drop(fsim);
}

/// Front to back over a failing non-seekable source: whatever is delivered is right, and an entry is
/// only left behind when its record really was consumed.
fn run_stream() {
    let case = Rc::new(super::c09::gen_case());
    let mut cfg = if chance(850) { IoCfg::gen_faulty(1 + small(8)) } else { IoCfg::gen_benign() };
    cfg.sticky = chance(200);
    // Few operations per entry: errors have to be likely to land on the interesting ones.
    if cfg.err > 0 && chance(500) {
        cfg.err = [10, 30, 100][draw(3) as usize];
    }
    let cancel = [0, 20, 100][weighted(&[5, 3, 2])];
    let kind = draw(3);
    let cap = [1usize, 7, 64, 1000, 8192][draw(5) as usize];
    sample(|| format!("streaming {} entries, source kind {kind}, cancel {cancel}, {cfg:?}", case.want.len()));
    let (s, ctl) = SimSource::new(2, case.bytes.clone(), cfg);
    sim_run(gen_exec(), async move {
        match kind {
            0 => stream_all(stream::ZipFileReader::new(s), &case, &ctl, cancel, true).await,
            1 => stream_all(stream::ZipFileReader::with_tokio(TokioSource(s)), &case, &ctl, cancel, true).await,
            _ => {
                let b = FBuf::with_capacity(cap, s);
                stream_all(stream::ZipFileReader::new(b), &case, &ctl, cancel, false).await
            }
        }
    });
}

async fn stream_all<R: futures_lite::io::AsyncBufRead + Unpin + 'static>(
    mut r: stream::ZipFileReader<stream::Ready<R>>,
    case: &super::c09::Case,
    ctl: &Rc<RefCell<SrcCtl>>,
    cancel: u32,
    exact: bool,
) {
    // An operation consumed by a failure or a cancellation ends the run; failures need a reason.
    let failed = |what: &str, e: &ZipError, len: usize| {
        ensure!(
            ctl.borrow().errors > 0 || known_buferror(&e.to_string(), len),
            "read",
            "{what} fails although the source did not: {e}"
        );
        probe("stream_failed");
    };
    for (k, w) in case.want.iter().enumerate() {
        let mut e = match maybe_cancel(r.next_with_entry(), cancel).await {
            None => return probe("stream_cancelled"),
            Some(Err(e)) => return failed("opening a streamed entry", &e, 0),
            Some(Ok(None)) => violation("lost", format!("the stream ends before entry {k} of {}", case.want.len())),
            Some(Ok(Some(e))) => e,
        };
        super::c09::check_entry(e.reader().entry(), w, k);
        // Some of it, read with errors on the way, then left in one way or the other.
        let how = weighted(&[4, 5, 2]);
        trace(|| format!("op streamed entry {k}, kind {how}"));
        let mut ended = false;
        if how > 0 && chance(700) {
            let mut got = Vec::new();
            let res = pull(e.reader_mut(), &mut got, cancel, w.method == 0).await;
            ensure!(
                got.len() <= w.data.len() && got[..] == w.data[..got.len()],
                "garbage",
                "streamed entry {k}: delivered {} bytes that are not a prefix of its {} bytes",
                got.len(),
                w.data.len()
            );
            match res {
                Err(x) => return failed("reading a streamed entry", &ZipError::UpstreamReadError(x), w.data.len()),
                Ok(end) => {
                    if end {
                        ensure!(got.len() == w.data.len(), "incomplete", "streamed entry {k} ended after {} of {} bytes", got.len(), w.data.len());
                        let h = e.reader_mut().compute_hash();
                        ensure!(h == w.crc, "hash", "streamed entry {k}: end reached, but compute_hash gives {h:08x}");
                    }
                    ended = end;
                }
            }
        } else if how == 2 && !w.dd {
            let mut got = Vec::new();
            let res = maybe_cancel(e.reader_mut().read_to_end_checked(&mut got), cancel).await;
            ensure!(got.len() <= w.data.len() && got[..] == w.data[..got.len()], "garbage", "streamed entry {k}: checked read delivered wrong bytes");
            match res {
                None => return probe("stream_cancelled"),
                Some(Err(x)) => return failed("the checked read of a streamed entry", &x, w.data.len()),
                Some(Ok(_)) => {
                    ensure!(got.len() == w.data.len(), "incomplete", "streamed entry {k}: the checked read succeeded with {} of {} bytes", got.len(), w.data.len());
                    ended = true;
                }
            }
        }
        let left = if ended && chance(600) { maybe_cancel(e.done(), cancel).await } else { maybe_cancel(e.skip(), cancel).await };
        r = match left {
            None => return probe("stream_cancelled"),
            Some(Err(x)) => return failed("leaving a streamed entry", &x, w.data.len()),
            Some(Ok(r)) => r,
        };
        if exact {
            let pos = ctl.borrow().pos;
            ensure!(pos == w.end, "position", "after entry {k} the source is at {pos}, its record ends at {}", w.end);
        }
        probe("stream_entry_passed");
    }
    match maybe_cancel(r.next_without_entry(), cancel).await {
        None => probe("stream_cancelled"),
        Some(Err(e)) => failed("recognising the directory", &e, 0),
        Some(Ok(None)) => probe("stream_end"),
        Some(Ok(Some(_))) => violation("extra", format!("an entry appears after the last one ({})", case.want.len())),
    }
}
