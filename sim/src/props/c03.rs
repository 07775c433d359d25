//! Failed, cancelled or abandoned entries never damage the archive.
use super::*;
use futures_lite::io::AsyncWriteExt;

pub fn run() {
    let base = GenCfg { max_data: 6000, extras: 60, ..GenCfg::DEFAULT }.swarm();
    let n = range(1, 8);
    let mut specs: Vec<EntrySpec> = (0..n).map(|_| gen_entry(&base)).collect();
    for e in specs.iter_mut() {
        e.hints = None;
        if chance(40) {
            oversize(e);
        }
    }
    let comment = if chance(200) { Some(gen_comment(200)) } else { None };
    let z64 = [Z64::Auto, Z64::Force, Z64::Never][weighted(&[60, 15, 25])];
    let mut cfg = match weighted(&[2, 5, 2]) {
        0 => IoCfg::gen_benign(),
        1 => IoCfg::gen_faulty(1 + small(3)),
        _ => {
            let mut c = IoCfg::gen_faulty(1 + small(6));
            c.zero = 30;
            c
        }
    };
    let cancel = [0, 100, 400][weighted(&[3, 4, 3])];
    if cancel > 0 && cfg.pend == 0 {
        cfg.pend = 300;
    }
    let abandon = [0, 150, 400][weighted(&[3, 4, 3])];
    sample(|| format!("{n} entries, cancel {cancel}, abandon {abandon}, {cfg:?}"));
    let (sink, ctl) = SimSink::new(1, cfg, false);
    let ctl2 = ctl.clone();
    let (kept, closed) = sim_run(gen_exec(), async move {
        let mut zip = configure(ZipFileWriter::new(sink), z64);
        let mut kept: Vec<EntrySpec> = Vec::new();
        for e in specs {
            let stream = matches!(e.mode, Mode::Stream | Mode::StreamPre);
            if stream && chance(abandon) {
                abandoned(&mut zip, &e).await;
                continue;
            }
            match maybe_cancel(write_entry(&mut zip, &e), cancel).await {
                Some(Ok(())) => {
                    trace(|| "op ok".into());
                    kept.push(e)
                }
                Some(Err(err)) => {
                    trace(|| format!("op failed: {err}"));
                    let injected = ctl2.borrow().reported_failures > 0;
                    ensure!(injected || !fits(&e), "write", "writing failed although the sink is healthy: {err}");
                    probe("entry_failed");
                }
                None => probe("entry_cancelled"),
            }
        }
        if let Some(c) = &comment {
            zip.comment(c.clone());
        }
        // Mostly let the closing phase succeed.
        if chance(800) {
            let mut c = ctl2.borrow_mut();
            c.cfg.err = 0;
            c.cfg.zero = 0;
            c.err_at_op = None;
        }
        match zip.close().await {
            Ok(_) => (kept, Some(comment)),
            Err(_) => (kept, None),
        }
    });
    let Some(comment) = closed else {
        probe("close_failed");
        return;
    };
    let bytes = Rc::new(sink_bytes(&ctl));
    if kept.is_empty() {
        // An empty directory leaves an abandoned entry's bytes right before the end record. Where they
        // spell a ZIP64 locator the format itself is ambiguous: nothing to decide.
        let at = bytes.len() - 22 - comment.as_ref().map_or(0, |c| c.len());
        if at >= 20 && bytes[at - 20..at - 16] == *b"PK\x06\x07" && (at < 76 || bytes[at - 76..at - 72] != *b"PK\x06\x06") {
            probe("ambiguous_dead_bytes");
            return;
        }
    }
    let a = parse_or_violate(&*bytes, true, u64::MAX, "after failures");
    check_ref(&a, &kept, comment.as_deref());
    check_mem(&bytes, &kept, comment.as_deref(), "after failures");
    if !kept.is_empty() {
        probe("entries_survived");
    }
}

/// Starts a streamed entry and drops it somewhere before close.
async fn abandoned<W: futures_lite::io::AsyncWrite + Unpin>(zip: &mut ZipFileWriter<W>, e: &EntrySpec) {
    trace(|| format!("op abandoned stream {}", e.describe()));
    probe("stream_abandoned");
    let data = e.pre.as_ref().unwrap_or(&e.data).clone();
    let opened = match e.mode {
        Mode::StreamPre => zip.write_entry_stream_precompressed(e.builder()).await,
        _ => zip.write_entry_stream(e.builder()).await,
    };
    let Ok(mut s) = opened else { return };
    let n = range(0, data.len() as u64) as usize;
    if s.write_all(&data[..n]).await.is_err() {
        return;
    }
    match draw(4) {
        0 => {}
        1 => {
            let _ = cancel_after(s.write_all(&data[n..]), 1).await;
        }
        2 => {
            if e.method != crate::codec::LZMA {
                let _ = s.flush().await;
            }
        }
        _ => {
            // close() on the stream writer itself (through the AsyncWrite trait) finishes the
            // compressed data but does not register the entry.
            let _ = AsyncWriteExt::close(&mut s).await;
        }
    }
}
