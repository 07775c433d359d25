//! A flushed entry stream is recoverable after a crash.
use super::*;
use crate::codec::*;
use futures_lite::io::AsyncWriteExt;

pub fn run() {
    let methods: &'static [(u16, u32)] = &[(STORED, 30), (DEFLATE, 40), (ZSTD, 25), (XZ, 3)];
    let g = GenCfg { max_data: 12_000, methods, modes: [0, 80, 0, 20], extras: 100, ..GenCfg::DEFAULT };
    let mut e = gen_entry(&g);
    if e.method == DEFLATE64 {
        e.method = DEFLATE;
        e.pre = Some(Rc::new(encode(DEFLATE, &e.data, 3)));
    }
    let before = if chance(400) { Some(gen_entry(&GenCfg { max_data: 500, ..GenCfg::DEFAULT })) } else { None };
    let z64 = [Z64::Auto, Z64::Force, Z64::Never][weighted(&[60, 15, 25])];
    let cfg = if chance(300) { IoCfg::gen_faulty(2) } else { IoCfg::gen_benign() };
    let steps = 1 + draw(6);
    let tok = chance(300);
    sample(|| format!("{} in {steps} flushed steps, {cfg:?}", e.describe()));
    let (sink, ctl) = SimSink::new(1, cfg, false);
    let c2 = ctl.clone();
    sim_run(gen_exec(), async move {
        if tok {
            drive(configure(ZipFileWriter::with_tokio(TokioSink(sink)), z64), before, e, steps, c2).await
        } else {
            drive(configure(ZipFileWriter::new(sink), z64), before, e, steps, c2).await
        }
    });
}

async fn drive<W: futures_lite::io::AsyncWrite + Unpin>(
    mut zip: ZipFileWriter<W>,
    before: Option<EntrySpec>,
    e: EntrySpec,
    steps: u32,
    ctl: Rc<RefCell<SinkCtl>>,
) {
    if let Some(b) = before {
        if write_entry(&mut zip, &b).await.is_err() {
            return;
        }
    }
    let stream = match e.mode {
        Mode::StreamPre => zip.write_entry_stream_precompressed(e.builder()).await,
        _ => zip.write_entry_stream(e.builder()).await,
    };
    let Ok(mut s) = stream else { return };
    // Everything up to here is header; entry data starts here.
    let start = ctl.borrow().data.len() as usize;
    let (data, method) = match &e.pre {
        Some(p) => (p.clone(), STORED),
        None => (e.data.clone(), e.method),
    };
    let mut at = 0usize;
    for k in 0..steps {
        let left = data.len() - at;
        let n = if k + 1 == steps && chance(300) { left } else { range(0, left as u64) as usize };
        // Written in one or several pieces.
        let mut end = at;
        while end < at + n {
            let m = if e.chunk == 0 { n } else { (e.chunk as usize).min(at + n - end) };
            let stop = (end + m).min(at + n);
            if s.write_all(&data[end..stop]).await.is_err() {
                crash(&ctl, start, method, &data[..stop], 0, "write failed");
                return;
            }
            end = stop;
        }
        at += n;
        let flushes = ctl.borrow().flushes;
        // A cancelled flush promises nothing; a later successful one does.
        if chance(80) && cancel_after(s.flush(), 1 + small(3)).await.is_none() {
            crash(&ctl, start, method, &data[..at], 0, "flush cancelled");
        }
        match s.flush().await {
            Ok(()) => {
                probe("flushed");
                let c = ctl.borrow();
                ensure!(c.flushes > flushes, "flush", "flush succeeded without flushing the sink");
                ensure!(
                    c.durable == c.data.len(),
                    "flush",
                    "flush succeeded but {} of {} bytes handed to the sink are not durable",
                    c.data.len() - c.durable,
                    c.data.len()
                );
                drop(c);
                crash(&ctl, start, method, &data[..at], at, "after flush");
            }
            Err(_) => {
                probe("flush_failed");
                crash(&ctl, start, method, &data[..at], 0, "flush failed");
                return;
            }
        }
        if chance(150) {
            // Half a write after the flush, then the crash.
            let m = range(0, (data.len() - at) as u64) as usize;
            let _ = cancel_after(s.write_all(&data[at..at + m]), 1).await;
            crash(&ctl, start, method, &data[..at + m], at, "mid-write after flush");
            return;
        }
    }
    if chance(500) && s.close().await.is_ok() {
        let c = ctl.borrow();
        let bytes = match &c.data {
            SinkData::Dense(v) => v.clone(),
            _ => unreachable!(),
        };
        drop(c);
        let got = decode_prefix(method, &bytes[start..]);
        if method != STORED {
            check_data(&data[..at], &got, "after the entry was closed");
        }
    }
}

/// What a crash now leaves behind: everything durable, and possibly some of the rest.
fn crash(ctl: &Rc<RefCell<SinkCtl>>, start: usize, method: u16, written: &[u8], must: usize, when: &str) {
    let c = ctl.borrow();
    let bytes = match &c.data {
        SinkData::Dense(v) => v,
        _ => unreachable!(),
    };
    let durable = c.durable as usize;
    let extra = bytes.len() - durable.min(bytes.len());
    let keep = if extra == 0 { durable } else { durable + range(0, extra as u64) as usize };
    if keep < start {
        ensure!(must == 0, "flush", "{when}: the entry's data is not durable at all");
        return;
    }
    fault("crash");
    let got = decode_prefix(method, &bytes[start..keep]);
    ensure!(
        got.len() >= must,
        "flush",
        "{when}: {must} bytes were written and flushed, but a crash leaves only {} recoverable (method {method})",
        got.len()
    );
    ensure!(
        got.len() <= written.len() && got[..] == written[..got.len()],
        "garbage",
        "{when}: decoding what survives gives bytes that were never written (method {method})"
    );
}
