//! Malformed or hostile bytes cause errors, not panics, hangs or blow-ups.
use super::hostile::*;
use super::paths::*;
use super::*;
use async_zip::base::read::stream;
use futures_lite::io::AsyncReadExt;

const OUTPUT_CAP: usize = 1 << 20;

/// Reads and drops; at most OUTPUT_CAP bytes.
async fn drain<R: AsyncRead + Unpin>(r: &mut R) -> std::io::Result<bool> {
    let mut buf = [0u8; 4096];
    let mut total = 0;
    loop {
        let n = r.read(&mut buf).await?;
        if n == 0 {
            return Ok(true);
        }
        total += n;
        if total >= OUTPUT_CAP {
            return Ok(false);
        }
    }
}

pub fn run() {
    let (bytes, what) = gen_hostile(3000);
    let len = bytes.len();
    sample(|| format!("{what}, {len} bytes"));
    let cfg = if chance(900) { IoCfg::gen_benign() } else { IoCfg::gen_faulty(3) };
    let allowed = (8 << 20) + 64 * len;
    let base = crate::alloc::mark();
    if chance(350) {
        let exec = gen_exec();
        let b = bytes.clone();
        sim_run(exec, streamed(b, cfg));
    } else {
        let path = gen_path(25);
        // The number of entries is not known beforehand: open once, then read.
        let d = run_dump(path, bytes.clone(), cfg, vec![], 0);
        let peak = crate::alloc::peak().saturating_sub(base);
        ensure!(
            peak <= (1 << 20) + 64 * len,
            "memory",
            "opening {len} bytes of input made the library allocate {peak} bytes (largest single request {})",
            crate::alloc::biggest()
        );
        if let Ok((f, v)) = d.file {
            let n = f.entries().len();
            drop((f, v));
            let ops: Ops = (0..n.min(12)).map(|i| (i, gen_how(true))).collect();
            // Checked reads collect their output, and so count against the bound.
            let ops: Ops = ops.into_iter().map(|(i, h)| (i, if len < 20_000 { h } else { How::Plain(Style::ToEnd) })).collect();
            let d = run_dump(path, bytes.clone(), cfg, ops, 64 << 10);
            for r in d.reads {
                match r {
                    Ok(_) => probe("entry_ok"),
                    Err(_) => probe("entry_refused"),
                }
            }
        } else {
            probe("open_refused");
        }
    }
    let peak = crate::alloc::peak().saturating_sub(base);
    ensure!(
        peak <= allowed,
        "memory",
        "{len} bytes of input made the library allocate {peak} bytes (largest single request {}); allowed are {allowed}",
        crate::alloc::biggest()
    );
}

async fn streamed(b: Rc<Vec<u8>>, cfg: IoCfg) {
    let tokio_src = chance(300);
    let (s, _) = SimSource::new(2, b, cfg);
    if tokio_src {
        walk_all(stream::ZipFileReader::with_tokio(TokioSource(s))).await
    } else {
        walk_all(stream::ZipFileReader::new(s)).await
    }
}

async fn walk_all<R: futures_lite::io::AsyncBufRead + Unpin + 'static>(mut r: stream::ZipFileReader<stream::Ready<R>>) {
    for _ in 0..40 {
        let mut e = match r.next_with_entry().await {
            Ok(Some(e)) => e,
            Ok(None) => {
                probe("stream_end");
                return;
            }
            Err(_) => {
                probe("stream_refused");
                return;
            }
        };
        sound(e.reader().entry().filename());
        sound(e.reader().entry().comment());
        let _ = e.reader().entry().dir();
        let _ = e.reader().entry().last_modification_date();
        // Bounded by hand: skipping a bomb takes as long as the bomb is.
        match drain(e.reader_mut()).await {
            Ok(true) => {}
            _ => return,
        }
        let left = if chance(500) { e.skip().await } else { e.done().await };
        r = match left {
            Ok(r) => r,
            Err(_) => return,
        };
        probe("stream_entry_ok");
    }
}
