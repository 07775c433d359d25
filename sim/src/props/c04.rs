//! No silent loss: a sink failure is always reported to the caller.
use super::*;

pub fn run() {
    let mut spec = gen_archive(&GenCfg { max_data: 9000, ..GenCfg::DEFAULT }, 6);
    if chance(20) {
        // An archive comment that cannot be represented must be refused, not cut.
        spec.comment = Some("y".repeat(65530 + draw(12) as usize));
    }
    let fit = spec.comment.as_ref().map(|c| c.len() <= 65535).unwrap_or(true);
    let plain = write_plain(&spec);
    let plain = match plain {
        Ok(p) => Some(p),
        Err(e) => {
            ensure!(!fit, "write", "writing a representable archive failed: {e}; {}", describe(&spec));
            None
        }
    };
    let total = plain.as_ref().map(|p| p.len()).unwrap_or(0) as u64;
    let mut cfg = match weighted(&[1, 3, 3, 3, 3]) {
        0 => IoCfg::gen_benign(),
        1 => IoCfg::gen_faulty(1),
        2 => {
            let mut c = IoCfg::gen_benign();
            c.zero = [5, 50][draw(2) as usize];
            c.err_budget = 1;
            c
        }
        _ => IoCfg::gen_benign(),
    };
    let quota = if chance(300) { Some(range(0, total + 10)) } else { None };
    let err_at = if cfg.err == 0 && cfg.zero == 0 && quota.is_none() && chance(700) {
        cfg.err_budget = 1;
        // Aim at one specific operation of the run.
        Some(1 + if chance(600) { range(0, 60) } else { gen_len(4000) })
    } else {
        None
    };
    cfg.sticky = cfg.err_budget > 0 && chance(300);
    let tok = chance(400);
    sample(|| format!("{}; {cfg:?} quota {quota:?} err_at {err_at:?}", describe(&spec)));
    let (sink, ctl) = SimSink::new(1, cfg, false);
    ctl.borrow_mut().quota = quota;
    ctl.borrow_mut().err_at_op = err_at;
    let spec = Rc::new(spec);
    let (sp, c2) = (spec.clone(), ctl.clone());
    let ok = sim_run(gen_exec(), async move {
        if tok {
            drive(configure(ZipFileWriter::with_tokio(TokioSink(sink)), sp.z64), &sp, &c2).await
        } else {
            drive(configure(ZipFileWriter::new(sink), sp.z64), &sp, &c2).await
        }
    });
    let c = ctl.borrow();
    ensure!(!c.closed, "sink-closed", "the library closed the caller's sink");
    if ok {
        let bytes = match &c.data {
            SinkData::Dense(v) => v,
            _ => unreachable!(),
        };
        match &plain {
            None => violation("silent", "an archive whose comment exceeds the format's limit was closed without error".into()),
            // A flushed Deflate entry may hold more empty sync blocks on a sink that does
            // not keep up (see C02).
            Some(p) if bytes != p && c.cfg.pend > 0 && flushed_deflate(&spec) => {
                let a = parse_or_violate(bytes, false, u64::MAX, &describe(&spec));
                check_ref(&a, &spec.entries, spec.comment.as_deref());
                probe("flushed_deflate");
            }
            Some(p) => ensure!(
                bytes == p,
                "silent-loss",
                "every operation succeeded, but the sink holds {} bytes instead of the archive's {} (first difference at {:?})",
                bytes.len(),
                p.len(),
                bytes.iter().zip(p).position(|(a, b)| a != b)
            ),
        }
        probe("complete");
    } else {
        probe("reported");
        if quota.is_some() {
            probe("quota_reported");
        }
    }
}

/// True when every operation succeeded.
async fn drive<W: futures_lite::io::AsyncWrite + Unpin>(
    mut zip: ZipFileWriter<W>,
    spec: &ArchiveSpec,
    ctl: &Rc<RefCell<SinkCtl>>,
) -> bool {
    let failures = |c: &Rc<RefCell<SinkCtl>>| c.borrow().reported_failures;
    for (i, e) in spec.entries.iter().enumerate() {
        let r = write_entry(&mut zip, e).await;
        match r {
            Ok(()) => ensure!(
                failures(ctl) == 0,
                "silent",
                "the sink failed while entry {i} ({}) was written, but the operation reported success",
                e.describe()
            ),
            Err(err) => {
                ensure!(failures(ctl) > 0, "write", "writing failed although the sink is healthy: {err}");
                return false;
            }
        }
    }
    if let Some(c) = &spec.comment {
        zip.comment(c.clone());
    }
    match zip.close().await {
        Ok(_) => {
            ensure!(failures(ctl) == 0, "silent", "the sink failed while the archive was closed, but close reported success");
            true
        }
        Err(err) => {
            let big = spec.comment.as_ref().map(|c| c.len() > 65535).unwrap_or(false);
            ensure!(failures(ctl) > 0 || big, "write", "close failed although the sink is healthy: {err}");
            false
        }
    }
}
