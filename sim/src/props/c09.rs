//! The streaming reader agrees with the directory and stays in sync.
use super::c08::checked;
use super::foreign::*;
use super::*;
use crate::codec::{DEFLATE64, STORED};
use crate::refzip::{walk, write_foreign, Dd};
use async_zip::base::read::stream::ZipFileReader;
use async_zip::ZipEntry;
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use tokio_util::compat::TokioAsyncReadCompatExt;

/// What streaming one entry must show.
pub struct Want {
    pub name: Str,
    pub method: u16,
    pub date: (u16, u16),
    pub dd: bool,
    pub crc: u32,
    pub csize: u64,
    pub extra: Vec<(u16, Vec<u8>)>,
    pub data: Rc<Vec<u8>>,
    /// Position right after the whole record.
    pub end: u64,
}

pub struct Case {
    pub bytes: Rc<Vec<u8>>,
    pub want: Vec<Want>,
    pub cd_off: u64,
}

pub fn gen_case() -> Case {
    if chance(500) {
        let mut spec = gen_archive(&GenCfg { max_data: 6000, max_str: 400, ..GenCfg::DEFAULT }, 6);
        for e in &mut spec.entries {
            // Documented limit (Stored with a descriptor) and known finding K2.
            if e.method == STORED || e.method == DEFLATE64 {
                e.mode = match e.mode {
                    Mode::Stream => Mode::Whole,
                    Mode::StreamPre => Mode::WholePre,
                    m => m,
                };
            }
        }
        let bytes = Rc::new(must_write(&spec));
        sample(|| describe(&spec));
        trace(|| describe(&spec));
        let Some(w) = walk(&bytes) else { violation("structure", "the archive written cannot be walked".into()) };
        ensure!(w.locs.len() == spec.entries.len(), "structure", "the archive written lists {} entries", w.locs.len());
        // Where the next record begins is where this one ends.
        let mut ends: Vec<u64> = w.locs.iter().skip(1).map(|l| l.lfh).collect();
        ends.push(w.cd_off);
        let want = spec
            .entries
            .iter()
            .zip(&w.locs)
            .zip(&ends)
            .map(|((e, l), end)| Want {
                name: e.name.clone(),
                method: e.method,
                date: packed_date(e.date),
                dd: l.dd,
                crc: e.crc(),
                csize: l.csize,
                extra: e.extra.clone(),
                data: e.data.clone(),
                end: *end,
            })
            .collect();
        Case { bytes, want, cd_off: w.cd_off }
    } else {
        let s = gen_foreign(&FCfg { streamable: true, prefix: false, gaps: false, max_data: 6000, ..FOREIGN });
        let (b, locs) = write_foreign(&s.f);
        sample(|| describe_foreign(&s));
        trace(|| describe_foreign(&s));
        let want = s
            .f
            .entries
            .iter()
            .zip(&locs)
            .zip(&s.data)
            .map(|((e, l), d)| Want {
                name: expected(&e.name, e.utf8, &e.lextra, 0x7075),
                method: e.method,
                date: (e.date, e.time),
                dd: e.dd != Dd::None,
                crc: e.crc,
                csize: e.cdata.len() as u64,
                extra: e.lextra.clone(),
                data: d.clone(),
                end: l.2,
            })
            .collect();
        let cd_off = locs.last().map(|l| l.2).unwrap_or(0);
        Case { bytes: Rc::new(b), want, cd_off }
    }
}

/// An entry outside what streaming supports is refused, and those before it are not disturbed.
fn unsupported() {
    let mut s = gen_foreign(&FCfg { streamable: true, prefix: false, gaps: false, max_data: 3000, max_entries: 5, ..FOREIGN });
    if s.f.entries.is_empty() {
        return;
    }
    let k = draw(s.f.entries.len() as u32) as usize;
    let e = &mut s.f.entries[k];
    let how = match weighted(&[3, 2, 3]) {
        0 => {
            e.flags |= 1;
            if e.dd == Dd::None && chance(400) {
                e.dd = Dd::Sig;
            }
            "encrypted"
        }
        1 => {
            e.method = STORED;
            e.cdata = s.data[k].to_vec();
            e.dd = [Dd::Sig, Dd::NoSig][draw(2) as usize];
            "stored with a data descriptor"
        }
        _ => {
            e.method = [1u16, 2, 3, 4, 5, 6, 7, 10, 11, 13, 15, 16, 18, 19, 20, 92, 94, 96, 97, 98, 99, 0xFFFF, 0x108][draw(23) as usize];
            "of an unknown method"
        }
    };
    let (b, _) = write_foreign(&s.f);
    let what = describe_foreign(&s);
    sample(|| format!("entry {k} is {how}; {what}"));
    trace(|| format!("entry {k} is {how}; {what}"));
    let (src, _) = SimSource::new(2, Rc::new(b), IoCfg::gen_benign());
    let data = s.data.clone();
    sim_run(gen_exec(), async move {
        let mut r = ZipFileReader::new(src);
        for (i, want) in data.iter().enumerate().take(k) {
            let mut e = match r.next_without_entry().await {
                Ok(Some(e)) => e,
                Ok(None) => violation("lost", format!("the stream ends before entry {i}, entry {k} is {how}")),
                Err(e) => violation("desync", format!("opening entry {i} fails: {e}")),
            };
            if chance(500) {
                let mut v = Vec::new();
                match e.reader_mut().read_to_end(&mut v).await {
                    Ok(_) => check_data(want, &v, &format!("streamed entry {i}")),
                    Err(x) if known_buferror(&x.to_string(), want.len()) => return,
                    Err(x) => violation("read", format!("streaming entry {i} fails: {x}")),
                }
            }
            r = match e.skip().await {
                Ok(r) => r,
                Err(x) if known_buferror(&x.to_string(), want.len()) => return,
                Err(x) => violation("done", format!("skipping entry {i} fails: {x}")),
            };
        }
        let got = if chance(500) { r.next_with_entry().await.map(|e| e.is_some()) } else { r.next_without_entry().await.map(|e| e.is_some()) };
        ensure!(got.is_err(), "unsupported", "entry {k}, which is {how}, is handed out ({got:?})");
        probe("unsupported_refused");
    });
}

pub fn run() {
    if chance(80) {
        return unsupported();
    }
    let case = Rc::new(gen_case());
    let cfg = IoCfg::gen_benign();
    let (s, ctl) = SimSource::new(2, case.bytes.clone(), cfg);
    let kind = draw(3);
    let exec = gen_exec();
    let c = case.clone();
    sim_run(exec, async move {
        match kind {
            0 => walk_through(ZipFileReader::new(s), &c, Some(&ctl)).await,
            1 => walk_through(ZipFileReader::with_tokio(TokioSource(s)), &c, Some(&ctl)).await,
            _ => {
                let cap = [1usize, 3, 64, 8192][draw(4) as usize];
                walk_through(ZipFileReader::new(tokio::io::BufReader::with_capacity(cap, TokioSource(s)).compat()), &c, None).await
            }
        }
    });
    // The directory view of the same archive, for the same entries.
    if chance(100) {
        let r = match block(async_zip::base::read::mem::ZipFileReader::new((*case.bytes).clone())) {
            Ok(r) => r,
            Err(e) => violation("open", format!("the same archive is refused in memory: {e}")),
        };
        ensure!(r.file().entries().len() == case.want.len(), "entries", "the directory lists {} entries, {} were streamed", r.file().entries().len(), case.want.len());
    }
}

pub fn check_entry(e: &ZipEntry, w: &Want, k: usize) {
    let what = format!("streamed entry {k}");
    w.name.check(e.filename(), &format!("{what} name"));
    ensure!(method_of(e) == w.method, "meta", "{what}: method {}, stored with {}", method_of(e), w.method);
    let d = e.last_modification_date();
    let date = ((d.year() - 1980) as u16) << 9 | (d.month() as u16) << 5 | d.day() as u16;
    let time = (d.hour() as u16) << 11 | (d.minute() as u16) << 5 | (d.second() / 2) as u16;
    ensure!((date, time) == w.date, "meta", "{what}: date differs");
    if !w.dd {
        ensure!(e.crc32() == w.crc, "meta", "{what}: CRC differs");
        ensure!(e.uncompressed_size() == w.data.len() as u64, "meta", "{what}: size {}, stored {}", e.uncompressed_size(), w.data.len());
        ensure!(e.compressed_size() == w.csize, "meta", "{what}: compressed size {}, stored {}", e.compressed_size(), w.csize);
    }
    check_extras(&w.extra, e, &what);
}

enum Left<T> {
    Go(T),
    Stop,
}

async fn walk_through<R: AsyncBufRead + Unpin + 'static>(
    mut r: ZipFileReader<async_zip::base::read::stream::Ready<R>>,
    case: &Case,
    ctl: Option<&Rc<RefCell<SrcCtl>>>,
) {
    for (k, w) in case.want.iter().enumerate() {
        let with = chance(600);
        trace(|| format!("op next entry {k}, with description {with}"));
        let left = if with {
            let mut e = match r.next_with_entry().await {
                Ok(Some(e)) => e,
                Ok(None) => violation("lost", format!("the stream ends before entry {k} of {}", case.want.len())),
                Err(e) => violation("desync", format!("opening entry {k} fails: {e}")),
            };
            check_entry(e.reader().entry(), w, k);
            if !w.dd && chance(300) {
                let text = std::str::from_utf8(&w.data).is_ok();
                match checked(e.reader_mut(), text).await {
                    Ok(v) => check_data(&w.data, &v, &format!("streamed entry {k} (checked)")),
                    Err(x) if known_buferror(&x, w.data.len()) => return,
                    Err(x) => violation("read", format!("checked read of streamed entry {k} fails: {x}")),
                }
                match e.done().await {
                    Ok(r) => Left::Go(r),
                    Err(x) => violation("done", format!("leaving the fully read entry {k} is refused: {x}")),
                }
            } else {
                consume(e, w, k).await
            }
        } else {
            let e = match r.next_without_entry().await {
                Ok(Some(e)) => e,
                Ok(None) => violation("lost", format!("the stream ends before entry {k} of {}", case.want.len())),
                Err(e) => violation("desync", format!("opening entry {k} fails: {e}")),
            };
            consume(e, w, k).await
        };
        r = match left {
            Left::Go(r) => r,
            Left::Stop => return,
        };
        if let Some(c) = ctl {
            let pos = c.borrow().pos;
            ensure!(pos == w.end, "position", "after entry {k} the source is at {pos}, its record ends at {}", w.end);
        }
        if chance(80) {
            // Give the source back and carry on from where it is.
            r = ZipFileReader::new(r.into_inner().await);
        }
    }
    let end = if chance(500) { r.next_with_entry().await.map(|e| e.is_some()) } else { r.next_without_entry().await.map(|e| e.is_some()) };
    match end {
        Ok(false) => {}
        Ok(true) => violation("extra", format!("an entry appears after the last one ({})", case.want.len())),
        Err(e) => violation("end", format!("after {} entries the directory is not recognised: {e}", case.want.len())),
    }
    if let Some(c) = ctl {
        let pos = c.borrow().pos;
        ensure!(pos >= case.cd_off && pos <= case.cd_off + 4, "position", "end of archive reported at {pos}, the directory is at {}", case.cd_off);
    }
    probe("stream_complete");
}

async fn consume<'a, R: AsyncBufRead + Unpin + 'static, E>(
    mut e: ZipFileReader<async_zip::base::read::stream::Reading<'a, R, E>>,
    w: &Want,
    k: usize,
) -> Left<ZipFileReader<async_zip::base::read::stream::Ready<R>>> {
    let how = weighted(&[30, 25, 25, 10, 10]);
    trace(|| format!("op entry {k} leave kind {how}"));
    let mut got = Vec::new();
    let fail = |x: String, got: &[u8]| -> Left<_> {
        ensure!(known_buferror(&x, w.data.len()), "read", "streaming entry {k} fails after {} of {} bytes: {x}", got.len(), w.data.len());
        Left::Stop
    };
    match how {
        0 => {
            if let Err(x) = read_all(e.reader_mut(), gen_style(), &mut got).await {
                return fail(x.to_string(), &got);
            }
            check_data(&w.data, &got, &format!("streamed entry {k}"));
            let h = e.reader_mut().compute_hash();
            ensure!(h == w.crc, "hash", "streamed entry {k}: compute_hash gives {h:08x}, the content has {:08x}", w.crc);
            match e.done().await {
                Ok(r) => Left::Go(r),
                Err(x) => violation("done", format!("leaving the fully read entry {k} is refused: {x}")),
            }
        }
        1 => match e.skip().await {
            Ok(r) => {
                probe("skip_untouched");
                Left::Go(r)
            }
            Err(x) => fail(x.to_string(), &got),
        },
        _ => {
            // Part of it first, some of the reads abandoned while waiting.
            let stop = match weighted(&[6, 2, 1]) {
                0 => range(0, w.data.len() as u64) as usize,
                1 => w.data.len(),
                _ => w.data.len().saturating_sub(1),
            };
            let mut buf = vec![0u8; [1usize, 5, 300, 4096][draw(4) as usize]];
            while got.len() < stop {
                let n = buf.len().min(stop - got.len());
                match maybe_cancel(e.reader_mut().read(&mut buf[..n]), 60).await {
                    None => probe("read_abandoned"),
                    Some(Ok(0)) => violation("data", format!("streamed entry {k} ends after {} of {} bytes", got.len(), w.data.len())),
                    Some(Ok(n)) => got.extend_from_slice(&buf[..n]),
                    Some(Err(x)) => return fail(x.to_string(), &got),
                }
            }
            check_data(&w.data[..stop], &got, &format!("streamed entry {k} (first part)"));
            if how == 2 {
                match e.skip().await {
                    Ok(r) => {
                        probe("skip_partway");
                        Left::Go(r)
                    }
                    Err(x) => fail(x.to_string(), &got),
                }
            } else {
                match e.done().await {
                    Ok(r) => {
                        ensure!(stop == w.data.len(), "done", "leaving entry {k} after {stop} of {} bytes is not refused", w.data.len());
                        Left::Go(r)
                    }
                    Err(x) => {
                        let s = x.to_string();
                        if known_buferror(&s, w.data.len()) {
                            return Left::Stop;
                        }
                        ensure!(
                            stop < w.data.len() && matches!(x, ZipError::EOFNotReached),
                            "done",
                            "leaving entry {k} after {stop} of {} bytes gives: {s}",
                            w.data.len()
                        );
                        probe("early_done_refused");
                        Left::Stop
                    }
                }
            }
        }
    }
}
