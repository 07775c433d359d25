//! Checked reads detect every corruption of stored content.
use super::foreign::*;
use super::paths::*;
use super::*;
use crate::codec::{DEFLATE64, STORED};
use crate::refzip::{walk, write_foreign, Walk};
use async_zip::base::read::{seek, stream, WithEntry, ZipEntryReader};
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use std::cell::Cell;

/// Storage whose damage can come and go (a bad cable, a bad cache).
struct Flaky {
    good: Rc<Vec<u8>>,
    bad: Rc<Vec<u8>>,
    hurt: Cell<bool>,
}
impl Blob for Flaky {
    fn len(&self) -> u64 {
        self.good.len() as u64
    }
    fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if self.hurt.get() {
            self.bad.read_at(off, buf)
        } else {
            self.good.read_at(off, buf)
        }
    }
}

pub fn run() {
    let streaming = chance(250);
    let a = if streaming { gen_streamable(3000, 5) } else { gen_any(3000, 5) };
    let Some(w) = walk(&a.bytes) else { return };
    if w.locs.len() != a.data.len() || w.locs.is_empty() {
        return;
    }
    let mut bad = (*a.bytes).clone();
    let n = if chance(100) { 0 } else { 1 + small(2) };
    for _ in 0..n {
        damage(&mut bad, &w);
    }
    // What did the damage hit?
    let differs = |lo: u64, hi: u64| bad[lo as usize..hi as usize] != a.bytes[lo as usize..hi as usize];
    let ends: Vec<u64> = w
        .locs
        .iter()
        .map(|l| {
            let e = l.data + l.csize;
            // up to the next record (descriptor included)
            w.locs.iter().map(|m| m.lfh).filter(|m| *m >= e).chain([w.cd_off]).min().unwrap()
        })
        .collect();
    let header_hit: Vec<bool> = w.locs.iter().map(|l| differs(l.lfh, l.lfh + 14) || differs(l.lfh + 18, l.data)).collect();
    let data_hit: Vec<bool> = w.locs.iter().map(|l| differs(l.data, l.data + l.csize)).collect();
    let cd_hit: Vec<bool> = w.locs.iter().map(|l| differs(l.cd_pos, l.cd_pos + 46)).collect();
    let lcrc_hit: Vec<bool> = w.locs.iter().map(|l| differs(l.lfh + 14, l.lfh + 18)).collect();
    let dd_hit: Vec<bool> = w.locs.iter().zip(&ends).map(|(l, e)| differs(l.data + l.csize, *e)).collect();
    for i in 0..w.locs.len() {
        if header_hit[i] || data_hit[i] || cd_hit[i] {
            fault("corruption");
        }
    }
    let at = |hit: bool, pos: u64| if hit { Some(crate::refzip::u32at(&bad, pos as usize)) } else { None };
    let cd_crc: Vec<Option<u32>> = w.locs.iter().zip(&cd_hit).map(|(l, h)| at(*h, l.cd_pos + 16)).collect();
    let local_crc: Vec<Option<u32>> = w.locs.iter().zip(&lcrc_hit).map(|(l, h)| at(*h, l.lfh + 14)).collect();
    let recorded = |i: usize| cd_crc[i];
    let bad = Rc::new(bad);
    trace(|| a.what.clone());
    sample(|| format!("{}; headers hit {header_hit:?}, data hit {data_hit:?}, directory hit {cd_hit:?}", a.what));
    if streaming {
        let hit: Vec<(bool, bool)> = (0..w.locs.len()).map(|i| (header_hit[i] || dd_hit[i], data_hit[i] || lcrc_hit[i])).collect();
        let cfg = IoCfg::gen_benign();
        let data = a.data.clone();
        sim_run(gen_exec(), streamed(bad, data, w, hit, local_crc, cfg));
        return;
    }
    let touched: Vec<bool> = (0..w.locs.len()).map(|i| header_hit[i] || data_hit[i] || cd_hit[i]).collect();
    if chance(350) {
        let f = Rc::new(Flaky { good: a.bytes.clone(), bad, hurt: Cell::new(true) });
        let cfg = IoCfg::gen_benign();
        let data = a.data.clone();
        sim_run(gen_exec(), transient(f, data, touched, cfg));
        return;
    }
    let path = gen_path(40);
    let mut ops: Ops = Vec::new();
    for i in 0..w.locs.len() {
        let text = std::str::from_utf8(&a.data[i]).is_ok();
        ops.push((i, if text && chance(300) { How::Text } else { How::Checked }));
    }
    let d = run_dump(path, bad, IoCfg::gen_benign(), ops.clone(), usize::MAX);
    if let Err(e) = d.file {
        violation("open", format!("{path:?}: only entry data and checksums are damaged, but opening fails: {e}"));
    }
    for ((i, how), got) in ops.iter().zip(d.reads) {
        judge(*i, &format!("{path:?} {how:?}"), got.map(|g| g.0).map_err(|e| e.0), &a.data[*i], touched[*i], recorded(*i));
    }
}

fn judge(i: usize, how: &str, got: Result<Vec<u8>, String>, want: &[u8], touched: bool, recorded: Option<u32>) {
    match got {
        // Data and checksum both hit so that they agree: nothing a checksum could detect.
        Ok(d) if recorded == Some(crc32fast::hash(&d)) => probe("consistent_damage"),
        Ok(d) if d[..] != *want => violation(
            "undetected",
            format!("{how}: entry {i}: a checked read succeeded with {} bytes that are not the original {} bytes (damaged: {touched})", d.len(), want.len()),
        ),
        Ok(_) => {
            if touched {
                probe("damage_harmless");
            }
        }
        Err(e) => {
            if !touched {
                violation("intact-refused", format!("{how}: entry {i} is undamaged, but its checked read fails: {e}"));
            }
            probe("damage_detected");
        }
    }
}

fn damage(b: &mut [u8], w: &Walk) {
    let pick = |locs: &[crate::refzip::Loc]| locs[draw(locs.len() as u32) as usize];
    let l = pick(&w.locs);
    match weighted(&[4, 4, 2, 2, 4]) {
        0 => {
            if l.csize > 0 {
                for _ in 0..1 + small(3) {
                    let at = match weighted(&[3, 1, 1]) {
                        0 => range(0, l.csize - 1),
                        1 => range(0, l.csize.min(12) - 1),
                        _ => l.csize - 1 - range(0, l.csize.min(12) - 1),
                    };
                    b[(l.data + at) as usize] ^= 1 << draw(8);
                }
            }
        }
        1 => {
            if l.csize > 0 {
                let s = range(0, l.csize - 1);
                let n = 1 + range(0, (l.csize - s - 1).min(600));
                fill(&mut b[(l.data + s) as usize..(l.data + s + n) as usize]);
            }
        }
        2 => xor32(b, l.cd_pos + 16),
        3 => xor32(b, l.lfh + 14),
        _ => {
            // a sector anywhere in the data area
            if w.cd_off > 0 {
                let size = [64u64, 512, 100, 4096][draw(4) as usize];
                let mut s = range(0, w.cd_off - 1);
                if chance(500) {
                    s -= s % size;
                }
                let e = (s + size).min(w.cd_off);
                fill(&mut b[s as usize..e as usize]);
            }
        }
    }
}

fn xor32(b: &mut [u8], at: u64) {
    let v = match draw(4) {
        0 => 1u32 << draw(32),
        1 => u32::MAX,
        2 => {
            // an unset checksum
            let at = at as usize;
            crate::refzip::u32at(b, at)
        }
        _ => seed32() | 1,
    };
    for (k, x) in v.to_le_bytes().iter().enumerate() {
        b[at as usize + k] ^= x;
    }
}

fn fill(r: &mut [u8]) {
    match draw(4) {
        0 => r.fill(0),
        1 => r.fill(0xFF),
        2 => {
            let mut g = Rng::new(seed32() as u64);
            for x in r {
                *x = g.next() as u8;
            }
        }
        _ => {
            // a neighbouring sector written twice
            let n = r.len() / 2;
            let (x, y) = r.split_at_mut(n);
            y[..n].copy_from_slice(x);
        }
    }
}

/// A checked read in one of its forms; Ok is the entry's complete content.
pub async fn checked<R: AsyncBufRead + Unpin>(er: &mut ZipEntryReader<'_, R, WithEntry<'_>>, text: bool) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    match weighted(&[4, if text { 3 } else { 0 }, 3, 2]) {
        0 => {
            let n = er.read_to_end_checked(&mut out).await.map_err(|e| e.to_string())?;
            ensure!(n == out.len(), "contract", "read_to_end_checked reported {n} for {} bytes", out.len());
            if chance(200) {
                // At the end: no more data, and still fine to ask.
                let mut b = [0u8; 4];
                let n = er.read(&mut b).await.map_err(|e| e.to_string())?;
                ensure!(n == 0, "data", "{n} bytes after the end");
            }
        }
        1 => {
            let mut s = String::new();
            let n = er.read_to_string_checked(&mut s).await.map_err(|e| e.to_string())?;
            ensure!(n == s.len(), "contract", "read_to_string_checked reported {n} for {} bytes", s.len());
            out = s.into_bytes();
        }
        2 => {
            // Part of it read plainly first: the check still covers everything.
            let mut buf = vec![0u8; 1 + draw(700) as usize];
            for _ in 0..1 + draw(3) {
                let n = er.read(&mut buf).await.map_err(|e| e.to_string())?;
                out.extend_from_slice(&buf[..n]);
            }
            let before = out.len();
            if text && std::str::from_utf8(&out).is_ok() && chance(600) {
                let mut s = String::new();
                let n = er.read_to_string_checked(&mut s).await.map_err(|e| e.to_string())?;
                ensure!(n == s.len(), "contract", "read_to_string_checked reported {n} for {} bytes", s.len());
                out.extend_from_slice(s.as_bytes());
            } else {
                let n = er.read_to_end_checked(&mut out).await.map_err(|e| e.to_string())?;
                ensure!(n == out.len() - before, "contract", "read_to_end_checked reported {n}");
            }
        }
        _ => {
            // Appending to what the caller already has.
            let pre = b"already here".to_vec();
            let mut v = pre.clone();
            let n = er.read_to_end_checked(&mut v).await.map_err(|e| e.to_string())?;
            ensure!(v.starts_with(&pre) && n == v.len() - pre.len(), "contract", "read_to_end_checked does not append");
            out = v[pre.len()..].to_vec();
        }
    }
    Ok(out)
}

/// Several rounds over one reader while the damage comes and goes.
async fn transient(f: Rc<Flaky>, data: Vec<Rc<Vec<u8>>>, touched: Vec<bool>, cfg: IoCfg) {
    f.hurt.set(false);
    let (s, ctl) = SimSource::new(2, f.clone(), cfg);
    let mut r = match seek::ZipFileReader::new(s).await {
        Ok(r) => r,
        Err(e) => violation("open", format!("an undamaged archive is refused: {e}")),
    };
    let _ = ctl;
    for round in 0..2 + draw(5) {
        let hurt = chance(600);
        f.hurt.set(hurt);
        let i = draw(data.len() as u32) as usize;
        trace(|| format!("op checked read of {i}, damage visible {hurt}"));
        let text = std::str::from_utf8(&data[i]).is_ok();
        let got = match r.reader_with_entry(i).await {
            Ok(mut er) => checked(&mut er, text).await,
            Err(e) => Err(e.to_string()),
        };
        judge(i, &format!("round {round}"), got, &data[i], touched[i] && hurt, None);
    }
}

async fn streamed(bad: Rc<Vec<u8>>, data: Vec<Rc<Vec<u8>>>, w: Walk, hit: Vec<(bool, bool)>, crcs: Vec<Option<u32>>, cfg: IoCfg) {
    let (s, _) = SimSource::new(2, bad, cfg);
    let mut r = stream::ZipFileReader::new(s);
    for k in 0..data.len() {
        let (header, content) = hit[k];
        let next = r.next_with_entry().await;
        if header {
            return;
        }
        let mut e = match next {
            Ok(Some(e)) => e,
            Ok(None) => violation("intact-refused", format!("the stream ends before the undamaged entry {k}")),
            Err(e) => violation("intact-refused", format!("the stream refuses the undamaged header of entry {k}: {e}")),
        };
        if w.locs[k].dd {
            // No checksum is known yet: only plain reads can succeed.
            if content {
                return;
            }
            let mut v = Vec::new();
            if let Err(e) = e.reader_mut().read_to_end(&mut v).await {
                violation("intact-refused", format!("streaming the undamaged entry {k} fails: {e}"));
            }
            check_data(&data[k], &v, &format!("streamed entry {k}"));
        } else {
            let text = std::str::from_utf8(&data[k]).is_ok();
            let got = checked(e.reader_mut(), text).await;
            let stop = got.is_err();
            judge(k, "stream", got, &data[k], content, crcs[k]);
            if stop {
                return;
            }
        }
        r = match e.done().await {
            Ok(r) => r,
            Err(_) if content => return,
            Err(e) => violation("intact-refused", format!("leaving the undamaged entry {k} fails: {e}")),
        };
        if content {
            return;
        }
    }
}

/// An archive within the streaming reader's documented limits.
pub fn gen_streamable(max_data: u64, max_entries: u64) -> AnyArchive {
    if chance(500) {
        let mut spec = gen_archive(&GenCfg { max_data, max_str: 300, ..GenCfg::DEFAULT }, max_entries);
        for e in &mut spec.entries {
            if e.method == STORED || e.method == DEFLATE64 {
                e.mode = match e.mode {
                    Mode::Stream => Mode::Whole,
                    Mode::StreamPre => Mode::WholePre,
                    m => m,
                };
            }
        }
        AnyArchive {
            bytes: Rc::new(must_write(&spec)),
            data: spec.entries.iter().map(|e| e.data.clone()).collect(),
            stored: spec.entries.iter().map(|e| e.method == STORED).collect(),
            what: describe(&spec),
        }
    } else {
        let s = gen_foreign(&FCfg { max_data, max_entries, streamable: true, prefix: false, gaps: false, shuffle: false, ..FOREIGN });
        let (b, _) = write_foreign(&s.f);
        let what = describe_foreign(&s);
        AnyArchive {
            bytes: Rc::new(b),
            data: s.data.clone(),
            stored: s.f.entries.iter().map(|e| e.method == STORED).collect(),
            what,
        }
    }
}
