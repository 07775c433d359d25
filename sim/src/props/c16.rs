//! All access paths agree on every archive.
use super::foreign::*;
use super::hostile::*;
use super::paths::*;
use super::*;

const LIMIT: usize = 96 << 10;

pub fn run() {
    let (bytes, what) = if chance(400) {
        let a = gen_any(4000, 5);
        (a.bytes, a.what)
    } else {
        gen_hostile(3000)
    };
    trace(|| what.clone());
    sample(|| format!("{what}, {} bytes", bytes.len()));
    let probe_dump = run_dump(Path::Mem, bytes.clone(), IoCfg::PERFECT, vec![], 0);
    let n = match &probe_dump.file {
        Ok((f, _)) => f.entries().len(),
        Err(_) => 0,
    };
    // What is read, and how, in directory order: the reference.
    let shown = n.min(8);
    let base: Ops = (0..shown)
        .flat_map(|i| {
            let text = chance(150);
            let mut v = vec![(i, How::Plain(Style::ToEnd)), (i, How::Checked)];
            if text {
                v.push((i, How::Text));
            }
            v
        })
        .collect();
    let reference = run_dump(Path::Mem, bytes.clone(), IoCfg::PERFECT, base.clone(), LIMIT);
    // Offsets beyond what a file can have: sources refuse them, memory need not.
    if run_dump(Path::Seek, bytes.clone(), IoCfg::PERFECT, base.clone(), LIMIT).huge_seek {
        return probe("huge_seek");
    }
    for _ in 0..1 + draw(3) {
        let path = gen_path(30);
        let cfg = IoCfg::gen_benign();
        // The same accesses in another order, some of them repeated, styles varied.
        let mut pick: Vec<usize> = (0..base.len()).collect();
        for i in (1..pick.len()).rev() {
            pick.swap(i, draw(i as u32 + 1) as usize);
        }
        if !pick.is_empty() && chance(300) {
            let again = pick[draw(pick.len() as u32) as usize];
            pick.push(again);
        }
        let ops: Ops = pick
            .iter()
            .map(|k| {
                let (i, how) = base[*k];
                (i, if matches!(how, How::Plain(_)) { How::Plain(gen_style()) } else { how })
            })
            .collect();
        let d = run_dump(path, bytes.clone(), cfg, ops.clone(), LIMIT);
        if d.huge_seek || reference.huge_seek {
            probe("huge_seek");
            continue;
        }
        match (&reference.file, &d.file) {
            (Err(_), Err(_)) => probe("both_refuse"),
            (Ok((_, a)), Ok((_, b))) => {
                if a != b {
                    let at = a.iter().zip(b).position(|(x, y)| x != y);
                    violation("listing", format!("{path:?} lists the archive differently from memory (record {at:?})"));
                }
                probe("both_open");
            }
            (Ok(_), Err(e)) => violation("open", format!("{path:?} refuses what memory opens: {e}")),
            (Err(e), Ok(_)) => violation("open", format!("{path:?} opens what memory refuses: {e}")),
        }
        if d.file.is_err() {
            continue;
        }
        let header = |i: usize| reference.file.as_ref().map(|(f, _)| f.entries()[i].header_offset()).unwrap_or(u64::MAX);
        for ((k, (i, how)), got) in pick.iter().zip(&ops).zip(&d.reads) {
            let want = &reference.reads[*k];
            match (want, got) {
                (Ok(a), Ok(b)) => {
                    let m = a.0.len().min(b.0.len());
                    let same = if a.1 && b.1 { a.0 == b.0 && (a.2 == b.2 || a.2.is_none() || b.2.is_none()) } else { a.0[..m] == b.0[..m] };
                    ensure!(same, "data", "{path:?} {how:?}: entry {i} gives {} bytes (end {}), memory gives {} (end {})", b.0.len(), b.1, a.0.len(), a.1);
                    ensure!(a.1 == b.1 || m >= LIMIT || a.0.len().max(b.0.len()) >= LIMIT, "data", "{path:?} {how:?}: entry {i}: end of data disagrees");
                }
                (Err(_), Err(_)) => probe("both_fail"),
                (Ok(a), Err(e)) => {
                    if known_buferror(&e.0, a.0.len()) || a.1 && known_zstd_size(&e.0, &bytes, header(*i), a.0.len()) {
                        continue;
                    }
                    // Beyond the reference's cap anything may follow.
                    if !a.1 && e.1.len() >= LIMIT {
                        continue;
                    }
                    violation("fails", format!("{path:?} {how:?}: entry {i} fails ({}), memory gives {} bytes", e.0, a.0.len()))
                }
                (Err(e), Ok(b)) => {
                    if !b.1 && e.1.len() >= LIMIT || b.1 && known_zstd_size(&e.0, &bytes, header(*i), b.0.len()) {
                        continue;
                    }
                    violation("fails", format!("{path:?} {how:?}: entry {i} gives {} bytes (end {}), memory fails: {}", b.0.len(), b.1, e.0))
                }
            }
        }
    }
}
