//! A torn archive is never mistaken for a complete one.
use super::paths::*;
use super::*;
use crate::codec::*;

pub fn run() {
    let mut spec = gen_archive(&GenCfg { max_data: 2500, max_str: 300, ..GenCfg::DEFAULT }, 5);
    if chance(300) {
        spec.comment = Some(gen_comment(3000));
    }
    let full = must_write(&spec);
    let a = parse_or_violate(&full, false, u64::MAX, "before the crash");
    let n = full.len() as u64;
    let mut marks = vec![0, a.cd_off, a.eocdr, n];
    for e in &a.entries {
        marks.extend([e.lfh, e.data, e.data + e.csize, e.end, e.cd_pos]);
    }
    if let Some(z) = a.z64_eocdr {
        marks.extend([z, z + 56]);
    }
    for _ in 0..1 + draw(5) {
        let cut = match weighted(&[4, 4, 3]) {
            0 => range(0, n - 1),
            1 => {
                let m = marks[draw(marks.len() as u32) as usize];
                (m + range(0, 60)).saturating_sub(30).min(n - 1)
            }
            _ => range(a.cd_off.min(n - 1), n - 1),
        };
        fault("crash");
        sample(|| format!("{}; {} bytes, cut at {cut}", describe(&spec), n));
        let torn = Rc::new(full[..cut as usize].to_vec());
        let path = gen_path(60);
        let cfg = IoCfg::gen_benign();
        let d = run_dump(path, torn.clone(), cfg, vec![], 0);
        if d.file.is_ok() {
            violation(
                "torn-accepted",
                format!("{path:?}: the first {cut} of {n} bytes were opened as a complete archive (directory at {}, end record at {})", a.cd_off, a.eocdr),
            );
        }
        let sp = spec.clone();
        let cd = a.cd_off;
        let cfg = IoCfg::gen_benign();
        sim_run(gen_exec(), async move { stream(torn, sp, cfg, cut, cd).await });
    }
}

async fn stream(torn: Rc<Vec<u8>>, spec: ArchiveSpec, cfg: IoCfg, cut: u64, cd_off: u64) {
    let (src, _) = SimSource::new(3, torn, cfg);
    let mut r = async_zip::base::read::stream::ZipFileReader::new(src);
    let mut k = 0;
    loop {
        match r.next_with_entry().await {
            Err(_) => return,
            Ok(None) => {
                ensure!(
                    k == spec.entries.len() && cut >= cd_off + 4,
                    "torn-accepted",
                    "the streaming reader reported the end of the archive after {k} of {} entries (cut at {cut})",
                    spec.entries.len()
                );
                return;
            }
            Ok(Some(mut e)) => {
                ensure!(k < spec.entries.len(), "entries", "more entries than were written");
                let w = &spec.entries[k];
                {
                    let z = e.reader().entry();
                    w.name.check(z.filename(), "streamed name");
                    ensure!(method_of(z) == w.method, "meta", "streamed method differs");
                    ensure!(*z.last_modification_date() == zip_date(w.date), "meta", "streamed date differs");
                }
                let dd = matches!(w.mode, Mode::Stream | Mode::StreamPre);
                let mut got = Vec::new();
                let act = draw(3);
                if act == 0 && !dd {
                    match e.reader_mut().read_to_end_checked(&mut got).await {
                        Ok(_) => check_data(&w.data, &got, "a checked read of a torn archive succeeded"),
                        Err(_) => return,
                    }
                } else if act < 2 {
                    let r = read_all(e.reader_mut(), gen_style(), &mut got).await;
                    ensure!(
                        got.len() <= w.data.len() && got[..] == w.data[..got.len()],
                        "garbage",
                        "the streaming reader delivered data of entry {k} that was never written"
                    );
                    if r.is_err() {
                        return;
                    }
                    if w.method != STORED {
                        check_data(&w.data, &got, "a compressed entry of a torn archive ended without error");
                    }
                }
                match e.skip().await {
                    Ok(n) => r = n,
                    Err(_) => return,
                }
                k += 1;
            }
        }
    }
}
