//! Round trip: what is written is what every reader gives back.
use super::paths::*;
use super::*;

pub fn run() {
    let spec = Rc::new(gen_archive(&GenCfg::DEFAULT, 8));
    let cfg = IoCfg::gen_benign();
    let tok = chance(400);
    sample(|| format!("{} via {} sink", describe(&spec), if tok { "tokio" } else { "futures" }));
    let (r, ctl) = write_sim(spec.clone(), cfg, tok);
    if let Err(e) = r {
        violation("write", format!("writing failed although the sink is healthy: {e}; {}", describe(&spec)));
    }
    let bytes = Rc::new(sink_bytes(&ctl));
    read_back(&spec, bytes);
}

pub fn read_back(spec: &ArchiveSpec, bytes: Rc<Vec<u8>>) {
    let passes = 1 + draw(2);
    for _ in 0..passes {
        let path = gen_path(40);
        let mut ops: Ops = Vec::new();
        for (i, e) in spec.entries.iter().enumerate() {
            let text = std::str::from_utf8(&e.data).is_ok();
            ops.push((i, gen_how(text)));
        }
        if ops.len() > 1 && chance(300) {
            ops.reverse();
        }
        let d = run_dump(path, bytes.clone(), IoCfg::gen_benign(), ops.clone(), usize::MAX);
        let what = format!("{path:?}");
        let (file, _) = match d.file {
            Ok(f) => f,
            Err(e) => violation("open", format!("{what}: a freshly written archive is refused: {e}; {}", describe(spec))),
        };
        check_file(&file, &spec.entries, spec.comment.as_deref(), &what);
        check_layout(&file, &bytes, &what);
        for ((i, how), got) in ops.iter().zip(d.reads) {
            let w = format!("{what}: entry {i} ({how:?}, {})", spec.entries[*i].describe());
            match got {
                Err((e, _)) if known_buferror(&e, spec.entries[*i].data.len()) => {}
                Err((e, _)) => violation("read", format!("{w}: reading failed: {e}")),
                Ok((data, done, h)) => {
                    ensure!(done, "read", "{w}: end not reached");
                    check_data(&spec.entries[*i].data, &data, &w);
                    if let Some(h) = h {
                        ensure!(h == spec.entries[*i].crc(), "hash", "{w}: compute_hash gives {h:08x}");
                    }
                }
            }
        }
    }
}
