//! Concurrent readers of one archive do not interfere.
use super::foreign::*;
use super::*;
use async_zip::base::read::mem;
use async_zip::tokio::read::fs;
use futures_lite::io::AsyncReadExt;
use std::cell::Cell;

#[derive(Clone)]
struct World {
    data: Rc<Vec<Rc<Vec<u8>>>>,
    view: Rc<Vec<String>>,
    cancel: u32,
    ops: u32,
    pause: u32,
    faulty: bool,
    running: Rc<Cell<u32>>,
    overlap: Rc<Cell<bool>>,
}

async fn pause(w: &World) {
    if w.pause > 0 && chance(w.pause) {
        sleep(1 + draw(6) as u64).await;
    }
}

macro_rules! task {
    ($r:expr, $w:expr, $t:expr) => {{
        for op in 0..$w.ops {
            pause(&$w).await;
            let i = draw($w.data.len() as u32) as usize;
            let want = $w.data[i].clone();
            let mut got = Vec::new();
            let kind = weighted(&[5, 4, 1]);
            trace(|| format!("op task {} step {op}: entry {i} kind {kind}", $t));
            $w.running.set($w.running.get() + 1);
            if $w.running.get() > 1 {
                $w.overlap.set(true);
            }
            let before = crate::fsim::errors();
            let res = maybe_cancel(
                async {
                    match kind {
                        0 => {
                            let mut er = $r.reader_without_entry(i).await.map_err(|e| e.to_string())?;
                            let step = [1usize, 7, 200, 4096][draw(4) as usize];
                            let mut buf = vec![0u8; step];
                            loop {
                                pause(&$w).await;
                                match er.read(&mut buf).await {
                                    Ok(0) => break,
                                    Ok(n) => got.extend_from_slice(&buf[..n]),
                                    Err(e) => return Err(e.to_string()),
                                }
                            }
                            let h = er.compute_hash();
                            ensure!(h == crc32fast::hash(&got), "hash", "task {}: compute_hash is not that of the bytes delivered", $t);
                            Ok(())
                        }
                        1 => {
                            let mut er = $r.reader_with_entry(i).await.map_err(|e| e.to_string())?;
                            ensure!(er.entry().uncompressed_size() == want.len() as u64, "meta", "task {}: the reader of entry {i} describes another entry", $t);
                            if chance(400) {
                                let mut buf = [0u8; 64];
                                let n = er.read(&mut buf).await.map_err(|e| e.to_string())?;
                                got.extend_from_slice(&buf[..n]);
                                pause(&$w).await;
                            }
                            er.read_to_end_checked(&mut got).await.map(|_| ()).map_err(|e| e.to_string())
                        }
                        _ => {
                            // An index nobody stored.
                            let bad = $w.data.len() + draw(3) as usize;
                            match $r.reader_without_entry(bad).await {
                                Ok(_) => violation("index", format!("entry {bad} of {} can be opened", $w.data.len())),
                                Err(_) => {
                                    got = want.to_vec();
                                    Ok(())
                                }
                            }
                        }
                    }
                },
                $w.cancel,
            )
            .await;
            $w.running.set($w.running.get() - 1);
            ensure!(
                got.len() <= want.len() && got[..] == want[..got.len()],
                "interference",
                "task {}: entry {i} delivered {} bytes that are not a prefix of its {} bytes",
                $t,
                got.len(),
                want.len()
            );
            match res {
                None => probe("task_cancelled"),
                Some(Ok(())) => {
                    ensure!(got.len() == want.len(), "incomplete", "task {}: entry {i} ended after {} of {} bytes", $t, got.len(), want.len());
                    probe("task_read_complete");
                }
                Some(Err(e)) => {
                    let hit = $w.faulty && crate::fsim::errors() > before;
                    ensure!(hit || known_buferror(&e, want.len()), "read", "task {}: entry {i} fails without any fault of its own: {e}", $t);
                    probe("task_read_failed");
                }
            }
            ensure!(file_view($r.file()) == *$w.view, "view", "task {}: the directory information changed", $t);
        }
    }};
}

pub fn run() {
    let mut a = gen_any(5000, 5);
    if a.data.is_empty() {
        a = gen_any(5000, 5);
        if a.data.is_empty() {
            return;
        }
    }
    let tasks = 2 + small(4);
    let ops = 1 + small(4);
    let on_fs = chance(120);
    let faults = if on_fs { [0, 0, 30, 120][draw(4) as usize] } else { 0 };
    let mut w = World {
        data: Rc::new(a.data.clone()),
        view: Rc::new(Vec::new()),
        cancel: [0, 100, 400][draw(3) as usize],
        ops,
        pause: [0, 100, 500][weighted(&[1, 3, 3])],
        faulty: faults > 0,
        running: Rc::new(Cell::new(0)),
        overlap: Rc::new(Cell::new(false)),
    };
    sample(|| format!("{}; {tasks} tasks x {ops} reads, file system {on_fs}, faults {faults}, cancel {}, pause {}", a.what, w.cancel, w.pause));
    if on_fs {
        let fsim = crate::fsim::FsSim::new(faults);
        crate::fsim::set_failing(false);
        let path = fsim.put("a.zip", &a.bytes);
        let g = fsim.enter();
        sim_run(ExecCfg { external: true, ..Default::default() }, async move {
            let r = match fs::ZipFileReader::new(&path).await {
                Ok(r) => r,
                Err(e) => violation("open", format!("a healthy file is refused: {e}")),
            };
            w.view = Rc::new(file_view(r.file()));
            crate::fsim::set_failing(w.faulty);
            let left = Rc::new(Cell::new(tasks));
            for t in 0..tasks {
                let (r, w, left) = (r.clone(), w.clone(), left.clone());
                spawn(async move {
                    task!(r, w, t);
                    left.set(left.get() - 1);
                    if left.get() == 0 {
                        // Everything is over: one more complete pass.
                        crate::fsim::set_failing(false);
                        let mut w = w.clone();
                        w.cancel = 0;
                        w.faulty = false;
                        w.ops = 2;
                        task!(r, w, 100);
                    }
                });
            }
        });
        drop(g);
        drop(fsim);
    } else {
        let r = match block(mem::ZipFileReader::new((*a.bytes).clone())) {
            Ok(r) => r,
            Err(e) => violation("open", format!("a valid archive is refused: {e}")),
        };
        w.view = Rc::new(file_view(r.file()));
        let over = w.overlap.clone();
        sim_run(gen_exec(), async move {
            for t in 0..tasks {
                let (r, w) = (r.clone(), w.clone());
                spawn(async move { task!(r, w, t) });
            }
            drop(r);
        });
        if over.get() {
            probe("reads_overlapped");
        }
    }
}
