//! Every way the crate offers to read a seekable archive, behind one function.

use super::*;
use async_zip::base::read::{mem, seek};
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncSeekExt, BufReader as FBuf, SeekFrom};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Path {
    Mem,
    MemParts,
    Seek,
    SeekBuf,
    SeekTokio,
    SeekTokioBuf,
    SeekParts,
    IntoEntry,
    Fs,
    FsParts,
}

pub const SIM_PATHS: [Path; 8] = [
    Path::Mem,
    Path::MemParts,
    Path::Seek,
    Path::SeekBuf,
    Path::SeekTokio,
    Path::SeekTokioBuf,
    Path::SeekParts,
    Path::IntoEntry,
];

#[derive(Clone, Copy, Debug)]
pub enum How {
    Plain(Style),
    Checked,
    Text,
}

pub struct Dump {
    pub file: Result<(ZipFile, Vec<String>), String>,
    /// Per requested read: the data (complete when true), or the error and what arrived before it.
    pub reads: Vec<Result<(Vec<u8>, bool, Option<u32>), (String, Vec<u8>)>>,
    pub huge_seek: bool,
}

pub type Ops = Vec<(usize, How)>;

pub fn gen_how(text_ok: bool) -> How {
    match weighted(&[4, 4, if text_ok { 2 } else { 0 }]) {
        0 => How::Plain(gen_style()),
        1 => How::Checked,
        _ => How::Text,
    }
}

macro_rules! one_read {
    ($r:expr, $i:expr, $how:expr, $limit:expr) => {{
        let mut out = Vec::new();
        match $how {
            How::Plain(style) => match $r.reader_without_entry($i).await {
                Err(e) => Err((e.to_string(), out)),
                Ok(mut er) => match read_limited(&mut er, style, $limit, &mut out).await {
                    Ok(done) => {
                        let h = if done { Some(er.compute_hash()) } else { None };
                        Ok((out, done, h))
                    }
                    Err(e) => Err((e.to_string(), out)),
                },
            },
            How::Checked => match $r.reader_with_entry($i).await {
                Err(e) => Err((e.to_string(), out)),
                Ok(mut er) => {
                    // What is already in the buffer stays; the entry is appended.
                    let kept = if chance(200) { 1 + draw(40) as usize } else { 0 };
                    out.resize(kept, 0xA5);
                    let res = er.read_to_end_checked(&mut out).await;
                    ensure!(out.len() >= kept && out[..kept].iter().all(|b| *b == 0xA5), "contract", "read_to_end_checked damaged what the buffer held before");
                    let out = out.split_off(kept);
                    match res {
                        Ok(n) => {
                            ensure!(n == out.len(), "contract", "read_to_end_checked reported {n} for {} bytes", out.len());
                            Ok((out, true, None))
                        }
                        Err(e) => Err((e.to_string(), out)),
                    }
                }
            },
            How::Text => match $r.reader_with_entry($i).await {
                Err(e) => Err((e.to_string(), out)),
                Ok(mut er) => {
                    let mut s = String::new();
                    match er.read_to_string_checked(&mut s).await {
                        Ok(n) => {
                            ensure!(n == s.len(), "contract", "read_to_string_checked reported {n} for {} bytes", s.len());
                            ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), "utf8", "read_to_string_checked gave a String that is not valid UTF-8");
                            Ok((s.into_bytes(), true, None))
                        }
                        Err(e) => Err((e.to_string(), out)),
                    }
                }
            },
        }
    }};
}
pub(crate) use one_read;

fn opened(f: &ZipFile) -> Result<(ZipFile, Vec<String>), String> {
    Ok((f.clone(), file_view(f)))
}

macro_rules! all_reads {
    ($r:expr, $ops:expr, $limit:expr, $ctl:expr) => {
        all_reads!($r, $ops, $limit, $ctl, {})
    };
    ($r:expr, $ops:expr, $limit:expr, $ctl:expr, $disturb:block) => {{
        let file = opened($r.file());
        let n = $r.file().entries().len();
        let mut reads = Vec::new();
        for (i, how) in $ops.iter().copied() {
            if chance(40) {
                // There is no such entry.
                let beyond = [n, n + 1, usize::MAX][draw(3) as usize];
                let refused = match draw(2) {
                    0 => matches!($r.reader_without_entry(beyond).await.err(), Some(ZipError::EntryIndexOutOfBounds)),
                    _ => matches!($r.reader_with_entry(beyond).await.err(), Some(ZipError::EntryIndexOutOfBounds)),
                };
                ensure!(refused, "bounds", "entry {beyond} of {n} was not refused as out of bounds");
                probe("out_of_bounds");
            }
            if chance(60) {
                // Another access, given up part-way.
                let scrap: Result<(Vec<u8>, bool, Option<u32>), (String, Vec<u8>)> =
                    one_read!($r, draw(n as u32) as usize, How::Plain(gen_style()), 1 + small(60) as usize);
                drop(scrap);
                probe("given_up_before");
            }
            $disturb
            reads.push(one_read!($r, i, how, $limit));
        }
        Dump { file, reads, huge_seek: $ctl }
    }};
}

/// The same with somebody else moving the source between two accesses.
macro_rules! all_reads_seek {
    ($r:expr, $ops:expr, $limit:expr, $ctl:expr, $len:expr) => {
        all_reads!($r, $ops, $limit, $ctl, {
            if chance(80) {
                probe("source_moved");
                let _ = $r.inner_mut().seek(SeekFrom::Start(draw($len as u32 + 1) as u64)).await;
            }
        })
    };
}

/// A source may be anywhere when it is given to the reader.
async fn start_anywhere(s: &mut SimSource, len: usize) {
    if chance(150) {
        let _ = s.seek(SeekFrom::Start(draw(len as u32 + 1) as u64)).await;
    }
}

fn rebuilt(f: &ZipFile) -> ZipFile {
    if chance(300) {
        let mut b = async_zip::ZipFileBuilder::from(f.clone());
        if chance(300) {
            // Giving a file another comment and back says nothing about its entries.
            let other = b.comment("other".into()).build();
            ensure!(other.comment().as_bytes() == b"other", "builder", "a file built with another comment has {}", brief(other.comment().as_bytes()));
            b = async_zip::ZipFileBuilder::from(other).comment(f.comment().clone());
        }
        b.build()
    } else {
        f.clone()
    }
}

macro_rules! fail {
    ($e:expr, $huge:expr) => {
        return Dump { file: Err($e.to_string()), reads: Vec::new(), huge_seek: $huge }
    };
}

/// Opens `bytes` through `path` and performs the reads. `fs_path` names the
/// scratch file holding the same bytes, for the file-system paths.
pub async fn dump(path: Path, bytes: Rc<Vec<u8>>, cfg: IoCfg, ops: Ops, limit: usize, fs_path: Option<String>) -> Dump {
    trace(|| format!("op dump {path:?} {ops:?}"));
    match path {
        Path::Mem => match mem::ZipFileReader::new((*bytes).clone()).await {
            Err(e) => fail!(e, false),
            Ok(r) => all_reads!(r, ops, limit, false),
        },
        Path::MemParts => match mem::ZipFileReader::new((*bytes).clone()).await {
            Err(e) => fail!(e, false),
            Ok(r0) => {
                let r = mem::ZipFileReader::from_raw_parts((*bytes).clone(), rebuilt(r0.file()));
                ensure!(r.data() == &bytes[..], "view", "data() differs from the bytes given");
                all_reads!(r, ops, limit, false)
            }
        },
        Path::Seek => {
            let (mut s, ctl) = SimSource::new(2, bytes.clone(), cfg);
            start_anywhere(&mut s, bytes.len()).await;
            match seek::ZipFileReader::new(s).await {
                Err(e) => fail!(e, ctl.borrow().huge_seek),
                Ok(mut r) => all_reads_seek!(r, ops, limit, ctl.borrow().huge_seek, bytes.len()),
            }
        }
        Path::SeekBuf => {
            let cap = [1, 7, 64, 1000, 8192][draw(5) as usize];
            let (mut s, ctl) = SimSource::new(2, bytes.clone(), cfg);
            start_anywhere(&mut s, bytes.len()).await;
            match seek::ZipFileReader::new(FBuf::with_capacity(cap, s)).await {
                Err(e) => fail!(e, ctl.borrow().huge_seek),
                Ok(mut r) => all_reads_seek!(r, ops, limit, ctl.borrow().huge_seek, bytes.len()),
            }
        }
        Path::SeekTokio => {
            let (mut s, ctl) = SimSource::new(2, bytes.clone(), cfg);
            start_anywhere(&mut s, bytes.len()).await;
            match seek::ZipFileReader::with_tokio(TokioSource(s)).await {
                Err(e) => fail!(e, ctl.borrow().huge_seek),
                Ok(mut r) => all_reads_seek!(r, ops, limit, ctl.borrow().huge_seek, bytes.len()),
            }
        }
        Path::SeekTokioBuf => {
            let cap = [1, 7, 64, 1000, 8192][draw(5) as usize];
            let (mut s, ctl) = SimSource::new(2, bytes.clone(), cfg);
            start_anywhere(&mut s, bytes.len()).await;
            match seek::ZipFileReader::with_tokio(tokio::io::BufReader::with_capacity(cap, TokioSource(s))).await {
                Err(e) => fail!(e, ctl.borrow().huge_seek),
                Ok(mut r) => all_reads_seek!(r, ops, limit, ctl.borrow().huge_seek, bytes.len()),
            }
        }
        Path::SeekParts => {
            let (mut s, ctl) = SimSource::new(2, bytes.clone(), cfg);
            start_anywhere(&mut s, bytes.len()).await;
            match seek::ZipFileReader::new(s).await {
                Err(e) => fail!(e, ctl.borrow().huge_seek),
                Ok(r0) => {
                    let file = rebuilt(r0.file());
                    let mut r = seek::ZipFileReader::from_raw_parts(r0.into_inner(), file);
                    all_reads_seek!(r, ops, limit, ctl.borrow().huge_seek, bytes.len())
                }
            }
        }
        Path::IntoEntry => {
            let (s, ctl) = SimSource::new(2, bytes.clone(), cfg);
            let r0 = match seek::ZipFileReader::new(s).await {
                Err(e) => fail!(e, ctl.borrow().huge_seek),
                Ok(r) => r,
            };
            let file = opened(r0.file());
            let zf = r0.file().clone();
            drop(r0);
            let mut reads = Vec::new();
            let mut huge = ctl.borrow().huge_seek;
            for (i, how) in ops.iter().copied() {
                let (s, ctl) = SimSource::new(2, bytes.clone(), cfg);
                let mut r = seek::ZipFileReader::from_raw_parts(s, zf.clone());
                // Consumed right away, or after other accesses left the source somewhere else.
                while chance(250) {
                    let j = if chance(400) { i } else { draw(zf.entries().len() as u32) as usize };
                    let mut scrap = Vec::new();
                    let _ = one_read!(r, j, How::Plain(gen_style()), 1 + small(60) as usize).map(|d: (Vec<u8>, bool, Option<u32>)| scrap = d.0);
                    probe("into_entry_after_reads");
                }
                let mut out = Vec::new();
                let crc = zf.entries()[i].crc32();
                let got = match r.into_entry(i).await {
                    Err(e) => Err((e.to_string(), out)),
                    Ok(mut er) => {
                        let (style, limit) = match how {
                            How::Plain(s) => (s, limit),
                            _ => (Style::ToEnd, usize::MAX),
                        };
                        match read_limited(&mut er, style, limit, &mut out).await {
                            Err(e) => Err((e.to_string(), out)),
                            Ok(done) => {
                                let h = if done { Some(er.compute_hash()) } else { None };
                                match how {
                                    How::Plain(_) => Ok((out, done, h)),
                                    // The checked reads, done by hand.
                                    _ if h.is_some() && h != Some(crc) => Err(("crc".into(), out)),
                                    How::Text if std::str::from_utf8(&out).is_err() => Err(("not text".into(), out)),
                                    _ => Ok((out, done, None)),
                                }
                            }
                        }
                    }
                };
                reads.push(got);
                huge |= ctl.borrow().huge_seek;
            }
            Dump { file, reads, huge_seek: huge }
        }
        Path::Fs => match fs::ZipFileReader::new(fs_path.expect("fs path")).await {
            Err(e) => fail!(e, false),
            Ok(r) => all_reads!(r, ops, limit, false),
        },
        Path::FsParts => {
            let p = fs_path.expect("fs path");
            match fs::ZipFileReader::new(&p).await {
                Err(e) => fail!(e, false),
                Ok(r0) => {
                    let r = fs::ZipFileReader::from_raw_parts(&p, r0.file().clone());
                    ensure!(r.path().to_str() == Some(&p[..]), "view", "path() differs from the path given");
                    all_reads!(r, ops, limit, false)
                }
            }
        }
    }
}

/// Runs `dump` in the simulator (with a scratch file when the path needs one).
pub fn run_dump(path: Path, bytes: Rc<Vec<u8>>, cfg: IoCfg, ops: Ops, limit: usize) -> Dump {
    let mut exec = gen_exec();
    if matches!(path, Path::Fs | Path::FsParts) {
        let fsim = crate::fsim::FsSim::new(0);
        let p = fsim.put("a.zip", &bytes);
        exec.external = true;
        exec.spurious = 0;
        let g = fsim.enter();
        let d = sim_run(exec, dump(path, bytes, cfg, ops, limit, Some(p)));
        drop(g);
        drop(fsim);
        d
    } else {
        sim_run(exec, dump(path, bytes, cfg, ops, limit, None))
    }
}

pub fn gen_path(fs_permille: u32) -> Path {
    if fs_permille > 0 && chance(fs_permille) {
        return [Path::Fs, Path::FsParts][draw(2) as usize];
    }
    SIM_PATHS[draw(8) as usize]
}
