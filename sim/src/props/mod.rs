//! One module per property, and the pieces they share.

use crate::core::*;
use crate::ensure;
use crate::io::*;
use crate::model::*;
use crate::refzip::RefArchive;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{StoredZipEntry, StringEncoding, ZipFile, ZipString};
use futures_lite::io::AsyncRead;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;
use tokio_util::compat::Compat;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
pub mod foreign;
pub mod hostile;
pub mod paths;

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(),
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

pub const REAL_W: &[&str] = &["async_zip writers (all of src/base/write, src/spec)", "async-compression and the codec crates"];
pub const REAL_R: &[&str] = &["async_zip readers (all of src/base/read, src/spec, src/tokio)", "async-compression and the codec crates"];
pub const REAL_ALL: &[&str] = &["async_zip readers and writers (the whole crate, public API)", "async-compression and the codec crates"];
pub const STUB_IO: &[&str] = &["the caller's sink and source (simulated, seeded)", "the task executor, wakers and clock (simulated, seeded)"];

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 150000, thorough: 2000000, run: c01::run, rule: "Random archives written through a simulated sink and read back through a random access path over a simulated source.", real: REAL_ALL, stub: STUB_IO },
    Prop { id: "C02", quick: 200000, thorough: 2400000, run: c02::run, rule: "Random archives written through a simulated sink, validated by an independent strict parser, and rewritten on a perfect sink for byte equality.", real: REAL_W, stub: STUB_IO },
    Prop { id: "C03", quick: 240000, thorough: 2400000, run: c03::run, rule: "Histories of entry writes with injected sink errors, zero-length writes, rejected entries, cancellations and dropped streams, then close and full inspection.", real: REAL_ALL, stub: STUB_IO },
    Prop { id: "C04", quick: 350000, thorough: 4000000, run: c04::run, rule: "Random archives written to sinks that fail once at a chosen or random operation, accept zero bytes, or fill up.", real: REAL_W, stub: STUB_IO },
    Prop { id: "C05", quick: 350000, thorough: 4000000, run: c05::run, rule: "Streams with interleaved writes and flushes over a buffering sink, crashed after each flush, and the surviving bytes decoded independently.", real: REAL_W, stub: STUB_IO },
    Prop { id: "C06", quick: 240000, thorough: 2400000, run: c06::run, rule: "Random archives truncated at random and record-aligned points (torn writes), opened through every kind of reader.", real: REAL_ALL, stub: STUB_IO },
    Prop { id: "C07", quick: 260000, thorough: 3000000, run: c07::run, rule: "Histories of opens, partial reads, checked reads, aborted and resumed reads over sources with injected read/seek errors, sticky failures, premature ends and cancellations, then a full re-read once healthy.", real: REAL_R, stub: STUB_IO },
    Prop { id: "C08", quick: 350000, thorough: 3000000, run: c08::run, rule: "Random archives whose stored data, checksums or whole sectors are damaged (flips, zeroes, overwrites, repeated sectors; permanent or transient), read with every form of checked read through every reader.", real: REAL_R, stub: &["the storage (simulated, damaged by the seed)", "the task executor, wakers and clock (simulated, seeded)"] },
    Prop { id: "C09", quick: 350000, thorough: 3000000, run: c09::run, rule: "Archives of this and other writers streamed front to back over a simulated non-seekable source, each entry read, checked, skipped, part-read and skipped, or left early, with the source position compared after every record.", real: REAL_R, stub: STUB_IO },
    Prop { id: "C10", quick: 120000, thorough: 1200000, run: c10::run, rule: "Two to six tasks reading the same and different entries through clones of one in-memory or file-system reader, interleaved by the seeded scheduler, with cancellations and (on the file system) injected open, read and seek errors, short reads and interruptions.", real: REAL_R, stub: &["the task scheduler, wakers and clock (simulated, seeded)", "the file operations of tokio::fs (open, read, seek intercepted at the libc boundary, one at a time, outcomes from the seed)"] },
    Prop { id: "C11", quick: 500000, thorough: 5000000, run: c11::run, rule: "Archives of this and other writers with mutated fields, lost, gained, repeated and spliced bytes, forged end records and noise, opened and read through every reader over a simulated source, with the allocator metered.", real: REAL_R, stub: &["the storage and its contents (simulated, malformed by the seed)", "the task executor, wakers and clock (simulated, seeded)", "the global allocator (metered; memory allocated inside the C codec libraries is not seen)"] },
    Prop { id: "C12", quick: 70000, thorough: 1200000, run: c12::run, rule: "Archives whose entry sizes, claimed sizes, positions, directory position or entry count lie at, around or far above the classic limits, in all ZIP64 modes and write modes, into a sparse sink and back through an independent parser, the seek reader and the streaming reader.", real: REAL_ALL, stub: &["the caller's sink and source (simulated, sparse, seeded)", "the task executor, wakers and clock (simulated, seeded)"] },
    Prop { id: "C13", quick: 150000, thorough: 1600000, run: c13::run, rule: "Chains of up to six copies of archives of this and other writers, each entry by a random write mode from its decoded or raw data, in random ZIP64 modes, reordered, dropped and duplicated, some taken from the streaming reader, through simulated sinks and sources.", real: REAL_ALL, stub: STUB_IO },
    Prop { id: "C14", quick: 300000, thorough: 3000000, run: c14::run, rule: "Archives written, read at random and streamed over I/O that mostly answers Pending, wakes late and only through the waker of the latest poll, with spurious polls, abandoned operations and injected errors; every Pending, I/O step and source position is accounted for.", real: REAL_ALL, stub: STUB_IO },
    Prop { id: "C15", quick: 110000, thorough: 1600000, run: c15::run, rule: "Archives with comments of 0 to 65535 bytes (many holding pieces of or whole record signatures), every alignment to plausible search windows, prefixes, trailing bytes and files without an end record, opened through every path over a simulated source.", real: REAL_R, stub: STUB_IO },
    Prop { id: "C16", quick: 180000, thorough: 1600000, run: c16::run, rule: "Well-formed and damaged archives read through several of the ten access paths, each under its own schedule and order of access, and compared with the in-memory view.", real: REAL_R, stub: STUB_IO },
];

pub fn cleanup() {
    crate::fsim::cleanup();
}

// ---------------------------------------------------------------- running

pub fn sim_run<T: 'static>(cfg: ExecCfg, fut: impl Future<Output = T> + 'static) -> T {
    let slot = Rc::new(RefCell::new(None));
    let s2 = slot.clone();
    run(cfg, async move {
        let v = fut.await;
        *s2.borrow_mut() = Some(v);
    });
    let v = slot.borrow_mut().take();
    v.expect("main task finished")
}

pub fn gen_exec() -> ExecCfg {
    ExecCfg { spurious: [0, 0, 30, 200][draw(4) as usize], ..Default::default() }
}

// ---------------------------------------------------------------- writing

pub async fn write_all_entries<W: futures_lite::io::AsyncWrite + Unpin>(
    zip: &mut ZipFileWriter<W>,
    spec: &ArchiveSpec,
) -> Result<(), ZipError> {
    for e in &spec.entries {
        write_entry(zip, e).await?;
    }
    if let Some(c) = &spec.comment {
        zip.comment(c.clone());
    }
    Ok(())
}

/// Writes the archive through a simulated sink; Ok gives the bytes accepted.
pub fn write_sim(spec: Rc<ArchiveSpec>, cfg: IoCfg, tokio_sink: bool) -> (Result<(), ZipError>, Rc<RefCell<SinkCtl>>) {
    let (sink, ctl) = SimSink::new(1, cfg, false);
    let exec = gen_exec();
    let r = sim_run(exec, async move {
        if tokio_sink {
            let mut w = configure(ZipFileWriter::with_tokio(TokioSink(sink)), spec.z64);
            write_all_entries(&mut w, &spec).await?;
            let back = w.close().await?;
            ensure!(back.into_inner().0.id == 1, "sink", "close returned another sink");
            Ok(())
        } else {
            let mut w = configure(ZipFileWriter::new(sink), spec.z64);
            write_all_entries(&mut w, &spec).await?;
            let back = w.close().await?;
            ensure!(back.id == 1, "sink", "close returned another sink");
            Ok(())
        }
    });
    (r, ctl)
}

/// An archive produced without any perturbation; a refusal is a violation.
pub fn must_write(spec: &ArchiveSpec) -> Vec<u8> {
    match write_plain(spec) {
        Ok(b) => b,
        Err(e) => violation("write", format!("writing a representable archive failed: {e}; {}", describe(spec))),
    }
}

pub fn flushed_deflate(spec: &ArchiveSpec) -> bool {
    spec.entries.iter().any(|e| e.mode == Mode::Stream && e.method == crate::codec::DEFLATE && e.flush > 0)
}

pub fn describe(spec: &ArchiveSpec) -> String {
    let mut s = format!("{} entries, {:?}, comment {:?}", spec.entries.len(), spec.z64, spec.comment.as_ref().map(|c| c.len()));
    for e in spec.entries.iter().take(6) {
        s.push_str("; ");
        s.push_str(&e.describe());
    }
    s
}

// ---------------------------------------------------------------- refusals

/// Does every part of the entry fit the format's 16-bit length fields?
pub fn fits(e: &EntrySpec) -> bool {
    e.name.basic().len() <= 65535 && e.comment.basic().len() <= 65535 && e.extra_len() <= 65535
}

/// Makes one part of the entry too long (or as long as it may be).
pub fn oversize(e: &mut EntrySpec) {
    let len = 65530 + draw(12) as usize;
    match draw(3) {
        0 => e.name = Str::Utf8("n".repeat(len)),
        1 => e.comment = Str::Utf8("c".repeat(len)),
        _ => {
            e.extra = vec![(0xcafe, vec![1; 30000]), (0xcaff, vec![2; len - 30000 - 8 - [0, 28][draw(2) as usize]])];
        }
    }
    e.hints = None;
}

// ---------------------------------------------------------------- independent view of what was written

/// Compares what the independent parser found with what was asked for.
pub fn check_ref(a: &RefArchive, want: &[EntrySpec], comment: Option<&str>) {
    ensure!(a.entries.len() == want.len(), "entries", "{} entries written, the archive lists {}", want.len(), a.entries.len());
    ensure!(a.comment == comment.unwrap_or("").as_bytes(), "comment", "archive comment differs");
    for (i, (r, w)) in a.entries.iter().zip(want).enumerate() {
        let what = format!("entry {i} ({})", w.describe());
        ensure!(r.name == w.name.basic(), "meta", "{what}: recorded name is {}", brief(&r.name));
        ensure!(r.comment == w.comment.basic(), "meta", "{what}: recorded comment is {}", brief(&r.comment));
        if r.flags & 0x800 != 0 {
            ensure!(
                std::str::from_utf8(&r.name).is_ok() && std::str::from_utf8(&r.comment).is_ok(),
                "meta",
                "{what}: flagged UTF-8 but name or comment is not"
            );
        } else {
            // Non-ASCII UTF-8 text needs the Unicode field of the same name to be recognisable.
            for (s, id) in [(&w.name, 0x7075u16), (&w.comment, 0x6375)] {
                if s.is_utf8() && (!s.raw().is_ascii() || s.basic() != s.raw()) && !s.raw().is_empty() {
                    let ok = r.extra.iter().any(|(k, d)| {
                        *k == id && d.len() >= 5 && d[0] == 1
                            && crate::refzip::u32at(d, 1) == crc32fast::hash(s.basic())
                            && &d[5..] == s.raw()
                    });
                    ensure!(ok, "meta", "{what}: no valid Unicode field {id:#x} for a non-ASCII text");
                }
            }
        }
        // Attributes mean something only together with the host they belong to; this crate's are Unix ones.
        ensure!(r.made_by >> 8 == 3, "meta", "{what}: recorded as made on host {}", r.made_by >> 8);
        ensure!(r.method == w.method, "meta", "{what}: recorded method {}", r.method);
        ensure!((r.date, r.time) == packed_date(w.date), "meta", "{what}: recorded date {:#x} {:#x}", r.date, r.time);
        ensure!(r.crc == w.crc(), "meta", "{what}: recorded CRC {:08x}, content has {:08x}", r.crc, w.crc());
        ensure!(r.usize_ == w.data.len() as u64, "meta", "{what}: recorded size {}", r.usize_);
        if let Some(p) = &w.pre {
            ensure!(r.csize == p.len() as u64, "meta", "{what}: recorded compressed size {}", r.csize);
        }
        ensure!(r.iattr == w.iattr && r.eattr == w.eattr_final(), "meta", "{what}: recorded attributes differ");
        for (ex, kind) in [(&r.extra, "directory"), (&r.lextra, "local")] {
            let got: Vec<_> = ex.iter().filter(|e| !matches!(e.0, 1 | 0x6375 | 0x7075)).collect();
            let exp: Vec<_> = w.extra.iter().filter(|e| !matches!(e.0, 1 | 0x6375 | 0x7075)).collect();
            ensure!(got == exp, "extra", "{what}: {kind} extra fields differ from the ones asked for");
        }
    }
}

pub fn parse_or_violate(b: &dyn Blob, holes: bool, decode_max: u64, ctx: &str) -> RefArchive {
    match crate::refzip::parse(b, crate::refzip::Opts { holes, decode_max }) {
        Ok(a) => a,
        Err(e) => violation("structure", format!("{ctx}: not a valid archive: {e}")),
    }
}

/// Reopens (in memory) and reads everything: exactly `want`.
pub fn check_mem(bytes: &Rc<Vec<u8>>, want: &[EntrySpec], comment: Option<&str>, ctx: &str) {
    let r = match block(async_zip::base::read::mem::ZipFileReader::new((**bytes).clone())) {
        Ok(r) => r,
        Err(e) => violation("open", format!("{ctx}: refused: {e}")),
    };
    check_file(r.file(), want, comment, ctx);
    for (i, w) in want.iter().enumerate() {
        let mut v = Vec::new();
        let res = block(async {
            let mut er = r.reader_with_entry(i).await?;
            er.read_to_end_checked(&mut v).await
        });
        if let Err(e) = res {
            violation("read", format!("{ctx}: entry {i} ({}): {e}", w.describe()));
        }
        check_data(&w.data, &v, &format!("{ctx}: entry {i}"));
    }
}

/// Positions and sizes reported for a well-formed archive, against an independent look at its bytes.
pub fn check_layout(f: &ZipFile, b: &[u8], ctx: &str) {
    let Some(w) = crate::refzip::walk(b) else { violation("structure", format!("{ctx}: not a readable archive")) };
    ensure!(f.zip64() == w.z64.is_some(), "layout", "{ctx}: zip64 reported as {}", f.zip64());
    ensure!(f.entries().len() == w.locs.len(), "layout", "{ctx}: {} entries listed of {}", f.entries().len(), w.locs.len());
    for (i, (e, l)) in f.entries().iter().zip(&w.locs).enumerate() {
        let p = l.cd_pos as usize;
        let hs = 30 + crate::refzip::u16at(b, p + 28) as u64 + crate::refzip::u16at(b, p + 30) as u64;
        ensure!(e.header_offset() == l.lfh, "layout", "{ctx}: entry {i} is at {} and reported at {}", l.lfh, e.header_offset());
        ensure!(e.header_size() == hs, "layout", "{ctx}: entry {i} has a header of {hs} bytes, reported as {}", e.header_size());
        ensure!(e.compressed_size() == l.csize, "layout", "{ctx}: entry {i} holds {} bytes, reported as {}", l.csize, e.compressed_size());
    }
}

// ---------------------------------------------------------------- views

fn enc(e: StringEncoding) -> &'static str {
    match e {
        StringEncoding::Utf8 => "utf8",
        StringEncoding::Raw => "raw",
    }
}

pub fn view_str(s: &ZipString) -> String {
    sound(s);
    format!("{:?}/{}/{:?}", s.as_bytes(), enc(s.encoding()), s.alternative())
}

/// Text handed out as `str` must be valid UTF-8, whatever the archive said about it.
pub fn sound(s: &ZipString) {
    if let Ok(t) = s.as_str() {
        ensure!(std::str::from_utf8(t.as_bytes()).is_ok(), "utf8", "text that is not valid UTF-8 is handed out as a str: {}", brief(t.as_bytes()));
    }
    if let Ok(t) = s.clone().into_string() {
        ensure!(std::str::from_utf8(t.as_bytes()).is_ok(), "utf8", "text that is not valid UTF-8 is handed out as a String: {}", brief(t.as_bytes()));
    }
}

/// Everything the directory says about an entry.
pub fn view(e: &StoredZipEntry) -> String {
    format!(
        "name={} comment={} method={} crc={:08x} us={} cs={} date={:?} ia={:x} ea={:x} perm={:?} dir={:?} extra={:?} off={} hsize={}",
        view_str(e.filename()),
        view_str(e.comment()),
        method_of(e),
        e.crc32(),
        e.uncompressed_size(),
        e.compressed_size(),
        e.last_modification_date(),
        e.internal_file_attribute(),
        e.external_file_attribute(),
        e.unix_permissions(),
        e.dir().ok(),
        e.extra_fields(),
        e.header_offset(),
        e.header_size()
    )
}

pub fn file_view(f: &ZipFile) -> Vec<String> {
    let mut v: Vec<String> = f.entries().iter().map(view).collect();
    v.push(format!("comment={} zip64={}", view_str(f.comment()), f.zip64()));
    v
}

/// Reads at most `limit` bytes; Ok(true) when the end was reached.
pub async fn read_limited<R: AsyncRead + Unpin>(
    r: &mut R,
    style: Style,
    limit: usize,
    out: &mut Vec<u8>,
) -> std::io::Result<bool> {
    use futures_lite::io::AsyncReadExt;
    let mut buf = vec![0u8; 8192];
    loop {
        let n = read_some(r, style, &mut buf).await?;
        if n == 0 {
            return Ok(true);
        }
        out.extend_from_slice(&buf[..n]);
        if out.len() >= limit {
            return Ok(false);
        }
    }
}

#[allow(dead_code)]
pub type TokioSrc = Compat<TokioSource>;

// ---------------------------------------------------------------- known findings

const KNOWN: &str = include_str!("../../../known_findings.txt");

fn listed(id: &str) -> Option<&'static str> {
    KNOWN.lines().find(|l| l.starts_with("finding:") && l.contains(&format!("id={id} ")))
}

/// K1, a defect of a dependency: see known_findings.txt.
pub fn known_buferror(err: &str, entry_len: usize) -> bool {
    let hit = err.contains("unexpected BufError") && entry_len > 32768 && listed("K1").is_some();
    if hit {
        probe("known_finding_K1");
    }
    hit
}

/// K5, a defect of a dependency: whether the Zstd frame that starts at `at` claims another
/// content size than the `len` bytes it decodes to piece by piece.
pub fn known_zstd_size(err: &str, bytes: &[u8], header: u64, len: usize) -> bool {
    let claimed = || -> Option<u64> {
        let h = bytes.get(header as usize..)?;
        let n = u16::from_le_bytes(h.get(26..28)?.try_into().unwrap()) as usize;
        let x = u16::from_le_bytes(h.get(28..30)?.try_into().unwrap()) as usize;
        let f = h.get(30 + n + x..)?;
        if f.get(..4)? != [0x28, 0xb5, 0x2f, 0xfd] {
            return None;
        }
        let d = *f.get(4)?;
        let single = d & 0x20 != 0;
        let at = 5 + !single as usize + [0usize, 1, 2, 4][(d & 3) as usize];
        let size = match d >> 6 {
            0 if !single => return None,
            0 => 1,
            k => 1usize << k,
        };
        let mut v = [0u8; 8];
        v[..size].copy_from_slice(f.get(at..at + size)?);
        Some(u64::from_le_bytes(v) + if size == 2 { 256 } else { 0 })
    };
    let claimed = claimed();
    let hit = (err.contains("Data corruption detected") && claimed.is_some_and(|c| c != len as u64)
        || err.contains("too much memory") && claimed.is_some())
        && listed("K5").is_some();
    if hit {
        probe("known_finding_K5");
    }
    hit
}

/// The findings listed for `prop` that still reproduce on this tree.
pub fn known_findings(prop: &str) -> Vec<String> {
    let mut out = Vec::new();
    for l in KNOWN.lines().filter(|l| l.starts_with("finding:")) {
        let mut w = l.split_whitespace().skip(1);
        let (Some(id), Some(props)) = (w.next(), w.next()) else { continue };
        let props = props.trim_start_matches("property=");
        if !props.split(',').any(|p| p == prop) {
            continue;
        }
        let test: fn() -> bool = match id {
            "id=K1" => reproduce_k1,
            "id=K2" => reproduce_k2,
            "id=K3" => reproduce_k3,
            "id=K4" => reproduce_k4,
            "id=K5" => reproduce_k5,
            _ => continue,
        };
        if std::panic::catch_unwind(test).unwrap_or(false) {
            out.push(w.collect::<Vec<_>>().join(" "));
        }
    }
    out
}

fn reproduce_k2() -> bool {
    use crate::codec::{encode, DEFLATE64};
    use crate::refzip::*;
    use async_zip::base::read::stream;
    let mut e = ForeignEntry::bare(b"a");
    e.method = DEFLATE64;
    e.dd = Dd::Sig;
    e.cdata = encode(DEFLATE64, b"", 1);
    let f = Foreign {
        entries: vec![e, ForeignEntry::bare(b"b")],
        comment: vec![],
        zip64_end: false, marks: 0, end_extra: vec![], after_cd: vec![],
        prefix: vec![],
        gaps: vec![],
        cd_order: vec![0, 1],
    };
    let (b, _) = write_foreign(&f);
    block(async {
        let r = stream::ZipFileReader::new(futures_lite::io::Cursor::new(b));
        let Ok(Some(e)) = r.next_with_entry().await else { return false };
        let Ok(r) = e.skip().await else { return true };
        r.next_with_entry().await.is_err()
    })
}

fn reproduce_k5() -> bool {
    use crate::codec::ZSTD;
    use crate::refzip::*;
    use async_zip::base::read::seek;
    use futures_lite::io::{AsyncReadExt, BufReader, Cursor};
    let read = |frame: &[u8], cap: usize| {
        let mut e = ForeignEntry::bare(b"a");
        e.method = ZSTD;
        e.cdata = frame.to_vec();
        let f = Foreign { entries: vec![e], comment: vec![], zip64_end: false, marks: 0, end_extra: vec![], after_cd: vec![], prefix: vec![], gaps: vec![], cd_order: vec![0] };
        let b = write_foreign(&f).0;
        block(async move {
            let mut r = seek::ZipFileReader::new(BufReader::with_capacity(cap, Cursor::new(b))).await.ok()?;
            let mut er = r.reader_without_entry(0).await.ok()?;
            let mut buf = [0; 1000];
            let first = er.read(&mut buf).await;
            Some(first.is_ok())
        })
    };
    // An empty frame that claims to hold five bytes, and 256 bytes that ask for a window of 2 GiB.
    let sized = [0x28, 0xb5, 0x2f, 0xfd, 0x20, 5, 1, 0, 0];
    let window = [0x28, 0xb5, 0x2f, 0xfd, 0x40, 0xa8, 0, 0, 3, 8, 0, b'a'];
    let halves = [(&sized[..], 1), (&sized, 100), (&window, 1), (&window, 100)].map(|(f, c)| read(f, c) == Some(true));
    halves == [true, false, false, true]
}

fn reproduce_k4() -> bool {
    use async_zip::{Compression, ZipEntryBuilder};
    let bytes = block(async {
        let mut w = ZipFileWriter::new(Vec::new());
        let s = w.write_entry_stream(ZipEntryBuilder::new("a".into(), Compression::Stored)).await.ok()?;
        s.close().await.ok()?;
        w.close().await.ok()
    });
    let Some(b) = bytes else { return false };
    match crate::refzip::parse(&b, crate::refzip::Opts { holes: false, decode_max: 0 }) {
        Ok(a) => a.entries[0].lextra.iter().any(|x| x.0 == 1) && a.entries[0].dd_len == 16,
        Err(_) => false,
    }
}

fn reproduce_k3() -> bool {
    use crate::refzip::*;
    let mut e = ForeignEntry::bare(b"a");
    e.extra = vec![(0x5455, vec![1]), (0xcafe, vec![])];
    let f = Foreign { entries: vec![e], comment: vec![], zip64_end: false, marks: 0, end_extra: vec![], after_cd: vec![], prefix: vec![], gaps: vec![], cd_order: vec![0] };
    match block(async_zip::base::read::mem::ZipFileReader::new(write_foreign(&f).0)) {
        Ok(r) => r.file().entries()[0].extra_fields().len() == 1,
        Err(_) => false,
    }
}

fn reproduce_k1() -> bool {
    use async_zip::base::read::seek;
    use async_zip::{Compression, ZipEntryBuilder};
    use futures_lite::io::{AsyncReadExt, BufReader, Cursor};
    block(async {
        let mut out = Vec::new();
        let mut w = ZipFileWriter::new(&mut out);
        let e = ZipEntryBuilder::new("a".into(), Compression::Deflate);
        if w.write_entry_whole(e, &vec![7u8; 65540]).await.is_err() || w.close().await.is_err() {
            return false;
        }
        let Ok(mut r) = seek::ZipFileReader::new(BufReader::with_capacity(1, Cursor::new(out))).await else { return false };
        let Ok(mut er) = r.reader_without_entry(0).await else { return false };
        let mut buf = [0u8; 3];
        loop {
            match er.read(&mut buf).await {
                Ok(0) => return false,
                Ok(_) => {}
                Err(e) => return e.to_string().contains("unexpected BufError"),
            }
        }
    })
}
