//! ZIP64 limits: large sizes, offsets and counts are exact or refused.
//!
//! Large entries are slices of a read-only mapping of zeros (never touched unless an entry is
//! hashed) going to a sparse sink, so archives of many GiB cost next to nothing.
use super::*;
use crate::codec::{DEFLATE, STORED, ZSTD};
use crate::refzip::RefEntry;
use async_zip::base::read::{seek, stream};
use async_zip::ZipEntryBuilder;
use futures_lite::io::{AsyncReadExt, AsyncWriteExt};

const MAX: u64 = 0xFFFF_FFFF;

#[derive(Clone, Debug)]
enum What {
    /// An ordinary small entry.
    Real(Box<EntrySpec>),
    /// Zeros, stored.
    Fill { mode: Mode },
    /// A few compressed bytes said to hold `usize_` bytes.
    Claim { mode: Mode, data: Vec<u8>, method: u16 },
}

#[derive(Clone, Debug)]
struct Ent {
    name: String,
    what: What,
    csize: u64,
    usize_: u64,
    crc: u32,
    comment: String,
    /// Sizes and checksum announced before streaming.
    hint: Option<(u64, u64)>,
}

impl Ent {
    fn describe(&self) -> String {
        match &self.what {
            What::Real(e) => e.describe(),
            What::Fill { mode } => format!("{mode:?} of {:#x} zeros", self.csize),
            What::Claim { mode, data, .. } => format!("{mode:?} of {} bytes said to hold {:#x}, announced {:?}", data.len(), self.usize_, self.hint),
        }
    }
}

/// A value at or around a limit.
fn near(limit: u64) -> u64 {
    match weighted(&[70, 20, 10]) {
        0 => limit - 3 + draw(7) as u64,
        1 => limit + 1 + range(0, 1 << 33),
        _ => limit - range(0, limit >> 4),
    }
}

/// CRC of n zero bytes.
fn zeros_crc(n: u64) -> u32 {
    let mut h = crc32fast::Hasher::new();
    let mut pow = crc32fast::Hasher::new();
    pow.update(&[0]);
    let mut n = n;
    while n > 0 {
        if n & 1 == 1 {
            h.combine(&pow);
        }
        let p = pow.clone();
        pow.combine(&p);
        n >>= 1;
    }
    h.finalize()
}

pub fn run() {
    if chance(1) && chance(800) {
        wide();
    } else if chance(7) {
        many();
    } else {
        big();
    }
}

fn needs64(e: &ZipError) -> bool {
    matches!(e, ZipError::Zip64Needed(_))
}

// ---------------------------------------------------------------- counts

fn many() {
    let n = 65533 + [3, 2, 3, 0, 1, 4, 5][draw(7) as usize] as usize;
    let mut spec = gen_many(n);
    // The entries at the limit are of either kind.
    let all_whole = chance(500);
    for e in spec.entries.iter_mut().rev().take(6) {
        e.mode = [Mode::Whole, Mode::WholePre, Mode::Stream, Mode::StreamPre][draw(if all_whole { 2 } else { 4 }) as usize];
        if matches!(e.mode, Mode::WholePre | Mode::StreamPre) {
            e.pre = Some(e.data.clone());
        }
    }
    spec.z64 = [Z64::Auto, Z64::Never, Z64::Force][weighted(&[4, 5, 1])];
    sample(|| format!("{n} entries, {:?}", spec.z64));
    let z64 = spec.z64;
    let (sink, ctl) = SimSink::new(1, IoCfg::PERFECT, false);
    let kept = sim_run(ExecCfg::default(), async move {
        let mut zip = configure(ZipFileWriter::new(sink), z64);
        let mut kept = Vec::new();
        for (i, e) in spec.entries.into_iter().enumerate() {
            match write_entry(&mut zip, &e).await {
                Ok(()) => kept.push(e),
                Err(x) => {
                    ensure!(z64 == Z64::Never && kept.len() >= 65535, "refused", "entry {i} is refused ({z64:?}): {x}");
                    ensure!(needs64(&x), "refused", "entry {i} of too many is refused with: {x}");
                    probe("count_refused");
                }
            }
        }
        match zip.close().await {
            Ok(_) => {}
            Err(e) => violation("close", format!("closing an archive of {} entries ({z64:?}) fails: {e}", kept.len())),
        }
        kept
    });
    ensure!(z64 != Z64::Never || kept.len() <= 65535, "limit", "{} entries were accepted without ZIP64", kept.len());
    let bytes = Rc::new(sink_bytes(&ctl));
    let a = parse_or_violate(&*bytes, true, 0, "many entries");
    check_ref(&a, &kept, None);
    ensure!(z64 != Z64::Never || !a.zip64, "structure", "ZIP64 records although ZIP64 was disabled");
    let (b, n) = (bytes.clone(), kept.len());
    sim_run(ExecCfg::default(), async move {
        let (s, _) = SimSource::new(2, b, IoCfg::PERFECT);
        let mut r = match seek::ZipFileReader::new(s).await {
            Ok(r) => r,
            Err(e) => violation("open", format!("an archive of {n} entries is refused: {e}")),
        };
        check_file(r.file(), &kept, None, "many entries");
        for i in [0, n - 1, n - 2, draw(n as u32) as usize] {
            let mut v = Vec::new();
            let res = match r.reader_with_entry(i).await {
                Ok(mut e) => e.read_to_end_checked(&mut v).await.map(|_| ()),
                Err(e) => Err(e),
            };
            if let Err(e) = res {
                violation("read", format!("entry {i} of {n}: {e}"));
            }
            check_data(&kept[i].data, &v, &format!("entry {i} of {n}"));
        }
    });
    probe("many");
}

// ---------------------------------------------------------------- directory size

/// A directory of about 4 GiB: as many entries as the classic format counts (or a few more),
/// nearly all with a comment of nearly the largest length. The comments are zeros which nobody
/// writes to, and the sink keeps them as one run each, so they exist only as address space.
fn wide() {
    let z64 = [Z64::Auto, Z64::Never, Z64::Force][weighted(&[5, 4, 1])];
    let n = 65535 + [0, 0, 0, 2][draw(4) as usize] as u64;
    let target = near(MAX).min(n * (46 + 5 + 65535));
    // The comments' lengths, so that the directory takes exactly `target` bytes.
    let body = target - n * (46 + 5);
    let (each, extra) = (body / n, body % n);
    sample(|| format!("{n} entries with a directory of {target:#x} bytes, {z64:?}"));
    let (sink, ctl) = SimSink::new(1, IoCfg::PERFECT, true);
    let (c2, names) = (ctl.clone(), |i: u64| format!("{i:05}"));
    let untouched = crate::alloc::Untouched::new();
    let (kept, closed) = sim_run(ExecCfg::default(), async move {
        let mut zip = configure(ZipFileWriter::new(sink), z64);
        let mut kept = Vec::new();
        for i in 0..n {
            let at = c2.borrow().data.len();
            let comment = untouched.zeros((each + (i < extra) as u64) as usize);
            let b = ZipEntryBuilder::new(names(i % 100_000).into(), compression(STORED))
                .comment(async_zip::ZipString::new(comment, async_zip::StringEncoding::Utf8));
            match zip.write_entry_whole(b, b"").await {
                Ok(()) => kept.push(at),
                Err(x) => ensure!(z64 == Z64::Never && i >= 65535 && needs64(&x), "refused", "entry {i} is refused ({z64:?}): {x}"),
            }
        }
        let cd = c2.borrow().data.len();
        let all = kept.len() as u64 == n;
        let closed = match zip.close().await {
            Ok(_) => true,
            Err(x) => {
                ensure!(z64 == Z64::Never && (target >= MAX || !all) && needs64(&x), "close", "closing with a directory of {target:#x} bytes ({z64:?}) fails: {x}");
                probe("wide_refused");
                false
            }
        };
        ((kept, cd), closed)
    });
    if !closed {
        return;
    }
    let (kept, cd) = kept;
    let c = ctl.borrow();
    let data: &dyn Blob = match &c.data {
        SinkData::Sparse(s) => s,
        _ => unreachable!(),
    };
    // Walk the directory, without reading the comments.
    let ctx = format!("{} entries, {z64:?}", kept.len());
    let at = |off: u64, n: usize| {
        let mut b = vec![0; n];
        let mut got = 0;
        while got < n {
            match data.read_at(off + got as u64, &mut b[got..]) {
                0 => violation("structure", format!("the archive ends at {:#x}, within a record at {off:#x}; {ctx}", off + got as u64)),
                k => got += k,
            }
        }
        b
    };
    let num = |b: &[u8], o: usize, n: usize| b[o..o + n].iter().rev().fold(0u64, |v, x| v << 8 | *x as u64);
    let mut o = cd;
    for (i, lfh) in kept.iter().enumerate() {
        let b = at(o, 51);
        ensure!(b[..4] == *b"PK\x01\x02", "structure", "no directory record for entry {i} at {o:#x}; {ctx}");
        ensure!(num(&b, 42, 4) == *lfh && b[46..51] == *names(i as u64 % 100_000).as_bytes(), "exact", "the record of entry {i} is another's; {ctx}");
        o += 46 + num(&b, 28, 2) + num(&b, 30, 2) + num(&b, 32, 2);
    }
    let (size, len) = (o - cd, data.len());
    let e = at(len - 22, 22);
    ensure!(e[..6] == *b"PK\x05\x06\0\0" && e[20..] == [0, 0], "structure", "no end record at the end; {ctx}");
    let l = at(len - 42, 20);
    let zip64 = l[..4] == *b"PK\x06\x07";
    ensure!(z64 != Z64::Never || !zip64, "structure", "ZIP64 records although ZIP64 was disabled");
    let mut got = (num(&e, 10, 2), num(&e, 12, 4), num(&e, 16, 4));
    if zip64 {
        let z = at(num(&l, 8, 8), 56);
        ensure!(z[..4] == *b"PK\x06\x06" && num(&l, 8, 8) == o && o + 56 + 42 == len, "structure", "the ZIP64 end record is not between the directory and the locator; {ctx}");
        let full = (num(&z, 32, 8), num(&z, 40, 8), num(&z, 48, 8));
        let classic = |c: u64, f: u64, max: u64| c == f || c == max && f >= max;
        ensure!(classic(got.0, full.0, 0xFFFF) && classic(got.1, full.1, MAX) && classic(got.2, full.2, MAX), "exact", "end records disagree: {got:x?} and {full:x?}; {ctx}");
        got = full;
    } else {
        ensure!(o + 22 == len, "structure", "{:#x} bytes between directory and end record; {ctx}", len - 22 - o);
    }
    ensure!(got == (kept.len() as u64, size, cd), "exact", "count, size and position of the directory are recorded as {got:x?}, but are {:x?}; {ctx}", (kept.len(), size, cd));
    probe("wide");
    if size > MAX {
        probe("wide_zip64");
    }
}

// ---------------------------------------------------------------- sizes and offsets

fn gen_ent(k: u64, at: u64) -> Ent {
    let name = format!("{k}{}", "n".repeat(draw(20) as usize));
    let comment = "c".repeat(draw(4) as usize);
    let fill = |len: u64, mode: Mode, name: String, comment: String| Ent {
        name,
        comment,
        csize: len,
        usize_: len,
        crc: zeros_crc(len),
        what: What::Fill { mode },
        hint: None,
    };
    match weighted(&[30, 25, 20, 25]) {
        0 => {
            let mut e = gen_entry(&GenCfg { max_data: 200, max_str: 30, methods: FAST_METHODS, extras: 100, ..GenCfg::DEFAULT });
            e.name = Str::Utf8(name.clone());
            e.hints = None;
            let (c, u) = (e.pre.as_ref().map(|p| p.len()).unwrap_or(0) as u64, e.data.len() as u64);
            Ent { name, comment: String::new(), csize: c, usize_: u, crc: e.crc(), what: What::Real(Box::new(e)), hint: None }
        }
        1 => {
            // Bring what follows to the limit: the next record, or the directory.
            let target = near(MAX);
            let head = 30 + name.len() as u64;
            let len = target.saturating_sub(at + head);
            if len == 0 {
                return fill(range(0, 1 << 33), Mode::WholePre, name, comment);
            }
            fill(len, Mode::WholePre, name, comment)
        }
        2 => {
            // Hashing 4 GiB takes its time.
            let mode = if chance(4) { [Mode::StreamPre, Mode::Stream, Mode::Whole][draw(3) as usize] } else { Mode::WholePre };
            fill(near(MAX), mode, name, comment)
        }
        _ => {
            let mode = [Mode::WholePre, Mode::StreamPre][draw(2) as usize];
            let usize_ = if chance(800) { near(MAX) } else { (seed32() as u64) << 31 | seed32() as u64 };
            let method = [DEFLATE, ZSTD, STORED][weighted(&[4, 2, 1])];
            let data = vec![0x5A; 1 + draw(50) as usize];
            let hint = if mode == Mode::StreamPre && chance(300) { Some((near(MAX), usize_)) } else { None };
            Ent { name, comment, csize: data.len() as u64, usize_, crc: seed32(), what: What::Claim { mode, data, method }, hint }
        }
    }
}

async fn put<W: futures_lite::io::AsyncWrite + Unpin>(zip: &mut ZipFileWriter<W>, e: &Ent) -> Result<(), ZipError> {
    let (mode, data, method): (Mode, &[u8], u16) = match &e.what {
        What::Real(e) => return write_entry(zip, e).await,
        What::Fill { mode } => (*mode, zeros(e.csize), STORED),
        What::Claim { mode, data, method } => (*mode, data, *method),
    };
    let mut b = ZipEntryBuilder::new(e.name.clone().into(), compression(method)).comment(e.comment.clone().into());
    if matches!(mode, Mode::WholePre | Mode::StreamPre) {
        b = b.crc32(e.crc).uncompressed_size(e.usize_);
    }
    if let Some((c, u)) = e.hint {
        b = b.compressed_size(c).uncompressed_size(u);
    }
    match mode {
        Mode::Whole => zip.write_entry_whole(b, data).await,
        Mode::WholePre => zip.write_entry_whole_precompressed(b, data).await,
        Mode::Stream => {
            let mut s = zip.write_entry_stream(b).await?;
            s.write_all(data).await?;
            s.close().await
        }
        Mode::StreamPre => {
            let mut s = zip.write_entry_stream_precompressed(b).await?;
            s.write_all(data).await?;
            s.close().await
        }
    }
}

/// Writes entries until the case is complete: those accepted with their positions, and whether
/// any was refused.
async fn fill<W: futures_lite::io::AsyncWrite + Unpin>(
    mut zip: ZipFileWriter<W>,
    z64: Z64,
    ctl: Rc<RefCell<SinkCtl>>,
) -> (Vec<(Ent, u64)>, bool, bool) {
    let n = 1 + small(6) as u64;
    let mut kept = Vec::new();
    let mut refused = false;
    let never = z64 == Z64::Never;
    for k in 0..n {
        let at = ctl.borrow().data.len();
        let e = gen_ent(k, at);
        trace(|| format!("op write at {at:#x}: {}", e.describe()));
        let r = put(&mut zip, &e).await;
        let size = e.csize.max(e.usize_).max(e.hint.map(|h| h.0.max(h.1)).unwrap_or(0));
        match r {
            Ok(()) => {
                let size = e.csize.max(e.usize_);
                ensure!(!never || (size <= MAX && at <= MAX), "limit", "{} at {at:#x} is accepted without ZIP64", e.describe());
                trace(|| "op ok".into());
                kept.push((e, at));
            }
            Err(x) => {
                trace(|| format!("op refused: {x}"));
                ensure!(never, "refused", "{} at {at:#x} is refused ({z64:?}): {x}", e.describe());
                ensure!(needs64(&x), "refused", "{} at {at:#x} is refused with: {x}", e.describe());
                ensure!(size >= MAX || at >= MAX, "refused", "{} at {at:#x} needs no ZIP64, but: {x}", e.describe());
                refused = true;
                probe("refused");
            }
        }
    }
    let cd = ctl.borrow().data.len();
    if cd.abs_diff(MAX) < 4 {
        probe("directory_at_limit");
    }
    let closed = match zip.close().await {
        Ok(_) => {
            ensure!(!never || cd <= MAX, "limit", "a directory at {cd:#x} is accepted without ZIP64");
            true
        }
        Err(x) => {
            ensure!(never && cd >= MAX && needs64(&x), "close", "closing with the directory at {cd:#x} ({z64:?}) fails: {x}");
            probe("close_refused");
            false
        }
    };
    (kept, refused, closed)
}

/// The archive from some offset on.
struct From(Rc<Sparse>, u64);
impl Blob for From {
    fn len(&self) -> u64 {
        Blob::len(&*self.0) - self.1
    }
    fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        self.0.read_at(off + self.1, buf)
    }
}

fn big() {
    let z64 = [Z64::Auto, Z64::Never, Z64::Force][weighted(&[5, 4, 1])];
    let mut cfg = IoCfg::gen_benign();
    cfg.pend = cfg.pend.min(500);
    let tok = chance(300);
    let (sink, ctl) = SimSink::new(1, cfg, true);
    let c2 = ctl.clone();
    let (kept, refused, closed) = sim_run(gen_exec(), async move {
        if tok {
            fill(configure(ZipFileWriter::with_tokio(TokioSink(sink)), z64), z64, c2).await
        } else {
            fill(configure(ZipFileWriter::new(sink), z64), z64, c2).await
        }
    });
    sample(|| format!("{z64:?}: {}", kept.iter().map(|(e, at)| format!("{at:#x} {}", e.describe())).collect::<Vec<_>>().join("; ")));
    if !closed {
        return;
    }
    let data = match std::mem::replace(&mut ctl.borrow_mut().data, SinkData::Dense(Vec::new())) {
        SinkData::Sparse(s) => Rc::new(s),
        _ => unreachable!(),
    };
    let ctx = format!("{z64:?}: {}", kept.iter().map(|(e, at)| format!("{at:#x} {}", e.describe())).collect::<Vec<_>>().join("; "));
    let a = parse_or_violate(&*data, refused, 0, &ctx);
    ensure!(a.entries.len() == kept.len(), "entries", "{} entries accepted, {} listed; {ctx}", kept.len(), a.entries.len());
    let mut z = false;
    for ((e, at), r) in kept.iter().zip(&a.entries) {
        let d = e.describe();
        ensure!(r.name == e.name.as_bytes(), "meta", "{d}: name is {}", brief(&r.name));
        ensure!(r.lfh == *at, "exact", "{d}: written at {at:#x}, recorded at {:#x}", r.lfh);
        ensure!(r.usize_ == e.usize_, "exact", "{d}: recorded size {:#x}; {ctx}", r.usize_);
        ensure!(e.csize == r.csize || matches!(e.what, What::Real(_)), "exact", "{d}: recorded compressed size {:#x}", r.csize);
        ensure!(r.crc == e.crc, "exact", "{d}: recorded CRC differs");
        z |= r.extra.iter().chain(&r.lextra).any(|x| x.0 == 1);
    }
    ensure!(z64 != Z64::Never || (!z && !a.zip64), "structure", "ZIP64 structures although ZIP64 was disabled");
    if z {
        probe("zip64_entry");
    }
    if a.cd_off > MAX {
        probe("zip64_directory");
    }
    let mut cfg = IoCfg::gen_benign();
    cfg.pend = cfg.pend.min(300);
    let refs = a.entries;
    sim_run(gen_exec(), read_back(data, kept, refs, cfg, ctx));
}

async fn read_back(data: Rc<Sparse>, kept: Vec<(Ent, u64)>, refs: Vec<RefEntry>, cfg: IoCfg, ctx: String) {
    let (s, _) = SimSource::new(2, data.clone(), cfg);
    let mut r = match seek::ZipFileReader::new(s).await {
        Ok(r) => r,
        Err(e) => violation("open", format!("the archive is refused: {e}; {ctx}")),
    };
    let stored = r.file().entries().to_vec();
    ensure!(stored.len() == kept.len(), "entries", "{} entries written, {} read back; {ctx}", kept.len(), stored.len());
    for (i, ((e, at), g)) in kept.iter().zip(&stored).enumerate() {
        let d = format!("entry {i} ({}) at {at:#x}", e.describe());
        ensure!(g.filename().as_bytes() == e.name.as_bytes(), "meta", "{d}: read back under another name");
        ensure!(g.uncompressed_size() == e.usize_, "exact", "{d}: size read back as {:#x}; {ctx}", g.uncompressed_size());
        ensure!(g.compressed_size() == refs[i].csize, "exact", "{d}: compressed size read back as {:#x}; {ctx}", g.compressed_size());
        ensure!(g.crc32() == e.crc, "exact", "{d}: CRC read back differs");
        match &e.what {
            What::Real(s) => {
                let mut v = Vec::new();
                let res = match r.reader_with_entry(i).await {
                    Ok(mut x) => x.read_to_end_checked(&mut v).await.map(|_| ()),
                    Err(x) => Err(x),
                };
                if let Err(x) = res {
                    violation("read", format!("{d}: {x}; {ctx}"));
                }
                check_data(&s.data, &v, &d);
            }
            What::Fill { mode } => {
                let all = chance(2) && cfg.pend == 0 && cfg.chunk == Chunk::Full;
                let mut x = match r.reader_without_entry(i).await {
                    Ok(x) => x,
                    Err(x) => violation("read", format!("{d}: {x}; {ctx}")),
                };
                let want = if all { e.csize } else { e.csize.min(1 + range(0, if chance(100) { 20000 } else { 600 })) };
                let mut buf = vec![0u8; 65536];
                let mut got = 0u64;
                while got < want {
                    let n = buf.len().min((want - got) as usize);
                    match x.read(&mut buf[..n]).await {
                        Ok(0) => violation("data", format!("{d}: ends after {got:#x} bytes; {ctx}")),
                        Ok(n) => {
                            ensure!(buf[..n].iter().all(|b| *b == 0), "data", "{d}: other bytes than written after {got:#x}");
                            got += n as u64;
                        }
                        Err(x) => violation("read", format!("{d}: {x}; {ctx}")),
                    }
                }
                if want == e.csize {
                    let n = x.read(&mut buf).await;
                    ensure!(matches!(n, Ok(0)), "data", "{d}: continues after its end: {n:?}");
                    ensure!(x.compute_hash() == e.crc, "hash", "{d}: compute_hash differs");
                    if all {
                        probe("read_gigabytes");
                    }
                }
                let _ = mode;
            }
            What::Claim { .. } => {
                if let Err(x) = r.reader_without_entry(i).await {
                    violation("read", format!("{d}: {x}; {ctx}"));
                }
            }
        }
        // The streaming reader's view of the local header.
        if refs[i].flags & 8 == 0 {
            let (s, _) = SimSource::new(3, Rc::new(From(data.clone(), *at)), cfg);
            match stream::ZipFileReader::new(s).next_with_entry().await {
                Ok(Some(x)) => {
                    let g = x.reader().entry();
                    ensure!(
                        (g.uncompressed_size(), g.compressed_size(), g.crc32()) == (e.usize_, refs[i].csize, e.crc),
                        "exact",
                        "{d}: streamed with sizes {:#x} and {:#x}; {ctx}",
                        g.uncompressed_size(),
                        g.compressed_size()
                    );
                }
                Ok(None) => violation("read", format!("{d}: not found by the streaming reader")),
                Err(x) => violation("read", format!("{d}: streaming: {x}; {ctx}")),
            }
        }
    }
    probe("read_back");
}
