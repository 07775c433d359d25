//! Copying entries between archives preserves them over any generations.
use super::foreign::*;
use super::paths::*;
use super::*;
use crate::codec::{DEFLATE64, STORED};
use crate::refzip::*;
use async_zip::base::read::stream;
use async_zip::{ZipEntry, ZipEntryBuilder};
use futures_lite::io::{AsyncReadExt, AsyncWriteExt};

type Raw = Vec<(u16, Vec<u8>)>;

/// What must survive every copy.
#[derive(Clone, PartialEq)]
struct Keep {
    name: (Vec<u8>, bool, Vec<u8>),
    comment: (Vec<u8>, bool, Vec<u8>),
    method: u16,
    date: (u16, u16),
    attrs: (u16, u32),
    crc: u32,
    size: u64,
    unknown: Raw,
}

fn text(s: &ZipString) -> (Vec<u8>, bool, Vec<u8>) {
    (s.as_bytes().to_vec(), matches!(s.encoding(), StringEncoding::Utf8), s.alternative().unwrap_or(s.as_bytes()).to_vec())
}

fn expect(s: &Str) -> (Vec<u8>, bool, Vec<u8>) {
    (s.raw().to_vec(), s.is_utf8() || s.raw().is_ascii(), s.basic().to_vec())
}

fn packed(e: &ZipEntry) -> (u16, u16) {
    let d = e.last_modification_date();
    (
        ((d.year() - 1980) as u16) << 9 | (d.month() as u16) << 5 | d.day() as u16,
        (d.hour() as u16) << 11 | (d.minute() as u16) << 5 | (d.second() / 2) as u16,
    )
}

fn unknown(x: &Raw) -> Raw {
    x.iter().filter(|e| !matches!(e.0, 1 | 0x6375 | 0x7075)).cloned().collect()
}

fn count(x: &Raw, id: u16) -> usize {
    x.iter().filter(|e| e.0 == id).count()
}

/// The central directory's extra fields, found independently.
fn raw_extras(b: &[u8], w: &Walk) -> Vec<Raw> {
    w.locs
        .iter()
        .map(|l| {
            let p = l.cd_pos as usize;
            let (nl, el) = (u16at(b, p + 28) as usize, u16at(b, p + 30) as usize);
            parse_extra(&b[p + 46 + nl..p + 46 + nl + el], "").unwrap_or_default()
        })
        .collect()
}

fn keep(e: &ZipEntry, extra: &Raw) -> Keep {
    Keep {
        name: text(e.filename()),
        comment: text(e.comment()),
        method: method_of(e),
        date: packed(e),
        attrs: (e.internal_file_attribute(), e.external_file_attribute()),
        crc: e.crc32(),
        size: e.uncompressed_size(),
        unknown: unknown(extra),
    }
}

fn compare(want: &Keep, got: &Keep, what: &str) {
    ensure!(want.name == got.name, "name", "{what}: name {:?} became {:?}", show(&want.name), show(&got.name));
    ensure!(want.comment == got.comment, "comment", "{what}: comment {:?} became {:?}", show(&want.comment), show(&got.comment));
    ensure!(want.method == got.method, "meta", "{what}: method {} became {}", want.method, got.method);
    ensure!(want.date == got.date, "meta", "{what}: date {:x?} became {:x?}", want.date, got.date);
    ensure!(want.attrs == got.attrs, "meta", "{what}: attributes {:x?} became {:x?}", want.attrs, got.attrs);
    ensure!(want.crc == got.crc && want.size == got.size, "meta", "{what}: CRC or size changed");
    ensure!(want.unknown == got.unknown, "extra", "{what}: unknown extra fields {:?} became {:?}", ids(&want.unknown), ids(&got.unknown));
}

fn show(t: &(Vec<u8>, bool, Vec<u8>)) -> String {
    format!("{} utf8={} stored as {}", brief(&t.0), t.1, brief(&t.2))
}
fn ids(x: &Raw) -> Vec<(String, usize)> {
    x.iter().map(|e| (format!("{:#x}", e.0), e.1.len())).collect()
}

/// A copy of the description, by one of the ways a caller has.
fn describe_again(e: &ZipEntry) -> ZipEntry {
    match draw(3) {
        0 => e.clone(),
        1 => ZipEntryBuilder::from(e.clone()).build(),
        _ => {
            // Field by field through the public getters.
            let mut b = ZipEntryBuilder::new(e.filename().clone(), e.compression())
                .comment(e.comment().clone())
                .last_modification_date(*e.last_modification_date())
                .internal_file_attribute(e.internal_file_attribute())
                .external_file_attribute(e.external_file_attribute())
                .extra_fields(e.extra_fields().to_vec());
            b = b.crc32(e.crc32()).uncompressed_size(e.uncompressed_size());
            b.build()
        }
    }
}

async fn put<W: futures_lite::io::AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, e: ZipEntry, mode: Mode, data: &[u8], raw: &[u8], chunk: usize) -> Result<(), ZipError> {
    match mode {
        Mode::Whole => w.write_entry_whole(e, data).await,
        Mode::WholePre => w.write_entry_whole_precompressed(e, raw).await,
        Mode::Stream => {
            let mut s = w.write_entry_stream(e).await?;
            for c in data.chunks(chunk) {
                s.write_all(c).await?;
            }
            s.close().await
        }
        Mode::StreamPre => {
            let mut s = w.write_entry_stream_precompressed(e).await?;
            for c in raw.chunks(chunk) {
                s.write_all(c).await?;
            }
            s.close().await
        }
    }
}

struct Item {
    entry: ZipEntry,
    mode: Mode,
    data: Rc<Vec<u8>>,
    raw: Vec<u8>,
    chunk: usize,
}

fn write_items(items: Vec<Item>, z64: Z64, what: &str) -> Vec<u8> {
    let (sink, ctl) = SimSink::new(1, IoCfg::gen_benign(), false);
    let r: Result<(), ZipError> = sim_run(gen_exec(), async move {
        let mut w = configure(ZipFileWriter::new(sink), z64);
        for it in items {
            put(&mut w, it.entry, it.mode, &it.data, &it.raw, it.chunk).await?;
        }
        w.close().await?;
        Ok(())
    });
    if let Err(e) = r {
        violation("write", format!("{what}: copying was refused: {e}"));
    }
    sink_bytes(&ctl)
}

fn gen_mode(method: u16) -> Mode {
    let all = [Mode::Whole, Mode::Stream, Mode::WholePre, Mode::StreamPre];
    if method == DEFLATE64 {
        // There is no Deflate64 encoder.
        all[2 + draw(2) as usize]
    } else {
        all[draw(4) as usize]
    }
}

pub fn run() {
    let foreign = chance(550);
    let (mut bytes, data, what) = if foreign {
        let s = gen_foreign(&FCfg { max_data: 2500, max_entries: 4, z64: 400, odd_unicode: 350, room: 0, ..FOREIGN });
        let (b, _) = write_foreign(&s.f);
        let d: Vec<Rc<Vec<u8>>> = s.f.cd_order.iter().map(|k| s.data[*k].clone()).collect();
        let what = describe_foreign(&s);
        (b, d, what)
    } else {
        let spec = gen_archive(&GenCfg { max_data: 2500, max_str: 200, fancy: 500, extras: 500, ..GenCfg::DEFAULT }, 4);
        (must_write(&spec), spec.entries.iter().map(|e| e.data.clone()).collect(), describe(&spec))
    };
    trace(|| what.clone());
    sample(|| what.clone());
    let mut base: Vec<Keep> = Vec::new();
    let mut unicode: Vec<(usize, usize)> = Vec::new();
    let mut data = data;
    let generations = 1 + small(5);
    let mut history = String::new();
    for g in 0..=generations {
        let w = match walk(&bytes) {
            Some(w) => w,
            None => violation("structure", format!("generation {g}{history}: not an archive; {what}")),
        };
        let raw = raw_extras(&bytes, &w);
        let n = data.len();
        // Read the generation.
        let path = gen_path(8);
        let ops: Ops = (0..n).map(|i| (i, How::Checked)).collect();
        let cfg = if chance(500) { IoCfg::PERFECT } else { IoCfg::gen_benign() };
        let d = run_dump(path, Rc::new(bytes.clone()), cfg, ops, usize::MAX);
        let file = match d.file {
            Ok((f, _)) => f,
            Err(e) => violation("open", format!("generation {g}{history}: refused: {e}; {what}")),
        };
        ensure!(file.entries().len() == n, "entries", "generation {g}{history}: {} entries of {n}; {what}", file.entries().len());
        for (i, r) in d.reads.iter().enumerate() {
            match r {
                Ok((got, _, _)) => check_data(&data[i], got, &format!("generation {g}{history}, entry {i}")),
                Err((e, _)) if known_buferror(e, data[i].len()) => return,
                Err((e, _)) => violation("read", format!("generation {g}{history}, entry {i}: {e}; {what}")),
            }
        }
        if g == 0 {
            base = file.entries().iter().zip(&raw).map(|(e, x)| keep(e, x)).collect();
            unicode = raw.iter().map(|x| (count(x, 0x7075), count(x, 0x6375))).collect();
        } else {
            let a = parse_or_violate(&bytes, false, u64::MAX, &format!("generation {g}{history} of {what}"));
            for (i, e) in file.entries().iter().enumerate() {
                let at = format!("generation {g}{history}, entry {i} ({what})");
                compare(&base[i], &keep(e, &raw[i]), &at);
                let r = &a.entries[i];
                ensure!(unknown(&r.lextra) == base[i].unknown, "extra", "{at}: local extra fields differ: {:?}", ids(&r.lextra));
                for (x, kind) in [(&r.extra, "directory"), (&r.lextra, "local")] {
                    ensure!(
                        count(x, 0x7075) <= unicode[i].0.max(1) + 1 && count(x, 0x6375) <= unicode[i].1.max(1) + 1,
                        "growth",
                        "{at}: {kind} Unicode fields multiply: {:?}",
                        ids(x)
                    );
                }
            }
        }
        if g == generations {
            break;
        }
        if g > 0 && chance(150) && stream_copy(&bytes, &base, &data, &what) {
            return;
        }
        // Copy it.
        let z64 = [Z64::Auto, Z64::Force, Z64::Never][weighted(&[50, 20, 30])];
        let mut order: Vec<usize> = (0..n).collect();
        if n > 1 && chance(250) {
            // Reorder, drop or duplicate.
            match draw(3) {
                0 => order.swap(0, n - 1),
                1 => {
                    order.remove(draw(n as u32) as usize);
                }
                _ => order.push(draw(n as u32) as usize),
            }
        }
        let mut next: Vec<Keep> = Vec::new();
        let items: Vec<Item> = order
            .iter()
            .map(|&i| {
                let l = w.locs[i];
                let mode = gen_mode(l.method);
                history.push_str(&format!(" {mode:?}"));
                let mut entry = describe_again(&file.entries()[i]);
                let mut k = base[i].clone();
                // (A very long text leaves no room for the Unicode field another one may need.)
                let room = k.name.0.len() + k.comment.0.len() < 30_000;
                let rename = (room && chance(150)).then(|| Str::gen(60, true, 700));
                let recomment = (room && chance(80)).then(|| Str::gen(60, true, 700));
                if rename.is_some() || recomment.is_some() {
                    // A field left over that gives an empty or a raw text another form
                    // contradicts the text the entry itself is given; what a changed copy
                    // makes of that is not specified.
                    let contradicts = |x: &str| {
                        [&rename, &recomment].into_iter().flatten().any(|s| match s {
                            Str::Raw(v) => x.contains(&format!("V1 {{ crc32: {},", crc32fast::hash(v))),
                            _ => false,
                        }) || x.contains("V1 { crc32: 0,")
                    };
                    let keepers = entry.extra_fields().iter().filter(|x| !contradicts(&format!("{x:?}"))).cloned().collect();
                    entry = ZipEntryBuilder::from(entry).extra_fields(keepers).build();
                }
                if let Some(s) = rename {
                    // The copy gets another name.
                    entry = ZipEntryBuilder::from(entry).filename(s.zip()).build();
                    k.name = expect(&s);
                    history.push_str("(renamed)");
                }
                if let Some(s) = recomment {
                    entry = ZipEntryBuilder::from(entry).comment(s.zip()).build();
                    k.comment = expect(&s);
                    history.push_str("(recommented)");
                }
                next.push(k);
                Item {
                    entry,
                    mode,
                    data: data[i].clone(),
                    raw: bytes[l.data as usize..(l.data + l.csize) as usize].to_vec(),
                    chunk: 1 + range(0, 3000) as usize,
                }
            })
            .collect();
        history.push_str(&format!(" {z64:?};"));
        let at = format!("generation {}{history} of {what}", g + 1);
        bytes = write_items(items, z64, &at);
        data = order.iter().map(|i| data[*i].clone()).collect();
        base = next;
        unicode = order.iter().map(|i| unicode[*i]).collect();
        probe("copied");
    }
}

/// The last copy, of entries as the streaming reader describes them (no comment,
/// no attributes: those are only in the directory).
fn stream_copy(bytes: &[u8], base: &[Keep], data: &[Rc<Vec<u8>>], what: &str) -> bool {
    let w = walk(bytes).expect("an archive");
    if w.locs.iter().any(|l| l.dd && (l.method == STORED || l.method == DEFLATE64)) || w.locs.is_empty() {
        return false;
    }
    let (src, _) = SimSource::new(2, Rc::new(bytes.to_vec()), IoCfg::gen_benign());
    type Got = Vec<(ZipEntry, Vec<u8>)>;
    let got: Result<Got, ZipError> = sim_run(gen_exec(), async move {
        let mut out = Vec::new();
        let mut r = stream::ZipFileReader::new(src);
        while let Some(mut e) = r.next_with_entry().await? {
            let entry = e.reader().entry().clone();
            let mut v = Vec::new();
            e.reader_mut().read_to_end(&mut v).await.map_err(ZipError::UpstreamReadError)?;
            out.push((entry, v));
            r = e.done().await?;
        }
        Ok(out)
    });
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            if data.iter().any(|d| known_buferror(&e.to_string(), d.len())) {
                return true;
            }
            violation("stream", format!("streaming a copied archive failed: {e}; {what}"))
        }
    };
    ensure!(got.len() == base.len(), "entries", "streaming a copied archive gave {} entries of {}", got.len(), base.len());
    let items = got
        .into_iter()
        .enumerate()
        .map(|(i, (entry, v))| {
            check_data(&data[i], &v, &format!("streamed entry {i} of a copy of {what}"));
            let m = method_of(&entry);
            let mode = if m == DEFLATE64 { Mode::WholePre } else { [Mode::Whole, Mode::Stream][draw(2) as usize] };
            let l = w.locs[i];
            Item { entry, mode, data: data[i].clone(), raw: bytes[l.data as usize..(l.data + l.csize) as usize].to_vec(), chunk: 1 + range(0, 3000) as usize }
        })
        .collect();
    let z64 = [Z64::Auto, Z64::Force, Z64::Never][draw(3) as usize];
    let out = write_items(items, z64, &format!("stream copy of {what}"));
    let a = parse_or_violate(&out, false, u64::MAX, &format!("stream copy of {what}"));
    let f = match block(async_zip::base::read::mem::ZipFileReader::new(out.clone())) {
        Ok(f) => f,
        Err(e) => violation("open", format!("stream copy of {what}: {e}")),
    };
    for (i, e) in f.file().entries().iter().enumerate() {
        let at = format!("stream copy, entry {i} ({what})");
        let mut want = base[i].clone();
        let got = keep(e, &a.entries[i].extra);
        // Only the directory has it (or a Unicode field may speak for an empty one).
        want.comment = got.comment.clone();
        want.attrs = (0, 0);
        compare(&want, &got, &at);
        let mut v = Vec::new();
        let r = block(async {
            let mut er = f.reader_with_entry(i).await?;
            er.read_to_end_checked(&mut v).await
        });
        match r {
            Ok(_) => check_data(&data[i], &v, &at),
            Err(e) if known_buferror(&e.to_string(), data[i].len()) => {}
            Err(e) => violation("read", format!("{at}: {e}")),
        }
    }
    probe("stream_copied");
    true
}
