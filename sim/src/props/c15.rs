//! The directory is found for every comment, size and read chunking.
use super::foreign::*;
use super::paths::*;
use super::*;
use crate::codec::STORED;
use crate::refzip::*;

const WINDOW: u64 = 2048;

fn gen_comment_len() -> u64 {
    match weighted(&[15, 15, 40, 10, 20]) {
        0 => 0,
        1 => range(1, 60),
        2 => {
            // The end record near some multiple of a plausible search step from the end.
            let step = [WINDOW, WINDOW - 4, WINDOW - 22, 1024, 4096, 512][weighted(&[3, 4, 2, 1, 1, 1])];
            let k = range(1, 65535 / step + 1);
            (k * step + range(0, 60)).saturating_sub(52).min(65535)
        }
        3 => 65535 - range(0, 24),
        _ => range(0, 65535),
    }
}

/// Comment bytes: text, noise, or text full of things that look like records.
fn gen_comment_bytes(len: usize, text: bool) -> Vec<u8> {
    let kind = weighted(&[25, 25, 50]);
    let seed = seed32();
    let mut r = Rng::new(seed as u64 ^ 0xC15);
    let mut v: Vec<u8> = Vec::with_capacity(len);
    match kind {
        0 => v.resize(len, b'c'),
        1 => {
            while v.len() < len {
                v.push(if text { b' ' + r.below(90) as u8 } else { r.next() as u8 });
            }
        }
        _ => {
            let bits: [&[u8]; 10] = [
                b"PK\x05\x06", b"PK\x05", b"PK", b"P", b"\x06", b"PK\x06\x07", b"PK\x06\x06", b"PK\x01\x02", b"PK\x05\x05\x06", b"\x05\x06",
            ];
            let sparse = r.below(2) == 0;
            while v.len() < len {
                v.extend_from_slice(bits[r.below(10) as usize]);
                let gap = if sparse { r.below(3000) } else { r.below(30) };
                for _ in 0..gap {
                    v.push(if text || r.below(2) == 0 { b'a' + r.below(20) as u8 } else { r.next() as u8 });
                }
            }
        }
    }
    v.truncate(len);
    v
}

/// A later position that would itself be a complete end record.
fn ambiguous(b: &[u8], eocdr: usize) -> bool {
    (eocdr + 1..b.len().saturating_sub(21)).any(|i| b[i] == b'P' && b[i..i + 4] == *b"PK\x05\x06" && u16at(b, i + 20) as usize == b.len() - i - 22)
}

fn build(comment: &[u8], text: bool) -> (Vec<u8>, Vec<u8>, Vec<Rc<Vec<u8>>>, String) {
    if text {
        let mut spec = gen_archive(&GenCfg { max_data: 3000, max_str: 200, ..GenCfg::DEFAULT }, 4);
        if chance(200) {
            // An archive inside the archive, uncompressed and last.
            let inner = must_write(&gen_archive(&GenCfg { max_data: 300, max_str: 60, ..GenCfg::DEFAULT }, 3));
            spec.entries.push(EntrySpec::simple("inner.zip", STORED, [Mode::Whole, Mode::Stream][draw(2) as usize], inner));
        }
        spec.comment = None;
        let bare = must_write(&spec);
        spec.comment = Some(String::from_utf8(comment.to_vec()).expect("text"));
        let full = must_write(&spec);
        let data = spec.entries.iter().map(|e| e.data.clone()).collect();
        let what = describe(&spec);
        (bare, full, data, what)
    } else {
        let mut s = gen_foreign(&FCfg { max_data: 3000, max_entries: 4, ..FOREIGN });
        if chance(300) {
            // Alignment: any number of bytes before everything.
            s.f.prefix = vec![b'#'; range(0, 5000) as usize];
        }
        s.f.comment = vec![];
        let bare = write_foreign(&s.f).0;
        s.f.comment = comment.to_vec();
        let full = write_foreign(&s.f).0;
        let data = s.f.cd_order.iter().map(|k| s.data[*k].clone()).collect();
        let what = describe_foreign(&s);
        (bare, full, data, what)
    }
}

pub fn run() {
    if chance(120) {
        return absent();
    }
    if chance(80) {
        return misdirected();
    }
    let text = chance(500);
    let junk = if chance(120) { Some(gen_junk()) } else { None };
    let mut comment = gen_comment_bytes(gen_comment_len() as usize, text);
    if junk.is_some() {
        // With bytes after the archive no rule tells a signature in the comment from the real one.
        scrub(&mut comment);
        if comment.last().is_some_and(|b| b"PK\x05".contains(b)) {
            comment.pop();
        }
    }
    let (bare, full, data, what) = build(&comment, text);
    trace(|| format!("comment of {} bytes; {what}", comment.len()));
    sample(|| format!("comment of {} bytes, {} bytes in all; {what}", comment.len(), full.len()));
    // The archive as built, with its comment cut off, is the reference for the listing.
    ensure!(full.len() == bare.len() + comment.len(), "structure", "the comment changed more than the end of the archive");
    let eocdr = bare.len() - 22;
    if ambiguous(&full, eocdr) {
        return probe("ambiguous_comment");
    }
    let path = gen_path(15);
    let base = run_dump(Path::Mem, Rc::new(bare), IoCfg::PERFECT, vec![], 0);
    let (bf, bv) = match base.file {
        Ok(f) => f,
        Err(e) => violation("open", format!("without a comment the archive is refused: {e}; {what}")),
    };
    ensure!(bf.entries().len() == data.len(), "listing", "{} entries listed of {}", bf.entries().len(), data.len());
    let mut bytes = full;
    let mut must_fail = false;
    if let Some(j) = &junk {
        must_fail = (j.len() + comment.len()) as u64 > 70_000;
        bytes.extend_from_slice(j);
        probe("trailing_bytes");
    }
    let ops: Ops = if !data.is_empty() { vec![(draw(data.len() as u32) as usize, How::Checked)] } else { vec![] };
    let total = bytes.len();
    let mut cfg = IoCfg::gen_benign();
    if total > 20_000 && matches!(cfg.chunk, Chunk::Max(k) if k < 8) {
        cfg.pend = cfg.pend.min(30);
    }
    let d = run_dump(path, Rc::new(bytes), cfg, ops.clone(), usize::MAX);
    let (f, v) = match d.file {
        Err(e) => {
            if junk.is_some() {
                return probe("trailing_refused");
            }
            violation("open", format!("{path:?}: comment of {} bytes, archive of {total}: refused: {e}", comment.len()))
        }
        Ok(x) => x,
    };
    ensure!(!must_fail, "reach", "{path:?}: an end record {} bytes before the end was found", total - eocdr);
    ensure!(
        f.comment().as_bytes() == &comment[..],
        "comment",
        "{path:?}: comment {} reported as {} (archive of {total} bytes)",
        brief(&comment),
        brief(f.comment().as_bytes())
    );
    ensure!(v[..v.len() - 1] == bv[..bv.len() - 1], "listing", "{path:?}: listing differs from the same archive without comment");
    ensure!(f.zip64() == bf.zip64(), "listing", "{path:?}: zip64 flag differs from the same archive without comment");
    probe(if f.zip64() { "zip64" } else { "classic" });
    for ((i, _), r) in ops.iter().zip(&d.reads) {
        match r {
            Ok((got, _, _)) => check_data(&data[*i], got, &format!("{path:?}: entry {i}")),
            Err((e, _)) if known_buferror(e, data[*i].len()) => {}
            Err((e, _)) => violation("read", format!("{path:?}: entry {i}: {e}")),
        }
    }
}

fn gen_junk() -> Vec<u8> {
    let len = match weighted(&[40, 30, 30]) {
        0 => range(1, 3000),
        1 => range(1, 66_000),
        _ => 70_000 + range(0, 9000),
    };
    let mut v = Payload { kind: draw(3), len, seed: seed32() }.bytes();
    scrub(&mut v);
    v
}

/// Bytes without any end record: never an archive.
fn absent() {
    let len = match weighted(&[30, 30, 40]) {
        0 => range(0, 60),
        1 => range(0, 5000),
        _ => range(60_000, 72_000),
    };
    let kind = [1, 2, 3][draw(3) as usize];
    let mut v = Payload { kind, len, seed: seed32() }.bytes();
    if chance(300) {
        // Everything but the end record itself.
        let mut a = must_write(&gen_archive(&GenCfg { max_data: 300, max_str: 60, ..GenCfg::DEFAULT }, 3));
        let cut = 22.min(a.len());
        a.truncate(a.len() - cut);
        a.extend_from_slice(&v);
        v = a;
        scrub(&mut v);
    }
    sample(|| format!("{} bytes without an end record", v.len()));
    let path = gen_path(15);
    let n = v.len();
    let d = run_dump(path, Rc::new(v), IoCfg::gen_benign(), vec![], 0);
    ensure!(d.file.is_err(), "reach", "{path:?}: {n} bytes without an end record were opened as an archive");
    probe("absent");
}

/// An end record that is one part of several archives', or that leads to something which is not its directory.
fn misdirected() {
    let (mut b, what) = if chance(500) {
        let spec = gen_archive(&GenCfg { max_data: 2000, max_str: 60, ..GenCfg::DEFAULT }, 4);
        (must_write(&spec), describe(&spec))
    } else {
        let s = gen_foreign(&FCfg { max_data: 2000, max_entries: 4, ..FOREIGN });
        (write_foreign(&s.f).0, describe_foreign(&s))
    };
    let w = walk(&b).expect("an archive");
    let e = w.eocdr as usize;
    let n = w.locs.len() as u64;
    // Little-endian fields: (position, width) in the record that counts.
    let (disk, cd_disk, on_disk, total, off) = match w.z64 {
        Some(z) => {
            let z = z as usize;
            // The classic record only refers to the other one.
            for (at, width) in [(e + 4, 2), (e + 6, 2), (e + 8, 2), (e + 10, 2), (e + 12, 4), (e + 16, 4)] {
                b[at..at + width].fill(0xFF);
            }
            ((z + 16, 4), (z + 20, 4), (z + 24, 8), (z + 32, 8), (z + 48, 8))
        }
        None => ((e + 4, 2), (e + 6, 2), (e + 8, 2), (e + 10, 2), (e + 16, 4)),
    };
    let mut put = |f: (usize, usize), v: u64| b[f.0..f.0 + f.1].copy_from_slice(&v.to_le_bytes()[..f.1]);
    let how = match weighted(&[20, 20, 20, 20, 20, if w.z64.is_some() { 40 } else { 0 }]) {
        0 => {
            put(disk, 1 + draw(9) as u64);
            "the last of several disks"
        }
        1 => {
            put(cd_disk, 1 + draw(9) as u64);
            "a directory on another disk"
        }
        2 => {
            let d = 1 + draw(9) as u64;
            if chance(500) {
                put(total, n + d)
            } else {
                put(on_disk, n + d)
            }
            "a directory spread over disks"
        }
        3 => {
            let d = 1 + draw(3) as u64;
            put(on_disk, n + d);
            put(total, n + d);
            "more entries than the directory has"
        }
        5 => {
            let z = w.z64.unwrap() as usize;
            match draw(3) {
                0 => b[z + draw(4) as usize] ^= 1 << draw(8),
                1 => b[z..e - 20].fill([0, 0xFF][draw(2) as usize]),
                _ => {
                    // The locator is right before the end record.
                    let wrong = [z as u64 + 1, z as u64 + 56, 0, e as u64, w.cd_off, range(0, b.len() as u64)][draw(6) as usize];
                    if b[wrong as usize..].starts_with(b"PK\x06\x06") {
                        return probe("no_directory");
                    }
                    b[e - 12..e - 4].copy_from_slice(&wrong.to_le_bytes());
                }
            }
            probe("no_zip64_record");
            "a ZIP64 end record that is not there"
        }
        _ => {
            if n == 0 {
                return probe("no_directory");
            }
            if chance(500) {
                let k = draw(n as u32) as usize;
                let at = w.locs[k].cd_pos as usize + draw(4) as usize;
                b[at] ^= 1 << draw(8);
                "a directory record without its signature"
            } else {
                let d = w.cd_off;
                let wrong = [d.wrapping_add(1), d.wrapping_sub(1), 0, d + 4, w.eocdr, b.len() as u64][draw(6) as usize];
                if wrong == d || wrong > b.len() as u64 {
                    return probe("no_directory");
                }
                b[off.0..off.0 + off.1].copy_from_slice(&wrong.to_le_bytes()[..off.1]);
                "a directory offset that leads elsewhere"
            }
        }
    };
    sample(|| format!("{how}; {what}"));
    let path = gen_path(15);
    let d = run_dump(path, Rc::new(b), IoCfg::gen_benign(), vec![], 0);
    ensure!(d.file.is_err(), "misread", "{path:?}: an archive whose end record tells of {how} was opened; {what}");
    probe("misdirected");
}
