//! Archives as other tools write them.
use super::*;
use crate::codec::{self, *};
use crate::refzip::*;

pub struct ForeignSpec {
    pub f: Foreign,
    /// Content per entry, in data order.
    pub data: Vec<Rc<Vec<u8>>>,
    pub names: Vec<Str>,
    pub comments: Vec<Str>,
}

#[derive(Clone, Copy)]
pub struct FCfg {
    pub max_entries: u64,
    pub max_data: u64,
    /// Only what the streaming reader documents as supported.
    pub streamable: bool,
    pub prefix: bool,
    pub gaps: bool,
    pub shuffle: bool,
    pub z64: u32,
    pub odd_unicode: u32,
    /// Bytes behind the compressed stream, within the recorded size.
    pub room: u32,
}

pub const FOREIGN: FCfg =
    FCfg { max_entries: 6, max_data: 6000, streamable: false, prefix: true, gaps: true, shuffle: true, z64: 300, odd_unicode: 200, room: 80 };

/// What the reader must make of a stored name or comment (first matching Unicode field, else flags).
pub fn expected(basic: &[u8], utf8: bool, extra: &[(u16, Vec<u8>)], id: u16) -> Str {
    if utf8 {
        return match String::from_utf8(basic.to_vec()) {
            Ok(s) => Str::Utf8(s),
            Err(_) => Str::Raw(basic.to_vec()),
        };
    }
    for (k, d) in extra {
        if *k == id && d.len() >= 5 && d[0] == 1 && u32at(d, 1) == crc32fast::hash(basic) {
            match String::from_utf8(d[5..].to_vec()) {
                Ok(s) => return Str::Alt(s, basic.to_vec()),
                Err(_) => break,
            }
        }
    }
    if basic.is_ascii() {
        Str::Utf8(String::from_utf8(basic.to_vec()).unwrap())
    } else {
        Str::Raw(basic.to_vec())
    }
}

fn unicode_field(basic: &[u8], odd: u32) -> Vec<u8> {
    let text = match Str::gen(60, false, 700) {
        Str::Utf8(s) | Str::Alt(s, _) => s,
        Str::Raw(_) => "ünïcode".into(),
    };
    let text = if odd > 0 && chance(40) { String::new() } else { text };
    let mut d = vec![1u8];
    d.extend_from_slice(&crc32fast::hash(basic).to_le_bytes());
    d.extend_from_slice(text.as_bytes());
    if chance(odd) {
        match draw(3) {
            0 => d[0] = 2 + draw(250) as u8,
            1 => d[1] ^= 0x40,
            _ => d.push(0xFF),
        }
    }
    d
}

pub fn gen_foreign(c: &FCfg) -> ForeignSpec {
    let n = match weighted(&[8, 30, 62]) {
        0 => 0,
        1 => 1,
        _ => range(1, c.max_entries),
    };
    let mut entries = Vec::new();
    let mut data = Vec::new();
    let mut names = Vec::new();
    let mut comments = Vec::new();
    let mut gaps = Vec::new();
    let gappy = c.gaps && chance(200);
    for _ in 0..n {
        let all = [(STORED, 30), (DEFLATE, 35), (DEFLATE64, 8), (BZIP2, 7), (ZSTD, 12), (LZMA, 4), (XZ, 4)];
        let mut method = all[weighted(&all.map(|m| m.1))].0;
        let mut dd = [Dd::None, Dd::Sig, Dd::NoSig][weighted(&[50, 30, 20])];
        if c.streamable && method == DEFLATE64 {
            // known finding K2: the Deflate64 decoder reads past the end of its data
            dd = Dd::None;
        }
        if c.streamable && method == STORED && dd != Dd::None {
            if chance(500) {
                method = DEFLATE
            } else {
                dd = Dd::None
            }
        }
        let p = Payload::gen(if method == LZMA || method == XZ { c.max_data.min(3000) } else { c.max_data });
        let content = p.bytes();
        let cdata = codec::encode(method, &content, 1 + draw(9));
        let mut e = ForeignEntry::bare(b"");
        e.method = method;
        e.crc = crc32fast::hash(&content);
        if dd == Dd::NoSig && e.crc == 0x0807_4b50 {
            dd = Dd::Sig;
        }
        e.dd = dd;
        e.usize_ = content.len() as u64;
        e.cdata = cdata;
        if dd == Dd::None && method != STORED && chance(c.room) {
            // Room the compressed stream doesn't use.
            e.cdata.extend(Payload { kind: draw(3), len: if chance(900) { range(1, 20) } else { range(1, 9000) }, seed: seed32() }.bytes());
            probe("room_behind_stream");
        }
        e.date = seed32() as u16;
        e.time = seed32() as u16;
        e.iattr = seed32() as u16;
        e.eattr = seed32();
        e.made_by = [20u16, 0x0314, 0x031e, 0x0014][draw(4) as usize];
        e.utf8 = chance(300);
        let text = |utf8: bool, empty: bool| -> Vec<u8> {
            match Str::gen(200, empty, 300) {
                Str::Raw(_) if utf8 => "plain".as_bytes().to_vec(),
                s => s.raw().to_vec(),
            }
        };
        e.name = text(e.utf8, true);
        e.comment = if chance(300) { text(e.utf8, true) } else { vec![] };
        if chance(350) {
            e.extra = gen_extra(3);
        }
        if chance(150) {
            let f = (0x7075, unicode_field(&e.name, c.odd_unicode));
            e.extra.insert(draw(e.extra.len() as u32 + 1) as usize, f);
        }
        if chance(100) {
            let f = (0x6375, unicode_field(&e.comment, c.odd_unicode));
            e.extra.insert(draw(e.extra.len() as u32 + 1) as usize, f);
        }
        e.lextra = match weighted(&[60, 25, 15]) {
            0 => e.extra.clone(),
            1 => vec![],
            _ => gen_extra(4),
        };
        if chance(c.z64) {
            e.z64_cd = draw(16) as u8;
            if e.z64_cd & 7 == 0 || (e.z64_cd & 7 == 4 && draw(2) == 0) {
                e.z64_cd = 3;
            }
            if e.z64_cd & 1 != 0 && chance(350) {
                e.z64_cd |= [0x10, 0x20][draw(2) as usize];
            }
            e.z64_lfh = chance(500);
        }
        if chance(250) {
            // Compression level hints and the version say nothing about how to read the entry.
            e.flags = [2u16, 4, 6][draw(3) as usize];
        }
        e.needed = [20u16, 10, 45, 46, 63, 0, 51][weighted(&[10, 2, 2, 1, 1, 1, 1])];
        e.known = e.dd != Dd::None && chance(150);
        names.push(expected(&e.name, e.utf8, &e.extra, 0x7075));
        comments.push(expected(&e.comment, e.utf8, &e.extra, 0x6375));
        data.push(Rc::new(content));
        entries.push(e);
        gaps.push(if gappy { Payload { kind: 2, len: range(0, 50), seed: seed32() }.bytes() } else { vec![] });
    }
    let mut cd_order: Vec<usize> = (0..n as usize).collect();
    if c.shuffle && chance(200) {
        for i in (1..cd_order.len()).rev() {
            cd_order.swap(i, draw(i as u32 + 1) as usize);
        }
    }
    let prefix = if c.prefix && chance(150) { Payload { kind: 0, len: range(1, 3000), seed: seed32() }.bytes() } else { vec![] };
    let comment = if chance(300) { gen_comment(3000).into_bytes() } else { vec![] };
    let zip64_end = chance(c.z64 / 2);
    let marks = if zip64_end && chance(500) { draw(16) as u8 } else { 15 };
    let end_extra = if zip64_end && chance(200) { Payload { kind: 0, len: range(1, 80), seed: seed32() }.bytes() } else { vec![] };
    let after_cd = if c.gaps && n > 0 && chance(60) {
        // A digital signature of the directory.
        let body = Payload { kind: 0, len: range(0, 60), seed: seed32() }.bytes();
        [b"PK\x05\x05".as_slice(), &(body.len() as u16).to_le_bytes(), &body].concat()
    } else {
        vec![]
    };
    let f = Foreign { entries, comment, zip64_end, marks, end_extra, after_cd, prefix, gaps, cd_order };
    ForeignSpec { f, data, names, comments }
}

pub fn describe_foreign(s: &ForeignSpec) -> String {
    let mut o = format!("foreign archive, {} entries, zip64 end {} (marks {:x}, {} more), prefix {}", s.f.entries.len(), s.f.zip64_end, s.f.marks, s.f.end_extra.len(), s.f.prefix.len());
    for e in s.f.entries.iter().take(6) {
        o.push_str(&format!(
            "; method={} dd={:?} name={} data={} extra={:?} lextra={:?} z64={:x}/{} flags={:x} known={}",
            e.method,
            e.dd,
            brief(&e.name),
            e.usize_,
            e.extra.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>(),
            e.lextra.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>(),
            e.z64_cd,
            e.z64_lfh,
            e.flags,
            e.known
        ));
    }
    o
}

/// Directory view of a foreign entry.
pub fn check_foreign_meta(s: &ForeignSpec, k: usize, loc: u64, got: &StoredZipEntry, what: &str) {
    let e = &s.f.entries[k];
    s.names[k].check(got.filename(), &format!("{what} name"));
    s.comments[k].check(got.comment(), &format!("{what} comment"));
    ensure!(method_of(got) == e.method, "meta", "{what}: method");
    ensure!(got.crc32() == e.crc, "meta", "{what}: CRC");
    ensure!(got.uncompressed_size() == e.usize_, "meta", "{what}: size {} listed as {}", e.usize_, got.uncompressed_size());
    ensure!(got.compressed_size() == e.cdata.len() as u64, "meta", "{what}: compressed size {} listed as {}", e.cdata.len(), got.compressed_size());
    ensure!(got.internal_file_attribute() == e.iattr && got.external_file_attribute() == e.eattr, "meta", "{what}: attributes");
    ensure!(got.header_offset() == loc, "meta", "{what}: header offset {loc} listed as {}", got.header_offset());
    let d = got.last_modification_date();
    let date = ((d.year() - 1980) as u16) << 9 | (d.month() as u16) << 5 | d.day() as u16;
    let time = (d.hour() as u16) << 11 | (d.minute() as u16) << 5 | (d.second() / 2) as u16;
    ensure!((date, time) == (e.date, e.time), "meta", "{what}: date/time {:x} {:x} listed as {date:x} {time:x}", e.date, e.time);
    check_extras(&e.extra, got, what);
}

/// An archive of this library or of another tool, with its expected contents by directory index.
pub struct AnyArchive {
    pub bytes: Rc<Vec<u8>>,
    pub data: Vec<Rc<Vec<u8>>>,
    pub stored: Vec<bool>,
    pub what: String,
}

pub fn gen_any(max_data: u64, max_entries: u64) -> AnyArchive {
    if chance(650) {
        let spec = gen_archive(&GenCfg { max_data, max_str: 300, ..GenCfg::DEFAULT }, max_entries);
        AnyArchive { bytes: Rc::new(must_write(&spec)), data: spec.entries.iter().map(|e| e.data.clone()).collect(), stored: spec.entries.iter().map(|e| e.method == STORED).collect(), what: describe(&spec) }
    } else {
        let s = gen_foreign(&FCfg { max_data, max_entries, ..FOREIGN });
        let (b, _) = write_foreign(&s.f);
        let what = describe_foreign(&s);
        AnyArchive { bytes: Rc::new(b), data: s.f.cd_order.iter().map(|k| s.data[*k].clone()).collect(), stored: s.f.cd_order.iter().map(|k| s.f.entries[*k].method == STORED).collect(), what }
    }
}
