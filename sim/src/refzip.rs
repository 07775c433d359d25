//! An independent ZIP implementation written from the format specification:
//! a strict parser/validator (the oracle for what the library writes) and a
//! writer of archives as other tools make them (the input for what it reads).

use crate::codec;
use crate::io::Blob;

pub const SENT32: u64 = 0xFFFF_FFFF;

#[derive(Clone, Debug)]
pub struct RefEntry {
    pub name: Vec<u8>,
    pub comment: Vec<u8>,
    pub made_by: u16,
    pub flags: u16,
    pub method: u16,
    pub time: u16,
    pub date: u16,
    pub crc: u32,
    pub csize: u64,
    pub usize_: u64,
    pub iattr: u16,
    pub eattr: u32,
    pub lfh: u64,
    pub data: u64,
    pub end: u64, // end of data incl. data descriptor
    pub dd_len: u64,
    pub extra: Vec<(u16, Vec<u8>)>,
    pub lextra: Vec<(u16, Vec<u8>)>,
    pub cd_pos: u64,
    pub cd_len: u64,
}

#[derive(Clone, Debug)]
pub struct RefArchive {
    pub entries: Vec<RefEntry>,
    pub comment: Vec<u8>,
    pub zip64: bool,
    pub cd_off: u64,
    pub cd_size: u64,
    pub eocdr: u64,
    pub z64_eocdr: Option<u64>,
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// Dead bytes between records are acceptable (after failed entries).
    pub holes: bool,
    /// Decode entries whose compressed size is at most this.
    pub decode_max: u64,
}

pub fn u16at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
pub fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

fn get(b: &dyn Blob, off: u64, len: u64, what: &str) -> Result<Vec<u8>, String> {
    if off.checked_add(len).map(|e| e > b.len()).unwrap_or(true) {
        return Err(format!("{what}: needs bytes {off}..+{len} but the archive has {}", b.len()));
    }
    Ok(b.slice(off, len))
}

pub fn parse_extra(raw: &[u8], what: &str) -> Result<Vec<(u16, Vec<u8>)>, String> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < raw.len() {
        if raw.len() - i < 4 {
            return Err(format!("{what}: {} stray bytes in extra field area", raw.len() - i));
        }
        let id = u16at(raw, i);
        let n = u16at(raw, i + 2) as usize;
        if raw.len() - i - 4 < n {
            return Err(format!("{what}: extra field {id:#x} claims {n} bytes, {} remain", raw.len() - i - 4));
        }
        v.push((id, raw[i + 4..i + 4 + n].to_vec()));
        i += 4 + n;
    }
    Ok(v)
}

fn zip64_of<'a>(ex: &'a [(u16, Vec<u8>)], what: &str) -> Result<Option<&'a [u8]>, String> {
    let z: Vec<_> = ex.iter().filter(|e| e.0 == 1).collect();
    if z.len() > 1 {
        return Err(format!("{what}: {} ZIP64 extra fields", z.len()));
    }
    Ok(z.first().map(|e| &e.1[..]))
}

/// Resolves sentinel values from a ZIP64 field, in specification order.
fn resolve(vals: &mut [&mut u64], z: Option<&[u8]>, what: &str) -> Result<(), String> {
    let Some(z) = z else { return Ok(()) };
    let mut o = 0;
    for v in vals.iter_mut() {
        if **v == SENT32 {
            if z.len() < o + 8 {
                return Err(format!("{what}: ZIP64 field of {} bytes lacks a value for a maxed-out field", z.len()));
            }
            **v = u64at(z, o);
            o += 8;
        }
    }
    if z.len() != o && z.len() != o + 4 {
        return Err(format!("{what}: ZIP64 field has {} bytes, {} are accounted for", z.len(), o));
    }
    Ok(())
}

pub fn parse(b: &dyn Blob, opts: Opts) -> Result<RefArchive, String> {
    let len = b.len();
    if len < 22 {
        return Err("shorter than an end record".into());
    }
    let tail_start = len.saturating_sub(22 + 65535);
    let tail = b.slice(tail_start, len - tail_start);
    let mut pos = None;
    let mut i = tail.len() - 22;
    loop {
        if tail[i..i + 4] == *b"PK\x05\x06" && u16at(&tail, i + 20) as usize == tail.len() - i - 22 {
            pos = Some(i);
            break;
        }
        if i == 0 {
            break;
        }
        i -= 1;
    }
    let Some(i) = pos else { return Err("no end record whose comment reaches exactly to the end of the file".into()) };
    let eocdr = tail_start + i as u64;
    let e = &tail[i..];
    let comment = e[22..].to_vec();
    if u16at(e, 4) != 0 || u16at(e, 6) != 0 {
        return Err("disk numbers are not zero".into());
    }
    if u16at(e, 8) != u16at(e, 10) {
        return Err("entry counts on disk and in total differ".into());
    }
    let mut count = u16at(e, 10) as u64;
    let mut cd_size = u32at(e, 12) as u64;
    let mut cd_off = u32at(e, 16) as u64;
    let mut zip64 = false;
    let mut z64_eocdr = None;
    let mut cd_end = eocdr;
    if eocdr >= 20 {
        let l = get(b, eocdr - 20, 20, "locator")?;
        if l[0..4] == *b"PK\x06\x07" {
            zip64 = true;
            if u32at(&l, 4) != 0 || u32at(&l, 16) != 1 {
                return Err("ZIP64 locator disk fields".into());
            }
            let zo = u64at(&l, 8);
            let z = get(b, zo, 56, "zip64 end record")?;
            if z[0..4] != *b"PK\x06\x06" {
                return Err(format!("ZIP64 locator points at {zo}, where no ZIP64 end record is"));
            }
            if u64at(&z, 4) != 44 || zo + 56 != eocdr - 20 {
                return Err("ZIP64 end record size".into());
            }
            if u32at(&z, 16) != 0 || u32at(&z, 20) != 0 || u64at(&z, 24) != u64at(&z, 32) {
                return Err("ZIP64 end record disk fields".into());
            }
            let (zc, zs, zf) = (u64at(&z, 32), u64at(&z, 40), u64at(&z, 48));
            if count != 0xFFFF && count != zc || count == 0xFFFF && zc < 0xFFFF {
                return Err(format!("entry count {count} vs ZIP64 {zc}"));
            }
            if cd_size != SENT32 && cd_size != zs || cd_off != SENT32 && cd_off != zf {
                return Err("directory size/offset disagree with the ZIP64 end record".into());
            }
            count = zc;
            cd_size = zs;
            cd_off = zf;
            z64_eocdr = Some(zo);
            cd_end = zo;
        }
    }
    if cd_off.checked_add(cd_size) != Some(cd_end) {
        return Err(format!("directory at {cd_off}+{cd_size} does not end at the end record ({cd_end})"));
    }
    let mut entries = Vec::new();
    let mut p = cd_off;
    for k in 0..count {
        let what = format!("directory record {k}");
        let h = get(b, p, 46, &what)?;
        if h[0..4] != *b"PK\x01\x02" {
            return Err(format!("{what}: bad signature"));
        }
        let (nl, el, cl) = (u16at(&h, 28) as u64, u16at(&h, 30) as u64, u16at(&h, 32) as u64);
        let v = get(b, p + 46, nl + el + cl, &what)?;
        let name = v[..nl as usize].to_vec();
        let extra = parse_extra(&v[nl as usize..(nl + el) as usize], &what)?;
        let ecomment = v[(nl + el) as usize..].to_vec();
        let mut usize_ = u32at(&h, 24) as u64;
        let mut csize = u32at(&h, 20) as u64;
        let mut lfh = u32at(&h, 42) as u64;
        let z = zip64_of(&extra, &what)?;
        resolve(&mut [&mut usize_, &mut csize, &mut lfh], z, &what)?;
        if u16at(&h, 34) != 0 {
            return Err(format!("{what}: disk number"));
        }
        let method = u16at(&h, 10);
        // The version a reader needs, where the format has always required one for the method.
        let need = match method {
            codec::DEFLATE => 20,
            codec::DEFLATE64 => 21,
            codec::BZIP2 => 46,
            codec::LZMA => 63,
            _ => 10,
        };
        if u16at(&h, 6) & 0xFF < need {
            return Err(format!("{what}: version needed {} is too low for method {method}", u16at(&h, 6)));
        }
        if u16at(&h, 8) & 0x800 != 0 && (std::str::from_utf8(&name).is_err() || std::str::from_utf8(&ecomment).is_err()) {
            return Err(format!("{what}: marked UTF-8 but is not"));
        }
        let mut ent = RefEntry {
            name,
            comment: ecomment,
            made_by: u16at(&h, 4),
            flags: u16at(&h, 8),
            method: u16at(&h, 10),
            time: u16at(&h, 12),
            date: u16at(&h, 14),
            crc: u32at(&h, 16),
            csize,
            usize_,
            iattr: u16at(&h, 36),
            eattr: u32at(&h, 38),
            lfh,
            data: 0,
            end: 0,
            dd_len: 0,
            extra,
            lextra: Vec::new(),
            cd_pos: p,
            cd_len: 46 + nl + el + cl,
        };
        p += ent.cd_len;
        local(b, &mut ent, cd_off, k)?;
        entries.push(ent);
    }
    if p != cd_end {
        return Err(format!("directory records end at {p}, not at {cd_end}"));
    }
    // Tiling.
    let mut at = 0;
    for (k, e) in entries.iter().enumerate() {
        if e.lfh < at {
            return Err(format!("entry {k} at {} overlaps the previous record ending at {at}", e.lfh));
        }
        if !opts.holes && e.lfh != at {
            return Err(format!("gap before entry {k}: {at}..{}", e.lfh));
        }
        at = e.end;
    }
    if at > cd_off || (!opts.holes && at != cd_off) {
        return Err(format!("last entry ends at {at}, directory starts at {cd_off}"));
    }
    // Content.
    for (k, e) in entries.iter().enumerate() {
        if e.csize > opts.decode_max {
            continue;
        }
        let (out, used) =
            codec::decode(e.method, &b.slice(e.data, e.csize)).map_err(|x| format!("entry {k}: data: {x}"))?;
        if used as u64 != e.csize {
            return Err(format!("entry {k}: compressed stream has {used} bytes, recorded {}", e.csize));
        }
        if out.len() as u64 != e.usize_ {
            return Err(format!("entry {k}: decodes to {} bytes, recorded {}", out.len(), e.usize_));
        }
        if crc32fast::hash(&out) != e.crc {
            return Err(format!("entry {k}: recorded CRC does not match content"));
        }
    }
    Ok(RefArchive { entries, comment, zip64, cd_off, cd_size, eocdr, z64_eocdr })
}

fn local(b: &dyn Blob, e: &mut RefEntry, cd_off: u64, k: u64) -> Result<(), String> {
    let what = format!("local header {k}");
    let h = get(b, e.lfh, 30, &what)?;
    if h[0..4] != *b"PK\x03\x04" {
        return Err(format!("{what}: bad signature at {}", e.lfh));
    }
    let (nl, el) = (u16at(&h, 26) as u64, u16at(&h, 28) as u64);
    let v = get(b, e.lfh + 30, nl + el, &what)?;
    if v[..nl as usize] != e.name[..] {
        return Err(format!("{what}: name differs from the directory"));
    }
    e.lextra = parse_extra(&v[nl as usize..], &what)?;
    if u16at(&h, 6) != e.flags || u16at(&h, 8) != e.method || u16at(&h, 10) != e.time || u16at(&h, 12) != e.date {
        return Err(format!("{what}: flags/method/date differ from the directory"));
    }
    if e.flags & !(0x8 | 0x800) != 0 {
        return Err(format!("{what}: unexpected flag bits {:#x}", e.flags));
    }
    e.data = e.lfh + 30 + nl + el;
    let dend = e.data.checked_add(e.csize).ok_or("size overflow")?;
    if dend > cd_off {
        return Err(format!("entry {k}: data ends at {dend}, past the directory"));
    }
    let z = zip64_of(&e.lextra, &what)?;
    if z.is_some_and(|z| z.len() < 16) {
        return Err(format!("{what}: a local ZIP64 field must carry both sizes"));
    }
    if e.flags & 8 == 0 {
        let mut us = u32at(&h, 22) as u64;
        let mut cs = u32at(&h, 18) as u64;
        if let Some(z) = z {
            if us == SENT32 || cs == SENT32 {
                if us != SENT32 || cs != SENT32 {
                    return Err(format!("{what}: ZIP64 field must carry both sizes"));
                }
                us = u64at(z, 0);
                cs = u64at(z, 8);
            }
        }
        if us != e.usize_ || cs != e.csize || u32at(&h, 14) != e.crc {
            return Err(format!("{what}: sizes/CRC ({us},{cs}) differ from the directory ({},{})", e.usize_, e.csize));
        }
        e.end = dend;
    } else {
        let d = get(b, dend, 16, "data descriptor")?;
        if d[0..4] != *b"PK\x07\x08" {
            return Err(format!("entry {k}: no data descriptor after its data"));
        }
        if u32at(&d, 4) != e.crc {
            return Err(format!("entry {k}: data descriptor CRC differs"));
        }
        let ok32 = |v: u32, full: u64| v as u64 == full || (v as u64 == SENT32 && z.is_some());
        if ok32(u32at(&d, 8), e.csize) && ok32(u32at(&d, 12), e.usize_) {
            e.dd_len = 16;
        } else {
            let d = get(b, dend, 24, "data descriptor")?;
            if u64at(&d, 8) == e.csize && u64at(&d, 16) == e.usize_ {
                e.dd_len = 24;
            } else {
                return Err(format!(
                    "entry {k}: data descriptor sizes ({},{}) differ from the directory ({},{})",
                    u32at(&d, 8),
                    u32at(&d, 12),
                    e.csize,
                    e.usize_
                ));
            }
        }
        e.end = dend + e.dd_len;
    }
    Ok(())
}

// ---------------------------------------------------------------- writer

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dd {
    None,
    Sig,
    NoSig,
}

#[derive(Clone, Debug)]
pub struct ForeignEntry {
    pub name: Vec<u8>,
    pub utf8: bool,
    pub comment: Vec<u8>,
    pub method: u16,
    pub time: u16,
    pub date: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub cdata: Vec<u8>,
    pub crc: u32,
    pub usize_: u64,
    pub dd: Dd,
    pub extra: Vec<(u16, Vec<u8>)>,
    pub lextra: Vec<(u16, Vec<u8>)>,
    /// Emit ZIP64 fields although not needed: bit0 sizes, bit1 offset, bit2 disk number (bit3: last of the fields);
    /// with bit0, bit4 keeps the compressed and bit5 the uncompressed size out of it.
    pub z64_cd: u8,
    pub z64_lfh: bool,
    pub made_by: u16,
    pub needed: u16,
    /// Further general purpose flags.
    pub flags: u16,
    /// With a data descriptor: checksum and sizes in the local header all the same.
    pub known: bool,
}

impl ForeignEntry {
    /// An empty Stored entry.
    pub fn bare(name: &[u8]) -> ForeignEntry {
        ForeignEntry {
            name: name.to_vec(),
            utf8: false,
            comment: vec![],
            method: 0,
            time: 0,
            date: 0,
            iattr: 0,
            eattr: 0,
            cdata: vec![],
            crc: 0,
            usize_: 0,
            dd: Dd::None,
            extra: vec![],
            lextra: vec![],
            z64_cd: 0,
            z64_lfh: false,
            made_by: 20,
            needed: 20,
            flags: 0,
            known: false,
        }
    }
}

pub fn ser_extra(ex: &[(u16, Vec<u8>)]) -> Vec<u8> {
    let mut v = Vec::new();
    for (id, d) in ex {
        v.extend_from_slice(&id.to_le_bytes());
        v.extend_from_slice(&(d.len() as u16).to_le_bytes());
        v.extend_from_slice(d);
    }
    v
}

pub struct Foreign {
    pub entries: Vec<ForeignEntry>,
    pub comment: Vec<u8>,
    pub zip64_end: bool,
    /// What the classic end record leaves to the 64-bit one: bit0 disks, bit1 counts, bit2 size, bit3 offset.
    pub marks: u8,
    /// Extensible data of the 64-bit end record.
    pub end_extra: Vec<u8>,
    /// A record between the directory and the end records.
    pub after_cd: Vec<u8>,
    pub prefix: Vec<u8>,
    /// Unused bytes between entries (dead data), by entry index.
    pub gaps: Vec<Vec<u8>>,
    /// Order of directory records relative to the data order.
    pub cd_order: Vec<usize>,
}

/// Returns the bytes and, per entry, (lfh, data, end incl. descriptor).
pub fn write_foreign(f: &Foreign) -> (Vec<u8>, Vec<(u64, u64, u64)>) {
    let mut b = f.prefix.clone();
    let mut locs = Vec::new();
    let p16 = |b: &mut Vec<u8>, v: u16| b.extend_from_slice(&v.to_le_bytes());
    let p32 = |b: &mut Vec<u8>, v: u32| b.extend_from_slice(&v.to_le_bytes());
    let p64 = |b: &mut Vec<u8>, v: u64| b.extend_from_slice(&v.to_le_bytes());
    for (k, e) in f.entries.iter().enumerate() {
        if let Some(g) = f.gaps.get(k) {
            b.extend_from_slice(g);
        }
        let lfh = b.len() as u64;
        let flags: u16 = e.flags | if e.utf8 { 0x800 } else { 0 } | if e.dd != Dd::None { 8 } else { 0 };
        let mut lex = e.lextra.clone();
        let z = e.z64_lfh;
        let known = e.dd == Dd::None || e.known;
        if z {
            let mut d = Vec::new();
            let (u, c) = if known { (e.usize_, e.cdata.len() as u64) } else { (0, 0) };
            p64(&mut d, u);
            p64(&mut d, c);
            lex.insert(0, (1, d));
        }
        let lx = ser_extra(&lex);
        b.extend_from_slice(b"PK\x03\x04");
        p16(&mut b, if z { 45 } else { e.needed });
        p16(&mut b, flags);
        p16(&mut b, e.method);
        p16(&mut b, e.time);
        p16(&mut b, e.date);
        p32(&mut b, if known { e.crc } else { 0 });
        let (cs, us) = if z {
            (u32::MAX, u32::MAX)
        } else if known {
            (e.cdata.len() as u32, e.usize_ as u32)
        } else {
            (0, 0)
        };
        p32(&mut b, cs);
        p32(&mut b, us);
        p16(&mut b, e.name.len() as u16);
        p16(&mut b, lx.len() as u16);
        b.extend_from_slice(&e.name);
        b.extend_from_slice(&lx);
        let data = b.len() as u64;
        b.extend_from_slice(&e.cdata);
        if e.dd != Dd::None {
            if e.dd == Dd::Sig {
                b.extend_from_slice(b"PK\x07\x08");
            }
            p32(&mut b, e.crc);
            p32(&mut b, e.cdata.len() as u32);
            p32(&mut b, e.usize_ as u32);
        }
        locs.push((lfh, data, b.len() as u64));
    }
    let cd_off = b.len() as u64;
    for &k in &f.cd_order {
        let e = &f.entries[k];
        let (lfh, _, _) = locs[k];
        let flags: u16 = e.flags | if e.utf8 { 0x800 } else { 0 } | if e.dd != Dd::None { 8 } else { 0 };
        let mut ex = e.extra.clone();
        let (u64s, c64s) = (e.z64_cd & 0x21 == 1, e.z64_cd & 0x11 == 1);
        if e.z64_cd & 6 != 0 || u64s || c64s {
            let mut d = Vec::new();
            if u64s {
                p64(&mut d, e.usize_);
            }
            if c64s {
                p64(&mut d, e.cdata.len() as u64);
            }
            if e.z64_cd & 2 != 0 {
                p64(&mut d, lfh);
            }
            if e.z64_cd & 4 != 0 {
                p32(&mut d, 0);
            }
            let at = if e.z64_cd & 8 != 0 { ex.len() } else { 0 };
            ex.insert(at, (1, d));
        }
        let xx = ser_extra(&ex);
        b.extend_from_slice(b"PK\x01\x02");
        p16(&mut b, e.made_by);
        p16(&mut b, if e.z64_cd != 0 { 45 } else { e.needed });
        p16(&mut b, flags);
        p16(&mut b, e.method);
        p16(&mut b, e.time);
        p16(&mut b, e.date);
        p32(&mut b, e.crc);
        p32(&mut b, if c64s { u32::MAX } else { e.cdata.len() as u32 });
        p32(&mut b, if u64s { u32::MAX } else { e.usize_ as u32 });
        p16(&mut b, e.name.len() as u16);
        p16(&mut b, xx.len() as u16);
        p16(&mut b, e.comment.len() as u16);
        p16(&mut b, if e.z64_cd & 4 != 0 { 0xFFFF } else { 0 });
        p16(&mut b, e.iattr);
        p32(&mut b, e.eattr);
        p32(&mut b, if e.z64_cd & 2 != 0 { u32::MAX } else { lfh as u32 });
        b.extend_from_slice(&e.name);
        b.extend_from_slice(&xx);
        b.extend_from_slice(&e.comment);
    }
    let cd_size = b.len() as u64 - cd_off;
    let n = f.entries.len() as u64;
    b.extend_from_slice(&f.after_cd);
    if f.zip64_end {
        let zo = b.len() as u64;
        b.extend_from_slice(b"PK\x06\x06");
        p64(&mut b, 44 + f.end_extra.len() as u64);
        p16(&mut b, 45);
        p16(&mut b, 45);
        p32(&mut b, 0);
        p32(&mut b, 0);
        p64(&mut b, n);
        p64(&mut b, n);
        p64(&mut b, cd_size);
        p64(&mut b, cd_off);
        b.extend_from_slice(&f.end_extra);
        b.extend_from_slice(b"PK\x06\x07");
        p32(&mut b, 0);
        p64(&mut b, zo);
        p32(&mut b, 1);
    }
    b.extend_from_slice(b"PK\x05\x06");
    let mark = |bit: u8| f.zip64_end && f.marks & bit != 0;
    for _ in 0..2 {
        p16(&mut b, if mark(1) { u16::MAX } else { 0 });
    }
    for _ in 0..2 {
        p16(&mut b, if mark(2) { u16::MAX } else { n as u16 });
    }
    p32(&mut b, if mark(4) { u32::MAX } else { cd_size as u32 });
    p32(&mut b, if mark(8) { u32::MAX } else { cd_off as u32 });
    p16(&mut b, f.comment.len() as u16);
    b.extend_from_slice(&f.comment);
    (b, locs)
}

// ---------------------------------------------------------------- lenient walk

/// Where an entry's parts lie.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Loc {
    pub lfh: u64,
    pub data: u64,
    pub csize: u64,
    pub cd_pos: u64,
    pub dd: bool,
    pub method: u16,
}

#[derive(Clone, Debug)]
pub struct Walk {
    pub locs: Vec<Loc>,
    pub cd_off: u64,
    pub eocdr: u64,
    pub z64: Option<u64>,
}

/// Finds the parts of an archive without judging it.
pub fn walk(b: &[u8]) -> Option<Walk> {
    let n = b.len();
    if n < 22 {
        return None;
    }
    let eocdr = (n.saturating_sub(22 + 65535)..=n - 22)
        .rev()
        .find(|i| b[*i..*i + 4] == *b"PK\x05\x06" && u16at(b, i + 20) as usize == n - i - 22)?;
    let mut count = u16at(b, eocdr + 10) as u64;
    let mut cd_off = u32at(b, eocdr + 16) as u64;
    let mut z64 = None;
    if eocdr >= 20 && b[eocdr - 20..eocdr - 16] == *b"PK\x06\x07" {
        let z = u64at(b, eocdr - 12) as usize;
        if z.checked_add(56)? <= n && b[z..z + 4] == *b"PK\x06\x06" {
            count = u64at(b, z + 32);
            cd_off = u64at(b, z + 48);
            z64 = Some(z as u64);
        }
    }
    let mut locs = Vec::new();
    let mut p = cd_off as usize;
    for _ in 0..count {
        if p.checked_add(46)? > n || b[p..p + 4] != *b"PK\x01\x02" {
            return None;
        }
        let (nl, el, cl) = (u16at(b, p + 28) as usize, u16at(b, p + 30) as usize, u16at(b, p + 32) as usize);
        if p + 46 + nl + el + cl > n {
            return None;
        }
        let (mut us, mut cs, mut lfh) = (u32at(b, p + 24) as u64, u32at(b, p + 20) as u64, u32at(b, p + 42) as u64);
        let ex = parse_extra(&b[p + 46 + nl..p + 46 + nl + el], "").ok()?;
        if let Some(z) = ex.iter().find(|x| x.0 == 1) {
            resolve(&mut [&mut us, &mut cs, &mut lfh], Some(&z.1), "").ok()?;
        }
        let l = lfh as usize;
        if l.checked_add(30)? > n {
            return None;
        }
        let data = lfh + 30 + u16at(b, l + 26) as u64 + u16at(b, l + 28) as u64;
        if data.checked_add(cs)? > n as u64 {
            return None;
        }
        locs.push(Loc { lfh, data, csize: cs, cd_pos: p as u64, dd: u16at(b, p + 8) & 8 != 0, method: u16at(b, p + 10) });
        p += 46 + nl + el + cl;
    }
    Some(Walk { locs, cd_off, eocdr: eocdr as u64, z64 })
}
