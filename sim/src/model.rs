//! Archive specifications, their generators, the drivers that push them through
//! the real writers and readers, and the comparison of what comes back.

use crate::codec::{self, *};
use crate::core::*;
use crate::ensure;
use crate::refzip::{self, Dd, Foreign, ForeignEntry};
use async_zip::base::read::{WithEntry, ZipEntryReader};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{
    Compression, DeflateOption, StringEncoding, ZipDateTime, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipFile,
    ZipString,
};
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use std::rc::Rc;

// ---------------------------------------------------------------- lengths & bytes

/// A length biased towards 0, small values and buffer-size boundaries.
pub fn gen_len(max: u64) -> u64 {
    match weighted(&[10, 22, 26, 18, 14, 10]) {
        0 => range(0, max.min(3)),
        1 => range(0, max.min(40)),
        2 => range(0, max.min(700)),
        3 => {
            let k = range(0, 20);
            let base = 1u64 << k;
            let d = range(0, 6);
            (base + d).saturating_sub(3).min(max)
        }
        4 => {
            let b = [255u64, 512, 1024, 2048, 4096, 8192, 10240, 16384, 32768, 65535, 65536, 131072][draw(12) as usize];
            (b + range(0, 4)).saturating_sub(2).min(max)
        }
        _ => range(0, max),
    }
}

#[derive(Clone, Debug)]
pub struct Payload {
    pub kind: u32,
    pub len: u64,
    pub seed: u32,
}

pub const SIGS: [&[u8]; 6] =
    [b"PK\x03\x04", b"PK\x01\x02", b"PK\x07\x08", b"PK\x06\x06", b"PK\x06\x07", b"PK\x05\x06"];

impl Payload {
    pub fn gen(max: u64) -> Payload {
        let len = gen_len(max);
        let kind = weighted(&[30, 15, 30, 10, 10, 5]) as u32;
        Payload { kind, len, seed: seed32() }
    }
    /// Never contains an end-of-directory signature.
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut r = Rng::new(self.seed as u64);
        let mut v = Vec::with_capacity(n);
        match self.kind {
            0 => {
                // text-like
                while v.len() < n {
                    let w = r.below(50);
                    v.extend_from_slice(format!("word{w} ").as_bytes());
                }
            }
            1 => v.resize(n, 0),
            2 => {
                while v.len() < n {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
            }
            3 => {
                // record signatures mixed with noise
                while v.len() < n {
                    v.extend_from_slice(SIGS[r.below(5) as usize]);
                    for _ in 0..r.below(20) {
                        v.push(r.next() as u8);
                    }
                }
            }
            4 => {
                // UTF-8 text (multi-byte)
                while v.len() < n {
                    let c = ['é', 'ß', '漢', '字', '🦀', 'a', ' '][r.below(7) as usize];
                    let mut b = [0; 4];
                    v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
                let mut k = n.min(v.len());
                while k > 0 && (k < v.len()) && (v[k] & 0xC0) == 0x80 {
                    k -= 1;
                }
                v.truncate(k);
                v.resize(n, b'.');
            }
            _ => {
                // long runs with rare changes
                let mut b = 0u8;
                while v.len() < n {
                    for _ in 0..1 + r.below(3000) {
                        v.push(b);
                    }
                    b = r.next() as u8;
                }
            }
        }
        v.truncate(n);
        scrub(&mut v);
        v
    }
}

/// Removes accidental end-record signatures.
pub fn scrub(v: &mut [u8]) {
    for i in 0..v.len().saturating_sub(3) {
        if v[i] == b'P' && v[i..i + 4] == *b"PK\x05\x06" {
            v[i + 3] = 0;
        }
    }
}

// ---------------------------------------------------------------- strings

#[derive(Clone, Debug)]
pub enum Str {
    Utf8(String),
    Raw(Vec<u8>),
    Alt(String, Vec<u8>),
}

fn expand_utf8(len: usize, style: u32, seed: u32) -> String {
    let mut r = Rng::new(seed as u64 ^ 0x55);
    let mut s = String::new();
    while s.len() < len {
        let c = if style == 0 {
            (b'a' + r.below(26) as u8) as char
        } else {
            ['é', 'ñ', '漢', '🦀', 'x', '/', '.', '_'][r.below(8) as usize]
        };
        if s.len() + c.len_utf8() > len {
            s.push('z');
        } else {
            s.push(c);
        }
    }
    s
}

fn expand_raw(len: usize, seed: u32) -> Vec<u8> {
    let mut r = Rng::new(seed as u64 ^ 0x77);
    let mut v: Vec<u8> = (0..len).map(|_| 0x80 | r.next() as u8).collect();
    // mostly invalid UTF-8; sometimes valid in form
    if r.below(4) == 0 {
        let s = expand_utf8(len, 1, seed);
        v = s.into_bytes();
    }
    v
}

impl Str {
    pub fn gen(max: u64, allow_empty: bool, fancy: u32) -> Str {
        let mut len = match weighted(&[70, 15, 10, 5]) {
            0 => range(0, 12.min(max)),
            1 => range(0, 60.min(max)),
            2 => range(0, 300.min(max)),
            _ => gen_len(max),
        };
        if !allow_empty && len == 0 {
            len = 1;
        }
        let seed = seed32();
        let kind = if chance(fancy) { 1 + draw(4) } else { 0 };
        match kind {
            0 => Str::Utf8(expand_utf8(len as usize, 0, seed)),
            1 => Str::Utf8(expand_utf8(len as usize, 1, seed)),
            2 => Str::Raw(expand_raw(len as usize, seed)),
            3 => {
                let u = expand_utf8((len as usize).max(1), 1, seed);
                Str::Alt(u, expand_raw(1 + draw(20) as usize, seed ^ 9))
            }
            _ => {
                let u = expand_utf8((len as usize).max(1), 1, seed);
                Str::Alt(u, expand_utf8(1 + draw(20) as usize, 0, seed ^ 9).into_bytes())
            }
        }
    }
    pub fn zip(&self) -> ZipString {
        match self {
            Str::Utf8(s) => {
                if s.len() % 4 == 0 {
                    s.as_str().into()
                } else if s.len() % 2 == 0 {
                    s.clone().into()
                } else {
                    ZipString::new(s.clone().into_bytes(), StringEncoding::Utf8)
                }
            }
            Str::Raw(v) => ZipString::new(v.clone(), StringEncoding::Raw),
            Str::Alt(s, a) => ZipString::new_with_alternative(s.clone(), a.clone()),
        }
    }
    pub fn raw(&self) -> &[u8] {
        match self {
            Str::Utf8(s) | Str::Alt(s, _) => s.as_bytes(),
            Str::Raw(v) => v,
        }
    }
    pub fn basic(&self) -> &[u8] {
        match self {
            Str::Alt(_, a) => a,
            _ => self.raw(),
        }
    }
    pub fn plain(&self) -> bool {
        matches!(self, Str::Utf8(_))
    }
    pub fn is_utf8(&self) -> bool {
        !matches!(self, Str::Raw(_))
    }
    /// What the reader must present for this string.
    pub fn check(&self, got: &ZipString, what: &str) {
        ensure!(
            got.as_bytes() == self.raw(),
            "string",
            "{what}: bytes {} came back as {}",
            brief(self.raw()),
            brief(got.as_bytes())
        );
        let got_utf8 = matches!(got.encoding(), StringEncoding::Utf8);
        match self {
            Str::Utf8(s) | Str::Alt(s, _) => {
                ensure!(got_utf8, "string", "{what}: UTF-8 text came back as raw bytes");
                ensure!(got.as_str().ok() == Some(s.as_str()), "string", "{what}: as_str differs");
            }
            Str::Raw(v) => {
                if !v.is_ascii() {
                    ensure!(!got_utf8, "string", "{what}: raw (non-UTF-8) bytes came back labelled UTF-8");
                }
            }
        }
        ensure!(got.clone().into_alternative().as_deref() == got.alternative(), "string", "{what}: two different alternative forms");
        match (self, got.alternative()) {
            (Str::Alt(_, a), g) => {
                ensure!(g == Some(&a[..]), "string", "{what}: alternative form {} came back as {:?}", brief(a), g.map(brief))
            }
            (s, Some(g)) => {
                ensure!(g == s.raw(), "string", "{what}: an alternative form appeared from nowhere: {}", brief(g))
            }
            (_, None) => {}
        }
    }
}

pub fn brief(b: &[u8]) -> String {
    if b.len() <= 24 {
        format!("[{}]{:?}", b.len(), String::from_utf8_lossy(b))
    } else {
        format!("[{}]{:?}..{:08x}", b.len(), String::from_utf8_lossy(&b[..16]), crc32fast::hash(b))
    }
}

// ---------------------------------------------------------------- entries

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Whole,
    Stream,
    WholePre,
    StreamPre,
}

#[derive(Clone, Debug)]
pub struct EntrySpec {
    pub name: Str,
    pub comment: Str,
    pub method: u16,
    pub level: Option<i32>,
    pub date: (i32, u32, u32, u32, u32, u32),
    pub iattr: u16,
    pub eattr: u32,
    pub perms: Option<u16>,
    pub extra: Vec<(u16, Vec<u8>)>,
    pub mode: Mode,
    pub hints: Option<(u32, u32, u32)>,
    pub data: Rc<Vec<u8>>,
    pub pre: Option<Rc<Vec<u8>>>,
    /// chunk size for streaming writes (0 = all at once), flush between chunks permille
    pub chunk: u64,
    pub flush: u32,
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub max_data: u64,
    pub max_str: u64,
    pub fancy: u32,
    pub methods: &'static [(u16, u32)],
    pub modes: [u32; 4],
    pub extras: u32,
    pub flush: u32,
}

pub const ALL_METHODS: &[(u16, u32)] = &[(STORED, 30), (DEFLATE, 38), (ZSTD, 12), (BZIP2, 6), (LZMA, 3), (XZ, 3)];
pub const FAST_METHODS: &[(u16, u32)] = &[(STORED, 40), (DEFLATE, 45), (ZSTD, 15)];

impl GenCfg {
    pub const DEFAULT: GenCfg = GenCfg {
        max_data: 20_000,
        max_str: 2000,
        fancy: 250,
        methods: ALL_METHODS,
        modes: [40, 35, 12, 13],
        extras: 150,
        flush: 60,
    };
    /// Per-run (swarm) variation of a base configuration.
    pub fn swarm(mut self) -> GenCfg {
        match weighted(&[60, 20, 15, 5]) {
            0 => {}
            1 => self.max_data = self.max_data.min(300),
            2 => {
                self.max_data = self.max_data.min(3000);
                self.max_str = 65535;
            }
            _ => self.max_data = self.max_data.max(140_000),
        }
        if chance(200) {
            self.methods = FAST_METHODS;
        }
        match weighted(&[70, 10, 10, 5, 5]) {
            0 => {}
            k => {
                self.modes = [0; 4];
                self.modes[k - 1] = 1;
            }
        }
        if chance(150) {
            self.fancy = 1000;
        }
        self
    }
}

pub fn compression(m: u16) -> Compression {
    Compression::try_from(m).expect("known method")
}

pub type Date = (i32, u32, u32, u32, u32, u32);

pub fn zip_date(d: Date) -> ZipDateTime {
    ZipDateTimeBuilder::new().year(d.0).month(d.1).day(d.2).hour(d.3).minute(d.4).second(d.5).build()
}

fn chrono_date(d: Date) -> Option<chrono::DateTime<chrono::Utc>> {
    use chrono::TimeZone;
    chrono::Utc.with_ymd_and_hms(d.0, d.1, d.2, d.3, d.4, d.5).single()
}

/// A date as a caller may make it: field by field in any order, by changing another one, or from chrono.
fn make_date(d: Date) -> ZipDateTime {
    let how = weighted(&[60, 25, 15]);
    if how == 2 {
        if let Some(mut c) = chrono_date(d) {
            // What the format cannot express is dropped.
            c += chrono::TimeDelta::milliseconds(draw(2000) as i64);
            probe("date_from_chrono");
            return if chance(500) { ZipDateTime::from_chrono(&c) } else { c.into() };
        }
    }
    let mut b = ZipDateTimeBuilder::new();
    if how == 1 {
        probe("date_edited");
        b = zip_date((1980 + draw(128) as i32, draw(16), draw(32), draw(32), draw(64), 2 * draw(32))).into();
    }
    let first = draw(6);
    for k in 0..6 {
        b = match (first + k) % 6 {
            0 => b.year(d.0),
            1 => b.month(d.1),
            2 => b.day(d.2),
            3 => b.hour(d.3),
            4 => b.minute(d.4),
            _ => b.second(d.5 + draw(2)),
        };
    }
    b.build()
}

/// Every way of looking at a date agrees with `d`.
pub fn check_date(d: Date, got: &ZipDateTime, what: &str) {
    let g = (got.year(), got.month(), got.day(), got.hour(), got.minute(), got.second());
    ensure!(g == d, "meta", "{what}: date {d:?} came back as {g:?}");
    ensure!(*got == zip_date(d), "meta", "{what}: date {d:?} does not equal the same date built afresh");
    let c = got.as_chrono().single();
    let by_value: chrono::LocalResult<chrono::DateTime<chrono::Utc>> = (*got).into();
    ensure!(by_value.single() == c, "meta", "{what}: date {d:?} is two different dates for chrono");
    ensure!(c == chrono_date(d), "meta", "{what}: date {d:?} is {c:?} for chrono");
}

pub fn packed_date(d: (i32, u32, u32, u32, u32, u32)) -> (u16, u16) {
    let date = (((d.0 - 1980) as u16) << 9) | ((d.1 as u16) << 5) | d.2 as u16;
    let time = ((d.3 as u16) << 11) | ((d.4 as u16) << 5) | (d.5 as u16 >> 1);
    (date, time)
}

pub fn gen_extra(n_max: u32) -> Vec<(u16, Vec<u8>)> {
    let n = small(n_max);
    let mut v = (0..n)
        .map(|_| {
            let id = [0x5455u16, 0x7875, 0x000a, 0xcafe, 0xffff, 0x0002][draw(6) as usize];
            let len = match weighted(&[3, 5, 1]) {
                0 => 0,
                1 => range(1, 30),
                _ => gen_len(600),
            };
            let p = Payload { kind: 2, len, seed: seed32() };
            (id, p.bytes())
        })
        .collect::<Vec<_>>();
    // known finding K3: a zero-length field at the very end is lost
    if let Some(l) = v.last_mut() {
        if l.1.is_empty() {
            l.1.push(7);
        }
    }
    v
}

pub fn gen_entry(cfg: &GenCfg) -> EntrySpec {
    let mi = weighted(&cfg.methods.iter().map(|m| m.1).collect::<Vec<_>>());
    let method = cfg.methods[mi].0;
    let mode = [Mode::Whole, Mode::Stream, Mode::WholePre, Mode::StreamPre][weighted(&cfg.modes)];
    let heavy = matches!(method, LZMA | XZ | BZIP2);
    let max = if heavy { cfg.max_data.min(20_000) } else { cfg.max_data };
    let payload = Payload::gen(max);
    let data = Rc::new(payload.bytes());
    let mut method = method;
    if matches!(mode, Mode::WholePre | Mode::StreamPre) && chance(60) {
        method = DEFLATE64;
    }
    let level = if chance(500) {
        Some(match method {
            DEFLATE => range(0, 9) as i32,
            BZIP2 => range(1, 9) as i32,
            ZSTD => range(1, 6) as i32,
            LZMA | XZ => range(0, 1) as i32,
            _ => 5,
        })
    } else if matches!(method, LZMA | XZ) && mode == Mode::Whole {
        Some(0)
    } else {
        None
    };
    let pre = if matches!(mode, Mode::WholePre | Mode::StreamPre) {
        Some(Rc::new(codec::encode(method, &data, level.unwrap_or(3).max(0) as u32)))
    } else {
        None
    };
    let mut name = Str::gen(cfg.max_str, true, cfg.fancy);
    if chance(60) {
        if let Str::Utf8(s) = &mut name {
            s.push('/');
        }
    }
    let comment = if chance(350) { Str::gen(cfg.max_str, true, cfg.fancy) } else { Str::Utf8(String::new()) };
    let extra = if chance(cfg.extras) { gen_extra(4) } else { Vec::new() };
    let date = if chance(700) {
        (
            1980 + draw(128) as i32,
            draw(16),
            draw(32),
            draw(32),
            draw(64),
            2 * draw(32),
        )
    } else {
        (1980, 0, 0, 0, 0, 0)
    };
    let (iattr, eattr, perms) = if chance(600) {
        (seed32() as u16, seed32(), if chance(400) { Some(seed32() as u16) } else { None })
    } else {
        (0, 0, None)
    };
    // Figures announced before they are known may be anything, in particular too small.
    let guess = |n: usize| match draw(4) {
        0 => seed32() >> 1,
        1 => draw(60),
        _ => (n as u32 + draw(9)).saturating_sub(4),
    };
    let hints = if chance(150) { Some((seed32(), guess(data.len() / 2), guess(data.len()))) } else { None };
    let chunk = match weighted(&[40, 20, 30, 10]) {
        0 => 0,
        1 => 1 + range(0, 15),
        2 => 1 + range(0, 4000),
        _ => [1024, 2048, 8192, 65536][draw(4) as usize],
    };
    let mut e = EntrySpec {
        name,
        comment,
        method,
        level,
        date,
        iattr,
        eattr,
        perms,
        extra,
        mode,
        hints,
        data,
        pre,
        chunk,
        flush: if chance(300) { cfg.flush } else { 0 },
    };
    e.clamp();
    e
}

impl EntrySpec {
    pub fn simple(name: &str, method: u16, mode: Mode, data: Vec<u8>) -> EntrySpec {
        let data = Rc::new(data);
        EntrySpec {
            name: Str::Utf8(name.into()),
            comment: Str::Utf8(String::new()),
            method,
            level: None,
            date: (1980, 0, 0, 0, 0, 0),
            iattr: 0,
            eattr: 0,
            perms: None,
            extra: Vec::new(),
            mode,
            hints: None,
            pre: if matches!(mode, Mode::WholePre | Mode::StreamPre) {
                Some(Rc::new(codec::encode(method, &data, 3)))
            } else {
                None
            },
            data,
            chunk: 0,
            flush: 0,
        }
    }

    /// Bytes of extra field data the writer will need for this entry.
    pub fn extra_len(&self) -> usize {
        let mut n = refzip::ser_extra(&self.extra).len();
        if !(self.name.plain() && self.comment.plain()) {
            for s in [&self.name, &self.comment] {
                if s.is_utf8() && !s.raw().is_empty() {
                    n += 9 + s.raw().len();
                }
            }
        }
        n + 28
    }

    /// Keeps the request inside what the format can hold.
    fn clamp(&mut self) {
        if self.extra_len() > 65535 {
            self.name = Str::Utf8("clamped".into());
            self.comment = Str::Utf8("c".into());
        }
        for s in [&mut self.name, &mut self.comment] {
            if s.basic().len() > 65535 {
                *s = Str::Utf8("clamped".into());
            }
        }
    }

    pub fn crc(&self) -> u32 {
        crc32fast::hash(&self.data)
    }

    pub fn eattr_final(&self) -> u32 {
        match self.perms {
            Some(p) => (self.eattr & 0xFFFF) | (p as u32) << 16,
            None => self.eattr,
        }
    }

    pub fn builder(&self) -> ZipEntryBuilder {
        let mut b = if chance(900) {
            ZipEntryBuilder::new(self.name.zip(), compression(self.method)).comment(self.comment.zip())
        } else {
            // The same entry made out of another one.
            let other = ZipEntryBuilder::new("other".into(), Compression::Stored).comment("other".into()).build();
            let b = ZipEntryBuilder::from(other).comment(self.comment.zip()).compression(compression(self.method));
            let b = b.attribute_compatibility(async_zip::AttributeCompatibility::Unix).filename(self.name.zip());
            self.name.check(b.current().filename(), "name of an entry being built");
            self.comment.check(b.current().comment(), "comment of an entry being built");
            b
        };
        b = b
            .last_modification_date(make_date(self.date))
            .internal_file_attribute(self.iattr)
            .external_file_attribute(self.eattr);
        if let Some(p) = self.perms {
            b = b.unix_permissions(p);
        }
        if let Some(l) = self.level {
            b = b.deflate_option(DeflateOption::Other(l));
        }
        if let Some((crc, cs, us)) = self.hints {
            b = b.crc32(crc).compressed_size(cs).uncompressed_size(us);
            let e = b.current();
            ensure!(
                (e.crc32(), e.compressed_size(), e.uncompressed_size()) == (crc, cs as u64, us as u64),
                "builder",
                "an entry being built has other sizes or another checksum than those set"
            );
        }
        if self.pre.is_some() {
            // The checksum as the documentation of precompressed entries says to get it.
            b = b.crc32(async_zip::base::write::crc32(&self.data)).uncompressed_size(self.data.len() as u64);
        }
        if !self.extra.is_empty() {
            b = with_extras(b, &self.extra);
        }
        b
    }

    pub fn describe(&self) -> String {
        format!(
            "{:?} method={} name={} comment={} data={} level={:?} chunk={} extra={:?}",
            self.mode,
            self.method,
            brief(self.name.raw()),
            brief(self.comment.raw()),
            self.data.len(),
            self.level,
            self.chunk,
            self.extra.iter().map(|e| (e.0, e.1.len())).collect::<Vec<_>>()
        )
    }
}

/// The library's extra-field types cannot be named by users; they are obtained
/// by reading an archive that has them.
pub fn with_extras(b: ZipEntryBuilder, extra: &[(u16, Vec<u8>)]) -> ZipEntryBuilder {
    let entries: Vec<ForeignEntry> = extra.iter().map(|x| {
        let mut extra = vec![x.clone()];
        if x.1.is_empty() {
            extra.push((0xBEEF, vec![1])); // known finding K3
        }
        ForeignEntry { extra, ..ForeignEntry::bare(b"x") }
    }).collect();
    let cd_order = (0..entries.len()).collect();
    let f = Foreign { entries, comment: vec![], zip64_end: false, marks: 0, end_extra: vec![], after_cd: vec![], prefix: vec![], gaps: vec![], cd_order };
    let (bytes, _) = refzip::write_foreign(&f);
    match block(async_zip::base::read::mem::ZipFileReader::new(bytes)) {
        Ok(r) => b.extra_fields(r.file().entries().iter().filter_map(|e| e.extra_fields().first().cloned()).collect()),
        Err(e) => violation(
            "open",
            format!("an archive with extra fields {:?} is refused: {e}", extra.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>()),
        ),
    }
}

/// Runs a future that never waits (in-memory data).
pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    for _ in 0..1_000_000 {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    violation("no-progress", "an operation on in-memory data never completes".into())
}

// ---------------------------------------------------------------- archive spec

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Z64 {
    Auto,
    Force,
    Never,
}

#[derive(Clone, Debug)]
pub struct ArchiveSpec {
    pub entries: Vec<EntrySpec>,
    pub comment: Option<String>,
    pub z64: Z64,
}

pub fn gen_comment(max: u64) -> String {
    let len = match weighted(&[40, 30, 30]) {
        0 => range(0, 30.min(max)),
        1 => range(0, 300.min(max)),
        _ => gen_len(max),
    };
    let mut s = expand_utf8(len as usize, draw(2), seed32());
    if chance(300) {
        // text that looks like pieces of records
        for sig in ["PK\x05", "PK\x01\x02", "PK\x06\x06", "PKPK", "PK\x06\x07", "PK"] {
            if s.len() + sig.len() <= len as usize && s.is_char_boundary(s.len() / 2) {
                s.insert_str(s.len() / 2, sig);
            }
        }
    }
    while s.len() > max as usize {
        s.pop();
    }
    if s.contains("PK\x05\x06") {
        s = s.replace("PK\x05\x06", "PK..");
    }
    s
}

pub fn gen_archive(cfg: &GenCfg, max_entries: u64) -> ArchiveSpec {
    let cfg = cfg.swarm();
    let n = match weighted(&[10, 30, 45, 15]) {
        0 => 0,
        1 => 1,
        2 => range(1, 4.min(max_entries)),
        _ => range(0, max_entries),
    };
    let z64 = [Z64::Auto, Z64::Force, Z64::Never][weighted(&[60, 15, 25])];
    let entries = (0..n).map(|_| gen_entry(&cfg)).collect();
    let comment = if chance(400) { Some(gen_comment(65535)) } else { None };
    ArchiveSpec { entries, comment, z64 }
}

/// Many tiny entries (count boundaries).
pub fn gen_many(n: usize) -> ArchiveSpec {
    let mode = [Mode::Whole, Mode::Stream][draw(2) as usize];
    let entries = (0..n)
        .map(|i| {
            let mut e = EntrySpec::simple(&format!("f{i}"), STORED, mode, vec![i as u8; i % 3]);
            e.eattr = i as u32;
            e
        })
        .collect();
    ArchiveSpec { entries, comment: None, z64: Z64::Auto }
}

pub fn configure<W: AsyncWrite + Unpin>(w: ZipFileWriter<W>, z: Z64) -> ZipFileWriter<W> {
    match z {
        Z64::Auto => w,
        Z64::Force => w.force_zip64(),
        Z64::Never => w.force_no_zip64(),
    }
}

/// Writes the data of a streamed entry in the spec's chunks.
/// How often `feed` flushes.
pub fn flushes(spec: &EntrySpec) -> u64 {
    let data = match spec.mode {
        Mode::Stream => &spec.data,
        Mode::StreamPre => spec.pre.as_ref().unwrap(),
        _ => return 0,
    };
    if spec.flush == 0 || spec.method == LZMA {
        return 0;
    }
    let (mut at, mut k, mut count) = (0, mix(spec.chunk, data.len() as u64), 0);
    while at < data.len() {
        at += if spec.chunk == 0 { data.len() } else { (spec.chunk as usize).min(data.len() - at) };
        k = mix(k, at as u64);
        count += (k % 1000 < spec.flush as u64) as u64;
    }
    count
}

pub async fn feed<S: AsyncWrite + Unpin>(s: &mut S, spec: &EntrySpec, data: &[u8]) -> std::io::Result<()> {
    if data.is_empty() && spec.chunk % 2 == 1 {
        // a zero-length write is legal too
        let n = s.write(&[]).await?;
        ensure!(n == 0, "contract", "a zero-length write reported {n} bytes");
    }
    let mut at = 0;
    let odd_writes = chance(120);
    // Which chunks are followed by a flush is part of the request, not of the schedule.
    let mut k = mix(spec.chunk, data.len() as u64);
    while at < data.len() {
        let n = if spec.chunk == 0 { data.len() } else { (spec.chunk as usize).min(data.len() - at) };
        let end = (at + n).min(data.len());
        if odd_writes && chance(300) {
            odd_write(s, &data[at..end]).await?;
        } else {
            s.write_all(&data[at..end]).await?;
        }
        at = end;
        k = mix(k, at as u64);
        if spec.flush > 0 && spec.method != LZMA && k % 1000 < spec.flush as u64 {
            s.flush().await?;
        }
    }
    Ok(())
}

/// Writes everything in the less usual ways the trait offers: vectored writes, and single writes given up when they
/// are not ready at once (nothing was taken then) and tried again with another length.
async fn odd_write<S: AsyncWrite + Unpin>(s: &mut S, data: &[u8]) -> std::io::Result<()> {
    let mut at = 0;
    let mut given_up = 0;
    while at < data.len() {
        let rest = &data[at..];
        let n = if chance(500) {
            let a = draw(rest.len().min(40) as u32 + 1) as usize;
            let b = (a + draw((rest.len() - a).min(4000) as u32 + 1) as usize).max(1);
            s.write_vectored(&[std::io::IoSlice::new(&rest[..a]), std::io::IoSlice::new(&[]), std::io::IoSlice::new(&rest[a..b])]).await?
        } else {
            let a = 1 + draw(rest.len().min(4000) as u32) as usize;
            let mut w = s.write(&rest[..a]);
            if given_up < 3 {
                match futures_lite::future::poll_once(&mut w).await {
                    Some(r) => r?,
                    None => {
                        drop(w);
                        probe("write_given_up");
                        given_up += 1;
                        crate::core::sleep(1 + draw(6) as u64).await;
                        continue;
                    }
                }
            } else {
                w.await?
            }
        };
        ensure!(n <= rest.len(), "contract", "a write of {} bytes reported {n}", rest.len());
        if n == 0 {
            return Err(std::io::ErrorKind::WriteZero.into());
        } else {
            at += n;
        }
    }
    Ok(())
}

/// The trait's `close` is reachable too (`AsyncWriteExt::close`, sinks, copy helpers); the entry's own close follows it.
async fn end_stream<'b, W: AsyncWrite + Unpin>(mut s: async_zip::base::write::EntryStreamWriter<'b, W>) -> Result<(), ZipError> {
    if chance(60) {
        probe("trait_close_first");
        AsyncWriteExt::close(&mut s).await?;
    }
    s.close().await
}

pub async fn write_entry<W: AsyncWrite + Unpin>(zip: &mut ZipFileWriter<W>, e: &EntrySpec) -> Result<(), ZipError> {
    trace(|| format!("op write_entry {}", e.describe()));
    match e.mode {
        Mode::Whole => {
            if e.chunk % 2 == 0 {
                zip.write_entry_whole(e.builder(), &e.data).await
            } else {
                zip.write_entry_whole(e.builder().build(), &e.data).await
            }
        }
        Mode::WholePre => zip.write_entry_whole_precompressed(e.builder(), e.pre.as_ref().unwrap()).await,
        Mode::Stream => {
            let mut s = zip.write_entry_stream(e.builder()).await?;
            feed(&mut s, e, &e.data).await?;
            end_stream(s).await
        }
        Mode::StreamPre => {
            let mut s = zip.write_entry_stream_precompressed(e.builder()).await?;
            feed(&mut s, e, e.pre.as_ref().unwrap()).await?;
            end_stream(s).await
        }
    }
}

/// Writes everything with a perfectly behaved in-memory sink.
pub fn write_plain(spec: &ArchiveSpec) -> Result<Vec<u8>, ZipError> {
    block(async {
        let mut w = configure(ZipFileWriter::new(Vec::new()), spec.z64);
        for e in &spec.entries {
            write_entry(&mut w, e).await?;
        }
        if let Some(c) = &spec.comment {
            w.comment(c.clone());
        }
        w.close().await
    })
}

// ---------------------------------------------------------------- view checks

pub fn method_of(e: &ZipEntry) -> u16 {
    u16::from(e.compression())
}

/// Directory metadata of `got` must be exactly what `spec` asked for.
pub fn check_meta(spec: &EntrySpec, got: &ZipEntry, what: &str) {
    spec.name.check(got.filename(), &format!("{what} name"));
    spec.comment.check(got.comment(), &format!("{what} comment"));
    ensure!(method_of(got) == spec.method, "meta", "{what}: method {} came back as {}", spec.method, method_of(got));
    check_date(spec.date, got.last_modification_date(), what);
    ensure!(got.internal_file_attribute() == spec.iattr, "meta", "{what}: internal attribute differs");
    ensure!(
        got.external_file_attribute() == spec.eattr_final(),
        "meta",
        "{what}: external attribute {:#x} came back as {:#x}",
        spec.eattr_final(),
        got.external_file_attribute()
    );
    ensure!(
        got.unix_permissions() == Some((spec.eattr_final() >> 16) as u16),
        "meta",
        "{what}: unix permissions differ"
    );
    if let Str::Utf8(s) = &spec.name {
        ensure!(got.dir().ok() == Some(s.ends_with('/')), "meta", "{what}: directory flag differs");
    }
    ensure!(got.crc32() == spec.crc(), "meta", "{what}: CRC differs");
    ensure!(
        got.uncompressed_size() == spec.data.len() as u64,
        "meta",
        "{what}: size {} came back as {}",
        spec.data.len(),
        got.uncompressed_size()
    );
    if spec.method == STORED {
        ensure!(got.compressed_size() == spec.data.len() as u64, "meta", "{what}: compressed size differs");
    }
    if let Some(p) = &spec.pre {
        ensure!(got.compressed_size() == p.len() as u64, "meta", "{what}: compressed size differs");
    }
    check_extras(&spec.extra, got, what);
}

/// The unknown extra fields asked for are all present, in order, unaltered.
pub fn check_extras(want: &[(u16, Vec<u8>)], got: &ZipEntry, what: &str) {
    let got: Vec<String> =
        got.extra_fields().iter().map(|f| format!("{f:?}")).filter(|s| s.starts_with("Unknown")).collect();
    let want: Vec<String> = want
        .iter()
        .filter(|e| !matches!(e.0, 1 | 0x6375 | 0x7075))
        .map(|(id, d)| {
            format!("Unknown(UnknownExtraField {{ header_id: HeaderId({id}), data_size: {}, content: {d:?} }})", d.len())
        })
        .collect();
    if want != got {
        // Tolerate a different Debug rendering: compare counts and contents loosely first.
        let loose = |v: &Vec<String>| v.len();
        ensure!(
            loose(&want) == loose(&got) && want.iter().zip(&got).all(|(a, b)| digits(a) == digits(b)),
            "extra",
            "{what}: unknown extra fields {want:?} came back as {got:?}"
        );
    }
}

fn digits(s: &str) -> Vec<u64> {
    let mut v = Vec::new();
    let mut cur = None;
    for c in s.chars() {
        if let Some(d) = c.to_digit(10) {
            cur = Some(cur.unwrap_or(0) * 10 + d as u64);
        } else if let Some(x) = cur.take() {
            v.push(x);
        }
    }
    v
}

pub fn check_file(file: &ZipFile, want: &[EntrySpec], comment: Option<&str>, what: &str) {
    ensure!(
        file.entries().len() == want.len(),
        "entries",
        "{what}: {} entries were written, {} are listed",
        want.len(),
        file.entries().len()
    );
    for (i, (w, g)) in want.iter().zip(file.entries()).enumerate() {
        check_meta(w, g, &format!("{what}: entry {i}"));
    }
    ensure!(
        file.comment().as_bytes() == comment.unwrap_or("").as_bytes(),
        "comment",
        "{what}: archive comment {} came back as {}",
        brief(comment.unwrap_or("").as_bytes()),
        brief(file.comment().as_bytes())
    );
    ensure!(file.comment().as_str().is_ok(), "comment", "{what}: archive comment lost its encoding");
}

pub fn check_data(want: &[u8], got: &[u8], what: &str) {
    if want != got {
        let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        violation(
            "data",
            format!("{what}: content differs at byte {at} (expected {} bytes, got {})", want.len(), got.len()),
        );
    }
}

// ---------------------------------------------------------------- reading

#[derive(Clone, Copy, Debug)]
pub enum Style {
    ToEnd,
    Chunks(u32),
    RandomChunks,
    Vectored,
}

pub fn gen_style() -> Style {
    match weighted(&[40, 30, 30, 8]) {
        3 => Style::Vectored,
        0 => Style::ToEnd,
        1 => Style::Chunks([1, 2, 7, 64, 1000, 4096][draw(6) as usize]),
        _ => Style::RandomChunks,
    }
}

/// One read of at least one byte, in the given style; 0 is the end.
pub async fn read_some<R: AsyncRead + Unpin>(r: &mut R, style: Style, buf: &mut [u8]) -> std::io::Result<usize> {
    if chance(10) {
        let n = r.read(&mut []).await?;
        ensure!(n == 0, "contract", "a read into nothing reported {n} bytes");
    }
    let want = match style {
        Style::ToEnd => buf.len(),
        Style::Chunks(k) => k as usize,
        Style::RandomChunks | Style::Vectored => 1 + draw(3000) as usize,
    };
    let n = if let Style::Vectored = style {
        let a = draw(want as u32 + 1) as usize;
        let (x, y) = buf[..want].split_at_mut(a);
        let mut none: [u8; 0] = [];
        let n = r.read_vectored(&mut [std::io::IoSliceMut::new(&mut none), std::io::IoSliceMut::new(x), std::io::IoSliceMut::new(y)]).await?;
        n
    } else {
        r.read(&mut buf[..want]).await?
    };
    ensure!(n <= want, "contract", "read of {want} bytes reported {n}");
    Ok(n)
}

/// Reads an entry to its end; `so_far` keeps what arrived before an error.
pub async fn read_all<R: AsyncRead + Unpin>(r: &mut R, style: Style, so_far: &mut Vec<u8>) -> std::io::Result<()> {
    match style {
        Style::ToEnd => {
            let before = so_far.len();
            let n = r.read_to_end(so_far).await?;
            ensure!(n == so_far.len() - before, "contract", "read_to_end reported {n}");
        }
        _ => {
            let mut buf = vec![0u8; 8192];
            loop {
                let n = read_some(r, style, &mut buf).await?;
                if n == 0 {
                    break;
                }
                so_far.extend_from_slice(&buf[..n]);
            }
        }
    }
    // End of data is stable.
    let mut b = [0u8; 16];
    for _ in 0..2 {
        let n = r.read(&mut b).await?;
        ensure!(n == 0, "data", "{n} bytes appeared after the end of the entry");
    }
    Ok(())
}

/// A checked read, through bytes or text as the tape chooses.
pub async fn read_checked<R: AsyncBufRead + Unpin>(
    r: &mut ZipEntryReader<'_, R, WithEntry<'_>>,
) -> Result<Vec<u8>, ZipError> {
    let utf8_hint = chance(300);
    if utf8_hint {
        let mut s = String::new();
        let n = r.read_to_string_checked(&mut s).await?;
        ensure!(n == s.len(), "contract", "read_to_string_checked reported {n} for {} bytes", s.len());
        Ok(s.into_bytes())
    } else {
        let mut v = Vec::new();
        let n = r.read_to_end_checked(&mut v).await?;
        ensure!(n == v.len(), "contract", "read_to_end_checked reported {n} for {} bytes", v.len());
        Ok(v)
    }
}
