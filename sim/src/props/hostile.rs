//! Damaged, malformed and malicious archives.
use super::foreign::*;
use super::*;
use crate::refzip::*;

/// Every length, count, offset, flag and size in the archive: (offset, width).
fn fields(b: &[u8], w: &Walk) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut add = |base: usize, list: &[(usize, usize)]| {
        for (o, n) in list {
            if base + o + n <= b.len() {
                v.push((base + o, *n));
            }
        }
    };
    for l in &w.locs {
        let p = l.lfh as usize;
        add(p, &[(0, 4), (4, 2), (6, 2), (8, 2), (10, 2), (12, 2), (14, 4), (18, 4), (22, 4), (26, 2), (28, 2)]);
        let (nl, el) = (u16at(b, p + 26) as usize, u16at(b, p + 28) as usize);
        extras(b, p + 30 + nl, el, &mut add);
        let p = l.cd_pos as usize;
        add(p, &[(0, 4), (4, 2), (6, 2), (8, 2), (10, 2), (12, 2), (14, 2), (16, 4), (20, 4), (24, 4), (28, 2), (30, 2), (32, 2), (34, 2), (36, 2), (38, 4), (42, 4)]);
        let (nl, el) = (u16at(b, p + 28) as usize, u16at(b, p + 30) as usize);
        extras(b, p + 46 + nl, el, &mut add);
        if l.dd {
            add((l.data + l.csize) as usize, &[(0, 4), (4, 4), (8, 4), (12, 4)]);
        }
    }
    add(w.eocdr as usize, &[(0, 4), (4, 2), (6, 2), (8, 2), (10, 2), (12, 4), (16, 4), (20, 2)]);
    if let Some(z) = w.z64 {
        add(z as usize, &[(0, 4), (4, 8), (12, 2), (14, 2), (16, 4), (20, 4), (24, 8), (32, 8), (40, 8), (48, 8)]);
        add(w.eocdr as usize - 20, &[(0, 4), (4, 4), (8, 8), (16, 4)]);
    }
    v
}

fn extras(b: &[u8], at: usize, len: usize, add: &mut impl FnMut(usize, &[(usize, usize)])) {
    let mut i = at;
    while i + 4 <= at + len && i + 4 <= b.len() {
        let n = u16at(b, i + 2) as usize;
        add(i, &[(0, 2), (2, 2)]);
        if n > 0 {
            add(i, &[(4, 1)]);
        }
        for k in 0..(n / 8).min(4) {
            add(i, &[(4 + 8 * k, 8)]);
        }
        i += 4 + n;
    }
}

fn value(len: usize, width: usize, old: u64) -> u64 {
    let max = if width == 8 { u64::MAX } else { (1u64 << (8 * width)) - 1 };
    let near = |x: u64| {
        let d = small(30) as u64;
        if chance(500) {
            x.wrapping_add(d)
        } else {
            x.wrapping_sub(d)
        }
    };
    let v = match weighted(&[4, 4, 3, 3, 3, 3, 3, 2]) {
        0 => near(old),
        1 => near(max),
        2 => near(0),
        3 => near(len as u64),
        4 => 1u64.rotate_left(draw(64)),
        5 => near(1u64.rotate_left(draw(64))),
        6 => seed32() as u64 | (seed32() as u64) << 32,
        _ => {
            // record and field identifiers, methods, flags
            [0x04034b50u64, 0x02014b50, 0x08074b50, 0x06054b50, 0x06064b50, 0x07064b50, 1, 0x7075, 0x6375, 8, 9, 12, 14, 93, 95, 0x800, 0x808][draw(17) as usize]
        }
    };
    v & max
}

fn put(b: &mut [u8], at: usize, width: usize, v: u64) {
    b[at..at + width].copy_from_slice(&v.to_le_bytes()[..width]);
}

/// Makes the bytes worse in a few places; what was done goes to the trace.
pub fn mutate(b: &mut Vec<u8>) {
    let n = 1 + small(4);
    for _ in 0..n {
        let w = walk(b);
        let kind = weighted(&[if w.is_some() { 50 } else { 0 }, 12, 6, 6, 5, 4, 5]);
        let len = b.len();
        match kind {
            0 => {
                let f = fields(b, w.as_ref().unwrap());
                if f.is_empty() {
                    continue;
                }
                let (at, width) = f[draw(f.len() as u32) as usize];
                let mut old = [0u8; 8];
                old[..width].copy_from_slice(&b[at..at + width]);
                let old = u64::from_le_bytes(old);
                let v = value(len, width, old);
                trace(|| format!("mutation: field at {at} ({width} bytes) {old:#x} -> {v:#x}"));
                put(b, at, width, v);
            }
            1 => {
                if len > 0 {
                    for _ in 0..1 + small(6) {
                        let at = draw(len as u32) as usize;
                        b[at] = if chance(500) { b[at] ^ 1 << draw(8) } else { seed32() as u8 };
                    }
                }
            }
            2 => {
                // lose a piece
                if len > 0 {
                    let at = draw(len as u32) as usize;
                    let n = (1 + small(60) as usize).min(len - at);
                    trace(|| format!("mutation: {n} bytes removed at {at}"));
                    b.drain(at..at + n);
                }
            }
            3 => {
                // gain a piece
                let at = draw(len as u32 + 1) as usize;
                let p = Payload { kind: [2, 1, 3][draw(3) as usize], len: 1 + small(60) as u64, seed: seed32() }.bytes();
                trace(|| format!("mutation: {} bytes inserted at {at}", p.len()));
                b.splice(at..at, p);
            }
            4 => {
                let at = draw(len as u32 + 1) as usize;
                trace(|| format!("mutation: cut at {at}"));
                b.truncate(at);
            }
            5 => {
                // a piece of it again, elsewhere
                if len > 0 {
                    let s = draw(len as u32) as usize;
                    let e = (s + 1 + draw(400) as usize).min(len);
                    let piece = b[s..e].to_vec();
                    let at = draw(len as u32 + 1) as usize;
                    trace(|| format!("mutation: bytes {s}..{e} repeated at {at}"));
                    b.splice(at..at, piece);
                }
            }
            _ => {
                let n = small(60) as usize;
                let p = Payload { kind: [2, 1][draw(2) as usize], len: n as u64, seed: seed32() }.bytes();
                b.extend_from_slice(&p);
            }
        }
        fault("malformed_input");
        if b.len() > 400_000 {
            b.truncate(400_000);
        }
    }
}

fn le(v: &mut Vec<u8>, width: usize, x: u64) {
    v.extend_from_slice(&x.to_le_bytes()[..width]);
}

/// End records around claims of the attacker's choosing.
fn forged() -> Vec<u8> {
    let mut b = Payload { kind: [2, 1, 3, 0][draw(4) as usize], len: range(0, 300), seed: seed32() }.bytes();
    let huge = |w: usize| value(200, w, 0);
    if chance(700) {
        let z = b.len() as u64;
        b.extend_from_slice(b"PK\x06\x06");
        le(&mut b, 8, huge(8));
        le(&mut b, 4, 0x2d002d);
        le(&mut b, 4, 0);
        le(&mut b, 4, 0);
        let n = huge(8);
        le(&mut b, 8, n);
        le(&mut b, 8, n);
        le(&mut b, 8, huge(8));
        le(&mut b, 8, if chance(500) { draw(300) as u64 } else { huge(8) });
        b.extend_from_slice(b"PK\x06\x07");
        le(&mut b, 4, 0);
        le(&mut b, 8, if chance(700) { z } else { huge(8) });
        le(&mut b, 4, 1);
    }
    b.extend_from_slice(b"PK\x05\x06");
    le(&mut b, 4, 0);
    let n = if chance(500) { 0xFFFF } else { huge(2) };
    le(&mut b, 2, n);
    le(&mut b, 2, n);
    le(&mut b, 4, if chance(500) { u32::MAX as u64 } else { huge(4) });
    le(&mut b, 4, if chance(500) { u32::MAX as u64 } else { huge(4) });
    le(&mut b, 2, if chance(500) { 0 } else { huge(2) });
    fault("malformed_input");
    b
}

/// Extra fields of the kinds the library interprets, with every length and version around the ones
/// it expects.
fn crafted_extras() -> Vec<(u16, Vec<u8>)> {
    (0..1 + small(3))
        .map(|_| {
            let id = [1u16, 0x7075, 0x6375, 0x7075, 1, 0xcafe][draw(6) as usize];
            let len = match weighted(&[8, 2]) {
                0 => draw(14) as u64,
                _ => draw(40) as u64,
            };
            let mut d = Payload { kind: [2, 0][draw(2) as usize], len, seed: seed32() }.bytes();
            if let Some(b) = d.first_mut() {
                *b = [1u8, 1, 1, 0, 2, 255][draw(6) as usize];
            }
            (id, d)
        })
        .collect()
}

/// A well-formed frame around extra fields whose contents are off, and sizes that refer to them.
fn crafted(max_data: u64) -> Vec<u8> {
    let mut s = gen_foreign(&FCfg { max_data: max_data.min(600), max_entries: 3, z64: 100, ..FOREIGN });
    for e in &mut s.f.entries {
        if chance(700) {
            e.extra = crafted_extras();
        }
        match weighted(&[4, 4, 2]) {
            0 => e.lextra = e.extra.clone(),
            1 => e.lextra = crafted_extras(),
            _ => {}
        }
    }
    let (mut b, locs) = write_foreign(&s.f);
    let mut marks = Vec::new();
    for l in &locs {
        let p = l.0 as usize;
        if b.get(p..p + 4) == Some(b"PK\x03\x04") {
            marks.push((p + 18, 4));
            marks.push((p + 22, 4));
            marks.push((p + 30 + u16at(&b, p + 26) as usize + 2, 2));
        }
    }
    let mut p = locs.iter().map(|l| l.2).max().unwrap_or(0) as usize;
    while p + 46 <= b.len() && b[p..p + 4] == *b"PK\x01\x02" {
        for m in [(20, 4), (24, 4), (34, 2), (42, 4)] {
            marks.push((p + m.0, m.1));
        }
        let (n, x, c) = (u16at(&b, p + 28) as usize, u16at(&b, p + 30) as usize, u16at(&b, p + 32) as usize);
        marks.push((p + 46 + n + 2, 2));
        p += 46 + n + x + c;
    }
    for (at, width) in marks {
        if at + width > b.len() || !chance(200) {
            continue;
        }
        // Widths of 4 refer to the ZIP64 field; 2 is a field's length or the disk number.
        let v = if width == 4 || chance(300) { u64::MAX } else { (u16at(&b, at) as u64).wrapping_add([1, 2, 3, 4, u64::MAX, u64::MAX - 1, u64::MAX - 3][draw(7) as usize]) };
        put(&mut b, at, width, v);
    }
    fault("malformed_input");
    b
}

/// Any bytes at all, biased towards almost-archives.
pub fn gen_hostile(max_data: u64) -> (Rc<Vec<u8>>, String) {
    match weighted(&[60, 12, 5, 3, 20]) {
        0 => {
            let a = gen_any(max_data, 4);
            let mut b = (*a.bytes).clone();
            trace(|| a.what.clone());
            mutate(&mut b);
            (Rc::new(b), format!("mutated {}", a.what))
        }
        1 => {
            let mut b = forged();
            if chance(300) {
                mutate(&mut b);
            }
            (Rc::new(b), "forged end records".into())
        }
        2 => {
            // two archives run into each other
            let a = gen_any(max_data, 3);
            let c = gen_any(max_data, 3);
            let mut b = (*a.bytes).clone();
            b.truncate(draw(b.len() as u32 + 1) as usize);
            b.extend_from_slice(&c.bytes[draw(c.bytes.len() as u32) as usize..]);
            fault("malformed_input");
            (Rc::new(b), "two archives spliced".into())
        }
        4 => {
            let mut b = crafted(max_data);
            if chance(200) {
                mutate(&mut b);
            }
            (Rc::new(b), "crafted extra fields".into())
        }
        _ => {
            let b = Payload { kind: 2 + draw(2), len: gen_len(3000), seed: seed32() }.bytes();
            fault("malformed_input");
            (Rc::new(b), "noise".into())
        }
    }
}
