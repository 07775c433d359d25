//! Compression methods through direct, synchronous use of the codec crates:
//! independent of the async adapters the library is built on.

use std::io::{Read, Write};

pub const STORED: u16 = 0;
pub const DEFLATE: u16 = 8;
pub const DEFLATE64: u16 = 9;
pub const BZIP2: u16 = 12;
pub const LZMA: u16 = 14;
pub const ZSTD: u16 = 93;
pub const XZ: u16 = 95;

/// Decodes exactly one stream from `data`; returns the output and how many
/// input bytes the stream occupies.
pub fn decode(method: u16, data: &[u8]) -> Result<(Vec<u8>, usize), String> {
    match method {
        STORED => Ok((data.to_vec(), data.len())),
        DEFLATE => {
            let mut d = flate2::Decompress::new(false);
            let mut out = Vec::with_capacity(data.len() * 2 + 64);
            loop {
                let before = (d.total_in(), d.total_out());
                if out.len() == out.capacity() {
                    out.reserve(out.capacity().max(4096));
                }
                let st = d
                    .decompress_vec(&data[d.total_in() as usize..], &mut out, flate2::FlushDecompress::None)
                    .map_err(|e| e.to_string())?;
                if st == flate2::Status::StreamEnd {
                    return Ok((out, d.total_in() as usize));
                }
                if before == (d.total_in(), d.total_out()) && out.len() < out.capacity() {
                    return Err("truncated deflate stream".into());
                }
            }
        }
        DEFLATE64 => deflate64_subset(data),
        BZIP2 => {
            let mut d = bzip2::Decompress::new(false);
            let mut out = Vec::with_capacity(data.len() * 2 + 64);
            loop {
                let before = (d.total_in(), d.total_out());
                if out.len() == out.capacity() {
                    out.reserve(out.capacity().max(4096));
                }
                let st =
                    d.decompress_vec(&data[d.total_in() as usize..], &mut out).map_err(|e| e.to_string())?;
                if st == bzip2::Status::StreamEnd {
                    return Ok((out, d.total_in() as usize));
                }
                if before == (d.total_in(), d.total_out()) && out.len() < out.capacity() {
                    return Err("truncated bzip2 stream".into());
                }
            }
        }
        LZMA => lz(liblzma::stream::Stream::new_lzma_decoder(u64::MAX).map_err(|e| e.to_string())?, data),
        XZ => lz(liblzma::stream::Stream::new_stream_decoder(u64::MAX, 0).map_err(|e| e.to_string())?, data),
        ZSTD => {
            let mut d = zstd::stream::raw::Decoder::new().map_err(|e| e.to_string())?;
            use zstd::stream::raw::Operation;
            let mut out = Vec::new();
            let mut pos = 0;
            let mut buf = vec![0u8; 65536];
            loop {
                let st = d.run_on_buffers(&data[pos..], &mut buf).map_err(|e| e.to_string())?;
                pos += st.bytes_read;
                out.extend_from_slice(&buf[..st.bytes_written]);
                if st.remaining == 0 {
                    return Ok((out, pos));
                }
                if st.bytes_read == 0 && st.bytes_written == 0 {
                    return Err("truncated zstd frame".into());
                }
            }
        }
        m => Err(format!("unknown method {m}")),
    }
}

/// Decodes as much as a torn prefix of a stream yields (for crash checks).
pub fn decode_prefix(method: u16, data: &[u8]) -> Vec<u8> {
    match method {
        STORED => data.to_vec(),
        DEFLATE => {
            let mut d = flate2::Decompress::new(false);
            let mut out = Vec::with_capacity(data.len() * 2 + 64);
            loop {
                let before = (d.total_in(), d.total_out());
                if out.len() == out.capacity() {
                    out.reserve(out.capacity().max(4096));
                }
                match d.decompress_vec(&data[d.total_in() as usize..], &mut out, flate2::FlushDecompress::None) {
                    Err(_) => return out,
                    Ok(flate2::Status::StreamEnd) => return out,
                    Ok(_) => {}
                }
                if before == (d.total_in(), d.total_out()) && out.len() < out.capacity() {
                    return out;
                }
            }
        }
        ZSTD => {
            use zstd::stream::raw::Operation;
            let mut d = zstd::stream::raw::Decoder::new().unwrap();
            let mut out = Vec::new();
            let mut pos = 0;
            let mut buf = vec![0u8; 65536];
            loop {
                let Ok(st) = d.run_on_buffers(&data[pos..], &mut buf) else { return out };
                pos += st.bytes_read;
                out.extend_from_slice(&buf[..st.bytes_written]);
                if st.remaining == 0 || (st.bytes_read == 0 && st.bytes_written == 0) {
                    return out;
                }
            }
        }
        XZ => {
            let mut s = liblzma::stream::Stream::new_stream_decoder(u64::MAX, 0).unwrap();
            let mut out = Vec::with_capacity(data.len() * 2 + 4096);
            loop {
                let before = (s.total_in(), s.total_out());
                if out.len() == out.capacity() {
                    out.reserve(out.capacity().max(4096));
                }
                match s.process_vec(&data[s.total_in() as usize..], &mut out, liblzma::stream::Action::Run) {
                    Err(_) => return out,
                    Ok(liblzma::stream::Status::StreamEnd) => return out,
                    Ok(_) => {}
                }
                if before == (s.total_in(), s.total_out()) && out.len() < out.capacity() {
                    return out;
                }
            }
        }
        _ => Vec::new(),
    }
}

fn lz(mut s: liblzma::stream::Stream, data: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let mut out = Vec::with_capacity(data.len() * 2 + 4096);
    loop {
        let before = (s.total_in(), s.total_out());
        if out.len() == out.capacity() {
            out.reserve(out.capacity().max(4096));
        }
        let st = s
            .process_vec(&data[s.total_in() as usize..], &mut out, liblzma::stream::Action::Run)
            .map_err(|e| e.to_string())?;
        if st == liblzma::stream::Status::StreamEnd {
            return Ok((out, s.total_in() as usize));
        }
        if before == (s.total_in(), s.total_out()) && out.len() < out.capacity() {
            return Err("truncated lzma stream".into());
        }
    }
}

pub fn encode(method: u16, data: &[u8], level: u32) -> Vec<u8> {
    match method {
        STORED => data.to_vec(),
        DEFLATE => {
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        DEFLATE64 => deflate_literals(data, level),
        BZIP2 => {
            let mut out = Vec::new();
            bzip2::read::BzEncoder::new(data, bzip2::Compression::new(level.clamp(1, 9)))
                .read_to_end(&mut out)
                .unwrap();
            out
        }
        LZMA => {
            let mut o = liblzma::stream::LzmaOptions::new_preset(0).unwrap();
            o.dict_size(1 << 16);
            let s = liblzma::stream::Stream::new_lzma_encoder(&o).unwrap();
            let mut e = liblzma::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        XZ => {
            let mut o = liblzma::stream::LzmaOptions::new_preset(0).unwrap();
            o.dict_size(1 << 16);
            let mut f = liblzma::stream::Filters::new();
            f.lzma2(&o);
            let s = liblzma::stream::Stream::new_stream_encoder(&f, liblzma::stream::Check::Crc32).unwrap();
            let mut e = liblzma::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        ZSTD => {
            let mut e = zstd::stream::write::Encoder::new(Vec::new(), level.clamp(1, 5) as i32).unwrap();
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        m => panic!("unknown method {m}"),
    }
}

/// A deflate/deflate64 stream without matches: stored blocks and fixed-Huffman
/// literal blocks (the common subset of both formats).
pub fn deflate_literals(data: &[u8], variant: u32) -> Vec<u8> {
    let mut w = Bits::default();
    let block = [7usize, 100, 5000, 60000][(variant & 3) as usize];
    if data.is_empty() {
        w.put(1, 1);
        w.put(1, 2);
        w.code(0, 7);
        return w.finish();
    }
    let n = data.chunks(block).count();
    for (i, c) in data.chunks(block).enumerate() {
        w.put((i + 1 == n) as u32, 1);
        if (i as u32 + variant) % 2 == 0 {
            w.put(0, 2);
            w.align();
            w.bytes(&(c.len() as u16).to_le_bytes());
            w.bytes(&(!(c.len() as u16)).to_le_bytes());
            w.bytes(c);
        } else {
            w.put(1, 2);
            for &b in c {
                if b < 144 {
                    w.code(0x30 + b as u32, 8);
                } else {
                    w.code(0x190 + (b as u32 - 144), 9);
                }
            }
            w.code(0, 7);
        }
    }
    w.finish()
}

fn deflate64_subset(data: &[u8]) -> Result<(Vec<u8>, usize), String> {
    // Only streams made by `deflate_literals` occur here; they are also valid
    // deflate streams, so the deflate decoder is an exact oracle for them.
    decode(DEFLATE, data)
}

#[derive(Default)]
struct Bits {
    out: Vec<u8>,
    cur: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, bits: u32) {
        self.cur |= v << self.n;
        self.n += bits;
        while self.n >= 8 {
            self.out.push(self.cur as u8);
            self.cur >>= 8;
            self.n -= 8;
        }
    }
    fn code(&mut self, v: u32, bits: u32) {
        // Huffman codes go MSB first.
        let mut r = 0;
        for i in 0..bits {
            if v & (1 << i) != 0 {
                r |= 1 << (bits - 1 - i);
            }
        }
        self.put(r, bits);
    }
    fn align(&mut self) {
        if self.n > 0 {
            self.out.push(self.cur as u8);
            self.cur = 0;
            self.n = 0;
        }
    }
    fn bytes(&mut self, b: &[u8]) {
        self.out.extend_from_slice(b);
    }
    fn finish(mut self) -> Vec<u8> {
        self.align();
        self.out
    }
}
