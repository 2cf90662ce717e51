//! Shared pieces of the counterexample search: random source, TIFF writer, recording readers.
use async_tiff::error::{AsyncTiffError, AsyncTiffResult};
use async_tiff::reader::{AsyncFileReader, Endianness};
use async_tiff::TagValue;
use async_trait::async_trait;
use bytes::Bytes;
use std::ops::Range;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ idx.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9ABC_DEF1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// values with interesting extremes
    pub fn interesting(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1u64 << self.below(64),
            4 => (1u64 << self.below(64)).wrapping_sub(1),
            5 => self.below(256),
            _ => self.next(),
        }
    }
}

#[derive(Default)]
pub struct Trace {
    pub notes: Vec<String>,
    pub key: u64,
}
impl Trace {
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
    /// contributes to the notion of a distinct case
    pub fn mix(&mut self, v: u64) {
        self.key = (self.key ^ v).wrapping_mul(0x100_0000_01B3).rotate_left(17);
    }
}
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(600).map(|x| format!("{x:02x}")).collect();
    if b.len() > 600 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    futures::executor::block_on(f)
}

/// in-memory file that records every request; reads past the end are errors
#[derive(Debug, Clone)]
pub struct Mem {
    pub data: Arc<Vec<u8>>,
    pub log: Arc<Mutex<Vec<Range<u64>>>>,
    pub batch_log: Arc<Mutex<Vec<Vec<Range<u64>>>>>,
    pub short: bool,
}
impl Mem {
    pub fn new(data: Vec<u8>) -> Self {
        Mem { data: Arc::new(data), log: Default::default(), batch_log: Default::default(), short: false }
    }
    pub fn log(&self) -> Vec<Range<u64>> {
        self.log.lock().unwrap().clone()
    }
}
pub fn read_range(data: &[u8], r: &Range<u64>) -> AsyncTiffResult<Bytes> {
    let n = data.len() as u64;
    if r.start > r.end || r.end > n {
        return Err(AsyncTiffError::EndOfFile(r.end.saturating_sub(r.start), n.saturating_sub(r.start.min(n))));
    }
    Ok(Bytes::copy_from_slice(&data[r.start as usize..r.end as usize]))
}
#[async_trait]
impl AsyncFileReader for Mem {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.log.lock().unwrap().push(range.clone());
        if self.short {
            // a source that returns what it has
            let n = self.data.len() as u64;
            let (s, e) = (range.start.min(n), range.end.min(n));
            return Ok(Bytes::copy_from_slice(&self.data[s as usize..e.max(s) as usize]));
        }
        read_range(&self.data, &range)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E {
    L,
    B,
}
impl E {
    pub fn lib(self) -> Endianness {
        match self {
            E::L => Endianness::LittleEndian,
            E::B => Endianness::BigEndian,
        }
    }
    pub fn put(self, v: u64, n: usize) -> Vec<u8> {
        match self {
            E::L => v.to_le_bytes()[..n].to_vec(),
            E::B => v.to_be_bytes()[8 - n..].to_vec(),
        }
    }
    pub fn get(self, b: &[u8]) -> u64 {
        let mut v = 0u64;
        match self {
            E::L => b.iter().rev().for_each(|x| v = v << 8 | *x as u64),
            E::B => b.iter().for_each(|x| v = v << 8 | *x as u64),
        }
        v
    }
}

/// one IFD entry: values are raw bit patterns (rationals as two u32 halves: high = numerator)
#[derive(Clone, Debug)]
pub struct Entry {
    pub tag: u16,
    pub typ: u16,
    pub vals: Vec<u64>,
}
pub fn type_size(t: u16) -> usize {
    match t {
        1 | 2 | 6 | 7 => 1,
        3 | 8 => 2,
        4 | 9 | 11 | 13 => 4,
        _ => 8,
    }
}
impl Entry {
    pub fn new(tag: u16, typ: u16, vals: &[u64]) -> Self {
        Entry { tag, typ, vals: vals.to_vec() }
    }
    pub fn ascii(tag: u16, s: &str) -> Self {
        Entry { tag, typ: 2, vals: s.bytes().map(|b| b as u64).chain([0]).collect() }
    }
    pub fn payload(&self, e: E) -> Vec<u8> {
        let mut o = vec![];
        for v in &self.vals {
            match self.typ {
                5 | 10 => {
                    o.extend(e.put(v >> 32, 4));
                    o.extend(e.put(v & 0xFFFF_FFFF, 4));
                }
                t => o.extend(e.put(*v, type_size(t))),
            }
        }
        o
    }
    /// the value a reader has to report
    pub fn expect(&self) -> TagValue {
        if self.typ == 2 {
            let b: Vec<u8> = self.vals.iter().map(|v| *v as u8).collect();
            let end = b.iter().position(|x| *x == 0).unwrap_or(b.len());
            return TagValue::Ascii(String::from_utf8_lossy(&b[..end]).into_owned());
        }
        let one = |v: u64| match self.typ {
            1 | 7 => TagValue::Byte(v as u8),
            6 => TagValue::SignedByte(v as u8 as i8),
            3 => TagValue::Short(v as u16),
            8 => TagValue::SignedShort(v as u16 as i16),
            4 => TagValue::Unsigned(v as u32),
            9 => TagValue::Signed(v as u32 as i32),
            11 => TagValue::Float(f32::from_bits(v as u32)),
            12 => TagValue::Double(f64::from_bits(v)),
            13 => TagValue::Ifd(v as u32),
            16 => TagValue::UnsignedBig(v),
            17 => TagValue::SignedBig(v as i64),
            18 => TagValue::IfdBig(v),
            5 => TagValue::Rational((v >> 32) as u32, v as u32),
            10 => TagValue::SRational((v >> 32) as u32 as i32, v as u32 as i32),
            _ => unreachable!(),
        };
        if self.vals.len() == 1 {
            one(self.vals[0])
        } else {
            TagValue::List(self.vals.iter().map(|v| one(*v)).collect())
        }
    }
}
pub fn tv_eq(a: &TagValue, b: &TagValue) -> bool {
    match (a, b) {
        (TagValue::Float(x), TagValue::Float(y)) => x.to_bits() == y.to_bits(),
        (TagValue::Double(x), TagValue::Double(y)) => x.to_bits() == y.to_bits(),
        (TagValue::List(x), TagValue::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| tv_eq(a, b)),
        _ => a == b,
    }
}

#[derive(Clone, Debug)]
pub struct Tiff {
    pub big: bool,
    pub e: E,
    pub ifds: Vec<Vec<Entry>>,
    /// gap bytes inserted before blocks, to move things around
    pub gaps: Vec<u8>,
    /// order in which the IFDs are laid out in the file
    pub order: Vec<usize>,
    /// value of the next-IFD field of the last IFD (0: end)
    pub last_next: u64,
    /// out-of-line values are placed before (true) or after the IFD that uses them
    pub values_first: bool,
}
pub struct Written {
    pub data: Vec<u8>,
    pub ifd_offsets: Vec<u64>,
}
impl Tiff {
    pub fn new(big: bool, e: E, ifds: Vec<Vec<Entry>>) -> Self {
        let n = ifds.len();
        Tiff { big, e, ifds, gaps: vec![], order: (0..n).collect(), last_next: 0, values_first: false }
    }
    /// Writes the file, starting with `blob` directly after the header.
    pub fn write_with(&self, blob: &[u8]) -> Written {
        let e = self.e;
        let mut o: Vec<u8> = match e {
            E::L => b"II".to_vec(),
            E::B => b"MM".to_vec(),
        };
        let (osz, esz, csz, inl) = if self.big { (8, 20, 8, 8) } else { (4, 12, 2, 4) };
        if self.big {
            o.extend(e.put(43, 2));
            o.extend(e.put(8, 2));
            o.extend(e.put(0, 2));
        } else {
            o.extend(e.put(42, 2));
        }
        let first_pos = o.len();
        o.extend(vec![0; osz]);
        o.extend_from_slice(blob);
        let mut offs = vec![0u64; self.ifds.len()];
        let mut next_pos = vec![0usize; self.ifds.len()];
        let mut g = self.gaps.iter().cycle();
        let mut gap = |o: &mut Vec<u8>| {
            if !self.gaps.is_empty() {
                let n = *g.next().unwrap() as usize;
                o.extend(std::iter::repeat(0xA5).take(n));
            }
        };
        for &k in &self.order {
            let ents = &self.ifds[k];
            let mut placed: Vec<Option<u64>> = vec![None; ents.len()];
            let payloads: Vec<Vec<u8>> = ents.iter().map(|x| x.payload(e)).collect();
            if self.values_first {
                for (i, p) in payloads.iter().enumerate() {
                    if p.len() > inl {
                        gap(&mut o);
                        placed[i] = Some(o.len() as u64);
                        o.extend_from_slice(p);
                    }
                }
            }
            gap(&mut o);
            offs[k] = o.len() as u64;
            o.extend(e.put(ents.len() as u64, csz));
            let base = o.len();
            o.extend(vec![0u8; esz * ents.len()]);
            next_pos[k] = o.len();
            o.extend(vec![0u8; osz]);
            for (i, x) in ents.iter().enumerate() {
                let p = &payloads[i];
                let mut rec = vec![];
                rec.extend(e.put(x.tag as u64, 2));
                rec.extend(e.put(x.typ as u64, 2));
                rec.extend(e.put(x.vals.len() as u64, osz));
                if p.len() <= inl {
                    rec.extend_from_slice(p);
                    // padding that must be ignored
                    rec.extend(vec![0xEE; inl - p.len()]);
                } else {
                    if placed[i].is_none() {
                        gap(&mut o);
                        placed[i] = Some(o.len() as u64);
                        o.extend_from_slice(p);
                    }
                    rec.extend(e.put(placed[i].unwrap(), osz));
                }
                assert_eq!(rec.len(), esz);
                o[base + i * esz..base + (i + 1) * esz].copy_from_slice(&rec);
            }
        }
        for k in 0..self.ifds.len() {
            let nx = if k + 1 < self.ifds.len() { offs[k + 1] } else { self.last_next };
            o[next_pos[k]..next_pos[k] + osz].copy_from_slice(&e.put(nx, osz));
        }
        let f = offs.first().copied().unwrap_or(0);
        o[first_pos..first_pos + osz].copy_from_slice(&e.put(f, osz));
        Written { data: o, ifd_offsets: offs }
    }
    pub fn write(&self) -> Written {
        self.write_with(&[])
    }
}
pub fn shuffle<T>(v: &mut [T], r: &mut Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

/// the entries every IFD needs
pub fn minimal(w: u32, h: u32) -> Vec<Entry> {
    vec![
        Entry::new(256, 4, &[w as u64]),
        Entry::new(257, 4, &[h as u64]),
        Entry::new(258, 3, &[8]),
        Entry::new(259, 3, &[1]),
        Entry::new(262, 3, &[1]),
        Entry::new(277, 3, &[1]),
    ]
}
pub async fn open(m: &Mem) -> AsyncTiffResult<async_tiff::TIFF> {
    let mut r = async_tiff::metadata::TiffMetadataReader::try_open(m).await?;
    r.read(m).await
}

/// a tiled image
#[derive(Clone, Debug)]
pub struct Img {
    pub big: bool,
    pub e: E,
    pub w: u32,
    pub h: u32,
    pub tw: u32,
    pub th: u32,
    pub spp: u16,
    pub bits: u16,
    /// 1 uint, 2 int, 3 float
    pub fmt: u16,
    pub planar: bool,
    pub predictor: u16,
    pub compression: u16,
}
impl Img {
    pub fn grid(&self) -> (usize, usize) {
        (((self.w + self.tw - 1) / self.tw) as usize, ((self.h + self.th - 1) / self.th) as usize)
    }
    /// chunks in file order: chunky: one per tile, row by row; planar: all tiles of band 0, then band 1...
    pub fn chunk_count(&self) -> usize {
        let (x, y) = self.grid();
        x * y * if self.planar { self.spp as usize } else { 1 }
    }
    pub fn entries(&self, offs: &[u64], counts: &[u64]) -> Vec<Entry> {
        let mut v = vec![
            Entry::new(256, 4, &[self.w as u64]),
            Entry::new(257, 4, &[self.h as u64]),
            Entry::new(258, 3, &vec![self.bits as u64; self.spp as usize]),
            Entry::new(259, 3, &[self.compression as u64]),
            Entry::new(262, 3, &[if self.spp >= 3 { 2 } else { 1 }]),
            Entry::new(277, 3, &[self.spp as u64]),
            Entry::new(284, 3, &[if self.planar { 2 } else { 1 }]),
            Entry::new(317, 3, &[self.predictor as u64]),
            Entry::new(322, 4, &[self.tw as u64]),
            Entry::new(323, 4, &[self.th as u64]),
            Entry::new(324, if self.big { 16 } else { 4 }, offs),
            Entry::new(325, if self.big { 16 } else { 4 }, counts),
            Entry::new(339, 3, &vec![self.fmt as u64; self.spp as usize]),
        ];
        v.sort_by_key(|e| e.tag);
        v
    }
    /// writes the chunks after the header, at the given order and with gaps; returns file + byte range of every chunk
    pub fn write(&self, chunks: &[Vec<u8>], order: &[usize], extra: Vec<Entry>) -> (Vec<u8>, Vec<(u64, u64)>) {
        let base = if self.big { 16u64 } else { 8 };
        let mut blob = vec![];
        let mut pos = vec![(0u64, 0u64); chunks.len()];
        for &k in order {
            blob.extend(vec![0x5A; (k * 7) % 5]);
            pos[k] = (base + blob.len() as u64, chunks[k].len() as u64);
            blob.extend_from_slice(&chunks[k]);
        }
        let offs: Vec<u64> = pos.iter().map(|p| p.0).collect();
        let cnts: Vec<u64> = pos.iter().map(|p| p.1).collect();
        let mut ents = self.entries(&offs, &cnts);
        for x in extra {
            ents.retain(|e| e.tag != x.tag);
            ents.push(x);
        }
        ents.sort_by_key(|e| e.tag);
        (Tiff::new(self.big, self.e, vec![ents]).write_with(&blob).data, pos)
    }
}
pub fn compress(c: u16, b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    match c {
        1 => b.to_vec(),
        5 => weezl::encode::Encoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8).encode(b).unwrap(),
        8 | 32946 => {
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        50000 => zstd::encode_all(b, 1).unwrap(),
        #[cfg(feature = "codecs")]
        34925 => {
            let mut w = lzma_rust2::XzWriter::new(vec![], lzma_rust2::XzOptions::with_preset(1)).unwrap();
            w.write_all(b).unwrap();
            w.finish().unwrap()
        }
        _ => panic!("compress {c}"),
    }
}
