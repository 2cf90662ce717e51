use crate::ensure;
use crate::util::*;
use async_tiff::geo::GeoKeyDirectory;
use async_tiff::metadata::{ImageFileDirectoryReader, TiffMetadataReader};
use async_tiff::tags::*;
use async_tiff::*;
use std::collections::HashMap;

pub const TABLE: &[(&str, &[(&str, fn(u64, &mut Rng, &mut Trace) -> Res)])] = &[
    ("C09", &[("header", c09)]),
    ("C10", &[("chain", c10), ("cycle", c10_cycle)]),
    ("C11", &[("values", c11), ("entry", c11_entry)]),
    ("C12", &[("conversions", c12)]),
    ("C13", &[("from-tags", c13)]),
    ("C14", &[("geokeys", c14)]),
    ("C19", &[("codes", c19)]),
    ("C20", &[("header-size", c20)]),
    ("C23", &[("mutate", c23_mutate), ("random", c23_random), ("tags", c23_tags)]),
];

// ---------------------------------------------------------------- C09
fn c09(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let e = if r.bool() { E::L } else { E::B };
    let mark = match e {
        E::L => *b"II",
        E::B => *b"MM",
    };
    // the fields, mostly right, one of them possibly wrong
    let bad = r.below(8);
    let version = match bad {
        1 => *r.pick(&[0u64, 41, 44, 0x2A00, 0x2B00, 0xFFFF, 42 << 8 | 42]),
        2 => r.next() & 0xFFFF,
        _ => 42 + r.below(2),
    };
    let osize = if bad == 3 { *r.pick(&[0u64, 4, 7, 9, 16, 0x0800]) } else { 8 };
    let zero = if bad == 4 { *r.pick(&[1u64, 8, 0x0100, 0xFFFF]) } else { 0 };
    let m = match bad {
        5 => *r.pick(&[*b"IM", *b"MI", *b"ii", *b"mm", [0, 0], *b"I\0", *b"PK", [0x49, 0x4A], [0x4D, 0x4C]]),
        6 => [r.next() as u8, r.next() as u8],
        _ => mark,
    };
    let off = r.interesting();
    let mut d = m.to_vec();
    d.extend(e.put(version, 2));
    if version == 43 {
        d.extend(e.put(osize, 2));
        d.extend(e.put(zero, 2));
        d.extend(e.put(off, 8));
    } else {
        d.extend(e.put(off & 0xFFFF_FFFF, 4));
    }
    if i % 5 == 0 {
        let n = r.below(9) as usize;
        d.extend(r.bytes(n));
    }
    let full = d.len();
    let cut = if bad == 7 { r.below(full as u64 + 1) as usize } else { full };
    d.truncate(cut);
    t.note(format!("file {}", hex(&d)));
    t.mix(bad);
    t.mix(version);
    t.mix(off);
    // oracle, straight from the format
    let get = |p: usize, n: usize, e: E| d.get(p..p + n).map(|b| e.get(b));
    let want: Option<(E, bool, u64)> = (|| {
        let e = match d.get(0..2)? {
            b"II" => E::L,
            b"MM" => E::B,
            _ => return None,
        };
        match get(2, 2, e)? {
            42 => Some((e, false, get(4, 4, e)?)),
            43 => {
                if get(4, 2, e)? != 8 || get(6, 2, e)? != 0 {
                    return None;
                }
                Some((e, true, get(8, 8, e)?))
            }
            _ => None,
        }
    })();
    let mem = Mem::new(d.clone());
    let got = block(TiffMetadataReader::try_open(&mem));
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => Err("an invalid header was accepted".into()),
        (Some(w), Err(x)) => Err(format!("a valid header {w:?} was rejected: {x}")),
        (Some((e, big, o)), Ok(g)) => {
            ensure!(g.endianness() == e.lib(), "byte order {:?}, header says {:?}", g.endianness(), e);
            ensure!(g.bigtiff() == big, "bigtiff {} but version says {}", g.bigtiff(), big);
            ensure!(g.next_ifd_offset() == Some(o), "first IFD offset {:?}, header says {}", g.next_ifd_offset(), o);
            ensure!(g.has_next_ifd(), "no first IFD");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C10
fn chain(r: &mut Rng, n: usize) -> (Tiff, Vec<u32>) {
    let ids: Vec<u32> = (0..n).map(|k| 1000 + k as u32 * 7 + r.below(3) as u32).collect();
    let ifds = ids
        .iter()
        .map(|w| {
            let mut m = minimal(*w, 5);
            for k in 0..r.below(4) {
                m.push(Entry::new(50000 + k as u16, 3, &vec![k; 1 + r.below(4) as usize]));
            }
            m
        })
        .collect();
    let e = if r.bool() { E::L } else { E::B };
    let mut tf = Tiff::new(r.bool(), e, ifds);
    shuffle(&mut tf.order, r);
    tf.values_first = r.bool();
    let ng = r.below(4) as usize;
    tf.gaps = r.bytes(ng);
    (tf, ids)
}
fn c10(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = if i % 50 == 0 { 40 } else { 1 + r.below(7) as usize };
    let (tf, ids) = chain(r, n);
    let w = tf.write();
    t.note(format!("{} IFDs at {:?}, big={} {:?}", n, w.ifd_offsets, tf.big, tf.e));
    for o in &w.ifd_offsets {
        t.mix(*o);
    }
    let m = Mem::new(w.data.clone());
    let tiff = block(open(&m)).map_err(|x| format!("rejected: {x}"))?;
    let got: Vec<u32> = tiff.ifds().iter().map(|x| x.image_width()).collect();
    ensure!(got == ids, "IFDs {:?}, chain order is {:?}", got, ids);
    ensure!(tiff.endianness() == tf.e.lib(), "byte order of the result");
    // one at a time
    let mut rd = block(TiffMetadataReader::try_open(&m)).map_err(|x| x.to_string())?;
    for k in 0..n {
        ensure!(rd.next_ifd_offset() == Some(w.ifd_offsets[k]), "next offset {:?} before IFD {k}, the chain says {}", rd.next_ifd_offset(), w.ifd_offsets[k]);
        ensure!(rd.has_next_ifd(), "has_next_ifd false before IFD {k}");
        let x = block(rd.read_next_ifd(&m)).map_err(|x| x.to_string())?;
        ensure!(x.map(|x| x.image_width()) == Some(ids[k]), "IFD {k} differs when read one at a time");
    }
    ensure!(!rd.has_next_ifd() && rd.next_ifd_offset().is_none(), "chain does not end at a zero offset");
    ensure!(matches!(block(rd.read_next_ifd(&m)), Ok(None)), "reading past the end of the chain");
    ensure!(matches!(block(rd.read_next_ifd(&m)), Ok(None)), "reading past the end of the chain twice");
    ensure!(block(rd.read_all_ifds(&m)).map(|v| v.len()) .map_err(|x| x.to_string())? == 0, "read_all after the end returned IFDs");
    // resuming after k individually read ones
    let k = r.below(n as u64 + 1) as usize;
    let mut rd = block(TiffMetadataReader::try_open(&m)).map_err(|x| x.to_string())?;
    for _ in 0..k {
        block(rd.read_next_ifd(&m)).map_err(|x| x.to_string())?;
    }
    let rest: Vec<u32> = block(rd.read_all_ifds(&m)).map_err(|x| x.to_string())?.iter().map(|x| x.image_width()).collect();
    ensure!(rest == ids[k..], "after {k} single reads the rest is {:?}, want {:?}", rest, &ids[k..]);
    // a failed read leaves the position unchanged: it can be retried
    if n >= 2 {
        let mut rd = block(TiffMetadataReader::try_open(&m)).map_err(|x| x.to_string())?;
        block(rd.read_next_ifd(&m)).map_err(|x| x.to_string())?;
        let broken = Mem::new(w.data[..16.min(w.data.len())].to_vec());
        ensure!(block(rd.read_next_ifd(&broken)).is_err(), "read from a truncated file succeeded");
        ensure!(rd.next_ifd_offset() == Some(w.ifd_offsets[1]), "a failed read moved the chain position");
        let x = block(rd.read_next_ifd(&m)).map_err(|x| x.to_string())?;
        ensure!(x.map(|x| x.image_width()) == Some(ids[1]), "retry after a failed read");
    }
    Ok(())
}
/// a source that gives up after a number of requests: non-termination becomes visible
#[derive(Debug)]
struct Bounded(Mem, std::sync::atomic::AtomicU64);
#[async_trait::async_trait]
impl async_tiff::metadata::MetadataFetch for Bounded {
    async fn fetch(&self, range: std::ops::Range<u64>) -> async_tiff::error::AsyncTiffResult<bytes::Bytes> {
        let n = self.1.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if n > 60_000 {
            panic!("more than 60000 requests: reading does not terminate");
        }
        read_range(&self.0.data, &range)
    }
}
fn c10_cycle(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = 1 + r.below(6) as usize;
    let (mut tf, _) = chain(r, n);
    let w0 = tf.write();
    let back = r.below(n as u64) as usize;
    tf.last_next = w0.ifd_offsets[back];
    let w = tf.write();
    t.note(format!("{n} IFDs, last one points back to IFD {back}; offsets {:?}", w.ifd_offsets));
    t.mix(n as u64 * 100 + back as u64);
    let m = Bounded(Mem::new(w.data), Default::default());
    let mut rd = block(TiffMetadataReader::try_open(&m)).map_err(|x| x.to_string())?;
    ensure!(block(rd.read_all_ifds(&m)).is_err(), "a cyclic chain was accepted");
    Ok(())
}

// ---------------------------------------------------------------- C11
const TYPES: [u16; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 18];
fn rand_entry(i: u64, r: &mut Rng, tag: u16) -> Entry {
    let typ = TYPES[(i % 16) as usize];
    let n = match r.below(8) {
        0 => 1,
        1 => 2,
        2 => r.below(10),
        3 => r.below(70),
        4 => {
            if r.below(40) == 0 {
                1025 + r.below(2000)
            } else {
                8 / type_size(typ) as u64
            }
        }
        5 => 4 / type_size(typ) as u64,
        6 => 4 / type_size(typ) as u64 + 1,
        _ => 8 / type_size(typ) as u64 + r.below(2),
    } as usize;
    if typ == 2 {
        let len = n.max(1) - 1;
        let s: String = (0..len).map(|_| (33 + r.below(90)) as u8 as char).collect();
        return Entry::ascii(tag, &s);
    }
    let mask = match type_size(typ) {
        8 => u64::MAX,
        k => (1u64 << (8 * k)) - 1,
    };
    Entry { tag, typ, vals: (0..n).map(|_| r.interesting() & mask).collect() }
}
fn c11(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let e = if r.bool() { E::L } else { E::B };
    let big = r.bool();
    let n = 1 + r.below(3);
    let mut ents = minimal(9, 9);
    let mut extra = vec![];
    for k in 0..n {
        // private tags come back through other_tags
        let x = rand_entry(i + k * 5, r, 60000 + k as u16);
        t.note(format!("tag {} type {} count {} values {:x?}", x.tag, x.typ, x.vals.len(), &x.vals[..x.vals.len().min(12)]));
        t.mix(x.typ as u64 * 64 + x.vals.len() as u64);
        for v in &x.vals {
            t.mix(*v);
        }
        extra.push(x.clone());
        ents.push(x);
    }
    let mut tf = Tiff::new(big, e, vec![ents.clone()]);
    tf.values_first = r.bool();
    let ng = r.below(4) as usize;
    tf.gaps = r.bytes(ng);
    let w = tf.write();
    t.note(format!("bigtiff={big} {e:?} values_first={}", tf.values_first));
    let m = Mem::new(w.data);
    let tiff = block(open(&m)).map_err(|x| format!("rejected: {x}"))?;
    let ifd = &tiff.ifds()[0];
    for x in &extra {
        let want = if x.vals.is_empty() { TagValue::List(vec![]) } else { x.expect() };
        let got = ifd.other_tags().get(&Tag::Unknown(x.tag)).ok_or(format!("tag {} missing", x.tag))?;
        ensure!(tv_eq(got, &want), "tag {}: got {:.300?}, file says {:.300?}", x.tag, got, want);
    }
    // entry by entry
    let rd = block(ImageFileDirectoryReader::open(&m, w.ifd_offsets[0], big, e.lib())).map_err(|x| x.to_string())?;
    for (k, x) in ents.iter().enumerate() {
        let (tag, v) = block(rd.read_tag(&m, k as u64)).map_err(|x| format!("read_tag {k}: {x}"))?;
        ensure!(tag.to_u16() == x.tag, "entry {k}: tag {} instead of {}", tag.to_u16(), x.tag);
        let want = if x.vals.is_empty() { TagValue::List(vec![]) } else { x.expect() };
        ensure!(tv_eq(&v, &want), "entry {k}: got {:.300?}, file says {:.300?}", v, want);
    }
    Ok(())
}
/// a hand-laid single entry: unterminated or non-ASCII inline strings, unknown types, truncated data
fn c11_entry(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let e = if r.bool() { E::L } else { E::B };
    let big = r.bool();
    let (osz, csz, inl) = if big { (8, 8, 8) } else { (4, 2, 4) };
    let kind = i % 5;
    let mut d = e.put(1, csz);
    d.extend(e.put(60001, 2));
    t.mix(kind);
    match kind {
        // inline strings
        0 => {
            let n = 1 + r.below(inl) as usize;
            let mut b: Vec<u8> = (0..n).map(|_| *r.pick(&[b'a', b'Z', b'0', b' ', 0, 0x7F, 0x80, 0xFF])).collect();
            if r.bool() {
                b[n - 1] = 0;
            }
            d.extend(e.put(2, 2));
            d.extend(e.put(n as u64, osz));
            d.extend_from_slice(&b);
            d.resize(d.len() + inl as usize - n, b'x');
            d.extend(e.put(0, osz));
            t.note(format!("inline ASCII {b:x?} big={big} {e:?}"));
            b.iter().for_each(|x| t.mix(*x as u64));
            let m = Mem::new(d);
            let rd = block(ImageFileDirectoryReader::open(&m, 0, big, e.lib())).map_err(|x| x.to_string())?;
            let got = block(rd.read_tag(&m, 0));
            let ok = b.iter().all(|x| *x < 128) && b[n - 1] == 0;
            match got {
                Ok((_, v)) => {
                    ensure!(ok, "a string without terminator or with non-ASCII bytes gave {v:?}");
                    if !b[..n - 1].contains(&0) {
                        let s = String::from_utf8(b[..n - 1].to_vec()).unwrap();
                        ensure!(v == TagValue::Ascii(s.clone()), "got {v:?}, want {s:?}");
                    }
                }
                Err(x) => ensure!(!ok, "a well-formed string was rejected: {x}"),
            }
        }
        // unknown field types
        1 => {
            let ty = *r.pick(&[0u64, 14, 15, 19, 20, 255, 0x0100, 0xFFFF]);
            d.extend(e.put(ty, 2));
            d.extend(e.put(1, osz));
            d.extend(vec![0; 40]);
            t.note(format!("type {ty}"));
            t.mix(ty);
            let m = Mem::new(d);
            let rd = block(ImageFileDirectoryReader::open(&m, 0, big, e.lib())).map_err(|x| x.to_string())?;
            ensure!(block(rd.read_tag(&m, 0)).is_err(), "an entry of unknown type {ty} was decoded");
        }
        // value truncated
        2 => {
            let ty = *r.pick(&TYPES);
            let n = (inl / type_size(ty) as u64) + 1 + r.below(6);
            d.extend(e.put(ty as u64, 2));
            d.extend(e.put(n, osz));
            let off = d.len() + 2 * osz;
            d.extend(e.put(off as u64, osz));
            d.extend(e.put(0, osz));
            let len = n as usize * type_size(ty);
            let have = r.below(len as u64) as usize;
            d.extend(vec![0x41; have]);
            t.note(format!("type {ty} count {n}: {have} of {len} value bytes present"));
            t.mix(ty as u64 * 1000 + have as u64);
            for short in [false, true] {
                let mut m = Mem::new(d.clone());
                m.short = short;
                let rd = block(ImageFileDirectoryReader::open(&m, 0, big, e.lib())).map_err(|x| x.to_string())?;
                if n > 1 {
                    ensure!(block(rd.read_tag(&m, 0)).is_err(), "an entry whose value lies past the end of the file was decoded (short={short})");
                }
            }
        }
        // text stored at an offset ends at its first NUL
        3 => {
            let n = inl as usize + 1 + r.below(12) as usize;
            let b: Vec<u8> = (0..n).map(|k| if k + 1 == n && r.bool() { 0 } else { *r.pick(&[b'a', b'Z', b'0', b' ', b'|', 0x7F, b'q', 0]) }).collect();
            d.extend(e.put(2, 2));
            d.extend(e.put(n as u64, osz));
            let off = d.len() + 2 * osz;
            d.extend(e.put(off as u64, osz));
            d.extend(e.put(0, osz));
            d.extend_from_slice(&b);
            t.note(format!("ASCII {b:x?} at an offset, big={big} {e:?}"));
            b.iter().for_each(|x| t.mix(*x as u64));
            let m = Mem::new(d);
            let rd = block(ImageFileDirectoryReader::open(&m, 0, big, e.lib())).map_err(|x| x.to_string())?;
            let (_, v) = block(rd.read_tag(&m, 0)).map_err(|x| x.to_string())?;
            let s: String = b.iter().take_while(|x| **x != 0).map(|x| *x as char).collect();
            ensure!(v == TagValue::Ascii(s.clone()), "got {v:?}, want {s:?}");
        }
        // tag ids
        _ => {
            let id = if r.bool() { r.next() & 0xFFFF } else { *r.pick(&[254u64, 256, 269, 320, 34735, 42112, 50674, 65535, 0]) };
            let mut d = e.put(1, csz);
            d.extend(e.put(id, 2));
            d.extend(e.put(3, 2));
            d.extend(e.put(1, osz));
            let v = r.next() & 0xFFFF;
            d.extend(e.put(v, 2));
            d.extend(vec![0; 40]);
            t.note(format!("tag id {id} value {v}"));
            t.mix(id << 16 | v);
            let m = Mem::new(d);
            let rd = block(ImageFileDirectoryReader::open(&m, 0, big, e.lib())).map_err(|x| x.to_string())?;
            let (tag, x) = block(rd.read_tag(&m, 0)).map_err(|x| x.to_string())?;
            ensure!(tag.to_u16() as u64 == id, "tag {} instead of {}", tag.to_u16(), id);
            ensure!(x == TagValue::Short(v as u16), "value {x:?} instead of {v}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
fn scalar(r: &mut Rng, k: u64) -> TagValue {
    let v = r.interesting();
    let w = r.interesting();
    match k % 16 {
        0 => TagValue::Byte(v as u8),
        1 => TagValue::Short(v as u16),
        2 => TagValue::Unsigned(v as u32),
        3 => TagValue::UnsignedBig(v),
        4 => TagValue::SignedByte(v as i8),
        5 => TagValue::SignedShort(v as i16),
        6 => TagValue::Signed(v as i32),
        7 => TagValue::SignedBig(v as i64),
        8 => TagValue::Float(f32::from_bits(v as u32)),
        9 => TagValue::Double(f64::from_bits(v)),
        10 => TagValue::Ifd(v as u32),
        11 => TagValue::IfdBig(v),
        12 => TagValue::Rational(v as u32, w as u32),
        13 => TagValue::SRational(v as i32, w as i32),
        14 => TagValue::RationalBig(v, w),
        _ => TagValue::SRationalBig(v as i64, w as i64),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum K {
    U,
    S,
    F,
}
/// (integer value, class, class rank) of an integer-valued scalar
fn int_of(v: &TagValue) -> Option<(i128, K, u32, bool)> {
    Some(match v {
        TagValue::Byte(x) => (*x as i128, K::U, 8, false),
        TagValue::Short(x) => (*x as i128, K::U, 16, false),
        TagValue::Unsigned(x) => (*x as i128, K::U, 32, false),
        TagValue::UnsignedBig(x) => (*x as i128, K::U, 64, false),
        TagValue::Ifd(x) => (*x as i128, K::U, 32, true),
        TagValue::IfdBig(x) => (*x as i128, K::U, 64, true),
        TagValue::SignedByte(x) => (*x as i128, K::S, 8, false),
        TagValue::SignedShort(x) => (*x as i128, K::S, 16, false),
        TagValue::Signed(x) => (*x as i128, K::S, 32, false),
        TagValue::SignedBig(x) => (*x as i128, K::S, 64, false),
        _ => return None,
    })
}
/// the documented scalar conversion: None = must be an error
fn conv(v: &TagValue, k: K, bits: u32) -> Option<i128> {
    let (x, c, b, is_ifd) = int_of(v)?;
    if c != k {
        return None;
    }
    // the 8-bit conversions accept only 8-bit values; IFD offsets need at least 32 bits
    if bits == 8 && b != 8 || is_ifd && bits < 32 {
        return None;
    }
    let (lo, hi) = if k == K::U { (0, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
    if x < lo || x > hi {
        return None;
    }
    Some(x)
}
fn vec_conv(v: &TagValue, k: K, bits: u32) -> Option<Vec<i128>> {
    let fit = |x: i128| -> Option<i128> {
        let (lo, hi) = if k == K::U { (0, (1i128 << bits) - 1) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
        (x >= lo && x <= hi).then_some(x)
    };
    match v {
        TagValue::List(l) => {
            let mut o = vec![];
            for x in l {
                match (x, k) {
                    (TagValue::SRational(n, d), K::S) => o.extend([fit(*n as i128)?, fit(*d as i128)?]),
                    (TagValue::SRationalBig(n, d), K::S) => o.extend([fit(*n as i128)?, fit(*d as i128)?]),
                    _ => o.push(conv(x, k, bits)?),
                }
            }
            Some(o)
        }
        TagValue::Rational(n, d) if k == K::U && bits >= 32 => Some(vec![*n as i128, *d as i128]),
        TagValue::RationalBig(n, d) if k == K::U && bits >= 32 => Some(vec![fit(*n as i128)?, fit(*d as i128)?]),
        TagValue::SRational(n, d) if k == K::S => Some(vec![*n as i128, *d as i128]),
        TagValue::SRationalBig(n, d) if k == K::S => Some(vec![fit(*n as i128)?, fit(*d as i128)?]),
        TagValue::Ascii(s) if k == K::U && bits >= 32 => Some(s.chars().map(|b| b as u32 as i128).collect()),
        // the 16-bit list accepts a single 8- or 16-bit value
        TagValue::Unsigned(_) | TagValue::UnsignedBig(_) if k == K::U && bits == 16 => None,
        x => conv(x, k, bits).map(|x| vec![x]),
    }
}
fn c12(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let v = match i % 20 {
        k @ 0..=15 => scalar(r, k),
        16 => TagValue::Ascii((0..r.below(6)).map(|_| if r.below(9) == 0 { *r.pick(&['é', '日', '\u{10FFFF}', '\0']) } else { (32 + r.below(90)) as u8 as char }).collect()),
        17 => TagValue::List((0..r.below(5)).map(|_| { let k = r.next(); scalar(r, k) }).collect()),
        _ => {
            let k = r.next();
            TagValue::List((0..r.below(5)).map(|_| scalar(r, k)).collect())
        }
    };
    t.note(format!("{v:?}"));
    format!("{v:?}").bytes().for_each(|b| t.mix(b as u64));
    macro_rules! chk {
        ($m:ident, $want:expr) => {{
            let got = v.clone().$m().ok().map(|x| x as i128);
            ensure!(got == $want, "{}: got {:?}, exact-or-error value is {:?}", stringify!($m), got, $want);
        }};
    }
    chk!(into_u8, conv(&v, K::U, 8));
    chk!(into_u16, conv(&v, K::U, 16));
    chk!(into_u32, conv(&v, K::U, 32));
    chk!(into_u64, conv(&v, K::U, 64));
    chk!(into_i8, conv(&v, K::S, 8));
    chk!(into_i16, conv(&v, K::S, 16));
    chk!(into_i32, conv(&v, K::S, 32));
    chk!(into_i64, conv(&v, K::S, 64));
    let f = v.clone().into_f32().ok().map(|x| x.to_bits());
    let wf = if let TagValue::Float(x) = &v { Some(x.to_bits()) } else { None };
    ensure!(f == wf, "into_f32: got {f:?} want {wf:?}");
    let f = v.clone().into_f64().ok().map(|x| x.to_bits());
    let wf = if let TagValue::Double(x) = &v { Some(x.to_bits()) } else { None };
    ensure!(f == wf, "into_f64: got {f:?} want {wf:?}");
    let s = v.clone().into_string().ok();
    let ws = if let TagValue::Ascii(x) = &v { Some(x.clone()) } else { None };
    ensure!(s == ws, "into_string: got {s:?} want {ws:?}");
    macro_rules! chkv {
        ($m:ident, $k:expr, $b:expr) => {{
            let got = v.clone().$m().ok().map(|x| x.iter().map(|y| *y as i128).collect::<Vec<_>>());
            let want = vec_conv(&v, $k, $b);
            ensure!(got == want, "{}: got {:?}, exact-or-error value is {:?}", stringify!($m), got, want);
        }};
    }
    chkv!(into_u8_vec, K::U, 8);
    chkv!(into_u16_vec, K::U, 16);
    chkv!(into_u32_vec, K::U, 32);
    chkv!(into_u64_vec, K::U, 64);
    chkv!(into_i32_vec, K::S, 32);
    chkv!(into_i64_vec, K::S, 64);
    let g = v.clone().into_f32_vec().ok().map(|x| x.iter().map(|y| y.to_bits()).collect::<Vec<_>>());
    let one32 = |x: &TagValue| if let TagValue::Float(f) = x { Some(f.to_bits()) } else { None };
    let want = match &v {
        TagValue::List(l) => l.iter().map(one32).collect::<Option<Vec<_>>>(),
        x => one32(x).map(|x| vec![x]),
    };
    ensure!(g == want, "into_f32_vec: got {g:?} want {want:?}");
    let g = v.clone().into_f64_vec().ok().map(|x| x.iter().map(|y| y.to_bits()).collect::<Vec<_>>());
    let one64 = |x: &TagValue| if let TagValue::Double(f) = x { Some(f.to_bits()) } else { None };
    let want = match &v {
        TagValue::List(l) => l.iter().map(one64).collect::<Option<Vec<_>>>(),
        x => one64(x).map(|x| vec![x]),
    };
    ensure!(g == want, "into_f64_vec: got {g:?} want {want:?}");
    let _ = K::F;
    Ok(())
}

// ---------------------------------------------------------------- C13
/// which conversion a field uses: 'w' u32, 'h' u16, 'H' u16 list, 'Q' u64 list, 's' string, 'r' rational, 'D' f64 list, 'B' bytes, 'L' u32 list
const FIELDS: &[(u16, char)] = &[
    (254, 'w'), (256, 'w'), (257, 'w'), (258, 'H'), (259, 'h'), (262, 'h'), (269, 's'), (270, 's'), (273, 'Q'), (274, 'h'),
    (277, 'h'), (278, 'w'), (279, 'Q'), (280, 'H'), (281, 'H'), (282, 'r'), (283, 'r'), (284, 'h'), (296, 'h'), (305, 's'),
    (306, 's'), (315, 's'), (316, 's'), (317, 'h'), (320, 'H'), (322, 'w'), (323, 'w'), (324, 'Q'), (325, 'Q'), (338, 'H'),
    (339, 'H'), (347, 'B'), (33432, 's'), (33550, 'D'), (33922, 'D'), (34264, 'D'), (42112, 's'), (42113, 's'), (50674, 'L'),
];
fn good_value(tag: u16, kind: char, r: &mut Rng) -> TagValue {
    let n = 1 + r.below(4) as usize;
    match kind {
        'w' => match r.below(3) {
            0 => TagValue::Short(r.interesting() as u16),
            1 => TagValue::UnsignedBig(r.interesting() & 0xFFFF_FFFF),
            _ => TagValue::Unsigned(r.interesting() as u32),
        },
        'h' => {
            let v = match tag {
                259 => *r.pick(&[1u16, 5, 7, 8, 34887, 34925, 50000, 50001, 34712, 32773, 2, 4, 32946, 6, 3, 12345]),
                262 => *r.pick(&[0u16, 1, 2, 3, 4, 5, 6, 8]),
                284 => *r.pick(&[1u16, 2]),
                296 => *r.pick(&[1u16, 2, 3]),
                317 => *r.pick(&[1u16, 2, 3]),
                277 => 1 + r.below(9) as u16,
                _ => r.interesting() as u16,
            };
            match r.below(3) {
                0 => TagValue::Unsigned(v as u32),
                1 => TagValue::UnsignedBig(v as u64),
                _ => TagValue::Short(v),
            }
        }
        'H' => {
            let v: Vec<u16> = (0..n)
                .map(|_| match tag {
                    338 => r.below(3) as u16,
                    339 => *r.pick(&[1u16, 2, 3, 4, 5, 6, 100]),
                    _ => r.interesting() as u16,
                })
                .collect();
            if n == 1 {
                TagValue::Short(v[0])
            } else {
                TagValue::List(v.into_iter().map(TagValue::Short).collect())
            }
        }
        'Q' => {
            let v: Vec<TagValue> = (0..n).map(|_| if r.bool() { TagValue::UnsignedBig(r.interesting()) } else { TagValue::Unsigned(r.interesting() as u32) }).collect();
            if n == 1 {
                v[0].clone()
            } else {
                TagValue::List(v)
            }
        }
        'L' => TagValue::List((0..n).map(|_| TagValue::Unsigned(r.interesting() as u32)).collect()),
        's' => TagValue::Ascii((0..r.below(9)).map(|_| (32 + r.below(90)) as u8 as char).collect()),
        'r' => TagValue::Rational(r.interesting() as u32, r.interesting() as u32),
        'D' => TagValue::List((0..n).map(|_| TagValue::Double(f64::from_bits(r.next()))).collect()),
        'B' => TagValue::List((0..n).map(|_| TagValue::Byte(r.next() as u8)).collect()),
        _ => unreachable!(),
    }
}
fn f64s(v: Option<&[f64]>) -> Option<Vec<u64>> {
    v.map(|v| v.iter().map(|x| x.to_bits()).collect())
}
/// everything an IFD reports about the fields of FIELDS, as text, keyed by tag id
fn observed(x: &ImageFileDirectory) -> HashMap<u16, String> {
    let mut o = HashMap::new();
    macro_rules! put {
        ($t:expr, $v:expr) => {
            o.insert($t, format!("{:?}", $v))
        };
    }
    put!(254, x.new_subfile_type());
    put!(256, Some(x.image_width()));
    put!(257, Some(x.image_height()));
    put!(258, Some(x.bits_per_sample()));
    put!(259, Some(x.compression().to_u16()));
    put!(262, Some(x.photometric_interpretation().to_u16()));
    put!(269, x.document_name());
    put!(270, x.image_description());
    put!(273, x.strip_offsets());
    put!(274, x.orientation());
    put!(277, Some(x.samples_per_pixel()));
    put!(278, x.rows_per_strip());
    put!(279, x.strip_byte_counts());
    put!(280, x.min_sample_value());
    put!(281, x.max_sample_value());
    put!(282, x.x_resolution().map(|x| x.to_bits()));
    put!(283, x.y_resolution().map(|x| x.to_bits()));
    put!(284, Some(x.planar_configuration().to_u16()));
    put!(296, x.resolution_unit().map(|x| x.to_u16()));
    put!(305, x.software());
    put!(306, x.date_time());
    put!(315, x.artist());
    put!(316, x.host_computer());
    put!(317, x.predictor().map(|x| x.to_u16()));
    put!(320, x.colormap().map(|x| x.to_vec()));
    put!(322, x.tile_width());
    put!(323, x.tile_height());
    put!(324, x.tile_offsets());
    put!(325, x.tile_byte_counts());
    put!(338, x.extra_samples().map(|v| v.iter().map(|x| x.to_u16()).collect::<Vec<_>>()));
    put!(339, Some(x.sample_format().iter().map(|x| x.to_u16()).collect::<Vec<_>>()));
    put!(347, x.jpeg_tables());
    put!(33432, x.copyright());
    put!(33550, f64s(x.model_pixel_scale()));
    put!(33922, f64s(x.model_tiepoint()));
    put!(34264, f64s(x.model_transformation()));
    put!(42112, x.gdal_metadata());
    put!(42113, x.gdal_nodata());
    put!(50674, x.lerc_parameters());
    o
}
fn want_text(kind: char, v: &TagValue) -> String {
    let ints = |v: &TagValue| -> Vec<u64> {
        match v {
            TagValue::List(l) => l.iter().map(|x| int_of(x).unwrap().0 as u64).collect(),
            x => vec![int_of(x).unwrap().0 as u64],
        }
    };
    match kind {
        'w' | 'h' => format!("{:?}", Some(ints(v)[0])),
        'H' | 'Q' | 'L' | 'B' => format!("{:?}", Some(ints(v))),
        's' => match v {
            TagValue::Ascii(s) => format!("{:?}", Some(s)),
            _ => unreachable!(),
        },
        'r' => match v {
            TagValue::Rational(n, d) => format!("{:?}", Some((*n as f64 / *d as f64).to_bits())),
            _ => unreachable!(),
        },
        'D' => match v {
            TagValue::List(l) => {
                format!("{:?}", Some(l.iter().map(|x| if let TagValue::Double(f) = x { f.to_bits() } else { 0 }).collect::<Vec<_>>()))
            }
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
fn tagof(id: u16) -> Tag {
    Tag::from_u16_exhaustive(id)
}
fn c13(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let required = [256u16, 257, 258, 262, 277];
    let mut tags: HashMap<Tag, TagValue> = HashMap::new();
    let mut given: HashMap<u16, (char, TagValue)> = HashMap::new();
    let density = r.below(4);
    for (id, k) in FIELDS {
        if required.contains(id) || r.below(4) < density || (i % FIELDS.len() as u64) as usize == FIELDS.iter().position(|f| f.0 == *id).unwrap() {
            let v = good_value(*id, *k, r);
            given.insert(*id, (*k, v.clone()));
            tags.insert(tagof(*id), v);
        }
    }
    // tags without a field of their own
    let mut others: HashMap<u16, TagValue> = HashMap::new();
    for _ in 0..r.below(4) {
        let id = *r.pick(&[255u16, 263, 264, 265, 266, 271, 272, 288, 289, 290, 291, 340, 341, 700, 0, 268, 321, 330, 32768, 34377, 65535, 50839]);
        let k = r.next();
        let v = if r.bool() { scalar(r, k) } else { TagValue::List(vec![TagValue::Short(k as u16); (k % 3) as usize]) };
        if !matches!(v, TagValue::Float(_) | TagValue::Double(_)) {
            others.insert(id, v.clone());
            tags.insert(tagof(id), v);
        }
    }
    let e = if r.bool() { E::L } else { E::B };
    let mut ids: Vec<_> = given.keys().copied().collect();
    ids.sort();
    t.note(format!("{:.1500}", format!("fields {:?} others {others:?} {e:?}", ids.iter().map(|k| (k, &given[k].1)).collect::<Vec<_>>())));
    for k in &ids {
        t.mix(*k as u64);
    }
    t.mix(r.next());
    let x = ImageFileDirectory::from_tags(tags.clone(), e.lib()).map_err(|x| format!("rejected: {x}"))?;
    let obs = observed(&x);
    let spp = int_of(&given[&277].1).unwrap().0;
    for (id, _) in FIELDS {
        let want = match given.get(id) {
            Some((k, v)) => want_text(*k, v),
            None => match id {
                259 | 284 => "Some(1)".into(),
                339 => format!("{:?}", Some(vec![1u16; spp as usize])),
                _ => "None".into(),
            },
        };
        ensure!(obs[id] == want, "tag {id} is reported as {}, the tags say {}", obs[id], want);
    }
    ensure!(x.other_tags().len() == others.len(), "other_tags {:?} instead of {:?}", x.other_tags(), others);
    for (id, v) in &others {
        ensure!(x.other_tags().get(&tagof(*id)) == Some(v), "other tag {id} is {:?} instead of {:?}", x.other_tags().get(&tagof(*id)), v);
    }
    ensure!(x.geo_key_directory().is_none(), "a geo key directory appeared");
    // a missing required tag is an error naming no other outcome
    let miss = required[(i % 5) as usize];
    let mut t2 = tags.clone();
    t2.remove(&tagof(miss));
    ensure!(ImageFileDirectory::from_tags(t2, e.lib()).is_err(), "accepted without the required tag {miss}");
    let mut t2 = tags.clone();
    t2.insert(Tag::BitsPerSample, TagValue::List(vec![]));
    ensure!(ImageFileDirectory::from_tags(t2, e.lib()).is_err(), "accepted with an empty BitsPerSample");
    // a value of the wrong type is an error
    let (id, kind) = FIELDS[(i % FIELDS.len() as u64) as usize];
    let wrong = match kind {
        's' => TagValue::Short(65),
        'r' => (*r.pick(&[TagValue::Double(1.5), TagValue::Unsigned(72), TagValue::SRational(1, 2), TagValue::List(vec![TagValue::Rational(1, 2)])])).clone(),
        'w' => (*r.pick(&[TagValue::UnsignedBig(1 << 32), TagValue::Ascii("1".into()), TagValue::Signed(1), TagValue::Double(1.0)])).clone(),
        'h' => (*r.pick(&[TagValue::Unsigned(65536 + 1), TagValue::Ascii("1".into()), TagValue::SignedShort(1), TagValue::Double(1.0)])).clone(),
        'D' => (*r.pick(&[TagValue::Float(1.0), TagValue::List(vec![TagValue::Double(1.0), TagValue::Short(1)]), TagValue::Ascii("1".into())])).clone(),
        _ => (*r.pick(&[TagValue::Signed(1), TagValue::Double(1.0), TagValue::List(vec![TagValue::Short(1), TagValue::SignedBig(1)])])).clone(),
    };
    let mut t2 = tags;
    t2.insert(tagof(id), wrong.clone());
    ensure!(ImageFileDirectory::from_tags(t2, e.lib()).is_err(), "tag {id} with value {wrong:?} was accepted");
    Ok(())
}

// ---------------------------------------------------------------- C14
const GEO: &[(u16, char)] = &[
    (1024, 'h'), (1025, 'h'), (1026, 's'), (2048, 'h'), (2049, 's'), (2050, 'h'), (2051, 'h'), (2052, 'h'), (2053, 'd'), (2054, 'h'),
    (2055, 'd'), (2056, 'h'), (2057, 'd'), (2058, 'd'), (2059, 'd'), (2060, 'h'), (2061, 'd'), (3072, 'h'), (3073, 's'), (3074, 'h'),
    (3075, 'h'), (3076, 'h'), (3077, 'd'), (3078, 'd'), (3079, 'd'), (3080, 'd'), (3081, 'd'), (3082, 'd'), (3083, 'd'), (3084, 'd'),
    (3085, 'd'), (3086, 'd'), (3087, 'd'), (3088, 'd'), (3089, 'd'), (3090, 'd'), (3091, 'd'), (3092, 'd'), (3093, 'd'), (3094, 'd'),
    (3095, 'd'), (4096, 'h'), (4097, 's'), (4098, 'h'), (4099, 'h'),
];
fn geo_observed(g: &GeoKeyDirectory) -> HashMap<u16, Option<String>> {
    let mut o = HashMap::new();
    macro_rules! h { ($($k:expr => $f:ident),*) => { $( o.insert($k, g.$f.map(|x| x.to_string())); )* } }
    macro_rules! d { ($($k:expr => $f:ident),*) => { $( o.insert($k, g.$f.map(|x| x.to_bits().to_string())); )* } }
    macro_rules! s { ($($k:expr => $f:ident),*) => { $( o.insert($k, g.$f.clone()); )* } }
    h!(1024 => model_type, 1025 => raster_type, 2048 => geographic_type, 2050 => geog_geodetic_datum, 2051 => geog_prime_meridian,
       2052 => geog_linear_units, 2054 => geog_angular_units, 2056 => geog_ellipsoid, 2060 => geog_azimuth_units, 3072 => projected_type,
       3074 => projection, 3075 => proj_coord_trans, 3076 => proj_linear_units, 4096 => vertical, 4098 => vertical_datum, 4099 => vertical_units);
    s!(1026 => citation, 2049 => geog_citation, 3073 => proj_citation, 4097 => vertical_citation);
    d!(2053 => geog_linear_unit_size, 2055 => geog_angular_unit_size, 2057 => geog_semi_major_axis, 2058 => geog_semi_minor_axis,
       2059 => geog_inv_flattening, 2061 => geog_prime_meridian_long, 3077 => proj_linear_unit_size, 3078 => proj_std_parallel1,
       3079 => proj_std_parallel2, 3080 => proj_nat_origin_long, 3081 => proj_nat_origin_lat, 3082 => proj_false_easting,
       3083 => proj_false_northing, 3084 => proj_false_origin_long, 3085 => proj_false_origin_lat, 3086 => proj_false_origin_easting,
       3087 => proj_false_origin_northing, 3088 => proj_center_long, 3089 => proj_center_lat, 3090 => proj_center_easting,
       3091 => proj_center_northing, 3092 => proj_scale_at_nat_origin, 3093 => proj_scale_at_center, 3094 => proj_azimuth_angle,
       3095 => proj_straight_vert_pole_long);
    o
}
fn base_tags() -> HashMap<Tag, TagValue> {
    HashMap::from([
        (Tag::ImageWidth, TagValue::Unsigned(4)),
        (Tag::ImageLength, TagValue::Unsigned(4)),
        (Tag::BitsPerSample, TagValue::Short(8)),
        (Tag::PhotometricInterpretation, TagValue::Short(1)),
        (Tag::SamplesPerPixel, TagValue::Short(1)),
    ])
}
fn c14(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut dir: Vec<u16> = vec![1, 1, r.below(3) as u16, 0];
    let mut ascii = String::new();
    let mut doubles: Vec<f64> = (0..r.below(3)).map(|_| 0.5).collect();
    let mut want: HashMap<u16, Option<String>> = GEO.iter().map(|g| (g.0, None)).collect();
    let mut n = 0;
    let density = r.below(4);
    let mut keys: Vec<(u16, char)> = GEO.iter().copied().filter(|g| r.below(4) < density || g.0 == GEO[(i % GEO.len() as u64) as usize].0).collect();
    if r.bool() {
        shuffle(&mut keys, r);
    }
    for (id, k) in &keys {
        // unknown keys in between are skipped
        if r.below(6) == 0 {
            let unk = *r.pick(&[0u16, 1023, 1027, 2062, 3071, 3096, 4100, 5120, 32767, 65535]);
            dir.extend([unk, *r.pick(&[0u16, 34736, 34737]), 1, r.next() as u16]);
            n += 1;
        }
        match k {
            'h' => {
                let v = r.interesting() as u16;
                dir.extend([*id, 0, 1, v]);
                want.insert(*id, Some(v.to_string()));
            }
            's' => {
                let s: String = (0..r.below(7)).map(|_| if r.below(12) == 0 { '|' } else { (b'a' + r.below(26) as u8) as char }).collect();
                let bar = r.below(3) != 0 || s.ends_with('|');
                let off = ascii.len();
                ascii.push_str(&s);
                if bar {
                    ascii.push('|');
                }
                dir.extend([*id, 34737, (s.len() + bar as usize) as u16, off as u16]);
                want.insert(*id, Some(s));
            }
            _ => {
                let v = f64::from_bits(r.next());
                dir.extend([*id, 34736, 1, doubles.len() as u16]);
                doubles.push(v);
                want.insert(*id, Some(v.to_bits().to_string()));
            }
        }
        n += 1;
    }
    dir[3] = n;
    // trailing shorts beyond the number of keys are ignored
    if r.below(4) == 0 {
        dir.extend([3072, 0, 1, 1234]);
    }
    t.note(format!("{:.1500}", format!("directory {dir:?} ascii {ascii:?} doubles {doubles:?}")));
    dir.iter().for_each(|x| t.mix(*x as u64));
    let mut tags = base_tags();
    tags.insert(Tag::GeoKeyDirectory, TagValue::List(dir.iter().map(|x| TagValue::Short(*x)).collect()));
    tags.insert(Tag::GeoAsciiParams, TagValue::Ascii(ascii.clone()));
    tags.insert(Tag::GeoDoubleParams, TagValue::List(doubles.iter().map(|x| TagValue::Double(*x)).collect()));
    let ifd = ImageFileDirectory::from_tags(tags.clone(), E::L.lib()).map_err(|x| format!("rejected: {x}"))?;
    let g = ifd.geo_key_directory().ok_or("no geo key directory")?;
    let obs = geo_observed(g);
    for (k, w) in &want {
        ensure!(obs[k] == *w, "key {k}: got {:?}, directory says {:?}", obs[k], w);
    }
    let epsg = want[&3072].clone().or(want[&2048].clone());
    ensure!(g.epsg_code().map(|x| x.to_string()) == epsg, "epsg_code {:?}, keys say {:?}", g.epsg_code(), epsg);
    // malformed directories are errors
    let mut bad = dir.clone();
    let what = i % 5;
    match what {
        0 => bad[0] = *r.pick(&[0u16, 2, 256]),
        1 => bad[1] = *r.pick(&[0u16, 2, 256]),
        2 => {
            bad.truncate(4);
            bad[3] = 1;
        }
        3 => bad.truncate(r.below(4) as usize),
        _ => {
            bad = vec![1, 1, 0, 1, *r.pick(&[1026u16, 3073]), 34737, (ascii.len() + 1) as u16, 0];
        }
    }
    tags.insert(Tag::GeoKeyDirectory, TagValue::List(bad.iter().map(|x| TagValue::Short(*x)).collect()));
    ensure!(ImageFileDirectory::from_tags(tags.clone(), E::L.lib()).is_err(), "a malformed directory {bad:?} was accepted");
    // params referred to but absent
    let (id, loc) = *r.pick(&[(1026u16, 34737u16), (2057, 34736)]);
    tags.remove(&tagof(loc));
    tags.insert(Tag::GeoKeyDirectory, TagValue::List([1, 1, 0, 1, id, loc, 1, 0].map(TagValue::Short).to_vec()));
    ensure!(ImageFileDirectory::from_tags(tags, E::L.lib()).is_err(), "key {id} refers to the absent tag {loc} and was accepted");
    Ok(())
}

// ---------------------------------------------------------------- C19
const TAGS: &[(&str, u16)] = &[
    ("Artist", 315), ("BitsPerSample", 258), ("CellLength", 265), ("CellWidth", 264), ("ColorMap", 320), ("Compression", 259),
    ("Copyright", 33432), ("DateTime", 306), ("ExtraSamples", 338), ("FillOrder", 266), ("FreeByteCounts", 289), ("FreeOffsets", 288),
    ("GrayResponseCurve", 291), ("GrayResponseUnit", 290), ("HostComputer", 316), ("ImageDescription", 270), ("ImageLength", 257),
    ("ImageWidth", 256), ("Make", 271), ("MaxSampleValue", 281), ("MinSampleValue", 280), ("Model", 272), ("NewSubfileType", 254),
    ("Orientation", 274), ("PhotometricInterpretation", 262), ("PlanarConfiguration", 284), ("ResolutionUnit", 296), ("RowsPerStrip", 278),
    ("SamplesPerPixel", 277), ("Software", 305), ("StripByteCounts", 279), ("StripOffsets", 273), ("SubfileType", 255),
    ("Threshholding", 263), ("XResolution", 282), ("YResolution", 283), ("Predictor", 317), ("TileWidth", 322), ("TileLength", 323),
    ("TileOffsets", 324), ("TileByteCounts", 325), ("SampleFormat", 339), ("SMinSampleValue", 340), ("SMaxSampleValue", 341),
    ("JPEGTables", 347), ("ModelPixelScale", 33550), ("ModelTransformation", 34264), ("ModelTiepoint", 33922), ("GeoKeyDirectory", 34735),
    ("GeoDoubleParams", 34736), ("GeoAsciiParams", 34737), ("GdalNodata", 42113), ("GdalMetadata", 42112), ("LercParameters", 50674),
];
fn c19(i: u64, _r: &mut Rng, t: &mut Trace) -> Res {
    let c = (i % 65536) as u16;
    t.note(format!("code {c}"));
    t.mix(c as u64);
    let named = |tbl: &[(&str, u16)], got: Option<String>, back: Option<u16>, what: &str| -> Res {
        let want = tbl.iter().find(|x| x.1 == c).map(|x| x.0.to_string());
        ensure!(got == want, "{what}: code {c} is {got:?}, the specification says {want:?}");
        if want.is_some() {
            ensure!(back == Some(c), "{what}: code {c} maps back to {back:?}");
        }
        Ok(())
    };
    macro_rules! closed {
        ($ty:ident, $tbl:expr) => {{
            let x = $ty::from_u16(c);
            named($tbl, x.map(|x| format!("{x:?}")), x.map(|x| x.to_u16()), stringify!($ty))?;
        }};
    }
    macro_rules! open {
        ($ty:ident, $tbl:expr) => {{
            closed!($ty, $tbl);
            let y = $ty::from_u16_exhaustive(c);
            ensure!(y.to_u16() == c, "{}: code {c} maps back to {}", stringify!($ty), y.to_u16());
            match $ty::from_u16(c) {
                Some(x) => ensure!(x == y, "{}: code {c}: {x:?} and {y:?}", stringify!($ty)),
                None => ensure!(y == $ty::Unknown(c), "{}: unknown code {c} is {y:?}", stringify!($ty)),
            }
        }};
    }
    open!(Tag, TAGS);
    open!(Compression, &[("None", 1), ("Huffman", 2), ("Fax3", 3), ("Fax4", 4), ("LZW", 5), ("JPEG", 6), ("ModernJPEG", 7), ("Deflate", 8),
        ("OldDeflate", 32946), ("PackBits", 32773), ("LERC", 34887), ("LZMA", 34925), ("WebP", 50001), ("JPEG2k", 34712), ("ZSTD", 50000)]);
    open!(SampleFormat, &[("Uint", 1), ("Int", 2), ("Float", 3), ("Void", 4)]);
    closed!(Type, &[("BYTE", 1), ("ASCII", 2), ("SHORT", 3), ("LONG", 4), ("RATIONAL", 5), ("SBYTE", 6), ("UNDEFINED", 7), ("SSHORT", 8),
        ("SLONG", 9), ("SRATIONAL", 10), ("FLOAT", 11), ("DOUBLE", 12), ("IFD", 13), ("LONG8", 16), ("SLONG8", 17), ("IFD8", 18)]);
    closed!(ExtraSamples, &[("Unspecified", 0), ("AssociatedAlpha", 1), ("UnassociatedAlpha", 2)]);
    closed!(PhotometricInterpretation, &[("WhiteIsZero", 0), ("BlackIsZero", 1), ("RGB", 2), ("RGBPalette", 3), ("TransparencyMask", 4),
        ("CMYK", 5), ("YCbCr", 6), ("CIELab", 8)]);
    closed!(PlanarConfiguration, &[("Chunky", 1), ("Planar", 2)]);
    closed!(Predictor, &[("None", 1), ("Horizontal", 2), ("FloatingPoint", 3)]);
    closed!(ResolutionUnit, &[("None", 1), ("Inch", 2), ("Centimeter", 3)]);
    Ok(())
}

// ---------------------------------------------------------------- C20
fn c20(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = 1 + r.below(4) as usize;
    let mut all: Vec<u64> = vec![];
    let mut ifds = vec![];
    for _ in 0..n {
        let mut tags = base_tags();
        for id in [273u16, 324] {
            if r.below(3) != 0 {
                let k = r.below(6) as usize;
                let v: Vec<u64> = (0..k).map(|_| if r.below(3) == 0 { 0 } else { r.interesting() }).collect();
                t.note(format!("ifd {} tag {id} {v:?}", ifds.len()));
                v.iter().for_each(|x| t.mix(*x));
                all.extend(v.iter().filter(|x| **x != 0));
                tags.insert(tagof(id), TagValue::List(v.into_iter().map(TagValue::UnsignedBig).collect()));
            }
        }
        for id in [279u16, 325, 288] {
            if r.bool() {
                tags.insert(tagof(id), TagValue::List(vec![TagValue::Unsigned(1); 3]));
            }
        }
        ifds.push(ImageFileDirectory::from_tags(tags, E::L.lib()).map_err(|x| x.to_string())?);
    }
    let tiff = TIFF::new(ifds, E::L.lib());
    if let Some(m) = all.iter().min() {
        let got = tiff.header_byte_size();
        ensure!(got == *m, "header_byte_size {got}, smallest non-zero offset {m}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C23
fn drive(m: &Bounded) {
    let Ok(mut rd) = block(TiffMetadataReader::try_open(m)) else { return };
    if let Ok(t) = block(rd.read(m)) {
        for x in t.ifds() {
            let _ = observed(x);
            let _ = x.tile_count();
            if let Some(g) = x.geo_key_directory() {
                let _ = g.epsg_code();
            }
        }
    }
}
fn sample_file(r: &mut Rng) -> Vec<u8> {
    let e = if r.bool() { E::L } else { E::B };
    let n = 1 + r.below(3) as usize;
    let ifds = (0..n)
        .map(|_| {
            let mut v = minimal(20, 20);
            for _ in 0..r.below(6) {
                let (id, k) = *r.pick(FIELDS);
                if v.iter().any(|x| x.tag == id) {
                    continue;
                }
                v.push(match k {
                    's' => Entry::ascii(id, "some text"),
                    'r' => Entry::new(id, 5, &[72 << 32 | 1]),
                    'D' => Entry::new(id, 12, &[1, 2, 3]),
                    'B' => Entry::new(id, 7, &[1, 2, 3, 4, 5]),
                    'Q' => Entry::new(id, 4, &[100, 200]),
                    'L' => Entry::new(id, 4, &[1, 2]),
                    'H' => Entry::new(id, 3, &[1, 2, 3]),
                    _ => Entry::new(id, 3, &[1]),
                });
            }
            if r.bool() {
                v.push(Entry::new(34735, 3, &[1, 1, 0, 3, 1024, 0, 1, 1, 1026, 34737, 5, 0, 2057, 34736, 1, 1]));
                v.push(Entry::new(34736, 12, &[1, 2]));
                v.push(Entry::ascii(34737, "abcd|ef|"));
            }
            v
        })
        .collect();
    let mut tf = Tiff::new(r.bool(), e, ifds);
    tf.values_first = r.bool();
    tf.write().data
}
fn c23_mutate(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut d = sample_file(r);
    for _ in 0..r.below(6) {
        let p = r.below(d.len() as u64) as usize;
        match r.below(5) {
            0 => d[p] = r.next() as u8,
            1 => d[p] ^= 1 << r.below(8),
            2 => {
                let n = *r.pick(&[2usize, 4, 8]);
                let v = r.interesting().to_le_bytes();
                for k in 0..n {
                    if p + k < d.len() {
                        d[p + k] = v[k];
                    }
                }
            }
            3 => {
                let n = 1 + r.below(8) as usize;
                let f = *r.pick(&[0u8, 0xFF, 0x80]);
                for k in p..(p + n).min(d.len()) {
                    d[k] = f;
                }
            }
            _ => {
                if r.below(4) == 0 {
                    d.truncate(p);
                    if d.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    t.note(format!("file {}", hex(&d)));
    d.iter().for_each(|x| t.mix(*x as u64));
    let mut m = Mem::new(d);
    m.short = false;
    drive(&Bounded(m, Default::default()));
    Ok(())
}
fn c23_random(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = r.below(200) as usize;
    let mut d = r.bytes(n);
    // a plausible header, so that the random bytes are read as an IFD
    let e = if r.bool() { E::L } else { E::B };
    let big = r.bool();
    let h = Tiff::new(big, e, vec![]).write().data;
    let hl = h.len();
    let mut f = h;
    f.append(&mut d);
    if i % 3 != 0 {
        let at = if big { 8 } else { 4 };
        let sz = if big { 8 } else { 4 };
        f[at..at + sz].copy_from_slice(&e.put(hl as u64, sz));
        let csz = if big { 8 } else { 2 };
        if f.len() >= hl + csz {
            f[hl..hl + csz].copy_from_slice(&e.put(r.below(9), csz));
            let esz = if big { 20 } else { 12 };
            let mut p = hl + csz;
            while p + 4 <= f.len() {
                if r.below(5) != 0 {
                    f[p..p + 2].copy_from_slice(&e.put(r.pick(FIELDS).0 as u64, 2));
                    f[p + 2..p + 4].copy_from_slice(&e.put(*r.pick(&TYPES) as u64, 2));
                    if r.below(3) != 0 && p + 4 + sz <= f.len() {
                        let v = if r.bool() { r.below(5) } else { r.interesting() };
                        f[p + 4..p + 4 + sz].copy_from_slice(&e.put(v, sz));
                    }
                    if r.bool() && p + 4 + 2 * sz <= f.len() {
                        let v = if r.bool() { r.below(64) } else { r.interesting() };
                        f[p + 4 + sz..p + 4 + 2 * sz].copy_from_slice(&e.put(v, sz));
                    }
                }
                p += esz;
            }
        }
    }
    t.note(format!("file {}", hex(&f)));
    f.iter().for_each(|x| t.mix(*x as u64));
    drive(&Bounded(Mem::new(f), Default::default()));
    Ok(())
}
fn c23_tags(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut tags = base_tags();
    for _ in 0..r.below(5) {
        let id = if r.bool() { r.pick(FIELDS).0 } else { *r.pick(&[34735u16, 34736, 34737]) };
        let k = r.next();
        let v = match r.below(4) {
            0 => scalar(r, k),
            1 => TagValue::Ascii((*r.pick(&["", "|", "é|", "abc|", "日本語|"])).to_string()),
            2 => TagValue::List((0..r.below(6)).map(|_| scalar(r, k)).collect()),
            _ => TagValue::List((0..r.below(14)).map(|_| TagValue::Short(*r.pick(&[0u16, 1, 1, 1, 2, 3, 1024, 1026, 2057, 3073, 34736, 34737, 65535]))).collect()),
        };
        tags.insert(tagof(id), v);
    }
    // a directory that is mostly right
    if r.bool() {
        let mut d = vec![1u16, 1, 0, 1 + r.below(3) as u16];
        for _ in 0..r.below(4) {
            d.extend([*r.pick(&[1026u16, 2057, 3073, 2049, 1024, 3]), *r.pick(&[34736u16, 34737, 34737, 0, 7]), *r.pick(&[0u16, 1, 2, 5, 65535]), *r.pick(&[0u16, 1, 2, 5, 65535])]);
        }
        tags.insert(Tag::GeoKeyDirectory, TagValue::List(d.into_iter().map(TagValue::Short).collect()));
        if r.bool() {
            tags.insert(Tag::GeoAsciiParams, TagValue::Ascii((*r.pick(&["", "|", "é|x", "abc|de|", "日本語|"])).to_string()));
        }
        if r.bool() {
            tags.insert(Tag::GeoDoubleParams, TagValue::List(vec![TagValue::Double(1.0); r.below(4) as usize]));
        }
    }
    let s = format!("{tags:?}");
    t.note(format!("{s:.1500}"));
    s.bytes().for_each(|b| t.mix(b as u64));
    if let Ok(x) = ImageFileDirectory::from_tags(tags, E::L.lib()) {
        let _ = observed(&x);
        let _ = x.tile_count();
    }
    Ok(())
}
