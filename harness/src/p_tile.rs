use crate::ensure;
use crate::util::*;
use async_tiff::decoder::*;
use async_tiff::tags::*;
use async_tiff::*;
use bytes::Bytes;
use std::sync::{Arc, Mutex};

pub const TABLE: &[(&str, &[(&str, fn(u64, &mut Rng, &mut Trace) -> Res)])] = &[
    ("C01", &[("hdiff", c01), ("hdiff-raw", c01_raw)]),
    ("C02", &[("fpred", c02), ("fpred-raw", c02_raw)]),
    ("C03", &[("order", c03), #[cfg(feature = "codecs")] ("codec-order", c03_codec)]),
    ("C04", &[("typed", c04), ("try-new", c04_try_new)]),
    ("C05", &[("bits", c05)]),
    ("C06", &[("dtype", c06)]),
    ("C15", &[("ranges", c15)]),
    ("C16", &[("fetch", c16)]),
    ("C17", &[("pipeline", c17)]),
    #[cfg(feature = "nd")]
    ("C21", &[("ndarray", c21)]),
    #[cfg(feature = "codecs")]
    ("C22", &[("codecs", c22)]),
    #[cfg(feature = "codecs")]
    ("C24", &[("malformed", c24), ("bad-index", c24_index)]),
];

/// the samples of an array as raw bit patterns
pub fn raw(a: &TypedArray) -> Vec<u64> {
    match a {
        TypedArray::Bool(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt8(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt16(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt32(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::UInt64(v) => v.clone(),
        TypedArray::Int8(v) => v.iter().map(|x| *x as u8 as u64).collect(),
        TypedArray::Int16(v) => v.iter().map(|x| *x as u16 as u64).collect(),
        TypedArray::Int32(v) => v.iter().map(|x| *x as u32 as u64).collect(),
        TypedArray::Int64(v) => v.iter().map(|x| *x as u64).collect(),
        TypedArray::Float32(v) => v.iter().map(|x| x.to_bits() as u64).collect(),
        TypedArray::Float64(v) => v.iter().map(|x| x.to_bits()).collect(),
    }
}
pub fn variant(a: &TypedArray) -> DataType {
    match a {
        TypedArray::Bool(_) => DataType::Bool,
        TypedArray::UInt8(_) => DataType::UInt8,
        TypedArray::UInt16(_) => DataType::UInt16,
        TypedArray::UInt32(_) => DataType::UInt32,
        TypedArray::UInt64(_) => DataType::UInt64,
        TypedArray::Int8(_) => DataType::Int8,
        TypedArray::Int16(_) => DataType::Int16,
        TypedArray::Int32(_) => DataType::Int32,
        TypedArray::Int64(_) => DataType::Int64,
        TypedArray::Float32(_) => DataType::Float32,
        TypedArray::Float64(_) => DataType::Float64,
    }
}
pub fn dtype(fmt: u16, bits: u16) -> Option<DataType> {
    Some(match (fmt, bits) {
        (1, 1) => DataType::Bool,
        (1, 8) => DataType::UInt8,
        (1, 16) => DataType::UInt16,
        (1, 32) => DataType::UInt32,
        (1, 64) => DataType::UInt64,
        (2, 8) => DataType::Int8,
        (2, 16) => DataType::Int16,
        (2, 32) => DataType::Int32,
        (2, 64) => DataType::Int64,
        (3, 32) => DataType::Float32,
        (3, 64) => DataType::Float64,
        _ => return None,
    })
}
fn mask(bits: u16) -> u64 {
    if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }
}

fn img(i: u64, r: &mut Rng, t: &mut Trace) -> Img {
    let small = i < 600;
    let bits = *r.pick(&[8u16, 16, 32, 64]);
    let fmt = if bits >= 32 { *r.pick(&[1u16, 2, 3]) } else { *r.pick(&[1u16, 2]) };
    let m = Img {
        big: r.bool(),
        e: if r.bool() { E::L } else { E::B },
        w: r.range(1, if small { 9 } else { 70 }) as u32,
        h: r.range(1, if small { 6 } else { 40 }) as u32,
        tw: r.range(1, if small { 7 } else { 40 }) as u32,
        th: r.range(1, if small { 5 } else { 20 }) as u32,
        spp: *r.pick(&[1u16, 1, 2, 3, 4, 5, 7]),
        bits,
        fmt,
        planar: r.bool(),
        predictor: 1,
        compression: *r.pick(&[1u16, 1, 5, 8, 32946, 50000]),
    };
    t.mix(m.bits as u64 | (m.spp as u64) << 8 | (m.planar as u64) << 20 | ((m.e == E::B) as u64) << 21 | (m.tw as u64) << 24 | (m.th as u64) << 32 | (m.fmt as u64) << 40);
    m
}
/// one tile's pixels: [band][row][col]
fn pixels(m: &Img, r: &mut Rng) -> Vec<Vec<Vec<u64>>> {
    (0..m.spp).map(|_| (0..m.th).map(|_| (0..m.tw).map(|_| if r.below(4) == 0 { r.interesting() } else { r.next() } & mask(m.bits)).collect()).collect()).collect()
}
/// rows of samples as stored: chunky: one chunk with interleaved rows; planar: one chunk per band
fn chunks_rows(m: &Img, px: &[Vec<Vec<u64>>]) -> Vec<Vec<Vec<u64>>> {
    if m.planar {
        px.to_vec()
    } else {
        vec![(0..m.th as usize).map(|y| (0..m.tw as usize).flat_map(|x| (0..m.spp as usize).map(move |b| (b, x))).map(|(b, x)| px[b][y][x]).collect()).collect()]
    }
}
fn expected(m: &Img, px: &[Vec<Vec<u64>>]) -> (Vec<u64>, [usize; 3]) {
    let (w, h, s) = (m.tw as usize, m.th as usize, m.spp as usize);
    let flat: Vec<u64> = chunks_rows(m, px).into_iter().flatten().flatten().collect();
    (flat, if m.planar { [s, h, w] } else { [h, w, s] })
}
fn ser(m: &Img, v: &[u64]) -> Vec<u8> {
    v.iter().flat_map(|x| m.e.put(*x, m.bits as usize / 8)).collect()
}
fn run_img(m: &Img, r: &mut Rng, t: &mut Trace, enc: impl Fn(&Img, &[u64]) -> Vec<u8>) -> Res {
    let (gx, gy) = m.grid();
    let tiles: Vec<_> = (0..gx * gy).map(|_| pixels(m, r)).collect();
    let mut chunks: Vec<Vec<u8>> = vec![vec![]; m.chunk_count()];
    for (k, px) in tiles.iter().enumerate() {
        for (b, rows) in chunks_rows(m, px).iter().enumerate() {
            let bytes: Vec<u8> = rows.iter().flat_map(|row| enc(m, row)).collect();
            chunks[b * gx * gy + k] = compress(m.compression, &bytes);
        }
    }
    let mut order: Vec<usize> = (0..chunks.len()).collect();
    shuffle(&mut order, r);
    let (data, _) = m.write(&chunks, &order, vec![]);
    let (x, y) = (r.below(gx as u64) as usize, r.below(gy as u64) as usize);
    t.note(format!("{m:?} tile=({x},{y}) file={}", hex(&data)));
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
    let ifd = &tiff.ifds()[0];
    let tile = block(ifd.fetch_tile(x, y, &mem)).map_err(|e| format!("fetch: {e}"))?;
    ensure!(tile.x() == x && tile.y() == y, "tile reports position ({},{})", tile.x(), tile.y());
    let a = tile.decode(&DecoderRegistry::default()).map_err(|e| format!("decode: {e}"))?;
    let (want, shape) = expected(m, &tiles[y * gx + x]);
    ensure!(a.shape() == shape, "shape {:?}, expected {:?}", a.shape(), shape);
    ensure!(a.data_type() == dtype(m.fmt, m.bits), "data type {:?}", a.data_type());
    ensure!(Some(variant(a.data())) == dtype(m.fmt, m.bits), "variant {:?}", variant(a.data()));
    let got = raw(a.data());
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b);
        return Err(format!("samples differ (lengths {} / {}), first at {k:?}: got {:x?} expected {:x?}", got.len(), want.len(), k.map(|k| got[k]), k.map(|k| want[k])));
    }
    Ok(())
}
fn hdiff_row(m: &Img, row: &[u64]) -> Vec<u8> {
    let lag = if m.planar { 1 } else { m.spp as usize };
    let d: Vec<u64> = (0..row.len()).map(|i| if i < lag { row[i] } else { row[i].wrapping_sub(row[i - lag]) & mask(m.bits) }).collect();
    ser(m, &d)
}
fn c01(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(i, r, t);
    m.predictor = 2;
    run_img(&m, r, t, hdiff_row)
}
/// buffers that are not whole tiles, odd bit depths: decode through a custom codec, read as bytes
fn c01_raw(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let bits = if i < 64 { i as u16 + 1 } else { r.range(1, 70) as u16 };
    let bps = (bits as usize + 7) / 8;
    let ws = if bits <= 8 { 1 } else if bits <= 16 { 2 } else if bits <= 32 { 4 } else { 8 };
    let (tw, th, spp) = (r.range(1, 6) as usize, r.range(1, 4) as usize, r.range(1, 4) as usize);
    let e = if r.bool() { E::L } else { E::B };
    let stride = tw * spp * bps;
    // an unknown sample format: the array is delivered as bytes; shape must match, so use bps == 1 shapes through width
    let n = th * stride;
    let buf = r.bytes(n);
    t.mix(bits as u64 * 1000 + stride as u64);
    t.note(format!("bits={bits} tw={tw} th={th} spp={spp} e={e:?} buf={}", hex(&buf)));
    let m = Img { big: false, e, w: tw as u32, h: th as u32, tw: tw as u32, th: th as u32, spp: spp as u16, bits, fmt: 4, planar: false, predictor: 2, compression: 1 };
    let (data, _) = m.write(&[buf.clone()], &[0], vec![]);
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
    let tile = block(tiff.ifds()[0].fetch_tile(0, 0, &mem)).map_err(|e| format!("fetch: {e}"))?;
    let res = tile.decode(&DecoderRegistry::default());
    if bits <= 8 {
        // delivered as bytes
        let mut want = buf.clone();
        for row in want.chunks_mut(stride) {
            for k in spp..row.len() {
                row[k] = row[k].wrapping_add(row[k - spp]);
            }
        }
        match res {
            Ok(a) => ensure!(raw(a.data()) == want.iter().map(|b| *b as u64).collect::<Vec<_>>(), "bytes differ: {:?}", a.data()),
            Err(e) => return Err(format!("decode: {e}")),
        }
    } else {
        // wider samples without a data type have no array of the right length, but decoding must not panic
        let _ = (res.is_ok(), ws);
    }
    Ok(())
}
fn fpred_row(m: &Img, row: &[u64]) -> Vec<u8> {
    let lag = if m.planar { 1 } else { m.spp as usize };
    let ws = m.bits as usize / 8;
    let n = row.len();
    let mut p = vec![0u8; n * ws];
    for (k, v) in row.iter().enumerate() {
        let be = E::B.put(*v, ws);
        for b in 0..ws {
            p[b * n + k] = be[b];
        }
    }
    (0..p.len()).map(|i| if i < lag { p[i] } else { p[i].wrapping_sub(p[i - lag]) }).collect()
}
fn c02(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(i, r, t);
    m.predictor = 3;
    m.fmt = 3;
    m.bits = *r.pick(&[32u16, 64]);
    t.mix(m.bits as u64);
    run_img(&m, r, t, fpred_row)
}
/// 16-bit floats (read back as unsigned 16-bit samples), and depths the predictor does not support
fn c02_raw(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(0, r, t);
    m.predictor = 3;
    if r.below(4) == 0 {
        m.bits = *r.pick(&[8u16, 1, 12, 24, 40, 63, 128]);
        m.fmt = 1;
        let (gx, gy) = m.grid();
        let k = if m.planar { m.spp as usize } else { 1 };
        let bps = (m.bits as usize + 7) / 8;
        let n = m.tw as usize * m.th as usize * m.spp as usize * bps / k;
        let chunks: Vec<Vec<u8>> = (0..m.chunk_count()).map(|_| compress(m.compression, &r.bytes(n))).collect();
        let order: Vec<usize> = (0..chunks.len()).collect();
        let (data, _) = m.write(&chunks, &order, vec![]);
        t.note(format!("{m:?} {}x{}", gx, gy));
        let mem = Mem::new(data);
        let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
        let tile = block(tiff.ifds()[0].fetch_tile(0, 0, &mem)).map_err(|e| format!("fetch: {e}"))?;
        ensure!(tile.decode(&DecoderRegistry::default()).is_err(), "the floating-point predictor on {}-bit samples was accepted", m.bits);
        return Ok(());
    }
    m.fmt = *r.pick(&[1u16, 2]);
    m.bits = 16;
    run_img(&m, r, t, fpred_row)
}
fn c03(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(i, r, t);
    m.predictor = 1;
    if r.bool() {
        m.e = E::B;
    }
    run_img(&m, r, t, |m, row| ser(m, row))
}
/// LERC stores samples in an order of its own
#[cfg(feature = "codecs")]
fn c03_codec(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(0, r, t);
    m.compression = 34887;
    m.spp = 1;
    m.planar = false;
    m.predictor = 1;
    m.fmt = *r.pick(&[1u16, 2, 3]);
    m.bits = if m.fmt == 3 { *r.pick(&[32u16, 64]) } else { *r.pick(&[8u16, 16, 32]) };
    let (gx, gy) = m.grid();
    let (w, h) = (m.tw as usize, m.th as usize);
    let vals: Vec<i64> = (0..w * h).map(|_| (r.below(100) as i64) - if m.fmt == 1 { 0 } else { 50 }).collect();
    fn enc<T: lerc::LercDataType>(v: Vec<T>, w: usize, h: usize) -> Vec<u8> {
        lerc::encode(&v, None, w, h, 1, 1, 0, 0.0).unwrap()
    }
    let blob = match (m.fmt, m.bits) {
        (1, 8) => enc(vals.iter().map(|v| *v as u8).collect(), w, h),
        (1, 16) => enc(vals.iter().map(|v| *v as u16).collect(), w, h),
        (1, 32) => enc(vals.iter().map(|v| *v as u32).collect(), w, h),
        (2, 8) => enc(vals.iter().map(|v| *v as i8).collect(), w, h),
        (2, 16) => enc(vals.iter().map(|v| *v as i16).collect(), w, h),
        (2, 32) => enc(vals.iter().map(|v| *v as i32).collect(), w, h),
        (3, 32) => enc(vals.iter().map(|v| *v as f32).collect(), w, h),
        _ => enc(vals.iter().map(|v| *v as f64).collect(), w, h),
    };
    let inner = r.below(3);
    let wrapped = match inner {
        0 => blob.clone(),
        1 => compress(8, &blob),
        _ => compress(50000, &blob),
    };
    let chunks = vec![wrapped; m.chunk_count()];
    let order: Vec<usize> = (0..chunks.len()).collect();
    let (data, _) = m.write(&chunks, &order, vec![Entry::new(50674, 4, &[4, inner])]);
    t.note(format!("{m:?} {gx}x{gy} inner={inner} vals={vals:?}"));
    t.mix(m.bits as u64 * 100 + m.fmt as u64 * 10 + inner + 1000 * (w * h) as u64);
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
    let tile = block(tiff.ifds()[0].fetch_tile(0, 0, &mem)).map_err(|e| format!("fetch: {e}"))?;
    let a = tile.decode(&DecoderRegistry::default()).map_err(|e| format!("decode: {e}"))?;
    let got: Vec<i64> = match a.data() {
        TypedArray::UInt8(v) => v.iter().map(|x| *x as i64).collect(),
        TypedArray::UInt16(v) => v.iter().map(|x| *x as i64).collect(),
        TypedArray::UInt32(v) => v.iter().map(|x| *x as i64).collect(),
        TypedArray::Int8(v) => v.iter().map(|x| *x as i64).collect(),
        TypedArray::Int16(v) => v.iter().map(|x| *x as i64).collect(),
        TypedArray::Int32(v) => v.iter().map(|x| *x as i64).collect(),
        TypedArray::Float32(v) => v.iter().map(|x| *x as i64).collect(),
        TypedArray::Float64(v) => v.iter().map(|x| *x as i64).collect(),
        o => return Err(format!("variant {:?}", variant(o))),
    };
    ensure!(got == vals, "got {got:?} expected {vals:?}");
    Ok(())
}
fn c04(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(i, r, t);
    m.e = E::L;
    if r.below(3) == 0 {
        // wrong amount of data: an error, never an array
        let (gx, gy) = m.grid();
        let k = if m.planar { m.spp as u64 } else { 1 };
        let per = m.tw as u64 * m.th as u64 * (m.spp as u64 / k) * (m.bits as u64 / 8);
        let chunks: Vec<Vec<u8>> = (0..m.chunk_count()).map(|c| { let d = if (c as u64) < (gx * gy) as u64 { 1 } else { 0 } * r.range(1, 9); let n = if r.bool() { per + d } else { per.saturating_sub(d) }; if n == per && d != 0 { per + 1 } else { n } }).map(|n| compress(m.compression, &vec![7u8; n as usize])).collect();
        let order: Vec<usize> = (0..chunks.len()).collect();
        let (data, _) = m.write(&chunks, &order, vec![]);
        t.note(format!("wrong size {m:?} file={}", hex(&data)));
        let mem = Mem::new(data);
        let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
        let tile = block(tiff.ifds()[0].fetch_tile(0, 0, &mem)).map_err(|e| format!("fetch: {e}"))?;
        if let Ok(a) = tile.decode(&DecoderRegistry::default()) {
            return Err(format!("a tile with the wrong number of bytes was decoded to shape {:?} with {} elements", a.shape(), a.data().len()));
        }
        return Ok(());
    }
    run_img(&m, r, t, |m, row| ser(m, row))
}
fn c04_try_new(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let all = [DataType::Bool, DataType::UInt8, DataType::UInt16, DataType::UInt32, DataType::UInt64, DataType::Int8, DataType::Int16, DataType::Int32, DataType::Int64, DataType::Float32, DataType::Float64];
    let dt = if r.below(12) == 0 { None } else { Some(*r.pick(&all)) };
    let n = r.below(70) as usize;
    let mut data = r.bytes(n);
    if r.bool() {
        data.shrink_to_fit();
    }
    t.mix(n as u64 * 100 + dt.map_or(0, |d| d as u64 + 1));
    t.note(format!("{dt:?} {}", hex(&data)));
    let size = match dt {
        None => 1,
        Some(d) => match d {
            DataType::Bool | DataType::UInt8 | DataType::Int8 => 1,
            DataType::UInt16 | DataType::Int16 => 2,
            DataType::UInt32 | DataType::Int32 | DataType::Float32 => 4,
            _ => 8,
        },
    };
    if let Some(d) = dt {
        ensure!(d.size() == size, "size of {d:?} is {}", d.size());
    }
    let res = TypedArray::try_new(data.clone(), dt);
    if dt == Some(DataType::Bool) || n % size != 0 {
        ensure!(res.is_err(), "accepted");
        return Ok(());
    }
    let a = res.map_err(|e| format!("rejected: {e}"))?;
    ensure!(variant(&a) == dt.unwrap_or(DataType::UInt8), "variant {:?}", variant(&a));
    ensure!(a.len() == n / size && a.is_empty() == (n == 0), "len {} is_empty {}", a.len(), a.is_empty());
    let want: Vec<u64> = data.chunks(size).map(|c| E::L.get(c)).collect();
    ensure!(raw(&a) == want, "values {:?}", a);
    Ok(())
}
fn c05(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let (tw, th) = if i < 200 { ((i % 20 + 1) as u32, (i / 20 + 1) as u32) } else { (r.range(1, 40) as u32, r.range(1, 20) as u32) };
    let spp = r.range(1, 3) as u16;
    let planar = r.bool();
    let e = if r.bool() { E::L } else { E::B };
    let m = Img { big: r.bool(), e, w: tw, h: th, tw, th, spp, bits: 1, fmt: 1, planar, predictor: 1, compression: *r.pick(&[1u16, 5, 8]) };
    let n = (tw * th * spp as u32) as usize;
    let need = (n + 7) / 8;
    let delta = r.below(4);
    let have = match delta {
        0 if need > 0 => need - 1,
        1 => need + r.below(5) as usize,
        _ => need,
    };
    let buf = r.bytes(have);
    // planar: bands are decoded on their own and joined
    let nb = if planar { spp as usize } else { 1 };
    let mut parts: Vec<Vec<u8>> = vec![];
    let mut rest = &buf[..];
    for b in 0..nb {
        let k = if b + 1 == nb { rest.len() } else { rest.len() / (nb - b) };
        parts.push(compress(m.compression, &rest[..k]));
        rest = &rest[k..];
    }
    let order: Vec<usize> = (0..nb).collect();
    let (data, _) = m.write(&parts, &order, vec![]);
    t.mix(tw as u64 * 1000 + th as u64 * 10 + spp as u64 + have as u64 * 7);
    t.note(format!("{m:?} data={}", hex(&buf)));
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
    let tile = block(tiff.ifds()[0].fetch_tile(0, 0, &mem)).map_err(|e| format!("fetch: {e}"))?;
    let res = tile.decode(&DecoderRegistry::default());
    if have < need {
        ensure!(res.is_err(), "accepted {have} bytes for {n} bits");
        return Ok(());
    }
    let a = res.map_err(|e| format!("decode: {e}"))?;
    let TypedArray::Bool(v) = a.data() else { return Err(format!("variant {:?}", variant(a.data()))) };
    ensure!(v.len() == n, "{} elements, expected {n}", v.len());
    for k in 0..n {
        let want = buf[k / 8] >> (7 - k % 8) & 1 == 1;
        ensure!(v[k] == want, "element {k} is {}, expected {want}", v[k]);
    }
    let shape = if planar { [spp as usize, th as usize, tw as usize] } else { [th as usize, tw as usize, spp as usize] };
    ensure!(a.shape() == shape, "shape {:?}", a.shape());
    Ok(())
}
fn c06(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let spp = if i < 500 { 1 } else { r.range(1, 5) as usize };
    let bits: Vec<u64> = if i < 500 {
        vec![*[1u64, 2, 4, 8, 12, 16, 24, 32, 48, 64, 65, 128, 0, 7, 9][..].get((i % 15) as usize).unwrap()]
    } else {
        let b = *r.pick(&[1u64, 8, 16, 32, 64, 4]);
        (0..spp).map(|_| if r.below(8) == 0 { *r.pick(&[1u64, 8, 16, 32, 64]) } else { b }).collect()
    };
    let fmts: Option<Vec<u64>> = if i < 500 {
        let k = (i / 15) % 8;
        if k == 7 { None } else { Some(vec![k]) }
    } else if r.below(8) == 0 {
        None
    } else {
        let f = *r.pick(&[1u64, 2, 3, 3, 1]);
        // one format may stand for several bands
        let nf = if r.below(3) == 0 { 1 } else { spp };
        Some((0..nf).map(|_| if r.below(8) == 0 { r.below(7) } else { f }).collect())
    };
    let (tw, th) = (2u32, 2u32);
    let eb = (bits[0] as usize + 7) / 8;
    let n = (tw * th) as usize * spp * eb.max(1);
    let m = Img { big: false, e: E::L, w: tw, h: th, tw, th, spp: spp as u16, bits: bits[0] as u16, fmt: 1, planar: false, predictor: 1, compression: 1 };
    let mut extra = vec![Entry::new(258, 3, &bits)];
    match &fmts {
        Some(f) => extra.push(Entry::new(339, 3, f)),
        None => extra.push(Entry::new(65001, 3, &[1])),
    }
    let mut ents = m.entries(&[8], &[n as u64]);
    if fmts.is_none() {
        ents.retain(|e| e.tag != 339);
    }
    for x in extra {
        ents.retain(|e| e.tag != x.tag);
        ents.push(x);
    }
    ents.sort_by_key(|e| e.tag);
    let buf = vec![0u8; n];
    let data = Tiff::new(false, E::L, vec![ents]).write_with(&buf).data;
    t.note(format!("bits={bits:?} formats={fmts:?} spp={spp}"));
    t.mix(bits.iter().fold(0, |a, b| a * 67 + b) ^ fmts.iter().flatten().fold(1, |a, b| a * 11 + b));
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
    let tile = block(tiff.ifds()[0].fetch_tile(0, 0, &mem)).map_err(|e| format!("fetch: {e}"))?;
    let f = fmts.clone().unwrap_or(vec![1; spp]);
    let same = f.iter().all(|x| *x == f[0]) && bits.iter().all(|x| *x == bits[0]);
    let want = if same { dtype(f[0] as u16, bits[0] as u16) } else { None };
    match tile.decode(&DecoderRegistry::default()) {
        Ok(a) => ensure!(a.data_type() == want, "data type {:?}, expected {want:?}", a.data_type()),
        Err(e) => ensure!(want.is_none(), "decode: {e}, expected {want:?}"),
    }
    Ok(())
}
/// tile grid and byte ranges
fn tile_ifd(r: &mut Rng, t: &mut Trace) -> (Img, Vec<u64>, Vec<u64>, Mem, TIFF) {
    let big = r.bool();
    let m = Img { big, e: if r.bool() { E::L } else { E::B }, w: r.range(1, 60) as u32, h: r.range(1, 60) as u32, tw: r.range(1, 20) as u32, th: r.range(1, 20) as u32, spp: r.range(1, 4) as u16, bits: 8, fmt: 1, planar: r.bool(), predictor: 1, compression: 1 };
    let n = m.chunk_count();
    let n = match r.below(10) {
        0 => n.saturating_sub(1).max(1),
        1 => n + 3,
        _ => n,
    };
    let lim = if big { u64::MAX } else { u32::MAX as u64 };
    let offs: Vec<u64> = (0..n).map(|_| if big && r.below(6) == 0 { u64::MAX - r.below(3) } else { r.below(lim.min(1 << 40)) }).collect();
    let cnts: Vec<u64> = (0..n).map(|_| r.below(1000)).collect();
    let mut ents = m.entries(&offs, &cnts);
    if r.bool() && offs.iter().all(|o| *o < 65536) {
        ents.iter_mut().filter(|e| e.tag == 324).for_each(|e| e.typ = 3);
    }
    let data = Tiff::new(m.big, m.e, vec![ents]).write().data;
    t.note(format!("{m:?} offsets={offs:?} counts={cnts:?}"));
    t.mix(m.w as u64 | (m.h as u64) << 8 | (m.tw as u64) << 16 | (m.th as u64) << 24 | (m.spp as u64) << 32 | (m.planar as u64) << 40);
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).unwrap();
    (m, offs, cnts, mem, tiff)
}
fn ceil(a: u64, b: u64) -> u64 {
    a / b + (a % b != 0) as u64
}
fn c15(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    if i % 4 == 0 {
        // grids of any size
        let pick = |r: &mut Rng| match r.below(5) { 0 => u32::MAX as u64, 1 => (1u64 << r.below(32)).wrapping_add(r.below(3)).wrapping_sub(1) & 0xFFFF_FFFF, _ => r.below(5000) } as u32;
        let (w, h, tw, th) = (pick(r), pick(r), pick(r), pick(r));
        let m = Img { big: false, e: E::L, w, h, tw, th, spp: 1, bits: 8, fmt: 1, planar: false, predictor: 1, compression: 1 };
        let mut ents = m.entries(&[8], &[4]);
        let strip = r.below(6) == 0;
        if strip {
            ents.retain(|e| !(322..=323).contains(&e.tag) || (r.bool() && e.tag == 322));
        }
        let hastw = ents.iter().any(|e| e.tag == 322);
        let hasth = ents.iter().any(|e| e.tag == 323);
        let data = Tiff::new(false, E::L, vec![ents]).write().data;
        t.note(format!("{w}x{h} in {tw}x{th}, tags present {hastw} {hasth}"));
        t.mix(w as u64 ^ (h as u64) << 32 ^ (tw as u64) << 16 ^ (th as u64) << 5);
        let mem = Mem::new(data);
        let tiff = block(open(&mem)).map_err(|e| format!("{e}"))?;
        let want = if hastw && hasth && tw > 0 && th > 0 { Some((ceil(w as u64, tw as u64) as usize, ceil(h as u64, th as u64) as usize)) } else { None };
        ensure!(tiff.ifds()[0].tile_count() == want, "tile_count {:?}, expected {want:?}", tiff.ifds()[0].tile_count());
        return Ok(());
    }
    let (m, offs, cnts, _mem, tiff) = tile_ifd(r, t);
    let ifd = &tiff.ifds()[0];
    let (gx, gy) = m.grid();
    ensure!(ifd.tile_count() == Some((gx, gy)), "tile_count {:?}", ifd.tile_count());
    let mut pts: Vec<(usize, usize)> = (0..8).map(|_| (r.below(gx as u64 + 2) as usize, r.below(gy as u64 + 2) as usize)).collect();
    pts.push((gx, 0));
    pts.push((0, gy));
    pts.push((usize::MAX, 0));
    pts.push((0, usize::MAX));
    pts.push((gx - 1, gy - 1));
    let rng = |idx: usize| -> Option<std::ops::Range<u64>> { Some(*offs.get(idx)?..offs.get(idx)?.checked_add(*cnts.get(idx)?)?) };
    let want = |x: usize, y: usize| -> Option<Vec<std::ops::Range<u64>>> {
        if x >= gx || y >= gy {
            return None;
        }
        if m.planar { (0..m.spp as usize).map(|b| rng(b * gx * gy + y * gx + x)).collect() } else { Some(vec![rng(y * gx + x)?]) }
    };
    for (x, y) in &pts {
        let got = match ifd.tile_byte_range(*x, *y) {
            None => None,
            Some(TileByteRange::Chunky(c)) => {
                ensure!(!m.planar, "chunky range for a planar image");
                Some(vec![c])
            }
            Some(TileByteRange::Planar(v)) => {
                ensure!(m.planar, "planar ranges for a chunky image");
                Some(v)
            }
        };
        ensure!(got == want(*x, *y), "tile ({x},{y}): {got:?}, expected {:?}", want(*x, *y));
    }
    let sub: Vec<(usize, usize)> = (0..r.below(5)).map(|_| *r.pick(&pts)).collect();
    let got: Option<Vec<Vec<std::ops::Range<u64>>>> = ifd.tiles_byte_ranges(&sub).map(|v| match v {
        TilesByteRanges::Chunky(v) => v.into_iter().map(|r| vec![r]).collect(),
        TilesByteRanges::Planar(v) => v,
    });
    let w: Option<Vec<_>> = sub.iter().map(|(x, y)| want(*x, *y)).collect();
    ensure!(got == w, "tiles {sub:?}: {got:?}, expected {w:?}");
    Ok(())
}
/// a file whose byte at offset k is a hash of k, so any misplaced byte shows
#[derive(Debug, Clone)]
struct Pattern {
    calls: Arc<Mutex<Vec<Vec<std::ops::Range<u64>>>>>,
    batch: bool,
}
fn pat(k: u64) -> u8 {
    (k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8
}
#[async_trait::async_trait]
impl async_tiff::reader::AsyncFileReader for Pattern {
    async fn get_bytes(&self, r: std::ops::Range<u64>) -> async_tiff::error::AsyncTiffResult<Bytes> {
        self.calls.lock().unwrap().push(vec![r.clone()]);
        Ok((r.start..r.end).map(pat).collect::<Vec<u8>>().into())
    }
    async fn get_byte_ranges(&self, v: Vec<std::ops::Range<u64>>) -> async_tiff::error::AsyncTiffResult<Vec<Bytes>> {
        if self.batch {
            self.calls.lock().unwrap().push(v.clone());
            return Ok(v.into_iter().map(|r| (r.start..r.end).map(pat).collect::<Vec<u8>>().into()).collect());
        }
        let mut o = vec![];
        for r in v {
            o.push(self.get_bytes(r).await?);
        }
        Ok(o)
    }
}
fn flat(c: &CompressedBytes) -> (bool, Vec<Vec<u8>>) {
    match c {
        CompressedBytes::Chunky(b) => (false, vec![b.to_vec()]),
        CompressedBytes::Planar(v) => (true, v.iter().map(|b| b.to_vec()).collect()),
    }
}
fn c16(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let (m, offs, cnts, _mem, tiff) = tile_ifd(r, t);
    let ifd = &tiff.ifds()[0];
    let (gx, gy) = m.grid();
    let src = Pattern { calls: Default::default(), batch: r.bool() };
    let n = r.below(7) as usize;
    let xy: Vec<(usize, usize)> = (0..n).map(|_| { let ex = (r.below(20) == 0) as u64; (r.below(gx as u64 + ex) as usize, r.below(gy as u64) as usize) }).collect();
    t.note(format!("xy={xy:?}"));
    t.mix(n as u64);
    let rng = |idx: usize| -> Option<(u64, u64)> { Some((*offs.get(idx)?, offs.get(idx)?.checked_add(*cnts.get(idx)?)?)) };
    let want = |x: usize, y: usize| -> Option<Vec<Vec<u8>>> {
        if x >= gx || y >= gy {
            return None;
        }
        let v: Option<Vec<_>> = if m.planar { (0..m.spp as usize).map(|b| rng(b * gx * gy + y * gx + x)).collect() } else { Some(vec![rng(y * gx + x)?]) };
        Some(v?.into_iter().map(|(a, b)| (a..b).map(pat).collect()).collect())
    };
    let wants: Option<Vec<_>> = xy.iter().map(|(x, y)| want(*x, *y)).collect();
    let got = block(ifd.fetch_tiles(&xy, &src));
    match (&wants, got) {
        (None, Err(_)) => {}
        (None, Ok(_)) => return Err("fetch_tiles accepted a tile that is out of range".into()),
        (Some(_), Err(e)) => return Err(format!("fetch_tiles: {e}")),
        (Some(w), Ok(g)) => {
            ensure!(g.len() == w.len(), "{} tiles for {} positions", g.len(), w.len());
            for (k, tile) in g.iter().enumerate() {
                ensure!((tile.x(), tile.y()) == xy[k], "tile {k} reports position ({},{})", tile.x(), tile.y());
                let (p, b) = flat(tile.compressed_bytes());
                ensure!(p == m.planar, "planar {p}");
                ensure!(b == w[k], "tile {k} {:?}: bytes differ from the tile's byte ranges", xy[k]);
            }
        }
    }
    for (x, y) in xy.iter().take(3) {
        match (want(*x, *y), block(ifd.fetch_tile(*x, *y, &src))) {
            (None, Err(_)) => {}
            (None, Ok(_)) => return Err(format!("fetch_tile({x},{y}) accepted")),
            (Some(_), Err(e)) => return Err(format!("fetch_tile: {e}")),
            (Some(w), Ok(tile)) => {
                ensure!((tile.x(), tile.y()) == (*x, *y), "position");
                let (p, b) = flat(tile.compressed_bytes());
                ensure!(p == m.planar && b == w, "fetch_tile({x},{y}): bytes differ from the tile's byte ranges");
            }
        }
    }
    // decoding a tile from fetch_tiles and from fetch_tile is the same when the data decode at all: both carry the same settings
    Ok(())
}
#[derive(Debug, Clone)]
struct Rec {
    calls: Arc<Mutex<Vec<(Vec<u8>, PhotometricInterpretation, Option<Vec<u8>>, u16, u16, Option<Vec<u32>>)>>>,
    out: Arc<Mutex<Vec<Vec<u8>>>>,
}
impl Decoder for Rec {
    fn decode_tile(&self, b: Bytes, p: PhotometricInterpretation, j: Option<&[u8]>, s: u16, bits: u16, l: Option<&[u32]>) -> async_tiff::error::AsyncTiffResult<Vec<u8>> {
        let mut c = self.calls.lock().unwrap();
        c.push((b.to_vec(), p, j.map(|x| x.to_vec()), s, bits, l.map(|x| x.to_vec())));
        match self.out.lock().unwrap().get(c.len() - 1) {
            Some(v) => Ok(v.clone()),
            None => Err(async_tiff::error::AsyncTiffError::General("no more output".into())),
        }
    }
}
fn c17(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(0, r, t);
    let codes = [1u16, 5, 7, 8, 32946, 34887, 34925, 50000, 50001, 34712, 32773, 40000 + r.below(1000) as u16, 6, 2, 3, 4];
    m.compression = *r.pick(&codes);
    m.predictor = 1;
    m.e = E::L;
    let bps = m.bits as usize / 8;
    let nb = if m.planar { m.spp as usize } else { 1 };
    let (gx, gy) = m.grid();
    let chunks: Vec<Vec<u8>> = (0..m.chunk_count()).map(|_| { let n = r.below(20) as usize; r.bytes(n) }).collect();
    let order: Vec<usize> = (0..chunks.len()).collect();
    let tables = if r.bool() { let n = r.range(5, 30) as usize; Some(r.bytes(n)) } else { None };
    let lp: Option<Vec<u64>> = if r.bool() { Some(vec![r.below(9), r.below(3)]) } else { None };
    let pi = *r.pick(&[0u64, 1, 2, 3, 5, 6]);
    let mut extra = vec![Entry::new(262, 3, &[pi])];
    if let Some(x) = &tables {
        extra.push(Entry::new(347, 7, &x.iter().map(|b| *b as u64).collect::<Vec<_>>()));
    }
    if let Some(x) = &lp {
        extra.push(Entry::new(50674, 4, x));
    }
    let (data, _) = m.write(&chunks, &order, extra);
    let (x, y) = (r.below(gx as u64) as usize, r.below(gy as u64) as usize);
    t.note(format!("{m:?} tile=({x},{y}) tables={} lerc={lp:?} photometric={pi}", tables.is_some()));
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
    let fetch = || block(tiff.ifds()[0].fetch_tile(x, y, &mem));
    // a registry without the method
    let mut reg = DecoderRegistry::empty();
    let other = Compression::from_u16_exhaustive(m.compression ^ 0x4000);
    let rec2 = Rec { calls: Default::default(), out: Default::default() };
    reg.as_mut().insert(other, Box::new(rec2.clone()));
    let tile = fetch().map_err(|e| format!("fetch: {e}"))?;
    ensure!(tile.compression_method() == Compression::from_u16_exhaustive(m.compression), "compression {:?}", tile.compression_method());
    ensure!(tile.photometric_interpretation().to_u16() as u64 == pi, "photometric {:?}", tile.photometric_interpretation());
    ensure!(tile.jpeg_tables().map(|b| b.to_vec()) == tables, "jpeg tables {:?}", tile.jpeg_tables());
    ensure!(tile.decode(&reg).is_err(), "decoded without a decoder for compression {}", m.compression);
    ensure!(rec2.calls.lock().unwrap().is_empty(), "a decoder for another compression was used");
    // with the method registered
    let per = m.tw as usize * m.th as usize * m.spp as usize / nb * bps;
    let fail_at = if r.below(5) == 0 { Some(r.below(nb as u64) as usize) } else { None };
    let outs: Vec<Vec<u8>> = (0..fail_at.unwrap_or(nb)).map(|_| r.bytes(per)).collect();
    let rec = Rec { calls: Default::default(), out: Arc::new(Mutex::new(outs.clone())) };
    let mut reg = DecoderRegistry::default();
    reg.as_mut().insert(Compression::from_u16_exhaustive(m.compression), Box::new(rec.clone()));
    let res = fetch().map_err(|e| format!("fetch: {e}"))?.decode(&reg);
    let calls = rec.calls.lock().unwrap().clone();
    if fail_at.is_some() {
        ensure!(res.is_err(), "the decoder's error was swallowed");
        return Ok(());
    }
    let a = res.map_err(|e| format!("decode: {e}"))?;
    ensure!(calls.len() == nb, "{} decoder calls for {nb} chunks", calls.len());
    for (b, c) in calls.iter().enumerate() {
        let idx = b * gx * gy + y * gx + x;
        ensure!(c.0 == chunks[if m.planar { idx } else { y * gx + x }], "call {b} got the wrong bytes");
        ensure!(c.1.to_u16() as u64 == pi, "call {b}: photometric {:?}", c.1);
        ensure!(c.2 == tables, "call {b}: tables");
        ensure!(c.3 == if m.planar { 1 } else { m.spp }, "call {b}: samples per pixel {}", c.3);
        ensure!(c.4 == m.bits, "call {b}: bits {}", c.4);
        ensure!(c.5 == lp.as_ref().map(|v| v.iter().map(|x| *x as u32).collect::<Vec<_>>()), "call {b}: LERC parameters {:?}", c.5);
    }
    let want: Vec<u64> = outs.concat().chunks(bps).map(|c| E::L.get(c)).collect();
    ensure!(raw(a.data()) == want, "samples are not the decoded chunks in band order");
    Ok(())
}
#[cfg(feature = "nd")]
fn c21(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    use async_tiff::ndarray::NdArray;
    let mut m = img(i.min(599), r, t);
    m.compression = 1;
    m.e = E::L;
    if r.below(8) == 0 {
        m.bits = 1;
        m.fmt = 1;
    }
    if r.below(8) == 0 {
        m.bits = 8;
        m.fmt = 4;
    }
    m.w = m.tw;
    m.h = m.th;
    let nb = if m.planar { m.spp as usize } else { 1 };
    let n = m.tw as usize * m.th as usize * m.spp as usize;
    let chunks: Vec<Vec<u8>> = if m.bits == 1 {
        let need = (n + 7) / 8;
        (0..nb).map(|b| r.bytes(if b == 0 { need } else { 0 })).collect()
    } else {
        (0..nb).map(|_| r.bytes(n / nb * m.bits as usize / 8)).collect()
    };
    let order: Vec<usize> = (0..nb).collect();
    let (data, _) = m.write(&chunks, &order, vec![]);
    t.note(format!("{m:?}"));
    let mem = Mem::new(data);
    let tiff = block(open(&mem)).map_err(|e| format!("open: {e}"))?;
    let a = block(tiff.ifds()[0].fetch_tile(0, 0, &mem)).and_then(|t| t.decode(&DecoderRegistry::default())).map_err(|e| format!("decode: {e}"))?;
    let want = raw(a.data());
    let shape = a.shape();
    let dt = a.data_type();
    {
        let (d, s, ty) = a.clone().into_inner();
        ensure!(raw(&d) == want && s == shape && ty == dt, "into_inner differs");
    }
    let nd = NdArray::try_from(a);
    if dt.is_none() {
        ensure!(nd.is_err(), "an array of unknown type was converted");
        return Ok(());
    }
    let nd = nd.map_err(|e| format!("{e}"))?;
    macro_rules! go {
        ($a:expr, $f:expr, $d:expr) => {{
            ensure!(dt == Some($d), "variant for {dt:?}");
            ensure!($a.shape() == &shape[..], "shape {:?}, expected {shape:?}", $a.shape());
            for i in 0..shape[0] {
                for j in 0..shape[1] {
                    for k in 0..shape[2] {
                        let v = $f($a[[i, j, k]]);
                        let w = want[(i * shape[1] + j) * shape[2] + k];
                        ensure!(v == w, "[{i},{j},{k}] is {v:#x}, expected {w:#x}");
                    }
                }
            }
        }};
    }
    match nd {
        NdArray::Bool(a) => go!(a, |x: bool| x as u64, DataType::Bool),
        NdArray::Uint8(a) => go!(a, |x: u8| x as u64, DataType::UInt8),
        NdArray::Uint16(a) => go!(a, |x: u16| x as u64, DataType::UInt16),
        NdArray::Uint32(a) => go!(a, |x: u32| x as u64, DataType::UInt32),
        NdArray::Uint64(a) => go!(a, |x: u64| x, DataType::UInt64),
        NdArray::Int8(a) => go!(a, |x: i8| x as u8 as u64, DataType::Int8),
        NdArray::Int16(a) => go!(a, |x: i16| x as u16 as u64, DataType::Int16),
        NdArray::Int32(a) => go!(a, |x: i32| x as u32 as u64, DataType::Int32),
        NdArray::Int64(a) => go!(a, |x: i64| x as u64, DataType::Int64),
        NdArray::Float32(a) => go!(a, |x: f32| x.to_bits() as u64, DataType::Float32),
        NdArray::Float64(a) => go!(a, |x: f64| x.to_bits(), DataType::Float64),
    }
    Ok(())
}
#[cfg(feature = "codecs")]
fn c22(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let reg = DecoderRegistry::default();
    let get = |c: u16| reg.as_ref().get(&Compression::from_u16_exhaustive(c));
    let codes = [1u16, 5, 8, 32946, 50000, 34925, 50001, 34887];
    let c = codes[(i % 8) as usize];
    let d = get(c).ok_or(format!("no decoder registered for compression {c}"))?;
    let ph = PhotometricInterpretation::RGB;
    if c == 50001 {
        let (w, h) = (r.range(1, 30) as u32, r.range(1, 30) as u32);
        let alpha = r.bool();
        let n = (w * h) as usize * if alpha { 4 } else { 3 };
        let mut px = r.bytes(n);
        if alpha {
            // fully transparent pixels may lose their colour
            px.chunks_mut(4).for_each(|p| p[3] |= 1);
            px[3] = 100;
        }
        let enc = if alpha { webp::Encoder::from_rgba(&px, w, h) } else { webp::Encoder::from_rgb(&px, w, h) };
        let blob = enc.encode_lossless().to_vec();
        let spp = if alpha { 4 } else { *r.pick(&[3u16, 4]) };
        t.note(format!("webp {w}x{h} alpha={alpha} spp={spp}"));
        t.mix((w * 100 + h) as u64 * 10 + spp as u64);
        let got = d.decode_tile(blob.into(), ph, None, spp, 8, None).map_err(|e| format!("{e}"))?;
        let want: Vec<u8> = if spp == 4 && !alpha { px.chunks(3).flat_map(|p| [p[0], p[1], p[2], 255]).collect() } else { px };
        ensure!(got == want, "WebP pixels differ: {} bytes, expected {}", got.len(), want.len());
        return Ok(());
    }
    if c == 34887 {
        return c03_codec(i, r, t);
    }
    let n = match r.below(4) { 0 => r.below(4), 1 => r.below(300), 2 => r.below(20_000), _ => r.below(200_000) } as usize;
    let b = if r.bool() { r.bytes(n) } else { (0..n).map(|k| (k / 7) as u8 & 0x3F).collect() };
    t.note(format!("compression {c}, {n} bytes {}", hex(&b[..n.min(40)])));
    t.mix(c as u64 * 1_000_000 + n as u64);
    let enc = compress(c, &b);
    let got = d.decode_tile(enc.clone().into(), ph, None, r.below(5) as u16, 8, None).map_err(|e| format!("{e}"))?;
    ensure!(got == b, "decoded {} bytes, expected {}", got.len(), b.len());
    if c != 1 && n > 64 && r.bool() && c != 5 {
        // a truncated stream is an error
        let cut = r.range(1, enc.len() as u64 - 1) as usize;
        let res = d.decode_tile(enc[..cut].to_vec().into(), ph, None, 1, 8, None);
        if let Ok(v) = res {
            ensure!(v == b, "a stream cut to {cut} of {} bytes was decoded to {} bytes", enc.len(), v.len());
        }
    }
    Ok(())
}
/// corrupted tiles: an error or an array, never a panic
#[cfg(feature = "codecs")]
fn c24(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let mut m = img(0, r, t);
    m.compression = *r.pick(&[1u16, 5, 8, 32946, 50000, 34925, 7, 34712, 50001, 34887]);
    m.predictor = *r.pick(&[1u16, 2, 3]);
    if r.below(3) == 0 {
        m.bits = *r.pick(&[1u16, 2, 4, 7, 12, 15, 24, 31, 48, 63, 65, 128, 0, 255, 65535]);
    }
    if r.below(6) == 0 {
        m.spp = *r.pick(&[0u16, 1, 2, 300]);
    }
    m.w = m.tw;
    m.h = m.th;
    let nb = if m.planar { m.spp as usize } else { 1 };
    let chunks: Vec<Vec<u8>> = (0..nb)
        .map(|_| {
            let n = if r.bool() {
                r.below(80) as usize
            } else {
                // about as much as the tile takes
                let all = (m.tw as usize * m.th as usize * if m.planar { 1 } else { m.spp as usize } * m.bits as usize).div_ceil(8).min(100_000);
                (all + r.below(3) as usize).saturating_sub(1)
            };
            let raw = r.bytes(n);
            match m.compression {
                1 | 5 | 8 | 32946 | 50000 | 34925 => {
                    let mut c = compress(m.compression, &raw);
                    for _ in 0..r.below(4) {
                        if !c.is_empty() {
                            let k = r.below(c.len() as u64) as usize;
                            c[k] = r.next() as u8;
                        }
                    }
                    if r.below(4) == 0 {
                        let k = r.below(c.len() as u64 + 1) as usize;
                        c.truncate(k);
                    }
                    c
                }
                // these decoders live in other projects: only data they reject at once
                _ => r.bytes(r.clone().below(3) as usize),
            }
        })
        .collect();
    let order: Vec<usize> = (0..nb).collect();
    let bits_n = if r.below(6) == 0 { r.range(1, 6) as usize } else { m.spp.max(1) as usize };
    let mut extra = vec![Entry::new(258, 3, &vec![m.bits as u64; bits_n])];
    if m.compression == 7 {
        let n = r.below(5) as usize;
        extra.push(Entry::new(347, 7, &r.bytes(n).iter().map(|b| *b as u64).collect::<Vec<_>>()));
    }
    let (data, _) = m.write(&chunks, &order, extra);
    t.note(format!("{m:?} file={}", hex(&data)));
    let mem = Mem::new(data);
    let Ok(tiff) = block(open(&mem)) else { return Ok(()) };
    for (x, y) in [(0, 0), (1, 0), (0, 1)] {
        if let Ok(tile) = block(tiff.ifds()[0].fetch_tile(x, y, &mem)) {
            if let Ok(a) = tile.decode(&DecoderRegistry::default()) {
                let s = a.shape();
                ensure!(a.data().len() == s[0] * s[1] * s[2], "array of {} elements with shape {s:?}", a.data().len());
            }
        }
    }
    Ok(())
}
#[cfg(feature = "codecs")]
fn c24_index(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let (m, _o, _c, mem, tiff) = tile_ifd(r, t);
    let ifd = &tiff.ifds()[0];
    let (gx, gy) = m.grid();
    for _ in 0..6 {
        let mut p = |g: usize, r: &mut Rng| match r.below(4) { 0 => usize::MAX, 1 => 1usize << r.below(64), 2 => g, _ => r.below(g as u64 + 1) as usize };
        let (x, y) = (p(gx, r), p(gy, r));
        let _ = block(ifd.fetch_tile(x, y, &mem)).map(|t| t.decode(&DecoderRegistry::default()).is_ok());
        let _ = block(ifd.fetch_tiles(&[(0, 0), (x, y)], &mem)).map(|v| v.len());
        ensure!(x < gx && y < gy || ifd.tile_byte_range(x, y).is_none(), "tile ({x},{y}) of a {gx}x{gy} grid has a byte range");
    }
    Ok(())
}
