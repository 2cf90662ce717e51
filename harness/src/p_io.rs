use crate::ensure;
use crate::util::*;
use async_tiff::error::AsyncTiffResult;
use async_tiff::metadata::cache::ReadaheadMetadataCache;
use async_tiff::metadata::{MetadataFetch, TiffMetadataReader};
use async_tiff::reader::*;
use async_trait::async_trait;
use bytes::Bytes;
use std::io::{Read, Write};
use std::ops::Range;
use std::sync::{Arc, Mutex, OnceLock};

pub const TABLE: &[(&str, &[(&str, fn(u64, &mut Rng, &mut Trace) -> Res)])] = &[
    ("C07", &[("transparent", c07), ("concurrent", c07_conc), ("tiff", c07_tiff)]),
    ("C08", &[("requests", c08)]),
    #[cfg(feature = "net")]
    ("C18", &[("default", c18_default), ("forward", c18_forward), ("tokio", c18_tokio), ("object", c18_object), ("http", c18_http)]),
];

/// the source of a cache: records requests, fails on demand, returns fewer bytes at the end of the file
#[derive(Debug, Clone)]
struct Src {
    data: Arc<Vec<u8>>,
    log: Arc<Mutex<Vec<(Range<u64>, bool)>>>,
    fail: Arc<Mutex<u64>>,
    yields: bool,
}
#[async_trait]
impl MetadataFetch for Src {
    async fn fetch(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        if self.yields {
            tokio::task::yield_now().await;
        }
        let failing = {
            let mut f = self.fail.lock().unwrap();
            let b = *f & 1 == 1;
            *f >>= 1;
            b
        };
        self.log.lock().unwrap().push((range.clone(), !failing));
        if failing {
            return Err(async_tiff::error::AsyncTiffError::General("injected".into()));
        }
        if self.yields {
            tokio::task::yield_now().await;
        }
        let n = self.data.len() as u64;
        let (s, e) = (range.start.min(n), range.end.min(n));
        Ok(Bytes::copy_from_slice(&self.data[s as usize..e.max(s) as usize]))
    }
}
fn source(r: &mut Rng, n: usize) -> Src {
    Src { data: Arc::new(r.bytes(n)), log: Default::default(), fail: Default::default(), yields: false }
}
fn cache(r: &mut Rng, s: &Src, t: &mut Trace) -> (ReadaheadMetadataCache<Src>, u64, f64) {
    let mut c = ReadaheadMetadataCache::new(s.clone());
    let (mut i, mut m) = (32 * 1024, 2.0);
    if r.below(5) != 0 {
        i = *r.pick(&[0u64, 1, 2, 3, 5, 8, 16, 100, 4096]);
        c = c.with_initial_size(i);
    }
    if r.below(4) != 0 {
        m = *r.pick(&[0.0, 0.5, 1.0, 1.1, 1.5, 2.0, 3.0, 2.4999]);
        c = c.with_multiplier(m);
    }
    t.note(format!("file of {} bytes, initial {i}, multiplier {m}", s.data.len()));
    t.mix(i);
    t.mix(m.to_bits());
    (c, i, m)
}
fn request(r: &mut Rng, n: u64, hint: u64) -> Range<u64> {
    let s = match r.below(4) {
        0 => r.below(n + 1),
        1 => hint.saturating_sub(r.below(4)).min(n),
        2 => hint.min(n),
        _ => r.below(n + 1).min(hint),
    };
    let len = match r.below(4) {
        0 => 0,
        1 => 1 + r.below(8),
        2 => n - s,
        _ => r.below(n - s + 1),
    };
    s..(s + len).min(n)
}
fn c07(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = if i % 17 == 0 { 70_000 } else { 1 + r.below(200) };
    let s = source(r, n as usize);
    let (c, _, _) = cache(r, &s, t);
    let mut hint = 0;
    for _ in 0..1 + r.below(10) {
        let q = request(r, n, hint);
        if r.below(6) == 0 {
            *s.fail.lock().unwrap() = 1;
        }
        t.note(format!("{q:?}"));
        t.mix(q.start << 20 | q.end);
        let before = s.log.lock().unwrap().len();
        let got = block(c.fetch(q.clone()));
        let failed = s.log.lock().unwrap()[before..].iter().any(|x| !x.1);
        *s.fail.lock().unwrap() = 0;
        match got {
            Ok(b) => {
                ensure!(b[..] == s.data[q.start as usize..q.end as usize], "{q:?}: got {} bytes {}, file has {}", b.len(), hex(&b[..b.len().min(40)]), hex(&s.data[q.start as usize..(q.end as usize).min(q.start as usize + 40)]));
            }
            Err(x) => ensure!(failed, "{q:?}: error although the source answered: {x}"),
        }
        hint = s.log.lock().unwrap().iter().filter(|x| x.1).map(|x| x.0.end.min(n)).max().unwrap_or(0);
    }
    Ok(())
}
fn c07_conc(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = 1 + r.below(300);
    let mut s = source(r, n as usize);
    s.yields = true;
    let (c, _, _) = cache(r, &s, t);
    let c = Arc::new(c);
    let mut reqs = vec![];
    for _ in 0..2 + r.below(6) {
        reqs.push(request(r, n, n / 2));
    }
    t.note(format!("concurrent {reqs:?}"));
    reqs.iter().for_each(|q| t.mix(q.start << 20 | q.end));
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let out = rt.block_on(async {
        let mut hs = vec![];
        for q in reqs.clone() {
            let c = c.clone();
            hs.push(tokio::spawn(async move { c.fetch(q).await }));
        }
        let mut o = vec![];
        for h in hs {
            o.push(h.await);
        }
        o
    });
    for (q, b) in reqs.iter().zip(out) {
        let b = b.map_err(|x| format!("{q:?}: {x}"))?.map_err(|x| format!("{q:?}: {x}"))?;
        ensure!(b[..] == s.data[q.start as usize..q.end as usize], "{q:?}: wrong bytes under concurrent use");
    }
    contiguous(&s)
}
fn contiguous(s: &Src) -> Res {
    let n = s.data.len() as u64;
    let mut have = 0;
    for (q, ok) in s.log.lock().unwrap().iter() {
        ensure!(q.start == have, "request {q:?} although the cache holds {have} bytes from the start");
        if *ok {
            have = q.end.min(n).max(have);
        }
    }
    Ok(())
}
fn c07_tiff(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    // reading a TIFF through the cache gives what reading it directly gives
    let e = if r.bool() { E::L } else { E::B };
    let mut ents = minimal(r.below(1000) as u32 + 1, 3);
    for k in 0..r.below(8) {
        ents.push(Entry::new(60000 + k as u16, *r.pick(&[1u16, 3, 4, 16, 12]), &(0..r.below(40)).map(|x| x * 7 + k).collect::<Vec<_>>()));
    }
    let mut tf = Tiff::new(r.bool(), e, vec![ents, minimal(7, 8)]);
    tf.values_first = r.bool();
    let w = tf.write();
    let s = Src { data: Arc::new(w.data.clone()), log: Default::default(), fail: Default::default(), yields: false };
    let (c, _, _) = cache(r, &s, t);
    let direct = block(open(&Mem::new(w.data))).map_err(|x| x.to_string())?;
    let cached = block(async {
        let mut rd = TiffMetadataReader::try_open(&c).await?;
        rd.read(&c).await
    })
    .map_err(|x| format!("through the cache: {x}"))?;
    // compare the parts that have no random iteration order
    for (a, b) in direct.ifds().iter().zip(cached.ifds()) {
        ensure!(a.image_width() == b.image_width() && a.other_tags().len() == b.other_tags().len(), "IFDs differ");
        for (k, v) in a.other_tags() {
            ensure!(b.other_tags().get(k).map_or(false, |w| tv_eq(v, w)), "tag {k:?} differs through the cache");
        }
    }
    ensure!(direct.ifds().len() == cached.ifds().len(), "number of IFDs differs");
    contiguous(&s)
}
fn c08(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = if i % 9 == 0 { 200_000 } else { 1 + r.below(400) };
    let s = source(r, n as usize);
    let (c, initial, mult) = cache(r, &s, t);
    let mut have = 0u64;
    let mut hint = 0;
    for _ in 0..1 + r.below(12) {
        let q = request(r, n, hint);
        if r.below(8) == 0 {
            *s.fail.lock().unwrap() = 1;
        }
        t.note(format!("{q:?}"));
        t.mix(q.start << 20 | q.end);
        let before = s.log.lock().unwrap().len();
        let _ = block(c.fetch(q.clone()));
        *s.fail.lock().unwrap() = 0;
        let new = s.log.lock().unwrap()[before..].to_vec();
        if q.end <= have {
            ensure!(new.is_empty(), "{q:?}: a request {:?} was made although {have} bytes are held", new);
        } else {
            ensure!(new.len() == 1, "{q:?}: {} requests instead of one", new.len());
            let (f, ok) = &new[0];
            ensure!(f.start == have, "{q:?}: requested {f:?} while holding {have} bytes");
            let grow = if have == 0 { initial } else { (have as f64 * mult).round() as u64 };
            let want = grow.max(q.end - have);
            ensure!(f.end - f.start == want, "{q:?}: requested {} bytes while holding {have}; initial size / growth rule says {want}", f.end - f.start);
            if *ok {
                have = f.end.min(n).max(have);
            }
        }
        hint = have;
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
/// records which method was called with which ranges
#[derive(Debug)]
struct Probe {
    data: Vec<u8>,
    log: Arc<Mutex<Vec<(bool, Vec<Range<u64>>)>>>,
    mark: u8,
}
#[async_trait]
impl AsyncFileReader for Probe {
    async fn get_bytes(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
        self.log.lock().unwrap().push((false, vec![range.clone()]));
        read_range(&self.data, &range)
    }
    async fn get_byte_ranges(&self, ranges: Vec<Range<u64>>) -> AsyncTiffResult<Vec<Bytes>> {
        self.log.lock().unwrap().push((true, ranges.clone()));
        let mut o = vec![];
        for q in &ranges {
            // distinguishable from the default method
            o.push(Bytes::from(read_range(&self.data, q)?.iter().map(|b| b ^ self.mark).collect::<Vec<u8>>()));
        }
        Ok(o)
    }
}
fn ranges(r: &mut Rng, n: u64, past: bool) -> Vec<Range<u64>> {
    (0..r.below(7))
        .map(|_| {
            let s = r.below(n + 1);
            let e = s + r.below(n - s + 1);
            if past && r.below(10) == 0 {
                s..n + 1 + r.below(9)
            } else {
                s..e
            }
        })
        .collect()
}
fn check_many(data: &[u8], qs: &[Range<u64>], got: AsyncTiffResult<Vec<Bytes>>, mark: u8) -> Res {
    let ok = qs.iter().all(|q| q.end <= data.len() as u64);
    match got {
        Err(x) => ensure!(!ok, "ranges {qs:?} within the file: {x}"),
        Ok(v) => {
            ensure!(ok, "ranges {qs:?} reach past the end ({} bytes) and were answered", data.len());
            ensure!(v.len() == qs.len(), "{} buffers for {} ranges", v.len(), qs.len());
            for (k, q) in qs.iter().enumerate() {
                let want: Vec<u8> = data[q.start as usize..q.end as usize].iter().map(|b| b ^ mark).collect();
                ensure!(v[k][..] == want[..], "buffer {k} is not the content of {q:?}");
            }
        }
    }
    Ok(())
}
fn c18_default(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = 1 + r.below(100);
    let m = Mem::new(r.bytes(n as usize));
    let qs = ranges(r, n, true);
    t.note(format!("{n} bytes, ranges {qs:?}"));
    qs.iter().for_each(|q| t.mix(q.start << 20 | q.end));
    check_many(&m.data, &qs, block(m.get_byte_ranges(qs.clone())), 0)?;
    // the metadata view of a reader is its get_bytes
    for q in &qs {
        let a = block(m.fetch(q.clone())).ok();
        let b = read_range(&m.data, q).ok();
        ensure!(a == b, "metadata fetch of {q:?} differs from the range's content");
    }
    Ok(())
}
fn c18_forward(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = 1 + r.below(60);
    let log = Arc::new(Mutex::new(vec![]));
    let data = r.bytes(n as usize);
    let mk = || Probe { data: data.clone(), log: log.clone(), mark: 0x55 };
    let b: Box<dyn AsyncFileReader> = Box::new(mk());
    let a: Arc<dyn AsyncFileReader> = Arc::new(mk());
    let qs = ranges(r, n, true);
    t.note(format!("{n} bytes, ranges {qs:?}"));
    qs.iter().for_each(|q| t.mix(q.start << 20 | q.end));
    let want_log = vec![(true, qs.clone())];
    check_many(&data, &qs, block(AsyncFileReader::get_byte_ranges(&b, qs.clone())), 0x55)?;
    ensure!(*log.lock().unwrap() == want_log, "Box: inner reader saw {:?}", log.lock().unwrap());
    log.lock().unwrap().clear();
    check_many(&data, &qs, block(AsyncFileReader::get_byte_ranges(&a, qs.clone())), 0x55)?;
    ensure!(*log.lock().unwrap() == want_log, "Arc: inner reader saw {:?}", log.lock().unwrap());
    for q in &qs {
        for k in 0..2 {
            log.lock().unwrap().clear();
            let got = if k == 0 { block(AsyncFileReader::get_bytes(&b, q.clone())) } else { block(AsyncFileReader::get_bytes(&a, q.clone())) };
            ensure!(got.ok() == read_range(&data, q).ok(), "forwarded get_bytes({q:?}) differs");
            ensure!(*log.lock().unwrap() == vec![(false, vec![q.clone()])], "inner reader saw {:?}", log.lock().unwrap());
        }
    }
    Ok(())
}
fn rt() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap())
}
/// a file that hands out a few bytes at a time
#[derive(Debug)]
struct Trickle(std::io::Cursor<Vec<u8>>, usize);
impl tokio::io::AsyncRead for Trickle {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<std::io::Result<()>> {
        let n = self.1.min(buf.remaining());
        let mut tmp = vec![0; n];
        let got = self.0.read(&mut tmp)?;
        buf.put_slice(&tmp[..got]);
        let _ = cx;
        std::task::Poll::Ready(Ok(()))
    }
}
impl tokio::io::AsyncSeek for Trickle {
    fn start_seek(mut self: std::pin::Pin<&mut Self>, p: std::io::SeekFrom) -> std::io::Result<()> {
        use std::io::Seek;
        self.0.seek(p)?;
        Ok(())
    }
    fn poll_complete(self: std::pin::Pin<&mut Self>, _cx: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<u64>> {
        std::task::Poll::Ready(Ok(self.0.position()))
    }
}
fn c18_tokio(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    let n = if i % 7 == 0 { 20_000 } else { 1 + r.below(100) };
    let data = r.bytes(n as usize);
    let step = 1 + r.below(300) as usize;
    let rd = TokioReader::new(Trickle(std::io::Cursor::new(data.clone()), step));
    let qs = ranges(r, n, true);
    t.note(format!("{n} bytes, {step} at a time, ranges {qs:?}"));
    qs.iter().for_each(|q| t.mix(q.start << 20 | q.end));
    check_many(&data, &qs, rt().block_on(rd.get_byte_ranges(qs.clone())), 0)?;
    for q in &qs {
        let got = rt().block_on(rd.get_bytes(q.clone())).ok();
        ensure!(got == read_range(&data, q).ok(), "get_bytes({q:?}) gave {:?}", got.map(|b| b.len()));
    }
    // concurrent use of one reader
    let rd = Arc::new(rd);
    let outs = rt().block_on(async {
        let mut hs = vec![];
        for q in qs.clone() {
            let rd = rd.clone();
            hs.push(tokio::spawn(async move { rd.get_bytes(q).await.ok() }));
        }
        let mut o = vec![];
        for h in hs {
            o.push(h.await.unwrap());
        }
        o
    });
    for (q, b) in qs.iter().zip(outs) {
        ensure!(b == read_range(&data, q).ok(), "concurrent get_bytes({q:?}) differs");
    }
    Ok(())
}
#[cfg(feature = "net")]
fn c18_object(_i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    use object_store::{memory::InMemory, path::Path, ObjectStoreExt};
    let n = 1 + r.below(300);
    let data = r.bytes(n as usize);
    let store = Arc::new(InMemory::new());
    let p = Path::from("a/b.tif");
    rt().block_on(store.put(&p, data.clone().into())).map_err(|e| e.to_string())?;
    rt().block_on(store.put(&Path::from("a/c.tif"), vec![7u8; 400].into())).map_err(|e| e.to_string())?;
    let rd = ObjectReader::new(store, p);
    // the store itself rejects empty ranges and clamps ranges past the end; ask for non-empty ranges inside the file
    let qs: Vec<Range<u64>> = ranges(r, n, false).into_iter().filter(|q| q.start < q.end).collect();
    t.note(format!("{n} bytes, ranges {qs:?}"));
    qs.iter().for_each(|q| t.mix(q.start << 20 | q.end));
    check_many(&data, &qs, rt().block_on(rd.get_byte_ranges(qs.clone())), 0)?;
    for q in &qs {
        let got = rt().block_on(rd.get_bytes(q.clone())).map_err(|e| e.to_string())?;
        ensure!(got[..] == data[q.start as usize..q.end as usize], "get_bytes({q:?}) differs");
    }
    Ok(())
}
#[cfg(feature = "net")]
struct Server {
    port: u16,
    data: Arc<Mutex<Vec<u8>>>,
    log: Arc<Mutex<Vec<(String, Option<String>)>>>,
}
#[cfg(feature = "net")]
fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let data: Arc<Mutex<Vec<u8>>> = Default::default();
        let log: Arc<Mutex<Vec<(String, Option<String>)>>> = Default::default();
        let (d2, l2) = (data.clone(), log.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                let Ok(mut c) = c else { continue };
                let (d2, l2) = (d2.clone(), l2.clone());
                std::thread::spawn(move || {
                    let mut buf: Vec<u8> = vec![];
                    loop {
                        let mut tmp = [0u8; 4096];
                        let end = loop {
                            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                                break p + 4;
                            }
                            match c.read(&mut tmp) {
                                Ok(0) | Err(_) => return,
                                Ok(n) => buf.extend_from_slice(&tmp[..n]),
                            }
                        };
                        let head = String::from_utf8_lossy(&buf[..end]).into_owned();
                        buf.drain(..end);
                        let line = head.lines().next().unwrap_or("").to_string();
                        let range = head.lines().find_map(|l| {
                            let (k, v) = l.split_once(':')?;
                            k.eq_ignore_ascii_case("range").then(|| v.trim().to_string())
                        });
                        l2.lock().unwrap().push((line.clone(), range.clone()));
                        let data = d2.lock().unwrap().clone();
                        let resp = if !line.contains("/file.tif") {
                            b"HTTP/1.1 404 Not Found\r\nContent-Length: 3\r\n\r\nno!".to_vec()
                        } else {
                            let parsed = range.as_deref().and_then(|r| r.strip_prefix("bytes=")).and_then(|r| r.split_once('-')).and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?)));
                            match parsed {
                                None => {
                                    let mut h = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", data.len()).into_bytes();
                                    h.extend_from_slice(&data);
                                    h
                                }
                                Some((a, b)) if a <= b && a < data.len() => {
                                    let b = b.min(data.len() - 1);
                                    let mut h = format!("HTTP/1.1 206 Partial Content\r\nContent-Length: {}\r\nContent-Range: bytes {}-{}/{}\r\n\r\n", b - a + 1, a, b, data.len()).into_bytes();
                                    h.extend_from_slice(&data[a..=b]);
                                    h
                                }
                                _ => b"HTTP/1.1 416 Range Not Satisfiable\r\nContent-Length: 0\r\n\r\n".to_vec(),
                            }
                        };
                        if c.write_all(&resp).is_err() {
                            return;
                        }
                    }
                });
            }
        });
        Server { port, data, log }
    })
}
#[cfg(feature = "net")]
fn c18_http(i: u64, r: &mut Rng, t: &mut Trace) -> Res {
    static CL: OnceLock<reqwest::Client> = OnceLock::new();
    let client = CL.get_or_init(|| reqwest::Client::builder().no_proxy().build().unwrap());
    let s = server();
    let n = 1 + r.below(300);
    let data = r.bytes(n as usize);
    *s.data.lock().unwrap() = data.clone();
    s.log.lock().unwrap().clear();
    let rd = ReqwestReader::new(client.clone(), format!("http://127.0.0.1:{}/file.tif", s.port).parse().unwrap());
    let mut qs = ranges(r, n, false);
    if i % 3 == 0 {
        qs.push(0..1);
        qs.push(n - 1..n);
    }
    t.note(format!("{n} bytes, ranges {qs:?}"));
    qs.iter().for_each(|q| t.mix(q.start << 20 | q.end));
    let got = rt().block_on(rd.get_byte_ranges(qs.clone()));
    check_many(&data, &qs, got, 0)?;
    for q in &qs {
        s.log.lock().unwrap().clear();
        let got = rt().block_on(rd.get_bytes(q.clone())).map_err(|e| format!("{q:?}: {e}"))?;
        ensure!(got[..] == data[q.start as usize..q.end as usize], "get_bytes({q:?}) returned {} bytes", got.len());
        let log = s.log.lock().unwrap().clone();
        if q.start < q.end {
            let want = format!("bytes={}-{}", q.start, q.end - 1);
            ensure!(log.len() == 1 && log[0].1.as_deref() == Some(&want), "{q:?}: requests {log:?}, want one with Range: {want}");
        }
    }
    // errors of the server are errors of the reader
    if i % 5 == 0 {
        let bad = ReqwestReader::new(client.clone(), format!("http://127.0.0.1:{}/missing", s.port).parse().unwrap());
        ensure!(rt().block_on(bad.get_bytes(0..3)).is_err(), "a 404 answer was returned as data");
        ensure!(rt().block_on(rd.get_bytes(n..n + 4)).is_err(), "a 416 answer was returned as data");
    }
    Ok(())
}
