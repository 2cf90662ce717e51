from vlib.verify import Unit

PRE = r"""
pub type Rg = core::ops::Range<u64>;
pub enum AsyncTiffError { EndOfFile(u64, u64), General(String), Other }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
/// errors of the layer below (file, object store, HTTP client)
pub struct VxLow { pub x: u8 }
impl From<VxLow> for AsyncTiffError { #[verifier::external_body] fn from(e: VxLow) -> Self { AsyncTiffError::Other } }
impl VxInto<AsyncTiffError> for VxLow { #[verifier::external_body] fn vx_into(self) -> (r: AsyncTiffError) { unimplemented!() } open spec fn into_ok(self, r: AsyncTiffError) -> bool { true } }
pub trait VxInto<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
impl VxInto<Bytes> for Vec<u8> { open spec fn into_ok(self, r: Bytes) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Bytes) { unimplemented!() } }
/// A reader, whatever it answers: the predicates tie a request to the answer it got.
pub struct VxReader { pub x: u8 }
pub uninterp spec fn gave(rd: VxReader, q: Rg, a: AsyncTiffResult<Bytes>) -> bool;
pub uninterp spec fn gave_all(rd: VxReader, q: Seq<Rg>, a: AsyncTiffResult<Vec<Bytes>>) -> bool;
impl VxReader {
    #[verifier::external_body] pub fn get_bytes(&self, q: Rg) -> (a: AsyncTiffResult<Bytes>) ensures gave(*self, q, a), { unimplemented!() }
    #[verifier::external_body] pub fn get_byte_ranges(&self, q: Vec<Rg>) -> (a: AsyncTiffResult<Vec<Bytes>>) ensures gave_all(*self, q@, a), { unimplemented!() }
}
/// a trait object in a box, and in an arc
pub struct VxBox { pub r: VxReader }
impl VxBox { pub fn as_ref(&self) -> (r: &VxReader) ensures *r == self.r, { &self.r } }
pub struct VxArc { pub r: VxReader }
impl VxArc { pub fn as_ref(&self) -> (r: &VxReader) ensures *r == self.r, { &self.r } }
/// A reader that defines only `get_bytes`
pub struct VxDefault { pub r: VxReader }
impl VxDefault { #[verifier::external_body] pub fn get_bytes(&self, q: Rg) -> (a: AsyncTiffResult<Bytes>) ensures gave(self.r, q, a), { unimplemented!() } }

// ---- a seekable file (tokio's AsyncRead + AsyncSeek), shared behind a mutex
pub struct VxFile { pub x: u8 }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub struct VxTake { pub c: Ghost<Seq<u8>>, pub at: Ghost<int>, pub n: Ghost<int>, pub ok: Ghost<bool> }
pub open spec fn window(c: Seq<u8>, at: int, n: int) -> Seq<u8> { if at >= c.len() { Seq::empty() } else if at + n >= c.len() { c.subrange(at, c.len() as int) } else { c.subrange(at, at + n) } }
impl VxFile {
    /// its bytes (no operation of a reader changes them), where it reads next, and whether its operations succeed
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn reliable(&self) -> bool;
    #[verifier::external_body] pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, VxLow>)
        ensures final(self).bytes() == old(self).bytes(), final(self).reliable() == old(self).reliable(),
            r.is_ok() && to is Start ==> final(self).at() == to->Start_0, old(self).reliable() && to is Start ==> r.is_ok(),
    { unimplemented!() }
    #[verifier::external_body] pub fn take(&mut self, n: u64) -> (r: VxTake)
        ensures final(self).bytes() == old(self).bytes(), final(self).reliable() == old(self).reliable(),
            r.c@ == old(self).bytes(), r.at@ == old(self).at(), r.n@ == n, r.ok@ == old(self).reliable(),
    { unimplemented!() }
    #[verifier::external_body] pub fn read_exact(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, VxLow>)
        ensures final(self).bytes() == old(self).bytes(), final(self).reliable() == old(self).reliable(), final(b)@.len() == old(b)@.len(),
            r.is_ok() ==> old(self).at() + old(b)@.len() <= old(self).bytes().len() && final(b)@ == window(old(self).bytes(), old(self).at(), old(b)@.len() as int),
            old(self).reliable() && old(self).at() + old(b)@.len() <= old(self).bytes().len() ==> r.is_ok(),
    { unimplemented!() }
}
impl VxTake {
    #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, VxLow>)
        ensures old(self).ok@ ==> r.is_ok(), r.is_ok() ==> final(b)@ == old(b)@ + window(old(self).c@, old(self).at@, old(self).n@) && r->Ok_0 == window(old(self).c@, old(self).at@, old(self).n@).len(),
    { unimplemented!() }
}
pub struct VxMutex { pub f: VxFile }
impl VxMutex {
    #[verifier::external_body] pub fn new(f: VxFile) -> (r: VxMutex) ensures r.bytes() == f.bytes(), r.reliable() == f.reliable(), { unimplemented!() }
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn reliable(&self) -> bool;
    /// another task may have left the file at any position
    #[verifier::external_body] pub fn lock(&self) -> (r: VxFile) ensures r.bytes() == self.bytes(), r.reliable() == self.reliable(), { unimplemented!() }
}
pub struct TokioReader(pub VxMutex);
impl TokioReader { pub open spec fn bytes(&self) -> Seq<u8> { self.0.bytes() } pub open spec fn reliable(&self) -> bool { self.0.reliable() } }

// ---- an object store
pub struct VxPath { pub x: u8 }
pub struct VxStore { pub x: u8 }
pub uninterp spec fn stored(s: VxStore, p: VxPath, q: Rg, a: Result<Bytes, VxLow>) -> bool;
pub uninterp spec fn stored_all(s: VxStore, p: VxPath, q: Seq<Rg>, a: Result<Vec<Bytes>, VxLow>) -> bool;
impl VxStore {
    #[verifier::external_body] pub fn get_range(&self, p: &VxPath, q: Rg) -> (a: Result<Bytes, VxLow>) ensures stored(*self, *p, q, a), { unimplemented!() }
    #[verifier::external_body] pub fn get_ranges(&self, p: &VxPath, q: &Vec<Rg>) -> (a: Result<Vec<Bytes>, VxLow>) ensures stored_all(*self, *p, q@, a), { unimplemented!() }
}

// ---- an HTTP client
pub struct Url { pub x: u8 }
pub struct Client { pub x: u8 }
impl Url { #[verifier::external_body] pub fn clone(&self) -> (r: Url) ensures r == *self, { unimplemented!() } }
impl Client { #[verifier::external_body] pub fn clone(&self) -> (r: Client) ensures r == *self, { unimplemented!() } }
pub struct VxRequest { pub client: Client, pub url: Url, pub headers: Ghost<Seq<(Seq<char>, Seq<char>)>> }
pub struct VxResponse { pub x: u8 }
pub uninterp spec fn answered(q: VxRequest, a: VxResponse) -> bool;
impl Client { #[verifier::external_body] pub fn get(&self, u: Url) -> (r: VxRequest) ensures r.client == *self, r.url == u, r.headers@ == Seq::<(Seq<char>, Seq<char>)>::empty(), { unimplemented!() } }
pub trait VxText { spec fn txt(&self) -> Seq<char>; }
impl VxText for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxText for &String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxText for &str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl VxRequest {
    #[verifier::external_body] pub fn header<S: VxText>(self, n: &str, v: S) -> (r: VxRequest) ensures r.client == self.client, r.url == self.url, r.headers@ == self.headers@.push((n@, v.txt())), { unimplemented!() }
    #[verifier::external_body] pub fn send(self) -> (r: Result<VxResponse, VxLow>) ensures r.is_ok() ==> answered(self, r->Ok_0), self.reliable() ==> r.is_ok(), { unimplemented!() }
    pub uninterp spec fn reliable(&self) -> bool;
}
impl VxResponse {
    pub uninterp spec fn refused(&self) -> bool;
    pub uninterp spec fn body(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn error_for_status(self) -> (r: Result<VxResponse, VxLow>) ensures r.is_ok() == !self.refused(), r.is_ok() ==> r->Ok_0 == self, { unimplemented!() }
    #[verifier::external_body] pub fn bytes(self) -> (r: Result<Bytes, VxLow>) ensures r.is_ok() ==> r->Ok_0@ == self.body(), { unimplemented!() }
}
pub uninterp spec fn decimal(x: int) -> Seq<char>;
#[verifier::external_body] pub fn vx_lit(s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
#[verifier::external_body] pub fn vx_show(x: u64) -> (r: String) ensures r@ == decimal(x as int), { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@, { unimplemented!() }
pub trait VxEmpty { spec fn none_left(&self) -> bool; fn vx_is_empty(&self) -> (r: bool) ensures r == self.none_left(); }
impl VxEmpty for core::ops::Range<u64> { open spec fn none_left(&self) -> bool { self.start >= self.end } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.start >= self.end } }
impl<T> VxEmpty for Vec<T> { open spec fn none_left(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
#[verifier::external_body] pub fn vx_any_err<E>() -> E { unimplemented!() }
"""
SPEC = r"""
/// one buffer per range, in the order of the ranges
pub open spec fn each(rd: VxReader, q: Seq<Rg>, a: Seq<Bytes>, n: int) -> bool { a.len() == n && forall|i: int| 0 <= i < n ==> gave(rd, q[i], Ok::<Bytes, AsyncTiffError>(#[trigger] a[i])) }
pub open spec fn range_text(q: Rg) -> Seq<char> { "bytes="@ + decimal(q.start as int) + "-"@ + decimal(q.end - 1) }
pub open spec fn asks(h: Seq<(Seq<char>, Seq<char>)>, q: Rg) -> bool { h.len() == 1 && (h[0].0 == "Range"@ || h[0].0 == "range"@) && h[0].1 == range_text(q) }
"""
UNIT = U = Unit("readers", prelude=["base", "ints", "buf"], pre_types=PRE, spec=SPEC, types={"ObjectReader": {"derive": []}, "ReqwestReader": {"derive": []}},
                rlimit=30, uses="use core::ops::Range;", code_uses="use core::ops::Range;", shims=["vx_show", "vx_reborrow"], extra_contracted=["VxFile::seek", "VxFile::take"])
U.rename_types.update({"Arc<dynobject_store::ObjectStore>": "VxStore", "Path": "VxPath"})
U.rename_paths.update({"Mutex::new": "VxMutex::new"})
U.rename_methods.update({"is_empty": "vx_is_empty", "into": "vx_into"})
C = ["C18"]
FW = [("forwarded", "gave($0.r, $1, $r)")]
FWA = [("forwarded", "gave_all($0.r, $1@, $r)")]
U.fn("AsyncFileReader::get_byte_ranges", C, impl="VxDefault", ensures=[
    ("one-buffer-per-range-in-order", "$r.is_ok() ==> each($0.r, $1@, $r->Ok_0@, $1@.len() as int)"),
    ("errors-passed-on", "$r.is_err() ==> exists|i: int| 0 <= i < $1@.len() && gave($0.r, #[trigger] $1@[i], Err($r->Err_0))")],
    inv=["%n <= %e", "%n <= $in1.len()", "each($0.r, $in1, %a@, %n as int)"])
U.fn("Box as AsyncFileReader::get_bytes", C, impl="VxBox", ensures=FW)
U.fn("Box as AsyncFileReader::get_byte_ranges", C, impl="VxBox", ensures=FWA)
U.fn("Arc as AsyncFileReader::get_bytes", C, impl="VxArc", ensures=FW)
U.fn("Arc as AsyncFileReader::get_byte_ranges", C, impl="VxArc", ensures=FWA)
U.fn("T as MetadataFetch::fetch", C, impl="VxReader", ensures=[("metadata-bytes-are-the-readers", "gave(*$0, $1, $r)")])
U.fn("TokioReader::new", C, impl="TokioReader", ptypes={0: "VxFile"}, ensures=[("reads-that-file", "$r.bytes() == $0.bytes() && $r.reliable() == $0.reliable()")])
TOK = dict(impl="TokioReader", requires=["$1.start <= $1.end"], ensures=[
    ("exactly-the-range", "$r.is_ok() ==> $r->Ok_0@.len() == $1.end - $1.start && ($1.start < $1.end ==> $1.end <= $0.bytes().len() && $r->Ok_0@ =~= $0.bytes().subrange($1.start as int, $1.end as int))"),
    ("no-needless-error", "$0.reliable() && $1.end <= $0.bytes().len() ==> $r.is_ok()")])
U.fn("TokioReader::make_range_request", C, **TOK)
U.fn("TokioReader as AsyncFileReader::get_bytes", C, **TOK)
OBJ = [("that-object-that-range", "match $r { Ok(b) => stored($0.store, $0.path, $1, Ok(b)), Err(_) => exists|e: VxLow| stored($0.store, $0.path, $1, Err(e)) }")]
U.fn("ObjectReader::new", C, ensures=[("that-object", "$r.store == $0 && $r.path == $1")])
U.fn("ObjectReader::make_range_request", C, ensures=OBJ)
U.fn("ObjectReader as AsyncFileReader::get_bytes", C, ensures=OBJ)
U.fn("ObjectReader as AsyncFileReader::get_byte_ranges", C, ensures=[("those-ranges-in-order", "match $r { Ok(b) => stored_all($0.store, $0.path, $1@, Ok(b)), Err(_) => exists|e: VxLow| stored_all($0.store, $0.path, $1@, Err(e)) }")],
     inv=["%n <= %e", "%n <= $in1.len()", "%a@ =~= $in1.subrange(0, %n as int)"], entry=["assert($1@.subrange(0, $1@.len() as int) =~= $1@);"])
HTTP = [
    ("empty-range-empty-buffer", "$1.start >= $1.end ==> $r.is_ok() && $r->Ok_0@ == Seq::<u8>::empty()"),
    ("asks-for-exactly-the-range", "$1.start < $1.end && $r.is_ok() ==> exists|q: VxRequest, a: VxResponse| q.client == $0.client && q.url == $0.url && asks(q.headers@, $1) && #[trigger] answered(q, a) && !a.refused() && $r->Ok_0@ == a.body()")]
U.fn("ReqwestReader::new", C, ensures=[("that-client-and-address", "$r.client == $0 && $r.url == $1")])
U.fn("ReqwestReader::make_range_request", C, ensures=HTTP)
U.fn("ReqwestReader as AsyncFileReader::get_bytes", C, ensures=HTTP)
