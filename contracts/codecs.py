from vlib.verify import Unit
from contracts.data_type import D

DECODERS = ["Uncompressed", "Deflate", "Lerc", "LZMA", "LZW", "JPEG", "JPEG2k", "WebP", "Zstd"]
PRE = r"""
pub enum AsyncTiffError { EndOfFile(u64, u64), General(String), InternalTIFFError(TiffError), Other }
pub enum TiffError { UnsupportedError(TiffUnsupportedError), Other }
pub enum TiffUnsupportedError { UnsupportedInterpretation(PhotometricInterpretation), Other }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
pub struct VxLow { pub x: u8 }
impl From<VxLow> for AsyncTiffError { #[verifier::external_body] fn from(e: VxLow) -> Self { AsyncTiffError::Other } }
impl From<TiffError> for AsyncTiffError { #[verifier::external_body] fn from(e: TiffError) -> Self { AsyncTiffError::Other } }
#[verifier::external_body] pub fn vx_any_err<E>() -> E { unimplemented!() }
pub trait VxInto<T>: Sized { fn vx_into(self) -> (r: T); }
impl VxInto<AsyncTiffError> for VxLow { #[verifier::external_body] fn vx_into(self) -> (r: AsyncTiffError) { unimplemented!() } }
impl VxInto<AsyncTiffError> for TiffError { #[verifier::external_body] fn vx_into(self) -> (r: AsyncTiffError) { unimplemented!() } }
pub trait VxStr { fn vx_to_string(&self) -> (r: String); }
impl VxStr for str { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VxToVec { spec fn tsq(&self) -> Seq<u8>; fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tsq(), r@.len() <= isize::MAX; }
impl VxToVec for [u8] { open spec fn tsq(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxToVec for Bytes { open spec fn tsq(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxToVec for VxWebp { open spec fn tsq(&self) -> Seq<u8> { self.px@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
pub trait VxCopied<T> { spec fn cop(&self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) where Self: Sized ensures r == self.cop(); }
impl<T: Copy> VxCopied<T> for Option<&T> { open spec fn cop(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } } #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { self.copied() } }
// ---- what the codec libraries make of a byte string (assumed: a function of it, None for an error)
pub uninterp spec fn inflate(b: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn unzstd(b: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn unxz(b: Seq<u8>, multi: bool) -> Option<Seq<u8>>;
pub uninterp spec fn unlzw(b: Seq<u8>, tiff: bool, msb: bool, size: u8) -> Option<Seq<u8>>;
/// a reader over bytes: what is left
pub struct VxCursor { pub g: Ghost<Seq<u8>> }
impl View for VxCursor { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.g@ } }
pub trait VxSource { spec fn ssq(&self) -> Seq<u8>; }
impl VxSource for Bytes { open spec fn ssq(&self) -> Seq<u8> { self@ } }
impl VxSource for &Bytes { open spec fn ssq(&self) -> Seq<u8> { self@ } }
impl VxSource for &[u8] { open spec fn ssq(&self) -> Seq<u8> { self@ } }
impl VxSource for &Vec<u8> { open spec fn ssq(&self) -> Seq<u8> { self@ } }
impl VxSource for Vec<u8> { open spec fn ssq(&self) -> Seq<u8> { self@ } }
impl VxSource for VxCursor { open spec fn ssq(&self) -> Seq<u8> { self@ } }
#[verifier::external_body] pub fn vx_cursor<S: VxSource>(s: S) -> (r: VxCursor) ensures r@ == s.ssq(), { unimplemented!() }
pub trait VxReaderOf { fn reader(self) -> (r: VxCursor) where Self: VxSource ensures r@ == self.ssq(); }
impl VxReaderOf for Bytes { #[verifier::external_body] fn reader(self) -> (r: VxCursor) { unimplemented!() } }
impl VxCursor {
    #[verifier::external_body] pub fn chain<S: VxSource>(self, o: S) -> (r: VxCursor) ensures r@ == self@ + o.ssq(), { unimplemented!() }
    #[verifier::external_body] pub fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<(), VxLow>)
        ensures r.is_ok() == (old(b)@.len() <= old(self)@.len()), r.is_ok() ==> final(self)@ == old(self)@.subrange(old(b)@.len() as int, old(self)@.len() as int), final(b)@.len() == old(b)@.len(), { unimplemented!() }
    #[verifier::external_body] pub fn vx_read_past(&mut self, n: usize) -> (r: Result<(), VxLow>)
        ensures r.is_ok() == (n <= old(self)@.len()), r.is_ok() ==> final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int), { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, VxLow>)
        ensures r.is_ok(), final(b)@ == old(b)@ + old(self)@, r->Ok_0 == old(self)@.len(), { unimplemented!() }
}
/// a decompressing reader: everything it will give, None if it will fail
pub struct VxUnpack { pub g: Ghost<Option<Seq<u8>>> }
impl VxUnpack {
    #[verifier::external_body] pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, VxLow>)
        ensures r.is_ok() == (old(self).g@ is Some), r.is_ok() ==> final(b)@ == old(b)@ + old(self).g@->0, { unimplemented!() }
}
#[verifier::external_body] pub fn vx_zlib<S: VxSource>(s: S) -> (r: VxUnpack) ensures r.g@ == inflate(s.ssq()), { unimplemented!() }
#[verifier::external_body] pub fn vx_zstd<S: VxSource>(s: S) -> (r: Result<VxUnpack, VxLow>) ensures r.is_ok() ==> r->Ok_0.g@ == unzstd(s.ssq()), r.is_err() ==> unzstd(s.ssq()) is None, { unimplemented!() }
#[verifier::external_body] pub fn vx_xz<S: VxSource>(s: S, multi: bool) -> (r: VxUnpack) ensures r.g@ == unxz(s.ssq(), multi), { unimplemented!() }
pub enum BitOrder { Msb, Lsb }
pub struct VxLzw { pub tiff: bool, pub order: BitOrder, pub size: u8 }
pub fn vx_lzw_tiff(order: BitOrder, size: u8) -> (r: VxLzw) ensures r.tiff, r.order == order, r.size == size, { VxLzw { tiff: true, order, size } }
pub fn vx_lzw_new(order: BitOrder, size: u8) -> (r: VxLzw) ensures !r.tiff, r.order == order, r.size == size, { VxLzw { tiff: false, order, size } }
impl VxLzw { #[verifier::external_body] pub fn decode<S: VxBuf + ?Sized>(&mut self, b: &S) -> (r: Result<Vec<u8>, VxLow>)
    ensures match r { Ok(v) => unlzw(b.bsq(), old(self).tiff, old(self).order is Msb, old(self).size) == Some(v@), Err(_) => unlzw(b.bsq(), old(self).tiff, old(self).order is Msb, old(self).size) is None }, { unimplemented!() } }
// ---- JPEG 2000
pub struct VxJ2kParams { pub x: u8 }
pub enum ImagePixelData { L8(Vec<u8>), La8(Vec<u8>), Rgb8(Vec<u8>), Rgba8(Vec<u8>), L16(Vec<u16>), La16(Vec<u16>), Rgb16(Vec<u16>), Rgba16(Vec<u16>) }
pub struct VxJ2kData { pub width: u32, pub height: u32, pub data: ImagePixelData }
pub struct VxJ2k { pub g: Ghost<Seq<u8>> }
pub uninterp spec fn j2k_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn j2k(b: Seq<u8>, alpha: Option<u32>) -> Option<ImagePixelData>;
#[verifier::external_body] pub fn vx_j2k_params() -> (r: VxJ2kParams) { unimplemented!() }
#[verifier::external_body] pub fn vx_j2k_image<S: VxBuf + ?Sized>(b: &S, p: VxJ2kParams) -> (r: Result<VxJ2k, VxLow>) ensures r.is_ok() == j2k_ok(b.bsq()), r.is_ok() ==> r->Ok_0.g@ == b.bsq(), { unimplemented!() }
impl VxJ2k { #[verifier::external_body] pub fn get_pixels(&self, a: Option<u32>) -> (r: Result<VxJ2kData, VxLow>) ensures match r { Ok(d) => j2k(self.g@, a) == Some(d.data), Err(_) => j2k(self.g@, a) is None }, { unimplemented!() } }
// ---- WebP
pub struct VxWebpDecoder { pub g: Ghost<Seq<u8>> }
pub struct VxWebp { pub alpha: bool, pub px: Vec<u8> }
pub uninterp spec fn unwebp(b: Seq<u8>) -> Option<(Seq<u8>, bool)>;
#[verifier::external_body] pub fn vx_webp<S: VxBuf + ?Sized>(b: &S) -> (r: VxWebpDecoder) ensures r.g@ == b.bsq(), { unimplemented!() }
impl VxWebpDecoder { #[verifier::external_body] pub fn decode(&self) -> (r: Option<VxWebp>) ensures match r { Some(w) => unwebp(self.g@) == Some((w.px@, w.alpha)), None => unwebp(self.g@) is None }, { unimplemented!() } }
impl VxWebp {
    pub fn is_alpha(&self) -> (r: bool) ensures r == self.alpha, { self.alpha }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.px@, { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self.px@.len(), { self.px.len() }
}
// ---- LERC
pub struct BlobInfo { pub data_type: u32, pub width: u32, pub height: u32, pub depth: u32, pub bands: u32, pub masks: u32 }
pub uninterp spec fn lerc_info(b: Seq<u8>) -> Option<BlobInfo>;
pub uninterp spec fn unlerc<T>(b: Seq<u8>, w: usize, h: usize, d: usize, n: usize, m: usize) -> Option<Seq<T>>;
#[verifier::external_body] pub fn vx_lerc_info<S: VxBuf + ?Sized>(b: &S) -> (r: Result<BlobInfo, VxLow>) ensures match r { Ok(i) => lerc_info(b.bsq()) == Some(i), Err(_) => lerc_info(b.bsq()) is None }, { unimplemented!() }
#[verifier::external_body] pub fn vx_lerc_decode<T>(b: &[u8], w: usize, h: usize, d: usize, n: usize, m: usize) -> (r: Result<(Vec<T>, Option<Vec<u8>>), VxLow>)
    ensures match r { Ok(v) => unlerc::<T>(b@, w, h, d, n, m) == Some(v.0@), Err(_) => unlerc::<T>(b@, w, h, d, n, m) is None }, { unimplemented!() }
// ---- JPEG
pub enum ColorTransform { None, Unknown, Grayscale, RGB, YCbCr, CMYK, YCCK, JcsBgYcc, JcsBgRgb }
pub struct VxJpeg { pub g: Ghost<Seq<u8>>, pub ct: Ghost<Option<ColorTransform>> }
pub uninterp spec fn unjpeg(b: Seq<u8>, ct: Option<ColorTransform>) -> Option<Seq<u8>>;
#[verifier::external_body] pub fn vx_jpeg<S: VxSource>(s: S) -> (r: VxJpeg) ensures r.g@ == s.ssq(), r.ct@ is None, { unimplemented!() }
impl VxJpeg {
    #[verifier::external_body] pub fn set_color_transform(&mut self, c: ColorTransform) ensures final(self).g == old(self).g, final(self).ct@ == Some(c), { unimplemented!() }
    #[verifier::external_body] pub fn decode(&mut self) -> (r: Result<Vec<u8>, VxLow>) ensures match r { Ok(v) => unjpeg(old(self).g@, old(self).ct@) == Some(v@), Err(_) => unjpeg(old(self).g@, old(self).ct@) is None }, { unimplemented!() }
}
// ---- trait objects
pub trait VxAsDyn: Sized { type Out; spec fn dyn_ok(self, r: Self::Out) -> bool; fn vx_to_dyn(self) -> (r: Self::Out) ensures self.dyn_ok(r); }
impl VxAsDyn for VxCursor { type Out = VxCursor; open spec fn dyn_ok(self, r: VxCursor) -> bool { r == self } fn vx_to_dyn(self) -> (r: VxCursor) { self } }
pub fn vx_dyn<S: VxAsDyn>(s: S) -> (r: S::Out) ensures s.dyn_ok(r), { s.vx_to_dyn() }
/// `Box<dyn Decoder>`: which of the decoders it is
pub enum VxDyn { """ + ", ".join(DECODERS) + r""" }
""" + "".join(f"impl VxAsDyn for {d}Decoder {{ type Out = VxDyn; open spec fn dyn_ok(self, r: VxDyn) -> bool {{ r == VxDyn::{d} }} fn vx_to_dyn(self) -> (r: VxDyn) {{ VxDyn::{d} }} }}\n" for d in DECODERS)
SPEC = r"""
/// a result that is what a library function says
pub open spec fn is_out(r: AsyncTiffResult<Vec<u8>>, o: Option<Seq<u8>>) -> bool { match r { Ok(v) => o == Some(v@), Err(_) => o is None } }
/// three samples per pixel to four, the added one opaque
pub open spec fn opaque4(px: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { opaque4(px, n - 1) + px.subrange(3 * (n - 1), 3 * n) + seq![255u8] } }
pub open spec fn webp_out(b: Seq<u8>, s: u16, d: u16) -> Option<Seq<u8>> { match unwebp(b) { None => None, Some((px, a)) => Some(if s == 4 && d == 8 && !a { opaque4(px, px.len() as int / 3) } else { px }) } }
pub open spec fn j2k_out(r: AsyncTiffResult<Vec<u8>>, b: Seq<u8>) -> bool {
    match r {
        Err(_) => !j2k_ok(b) || j2k(b, None) is None,
        Ok(v) => j2k_ok(b) && match j2k(b, None) { None => false, Some(p) => match p {
            ImagePixelData::L8(x) | ImagePixelData::La8(x) | ImagePixelData::Rgb8(x) | ImagePixelData::Rgba8(x) => v@ == x@,
            ImagePixelData::L16(x) | ImagePixelData::La16(x) | ImagePixelData::Rgb16(x) | ImagePixelData::Rgba16(x) => words_of(v@, x@, 2),
        } },
    }
}
/// LercParameters[1]: 1 = Deflate, 2 = Zstandard around the blob
pub open spec fn lerc_blob(b: Seq<u8>, p: Option<&[u32]>) -> Option<Seq<u8>> { if p is Some && p->0@.len() > 1 { if p->0@[1] == 1 { inflate(b) } else if p->0@[1] == 2 { unzstd(b) } else { Some(b) } } else { Some(b) } }
pub open spec fn lerc_as<T: VxNoUninit>(r: AsyncTiffResult<Vec<u8>>, b: Seq<u8>, i: BlobInfo) -> bool {
    match unlerc::<T>(b, i.width as usize, i.height as usize, i.depth as usize, i.bands as usize, i.masks as usize) { None => r is Err, Some(s) => r is Ok && T::bytes_ok(s, r->Ok_0@) }
}
pub open spec fn lerc_out(r: AsyncTiffResult<Vec<u8>>, b: Seq<u8>, p: Option<&[u32]>) -> bool {
    match lerc_blob(b, p) { None => r is Err, Some(x) => match lerc_info(x) { None => r is Err, Some(i) =>
        if i.data_type == 0 { lerc_as::<i8>(r, x, i) } else if i.data_type == 1 { lerc_as::<u8>(r, x, i) } else if i.data_type == 2 { lerc_as::<i16>(r, x, i) } else if i.data_type == 3 { lerc_as::<u16>(r, x, i) }
        else if i.data_type == 4 { lerc_as::<i32>(r, x, i) } else if i.data_type == 5 { lerc_as::<u32>(r, x, i) } else if i.data_type == 6 { lerc_as::<f32>(r, x, i) } else if i.data_type == 7 { lerc_as::<f64>(r, x, i) } else { r is Err } } }
}
/// the JPEG stream: the shared tables without their end marker, then the data without its start marker
pub open spec fn jpeg_stream(b: Seq<u8>, t: Option<&[u8]>) -> Option<Seq<u8>> { match t { None => Some(b), Some(t) => if t@.len() < 2 || b.len() < 2 { None } else { Some(t@.subrange(0, t@.len() - 2) + b.subrange(2, b.len() as int)) } } }
pub open spec fn transform(p: PhotometricInterpretation) -> Option<ColorTransform> {
    match p {
        PhotometricInterpretation::RGB => Some(ColorTransform::RGB), PhotometricInterpretation::CMYK => Some(ColorTransform::CMYK), PhotometricInterpretation::YCbCr => Some(ColorTransform::YCbCr),
        PhotometricInterpretation::WhiteIsZero | PhotometricInterpretation::BlackIsZero | PhotometricInterpretation::TransparencyMask => Some(ColorTransform::None), _ => None,
    }
}
pub open spec fn jpeg_out(b: Seq<u8>, p: PhotometricInterpretation, t: Option<&[u8]>) -> Option<Seq<u8>> { if jpeg_stream(b, t) is None || transform(p) is None { None } else { unjpeg(jpeg_stream(b, t)->0, transform(p)) } }
pub open spec fn by_default(c: Compression) -> Option<VxDyn> {
    match c {
        Compression::None => Some(VxDyn::Uncompressed), Compression::Deflate | Compression::OldDeflate => Some(VxDyn::Deflate), Compression::LERC => Some(VxDyn::Lerc), Compression::LZMA => Some(VxDyn::LZMA),
        Compression::LZW => Some(VxDyn::LZW), Compression::ModernJPEG => Some(VxDyn::JPEG), Compression::JPEG2k => Some(VxDyn::JPEG2k), Compression::WebP => Some(VxDyn::WebP), Compression::ZSTD => Some(VxDyn::Zstd),
        _ => None,
    }
}
pub proof fn lemma_empty(b: Seq<u8>) ensures Seq::<u8>::empty() + b == b, { assert(Seq::<u8>::empty() + b =~= b); }
"""
UNIT = U = Unit("codecs", prelude=["base", "bytes", "cast", "ints", "maps", "buf"], pre_types=PRE, spec=SPEC,
                types={"Compression": {"derive": D}, "PhotometricInterpretation": {"derive": D}, "DecoderRegistry": {"derive": []}, **{d + "Decoder": {"derive": []} for d in DECODERS}},
                rlimit=30, shims=["vx_dyn"], extra_contracted=["VxLzw::decode", "VxJpeg::decode", "VxWebpDecoder::decode"])
U.rename_paths.update({"Box::new": "vx_dyn", "Cursor::new": "vx_cursor", "ZlibDecoder::new": "vx_zlib", "zstd::Decoder::new": "vx_zstd", "XzReader::new": "vx_xz", "weezl::decode::Decoder::with_tiff_size_switch": "vx_lzw_tiff",
                       "weezl::decode::Decoder::new": "vx_lzw_new", "jpeg2k::DecodeParameters::new": "vx_j2k_params", "jpeg2k::Image::from_bytes_with": "vx_j2k_image", "webp::Decoder::new": "vx_webp",
                       "lerc::get_blob_info": "vx_lerc_info", "lerc::decode": "vx_lerc_decode", "jpeg::Decoder::new": "vx_jpeg", "HashMap::with_capacity": "VxMap::with_capacity", "HashMap::new": "VxMap::new"})
U.rename_types.update({"HashMap": "VxMap", "Box<dynDecoder>": "VxDyn", "Box<dynRead>": "VxCursor"})
U.rename_methods.update({"into": "vx_into", "to_string": "vx_to_string", "to_vec": "vx_to_vec", "copied": "vx_copied"})
for d, e in [("Uncompressed", "Some($1@)"), ("Deflate", "inflate($1@)"), ("Zstd", "unzstd($1@)"), ("LZMA", "unxz($1@, false)"), ("LZW", "unlzw($1@, true, true, 8)")]:
    U.fn(d + "Decoder as Decoder::decode_tile", ["C22", "C24"], entry=["broadcast use vstd::seq_lib::group_seq_properties;"], ensures=[("C22:what-the-codec-decodes", f"is_out($r, {e})")])
U.fn("decode_lerc", ["C22", "C24"], generics="<T: VxNoUninit>", ensures=[("C22:all-samples-as-bytes", "lerc_as::<T>($r, $0@, *$1)")])
U.fn("LercDecoder as Decoder::decode_tile", ["C22", "C24"], ensures=[("C22:unwrapped-then-decoded-with-its-type", "lerc_out($r, $1@, $6)")])
U.fn("JPEG2kDecoder as Decoder::decode_tile", ["C22", "C24"], ensures=[("C22:what-the-codec-decodes", "j2k_out($r, $1@)")])
U.fn("WebPDecoder as Decoder::decode_tile", ["C22", "C24"], ensures=[("C22:with-the-alpha-the-image-declares", "is_out($r, webp_out($1@, $4, $5))")],
     inv=["%i <= %e", "%i % 3 == 0", "%e % 3 == 0", "%a@ =~= opaque4(%f@, %i as int / 3)", "%a@ =~= opaque4(%f@, %i as int)",
          "%n <= %e", "%a@ =~= opaque4(%f@, %f2 as int / 3) + %q@.subrange(0, %n as int)"])
U.fn("decode_modern_jpeg", ["C22", "C24"], ensures=[("C22:tables-then-data-in-the-declared-colours", "is_out($r, jpeg_out($0@, $1, $2))")])
U.fn("JPEGDecoder as Decoder::decode_tile", ["C22", "C24"], ensures=[("C22:tables-then-data-in-the-declared-colours", "is_out($r, jpeg_out($1@, $2, $3))")])
U.fn("DecoderRegistry as Default::default", ["C22"], name="default_", ensures=[("C22:the-decoder-of-each-method", "forall|c: Compression| #[trigger] get($r.0@, c) == by_default(c)")])
U.fn("DecoderRegistry::empty", ["C22"], ensures=[("C22:none", "$r.0@ == Map::<Compression, VxDyn>::empty()")])
U.fn("DecoderRegistry as AsRef::as_ref", ["C22"], ensures=[("C22:the-registered-decoders", "$r == &$0.0")])
