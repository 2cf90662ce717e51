from vlib.verify import Unit
from contracts.tiles import KINDS, D
import contracts.tiles as T

PRE = r"""
pub struct IoError;
pub struct UnsupportedFeature;
pub enum TiffError { FormatError(TiffFormatError), UnsupportedError(TiffUnsupportedError), IoError(IoError), IntSizeError, UsageError }
pub enum AsyncTiffError { EndOfFile(u64, u64), General(String), InternalTIFFError(TiffError) }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
impl From<TiffError> for AsyncTiffError { #[verifier::external_body] fn from(e: TiffError) -> Self { AsyncTiffError::InternalTIFFError(e) } }
#[verifier::external_body]
pub fn vx_any_err<E>() -> E { unimplemented!() }
""" + T.PRE[T.PRE.index("pub trait VxDeref"):T.PRE.index("/// A reader, whatever")].replace("impl VxClone for Range<u64>", "impl VxClone for core::ops::Range<u64>") + r"""
/// A registered decoder: what it makes of its arguments (assumed to depend on them alone)
pub struct VxDecoder { pub x: u8 }
impl VxDecoder {
    pub uninterp spec fn out(&self, b: Seq<u8>, p: PhotometricInterpretation, j: Option<Seq<u8>>, s: u16, d: u16, l: Option<Seq<u32>>) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn decode_tile(&self, b: Bytes, p: PhotometricInterpretation, j: Option<&[u8]>, s: u16, d: u16, l: Option<&[u32]>) -> (r: AsyncTiffResult<Vec<u8>>)
        ensures match r { Ok(v) => self.out(b@, p, sv(j), s, d, sv(l)) == Some(v@), Err(_) => self.out(b@, p, sv(j), s, d, sv(l)) is None },
    { unimplemented!() }
}
pub open spec fn sv<T>(o: Option<&[T]>) -> Option<Seq<T>> { match o { Some(x) => Some(x@), None => None } }
pub struct DecoderRegistry { pub m: VxMap<Compression, VxDecoder> }
impl DecoderRegistry { pub fn as_ref(&self) -> (r: &VxMap<Compression, VxDecoder>) ensures r == &self.m, { &self.m } }
"""
SPEC = r"""
/// what the predictors and the array constructor do: see the units predictor and array
pub uninterp spec fn fixed(v: Seq<u8>, e: Endianness, bits: u16, r: Seq<u8>) -> bool;
pub uninterp spec fn unhdiffed(v: Seq<u8>, e: Endianness, samples: usize, bits: u16, width: usize, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn unfloated(v: Seq<u8>, samples: usize, bits: u16, width: usize, r: Option<Seq<u8>>) -> bool;
pub uninterp spec fn arrayed(v: Seq<u8>, shape: [usize; 3], dt: Option<DataType>, r: AsyncTiffResult<Array>) -> bool;
pub open spec fn dec(g: DecoderRegistry, t: Tile) -> Option<VxDecoder> { get(g.m@, t.compression_method) }
pub open spec fn jt(t: Tile) -> Option<Seq<u8>> { match t.jpeg_tables { Some(b) => Some(b@), None => None } }
pub open spec fn lp(t: Tile) -> Option<Seq<u32>> { match t.lerc_parameters { Some(b) => Some(b@), None => None } }
pub open spec fn band(t: Tile, d: VxDecoder, b: Bytes, s: u16) -> Option<Seq<u8>> { d.out(b@, t.photometric_interpretation, jt(t), s, t.bits_per_sample, lp(t)) }
/// every one of the first n bands is decoded
pub open spec fn bands_ok(t: Tile, d: VxDecoder, v: Seq<Bytes>, n: int) -> bool { forall|i: int| 0 <= i < n ==> band(t, d, #[trigger] v[i], 1) is Some }
pub open spec fn cat(t: Tile, d: VxDecoder, v: Seq<Bytes>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { cat(t, d, v, n - 1) + band(t, d, v[n - 1], 1)->0 } }
/// the decoded data of the tile
pub open spec fn raw(t: Tile, d: VxDecoder) -> Option<Seq<u8>> {
    match t.compressed_bytes {
        CompressedBytes::Chunky(b) => band(t, d, b, t.samples_per_pixel),
        CompressedBytes::Planar(v) => if bands_ok(t, d, v@, v@.len() as int) { Some(cat(t, d, v@, v@.len() as int)) } else { None },
    }
}
/// image codecs return samples in the order of the host
pub open spec fn order(t: Tile) -> Endianness { if t.compression_method is ModernJPEG || t.compression_method is JPEG2k || t.compression_method is LERC { Endianness::LittleEndian } else { t.endianness } }
pub open spec fn samples(t: Tile) -> usize { if t.compressed_bytes is Planar { 1 } else { t.samples_per_pixel as usize } }
pub open spec fn undone(t: Tile, v: Seq<u8>, r: Option<Seq<u8>>) -> bool {
    match t.predictor {
        Predictor::None => r is Some && fixed(v, order(t), t.bits_per_sample, r->0),
        Predictor::Horizontal => unhdiffed(v, order(t), samples(t), t.bits_per_sample, t.width as usize, r),
        Predictor::FloatingPoint => unfloated(v, samples(t), t.bits_per_sample, t.width as usize, r),
    }
}
pub open spec fn shape_is(t: Tile, s: [usize; 3]) -> bool { match t.planar_configuration { PlanarConfiguration::Chunky => s@ == seq![t.height as usize, t.width as usize, t.samples_per_pixel as usize], PlanarConfiguration::Planar => s@ == seq![t.samples_per_pixel as usize, t.height as usize, t.width as usize] } }
pub open spec fn result(t: Tile, v: Seq<u8>, r: AsyncTiffResult<Array>) -> bool {
    (r is Err && undone(t, v, None)) || exists|x: Seq<u8>, s: [usize; 3]| undone(t, v, Some(x)) && shape_is(t, s) && #[trigger] arrayed(x, s, t.data_type, r)
}
"""
U = UNIT = Unit("decode", prelude=["base", "ints", "maps", "buf"], pre_types=PRE,
                types={**{k: {"derive": D} for k in KINDS if k not in ("Tag", "Type")}, "CompressedBytes": {"derive": []}, "TiffFormatError": {"derive": []}, "TiffUnsupportedError": {"derive": []}, "Tile": {"derive": []}, "Array": {"derive": []}, "TypedArray": {"derive": []}, "Tag": {"derive": D}, "Type": {"derive": D}, "TagValue": {"derive": []}},
                spec=SPEC, rlimit=30)
U.rename_methods.update({"as_deref": "vx_as_deref", "clone": "vx_clone"})
U.rename_types.update({"HashMap": "VxMap"})
U.fn("fix_endianness", ["C03"], trusted="@predictor", ensures=["fixed(old($0)@, $1, $2, final($0)@)"])
U.fn("unpredict_hdiff", ["C01"], trusted="@predictor", requires=["$2 <= 0xFFFF", "$4 <= 0xFFFF_FFFF"], ensures=["unhdiffed($0@, $1, $2, $3, $4, match $r { Ok(v) => Some(v@), Err(_) => None })"])
U.fn("unpredict_float", ["C02"], trusted="@predictor", requires=["$1 <= 0xFFFF", "$3 <= 0xFFFF_FFFF"], ensures=["unfloated($0@, $1, $2, $3, match $r { Ok(v) => Some(v@), Err(_) => None })"])
U.fn("Array::try_new", ["C04"], trusted="@array", ensures=["arrayed($0@, $1, $2, $r)"])
DD = "dec(*$1, $0)"
BV = "$in0.compressed_bytes->Planar_0@"
U.fn("Tile::decode", ["C17", "C24", "C01", "C02", "C03", "C04"], ensures=[
    ("C17:a-method-without-decoder-is-an-error", f"{DD} is None ==> $r.is_err()"),
    ("C17:decoder-errors-are-passed-on", f"{DD} is Some && raw($0, {DD}->0) is None ==> $r.is_err()"),
    ("C17,C01,C02,C03,C04:every-band-decoded-and-reassembled", f"{DD} is Some && raw($0, {DD}->0) is Some ==> result($0, raw($0, {DD}->0)->0, $r)")],
    inv=["%n <= %e", f"%n <= {BV}.len()", f"bands_ok($in0, dec(*$1, $in0)->0, {BV}, %n as int)", f"%a@ == cat($in0, dec(*$1, $in0)->0, {BV}, %n as int)"])
