from vlib.verify import Unit
from contracts.tag_value import D, TYPES
import contracts.tag_value as TV
from contracts.geo import FIELD, GEO
from contracts._geo import KEYS
from contracts._tables import enum_spec, ENUMS

# field, tag, conversion: TIFF 6.0, TIFF/EP, GeoTIFF, GDAL
FIELDS = """new_subfile_type NewSubfileType u32
image_width ImageWidth u32
image_height ImageLength u32
bits_per_sample BitsPerSample u16s
compression Compression compression
photometric_interpretation PhotometricInterpretation photometricinterpretation
image_description ImageDescription string
strip_offsets StripOffsets u64s
orientation Orientation u16
samples_per_pixel SamplesPerPixel u16
rows_per_strip RowsPerStrip u32
strip_byte_counts StripByteCounts u64s
min_sample_value MinSampleValue u16s
max_sample_value MaxSampleValue u16s
x_resolution XResolution ratio
y_resolution YResolution ratio
planar_configuration PlanarConfiguration planarconfiguration
resolution_unit ResolutionUnit resolutionunit
software Software string
date_time DateTime string
artist Artist string
host_computer HostComputer string
predictor Predictor predictor
color_map ColorMap u16s
tile_width TileWidth u32
tile_height TileLength u32
tile_offsets TileOffsets u64s
tile_byte_counts TileByteCounts u64s
extra_samples ExtraSamples extrasamples
sample_format SampleFormat sampleformat
jpeg_tables JPEGTables u8s
copyright Copyright string
model_pixel_scale ModelPixelScale f64s
model_tiepoint ModelTiepoint f64s
model_transformation ModelTransformation f64s
gdal_nodata GdalNodata string
gdal_metadata GdalMetadata string
lerc_parameters LercParameters u32s
document_name Unknown(269) string"""
FIELDS = [l.split() for l in FIELDS.split("\n")]
GEOSRC = [("GeoKeyDirectory", "u16s"), ("GeoAsciiParams", "string"), ("GeoDoubleParams", "f64s")]
REQUIRED = ("image_width", "image_height", "bits_per_sample", "photometric_interpretation", "samples_per_pixel")
ET = {"compression": "Compression", "photometricinterpretation": "PhotometricInterpretation", "planarconfiguration": "PlanarConfiguration", "resolutionunit": "ResolutionUnit",
      "predictor": "Predictor", "extrasamples": "ExtraSamples", "sampleformat": "SampleFormat"}

PRE = r"""
pub enum AsyncTiffError { EndOfFile(u64, u64), General(String), InternalTIFFError(TiffError) }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
impl From<TiffError> for AsyncTiffError { #[verifier::external_body] fn from(e: TiffError) -> Self { AsyncTiffError::InternalTIFFError(e) } }
/// `Arc<[u16]>`
pub struct VxArc<T> { pub v: Vec<T> }
impl<T> View for VxArc<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
#[verifier::external_body] pub fn vx_arc_from<T>(v: Vec<T>) -> (r: VxArc<T>) ensures r@ == v@, { unimplemented!() }
pub trait VxInto<T> { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
impl VxInto<AsyncTiffError> for TiffError { open spec fn into_ok(self, r: AsyncTiffError) -> bool { true } #[verifier::external_body] fn vx_into(self) -> (r: AsyncTiffError) { AsyncTiffError::InternalTIFFError(self) } }
impl VxInto<Bytes> for Vec<u8> { open spec fn into_ok(self, r: Bytes) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: Bytes) { unimplemented!() } }
// ---- text: characters, and where they are in the UTF-8 encoding (assumed contracts of std)
pub open spec fn blen(s: Seq<char>) -> int { vstd::utf8::encode_utf8(s).len() as int }
/// the byte offset of character i
pub open spec fn boff(s: Seq<char>, i: int) -> int { blen(s.subrange(0, i)) }
/// r is the text between two byte offsets
pub open spec fn part(s: Seq<char>, a: int, b: int, r: Seq<char>) -> bool { exists|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] boff(s, i) == a && #[trigger] boff(s, j) == b && r == s.subrange(i, j) }
/// both are offsets of characters (or the end)
pub open spec fn cut(s: Seq<char>, a: int, b: int) -> bool { exists|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] boff(s, i) == a && #[trigger] boff(s, j) == b }
pub trait VxStr {
    spec fn ssq(&self) -> Seq<char>;
    fn vx_ends_with(&self, c: char) -> (r: bool) ensures r == (self.ssq().len() > 0 && self.ssq().last() == c);
    fn vx_strip_suffix(&self, c: char) -> (r: Option<&str>) ensures match r { Some(t) => self.ssq().len() > 0 && self.ssq().last() == c && t@ == self.ssq().drop_last(), None => self.ssq().len() == 0 || self.ssq().last() != c };
    fn vx_sl(&self, a: usize, b: usize) -> (r: &str) requires cut(self.ssq(), a as int, b as int), ensures part(self.ssq(), a as int, b as int, r@);
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.ssq();
}
impl VxStr for str {
    open spec fn ssq(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_ends_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix(&self, c: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_sl(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub mod vx_lemmas_s {
use super::*;
use vstd::string::*;
/// no text is longer than the address space (assumed)
#[verifier::external_body] pub broadcast proof fn axiom_str_len(s: &str) ensures (#[trigger] s.spec_bytes()).len() <= usize::MAX, {}
/// a text that ends with '|' can be cut before it
pub broadcast proof fn lemma_bar(s: Seq<char>)
    requires s.len() > 0, #[trigger] s.last() == '|',
    ensures cut(s, 0, blen(s) - 1), part(s, 0, blen(s) - 1, s.drop_last()), blen(s) > 0,
        forall|r: Seq<char>| #[trigger] part(s, 0, blen(s) - 1, r) ==> r == s.drop_last(),
{
    vstd::utf8::encode_utf8_concat(s.drop_last(), seq![s.last()]);
    assert(s =~= s.drop_last() + seq![s.last()]);
    vstd::utf8::is_ascii_chars_encode_utf8(seq![s.last()]);
    vstd::utf8::is_ascii_chars_encode_utf8(s.subrange(0, 0));
    assert(s.subrange(0, s.len() - 1) =~= s.drop_last());
    assert(boff(s, 0) == 0 && boff(s, s.len() - 1) == blen(s) - 1);
    assert forall|r: Seq<char>| #[trigger] part(s, 0, blen(s) - 1, r) implies r == s.drop_last() by {
        let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] boff(s, i) == 0 && #[trigger] boff(s, j) == blen(s) - 1 && r == s.subrange(i, j);
        lemma_mono(s, 0, i);
        lemma_mono(s, s.len() - 1, j);
        lemma_mono(s, j, s.len() - 1);
    }
}
/// offsets of different characters are different
pub proof fn lemma_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(),
    ensures i < j ==> boff(s, i) < boff(s, j),
{ if i < j { vstd::utf8::lemma_encode_utf8_len_strictly_monotonic(s, i, j); } }
}
/// `.get(a..b)`
pub trait VxGet { type Out: ?Sized; spec fn got(&self, a: int, b: int, r: Option<&Self::Out>) -> bool; fn vx_get(&self, r: core::ops::Range<usize>) -> (o: Option<&Self::Out>) ensures self.got(r.start as int, r.end as int, o); }
impl VxGet for String { type Out = str; open spec fn got(&self, a: int, b: int, r: Option<&str>) -> bool { match r { Some(x) => part(self@, a, b, x@), None => !cut(self@, a, b) } }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::Range<usize>) -> (o: Option<&str>) { unimplemented!() } }
impl<T> VxGet for Vec<T> { type Out = [T]; open spec fn got(&self, a: int, b: int, r: Option<&[T]>) -> bool { match r { Some(x) => a <= b <= self@.len() && x@ == self@.subrange(a, b), None => !(a <= b <= self@.len()) } }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::Range<usize>) -> (o: Option<&[T]>) { unimplemented!() } }
/// `.chunks_exact(n)` used step by step
pub struct VxChunks<'a, T> { pub v: &'a Vec<T>, pub n: usize, pub at: Ghost<int> }
pub trait VxChunked<T> { fn vx_chunks_exact(&self, n: usize) -> (r: VxChunks<'_, T>) requires n > 0, ensures r.v@ == self.vsq2(), r.n == n, r.at@ == 0; spec fn vsq2(&self) -> Seq<T>; }
impl<T> VxChunked<T> for Vec<T> { open spec fn vsq2(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_chunks_exact(&self, n: usize) -> (r: VxChunks<'_, T>) { unimplemented!() } }
impl<'a, T> VxChunks<'a, T> {
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a [T]>)
        ensures final(self).v == old(self).v, final(self).n == old(self).n,
            r.is_some() == (old(self).at@ + old(self).n <= old(self).v@.len()),
            r.is_some() ==> r->0@ == old(self).v@.subrange(old(self).at@, old(self).at@ + old(self).n) && final(self).at@ == old(self).at@ + old(self).n,
            r.is_none() ==> final(self).at@ == old(self).at@,
    { unimplemented!() }
}
"""
FLD = r"""
/// the integers of a value
pub open spec fn wide(v: TagValue) -> Seq<int> { match v { TagValue::List(l) => flat(l@, l@.len() as int, false), _ => flat1(v, false)->0 } }
pub open spec fn fld_u32(o: Option<TagValue>, x: Option<u32>) -> bool { match o { Some(v) => x is Some && uval(v) == Some(x->0 as int), None => x is None } }
pub open spec fn fld_u16s(o: Option<TagValue>, x: Option<Seq<u16>>) -> bool { match o { Some(v) => x is Some && conv(v, ints(x->0), false), None => x is None } }
pub open spec fn fld_u32s(o: Option<TagValue>, x: Option<Seq<u32>>) -> bool { match o { Some(v) => x is Some && conv(v, ints(x->0), false), None => x is None } }
pub open spec fn fld_u64s(o: Option<TagValue>, x: Option<Seq<u64>>) -> bool { match o { Some(v) => x is Some && conv(v, ints(x->0), false), None => x is None } }
pub open spec fn fld_f64s(o: Option<TagValue>, x: Option<Seq<f64>>) -> bool { match o { Some(v) => x is Some && match v { TagValue::List(l) => x->0.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> #[trigger] l@[i] == TagValue::Double(x->0[i]), _ => x->0.len() == 1 && v == TagValue::Double(x->0[0]) }, None => x is None } }
pub open spec fn fld_u8s(o: Option<TagValue>, x: Option<Seq<u8>>) -> bool { match o { Some(v) => x is Some && match v { TagValue::List(l) => x->0.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> #[trigger] l@[i] == TagValue::Byte(x->0[i]), _ => x->0.len() == 1 && v == TagValue::Byte(x->0[0]) }, None => x is None } }
pub open spec fn fld_ratio(o: Option<TagValue>, x: Option<f64>) -> bool { match o { Some(v) => x is Some && v is Rational && x->0 == f64_div(f64_of(v->Rational_0 as u64), f64_of(v->Rational_1 as u64)), None => x is None } }
pub open spec fn fld_compression(o: Option<TagValue>, x: Option<Compression>) -> bool { match o { Some(v) => x is Some && in_u(u16val(v), 0xffff) && x->0 == compression_any(u16val(v)->0 as u16), None => x is None } }
pub open spec fn fld_extrasamples(o: Option<TagValue>, x: Option<Seq<ExtraSamples>>) -> bool { match o { Some(v) => x is Some && exists|w: Seq<u16>| #[trigger] conv(v, ints(w), false) && list_of(w, x->0, w.len() as int), None => x is None } }
pub open spec fn fld_sampleformat(o: Option<TagValue>, x: Option<Seq<SampleFormat>>) -> bool { match o { Some(v) => x is Some && exists|w: Seq<u16>| #[trigger] conv(v, ints(w), false) && list_of(w, x->0, w.len() as int), None => x is None } }
/// what one value of a list is converted to
pub trait VxConv<S>: Sized { spec fn of(self, s: S) -> bool; }
impl VxConv<u16> for ExtraSamples { open spec fn of(self, s: u16) -> bool { Some(self) == extrasamples_named(s as int) } }
impl VxConv<u16> for SampleFormat { open spec fn of(self, s: u16) -> bool { self == sampleformat_any(s) } }
impl VxConv<f64> for TagValue { open spec fn of(self, s: f64) -> bool { self == TagValue::Double(s) } }
/// x is the first n values converted
pub open spec fn list_of<S, T: VxConv<S>>(w: Seq<S>, x: Seq<T>, n: int) -> bool { x.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] x[i]).of(w[i]) }
pub open spec fn can_u32(v: TagValue) -> bool { in_u(uval(v), u32::MAX as int) }
pub open spec fn can_u16s(v: TagValue) -> bool { match v { TagValue::List(l) => forall|i: int| 0 <= i < l@.len() ==> in_u(u16val(#[trigger] l@[i]), 0xffff), _ => v is Byte || v is Short } }
pub open spec fn can_u32s(v: TagValue) -> bool { acc_u(v, u32::MAX as int) }
pub open spec fn can_u64s(v: TagValue) -> bool { acc_u(v, u64::MAX as int) }
pub open spec fn can_f64s(v: TagValue) -> bool { match v { TagValue::List(l) => forall|i: int| 0 <= i < l@.len() ==> #[trigger] l@[i] is Double, _ => v is Double } }
pub open spec fn can_u8s(v: TagValue) -> bool { match v { TagValue::List(l) => forall|i: int| 0 <= i < l@.len() ==> #[trigger] l@[i] is Byte, _ => v is Byte } }
pub open spec fn can_ratio(v: TagValue) -> bool { v is Rational }
pub open spec fn can_compression(v: TagValue) -> bool { can_u16(v) }
pub open spec fn can_sampleformat(v: TagValue) -> bool { can_u16s(v) }
/// every code is a known one
pub open spec fn can_extrasamples(v: TagValue) -> bool { can_u16s(v) && forall|w: Seq<u16>, i: int| #[trigger] conv(v, ints(w), false) && 0 <= i < w.len() ==> extrasamples_named(#[trigger] w[i] as int) is Some }
"""
for k in ("photometricinterpretation", "planarconfiguration", "resolutionunit", "predictor"):
    FLD += f"pub open spec fn fld_{k}(o: Option<TagValue>, x: Option<{ET[k]}>) -> bool {{ match o {{ Some(v) => u16val(v) is Some && x == {k}_named(u16val(v)->0), None => x is None }} }}\n"
    FLD += f"pub open spec fn can_{k}(v: TagValue) -> bool {{ can_u16(v) }}\n"
VIEWED = ("u16s", "u32s", "u64s", "f64s", "u8s", "extrasamples", "sampleformat")
FLD += "/// a field that is a list, as a sequence\npub open spec fn sq<T: View>(o: Option<T>) -> Option<T::V> { match o { Some(x) => Some(x@), None => None } }\n"


def x_of(f, t, e):
    """field expression as the argument of fld_t"""
    return f"sq({e})" if t in VIEWED else e


def result_field(f, t):
    e = f"d.{f}"
    if f == "planar_configuration":
        return "fld_planarconfiguration(get(m, Tag::PlanarConfiguration), Some(d.planar_configuration)) || (fld_planarconfiguration(get(m, Tag::PlanarConfiguration), None) && d.planar_configuration is Chunky)"
    if f == "compression":
        return "(if m.dom().contains(Tag::Compression) { fld_compression(get(m, Tag::Compression), Some(d.compression)) } else { d.compression is None })"
    if f == "sample_format":
        return "(if m.dom().contains(Tag::SampleFormat) { fld_sampleformat(get(m, Tag::SampleFormat), Some(d.sample_format@)) } else { d.sample_format@.len() == d.samples_per_pixel && forall|i: int| 0 <= i < d.sample_format@.len() ==> #[trigger] d.sample_format@[i] is Uint })"
    return None


IS = "".join(f"pub open spec fn is_{f}(m: Map<Tag, TagValue>, d: ImageFileDirectory) -> bool {{ " + (result_field(f, t) or f"fld_{t}(get(m, Tag::{k}), {('Some(d.%s%s)' % (f, '@' if t in VIEWED else '')) if f in REQUIRED else x_of(f, t, 'd.' + f)})") + " }\n" for f, k, t in FIELDS)
NAMED = FIELDS + [(None, k, t) for k, t in GEOSRC]
SPEC = f"""
/// tags with a field of their own
pub open spec fn has_field(t: Tag) -> bool {{ match t {{ {" | ".join("Tag::" + k for _, k, _ in NAMED)} => true, _ => false }} }}
/// the value has the type of its field
pub open spec fn tag_can(t: Tag, v: TagValue) -> bool {{ match t {{ {", ".join(f"Tag::{k} => can_{t}(v)" for _, k, t in NAMED)}, _ => true }} }}
/// the first n pairs without a field of their own
pub open spec fn others(s: Seq<(Tag, TagValue)>, n: int) -> Map<Tag, TagValue> decreases n {{ if n <= 0 {{ Map::empty() }} else if has_field(s[n - 1].0) {{ others(s, n - 1) }} else {{ others(s, n - 1).insert(s[n - 1].0, s[n - 1].1) }} }}
pub open spec fn other_tags_of(m: Map<Tag, TagValue>, o: Map<Tag, TagValue>) -> bool {{
    &&& (forall|t: Tag| #[trigger] o.dom().contains(t) <==> m.dom().contains(t) && !has_field(t))
    &&& (forall|t: Tag| #[trigger] o.dom().contains(t) ==> o[t] == m[t])
}}
// each field is exactly its tag
{IS}/// a required tag is missing or of no use
pub open spec fn lacking(m: Map<Tag, TagValue>) -> bool {{
    ||| !m.dom().contains(Tag::ImageWidth) || !m.dom().contains(Tag::ImageLength) || !m.dom().contains(Tag::SamplesPerPixel)
    ||| !m.dom().contains(Tag::BitsPerSample) || conv(m[Tag::BitsPerSample], seq![], false)
    ||| !m.dom().contains(Tag::PhotometricInterpretation) || photometricinterpretation_named(u16val(m[Tag::PhotometricInterpretation])->0) is None
}}
pub mod vx_lemmas_i {{
use super::*;
pub broadcast proof fn lemma_others(s: Seq<(Tag, TagValue)>, n: int)
    requires 0 <= n <= s.len(),
    ensures other_tags_of(mapped(s, n), #[trigger] others(s, n)),
    decreases n,
{{ if n > 0 {{ lemma_others(s, n - 1); }} }}
}}
"""
GEOSPEC = """
/// the key with a code
#[verifier::opaque]
pub open spec fn geo_named(c: int) -> Option<GeoKeyTag> { """ + " else ".join(f"if c == {c} {{ Some(GeoKeyTag::{k}) }}" for c, k, _, _ in KEYS) + r""" else { None } }
// entry i of a key directory: key, location, count, value or offset
pub open spec fn gk(g: Seq<u16>, i: int) -> int { g[4 + 4 * i] as int }
pub open spec fn gl(g: Seq<u16>, i: int) -> int { g[5 + 4 * i] as int }
pub open spec fn gc(g: Seq<u16>, i: int) -> int { g[6 + 4 * i] as int }
pub open spec fn go(g: Seq<u16>, i: int) -> int { g[7 + 4 * i] as int }
/// it gives the value of a known key
pub open spec fn says(g: Seq<u16>, i: int) -> bool { geo_named(gk(g, i)) is Some && (gl(g, i) == 0 || gl(g, i) == 34736 || gl(g, i) == 34737) }
pub open spec fn nobar(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '|' { s.drop_last() } else { s } }
/// v is the value it refers to
pub open spec fn said(g: Seq<u16>, i: int, a: Option<Seq<char>>, d: Option<Seq<f64>>, v: TagValue) -> bool {
    if gl(g, i) == 0 { v == TagValue::Short(g[7 + 4 * i]) }
    else if gl(g, i) == 34737 { a is Some && v is Ascii && exists|r: Seq<char>| #[trigger] part(a->0, go(g, i), go(g, i) + gc(g, i), r) && v->Ascii_0@ == nobar(r) }
    else {
        &&& d is Some && go(g, i) + gc(g, i) <= d->0.len()
        &&& if gc(g, i) == 1 { v == TagValue::Double(d->0[go(g, i)]) } else { v is List && v->List_0@.len() == gc(g, i) && forall|j: int| 0 <= j < gc(g, i) ==> #[trigger] v->List_0@[j] == TagValue::Double(d->0[go(g, i) + j]) }
    }
}
/// m holds what the first n entries say; of entries with the same key, the last one
#[verifier::opaque]
pub open spec fn keys_upto(g: Seq<u16>, a: Option<Seq<char>>, d: Option<Seq<f64>>, m: Map<GeoKeyTag, TagValue>, n: int) -> bool {
    &&& (forall|i: int| 0 <= i < n && #[trigger] says(g, i) ==> m.dom().contains(geo_named(gk(g, i))->0))
    &&& (forall|k: GeoKeyTag| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < n && #[trigger] says(g, i) && geo_named(gk(g, i))->0 == k && said(g, i, a, d, m[k]) && forall|j: int| i < j < n && #[trigger] says(g, j) ==> geo_named(gk(g, j))->0 != k)
}
pub proof fn lemma_keys_step(g: Seq<u16>, a: Option<Seq<char>>, d: Option<Seq<f64>>, p: Map<GeoKeyTag, TagValue>, m: Map<GeoKeyTag, TagValue>, n: int)
    requires keys_upto(g, a, d, p, n), 0 <= n,
        (m == p && !says(g, n)) || (says(g, n) && m == p.insert(geo_named(gk(g, n))->0, m[geo_named(gk(g, n))->0]) && said(g, n, a, d, m[geo_named(gk(g, n))->0])),
    ensures keys_upto(g, a, d, m, n + 1),
{
    reveal(keys_upto);
    assert forall|c: GeoKeyTag| #[trigger] m.dom().contains(c) implies exists|i: int| 0 <= i < n + 1 && #[trigger] says(g, i) && geo_named(gk(g, i))->0 == c && said(g, i, a, d, m[c]) && forall|j: int| i < j < n + 1 && #[trigger] says(g, j) ==> geo_named(gk(g, j))->0 != c by {
        if says(g, n) && c == geo_named(gk(g, n))->0 { assert(says(g, n)); }
        else {
            assert(p.dom().contains(c));
            let i = choose|i: int| 0 <= i < n && #[trigger] says(g, i) && geo_named(gk(g, i))->0 == c && said(g, i, a, d, p[c]) && forall|j: int| i < j < n && #[trigger] says(g, j) ==> geo_named(gk(g, j))->0 != c;
            assert(says(g, i));
        }
    }
}
pub open spec fn chars_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// the key directory, the text and the doubles of the tags
#[verifier::opaque]
pub open spec fn geo_src(m: Map<Tag, TagValue>, g: Seq<u16>, a: Option<Seq<char>>, d: Option<Seq<f64>>) -> bool {
    &&& fld_u16s(get(m, Tag::GeoKeyDirectory), Some(g))
    &&& match get(m, Tag::GeoAsciiParams) { Some(v) => v is Ascii && a == Some(v->Ascii_0@), None => a is None }
    &&& fld_f64s(get(m, Tag::GeoDoubleParams), d)
}
/// d is the key directory of the tags
pub open spec fn geo_of(m: Map<Tag, TagValue>, d: Option<GeoKeyDirectory>) -> bool {
    match d {
        None => !m.dom().contains(Tag::GeoKeyDirectory),
        Some(d) => exists|g: Seq<u16>, a: Option<Seq<char>>, f: Option<Seq<f64>>, k: Map<GeoKeyTag, TagValue>| #[trigger] keys_upto(g, a, f, k, g[3] as int) && geo_src(m, g, a, f) && g.len() >= 4 + 4 * g[3] && g[0] == 1 && g[1] == 1 && geo_is(k, d),
    }
}
/// what entry i refers to exists
#[verifier::opaque]
pub open spec fn refers(g: Seq<u16>, i: int, a: Option<Seq<char>>, d: Option<Seq<f64>>) -> bool {
    geo_named(gk(g, i)) is Some ==> {
        &&& (gl(g, i) == 34737 ==> a is Some && cut(a->0, go(g, i), go(g, i) + gc(g, i)))
        &&& (gl(g, i) == 34736 ==> d is Some && go(g, i) + gc(g, i) <= d->0.len())
    }
}
pub proof fn lemma_refers(g: Seq<u16>, i: int, a: Option<Seq<char>>, d: Option<Seq<f64>>)
    ensures refers(g, i, a, d) == (geo_named(gk(g, i)) is Some ==> (gl(g, i) == 34737 ==> a is Some && cut(a->0, go(g, i), go(g, i) + gc(g, i))) && (gl(g, i) == 34736 ==> d is Some && go(g, i) + gc(g, i) <= d->0.len())),
{ reveal(refers); }
pub open spec fn geo_there(g: Seq<u16>, a: Option<Seq<char>>, d: Option<Seq<f64>>) -> bool {
    &&& g.len() >= 4 && g[0] == 1 && g[1] == 1 && g.len() >= 4 + 4 * g[3]
    &&& (forall|i: int| 0 <= i < g[3] ==> #[trigger] refers(g, i, a, d))
    &&& (forall|m: Map<GeoKeyTag, TagValue>, k: GeoKeyTag| #[trigger] keys_upto(g, a, d, m, g[3] as int) && #[trigger] m.dom().contains(k) ==> geo_can(k, m[k]))
}
pub open spec fn bad_geo(m: Map<Tag, TagValue>) -> bool { exists|g: Seq<u16>, a: Option<Seq<char>>, d: Option<Seq<f64>>| #[trigger] geo_src(m, g, a, d) && !geo_there(g, a, d) }
pub mod vx_lemmas_g {
use super::*;
pub broadcast proof fn lemma_geo_src(s: Seq<(Tag, TagValue)>, n: int, g: Option<Seq<u16>>, a: Option<String>, d: Option<Seq<f64>>)
    requires 0 <= n <= s.len(), g is Some, #[trigger] fld_u16s(look(s, n, Tag::GeoKeyDirectory), g), #[trigger] fld_string(look(s, n, Tag::GeoAsciiParams), a), #[trigger] fld_f64s(look(s, n, Tag::GeoDoubleParams), d),
    ensures geo_src(mapped(s, n), g->0, chars_of(a), d),
{ reveal(geo_src); lemma_look(s, n, Tag::GeoKeyDirectory); lemma_look(s, n, Tag::GeoAsciiParams); lemma_look(s, n, Tag::GeoDoubleParams); }
pub proof fn lemma_look(s: Seq<(Tag, TagValue)>, n: int, k: Tag)
    requires 0 <= n <= s.len(),
    ensures look(s, n, k) == get(mapped(s, n), k),
    decreases n,
{ if n > 0 { lemma_look(s, n - 1, k); } }
pub broadcast proof fn lemma_keys_base(g: Seq<u16>, a: Option<Seq<char>>, d: Option<Seq<f64>>, m: Map<GeoKeyTag, TagValue>, n: int)
    ensures n == 0 && m == Map::<GeoKeyTag, TagValue>::empty() ==> #[trigger] keys_upto(g, a, d, m, n),
{ reveal(keys_upto); }
/// the tags that say where a value is
pub broadcast proof fn lemma_tag_codes(c: u16)
    ensures (#[trigger] tag_any(c) == Tag::GeoAsciiParams) == (c == 34737), (tag_any(c) == Tag::GeoDoubleParams) == (c == 34736),
{ reveal(tag_named); }
pub broadcast proof fn lemma_geo_codes(c: u16)
    ensures #[trigger] geo_key_src(c) == geo_named(c as int),
{ reveal(geo_named); reveal(geo_key_src); }
}
"""
KINDS = ["Tag", "Compression", "PhotometricInterpretation", "PlanarConfiguration", "ResolutionUnit", "Predictor", "ExtraSamples", "SampleFormat"]


def geo_codes(ext):
    ms = ext["types"]["GeoKeyTag"]["members"]
    body = " else ".join(f"if c == {m['disc']} {{ Some(GeoKeyTag::{m['name']}) }}" for m in ms if m["disc"])
    return f"""
/// `GeoKeyTag::try_from_primitive` as num_enum derives it from the discriminants in the source
#[verifier::opaque]
pub open spec fn geo_key_src(c: u16) -> Option<GeoKeyTag> {{ {body} else {{ None }} }}
#[verifier::external_body] pub fn vx_geo_key(c: u16) -> (r: Result<GeoKeyTag, u16>) ensures match r {{ Ok(t) => geo_key_src(c) == Some(t), Err(_) => geo_key_src(c) is None }}, {{ unimplemented!() }}
impl GeoKeyDirectory {{
    /// verified in unit geo
    #[verifier::external_body] pub fn from_tags(m: VxMap<GeoKeyTag, TagValue>) -> (r: TiffResult<GeoKeyDirectory>)
        ensures r.is_ok() ==> geo_is(m@, r->Ok_0), r.is_err() ==> exists|k: GeoKeyTag| #[trigger] m@.dom().contains(k) && !geo_can(k, m@[k]),
    {{ unimplemented!() }}
}}
"""


def make(name):
    U = Unit(name, prelude=["base", "ints", "tifferr", "maps", "buf", "floats"], pre_types=PRE,
             types={**TYPES, **{k: {"derive": D} for k in KINDS}, "Endianness": {"derive": D}, "GeoKeyTag": {"derive": D}, "GeoKeyDirectory": {"derive": []}, "ImageFileDirectory": {"derive": []}},
             consts=["DOCUMENT_NAME"], spec=TV.UNIT.spec + FIELD + GEO + enum_spec(KINDS) + FLD + SPEC + GEOSPEC, rlimit=100)
    U.broadcast += [*TV.UNIT.broadcast, "vx_lemmas_s::axiom_str_len", "vx_lemmas_s::lemma_bar"]
    U.alloc_limit = 65536
    U.rename_paths.update({"Vec::with_capacity": "vx_vec_cap", "HashMap::with_capacity": "VxMap::with_capacity", "HashMap::new": "VxMap::new", "Arc::from": "vx_arc_from", "GeoKeyTag::try_from_primitive": "vx_geo_key"})
    U.rename_types.update({"HashMap": "VxMap", "Arc<[u16]>": "VxArc<u16>"})
    U.rename_methods.update({"into": "vx_into", "to_string": "vx_to_string", "ends_with": "vx_ends_with", "strip_suffix": "vx_strip_suffix", "get": "vx_get", "chunks_exact": "vx_chunks_exact"})
    U.extra_contracted += ["GeoKeyDirectory::from_tags"]
    U.gen_spec = geo_codes
    for f in TV.U.fns:
        U.fn(f.spec, f.props, trusted="@tag_value", ensures=f.ensures)
    for k in KINDS:
        n = k.lower()
        if ENUMS[k][1]:
            U.fn(k + "::from_u16_exhaustive", ["C13"], trusted="@tags", ensures=[f"$r == {n}_any($0)"])
        U.fn(k + "::from_u16", ["C13"], trusted="@tags", ensures=[f"$r == {n}_named($0 as int)"])
    return U


UNIT = U = make("ifd")
U.broadcast += ["vx_lemmas_i::lemma_others"]
U.fn("ImageFileDirectory::from_tags", ["C13", "C23"], ensures=[
    ("C13:endianness", "$r.is_ok() ==> $r->Ok_0.endianness == $1"),
    ("C13:bits-per-sample-not-empty", "$r.is_ok() ==> $r->Ok_0.bits_per_sample@.len() > 0"),
    *[(f"C13:field-{f}", f"$r.is_ok() ==> is_{f}($0@, $r->Ok_0)") for f, _, _ in FIELDS],
    ("C13:other-tags-are-kept", "$r.is_ok() ==> other_tags_of($0@, $r->Ok_0.other_tags@)")],
    inv=["%n <= %q@.len()", "%n <= %e", "%v{other_tags}@ == others(%q@, %n as int)", "%s.n == 4 && %s.at@ >= 0", "list_of(%q@, %a@, %n as int)"] +
        [f"fld_{t}(look(%q@, %n as int, Tag::{k}), {x_of(f, t, '%v{' + f + '}')})" for f, k, t in FIELDS])
