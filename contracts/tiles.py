from vlib.verify import Unit
from contracts.data_type import D
import contracts.data_type as DT
from contracts.ifd import PRE as IPRE
import re

KINDS = ["Tag", "Compression", "PhotometricInterpretation", "PlanarConfiguration", "ResolutionUnit", "Predictor", "ExtraSamples", "SampleFormat", "DataType", "Endianness", "Type"]
PRE = r"""
pub enum AsyncTiffError { EndOfFile(u64, u64), General(String), InternalTIFFError(TiffError) }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
pub struct VxArc<T> { pub v: Vec<T> }
pub trait VxStr { fn vx_to_string(&self) -> (r: String); }
impl VxStr for str { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub struct GeoKeyDirectory { pub x: u8 }
/// `Vec::into_iter` used step by step
pub struct VxIter<T> { pub all: Ghost<Seq<T>>, pub at: Ghost<int> }
pub trait VxIterable: Sized { type Item; spec fn items(self) -> Seq<Self::Item>; fn vx_iter(self) -> (r: VxIter<Self::Item>) ensures r.all@ == self.items(), r.at@ == 0; }
impl<T> VxIterable for Vec<T> { type Item = T; open spec fn items(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T> VxIter<T> {
    pub open spec fn left(&self) -> int { self.all@.len() - self.at@ }
    #[verifier::external_body] pub fn vx_take(&mut self, n: usize) -> (r: Vec<T>)
        ensures final(self).all == old(self).all, r@.len() == (if n <= old(self).left() { n as int } else { old(self).left() }), final(self).at@ == old(self).at@ + r@.len(), r@ == old(self).all@.subrange(old(self).at@, old(self).at@ + r@.len()),
    { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).all == old(self).all, r is Some == (old(self).left() > 0), r is Some ==> r->0 == old(self).all@[old(self).at@] && final(self).at@ == old(self).at@ + 1, r is None ==> final(self).at@ == old(self).at@,
    { unimplemented!() }
}
pub trait VxDeref { type Out: ?Sized; spec fn derefs(&self, r: Option<&Self::Out>) -> bool; fn vx_as_deref(&self) -> (r: Option<&Self::Out>) ensures self.derefs(r); }
impl<T> VxDeref for Option<Vec<T>> { type Out = [T]; open spec fn derefs(&self, r: Option<&[T]>) -> bool { r is Some == *self is Some && (r is Some ==> r->0@ == self->0@) } #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&[T]>) { unimplemented!() } }
impl VxDeref for Option<String> { type Out = str; open spec fn derefs(&self, r: Option<&str>) -> bool { r is Some == *self is Some && (r is Some ==> r->0@ == self->0@) } #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
impl VxDeref for Option<Bytes> { type Out = [u8]; open spec fn derefs(&self, r: Option<&[u8]>) -> bool { r is Some == *self is Some && (r is Some ==> r->0@ == self->0@) } #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&[u8]>) { unimplemented!() } }
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for Option<Bytes> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for Option<Vec<u32>> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for Bytes { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for Range<u64> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
/// A reader, whatever it answers: the predicates tie a request to the answer it got.
pub trait AsyncFileReader {
    spec fn gave(&self, q: core::ops::Range<u64>, a: AsyncTiffResult<Bytes>) -> bool;
    spec fn gave_all(&self, q: Seq<core::ops::Range<u64>>, a: AsyncTiffResult<Vec<Bytes>>) -> bool;
    fn get_bytes(&self, q: core::ops::Range<u64>) -> (a: AsyncTiffResult<Bytes>) ensures self.gave(q, a);
    fn get_byte_ranges(&self, q: Vec<core::ops::Range<u64>>) -> (a: AsyncTiffResult<Vec<Bytes>>) ensures self.gave_all(q@, a);
}
"""
SPEC = DT.SPEC + r"""
pub type Rg = core::ops::Range<u64>;
pub open spec fn cdiv(a: int, b: int) -> int { (a + b - 1) / b }
pub open spec fn tiled(d: ImageFileDirectory) -> bool { d.tile_width is Some && d.tile_height is Some && d.tile_width->0 > 0 && d.tile_height->0 > 0 }
/// tiles per row, and rows of tiles
pub open spec fn gx(d: ImageFileDirectory) -> int { cdiv(d.image_width as int, d.tile_width->0 as int) }
pub open spec fn gy(d: ImageFileDirectory) -> int { cdiv(d.image_height as int, d.tile_height->0 as int) }
pub open spec fn within(d: ImageFileDirectory, x: int, y: int) -> bool { tiled(d) && x < gx(d) && y < gy(d) && d.tile_offsets is Some && d.tile_byte_counts is Some }
/// where band b of tile (x, y) is in the tables
pub open spec fn tix(d: ImageFileDirectory, x: int, y: int, b: int) -> int { b * (gx(d) * gy(d)) + (y * gx(d) + x) }
pub open spec fn has(d: ImageFileDirectory, i: int) -> bool { i < d.tile_offsets->0@.len() && i < d.tile_byte_counts->0@.len() && d.tile_offsets->0@[i] + d.tile_byte_counts->0@[i] <= u64::MAX }
pub open spec fn is_at(d: ImageFileDirectory, i: int, r: Rg) -> bool { has(d, i) && r.start == d.tile_offsets->0@[i] && r.end == d.tile_offsets->0@[i] + d.tile_byte_counts->0@[i] }
pub open spec fn bands(d: ImageFileDirectory) -> int { if d.planar_configuration is Planar { d.samples_per_pixel as int } else { 1 } }
/// q are the ranges of bands 0..n of tile (x, y)
pub open spec fn at_all(d: ImageFileDirectory, x: int, y: int, q: Seq<Rg>, n: int) -> bool { q.len() == n && forall|b: int| 0 <= b < n ==> is_at(d, tix(d, x, y, b), #[trigger] q[b]) }
/// tile (x, y) has ranges
pub open spec fn ranged(d: ImageFileDirectory, x: int, y: int) -> bool { within(d, x, y) && forall|b: int| 0 <= b < bands(d) ==> has(d, #[trigger] tix(d, x, y, b)) }
pub open spec fn rng_of(d: ImageFileDirectory, x: int, y: int, r: TileByteRange) -> bool {
    &&& within(d, x, y)
    &&& match r { TileByteRange::Chunky(r) => d.planar_configuration is Chunky && is_at(d, tix(d, x, y, 0), r), TileByteRange::Planar(q) => d.planar_configuration is Planar && at_all(d, x, y, q@, bands(d)) }
}
/// the parameters of a tile
pub open spec fn tile_of(d: ImageFileDirectory, x: int, y: int, t: Tile) -> bool {
    &&& t.x == x && t.y == y && t.data_type == dt_of(d.sample_format@, d.bits_per_sample@)
    &&& t.samples_per_pixel == d.samples_per_pixel && t.bits_per_sample == d.bits_per_sample@[0] && t.endianness == d.endianness
    &&& t.width == (if d.tile_width is Some { d.tile_width->0 } else { d.image_width }) && t.height == (if d.tile_height is Some { d.tile_height->0 } else { d.image_height })
    &&& t.planar_configuration == d.planar_configuration && t.predictor == (if d.predictor is Some { d.predictor->0 } else { Predictor::None })
    &&& t.compression_method == d.compression && t.photometric_interpretation == d.photometric_interpretation
    &&& t.jpeg_tables == d.jpeg_tables && t.lerc_parameters == d.lerc_parameters
}
/// concatenation of the first n lists, and where the n-th begins
pub open spec fn flatn<T>(v: Seq<Vec<T>>, n: int) -> Seq<T> decreases n { if n <= 0 { seq![] } else { flatn(v, n - 1) + v[n - 1]@ } }
pub open spec fn pos<T>(v: Seq<Vec<T>>, n: int) -> int decreases n { if n <= 0 { 0 } else { pos(v, n - 1) + v[n - 1]@.len() } }
pub open spec fn lens_of<T>(v: Seq<Vec<T>>, w: Seq<usize>, n: int) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] w[i] == v[i]@.len() }
/// c is the answer to the ranges of one tile, which are a's at position p
pub open spec fn part_of(c: CompressedBytes, a: Seq<Bytes>, p: int, n: int) -> bool { c is Planar && c->Planar_0@.len() == n && forall|b: int| 0 <= b < n ==> #[trigger] c->Planar_0@[b] == a[p + b] }
/// the single request for the ranges of several tiles
pub open spec fn asked(r: TilesByteRanges) -> Seq<Rg> { match r { TilesByteRanges::Chunky(v) => v@, TilesByteRanges::Planar(v) => flatn(v@, v@.len() as int) } }
pub open spec fn count_of(r: TilesByteRanges) -> int { match r { TilesByteRanges::Chunky(v) => v@.len() as int, TilesByteRanges::Planar(v) => v@.len() as int } }
pub open spec fn answer_of(r: TilesByteRanges, a: Seq<Bytes>, c: Seq<CompressedBytes>) -> bool {
    match r {
        TilesByteRanges::Chunky(v) => c.len() == a.len() && forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == CompressedBytes::Chunky(a[i]),
        TilesByteRanges::Planar(v) => c.len() == v@.len() && (a.len() == asked(r).len() ==> forall|i: int| 0 <= i < c.len() ==> part_of(#[trigger] c[i], a, pos(v@, i), v@[i]@.len() as int)),
    }
}
/// the ranges of each of the tiles
pub open spec fn rngs_of(d: ImageFileDirectory, xy: Seq<(usize, usize)>, r: TilesByteRanges) -> bool {
    match r {
        TilesByteRanges::Chunky(v) => d.planar_configuration is Chunky && v@.len() == xy.len() && forall|i: int| 0 <= i < xy.len() ==> rng_of(d, xy[i].0 as int, xy[i].1 as int, TileByteRange::Chunky(#[trigger] v@[i])),
        TilesByteRanges::Planar(v) => d.planar_configuration is Planar && v@.len() == xy.len() && forall|i: int| 0 <= i < xy.len() ==> rng_of(d, xy[i].0 as int, xy[i].1 as int, TileByteRange::Planar(#[trigger] v@[i])),
    }
}
pub open spec fn fetched<R: AsyncFileReader>(rd: R, r: TileByteRange, c: CompressedBytes) -> bool {
    match r {
        TileByteRange::Chunky(q) => exists|a: Bytes| #[trigger] rd.gave(q, Ok(a)) && c == CompressedBytes::Chunky(a),
        TileByteRange::Planar(q) => exists|a: Vec<Bytes>| #[trigger] rd.gave_all(q@, Ok(a)) && c is Planar && c->Planar_0@ == a@,
    }
}
pub open spec fn refused<R: AsyncFileReader>(rd: R, r: TileByteRange) -> bool {
    match r {
        TileByteRange::Chunky(q) => exists|e: AsyncTiffError| #[trigger] rd.gave(q, Err(e)),
        TileByteRange::Planar(q) => exists|e: AsyncTiffError| #[trigger] rd.gave_all(q@, Err(e)),
    }
}
pub mod vx_lemmas_x {
use super::*;
/// IEEE 754 double division of two 32-bit integers, rounded up (lemmas/ceil_div.v)
#[verifier::external_body]
pub broadcast proof fn axiom_ceil(a: u64, b: u64)
    requires 0 <= a <= u32::MAX, 0 < b <= u32::MAX,
    ensures #[trigger] usize_of(f64_ceil(f64_div(f64_of(a), f64_of(b)))) as int == cdiv(a as int, b as int),
{}
}
pub proof fn lemma_pos<T>(v: Seq<Vec<T>>, i: int, n: int)
    requires 0 <= i <= n <= v.len(),
    ensures flatn(v, n).len() == pos(v, n), 0 <= pos(v, i), pos(v, i) <= pos(v, n), i < n ==> pos(v, i) + v[i]@.len() <= pos(v, n),
        i < n ==> forall|b: int| 0 <= b < v[i]@.len() ==> #[trigger] flatn(v, n)[pos(v, i) + b] == v[i]@[b],
    decreases n,
{
    if n > 0 { if i < n { lemma_pos(v, i, n - 1); } else { lemma_pos(v, n - 1, n - 1); } }
}
/// With a reader that answers a list of ranges as it answers each of them (C18), every tile of fetch_tiles has the bytes fetch_tile would have fetched for it.
pub open spec fn agrees<R: AsyncFileReader>(rd: R) -> bool { forall|q: Seq<Rg>, a: Vec<Bytes>| #[trigger] rd.gave_all(q, Ok(a)) ==> a@.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> rd.gave(#[trigger] q[i], Ok(a@[i])) }
pub open spec fn bytes_of<R: AsyncFileReader>(rd: R, r: TileByteRange, c: CompressedBytes) -> bool {
    match r {
        TileByteRange::Chunky(q) => c is Chunky && rd.gave(q, Ok(c->Chunky_0)),
        TileByteRange::Planar(q) => c is Planar && c->Planar_0@.len() == q@.len() && forall|b: int| 0 <= b < q@.len() ==> rd.gave(#[trigger] q@[b], Ok(c->Planar_0@[b])),
    }
}
pub proof fn lemma_same_bytes<R: AsyncFileReader>(rd: R, d: ImageFileDirectory, xy: Seq<(usize, usize)>, q: TilesByteRanges, a: Vec<Bytes>, c: Seq<CompressedBytes>, i: int)
    requires agrees(rd), rngs_of(d, xy, q), rd.gave_all(asked(q), Ok(a)), answer_of(q, a@, c), 0 <= i < xy.len(),
    ensures c.len() == xy.len(), exists|r: TileByteRange| rng_of(d, xy[i].0 as int, xy[i].1 as int, r) && #[trigger] bytes_of(rd, r, c[i]),
{
    match q {
        TilesByteRanges::Chunky(v) => { assert(asked(q)[i] == v@[i]); assert(bytes_of(rd, TileByteRange::Chunky(v@[i]), c[i])); }
        TilesByteRanges::Planar(v) => {
            lemma_asked(q); lemma_pos(v@, i, v@.len() as int);
            let r = TileByteRange::Planar(v@[i]);
            assert forall|b: int| 0 <= b < v@[i]@.len() implies rd.gave(#[trigger] v@[i]@[b], Ok(c[i]->Planar_0@[b])) by { let p = pos(v@, i) + b; assert(asked(q)[p] == v@[i]@[b]); assert(rd.gave(asked(q)[p], Ok(a@[p]))); }
            assert(bytes_of(rd, r, c[i]));
        }
    }
}
pub proof fn lemma_same_bytes1<R: AsyncFileReader>(rd: R, r: TileByteRange, c: CompressedBytes)
    requires agrees(rd), fetched(rd, r, c), ensures bytes_of(rd, r, c),
{}
pub proof fn lemma_tix_forms(b: int, p: int, q: int, y: int) ensures b * (p * q) + y * p == (b * q + y) * p, b * p * q == b * (p * q), b * q * p == b * (p * q), {
    vstd::arithmetic::mul::lemma_mul_is_commutative(p, q);
    vstd::arithmetic::mul::lemma_mul_is_associative(b, q, p);
    vstd::arithmetic::mul::lemma_mul_is_associative(b, p, q);
    vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(p, b * q, y);
}
pub proof fn lemma_tix_pos(b: int, p: int, q: int, y: int) requires b >= 0, p > 0, q > 0, y >= 0, ensures 0 <= b * q <= b * q + y <= (b * q + y) * p, 0 <= b * p <= b * p * q, 0 <= y * p {
    vstd::arithmetic::mul::lemma_mul_nonnegative(b, q);
    vstd::arithmetic::mul::lemma_mul_nonnegative(b, p);
    vstd::arithmetic::mul::lemma_mul_nonnegative(y, p);
    vstd::arithmetic::mul::lemma_mul_inequality(1, p, b * q + y);
    vstd::arithmetic::mul::lemma_mul_inequality(1, q, b * p);
    vstd::arithmetic::mul::lemma_mul_is_commutative(p, b * q + y);
    vstd::arithmetic::mul::lemma_mul_is_commutative(q, b * p);
}
pub proof fn lemma_tix(d: ImageFileDirectory, x: int, y: int, b: int) ensures tix(d, x, y, b) == b * (gx(d) * gy(d)) + (y * gx(d) + x), tix(d, x, y, b) == (b * gy(d) + y) * gx(d) + x, tix(d, x, y, b) == b * gx(d) * gy(d) + y * gx(d) + x, tix(d, x, y, b) == b * gy(d) * gx(d) + y * gx(d) + x, b >= 0 && 0 <= x < gx(d) && 0 <= y < gy(d) ==> 0 <= b * gy(d) <= b * gy(d) + y <= (b * gy(d) + y) * gx(d) <= tix(d, x, y, b) && 0 <= b * gx(d) <= b * gx(d) * gy(d) <= tix(d, x, y, b), d.tile_offsets is Some ==> d.tile_offsets->0@.len() <= usize::MAX, { lemma_tix_forms(b, gx(d), gy(d), y); if b >= 0 && 0 <= x < gx(d) && 0 <= y < gy(d) { lemma_tix_pos(b, gx(d), gy(d), y); } if d.tile_offsets is Some { assert(d.tile_offsets->0.len() == d.tile_offsets->0@.len()); } }
pub proof fn lemma_asked(r: TilesByteRanges) ensures r is Planar ==> asked(r) == flatn(r->Planar_0@, r->Planar_0@.len() as int) && asked(r).len() == pos(r->Planar_0@, r->Planar_0@.len() as int), { if r is Planar { lemma_pos(r->Planar_0@, 0, r->Planar_0@.len() as int); } }
pub proof fn lemma_cdiv(a: int, b: int)
    requires 0 <= a, b > 0,
    ensures 0 <= cdiv(a, b) <= a,
{
    let n = a + b - 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, b);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, b);
    let q = n / b;
    if q > a { vstd::arithmetic::mul::lemma_mul_inequality(a + 1, q, b); vstd::arithmetic::mul::lemma_mul_is_commutative(q, b); vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(b, a, 1); vstd::arithmetic::mul::lemma_mul_inequality(1, b, a); vstd::arithmetic::mul::lemma_mul_is_commutative(b, a); }
}
pub proof fn lemma_grid(d: ImageFileDirectory, x: int, y: int)
    requires x >= 0, y >= 0,
    ensures tiled(d) ==> 0 <= gx(d) <= u32::MAX && 0 <= gy(d) <= u32::MAX && 0 <= gx(d) * gy(d) <= usize::MAX,
        tiled(d) && x < gx(d) && y < gy(d) ==> 0 <= y * gx(d) <= y * gx(d) + x < gx(d) * gy(d),
        tix(d, x, y, 0) == y * gx(d) + x,
{
    if tiled(d) {
        let (w, t, h, u) = (d.image_width as int, d.tile_width->0 as int, d.image_height as int, d.tile_height->0 as int);
        lemma_cdiv(w, t);
        lemma_cdiv(h, u);
        let (p, q) = (gx(d), gy(d));
        assert(0 <= p * q <= 0xffffffff * 0xffffffff) by (nonlinear_arith) requires 0 <= p <= 0xffffffff, 0 <= q <= 0xffffffff;
        if x < p && y < q { assert(0 <= y * p && y * p + p <= p * q) by (nonlinear_arith) requires 0 <= y <= q - 1, 0 <= p; }
    }
    assert(0 * (gx(d) * gy(d)) == 0);
}
"""
UNIT = U = Unit("tiles", prelude=["base", "ints", "tifferr", "maps", "buf", "floats"], pre_types=PRE,
                types={**{k: {"derive": D} for k in KINDS}, "ImageFileDirectory": {"derive": []}, "TileByteRange": {"derive": []}, "TilesByteRanges": {"derive": []}, "CompressedBytes": {"derive": []}, "TagValue": {"derive": []}, "TiffFormatError": {"derive": []}, "Tile": {"derive": []}},
                spec=SPEC, rlimit=30, uses="use core::ops::Range;", code_uses="use core::ops::Range;")
U.broadcast += ["vx_lemmas_x::axiom_ceil", "vstd::arithmetic::mul::lemma_mul_is_commutative"]
U.lemmas = {"axiom_ceil": "lemmas/ceil_div.v"}
U.rename_methods.update({"into_iter": "vx_iter", "to_string": "vx_to_string", "as_deref": "vx_as_deref", "clone": "vx_clone"})
U.rename_types.update({"HashMap": "VxMap", "Arc<[u16]>": "VxArc<u16>"})
P = ["C15", "C24"]
V = "$in0->Planar_0@"
RD = dict(generics="<R: AsyncFileReader>")
U.fn("DataType::from_tags", ["C06"], trusted="@data_type", ensures=["$r == dt_of($0@, $1@)"])
U.fn("ImageFileDirectory::tile_count", P, entry=["lemma_grid(*$0, 0, 0);"], ensures=[
    ("C15:size-divided-and-rounded-up", "match $r { Some((x, y)) => tiled(*$0) && x as int == gx(*$0) && y as int == gy(*$0), None => !tiled(*$0) }")])
U.fn("TileByteRange::from_ifd_tile", P, entry=["lemma_grid(*$0, $1 as int, $2 as int);"], ensures=[
    ("C15:entries-of-the-tables", "$r is Some ==> rng_of(*$0, $1 as int, $2 as int, $r->0)"),
    ("C15:none-only-if-there-is-none", "$r is None ==> !ranged(*$0, $1 as int, $2 as int)")],
    start=["lemma_tix(*$0, $1 as int, $2 as int, %n as int);"], inv=["%n <= %e", "at_all(*$0, $1 as int, $2 as int, %a@, %i as int)"])
U.fn("TilesByteRanges::from_ifd_tiles", ["C16", "C24"], ensures=[
    ("C16:ranges-of-each-tile", "$r is Some ==> rngs_of(*$0, $1@, $r->0)"),
    ("C16:none-only-if-one-has-none", "$r is None ==> exists|i: int| 0 <= i < $1@.len() && !ranged(*$0, (#[trigger] $1@[i]).0 as int, $1@[i].1 as int)")],
    inv=["%n <= %e", "%n <= $1@.len()", "%a@.len() == %n", "forall|vj: int| 0 <= vj < %n ==> rng_of(*$0, $1@[vj].0 as int, $1@[vj].1 as int, #[trigger] %a@[vj])",
         "forall|vj: int| 0 <= vj < %n ==> rng_of(*$0, $1@[vj].0 as int, $1@[vj].1 as int, TileByteRange::Chunky(#[trigger] %a@[vj]))",
         "forall|vj: int| 0 <= vj < %n ==> rng_of(*$0, $1@[vj].0 as int, $1@[vj].1 as int, TileByteRange::Planar(#[trigger] %a@[vj]))"])
U.fn("TileByteRange::into_fetch", ["C16", "C24"], **RD, ptypes={1: "&R"}, ensures=[
    ("C16:bytes-of-the-range", "$r.is_ok() ==> fetched(*$1, $0, $r->Ok_0)"),
    ("C16:reader-errors-passed-on", "$r.is_err() ==> refused(*$1, $0)")])
U.fn("TilesByteRanges::into_fetch", ["C16", "C24"], **RD, ptypes={1: "&R"}, ensures=[
    ("C16:one-request-split-in-order", "$r.is_ok() ==> exists|a: Vec<Bytes>| #[trigger] $1.gave_all(asked($0), Ok(a)) && answer_of($0, a@, $r->Ok_0@)"),
    ("C16:reader-errors-passed-on", "$r.is_err() ==> exists|e: AsyncTiffError| #[trigger] $1.gave_all(asked($0), Err(e))")],
    entry=["lemma_asked($0);"], start=[f"if %n < {V}.len() {{ lemma_pos({V}, %n as int, {V}.len() as int); }}"],
    inv=["%n <= %e", f"%n <= {V}.len()", "%s.all@ == %f@", f"lens_of({V}, %a@, %n as int)", f"%a@ == flatn({V}, %n as int)", f"%a@ == flatn({V}, %f - 1) + {V}[%f - 1]@.subrange(0, %n as int)",
         f"%s.all@.len() == asked($in0).len() ==> %s.at@ == pos({V}, %n as int)",
         f"%a@.len() == %n", f"%s.all@.len() == asked($in0).len() ==> forall|vj: int| 0 <= vj < %n ==> part_of(#[trigger] %a@[vj], %s.all@, pos({V}, vj), {V}[vj]@.len() as int)",
         "forall|vj: int| 0 <= vj < %n ==> #[trigger] %a@[vj] == CompressedBytes::Chunky(%q@[vj])"])
U.fn("CompressedBytes::into_tile", ["C16", "C17", "C24", "C01", "C02", "C03", "C04", "C05", "C06"], requires=["$3.bits_per_sample@.len() > 0"], ensures=[
    ("C16:tile-of-the-image", "tile_of(*$3, $1 as int, $2 as int, $r) && $r.compressed_bytes == $0"),
    ("C03:byte-order-of-the-image", "$r.endianness == $3.endianness"),
    ("C01,C02,C17:predictor-of-the-image", "$r.predictor == (if $3.predictor is Some { $3.predictor->0 } else { Predictor::None })"),
    ("C01,C02,C04:width-of-a-tile", "$r.width == (if $3.tile_width is Some { $3.tile_width->0 } else { $3.image_width })"),
    ("C04:height-of-a-tile", "$r.height == (if $3.tile_height is Some { $3.tile_height->0 } else { $3.image_height })"),
    ("C01,C02,C04,C17:samples-and-layout-of-the-image", "$r.samples_per_pixel == $3.samples_per_pixel && $r.planar_configuration == $3.planar_configuration"),
    ("C01,C02,C03,C04,C17:depth-of-the-image", "$r.bits_per_sample == $3.bits_per_sample@[0]"),
    ("C04,C05,C06:data-type-of-the-image", "$r.data_type == dt_of($3.sample_format@, $3.bits_per_sample@)"),
    ("C17:compression-of-the-image", "$r.compression_method == $3.compression && $r.photometric_interpretation == $3.photometric_interpretation"),
    ("C17:tables-of-the-image", "$r.jpeg_tables == $3.jpeg_tables && $r.lerc_parameters == $3.lerc_parameters"),
    ("C17:the-bytes-fetched", "$r.compressed_bytes == $0")])
U.fn("ImageFileDirectory::tile_byte_range", P, ensures=[
    ("C15:entries-of-the-tables", "$r is Some ==> rng_of(*$0, $1 as int, $2 as int, $r->0)"),
    ("C15:none-only-if-there-is-none", "$r is None ==> !ranged(*$0, $1 as int, $2 as int)")])
U.fn("ImageFileDirectory::tiles_byte_ranges", ["C16", "C24"], ensures=[
    ("C16:ranges-of-each-tile", "$r is Some ==> rngs_of(*$0, $1@, $r->0)"),
    ("C16:none-only-if-one-has-none", "$r is None ==> exists|i: int| 0 <= i < $1@.len() && !ranged(*$0, (#[trigger] $1@[i]).0 as int, $1@[i].1 as int)")])
U.fn("ImageFileDirectory::fetch_tile", ["C16", "C24"], **RD, ptypes={3: "&R"}, requires=["$0.bits_per_sample@.len() > 0"], ensures=[
    ("C16:tile-of-the-image", "$r.is_ok() ==> tile_of(*$0, $1 as int, $2 as int, $r->Ok_0) && exists|q: TileByteRange| rng_of(*$0, $1 as int, $2 as int, q) && #[trigger] fetched(*$3, q, $r->Ok_0.compressed_bytes)"),
    ("C16:errors-passed-on", "$r.is_err() ==> !ranged(*$0, $1 as int, $2 as int) || exists|q: TileByteRange| rng_of(*$0, $1 as int, $2 as int, q) && #[trigger] refused(*$3, q)")])
U.fn("ImageFileDirectory::fetch_tiles", ["C16", "C24"], **RD, ptypes={2: "&R"}, requires=["$0.bits_per_sample@.len() > 0"], ensures=[
    ("C16:each-tile-in-order-from-one-request", "$r.is_ok() ==> exists|q: TilesByteRanges, a: Vec<Bytes>, c: Seq<CompressedBytes>| rngs_of(*$0, $1@, q) && #[trigger] $2.gave_all(asked(q), Ok(a)) && #[trigger] answer_of(q, a@, c) && (c.len() == $1@.len() ==> $r->Ok_0@.len() == $1@.len() && forall|i: int| 0 <= i < $1@.len() ==> tile_of(*$0, $1@[i].0 as int, $1@[i].1 as int, #[trigger] $r->Ok_0@[i]) && $r->Ok_0@[i].compressed_bytes == c[i])"),
    ("C16:errors-passed-on", "$r.is_err() ==> (exists|i: int| 0 <= i < $1@.len() && !ranged(*$0, (#[trigger] $1@[i]).0 as int, $1@[i].1 as int)) || exists|q: TilesByteRanges, e: AsyncTiffError| rngs_of(*$0, $1@, q) && #[trigger] $2.gave_all(asked(q), Err(e))")],
    inv=["%n <= %e", "%n <= $1@.len()", "%n <= %q@.len()", "%a@.len() == %n", "forall|vj: int| 0 <= vj < %n ==> tile_of(*$0, $1@[vj].0 as int, $1@[vj].1 as int, #[trigger] %a@[vj]) && %a@[vj].compressed_bytes == %q@[vj]"])
