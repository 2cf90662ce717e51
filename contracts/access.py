from vlib.verify import Unit
from contracts.tiles import PRE as TPRE, KINDS, D

SPEC = r"""
/// o is one of the offsets of the image, and not zero
pub open spec fn one_of(v: Option<Vec<u64>>, k: int, o: u64) -> bool { v is Some && 0 <= k < v->0@.len() && v->0@[k] == o && o != 0 }
pub open spec fn is_off(t: TIFF, o: u64) -> bool { (exists|i: int, k: int| 0 <= i < t.ifds@.len() && #[trigger] one_of(t.ifds@[i].tile_offsets, k, o)) || (exists|i: int, k: int| 0 <= i < t.ifds@.len() && #[trigger] one_of(t.ifds@[i].strip_offsets, k, o)) }
pub open spec fn ge(a: Option<u64>, o: u64) -> bool { o != 0 ==> a is Some && a->0 <= o }
pub open spec fn ge_all(a: Option<u64>, v: Seq<u64>) -> bool { forall|k: int| 0 <= k < v.len() ==> ge(a, #[trigger] v[k]) }
pub open spec fn ge_opt(a: Option<u64>, v: Option<Vec<u64>>) -> bool { v is Some ==> ge_all(a, v->0@) }
pub open spec fn ge_ifd(a: Option<u64>, d: ImageFileDirectory) -> bool { ge_opt(a, d.tile_offsets) && ge_opt(a, d.strip_offsets) }
pub proof fn lemma_off(t: TIFF, i: int)
    ensures 0 <= i < t.ifds@.len() ==>
        (t.ifds@[i].tile_offsets is Some ==> forall|k: int| 0 <= k < t.ifds@[i].tile_offsets->0@.len() && t.ifds@[i].tile_offsets->0@[k] != 0 ==> is_off(t, #[trigger] t.ifds@[i].tile_offsets->0@[k]))
        && (t.ifds@[i].strip_offsets is Some ==> forall|k: int| 0 <= k < t.ifds@[i].strip_offsets->0@.len() && t.ifds@[i].strip_offsets->0@[k] != 0 ==> is_off(t, #[trigger] t.ifds@[i].strip_offsets->0@[k])),
{
    if 0 <= i < t.ifds@.len() {
        let d = t.ifds@[i];
        if d.tile_offsets is Some { assert forall|k: int| 0 <= k < d.tile_offsets->0@.len() && d.tile_offsets->0@[k] != 0 implies is_off(t, #[trigger] d.tile_offsets->0@[k]) by { assert(one_of(t.ifds@[i].tile_offsets, k, d.tile_offsets->0@[k])); } }
        if d.strip_offsets is Some { assert forall|k: int| 0 <= k < d.strip_offsets->0@.len() && d.strip_offsets->0@[k] != 0 implies is_off(t, #[trigger] d.strip_offsets->0@[k]) by { assert(one_of(t.ifds@[i].strip_offsets, k, d.strip_offsets->0@[k])); } }
    }
}
"""
U = UNIT = Unit("access", prelude=["base", "ints", "tifferr", "maps", "buf"], pre_types=TPRE,
                types={**{k: {"derive": D} for k in KINDS}, "ImageFileDirectory": {"derive": []}, "TagValue": {"derive": []}, "TiffFormatError": {"derive": []}, "CompressedBytes": {"derive": []}, "Tile": {"derive": []}, "TIFF": {"derive": []}},
                spec=SPEC, rlimit=30, uses="use core::ops::Range;", code_uses="use core::ops::Range;")
U.rename_methods.update({"as_deref": "vx_as_deref", "to_string": "vx_to_string"})
U.rename_types.update({"HashMap": "VxMap", "Arc<[u16]>": "VxArc<u16>"})
COPY = "new_subfile_type image_width image_height compression photometric_interpretation orientation samples_per_pixel rows_per_strip x_resolution y_resolution planar_configuration resolution_unit predictor tile_width tile_height".split()
SLICE = "bits_per_sample sample_format".split()
OPT = "document_name image_description strip_offsets strip_byte_counts min_sample_value max_sample_value software date_time artist host_computer tile_offsets tile_byte_counts extra_samples jpeg_tables copyright model_pixel_scale model_tiepoint model_transformation gdal_nodata gdal_metadata lerc_parameters".split()
for f in COPY:
    U.fn("ImageFileDirectory::" + f, ["C13"], ensures=[("C13:reports-the-field", f"$r == $0.{f}")])
for f in SLICE:
    U.fn("ImageFileDirectory::" + f, ["C13"], ensures=[("C13:reports-the-field", f"$r@ == $0.{f}@")])
for f in OPT:
    U.fn("ImageFileDirectory::" + f, ["C13"], ensures=[("C13:reports-the-field", f"$r is Some == $0.{f} is Some, $r is Some ==> $r->0@ == $0.{f}->0@".replace(", ", " && (", 1) + ")")])
U.fn("ImageFileDirectory::geo_key_directory", ["C13"], ensures=[("C13:reports-the-field", "match $r { Some(x) => $0.geo_key_directory == Some(*x), None => $0.geo_key_directory is None }")])
U.fn("ImageFileDirectory::colormap", ["C13"], ensures=[("C13:reports-the-field", "match $r { Some(x) => $0.color_map == Some(*x), None => $0.color_map is None }")])
U.fn("ImageFileDirectory::other_tags", ["C13"], ensures=[("C13:reports-the-field", "*$r == $0.other_tags")])
U.fn("Tile::x", ["C16"], ensures=[("C16:reports-the-tile", "$r == $0.x")])
U.fn("Tile::y", ["C16"], ensures=[("C16:reports-the-tile", "$r == $0.y")])
U.fn("Tile::compressed_bytes", ["C16"], ensures=[("C16:reports-the-tile", "*$r == $0.compressed_bytes")])
U.fn("Tile::compression_method", ["C16"], ensures=[("C16:reports-the-tile", "$r == $0.compression_method")])
U.fn("Tile::photometric_interpretation", ["C16"], ensures=[("C16:reports-the-tile", "$r == $0.photometric_interpretation")])
U.fn("Tile::jpeg_tables", ["C16"], ensures=[("C16:reports-the-tile", "match $r { Some(x) => $0.jpeg_tables == Some(*x), None => $0.jpeg_tables is None }")])
U.fn("TIFF::new", ["C20", "C10"], ensures=[("C10,C20:images-in-order", "$r.ifds == $0 && $r.endianness == $1")])
U.fn("TIFF::ifds", ["C20", "C10"], ensures=[("C10,C20:images-in-order", "$r@ == $0.ifds@")])
U.fn("TIFF::endianness", ["C09"], ensures=[("C09:byte-order-of-the-file", "$r == $0.endianness")])
U.fn("TIFF::header_byte_size", ["C20"], requires=["exists|o: u64| #[trigger] is_off(*$0, o)"],
    ensures=[("C20:one-of-the-offsets", "is_off(*$0, $r)"), ("C20:none-is-smaller", "forall|i: int| 0 <= i < $0.ifds@.len() ==> ge_ifd(Some($r), #[trigger] $0.ifds@[i])")],
    start=["lemma_off(*$0, %n as int);", "lemma_off(*$0, %f - 1);"],
    inv=["%n <= %e", "%n <= $0.ifds@.len()", "%i is Some ==> is_off(*$0, %i->0)",
         "forall|vj: int| 0 <= vj < %n ==> ge_ifd(%i, #[trigger] $0.ifds@[vj])", "forall|vj: int| 0 <= vj < %f - 1 ==> ge_ifd(%i, #[trigger] $0.ifds@[vj])",
         "forall|vj: int| 0 <= vj < %n ==> ge(%i, *(#[trigger] %q@[vj]))", "forall|vj: int| 0 <= vj < %n ==> ge_all(%i, (#[trigger] %q@[vj])@)",
         "forall|vj: int| 0 <= vj < %f - 1 ==> ge_all(%i, (#[trigger] %q@[vj])@)", 
         "forall|vj: int| 0 <= vj < %n ==> ((#[trigger] %q@[vj]) is Some ==> ge_all(%i, %q@[vj]->0@))", "forall|vj: int| 0 <= vj < %f - 1 ==> ((#[trigger] %q@[vj]) is Some ==> ge_all(%i, %q@[vj]->0@))",
         "ge_opt(%i, $0.ifds@[%f - 1].tile_offsets)", "ge_opt(%i, $0.ifds@[%f - 1].strip_offsets)"])
