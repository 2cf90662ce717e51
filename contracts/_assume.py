"""What each unit takes for granted beyond the contracts of the standard library shims (which the evidence names one by one)."""
SOURCE = "assumed: a metadata source answers a range with the bytes of the file in that range (clipped at the end of the file) or an error, the file does not change while it is read and has fewer than 2^64 bytes"
ASSUME = {
    "meta": [SOURCE, "the directory made of the tags is what ImageFileDirectory::from_tags makes of them (contract discharged in units ifd and ifd_geo, named here by made_of/makable)",
             "read_tag_value's contract is discharged in unit meta_value"],
    "meta_value": [SOURCE, "assumed: str::from_utf8 and from_utf8_lossy are the identity on ASCII bytes"],
    "ifd": ["TagValue conversions have the contracts discharged in unit tag_value, enumeration codes those of unit tags, GeoKeyDirectory::from_tags that of unit geo",
            "assumed: the keys of a HashMap are compared by equality (Tag and GeoKeyTag derive Eq and Hash)"],
    "ifd_geo": ["TagValue conversions have the contracts discharged in unit tag_value, enumeration codes those of unit tags, GeoKeyDirectory::from_tags that of unit geo"],
    "geo": ["TagValue conversions have the contracts discharged in unit tag_value"],
    "tiles": ["assumed: an ImageFileDirectory has at least one entry in bits_per_sample (established by from_tags: discharged in unit ifd; its fields are private to the crate)",
              "assumed: an AsyncFileReader is described by the relations gave and gave_all between requests and answers; a bulk answer has one buffer per range",
              "f64 division, conversion and ceil are IEEE 754 (lemmas/ceil_div.v gives the value of their combination)"],
    "decode": ["what the registered decoder, the predictor functions and the array constructor do is named by relations here; they are under contract in units codecs, predictor and array",
               "assumed: the output of a registered decoder depends only on its arguments"],
    "codecs": ["assumed: each codec library (flate2, zstd, lzma-rust2, weezl, lerc, jpeg-decoder, webp, jpeg2k) is a function of the bytes given, and inverts a conforming encoder (tested by the search with encoders, not proved)"],
    "readers": ["assumed: tokio::fs seek/read, object_store get_range(s) and an HTTP server honouring Range answer with the bytes of the range or an error"],
    "nd": ["assumed: ndarray's from_shape_vec keeps the vector in standard (row-major) order and fails exactly when the lengths differ"],
    "predictor": ["bytemuck casts reinterpret bytes in host (little-endian) order"],
    "array": ["bytemuck casts reinterpret bytes in host (little-endian) order"],
    "access": [], "tag_value": [], "tags": ["the macro-generated functions are taken from rustc's expansion of src/tags.rs"], "data_type": [],
}
