import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if observe: d["anchors"]["observe_at"]=[observe]
    P.append(d)
p("C01","Horizontal differencing is undone exactly for every row, width and depth",
  "For every tile stored with horizontal differencing, decoding returns exactly the samples that were differenced: within each row every sample is the wrapping sum of all stored differences of the same band up to it, at the sample's own width (8, 16, 32 or 64 bits) and in either file byte order. Rows, bands of a pixel, and the separate planes of a planar tile never influence each other. The last, possibly incomplete pixels of a row are treated like all others.",
  ["inputs"],"every tile content, tile width and height, samples per pixel, bit depth 8/16/32/64, byte order, chunky or planar layout",
  "Tests sample a few fixtures; the claim is about all byte contents, widths, band counts and depths, including wrap-around at every word.",
  ["src/predictor.rs","src/tile.rs"],[("unpredict_hdiff","src/predictor.rs: unpredict_hdiff"),("rev_hpredict_row","src/predictor.rs: per-row accumulation"),("fix_endianness","src/predictor.rs: fix_endianness"),("predictor dispatch per chunk","src/tile.rs: Tile::decode")],"Tile::decode")
p("C02","Floating-point predictor is undone exactly for 16, 32 and 64-bit samples",
  "For every tile stored with the floating-point predictor, decoding returns exactly the original samples: byte differences are accumulated along each row at the distance of one pixel's band count, and the byte planes of a row, most significant first, are reassembled into samples in the host's byte order whatever the file's byte order. Rows and planes of a planar tile never influence each other. Sample widths other than 16, 32 and 64 bits are reported as errors.",
  ["inputs"],"every tile content, width, height, samples per pixel, bit depth, file byte order, layout",
  "Byte-plane interleaving errors only show for particular widths, band counts and depths; the fixtures cover a handful.",
  ["src/predictor.rs","src/tile.rs"],[("unpredict_float","src/predictor.rs: unpredict_float"),("rev_predict_f16/f32/f64","src/predictor.rs"),("dispatch","src/tile.rs: Tile::decode")],"Tile::decode")
p("C03","Decoded samples have the file's values whatever the file's byte order",
  "Decoding a tile of a big-endian file and of the little-endian file with the same samples gives the same numeric samples, for every bit depth and for every decoder that yields raw file bytes. Decoders that yield samples already in the host's order (image codecs) are not byte-swapped again. Single-byte and single-bit samples are unaffected by byte order.",
  ["inputs","configurations"],"every sample value, bit depth 1/8/16/32/64, file byte order, compression method, predictor, layout",
  "Byte-order errors hide in palindromic values, in 8-bit data and in combinations of codec and depth no fixture covers.",
  ["src/predictor.rs","src/tile.rs","src/decoder.rs"],[("fix_endianness","src/predictor.rs: fix_endianness"),("byte order of the decoded bytes","src/tile.rs: Tile::decode"),("decoder output order","src/decoder.rs: Decoder implementations")],"Tile::decode")
p("C04","Decoded arrays have the declared type, shape and exactly shape-many samples",
  "A successfully decoded tile yields an array of the sample type declared by the image, with shape height-width-bands for chunky and bands-height-width for planar tiles, holding exactly as many samples as the shape says, each equal to the corresponding host-order word of the decompressed bytes. When the number of bytes does not fit the shape and type the result is an error, never a shorter, longer or shifted array.",
  ["inputs"],"every byte buffer, shape, data type, layout",
  "Length mismatches and off-by-one conversions need odd sizes; tests only decode well-formed fixtures.",
  ["src/array.rs","src/tile.rs"],[("Array::try_new","src/array.rs: Array::try_new"),("TypedArray::try_new","src/array.rs: TypedArray::try_new"),("shape","src/tile.rs: Tile::decode")],"Tile::decode, Array::try_new")
p("C05","One-bit samples expand most significant bit first into one value each",
  "For one-bit images, sample k of the decoded mask is bit 7-(k mod 8) of byte k/8 of the decompressed data, for every k below the number of samples. The array has exactly height times width times bands values, padding bits after the last sample are dropped, and too few bytes is an error.",
  ["inputs"],"every bit pattern, tile size and band count",
  "Sizes that are not a multiple of eight and every bit position have to work; tests check few.",
  ["src/array.rs"],[("expand_bitmask","src/array.rs: expand_bitmask"),("required bytes","src/array.rs: TypedArray::try_new / Array::try_new")],"Tile::decode, Array::try_new")
p("C06","The sample type follows exactly from sample format and bit depth",
  "The data type reported for a tile is determined by the sample format and bits per sample of the image: unsigned 1 bit is boolean, 8/16/32/64-bit unsigned, signed and 32/64-bit floating formats give the type of that name, and everything else, including images whose bands differ in format or depth, has no data type. The reported width of each type is its size in bytes.",
  ["inputs"],"every combination of sample format codes and bit depths, per band",
  "The combination space of formats, depths and mixed bands is far larger than the fixtures.",
  ["src/data_type.rs","src/ifd.rs"],[("DataType::from_tags","src/data_type.rs: from_tags"),("DataType::size","src/data_type.rs: size")],"Tile data type")
p("C07","The read-ahead cache returns the file's bytes for every request history",
  "For every sequence of requests, including concurrent ones and ones interrupted by source errors, each successful answer of the metadata cache is exactly the file's bytes at the requested range, as if the file had been read directly. An error of the source is passed on, leaves the cache usable, and never corrupts later answers. This holds for every initial size and growth factor, and when the file is shorter than the read-ahead.",
  ["histories","schedules","fault_sequences","configurations"],"every request history, interleaving, source failure, initial size and multiplier",
  "Wrong bytes appear only for ranges spanning particular block boundaries after particular histories.",
  ["src/metadata/cache.rs"],[("SequentialBlockCache::slice","src/metadata/cache.rs: slice"),("fetch","src/metadata/cache.rs: ReadaheadMetadataCache::fetch"),("append_buffer","src/metadata/cache.rs: append_buffer")],"MetadataFetch::fetch of the cache")
p("C08","The read-ahead cache reads contiguously, once, and with the configured growth",
  "The requests the metadata cache makes to its source are contiguous from the start of the file: each begins where the bytes already held end, so no byte is requested again once it has been received. A request answered from held bytes makes no source request, any other makes exactly one, whose size is the larger of what is needed and the configured read-ahead: the initial size when nothing is held, otherwise the held length times the multiplier, rounded.",
  ["histories","configurations"],"every request history, initial size and multiplier",
  "Request patterns depend on the whole history; tests count fetches for one history.",
  ["src/metadata/cache.rs"],[("next_fetch_size","src/metadata/cache.rs: next_fetch_size"),("fetch","src/metadata/cache.rs: ReadaheadMetadataCache::fetch"),("contains","src/metadata/cache.rs: contains")],"requests seen by the wrapped source")
p("C09","The file header determines byte order, variant and first directory, or errors",
  "Opening a file succeeds exactly when its header is a valid classic or big TIFF header, and then reports the byte order of its byte-order mark, whether it is a big TIFF, and the first directory offset as encoded (4 bytes classic, 8 bytes big) in that byte order. Every other byte-order mark, version number, big-TIFF offset size other than 8, non-zero reserved field or truncated header is an error.",
  ["inputs"],"every header byte string",
  "The header space has 2^128 members; tests open a few valid files.",
  ["src/metadata/reader.rs","src/metadata/fetch.rs","src/reader.rs"],[("try_open","src/metadata/reader.rs: TiffMetadataReader::try_open"),("typed reads","src/reader.rs: EndianAwareReader"),("cursor","src/metadata/fetch.rs: MetadataCursor")],"TiffMetadataReader")
p("C10","Directories are read in chain order, completely, and cycles end in an error",
  "Reading all directories yields exactly the directories reachable by following the next-directory offsets from the current position, in chain order, each once, ending at the first zero offset. Reading one at a time yields the same sequence and afterwards reports that none is left; a failed read leaves the position unchanged. A chain that returns to an earlier directory ends with an error instead of running forever.",
  ["inputs","histories"],"every chain of directories and interleaving of single and bulk reads",
  "Long, backward-pointing or cyclic chains and mixed read styles are not in the fixtures.",
  ["src/metadata/reader.rs"],[("read_next_ifd","src/metadata/reader.rs"),("read_all_ifds","src/metadata/reader.rs"),("finish","src/metadata/reader.rs: ImageFileDirectoryReader::finish"),("entry offsets","src/metadata/reader.rs: entry_offset")],"TiffMetadataReader")
p("C11","Every directory entry decodes to exactly the value stored in the file",
  "For every entry of a directory, the reported tag id is the stored id and the reported value is the stored value: element k is the k-th element of the declared field type in the file's byte order, stored inline when count times size fits the value field (4 bytes classic, 8 bytes big) and at the stored offset otherwise; one element is reported as a scalar, several as a list of exactly that count, none as an empty list, and text without its terminator. An unknown field type, an inline text that is not NUL-terminated ASCII, or a value that is not completely in the file is an error.",
  ["inputs"],"every field type, count, byte order, variant and file content",
  "Inline/offset boundaries differ per type, count and variant; tests sample the table.",
  ["src/metadata/reader.rs","src/metadata/fetch.rs","src/reader.rs"],[("read_tag","src/metadata/reader.rs: read_tag"),("read_tag_value","src/metadata/reader.rs: read_tag_value"),("typed reads","src/reader.rs: EndianAwareReader, src/metadata/fetch.rs: MetadataCursor")],"ImageFileDirectoryReader::read_tag, other_tags")
p("C12","Tag value conversions are exact or an error, never truncated",
  "Converting a tag value to an integer, float, text or list type returns exactly the stored numeric value, element by element and in order, or an error. An unsigned value is never returned as signed or the reverse, a value outside the target range is an error rather than being truncated or wrapped, floats only convert to their own width, and a rational converts to numerator followed by denominator.",
  ["inputs"],"every tag value and every target type",
  "Boundary values for each of the source/target pairs; tests cover almost none.",
  ["src/tag_value.rs"],[("into_* conversions","src/tag_value.rs: TagValue::into_*")],"TagValue::into_*")
p("C13","Image metadata fields are exactly the tags of the directory",
  "Each metadata field of an image is the value of the tag defined for it by the TIFF, GeoTIFF and GDAL specifications, converted exactly, and absent when the tag is absent, except that compression defaults to none, the planar configuration to chunky and the sample format to unsigned for every sample. Every tag without a field of its own is kept unchanged among the other tags and no tag is dropped or invented. Missing required tags (width, height, bits per sample, photometric interpretation, samples per pixel), an empty bits per sample, or a value of the wrong type for its field is an error.",
  ["inputs"],"every set of tags and values",
  "Forty fields times types; swapping two rarely used fields passes every test.",
  ["src/ifd.rs"],[("from_tags","src/ifd.rs: ImageFileDirectory::from_tags"),("accessors","src/ifd.rs: ImageFileDirectory")],"ImageFileDirectory accessors")
p("C14","GeoKeys resolve to exactly the values their directory refers to",
  "Each GeoKey field is the value its directory entry refers to: the inline short, the referenced slice of the text parameters without its trailing bar, or the referenced double parameter; keys that are unknown are skipped and absent keys stay absent. The EPSG code is the projected type if present, else the geographic type. A directory whose version or revision is not 1, that has fewer entries than announced, or that refers outside the parameters is an error.",
  ["inputs"],"every key directory, text and double parameters",
  "45 keys, three storage locations and malformed directories; tests read a few files.",
  ["src/ifd.rs","src/geo/geo_key_directory.rs"],[("key resolution","src/ifd.rs: from_tags"),("GeoKeyDirectory::from_tags","src/geo/geo_key_directory.rs"),("epsg_code","src/geo/geo_key_directory.rs")],"ImageFileDirectory::geo_key_directory")
p("C15","The tile grid and tile byte ranges are those of the stored offset tables",
  "The number of tiles is the image size divided by the tile size, rounded up, in each direction. The byte range of tile (x, y) starts at entry y times tiles-per-row plus x of the offset table and has the length of the same entry of the byte-count table; in planar images there is one such range per band, in band order, bands being whole grids apart. Tiles outside the grid, missing tables, or entries beyond a table give no range.",
  ["inputs"],"every image size, tile size, band count, layout, offset and count table and tile index",
  "Index arithmetic errors need non-square grids, partial edge tiles and several bands.",
  ["src/ifd.rs"],[("tile_count","src/ifd.rs: tile_count"),("from_ifd_tile","src/ifd.rs: TileByteRange::from_ifd_tile"),("from_ifd_tiles","src/ifd.rs: TilesByteRanges::from_ifd_tiles")],"tile_byte_range, tiles_byte_ranges, tile_count")
p("C16","Fetching tiles in bulk is fetching each of them, in the requested order",
  "Fetching a list of tiles returns one tile per requested position, in the requested order, duplicates included, each equal in every respect to the tile fetched alone: its coordinates, its compressed bytes per band, and the decoding parameters of the image. All bytes of a bulk fetch are requested from the reader in a single call; a position without a byte range makes the whole fetch an error, and a reader error is passed on.",
  ["inputs","fault_sequences"],"every list of positions, layout, band count and reader behaviour",
  "Order, duplicates and re-chunking per band interact; tests fetch single tiles or a small grid.",
  ["src/ifd.rs"],[("fetch_tile / fetch_tiles","src/ifd.rs"),("into_fetch","src/ifd.rs: TileByteRange / TilesByteRanges::into_fetch"),("into_tile","src/ifd.rs: CompressedBytes::into_tile")],"fetch_tile, fetch_tiles")
p("C17","Decoding a tile applies the registered decoder to every band and reassembles",
  "Decoding a tile runs the decoder registered for the tile's compression method, with the image's photometric interpretation, JPEG tables, samples per pixel, bit depth and LERC parameters, once for a chunky tile and once per band, in band order, for a planar tile, and the result is the concatenation of the per-band results after undoing the predictor on each. A compression method without a registered decoder is an error, and an error of the decoder is passed on.",
  ["inputs","configurations"],"every registry, compression method, tile and decoder behaviour",
  "Custom registries and per-band behaviour are not exercised by fixtures.",
  ["src/tile.rs","src/decoder.rs"],[("Tile::decode","src/tile.rs: Tile::decode"),("DecoderRegistry","src/decoder.rs: DecoderRegistry")],"Tile::decode with a recording decoder")
p("C18","Readers return exactly the requested byte ranges, in order, or an error",
  "Every reader answers a range with exactly the bytes of that range, and a list of ranges with one buffer per range in the order of the list; a file-based reader reports a range past the end as an error instead of returning fewer bytes. Boxed and shared readers forward each kind of call unchanged to the reader inside. The HTTP reader asks for exactly the inclusive byte range that covers the request and turns error statuses into errors.",
  ["inputs","schedules"],"every file content, range and list of ranges, including concurrent use",
  "Off-by-one ranges, reordering and short reads need specific ranges and readers.",
  ["src/reader.rs","src/metadata/fetch.rs"],[("get_byte_ranges","src/reader.rs: AsyncFileReader"),("forwarding","src/reader.rs: Box/Arc impls"),("TokioReader","src/reader.rs"),("ObjectReader","src/reader.rs"),("ReqwestReader","src/reader.rs"),("MetadataFetch for readers","src/metadata/fetch.rs")],"AsyncFileReader")
p("C19","Numeric codes and named values map to each other exactly",
  "For every 16-bit code, each TIFF enumeration (tags, field types, compression, photometric interpretation, planar configuration, predictor, resolution unit, sample format, extra samples) maps the code to the name the specification gives it and that name back to the same code. Codes without a name are reported as absent, and in enumerations that allow unknown codes are preserved and map back unchanged.",
  ["inputs"],"all 65536 codes of all nine enumerations",
  "Tests use only the codes that occur in fixtures.",
  ["src/tags.rs"],[("tags! macro","src/tags.rs: from_u16, from_u16_exhaustive, to_u16")],"from_u16 / to_u16")
p("C20","The header size is the smallest non-zero data offset of all images",
  "The reported header size of a file is the smallest non-zero offset among all tile offsets and strip offsets of all its images. Offsets of zero, which mark absent data, are never counted, and every image, table and entry is considered.",
  ["inputs"],"every list of images with tile and strip offset tables",
  "The minimum can be in any image, table and position; one test, which cannot run here, checks one file.",
  ["src/tiff.rs"],[("header_byte_size","src/tiff.rs: TIFF::header_byte_size")],"TIFF::header_byte_size")
p("C21","Conversion to an n-dimensional array keeps shape, type and element order",
  "Converting a decoded array to an n-dimensional array yields the element type of the decoded data, its three-dimensional shape, and element (i, j, k) equal to the sample at position (i times second dimension plus j) times third dimension plus k. An array without a known data type, or data that does not fit the shape, is an error.",
  ["inputs"],"every shape, data type and content",
  "Axis mix-ups only show for shapes with three different dimensions.",
  ["src/ndarray.rs","src/array.rs"],[("TryFrom<Array> for NdArray","src/ndarray.rs")],"NdArray::try_from")
p("C22","Built-in decoders return the original data of a stored tile",
  "For every byte string, decoding what a conforming encoder produced with a lossless method (none, LZW, Deflate in both codes, Zstandard, LZMA, LERC with or without an additional Deflate or Zstandard layer) gives back exactly that byte string, and image codecs (WebP, JPEG, JPEG 2000) give the picture the codec library decodes. The decoder used is the one for the declared method and parameters.",
  ["inputs"],"every data, method and codec parameter",
  "Fixtures cover one file per method.",
  ["src/decoder.rs"],[("Decoder implementations","src/decoder.rs")],"Decoder::decode_tile, Tile::decode")
p("C23","Malformed metadata is an error, never a panic, hang or unbounded allocation",
  "Opening and reading the directories of any byte string, however malformed, ends with a result or an error: no panic, no arithmetic overflow, no endless loop, and no allocation out of proportion to the file. The same holds for building image metadata and GeoKeys from any set of tags.",
  ["inputs"],"every byte string as a file, every set of tags",
  "Robustness is a statement about all byte strings; tests use well-formed files.",
  ["src/metadata/reader.rs","src/metadata/fetch.rs","src/metadata/cache.rs","src/ifd.rs","src/geo/geo_key_directory.rs","src/tag_value.rs","src/reader.rs"],[("metadata reading","src/metadata/reader.rs"),("from_tags","src/ifd.rs"),("conversions","src/tag_value.rs")],"TiffMetadataReader, ImageFileDirectory::from_tags")
p("C24","Malformed tiles and tile indices are errors, never panics",
  "Requesting, fetching and decoding any tile of any image, with any tile index, table contents, byte counts, declared sizes, depths and compressed data, ends with a result or an error: no panic and no arithmetic overflow.",
  ["inputs"],"every metadata, tile index and compressed byte string",
  "Corrupt tile data and inconsistent metadata are not in the fixtures.",
  ["src/ifd.rs","src/tile.rs","src/decoder.rs","src/predictor.rs","src/array.rs"],[("byte ranges","src/ifd.rs"),("decode","src/tile.rs"),("predictors","src/predictor.rs"),("arrays","src/array.rs"),("decoders","src/decoder.rs")],"tile_byte_range, fetch_tile, Tile::decode")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
