"""Codes of the TIFF 6.0, BigTIFF, GeoTIFF and GDAL specifications, written down independently of /repo."""
TAG = dict(Artist=315, BitsPerSample=258, CellLength=265, CellWidth=264, ColorMap=320, Compression=259, Copyright=33432, DateTime=306, ExtraSamples=338,
           FillOrder=266, FreeByteCounts=289, FreeOffsets=288, GrayResponseCurve=291, GrayResponseUnit=290, HostComputer=316, ImageDescription=270, ImageLength=257,
           ImageWidth=256, Make=271, MaxSampleValue=281, MinSampleValue=280, Model=272, NewSubfileType=254, Orientation=274, PhotometricInterpretation=262,
           PlanarConfiguration=284, ResolutionUnit=296, RowsPerStrip=278, SamplesPerPixel=277, Software=305, StripByteCounts=279, StripOffsets=273, SubfileType=255,
           Threshholding=263, XResolution=282, YResolution=283, Predictor=317, TileWidth=322, TileLength=323, TileOffsets=324, TileByteCounts=325, SampleFormat=339,
           SMinSampleValue=340, SMaxSampleValue=341, JPEGTables=347, ModelPixelScale=33550, ModelTransformation=34264, ModelTiepoint=33922, GeoKeyDirectory=34735,
           GeoDoubleParams=34736, GeoAsciiParams=34737, GdalNodata=42113, GdalMetadata=42112, LercParameters=50674)
TYPE = dict(BYTE=1, ASCII=2, SHORT=3, LONG=4, RATIONAL=5, SBYTE=6, UNDEFINED=7, SSHORT=8, SLONG=9, SRATIONAL=10, FLOAT=11, DOUBLE=12, IFD=13, LONG8=16, SLONG8=17, IFD8=18)
COMPRESSION = {"None": 1, "Huffman": 2, "Fax3": 3, "Fax4": 4, "LZW": 5, "JPEG": 6, "ModernJPEG": 7, "Deflate": 8, "OldDeflate": 32946, "PackBits": 32773, "LERC": 34887,
               "LZMA": 34925, "WebP": 50001, "JPEG2k": 34712, "ZSTD": 50000}
EXTRA = dict(Unspecified=0, AssociatedAlpha=1, UnassociatedAlpha=2)
PHOTO = dict(WhiteIsZero=0, BlackIsZero=1, RGB=2, RGBPalette=3, TransparencyMask=4, CMYK=5, YCbCr=6, CIELab=8)
PLANAR = dict(Chunky=1, Planar=2)
PREDICTOR = {"None": 1, "Horizontal": 2, "FloatingPoint": 3}
UNIT = {"None": 1, "Inch": 2, "Centimeter": 3}
FORMAT = dict(Uint=1, Int=2, Float=3, Void=4)
ENUMS = {"Tag": (TAG, True), "Type": (TYPE, False), "Compression": (COMPRESSION, True), "ExtraSamples": (EXTRA, False), "PhotometricInterpretation": (PHOTO, False),
         "PlanarConfiguration": (PLANAR, False), "Predictor": (PREDICTOR, False), "ResolutionUnit": (UNIT, False), "SampleFormat": (FORMAT, True)}


def enum_spec(names):
    o = []
    for n in names:
        t, unk = ENUMS[n]
        o.append(f"/// the {n} with a code\n#[verifier::opaque]\npub open spec fn {n.lower()}_named(c: int) -> Option<{n}> {{\n    " +
                 " else ".join(f"if c == {v} {{ Some({n}::{k}) }}" for k, v in t.items()) + " else { None }\n}\n")
        o.append(f"/// the code of a {n}\n#[verifier::opaque]\npub open spec fn {n.lower()}_code(t: {n}) -> int {{\n    match t {{ " +
                 ", ".join(f"{n}::{k} => {v}" for k, v in t.items()) + (f", {n}::Unknown(c) => c as int" if unk else "") + ", _ => -1 }\n}\n")
        if unk:
            o.append(f"pub open spec fn {n.lower()}_any(c: u16) -> {n} {{ match {n.lower()}_named(c as int) {{ Some(t) => t, None => {n}::Unknown(c) }} }}\n")
        o.append(f"""pub proof fn lemma_{n.lower()}_round_trip(c: int)
    ensures {n.lower()}_named(c) is Some ==> {n.lower()}_code({n.lower()}_named(c)->0) == c,
{{ reveal({n.lower()}_named); reveal({n.lower()}_code); }}
""")
    return "".join(o)
