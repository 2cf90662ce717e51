from vlib.verify import Unit

SPEC = r"""
pub open spec fn all_fmt(s: Seq<SampleFormat>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == s[0] }
pub open spec fn all_bits(s: Seq<u16>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == s[0] }
/// the type of the samples the tags describe
pub open spec fn dt_of(f: Seq<SampleFormat>, b: Seq<u16>) -> Option<DataType> {
    if f.len() == 0 || b.len() == 0 || !all_fmt(f) || !all_bits(b) { None }
    else if f[0] == SampleFormat::Uint && b[0] == 1 { Some(DataType::Bool) }
    else if f[0] == SampleFormat::Uint && b[0] == 8 { Some(DataType::UInt8) }
    else if f[0] == SampleFormat::Uint && b[0] == 16 { Some(DataType::UInt16) }
    else if f[0] == SampleFormat::Uint && b[0] == 32 { Some(DataType::UInt32) }
    else if f[0] == SampleFormat::Uint && b[0] == 64 { Some(DataType::UInt64) }
    else if f[0] == SampleFormat::Int && b[0] == 8 { Some(DataType::Int8) }
    else if f[0] == SampleFormat::Int && b[0] == 16 { Some(DataType::Int16) }
    else if f[0] == SampleFormat::Int && b[0] == 32 { Some(DataType::Int32) }
    else if f[0] == SampleFormat::Int && b[0] == 64 { Some(DataType::Int64) }
    else if f[0] == SampleFormat::Float && b[0] == 32 { Some(DataType::Float32) }
    else if f[0] == SampleFormat::Float && b[0] == 64 { Some(DataType::Float64) }
    else { None }
}
pub open spec fn dt_size(d: DataType) -> int {
    match d {
        DataType::Bool | DataType::UInt8 | DataType::Int8 => 1,
        DataType::UInt16 | DataType::Int16 => 2,
        DataType::UInt32 | DataType::Int32 | DataType::Float32 => 4,
        DataType::UInt64 | DataType::Int64 | DataType::Float64 => 8,
    }
}
"""
D = ["Clone", "Copy", "PartialEq", "Eq", "Structural"]
UNIT = Unit("data_type", types={"SampleFormat": {"derive": D}, "DataType": {"derive": D}}, spec=SPEC)
U = UNIT
U.fn("DataType::size", ["C06"], ensures=[("size-in-bytes", "$r as int == dt_size(*$0)")])
U.fn("DataType::from_tags", ["C06"],
     ensures=[("type-of-the-samples", "$r == dt_of($0@, $1@)")],
     inv=["%i <= $0@.len()", "%i <= $1@.len()",
          "%i2 == (forall|j: int| 0 <= j < %i ==> #[trigger] $0@[j] == $0@[0])", "%i2 == (forall|j: int| 0 <= j < %i ==> #[trigger] $1@[j] == $1@[0])",
          "%i2 == !(forall|j: int| 0 <= j < %i ==> #[trigger] $0@[j] == $0@[0])", "%i2 == !(forall|j: int| 0 <= j < %i ==> #[trigger] $1@[j] == $1@[0])",
          "forall|j: int| 0 <= j < %i ==> #[trigger] $0@[j] == $0@[0]", "forall|j: int| 0 <= j < %i ==> #[trigger] $1@[j] == $1@[0]"],
     alt={"inv": ["%i < $0@.len()", "%i < $1@.len()", "%i2 <= %i",
          "forall|j: int| 0 <= j <= %i ==> #[trigger] $0@[j] == $0@[0]", "forall|j: int| 0 <= j <= %i ==> #[trigger] $1@[j] == $1@[0]",
          "(%i2 == 0) == (forall|j: int| 0 <= j < %i ==> #[trigger] $0@[j] == $0@[0])", "(%i2 == 0) == (forall|j: int| 0 <= j < %i ==> #[trigger] $1@[j] == $1@[0])"]})
