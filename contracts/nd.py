from vlib.verify import Unit
from contracts.tiles import D
VARS = [("Bool", "Bool", "bool"), ("UInt8", "Uint8", "u8"), ("UInt16", "Uint16", "u16"), ("UInt32", "Uint32", "u32"), ("UInt64", "Uint64", "u64"), ("Int8", "Int8", "i8"), ("Int16", "Int16", "i16"), ("Int32", "Int32", "i32"), ("Int64", "Int64", "i64"), ("Float32", "Float32", "f32"), ("Float64", "Float64", "f64")]
PRE = r"""
pub struct ShapeError;
/// ndarray's three-dimensional array in row-major order (assumed contract of from_shape_vec)
pub struct Array3<T> { pub shape: [usize; 3], pub v: Vec<T> }
pub open spec fn size(s: [usize; 3]) -> int { s@[0] * s@[1] * s@[2] }
/// the product of the axes that are not empty is addressable
pub open spec fn addressable(s: [usize; 3]) -> bool { (if s@[0] == 0 { 1 } else { s@[0] as int }) * (if s@[1] == 0 { 1 } else { s@[1] as int }) * (if s@[2] == 0 { 1 } else { s@[2] as int }) <= isize::MAX }
impl<T> Array3<T> {
    pub open spec fn at(&self, i: int, j: int, k: int) -> T { self.v@[(i * self.shape@[1] + j) * self.shape@[2] + k] }
    #[verifier::external_body] pub fn from_shape_vec(s: [usize; 3], v: Vec<T>) -> (r: Result<Array3<T>, ShapeError>)
        ensures r.is_ok() ==> size(s) == v@.len() && r->Ok_0.shape == s && r->Ok_0.v@ == v@, size(s) == v@.len() && addressable(s) ==> r.is_ok(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_any_err<E>() -> E { unimplemented!() }
pub trait VxStr { fn vx_to_string(&self) -> (r: String); }
impl VxStr for str { #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub enum AsyncTiffError { General(String) }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
"""
SPEC = "/// same elements, same shape\npub open spec fn nd_of(a: Array, n: NdArray) -> bool {\n    match a.data {\n" + "".join(f"        TypedArray::{t}(v) => n is {n} && n->{n}_0.shape == a.shape && size(a.shape) == v@.len() && n->{n}_0.v@ == v@,\n" for t, n, _ in VARS) + "    }\n}\npub open spec fn tlen(a: TypedArray) -> int {\n    match a {\n" + "".join(f"        TypedArray::{t}(v) => v@.len() as int,\n" for t, n, _ in VARS) + "    }\n}\n"
U = UNIT = Unit("nd", prelude=["base"], pre_types=PRE, types={"DataType": {"derive": D}, "TypedArray": {"derive": []}, "Array": {"derive": []}, "NdArray": {"derive": []}}, spec=SPEC, rlimit=30)
U.rename_methods.update({"to_string": "vx_to_string"})
U.fn("NdArray as TryFrom::try_from", ["C21"], name="vx_nd_try_from", ret="AsyncTiffResult<NdArray>", ensures=[
    ("C21:no-data-type-is-an-error", "$0.data_type is None ==> $r.is_err()"),
    ("C21:type-shape-and-elements", "$r.is_ok() ==> nd_of($0, $r->Ok_0)"),
    ("C21:data-that-fits-is-accepted", "$0.data_type is Some && tlen($0.data) == size($0.shape) && addressable($0.shape) ==> $r.is_ok()")])
