from vlib.verify import Unit
from contracts._tables import enum_spec
from contracts.data_type import D

PRE = r"""
use core::ops::Range;
// ---- errors (their payloads are not specified)
pub struct IoError;
pub struct Utf8Error;
pub enum TiffUnsupportedError { UnsupportedDataType, Other }
pub enum TiffError { FormatError(TiffFormatError), UnsupportedError(TiffUnsupportedError), IoError(IoError), IntSizeError, UsageError }
pub enum AsyncTiffError { EndOfFile(u64, u64), General(String), IOError(IoError), InternalTIFFError(TiffError) }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
pub type TiffResult<T> = Result<T, TiffError>;
impl From<TiffError> for AsyncTiffError { #[verifier::external_body] fn from(e: TiffError) -> Self { AsyncTiffError::InternalTIFFError(e) } }
impl From<IoError> for AsyncTiffError { #[verifier::external_body] fn from(e: IoError) -> Self { AsyncTiffError::IOError(e) } }
impl From<TryFromIntError> for TiffError { #[verifier::external_body] fn from(e: TryFromIntError) -> Self { TiffError::IntSizeError } }
impl From<IoError> for TiffError { #[verifier::external_body] fn from(e: IoError) -> Self { TiffError::IoError(e) } }
/// `x.into()`
pub trait VxInto<T> { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
impl VxInto<u64> for u32 { open spec fn into_ok(self, r: u64) -> bool { r as int == self as int } fn vx_into(self) -> (r: u64) { self as u64 } }
impl VxInto<u64> for u16 { open spec fn into_ok(self, r: u64) -> bool { r as int == self as int } fn vx_into(self) -> (r: u64) { self as u64 } }
impl VxInto<AsyncTiffError> for TiffError { open spec fn into_ok(self, r: AsyncTiffError) -> bool { true } #[verifier::external_body] fn vx_into(self) -> (r: AsyncTiffError) { AsyncTiffError::InternalTIFFError(self) } }
impl<'a> VxInto<String> for &'a str { open spec fn into_ok(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
// ---- byteorder (assumed contracts)
pub trait ByteOrder { spec fn le() -> bool; }
pub struct LittleEndian;
pub struct BigEndian;
impl ByteOrder for LittleEndian { open spec fn le() -> bool { true } }
impl ByteOrder for BigEndian { open spec fn le() -> bool { false } }
/// the unsigned value of the n bytes at o in a byte order
pub open spec fn wd(f: Seq<u8>, le: bool, n: int, o: int) -> int { if n == 1 { f[o] as int } else if le { lev(f.subrange(o, o + n)) } else { bev(f.subrange(o, o + n)) } }
/// `bytes.reader()`: what is left to read
pub struct Reader { pub v: Bytes }
impl View for Reader { type V = Seq<u8>; closed spec fn view(&self) -> Seq<u8> { self.v@ } }
impl Bytes {
    #[verifier::external_body] pub fn reader(self) -> (r: Reader) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body] pub fn from_static<const N: usize>(s: &[u8; N]) -> (r: Bytes) ensures r@ == s@, { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Bytes {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Bytes) -> bool { self@ == other@ }
}
impl PartialEq for Bytes { #[verifier::external_body] fn eq(&self, other: &Bytes) -> (r: bool) { unimplemented!() } }
pub open spec fn took(a: Seq<u8>, b: Seq<u8>, n: int, ok: bool) -> bool { if ok { a.len() >= n && b == a.subrange(n, a.len() as int) } else { a.len() < n } }
impl Reader {
    /// the `read` of `impl Read for Reader<Bytes>`
    #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures r is Ok, final(buf)@.len() == old(buf)@.len(),
            ({ let n = if old(self)@.len() <= old(buf)@.len() { old(self)@.len() as int } else { old(buf)@.len() as int };
               r->Ok_0 as int == n && final(buf)@.subrange(0, n) == old(self)@.subrange(0, n) && final(self)@ == old(self)@.subrange(n, old(self)@.len() as int) }),
    { unimplemented!() }
    #[verifier::external_body] pub fn get_ref(&self) -> (r: &Bytes) ensures r@ == self@, { unimplemented!() }
READS
}
// ---- text (assumed contracts, for ASCII)
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128 }
pub open spec fn chars(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
pub trait VxText { fn is_ascii(&self) -> (r: bool) ensures r == ascii(self.tsq()); fn ends_with<const N: usize>(&self, t: &[u8; N]) -> (r: bool) ensures r == (self.tsq().len() >= N && (forall|i: int| 0 <= i < N ==> self.tsq()[self.tsq().len() - N + i] == #[trigger] t@[i])); spec fn tsq(&self) -> Seq<u8>; }
impl VxText for Vec<u8> { open spec fn tsq(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn is_ascii(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn ends_with<const N: usize>(&self, t: &[u8; N]) -> (r: bool) { unimplemented!() } }
/// `std::str::from_utf8`
#[verifier::external_body] pub fn vx_from_utf8(s: &Vec<u8>) -> (r: Result<&str, Utf8Error>) ensures ascii(s@) ==> r is Ok && r->Ok_0@ == chars(s@), { unimplemented!() }
#[verifier::external_body] pub fn vx_char_from(x: u8) -> (r: char) ensures r == x as char, { unimplemented!() }
/// `String::from_utf8_lossy(s).into_owned()`
pub struct VxCow { pub s: String }
impl VxCow { #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r == self.s, { unimplemented!() } }
#[verifier::external_body] pub fn vx_from_utf8_lossy(s: &Vec<u8>) -> (r: VxCow) ensures ascii(s@) ==> r.s@ == chars(s@), { unimplemented!() }
pub trait VxToString { spec fn str_ok(&self, r: String) -> bool; fn vx_to_string(&self) -> (r: String) ensures self.str_ok(r); }
impl VxToString for str { open spec fn str_ok(&self, r: String) -> bool { r@ == self@ && (self@.len() == 0 ==> r@ == Seq::<char>::empty()) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for Utf8Error { open spec fn str_ok(&self, r: String) -> bool { true } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_any_err<E>() -> E { unimplemented!() }
/// r is s without the leading and trailing c
pub open spec fn trimmed(s: Seq<char>, c: char, r: Seq<char>, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len() && r == s.subrange(a, b)
    &&& (forall|i: int| 0 <= i < a ==> s[i] == c) && (forall|i: int| b <= i < s.len() ==> s[i] == c)
    &&& (a < b ==> s[a] != c && s[b - 1] != c)
}
pub trait VxTrim { fn vx_trim_matches(&self, c: char) -> (r: &str) ensures exists|a: int, b: int| trimmed(self.ssq(), c, r@, a, b); spec fn ssq(&self) -> Seq<char>; }
impl VxTrim for str { open spec fn ssq(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_trim_matches(&self, c: char) -> (r: &str) { unimplemented!() } }
/// what a source holding `f` answers to a request: the bytes of the range that exist
pub open spec fn clip(f: Seq<u8>, lo: int, hi: int) -> Seq<u8> {
    let h = if hi <= f.len() { hi } else { f.len() as int };
    if lo < h { f.subrange(lo, h) } else { seq![] }
}
/// A metadata source: the bytes of the file
pub trait MetadataFetch: Sized {
    spec fn file(&self) -> Seq<u8>;
    /// every request within the file is answered
    spec fn reliable(&self) -> bool;
    fn fetch(&self, range: Range<u64>) -> (r: AsyncTiffResult<Bytes>)
        requires range.start <= range.end,
        ensures r.is_ok() ==> r->Ok_0@ == clip(self.file(), range.start as int, range.end as int),
            self.reliable() && range.end <= self.file().len() ==> r.is_ok();
}
pub mod vx_lemmas_m {
use super::*;
pub broadcast proof fn lemma_wd_sub(f: Seq<u8>, a: int, b: int, le: bool, n: int, k: int)
    requires 0 <= a <= b <= f.len(), 0 <= k, 0 <= n, k + n <= b - a,
    ensures #[trigger] wd(f.subrange(a, b), le, n, k) == wd(f, le, n, a + k),
{ assert(f.subrange(a, b).subrange(k, k + n) =~= f.subrange(a + k, a + k + n)); }
}
"""
W = [("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("u64", 8), ("i64", 8), ("f32", 4), ("f64", 8)]
_r = []
for t, n in W:
    g, le = ("<B: ByteOrder>", "B::le()") if n > 1 else ("", "true")
    _r.append(f"""    #[verifier::external_body] pub fn read_{t}{g}(&mut self) -> (r: Result<{t}, IoError>)
        ensures r.is_ok() ==> r->Ok_0.bits() == wd(old(self)@, {le}, {n}, 0), took(old(self)@, final(self)@, {n}, r.is_ok()), {{ unimplemented!() }}
""")
PRE = PRE.replace("READS", "".join(_r))

SPEC = r"""
impl Endianness { pub open spec fn le(self) -> bool { self is LittleEndian } }
impl EndianAwareReader {
    pub open spec fn rest(&self) -> Seq<u8> { self.reader@ }
    /// `Read::read_exact`, `Read::read_to_end` (std's, over the `read` below)
    #[verifier::external_body] pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<(), IoError>)
        ensures final(self).endianness == old(self).endianness, final(buf)@.len() == old(buf)@.len(), r.is_ok() == (old(self).rest().len() >= old(buf)@.len()),
            r.is_ok() ==> final(buf)@ == old(self).rest().subrange(0, old(buf)@.len() as int), { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures final(self).endianness == old(self).endianness, r.is_ok(), r->Ok_0 as int == old(self).rest().len(), final(buf)@ == old(buf)@ + old(self).rest(), { unimplemented!() }
}
"""


VALUE_SPEC = enum_spec(["Tag", "Type"]) + r"""
pub open spec fn tsize(t: Type) -> int {
    match t {
        Type::BYTE | Type::SBYTE | Type::ASCII | Type::UNDEFINED => 1,
        Type::SHORT | Type::SSHORT => 2,
        Type::LONG | Type::SLONG | Type::FLOAT | Type::IFD => 4,
        _ => 8,
    }
}
/// v is the value of type t stored at o
pub open spec fn elem_ok(f: Seq<u8>, le: bool, t: Type, o: int, v: TagValue) -> bool {
    &&& o + tsize(t) <= f.len()
    &&& match t {
        Type::BYTE | Type::UNDEFINED => v is Byte && v->Byte_0.bits() == wd(f, le, 1, o),
        Type::SBYTE => v is SignedByte && v->SignedByte_0.bits() == wd(f, le, 1, o),
        Type::ASCII => false,
        Type::SHORT => v is Short && v->Short_0.bits() == wd(f, le, 2, o),
        Type::SSHORT => v is SignedShort && v->SignedShort_0.bits() == wd(f, le, 2, o),
        Type::LONG => v is Unsigned && v->Unsigned_0.bits() == wd(f, le, 4, o),
        Type::SLONG => v is Signed && v->Signed_0.bits() == wd(f, le, 4, o),
        Type::FLOAT => v is Float && v->Float_0.bits() == wd(f, le, 4, o),
        Type::IFD => v is Ifd && v->Ifd_0.bits() == wd(f, le, 4, o),
        Type::LONG8 => v is UnsignedBig && v->UnsignedBig_0.bits() == wd(f, le, 8, o),
        Type::SLONG8 => v is SignedBig && v->SignedBig_0.bits() == wd(f, le, 8, o),
        Type::DOUBLE => v is Double && v->Double_0.bits() == wd(f, le, 8, o),
        Type::IFD8 => v is IfdBig && v->IfdBig_0.bits() == wd(f, le, 8, o),
        Type::RATIONAL => v is Rational && v->Rational_0.bits() == wd(f, le, 4, o) && v->Rational_1.bits() == wd(f, le, 4, o + 4),
        Type::SRATIONAL => v is SRational && v->SRational_0.bits() == wd(f, le, 4, o) && v->SRational_1.bits() == wd(f, le, 4, o + 4),
    }
}
/// l holds the first n values stored from o on
#[verifier::opaque]
pub open spec fn list_upto(f: Seq<u8>, le: bool, t: Type, o: int, l: Seq<TagValue>, n: int) -> bool {
    &&& l.len() == n
    &&& (forall|i: int| 0 <= i < n ==> elem_ok(f, le, t, o + wmul(i, tsize(t)), #[trigger] l[i]))
}
pub proof fn lemma_list_base(f: Seq<u8>, le: bool, t: Type, o: int)
    ensures list_upto(f, le, t, o, seq![], 0),
{ reveal(list_upto); }
pub proof fn lemma_list_step(f: Seq<u8>, le: bool, t: Type, o: int, p: Seq<TagValue>, l: Seq<TagValue>, n: int)
    requires list_upto(f, le, t, o, p, n), l.len() == p.len() + 1, l.subrange(0, p.len() as int) =~= p, elem_ok(f, le, t, o + wmul(n, tsize(t)), l[p.len() as int]),
    ensures list_upto(f, le, t, o, l, n + 1),
{
    reveal(list_upto);
    assert forall|i: int| 0 <= i < n + 1 implies elem_ok(f, le, t, o + wmul(i, tsize(t)), #[trigger] l[i]) by { if i < n { assert(l.subrange(0, n)[i] == p[i]); } }
}
/// where the values of an entry with its value field at p are stored: in the field if they fit, else at the offset in the field
pub open spec fn vstart(f: Seq<u8>, le: bool, big: bool, t: Type, count: int, p: int) -> int {
    let w = if big { 8int } else { 4 };
    if wmul(count, tsize(t)) <= w { p } else { wd(f, le, w, p) }
}
pub open spec fn inline(big: bool, t: Type, count: int) -> bool { wmul(count, tsize(t)) <= (if big { 8int } else { 4 }) }
/// text: the bytes up to the first NUL
pub open spec fn nul(b: Seq<u8>, i: int) -> int decreases b.len() - i { if i < 0 || i >= b.len() || b[i] == 0 { i } else { nul(b, i + 1) } }
/// plain text: ASCII, nothing but NULs behind the first NUL
pub open spec fn plain(b: Seq<u8>) -> bool { ascii(b) && forall|i: int| nul(b, 0) <= i < b.len() ==> #[trigger] b[i] == 0 }
/// the stored text of an entry
pub open spec fn body(f: Seq<u8>, le: bool, big: bool, count: int, p: int) -> Seq<u8> {
    let o = vstart(f, le, big, Type::ASCII, count, p);
    f.subrange(o, o + count)
}
/// v is what an entry (type t, count, value field at p) holds
pub open spec fn value_ok(f: Seq<u8>, le: bool, big: bool, t: Type, count: int, p: int, v: TagValue) -> bool {
    let o = vstart(f, le, big, t, count, p);
    if count == 0 { v is List && v->List_0@.len() == 0 }
    else if t is ASCII {
        &&& o + count <= f.len()
        &&& v is Ascii
        &&& (plain(body(f, le, big, count, p)) ==> v->Ascii_0@ == chars(body(f, le, big, count, p).subrange(0, nul(body(f, le, big, count, p), 0))))
    }
    else if count == 1 { elem_ok(f, le, t, o, v) }
    else { v is List && list_upto(f, le, t, o, v->List_0@, count) }
}
/// the bytes of an entry's values are in the file, and text has the form the format asks for
pub open spec fn value_there(f: Seq<u8>, le: bool, big: bool, t: Type, count: int, p: int) -> bool {
    let o = vstart(f, le, big, t, count, p);
    &&& p + 8 <= f.len() <= u64::MAX
    &&& o + wmul(count, tsize(t)) <= f.len()
    &&& (t is ASCII && inline(big, t, count) && count > 0 ==> ascii(body(f, le, big, count, p)) && body(f, le, big, count, p)[count - 1] == 0)
}
pub proof fn lemma_nul(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(),
    ensures i <= nul(b, i) <= b.len(), forall|j: int| i <= j < nul(b, i) ==> b[j] != 0, nul(b, i) < b.len() ==> b[nul(b, i)] == 0,
    decreases b.len() - i,
{ if i < b.len() && b[i] != 0 { lemma_nul(b, i + 1); } }
pub mod vx_lemmas_t {
use super::*;
pub broadcast proof fn lemma_lev_pos(s: Seq<u8>)
    ensures #[trigger] lev(s) >= 0,
    decreases s.len(),
{ reveal(lev); if s.len() > 0 { lemma_lev_pos(s.drop_first()); } }
pub broadcast proof fn lemma_nul_b(b: Seq<u8>)
    ensures 0 <= #[trigger] nul(b, 0) <= b.len(), forall|j: int| 0 <= j < nul(b, 0) ==> b[j] != 0, nul(b, 0) < b.len() ==> b[nul(b, 0)] == 0,
{ lemma_nul(b, 0); }
pub broadcast proof fn lemma_chars0(b: Seq<u8>)
    requires b.len() == 0,
    ensures #[trigger] chars(b) == Seq::<char>::empty(),
{ assert(chars(b) =~= Seq::<char>::empty()); }
pub broadcast proof fn lemma_sub_all(b: Seq<u8>, n: int)
    requires n == b.len(),
    ensures #[trigger] b.subrange(0, n) == b,
{ assert(b.subrange(0, n) =~= b); }

/// trimming NULs off plain text leaves what stands before the first NUL
pub broadcast proof fn lemma_trim(b: Seq<u8>, c: char, r: Seq<char>, x: int, y: int)
    requires #[trigger] trimmed(chars(b), c, r, x, y), c == 0u8 as char, plain(b),
    ensures r == chars(b.subrange(0, nul(b, 0))),
{
    lemma_nul(b, 0);
    let n = nul(b, 0);
    if n > 0 { assert(chars(b)[0] != c); if x > 0 { assert(chars(b)[0] == c); } }
    assert(forall|i: int| n <= i < b.len() ==> chars(b)[i] == c);
    if x < y { assert(chars(b)[y - 1] != c); assert(y <= n); }
    if n > 0 { assert(chars(b)[n - 1] != c); if y < n { assert(chars(b)[n - 1] == c); } }
    if n > 0 { assert(x == 0 && y == n) by { if x >= y { } } }
    assert(r =~= chars(b.subrange(0, n)));
}
/// a position with no NUL before it
pub broadcast proof fn lemma_nul_at(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), forall|j: int| 0 <= j < i ==> b[j] != 0, i < b.len() ==> b[i] == 0,
    ensures #[trigger] b.subrange(0, i) == b.subrange(0, nul(b, 0)),
{ lemma_nul(b, 0); }
}
"""


def unit(name, elsewhere):
    """the unit with reader and cursor under contract; `elsewhere`: the unit that verifies them"""
    UNIT = Unit(name, consts=["MAX_INITIAL_CAPACITY"], prelude=["base", "bytes", "buf", "ints"], pre_types=PRE, spec=SPEC,
                types={"Endianness": {"derive": D}, "EndianAwareReader": {"derive": []}, "MetadataCursor": {"derive": []}, "TiffFormatError": {"derive": []}, "Tag": {"derive": D}, "Type": {"derive": D}, "TagValue": {"derive": []}},
                rename_methods={"into": "vx_into", "trim_matches": "vx_trim_matches", "to_string": "vx_to_string"},
                alloc_limit=65536,
                rename_paths={"Vec::with_capacity": "vx_vec_cap", "str::from_utf8": "vx_from_utf8", "String::from_utf8_lossy": "vx_from_utf8_lossy", "char::from": "vx_char_from"},
                code_uses="use core::ops::Range;", broadcast=["vx_lemmas_m::lemma_wd_sub"],
                type_edit={"EndianAwareReader": lambda t, m: t.replace("Reader < Bytes >", "Reader").replace("Reader<Bytes>", "Reader")})
    P = ["C09", "C10", "C11", "C23"]
    fn = lambda *a, **k: UNIT.fn(*a, **{**k, **({"trusted": elsewhere} if elsewhere else {})})
    fn("EndianAwareReader::new", P, ensures=[("reads-the-bytes", "$r.rest() == $0@ && $r.endianness == $1")])
    for t, n in W:
        fn("EndianAwareReader::read_" + t, P, ensures=[
            ("value-in-the-byte-order", f"$r.is_ok() ==> $r->Ok_0.bits() == wd(old($0).rest(), old($0).endianness.le(), {n}, 0)"),
            ("advances-or-fails-for-lack-of-bytes", f"took(old($0).rest(), final($0).rest(), {n}, $r.is_ok()) && final($0).endianness == old($0).endianness")])
    fn("EndianAwareReader as Read::read", P, name="read", ret="Result<usize, IoError>",
         ensures=[("reads-the-bytes", "$r is Ok && final($0).endianness == old($0).endianness && ({ let n = if old($0).rest().len() <= old($1)@.len() { old($0).rest().len() as int } else { old($1)@.len() as int }; $r->Ok_0 as int == n && final($1)@.subrange(0, n) == old($0).rest().subrange(0, n) && final($0).rest() == old($0).rest().subrange(n, old($0).rest().len() as int) })")])

    # ---- the cursor
    UNIT.spec += r"""
impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
    pub open spec fn f(&self) -> Seq<u8> { self.fetch.file() }
    pub open spec fn le(&self) -> bool { self.endianness.le() }
    pub open spec fn same(&self, o: &Self) -> bool { self.fetch == o.fetch && self.endianness == o.endianness }
}
/// a read of n bytes at offset o may fail
pub open spec fn may_fail<F: MetadataFetch>(s: &F, o: int, n: int) -> bool { !s.reliable() || o + n > s.file().len() || o + n > u64::MAX }
"""
    fn("MetadataCursor::new", P, ensures=[("at-the-start", "$r.fetch == $0 && $r.endianness == $1 && $r.offset == 0")])
    fn("MetadataCursor::new_with_offset", P, ensures=[("at-the-offset", "$r.fetch == $0 && $r.endianness == $1 && $r.offset == $2")])
    fn("MetadataCursor::with_offset", P, ensures=[("at-the-offset", "$r.same(&$0) && $r.offset == $1")])
    fn("MetadataCursor::seek", P, ensures=[("at-the-offset", "final($0).same(old($0)) && final($0).offset == $1")])
    fn("MetadataCursor::advance", P, ensures=[("moves-on", "final($0).same(old($0)) && final($0).offset as int == (if old($0).offset + $1 <= u64::MAX { old($0).offset + $1 } else { u64::MAX as int })")])
    fn("MetadataCursor::read", P, ensures=[
        ("the-bytes-at-the-position", "$r.is_ok() ==> $r->Ok_0.rest() == clip(old($0).f(), old($0).offset as int, old($0).offset + $1) && $r->Ok_0.endianness == old($0).endianness && final($0).offset == old($0).offset + $1"),
        ("fails-only-outside-the-file", "$r.is_err() ==> may_fail(old($0).fetch, old($0).offset as int, $1 as int)"),
        ("keeps-source-and-byte-order", "final($0).same(old($0))")])
    for t, n in W:
        fn("MetadataCursor::read_" + t, P, ensures=[
            ("the-value-at-the-position", f"$r.is_ok() ==> old($0).offset + {n} <= old($0).f().len() && $r->Ok_0.bits() == wd(old($0).f(), old($0).le(), {n}, old($0).offset as int) && final($0).offset == old($0).offset + {n}"),
            ("fails-only-outside-the-file", f"$r.is_err() ==> may_fail(old($0).fetch, old($0).offset as int, {n})"),
            ("keeps-source-and-byte-order", "final($0).same(old($0))")])
    UNIT.spec += VALUE_SPEC
    UNIT.broadcast += ["vx_lemmas_t::" + x for x in ("lemma_trim", "lemma_nul_at", "lemma_lev_pos", "lemma_nul_b", "lemma_sub_all", "lemma_chars0")]
    return UNIT
