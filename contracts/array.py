from vlib.verify import Unit
from contracts.data_type import D

SPEC = r"""
/// sample i of a packed bit mask: most significant bit first
pub open spec fn mask_bit(d: Seq<u8>, i: int) -> bool { (d[i / 8] >> ((7 - i % 8) as usize)) & 1u8 == 1u8 }
pub open spec fn mask_of(d: Seq<u8>, n: int, b: Seq<bool>) -> bool {
    b.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] b[i] == mask_bit(d, i)
}
pub open spec fn ta_len(t: TypedArray) -> int {
    match t {
        TypedArray::Bool(v) => v@.len() as int, TypedArray::UInt8(v) => v@.len() as int, TypedArray::UInt16(v) => v@.len() as int,
        TypedArray::UInt32(v) => v@.len() as int, TypedArray::UInt64(v) => v@.len() as int, TypedArray::Int8(v) => v@.len() as int,
        TypedArray::Int16(v) => v@.len() as int, TypedArray::Int32(v) => v@.len() as int, TypedArray::Int64(v) => v@.len() as int,
        TypedArray::Float32(v) => v@.len() as int, TypedArray::Float64(v) => v@.len() as int,
    }
}
/// `t` is the typed view of the bytes `d`: the variant of `dt`, the words of `d`
pub open spec fn typed(d: Seq<u8>, dt: Option<DataType>, t: TypedArray) -> bool {
    match dt {
        None | Some(DataType::UInt8) => t is UInt8 && t->UInt8_0@ == d,
        Some(DataType::Bool) => false,
        Some(DataType::UInt16) => t is UInt16 && words_of(d, t->UInt16_0@, 2),
        Some(DataType::UInt32) => t is UInt32 && words_of(d, t->UInt32_0@, 4),
        Some(DataType::UInt64) => t is UInt64 && words_of(d, t->UInt64_0@, 8),
        Some(DataType::Int8) => t is Int8 && words_of(d, t->Int8_0@, 1),
        Some(DataType::Int16) => t is Int16 && words_of(d, t->Int16_0@, 2),
        Some(DataType::Int32) => t is Int32 && words_of(d, t->Int32_0@, 4),
        Some(DataType::Int64) => t is Int64 && words_of(d, t->Int64_0@, 8),
        Some(DataType::Float32) => t is Float32 && words_of(d, t->Float32_0@, 4),
        Some(DataType::Float64) => t is Float64 && words_of(d, t->Float64_0@, 8),
    }
}
/// `d` are the bytes of the elements, in host order
pub open spec fn ta_bytes(t: TypedArray, d: Seq<u8>) -> bool {
    match t {
        TypedArray::Bool(v) => d.len() == v@.len() && forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == (if v@[i] { 1u8 } else { 0u8 }),
        TypedArray::UInt8(v) => d == v@, TypedArray::UInt16(v) => words_of(d, v@, 2), TypedArray::UInt32(v) => words_of(d, v@, 4),
        TypedArray::UInt64(v) => words_of(d, v@, 8), TypedArray::Int8(v) => words_of(d, v@, 1), TypedArray::Int16(v) => words_of(d, v@, 2),
        TypedArray::Int32(v) => words_of(d, v@, 4), TypedArray::Int64(v) => words_of(d, v@, 8),
        TypedArray::Float32(v) => words_of(d, v@, 4), TypedArray::Float64(v) => words_of(d, v@, 8),
    }
}
pub open spec fn dsize(dt: Option<DataType>) -> int {
    match dt {
        None | Some(DataType::Bool) | Some(DataType::UInt8) | Some(DataType::Int8) => 1,
        Some(DataType::UInt16) | Some(DataType::Int16) => 2,
        Some(DataType::UInt32) | Some(DataType::Int32) | Some(DataType::Float32) => 4,
        Some(DataType::UInt64) | Some(DataType::Int64) | Some(DataType::Float64) => 8,
    }
}
/// `w` holds the ws-byte words of `v` below `upto`
#[verifier::opaque]
pub open spec fn words_upto<T: VxBytes>(v: Seq<u8>, w: Seq<T>, ws: int, upto: int) -> bool {
    &&& wmul(w.len() as int, ws) == upto
    &&& upto <= v.len()
    &&& (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).bits() == wvn(v, ws, wmul(i, ws)))
}
#[verifier::opaque]
pub open spec fn le2(x0: u8, x1: u8) -> int { lev(seq![x0, x1]) }
#[verifier::opaque]
pub open spec fn le4(x0: u8, x1: u8, x2: u8, x3: u8) -> int { lev(seq![x0, x1, x2, x3]) }
#[verifier::opaque]
pub open spec fn le8(x0: u8, x1: u8, x2: u8, x3: u8, x4: u8, x5: u8, x6: u8, x7: u8) -> int { lev(seq![x0, x1, x2, x3, x4, x5, x6, x7]) }
pub mod vx_lemmas_a {
use super::*;
pub broadcast proof fn lemma_mask_and(b: u8, k: usize)
    requires k < 8,
    ensures (#[trigger] (b & (0x80u8 >> k)) != 0) == ((b >> ((7 - k) as usize)) & 1u8 == 1u8),
{ assert((b & (0x80u8 >> k) != 0) == ((b >> ((7 - k) as usize)) & 1u8 == 1u8)) by (bit_vector) requires k < 8; }
pub broadcast proof fn lemma_mask_shl(b: u8, k: usize)
    requires k < 8,
    ensures (#[trigger] (b & (1u8 << k)) != 0) == ((b >> k) & 1u8 == 1u8),
{ assert((b & (1u8 << k) != 0) == ((b >> k) & 1u8 == 1u8)) by (bit_vector) requires k < 8; }
pub broadcast proof fn lemma_low3(i: usize)
    ensures #[trigger] (i & 7usize) == i % 8,
{ assert((i & 7usize) == i % 8) by (bit_vector); }
pub broadcast proof fn lemma_shr3(i: usize)
    ensures #[trigger] (i >> 3usize) == i / 8,
{ assert((i >> 3usize) == i / 8) by (bit_vector); }
pub broadcast proof fn lemma_bit01(b: u8)
    ensures #[trigger] (b & 1u8) == 0 || b & 1u8 == 1,
{ assert((b & 1u8) == 0 || b & 1u8 == 1) by (bit_vector); }
pub broadcast proof fn lemma_lev2(s: Seq<u8>)
    requires s.len() == 2,
    ensures #[trigger] lev(s) == le2(s[0], s[1]),
{ reveal(le2); assert(s =~= seq![s[0], s[1]]); }
pub broadcast proof fn lemma_lev4(s: Seq<u8>)
    requires s.len() == 4,
    ensures #[trigger] lev(s) == le4(s[0], s[1], s[2], s[3]),
{ reveal(le4); assert(s =~= seq![s[0], s[1], s[2], s[3]]); }
pub broadcast proof fn lemma_lev8(s: Seq<u8>)
    requires s.len() == 8,
    ensures #[trigger] lev(s) == le8(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]),
{ reveal(le8); assert(s =~= seq![s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]]); }
pub broadcast proof fn lemma_words_end<T: VxBytes>(v: Seq<u8>, w: Seq<T>, ws: int, at: int)
    requires #[trigger] words_upto(v, w, ws, at), at == v.len(),
    ensures words_of(v, w, ws),
{ reveal(words_upto); }
pub broadcast proof fn lemma_words_base<T: VxBytes>(v: Seq<u8>, w: Seq<T>, ws: int)
    requires w.len() == 0, ws == 2 || ws == 4 || ws == 8,
    ensures #[trigger] words_upto(v, w, ws, 0),
{ reveal(words_upto); }
}
pub proof fn lemma_words_step<T: VxBytes>(v: Seq<u8>, p: Seq<T>, w: Seq<T>, ws: int, at: int)
    requires words_upto(v, p, ws, at), w.len() == p.len() + 1, w.drop_last() =~= p, at + ws <= v.len(), ws == 2 || ws == 4 || ws == 8,
        w.last().bits() == lev(v.subrange(at, at + ws)),
    ensures words_upto(v, w, ws, at + ws),
{
    reveal(words_upto);
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).bits() == wvn(v, ws, wmul(i, ws)) by {
        if i < p.len() { assert(w[i] == w.drop_last()[i]); assert(p[i].bits() == wvn(v, ws, wmul(i, ws))); }
    }
}
pub open spec fn nelem(s: Seq<usize>) -> int { s[0] * s[1] * s[2] }
"""
UNIT = Unit("array", prelude=["base", "bytes", "err", "cast"], types={"DataType": {"derive": D}, "TypedArray": {"derive": []}, "Array": {"derive": []}}, spec=SPEC, broadcast=["vx_lemmas_a::lemma_mask_and", "vx_lemmas_a::lemma_mask_shl", "vx_lemmas_a::lemma_low3", "vx_lemmas_a::lemma_shr3", "vx_lemmas_a::lemma_bit01", "vx_lemmas_a::lemma_lev2", "vx_lemmas_a::lemma_lev4", "vx_lemmas_a::lemma_lev8", "vx_lemmas_a::lemma_words_end", "vx_lemmas_a::lemma_words_base"])
U = UNIT
U.fn("expand_bitmask", ["C05", "C24"],
     requires=["$1 <= 8 * $0@.len()"],
     ensures=[("bits-in-order", "mask_of($0@, $1 as int, $r@)")],
     inv=["%i <= $1", "%a@.len() == %i", "%a@.len() <= $1", "%i <= $0@.len()", "%a@.len() + %i == $1", "%i <= 8", "%f >= 1", "%i >= 0", "%a@.len() == 8 * %i", "%a@.len() == 8 * %i || %a@.len() == $1",
          "%a@.len() == 8 * (%f - 1) + %i", "%a@.len() == 8 * (%f - 1) + 8 - %i", "forall|j: int| 0 <= j < %a@.len() ==> #[trigger] %a@[j] == mask_bit($0@, j)"])
U.fn("TypedArray::try_new", ["C04", "C24"], rlimit=60, cases=("Option<DataType>", "$1", ["x is None"] + [f"x == Some(DataType::{t})" for t in ("Bool", "UInt8", "UInt16", "UInt32", "UInt64", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64")]),
     ensures=[("C04:typed-view-of-the-bytes", "$r.is_ok() ==> typed($0@, $1, $r->Ok_0)"),
              ("C04,C24:error-only-for-bad-lengths", "$r.is_err() ==> $1 == Some(DataType::Bool) || !wal($0@.len() as int, dsize($1))")],
     inv=["wal(%i as int, dsize($1))", "%i <= $in0.len()", "words_upto($in0, %a@, dsize($1), %i as int)"],
     end=["lemma_words_step($in0, vp_%a, %a@, dsize($1), vi_%i);"])
U.fn("TypedArray::len", ["C04"], ensures=[("number-of-elements", "$r as int == ta_len(*$0)")])
U.fn("Array::try_new", ["C04", "C05", "C24"],
     ensures=[("C04:shape-type-length", "$r.is_ok() ==> $r->Ok_0.shape == $1 && $r->Ok_0.data_type == $2 && ta_len($r->Ok_0.data) == nelem($1@)"),
              ("C04:typed-view-of-the-bytes", "$r.is_ok() && $2 != Some(DataType::Bool) ==> typed($0@, $2, $r->Ok_0.data)"),
              ("C05:bits-expanded", "$r.is_ok() && $2 == Some(DataType::Bool) ==> $r->Ok_0.data is Bool && mask_of($0@, nelem($1@), $r->Ok_0.data->Bool_0@)"),
              ("C04,C05,C24:accepts-data-of-the-right-length", "$r.is_err() && $1@[0] * $1@[1] <= usize::MAX && nelem($1@) <= usize::MAX ==> (if $2 == Some(DataType::Bool) { 8 * $0@.len() < nelem($1@) } else { $0@.len() != wmul(nelem($1@), dsize($2)) })")],
     )
U.fn("TypedArray as AsRef::as_ref", ["C04"], name="vx_as_ref",
     ensures=[("bytes-of-the-elements", "ta_bytes(*$0, $r@)")])
U.fn("TypedArray::is_empty", ["C04"], ensures=[("is-empty", "$r == (ta_len(*$0) == 0)")])
U.fn("Array::data", ["C04"], ensures=[("C04:reports-the-array", "*$r == $0.data")])
U.fn("Array::shape", ["C04"], ensures=[("C04:reports-the-array", "$r == $0.shape")])
U.fn("Array::data_type", ["C04"], ensures=[("C04:reports-the-array", "$r == $0.data_type")])
U.fn("Array::into_inner", ["C04"], ensures=[("C04:reports-the-array", "$r.0 == $0.data && $r.1 == $0.shape && $r.2 == $0.data_type")])
