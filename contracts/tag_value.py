from vlib.verify import Unit

SPEC = r"""
pub type TiffResult<T> = Result<T, TiffError>;
/// the integer held by a value of an unsigned type
pub open spec fn uval(v: TagValue) -> Option<int> {
    match v {
        TagValue::Byte(x) => Some(x as int), TagValue::Short(x) => Some(x as int), TagValue::Unsigned(x) => Some(x as int),
        TagValue::UnsignedBig(x) => Some(x as int), TagValue::Ifd(x) => Some(x as int), TagValue::IfdBig(x) => Some(x as int),
        _ => None,
    }
}
pub open spec fn sval(v: TagValue) -> Option<int> {
    match v {
        TagValue::SignedByte(x) => Some(x as int), TagValue::SignedShort(x) => Some(x as int), TagValue::Signed(x) => Some(x as int),
        TagValue::SignedBig(x) => Some(x as int),
        _ => None,
    }
}
/// the conversion to a 16-bit value: IFD offsets are not numbers here
pub open spec fn u16val(v: TagValue) -> Option<int> {
    match v { TagValue::Ifd(_) | TagValue::IfdBig(_) => None, _ => uval(v) }
}
pub open spec fn in_u(x: Option<int>, max: int) -> bool { x.is_some() && 0 <= x->0 <= max }
pub open spec fn in_s(x: Option<int>, max: int) -> bool { x.is_some() && -max - 1 <= x->0 <= max }
"""
D = ["Clone", "Copy", "PartialEq", "Eq", "Structural"]
TYPES = {"Tag": {"derive": D}, "TagValue": {"derive": []}, "TiffFormatError": {"derive": []}}
UNIT = Unit("tag_value", prelude=["base", "ints", "tifferr"], types=TYPES, code_uses="use TagValue::*;", spec=SPEC)
U = UNIT
P = ["C12", "C23"]
U.fn("TagValue::into_u8", P, ensures=[("C12:exact-or-error", "match $r { Ok(x) => $0 == TagValue::Byte(x), Err(_) => !($0 is Byte) }")])
U.fn("TagValue::into_i8", P, ensures=[("C12:exact-or-error", "match $r { Ok(x) => $0 == TagValue::SignedByte(x), Err(_) => !($0 is SignedByte) }")])
for n, v, m in (("u16", "u16val", "u16::MAX"), ("u32", "uval", "u32::MAX"), ("u64", "uval", "u64::MAX")):
    U.fn("TagValue::into_" + n, P, ensures=[("C12:exact-or-error", f"match $r {{ Ok(x) => {v}($0) == Some(x as int), Err(_) => !in_u({v}($0), {m} as int) }}")])
for n, m in (("i16", "i16::MAX"), ("i32", "i32::MAX"), ("i64", "i64::MAX")):
    U.fn("TagValue::into_" + n, P, ensures=[("C12:exact-or-error", f"match $r {{ Ok(x) => sval($0) == Some(x as int), Err(_) => !in_s(sval($0), {m} as int) }}")])
for n, v in (("f32", "Float"), ("f64", "Double"), ("string", "Ascii")):
    U.fn("TagValue::into_" + n, P, ensures=[("C12:exact-or-error", f"match $r {{ Ok(x) => $0 == TagValue::{v}(x), Err(_) => !($0 is {v}) }}")])

# ---- lists
UNIT.spec += r"""
/// the integers of a value, in order: a rational is numerator, denominator; text is its characters
pub open spec fn flat1(v: TagValue, signed: bool) -> Option<Seq<int>> {
    match v {
        TagValue::Rational(a, b) => if signed { None } else { Some(seq![a as int, b as int]) },
        TagValue::RationalBig(a, b) => if signed { None } else { Some(seq![a as int, b as int]) },
        TagValue::SRational(a, b) => if signed { Some(seq![a as int, b as int]) } else { None },
        TagValue::SRationalBig(a, b) => if signed { Some(seq![a as int, b as int]) } else { None },
        TagValue::Ascii(s) => if signed { None } else { Some(Seq::new(s@.len(), |i: int| s@[i] as int)) },
        _ => match if signed { sval(v) } else { uval(v) } { Some(x) => Some(seq![x]), None => None },
    }
}
/// ... of the first n values of a list
pub open spec fn flat(l: Seq<TagValue>, n: int, signed: bool) -> Seq<int> decreases n {
    if n <= 0 { seq![] } else { flat(l, n - 1, signed) + flat1(l[n - 1], signed)->0 }
}
pub open spec fn ints<T: VxInt>(s: Seq<T>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].ival()) }
#[verifier::opaque]
pub open spec fn conv_upto(l: Seq<TagValue>, w: Seq<int>, n: int, signed: bool) -> bool {
    &&& 0 <= n <= l.len()
    &&& (forall|j: int| 0 <= j < n ==> flat1(#[trigger] l[j], signed).is_some())
    &&& w == flat(l, n, signed)
}
pub open spec fn conv(v: TagValue, w: Seq<int>, signed: bool) -> bool {
    match v { TagValue::List(l) => conv_upto(l@, w, l@.len() as int, signed), _ => flat1(v, signed) == Some(w) }
}
pub proof fn lemma_conv_base(v: TagValue)
    ensures v is List ==> conv_upto(v->List_0@, seq![], 0, true) && conv_upto(v->List_0@, seq![], 0, false),
{ reveal(conv_upto); }
pub proof fn lemma_conv_step<T: VxInt>(v: TagValue, p: Seq<T>, w: Seq<T>, n: int, signed: bool)
    requires v is List, conv_upto(v->List_0@, ints(p), n, signed), n < v->List_0@.len(), flat1(v->List_0@[n], signed) is Some,
        p.len() <= w.len(), w.subrange(0, p.len() as int) =~= p, w.len() == p.len() + (flat1(v->List_0@[n], signed)->0).len(),
        forall|i: int| p.len() <= i < w.len() ==> (#[trigger] w[i]).ival() == (flat1(v->List_0@[n], signed)->0)[i - p.len()],
    ensures conv_upto(v->List_0@, ints(w), n + 1, signed),
{
    reveal(conv_upto);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] ints(w)[i] == flat(v->List_0@, n + 1, signed)[i] by {
        if i < p.len() { assert(w.subrange(0, p.len() as int)[i] == p[i]); assert(ints(p)[i] == flat(v->List_0@, n, signed)[i]); }
    }
    assert(ints(w) =~= flat(v->List_0@, n + 1, signed));
}
/// `w` holds the first n characters
pub open spec fn asc_upto<T: VxInt>(v: TagValue, w: Seq<T>, n: int) -> bool {
    v is Ascii ==> 0 <= n <= v->Ascii_0@.len() && w.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] w[j]).ival() == v->Ascii_0@[j] as int
}
pub mod vx_lemmas_t {
use super::*;
pub broadcast proof fn lemma_ints1<T: VxInt>(w: Seq<T>)
    requires w.len() == 1,
    ensures #[trigger] ints(w) == seq![w[0].ival()],
{ assert(ints(w) =~= seq![w[0].ival()]); }
pub broadcast proof fn lemma_ints2<T: VxInt>(w: Seq<T>)
    requires w.len() == 2,
    ensures #[trigger] ints(w) == seq![w[0].ival(), w[1].ival()],
{ assert(ints(w) =~= seq![w[0].ival(), w[1].ival()]); }
pub broadcast proof fn lemma_asc<T: VxInt>(v: TagValue, w: Seq<T>, n: int)
    requires #[trigger] asc_upto(v, w, n), v is Ascii, n == v->Ascii_0@.len(),
    ensures flat1(v, false) == Some(ints(w)),
{ assert(flat1(v, false)->0 =~= ints(w)); }
pub broadcast proof fn lemma_ints0<T: VxInt>(w: Seq<T>)
    requires w.len() == 0,
    ensures #[trigger] ints(w) == Seq::<int>::empty(),
{ assert(ints(w) =~= Seq::<int>::empty()); }
}
/// every value is an integer of the target type
pub open spec fn acc_u(v: TagValue, max: int) -> bool { match v { TagValue::List(l) => forall|i: int| 0 <= i < l@.len() ==> in_u(uval(#[trigger] l@[i]), max), _ => in_u(uval(v), max) } }
pub open spec fn acc_s(v: TagValue, max: int) -> bool { match v { TagValue::List(l) => forall|i: int| 0 <= i < l@.len() ==> in_s(sval(#[trigger] l@[i]), max), _ => in_s(sval(v), max) } }
"""
UNIT.broadcast += ["vx_lemmas_t::lemma_asc", "vx_lemmas_t::lemma_ints0", "vx_lemmas_t::lemma_ints1", "vx_lemmas_t::lemma_ints2"]
for n, s, m in (("u16", 0, "u16::MAX"), ("u32", 0, "u32::MAX"), ("u64", 0, "u64::MAX"), ("i32", 1, "i32::MAX"), ("i64", 1, "i64::MAX")):
    b = "true" if s else "false"
    # the 16-bit conversions: a single value wider than 16 bits, or an IFD offset, is a type error
    acc = f"acc_s($0, {m} as int)" if s else f"acc_u($0, {m} as int)" if n != "u16" else "(match $0 { TagValue::List(l) => forall|i: int| 0 <= i < l@.len() ==> in_u(u16val(#[trigger] l@[i]), 0xffff), _ => $0 is Byte || $0 is Short })"
    U.fn(f"TagValue::into_{n}_vec", P,
         ensures=[("C12:exact", f"$r.is_ok() ==> conv($0, ints($r->Ok_0@), {b})"),
                  ("C12:accepts", f"$r.is_err() ==> !{acc}")],
         entry=["lemma_conv_base($in0);"],
         inv=["%i <= $in0->List_0@.len()", f"conv_upto($in0->List_0@, ints(%a@), %i as int, {b})",
              "asc_upto($in0, %a@, %i as int)"],
         end=[f"lemma_conv_step($in0, vp_%a, %a@, vi_%i, {b});"])
for n, v in (("u8", "Byte"), ("f32", "Float"), ("f64", "Double")):
    U.fn(f"TagValue::into_{n}_vec", P,
         ensures=[("C12:exact", f"match $r {{ Ok(x) => match $0 {{ TagValue::List(l) => x@.len() == l@.len() && forall|i: int| 0 <= i < l@.len() ==> #[trigger] l@[i] == TagValue::{v}(x@[i]), _ => x@.len() == 1 && $0 == TagValue::{v}(x@[0]) }}, Err(_) => match $0 {{ TagValue::List(l) => exists|i: int| 0 <= i < l@.len() && !((#[trigger] l@[i]) is {v}), _ => !($0 is {v}) }} }}")],
         inv=["%i <= $in0->List_0@.len()", f"%a@.len() == %i && forall|j: int| 0 <= j < %i ==> #[trigger] $in0->List_0@[j] == TagValue::{v}(%a@[j])"])
