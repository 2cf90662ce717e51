"""Prelude text shared by the contract units: stand-ins for panics, strings, and std functions, with their assumed contracts."""

BASE = r"""
// ---- prelude: base (assumed contracts on std)
global size_of usize == 8;   // 64-bit targets
/// A panic: no execution of a verified function may reach it.
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{ panic!() }
/// `drop(x)`: x's life ends here (for a lock's guard: the lock is released)
pub fn vx_drop<T>(x: T) ensures has_resolved(x), {}
/// `format!(..)`: an arbitrary string.
#[verifier::external_body]
pub fn vx_string() -> String { String::new() }
/// a by-value loop over a vector: its elements are moved out in order
pub trait VxIntoSrc: Sized { type Item; spec fn src_ok(self, r: Seq<Self::Item>) -> bool; fn vx_src(self) -> (r: Vec<Self::Item>) ensures self.src_ok(r@); }
impl<T> VxIntoSrc for Vec<T> { type Item = T; open spec fn src_ok(self, r: Seq<T>) -> bool { r == self@ } #[verifier::external_body] fn vx_src(self) -> (r: Vec<T>) { self } }
impl<'a, T> VxIntoSrc for &'a [T] { type Item = &'a T; open spec fn src_ok(self, r: Seq<&'a T>) -> bool { r.len() == self@.len() && forall|i: int| #![trigger r[i]] #![trigger self@[i]] 0 <= i < r.len() ==> *r[i] == self@[i] } #[verifier::external_body] fn vx_src(self) -> (r: Vec<&'a T>) { self.iter().collect() } }
impl<'a, T> VxIntoSrc for &'a Vec<T> { type Item = &'a T; open spec fn src_ok(self, r: Seq<&'a T>) -> bool { r.len() == self@.len() && forall|i: int| #![trigger r[i]] #![trigger self@[i]] 0 <= i < r.len() ==> *r[i] == self@[i] } #[verifier::external_body] fn vx_src(self) -> (r: Vec<&'a T>) { self.iter().collect() } }
impl<T, const N: usize> VxIntoSrc for [T; N] { type Item = T; open spec fn src_ok(self, r: Seq<T>) -> bool { r == self@ } #[verifier::external_body] fn vx_src(self) -> (r: Vec<T>) { self.into_iter().collect() } }
pub fn vx_into_src<S: VxIntoSrc>(v: S) -> (r: Vec<S::Item>) ensures v.src_ok(r@), { v.vx_src() }
impl<T> VxIntoSrc for Option<T> { type Item = T; open spec fn src_ok(self, r: Seq<T>) -> bool { match self { Some(x) => r.len() == 1 && r[0] == x, None => r.len() == 0 } } #[verifier::external_body] fn vx_src(self) -> (r: Vec<T>) { self.into_iter().collect() } }
/// what `v.extend(x)` adds
pub trait VxExt<T>: Sized { spec fn xsq(self) -> Seq<T>; }
impl<T> VxExt<T> for Vec<T> { open spec fn xsq(self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxExt<T> for [T; N] { open spec fn xsq(self) -> Seq<T> { self@ } }
impl<'a, T: Copy> VxExt<T> for &'a [T] { open spec fn xsq(self) -> Seq<T> { self@ } }
impl<'a, T: Copy> VxExt<T> for &'a Vec<T> { open spec fn xsq(self) -> Seq<T> { self@ } }
impl<'a, T: Copy, const N: usize> VxExt<T> for &'a [T; N] { open spec fn xsq(self) -> Seq<T> { self@ } }
pub trait VxExtend<T> { spec fn esq(&self) -> Seq<T>; fn vx_extend<S: VxExt<T>>(&mut self, s: S) ensures final(self).esq() == old(self).esq() + s.xsq(); }
impl<T> VxExtend<T> for Vec<T> { open spec fn esq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_extend<S: VxExt<T>>(&mut self, s: S) { unimplemented!() } }
/// an item of `extend`, by value or (for Copy types) by reference
pub trait VxItem<T>: Sized { spec fn itm(self) -> T; fn vx_it(self) -> (r: T) ensures r == self.itm(); }
impl<T> VxItem<T> for T { open spec fn itm(self) -> T { self } fn vx_it(self) -> (r: T) { self } }
pub fn vx_item<T, S: VxItem<T>>(s: S) -> (r: T) ensures r == s.itm(), { s.vx_it() }
pub fn vx_cloned<T: Copy>(x: &T) -> (r: T) ensures r == *x, { *x }
#[verifier::external_body]
pub fn vx_move_out<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len(), ensures r == v@[i as int], { unimplemented!() }
/// `v.into_iter().next()`
#[verifier::external_body]
pub fn vx_take_first<T>(v: Vec<T>) -> (r: Option<T>) ensures r == (if v@.len() > 0 { Some(v@[0]) } else { None::<T> }), { v.into_iter().next() }
/// `s.chars()`
pub trait VxChars { spec fn csq(&self) -> Seq<char>; fn vx_chars(&self) -> (r: Vec<char>) ensures r@ == self.csq(); }
impl VxChars for str { open spec fn csq(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { self.chars().collect() } }
impl VxChars for String { open spec fn csq(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: Vec<char>) { self.chars().collect() } }
/// where a loop over n..e starts after `.skip(k)`
pub fn vx_skip(n: usize, e: usize, k: usize) -> (r: usize) ensures r as int == (if n >= e { n as int } else if n + k <= e { n + k } else { e as int }), { if n >= e { n } else if k <= e - n { n + k } else { e } }
pub fn vx_same<T>(a: T, b: T) -> (r: T) ensures r == a, { a }
pub assume_specification<Idx: Clone>[ <core::ops::Range<Idx> as Clone>::clone ](r: &core::ops::Range<Idx>) -> (s: core::ops::Range<Idx>)
    ensures vstd::pervasive::cloned(r.start, s.start), vstd::pervasive::cloned(r.end, s.end),
;
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int),
;
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int),
;
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r as int == (a as int + b as int - 1) / (b as int),
;
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None::<T> }),
;
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T)
    ensures r == (match x { Ok(v) => v, Err(_) => d }),
;
/// room made before there is anything to put in it
#[verifier::external_body]
pub fn vx_vec_cap<T>(n: usize) -> (r: Vec<T>) requires n <= vx_cap_limit(), ensures r@ == Seq::<T>::empty(), { Vec::with_capacity(n) }
/// as much room as a collection in memory has elements
#[verifier::external_body]
pub fn vx_vec_room<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vx_vec_repeat<T: Copy>(v: T, n: usize) -> (r: Vec<T>)
    requires n <= vx_cap_limit(),
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == v,
{ vec![v; n] }
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]),
        old(s)@.len() == 2 && a != b ==> final(s)@ == old(s)@.reverse(),
;
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse(),
;
/// slicing (`&s[lo..hi]`, `&mut s[lo..hi]`)
pub trait VxSl<T> {
    spec fn vsq(&self) -> Seq<T>;
    fn vx_sl(&self, lo: usize, hi: usize) -> (r: &[T])
        requires lo <= hi <= self.vsq().len(),
        ensures r@ == self.vsq().subrange(lo as int, hi as int);
    fn vx_sl_from(&self, lo: usize) -> (r: &[T])
        requires lo <= self.vsq().len(),
        ensures r@ == self.vsq().subrange(lo as int, self.vsq().len() as int);
    fn vx_sl_to(&self, hi: usize) -> (r: &[T])
        requires hi <= self.vsq().len(),
        ensures r@ == self.vsq().subrange(0, hi as int);
    fn vx_sl_all(&self) -> (r: &[T])
        ensures r@ == self.vsq();
    /// `&s[lo..][..n]`
    fn vx_sl_win(&self, lo: usize, n: usize) -> (r: &[T])
        requires lo <= self.vsq().len(), n <= self.vsq().len() - lo,
        ensures r@ == self.vsq().subrange(lo as int, lo + n);
    fn vx_slm_win(&mut self, lo: usize, n: usize) -> (r: &mut [T])
        requires lo <= old(self).vsq().len(), n <= old(self).vsq().len() - lo,
        ensures r@ == old(self).vsq().subrange(lo as int, lo + n),
            final(r)@.len() == r@.len() ==> spliced(old(self).vsq(), final(self).vsq(), lo as int, lo + n, final(r)@);
    fn vx_slm(&mut self, lo: usize, hi: usize) -> (r: &mut [T])
        requires lo <= hi <= old(self).vsq().len(),
        ensures r@ == old(self).vsq().subrange(lo as int, hi as int),
            final(r)@.len() == r@.len() ==> spliced(old(self).vsq(), final(self).vsq(), lo as int, hi as int, final(r)@);
    fn vx_slm_from(&mut self, lo: usize) -> (r: &mut [T])
        requires lo <= old(self).vsq().len(),
        ensures r@ == old(self).vsq().subrange(lo as int, old(self).vsq().len() as int),
            final(r)@.len() == r@.len() ==> spliced(old(self).vsq(), final(self).vsq(), lo as int, old(self).vsq().len() as int, final(r)@);
    fn vx_slm_to(&mut self, hi: usize) -> (r: &mut [T])
        requires hi <= old(self).vsq().len(),
        ensures r@ == old(self).vsq().subrange(0, hi as int),
            final(r)@.len() == r@.len() ==> spliced(old(self).vsq(), final(self).vsq(), 0, hi as int, final(r)@);
    fn vx_slm_all(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).vsq(), final(r)@.len() == r@.len() ==> final(self).vsq() == final(r)@;
}
/// `b` is `a` with the bytes lo..hi replaced by `m`
pub open spec fn spliced<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int, m: Seq<T>) -> bool {
    &&& a.len() == b.len()
    &&& b.subrange(lo, hi) == m
    &&& (forall|j: int| lo <= j < hi ==> #[trigger] b[j] == m[j - lo])
    &&& (forall|j: int| 0 <= j < lo ==> #[trigger] b[j] == a[j])
    &&& (forall|j: int| hi <= j < b.len() ==> #[trigger] b[j] == a[j])
}
pub mod vx_lemmas {
use vstd::prelude::*;
pub broadcast proof fn lemma_subrange2<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a,
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d),
{
    assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d));
}
}
VXSL_IMPLS
/// lemma: remainder of a sum with a multiple
pub proof fn lemma_mod_add(off: int, p: int, d: int)
    requires d > 0, off % d == 0, 0 <= p < d,
    ensures (off + p) % d == p, (off + d) % d == 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(off, d);
    let q = off / d;
    assert(off == q * d) by (nonlinear_arith) requires off == d * q + off % d, off % d == 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(off + p, d, off / d, p);
    assert(off + d == (q + 1) * d) by (nonlinear_arith) requires off == q * d;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(off + d, d, off / d + 1, 0);
}
"""


_IMPL = r"""
impl<T> VxSl<T> for TY {
    open spec fn vsq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sl(&self, lo: usize, hi: usize) -> (r: &[T]) { &self[lo..hi] }
    #[verifier::external_body] fn vx_sl_from(&self, lo: usize) -> (r: &[T]) { &self[lo..] }
    #[verifier::external_body] fn vx_sl_to(&self, hi: usize) -> (r: &[T]) { &self[..hi] }
    #[verifier::external_body] fn vx_sl_all(&self) -> (r: &[T]) { &self[..] }
    #[verifier::external_body] fn vx_sl_win(&self, lo: usize, n: usize) -> (r: &[T]) { &self[lo..][..n] }
    #[verifier::external_body] fn vx_slm_win(&mut self, lo: usize, n: usize) -> (r: &mut [T]) { &mut self[lo..][..n] }
    #[verifier::external_body] fn vx_slm(&mut self, lo: usize, hi: usize) -> (r: &mut [T]) { &mut self[lo..hi] }
    #[verifier::external_body] fn vx_slm_from(&mut self, lo: usize) -> (r: &mut [T]) { &mut self[lo..] }
    #[verifier::external_body] fn vx_slm_to(&mut self, hi: usize) -> (r: &mut [T]) { &mut self[..hi] }
    #[verifier::external_body] fn vx_slm_all(&mut self) -> (r: &mut [T]) { &mut self[..] }
}
"""
BASE = BASE.replace("VXSL_IMPLS", _IMPL.replace("TY", "[T]") + _IMPL.replace("TY", "Vec<T>"))


def _bytes():
    o = [r"""
// ---- prelude: byte order (assumed contracts on the std integer/byte conversions)
/// the unsigned little-endian value of a byte string
#[verifier::opaque]
pub open spec fn lev(s: Seq<u8>) -> int
    decreases s.len(),
{ if s.len() == 0 { 0 } else { s[0] as int + 0x100 * lev(s.drop_first()) } }
/// the unsigned big-endian value of a byte string
pub open spec fn bev(s: Seq<u8>) -> int { lev(s.reverse()) }
/// the unsigned little-endian value of the ws-byte word at byte offset o
pub open spec fn wv(s: Seq<u8>, ws: int, o: int) -> int { if ws == 1 { s[o] as int } else { lev(s.subrange(o, o + ws)) } }
/// the same, under a name that is not a quantifier trigger
pub open spec fn wvn(s: Seq<u8>, ws: int, o: int) -> int { if ws == 1 { s[o] as int } else { lev(s.subrange(o, o + ws)) } }
/// the unsigned big-endian value of the ws-byte word at byte offset o
pub open spec fn wvb(s: Seq<u8>, ws: int, o: int) -> int { if ws == 1 { s[o] as int } else { bev(s.subrange(o, o + ws)) } }
pub proof fn lemma_lev1(s: Seq<u8>)
    requires s.len() == 1,
    ensures lev(s) == s[0] as int, bev(s) == s[0] as int,
{
    reveal_with_fuel(lev, 3);
    assert(s.reverse() =~= s);
}
/// words inside [lo, hi) only depend on the bytes there
pub proof fn lemma_wv_frame(a: Seq<u8>, b: Seq<u8>, ws: int, lo: int, hi: int)
    requires 0 <= lo, hi <= a.len(), hi <= b.len(), forall|j: int| lo <= j < hi ==> #[trigger] a[j] == b[j], ws >= 1,
    ensures
        forall|o: int| lo <= o && o + ws <= hi ==> #[trigger] wv(b, ws, o) == wv(a, ws, o),
        forall|o: int| lo <= o && o + ws <= hi ==> #[trigger] wvn(b, ws, o) == wvn(a, ws, o),
        forall|o: int| lo <= o && o + ws <= hi ==> #[trigger] wvb(b, ws, o) == wvb(a, ws, o),
{
    assert forall|o: int| lo <= o && o + ws <= hi implies b.subrange(o, o + ws) == #[trigger] a.subrange(o, o + ws) by {
        assert(b.subrange(o, o + ws) =~= a.subrange(o, o + ws));
    }
    assert forall|o: int| lo <= o && o + ws <= hi implies #[trigger] wv(b, ws, o) == wv(a, ws, o) by { let _ = a.subrange(o, o + ws); assert(b.subrange(o, o + ws) == a.subrange(o, o + ws)); }
    assert forall|o: int| lo <= o && o + ws <= hi implies #[trigger] wvn(b, ws, o) == wvn(a, ws, o) by { assert(b.subrange(o, o + ws) == a.subrange(o, o + ws)); }
    assert forall|o: int| lo <= o && o + ws <= hi implies #[trigger] wvb(b, ws, o) == wvb(a, ws, o) by { assert(b.subrange(o, o + ws) == a.subrange(o, o + ws)); }
}
pub open spec fn wmod(ws: int) -> int {
    if ws == 1 { 0x100 } else if ws == 2 { 0x1_0000 } else if ws == 4 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000 }
}
/// wrapping addition of unsigned words
pub open spec fn wadd(a: int, b: int, ws: int) -> int {
    if a + b >= wmod(ws) { a + b - wmod(ws) } else { a + b }
}
/// n * ws, o is a multiple of ws (with ws one of 1, 2, 4, 8)
pub open spec fn wmul(n: int, ws: int) -> int { if ws == 1 { n } else if ws == 2 { 2 * n } else if ws == 4 { 4 * n } else { 8 * n } }
pub open spec fn wal(o: int, ws: int) -> bool { if ws == 1 { true } else if ws == 2 { o % 2 == 0 } else if ws == 4 { o % 4 == 0 } else { o % 8 == 0 } }
pub uninterp spec fn f32_bits(x: f32) -> int;
pub uninterp spec fn f64_bits(x: f64) -> int;
pub trait VxArr { spec fn sq(&self) -> Seq<u8>; }
impl<const N: usize> VxArr for [u8; N] { open spec fn sq(&self) -> Seq<u8> { self@ } }
pub trait VxBytes: Sized {
    type Out: VxArr;
    spec fn width(self) -> int;
    spec fn bits(self) -> int;
    fn vx_to_le_bytes(self) -> (r: Self::Out) ensures r.sq().len() == self.width(), lev(r.sq()) == self.bits();
    fn vx_to_be_bytes(self) -> (r: Self::Out) ensures r.sq().len() == self.width(), bev(r.sq()) == self.bits();
}
"""]
    for n in (1, 2, 4, 8):
        o.append(f"""
#[verifier::external_body] pub fn vx_arr{n}(v: &[u8]) -> (r: [u8; {n}]) requires v@.len() == {n}, ensures r@ == v@, {{ v.try_into().unwrap() }}
""")
    for t, n, bits in [("u8", 1, "self as int"), ("u16", 2, "self as int"), ("u32", 4, "self as int"), ("u64", 8, "self as int"),
                       ("i8", 1, "(if self < 0 { self as int + 0x100 } else { self as int })"),
                       ("i16", 2, "(if self < 0 { self as int + 0x1_0000 } else { self as int })"),
                       ("i32", 4, "(if self < 0 { self as int + 0x1_0000_0000 } else { self as int })"),
                       ("i64", 8, "(if self < 0 { self as int + 0x1_0000_0000_0000_0000 } else { self as int })"),
                       ("f32", 4, "f32_bits(self)"), ("f64", 8, "f64_bits(self)")]:
        rb = bits.replace("self", "r")
        o.append(f"""
impl VxBytes for {t} {{
    type Out = [u8; {n}];
    open spec fn width(self) -> int {{ {n} }}
    open spec fn bits(self) -> int {{ {bits} }}
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; {n}]) {{ self.to_le_bytes() }}
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; {n}]) {{ self.to_be_bytes() }}
}}
#[verifier::external_body] pub fn vx_{t}_from_le_bytes(a: [u8; {n}]) -> (r: {t}) ensures {rb} == lev(a@), {{ {t}::from_le_bytes(a) }}
#[verifier::external_body] pub fn vx_{t}_from_be_bytes(a: [u8; {n}]) -> (r: {t}) ensures {rb} == bev(a@), {{ {t}::from_be_bytes(a) }}
""")
    for t, n in (("u16", 2), ("u32", 4), ("u64", 8)):
        for f in ("swap_bytes", "to_be", "from_be"):
            o.append(f"""
pub assume_specification[ {t}::{f} ](v: {t}) -> (r: {t})
    ensures forall|b: Seq<u8>| b.len() == {n} && #[trigger] lev(b) == v ==> bev(b) == r, forall|b: Seq<u8>| b.len() == {n} && #[trigger] bev(b) == v ==> lev(b) == r,
;""")
        for f in ("to_le", "from_le"):
            o.append(f"\npub assume_specification[ {t}::{f} ](v: {t}) -> (r: {t}) ensures r == v,\n;\n")
    return "".join(o)


BYTES = _bytes()

ERR = r"""
// ---- prelude: the error type (the values of errors are not specified)
pub struct AsyncTiffError { pub general: String }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
impl AsyncTiffError {
    #[allow(non_snake_case)]
    pub fn General(s: String) -> Self { AsyncTiffError { general: s } }
}
"""

CAST = r"""
// ---- prelude: bytemuck casts of byte vectors (assumed contracts)
/// `w` holds the ws-byte words of `v`, in host order
pub open spec fn words_of<T: VxBytes>(v: Seq<u8>, w: Seq<T>, ws: int) -> bool {
    &&& wmul(w.len() as int, ws) == v.len()
    &&& (forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).bits() == wvn(v, ws, wmul(i, ws)))
}
pub trait VxPod: VxBytes { spec fn ws() -> int; }
impl VxPod for u8 { open spec fn ws() -> int { 1 } }
impl VxPod for u16 { open spec fn ws() -> int { 2 } }
impl VxPod for u32 { open spec fn ws() -> int { 4 } }
impl VxPod for u64 { open spec fn ws() -> int { 8 } }
impl VxPod for i8 { open spec fn ws() -> int { 1 } }
impl VxPod for i16 { open spec fn ws() -> int { 2 } }
impl VxPod for i32 { open spec fn ws() -> int { 4 } }
impl VxPod for i64 { open spec fn ws() -> int { 8 } }
impl VxPod for f32 { open spec fn ws() -> int { 4 } }
impl VxPod for f64 { open spec fn ws() -> int { 8 } }
pub trait VxNoUninit: Sized { spec fn bytes_ok(v: Seq<Self>, d: Seq<u8>) -> bool; }
impl VxNoUninit for u8 { open spec fn bytes_ok(v: Seq<u8>, d: Seq<u8>) -> bool { d == v } }
impl VxNoUninit for u16 { open spec fn bytes_ok(v: Seq<u16>, d: Seq<u8>) -> bool { words_of(d, v, 2) } }
impl VxNoUninit for u32 { open spec fn bytes_ok(v: Seq<u32>, d: Seq<u8>) -> bool { words_of(d, v, 4) } }
impl VxNoUninit for u64 { open spec fn bytes_ok(v: Seq<u64>, d: Seq<u8>) -> bool { words_of(d, v, 8) } }
impl VxNoUninit for i8 { open spec fn bytes_ok(v: Seq<i8>, d: Seq<u8>) -> bool { words_of(d, v, 1) } }
impl VxNoUninit for i16 { open spec fn bytes_ok(v: Seq<i16>, d: Seq<u8>) -> bool { words_of(d, v, 2) } }
impl VxNoUninit for i32 { open spec fn bytes_ok(v: Seq<i32>, d: Seq<u8>) -> bool { words_of(d, v, 4) } }
impl VxNoUninit for i64 { open spec fn bytes_ok(v: Seq<i64>, d: Seq<u8>) -> bool { words_of(d, v, 8) } }
impl VxNoUninit for f32 { open spec fn bytes_ok(v: Seq<f32>, d: Seq<u8>) -> bool { words_of(d, v, 4) } }
impl VxNoUninit for f64 { open spec fn bytes_ok(v: Seq<f64>, d: Seq<u8>) -> bool { words_of(d, v, 8) } }
impl VxNoUninit for bool { open spec fn bytes_ok(v: Seq<bool>, d: Seq<u8>) -> bool { d.len() == v.len() && forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == (if v[i] { 1u8 } else { 0u8 }) } }
#[verifier::external_body]
pub fn cast_slice<T: VxNoUninit>(v: &[T]) -> (r: &[u8])
    ensures T::bytes_ok(v@, r@),
{ unimplemented!() }
pub struct PodCastError;
#[verifier::external_body]
pub fn try_cast_vec<T: VxPod>(v: Vec<u8>) -> (r: Result<Vec<T>, (PodCastError, Vec<u8>)>)
    ensures match r { Ok(w) => words_of(v@, w@, T::ws()), Err((_, d)) => d@ == v@ },
{ unimplemented!() }
/// panics unless the layouts agree
#[verifier::external_body]
pub fn cast_vec<T: VxPod>(v: Vec<u8>) -> (r: Vec<T>)
    requires T::ws() == 1,
    ensures words_of(v@, r@, 1),
{ unimplemented!() }
"""

def _ints():
    ts = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"]
    o = ["""
// ---- prelude: checked integer conversions (assumed contract: `T::try_from(x)` is Ok exactly for the values of T)
pub struct TryFromIntError;
pub trait VxInt: Sized { spec fn ival(self) -> int; }
"""]
    for t in ts:
        o.append(f"impl VxInt for {t} {{ open spec fn ival(self) -> int {{ self as int }} }}\n")
        o.append(f"""#[verifier::external_body]
pub fn vx_try_from_{t}<S: VxInt>(x: S) -> (r: Result<{t}, TryFromIntError>)
    ensures match r {{ Ok(v) => v as int == x.ival(), Err(_) => x.ival() < {t}::MIN as int || x.ival() > {t}::MAX as int }},
{{ unimplemented!() }}
""")
        o.append(f"""/// `{t}::from(x)`: only lossless conversions have such an impl
#[verifier::external_body]
pub fn vx_from_{t}<S: VxInt>(x: S) -> (r: {t})
    ensures r as int == x.ival(),
{{ unimplemented!() }}
""")
    o.append("impl VxInt for char { open spec fn ival(self) -> int { self as int } }\nimpl VxInt for bool { open spec fn ival(self) -> int { if self { 1 } else { 0 } } }\n")
    return "".join(o)


INTS = _ints()

TIFFERR = r"""
// ---- prelude: error types (their payloads are not specified)
pub struct IoError;
pub enum TiffError { FormatError(TiffFormatError), UnsupportedError(TiffUnsupportedError), IoError(IoError), IntSizeError, UsageError }
pub struct TiffUnsupportedError;
impl From<TryFromIntError> for TiffError { #[verifier::external_body] fn from(e: TryFromIntError) -> Self { TiffError::IntSizeError } }
#[verifier::external_body]
pub fn vx_any_err<E>() -> E { unimplemented!() }
"""
BUF = r"""
// ---- prelude: bytes::Bytes and BytesMut (assumed contracts)
pub trait VxBuf { spec fn bsq(&self) -> Seq<u8>; }
impl VxBuf for [u8] { open spec fn bsq(&self) -> Seq<u8> { self@ } }
impl VxBuf for Vec<u8> { open spec fn bsq(&self) -> Seq<u8> { self@ } }
impl<'a, S: VxBuf + ?Sized> VxBuf for &'a S { open spec fn bsq(&self) -> Seq<u8> { (**self).bsq() } }
impl<const N: usize> VxBuf for [u8; N] { open spec fn bsq(&self) -> Seq<u8> { self@ } }
#[verifier::external_body] pub fn vx_bytes_eq<S: VxBuf + ?Sized, const N: usize>(s: &S, t: &[u8; N]) -> (r: bool) ensures r == (s.bsq() == t@), r == (s.bsq().len() == N && forall|i: int| 0 <= i < N ==> s.bsq()[i] == #[trigger] t@[i]), { unimplemented!() }
pub struct Bytes { pub v: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; closed spec fn view(&self) -> Seq<u8> { self.v@ } }
impl VxBuf for Bytes { open spec fn bsq(&self) -> Seq<u8> { self@ } }
impl Bytes {
    #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body] pub fn slice(&self, r: core::ops::Range<usize>) -> (b: Bytes)
        requires r.start <= r.end <= self@.len(), ensures b@ == self@.subrange(r.start as int, r.end as int), { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (b: Bytes) ensures b == *self, { unimplemented!() }
    #[verifier::external_body] pub fn as_ref(&self) -> (b: &[u8]) ensures b@ == self@, { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (b: Vec<u8>) ensures b@ == self@, { unimplemented!() }
}
#[verifier::external_body] pub fn vx_bytes_from<S: VxBuf>(s: S) -> (r: Bytes) ensures r@ == s.bsq(), { unimplemented!() }
pub struct BytesMut { pub v: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; closed spec fn view(&self) -> Seq<u8> { self.v@ } }
impl VxBuf for BytesMut { open spec fn bsq(&self) -> Seq<u8> { self@ } }
impl BytesMut {
    #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice<S: VxBuf + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.bsq(), { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@, { unimplemented!() }
    #[verifier::external_body] pub fn vx_into(self) -> (r: Bytes) ensures r@ == self@, { unimplemented!() }
}
"""

MAPS = r"""
// ---- prelude: std's hash map and set (assumed contracts)
pub struct VxMap<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> View for VxMap<K, V> { type V = Map<K, V>; open spec fn view(&self) -> Map<K, V> { self.m@ } }
pub open spec fn get<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.dom().contains(k) { Some(m[k]) } else { None } }
impl<K, V> VxMap<K, V> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) requires n <= vx_cap_limit(), ensures r@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == get(old(self)@, k), { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == get(old(self)@, *k), { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r.is_some() == self@.dom().contains(*k), r.is_some() ==> *r->0 == self@[*k], { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k), { unimplemented!() }
    /// `m.entry(k).or_insert(v)`
    #[verifier::external_body] pub fn vx_or_insert(&mut self, k: K, v: V) ensures final(self)@ == (if old(self)@.dom().contains(k) { old(self)@ } else { old(self)@.insert(k, v) }), { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::<K>::empty()), { unimplemented!() }
}
/// what the first n of the pairs say about a key
pub open spec fn look<K, V>(s: Seq<(K, V)>, n: int, k: K) -> Option<V> decreases n { if n <= 0 { None } else if s[n - 1].0 == k { Some(s[n - 1].1) } else { look(s, n - 1, k) } }
/// the first n of the pairs, as a map
pub open spec fn mapped<K, V>(s: Seq<(K, V)>, n: int) -> Map<K, V> decreases n { if n <= 0 { Map::empty() } else { mapped(s, n - 1).insert(s[n - 1].0, s[n - 1].1) } }
/// a loop over a map (`into_iter`, `drain`): its pairs in some order, each key once
impl<K, V> VxIntoSrc for VxMap<K, V> {
    type Item = (K, V);
    open spec fn src_ok(self, r: Seq<(K, V)>) -> bool {
        &&& (forall|k: K| #[trigger] look(r, r.len() as int, k) == get(self@, k))
        &&& (forall|i: int| 0 <= i < r.len() ==> self@.dom().contains((#[trigger] r[i]).0) && self@[r[i].0] == r[i].1)
        &&& mapped(r, r.len() as int) == self@
    }
    #[verifier::external_body] fn vx_src(self) -> (r: Vec<(K, V)>) { unimplemented!() }
}
pub struct VxSet<K> { pub m: Ghost<Set<K>> }
impl<K> View for VxSet<K> { type V = Set<K>; open spec fn view(&self) -> Set<K> { self.m@ } }
impl<K> VxSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k), { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k), { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) requires n <= vx_cap_limit(), ensures r@ == Set::<K>::empty(), { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k), { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K>::empty()), { unimplemented!() }
}
"""

FLOATS = r"""
// ---- prelude: floating point (IEEE operations are uninterpreted)
pub uninterp spec fn f64_of(x: u64) -> f64;
pub uninterp spec fn f64_mul(x: f64, y: f64) -> f64;
pub uninterp spec fn f64_div(x: f64, y: f64) -> f64;
pub uninterp spec fn f64_add(x: f64, y: f64) -> f64;
pub uninterp spec fn f64_sub(x: f64, y: f64) -> f64;
pub uninterp spec fn f64_ceil(x: f64) -> f64;
pub uninterp spec fn f64_round(x: f64) -> f64;
pub uninterp spec fn f64_floor(x: f64) -> f64;
pub uninterp spec fn u64_of(x: f64) -> u64;
pub uninterp spec fn usize_of(x: f64) -> usize;
pub uninterp spec fn u32_of(x: f64) -> u32;
#[verifier::external_body] pub fn vx_to_f64(x: u64) -> (r: f64) ensures r == f64_of(x), { x as f64 }
#[verifier::external_body] pub fn vx_f64_mul(x: f64, y: f64) -> (r: f64) ensures r == f64_mul(x, y), r == f64_mul(y, x), { x * y }
#[verifier::external_body] pub fn vx_f64_add(x: f64, y: f64) -> (r: f64) ensures r == f64_add(x, y), r == f64_add(y, x), { x + y }
#[verifier::external_body] pub fn vx_f64_sub(x: f64, y: f64) -> (r: f64) ensures r == f64_sub(x, y), { x - y }
#[verifier::external_body] pub fn vx_f64_div(x: f64, y: f64) -> (r: f64) ensures r == f64_div(x, y), { x / y }
#[verifier::external_body] pub fn vx_f64_ceil(x: f64) -> (r: f64) ensures r == f64_ceil(x), { x.ceil() }
#[verifier::external_body] pub fn vx_f64_round(x: f64) -> (r: f64) ensures r == f64_round(x), { x.round() }
#[verifier::external_body] pub fn vx_f64_floor(x: f64) -> (r: f64) ensures r == f64_floor(x), { x.floor() }
#[verifier::external_body] pub fn vx_f64_to_u64(x: f64) -> (r: u64) ensures r == u64_of(x), { x as u64 }
#[verifier::external_body] pub fn vx_f64_to_usize(x: f64) -> (r: usize) ensures r == usize_of(x), { x as usize }
#[verifier::external_body] pub fn vx_f64_to_u32(x: f64) -> (r: u32) ensures r == u32_of(x), { x as u32 }
"""
ALL = {"buf": BUF, "floats": FLOATS, "maps": MAPS, "ints": INTS, "tifferr": TIFFERR, "base": BASE, "bytes": BYTES, "err": ERR, "cast": CAST}
