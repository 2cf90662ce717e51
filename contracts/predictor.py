from vlib.verify import Unit

SPEC = r"""
pub struct AsyncTiffError { pub general: String }
pub type AsyncTiffResult<T> = Result<T, AsyncTiffError>;
impl AsyncTiffError {
    #[allow(non_snake_case)]
    pub fn General(s: String) -> Self { AsyncTiffError { general: s } }
}

/// word size for a bit depth
pub open spec fn ws_of(bits: int) -> int {
    if bits <= 8 { 1 } else if bits <= 16 { 2 } else if bits <= 32 { 4 } else { 8 }
}
pub open spec fn wsok(ws: int) -> bool { ws == 1 || ws == 2 || ws == 4 || ws == 8 }

/// value of the word at offset o, read in byte order e
pub open spec fn ev(a: Seq<u8>, ws: int, o: int, e: Endianness) -> int {
    if e == Endianness::LittleEndian { wv(a, ws, o) } else { wvb(a, ws, o) }
}
/// the words of `b` below `upto` are those of `a` read in byte order `e`, stored in host (little-endian) order; the bytes from `upto` on are untouched
#[verifier::opaque]
pub open spec fn e_upto(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, upto: int) -> bool {
    &&& a.len() == b.len()
    &&& (forall|o: int| 0 <= o && o + ws <= upto && wal(o, ws) ==> #[trigger] wv(b, ws, o) == ev(a, ws, o, e))
    &&& (forall|j: int| 0 <= upto <= j < a.len() ==> #[trigger] b[j] == a[j])
}
/// `b` is `a` with every complete ws-byte word converted from byte order `e` to host order
#[verifier::opaque]
pub open spec fn host_order(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness) -> bool {
    &&& a.len() == b.len()
    &&& (forall|o: int| 0 <= o && o + ws <= a.len() && wal(o, ws) ==> #[trigger] wv(b, ws, o) == ev(a, ws, o, e))
}
/// `b` is `a` with one ws-byte word at `at` replaced
pub open spec fn one_word(a: Seq<u8>, b: Seq<u8>, ws: int, at: int) -> bool {
    &&& a.len() == b.len()
    &&& 0 <= at && at + ws <= a.len()
    &&& (forall|j: int| 0 <= j < at ==> #[trigger] b[j] == a[j])
    &&& (forall|j: int| at + ws <= j < a.len() ==> #[trigger] b[j] == a[j])
}
pub proof fn lemma_below(r: int, lo: int, stride: int, q1: int, q2: int)
    requires r == stride * q1, lo == stride * q2, r < lo, stride > 0,
    ensures r + stride <= lo,
{
    vstd::arithmetic::mul::lemma_mul_is_commutative(stride, q1);
    vstd::arithmetic::mul::lemma_mul_is_commutative(stride, q2);
    if q1 >= q2 { vstd::arithmetic::mul::lemma_mul_inequality(q2, q1, stride); }
    vstd::arithmetic::mul::lemma_mul_inequality(q1 + 1, q2, stride);
    vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(stride, q1, 1);
}
pub proof fn lemma_e_base(a: Seq<u8>, ws: int, e: Endianness)
    requires wsok(ws),
    ensures e_upto(a, a, ws, e, 0),
        ws == 1 || e == Endianness::LittleEndian ==> host_order(a, a, ws, e),
{
    reveal(e_upto); reveal(host_order);
}
pub proof fn lemma_e_step(a: Seq<u8>, p: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, at: int)
    requires wsok(ws), e_upto(a, p, ws, e, at), one_word(p, b, ws, at), wal(at, ws), wv(b, ws, at) == ev(p, ws, at, e),
    ensures e_upto(a, b, ws, e, at + ws),
{
    reveal(e_upto);
    lemma_wv_frame(p, b, ws, 0, at);
    lemma_wv_frame(a, p, ws, at, a.len() as int);
    assert(wv(b, ws, at) == ev(a, ws, at, e));
    assert forall|o: int| 0 <= o && o + ws <= at + ws && wal(o, ws) implies #[trigger] wv(b, ws, o) == ev(a, ws, o, e) by {
        if o != at { assert(o + ws <= at); assert(wv(p, ws, o) == ev(a, ws, o, e)); }
    }
}
pub proof fn lemma_wal_floor(n: int, ws: int)
    requires n >= 0, wsok(ws),
    ensures wal(n - n % ws, ws),
{
    if ws == 1 { } else if ws == 2 { assert(n % ws == n % 2); assert((n - n % 2) % 2 == 0); }
    else if ws == 4 { assert(n % ws == n % 4); assert((n - n % 4) % 4 == 0); }
    else { assert(ws == 8); assert(n % ws == n % 8); assert((n - n % 8) % 8 == 0); }
}
pub proof fn lemma_wal_gap(lo: int, hi: int, ws: int)
    requires wsok(ws), wal(lo, ws), wal(hi, ws), lo < hi <= lo + ws,
    ensures hi == lo + ws,
{
    if ws == 1 { } else if ws == 2 { } else if ws == 4 { } else { assert(ws == 8); }
}
pub mod vx_lemmas_e {
use super::*;
pub broadcast proof fn lemma_e_end(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, u: int)
    requires #[trigger] e_upto(a, b, ws, e, u), wsok(ws), u + ws > a.len(), wal(u, ws),
    ensures host_order(a, b, ws, e),
{
    reveal(e_upto); reveal(host_order);
}
pub broadcast proof fn lemma_e_len(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness)
    requires #[trigger] host_order(a, b, ws, e), ensures a.len() == b.len(),
{ reveal(host_order); }
pub broadcast proof fn lemma_h_len(a: Seq<u8>, b: Seq<u8>, ws: int, s: int)
    requires #[trigger] hrow(a, b, ws, s), ensures a.len() == b.len(),
{ reveal(hrow); }
pub broadcast proof fn lemma_f_len(a: Seq<u8>, b: Seq<u8>, ws: int)
    requires #[trigger] fplane(a, b, ws), ensures a.len() == b.len(),
{ reveal(fplane); }
pub broadcast proof fn lemma_f_base(acc: Seq<u8>, out: Seq<u8>, ws: int)
    requires wsok(ws), acc.len() == out.len(),
    ensures #[trigger] f_upto(acc, out, ws, 0),
{ reveal(f_upto); }
pub broadcast proof fn lemma_h_end(a: Seq<u8>, b: Seq<u8>, ws: int, s: int, u: int)
    requires #[trigger] h_upto(a, b, ws, s, u), u >= a.len(),
    ensures hrow(a, b, ws, s),
{
    reveal(h_upto); reveal(hrow);
}
}

/// the value that belongs at offset o of an accumulated row: the difference plus the sample of the pixel to the left
pub open spec fn hval(a: Seq<u8>, b: Seq<u8>, ws: int, samples: int, o: int, col: int) -> int {
    if col < wmul(samples, ws) { wvn(a, ws, o) } else { wadd(wvn(a, ws, o), wvn(b, ws, o - wmul(samples, ws)), ws) }
}
/// `b` is the row `a` with its horizontal differences accumulated
#[verifier::opaque]
pub open spec fn hrow(a: Seq<u8>, b: Seq<u8>, ws: int, samples: int) -> bool {
    &&& a.len() == b.len()
    &&& (forall|o: int| 0 <= o && o + ws <= a.len() && wal(o, ws) ==> #[trigger] wv(b, ws, o) == hval(a, b, ws, samples, o, o))
}
/// the same below `upto`, with everything from `upto` on untouched
#[verifier::opaque]
pub open spec fn h_upto(a: Seq<u8>, b: Seq<u8>, ws: int, samples: int, upto: int) -> bool {
    &&& a.len() == b.len()
    &&& (forall|o: int| 0 <= o && o + ws <= upto && o + ws <= a.len() && wal(o, ws) ==> #[trigger] wv(b, ws, o) == hval(a, b, ws, samples, o, o))
    &&& (forall|j: int| 0 <= upto <= j < a.len() ==> #[trigger] b[j] == a[j])
}
pub proof fn lemma_h_base(a: Seq<u8>, ws: int, samples: int)
    requires wsok(ws), samples >= 0,
    ensures h_upto(a, a, ws, samples, wmul(samples, ws)), h_upto(a, a, ws, samples, 0),
{
    reveal(h_upto);
}
pub proof fn lemma_h_step(a: Seq<u8>, p: Seq<u8>, b: Seq<u8>, ws: int, samples: int, at: int)
    requires wsok(ws), samples >= 0, h_upto(a, p, ws, samples, at), one_word(p, b, ws, at), wal(at, ws),
        wv(b, ws, at) == hval(p, p, ws, samples, at, at),
        samples > 0 || wv(b, ws, at) == hval(p, b, ws, samples, at, at),
    ensures h_upto(a, b, ws, samples, at + ws),
{
    reveal(h_upto);
    lemma_wv_frame(p, b, ws, 0, at);
    lemma_wv_frame(a, p, ws, at, a.len() as int);
    let sw = wmul(samples, ws);
    assert(hval(p, p, ws, samples, at, at) == hval(a, p, ws, samples, at, at));
    if samples > 0 && at >= sw {
        assert(0 <= at - sw && at - sw + ws <= at);
        assert(wvn(b, ws, at - sw) == wvn(p, ws, at - sw));
    }
    assert(wv(b, ws, at) == hval(a, b, ws, samples, at, at));
    assert forall|o: int| 0 <= o && o + ws <= at + ws && o + ws <= a.len() && wal(o, ws) implies #[trigger] wv(b, ws, o) == hval(a, b, ws, samples, o, o) by {
        if o != at {
            assert(o + ws <= at);
            assert(wv(p, ws, o) == hval(a, p, ws, samples, o, o));
            if o >= sw { assert(wvn(b, ws, o - sw) == wvn(p, ws, o - sw)); }
        }
    }
}
// ---- whole buffers, row by row
/// what belongs at offset o of the decoded buffer, given the encoded buffer `a` and the decoded buffer `b`
pub open spec fn hdval(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, samples: int, o: int, col: int) -> int {
    if col < wmul(samples, ws) { ev(a, ws, o, e) } else { wadd(ev(a, ws, o, e), wvn(b, ws, o - wmul(samples, ws)), ws) }
}
/// `b` is the encoded buffer `a` with its byte order fixed and the horizontal differences of every row of `stride` bytes accumulated
#[verifier::opaque]
pub open spec fn hdiff(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, samples: int, stride: int) -> bool {
    &&& a.len() == b.len()
    &&& (forall|o: int| 0 <= o && o + ws <= a.len() && wal(o, ws) ==> #[trigger] wv(b, ws, o) == hdval(a, b, ws, e, samples, o, o % stride))
}
/// the same below `upto`; from `upto` on only the byte order is fixed
#[verifier::opaque]
pub open spec fn r_upto(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, samples: int, stride: int, upto: int) -> bool {
    &&& a.len() == b.len()
    &&& (forall|o: int| 0 <= o && o + ws <= upto && o + ws <= a.len() && wal(o, ws) ==> #[trigger] wv(b, ws, o) == hdval(a, b, ws, e, samples, o, o % stride))
    &&& (forall|o: int| 0 <= upto <= o && o + ws <= a.len() && wal(o, ws) ==> #[trigger] wv(b, ws, o) == ev(a, ws, o, e))
}
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub proof fn lemma_wal_mod(stride: int, o: int, ws: int)
    requires wsok(ws), stride > 0, wal(stride, ws), wal(o, ws),
    ensures wal(o % stride, ws),
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, stride);
    let q = o / stride;
    let r = o % stride;
    if ws == 2 { let k = stride / 2; assert(stride == 2 * k); assert(stride * q == 2 * (k * q)) by (nonlinear_arith) requires stride == 2 * k; }
    else if ws == 4 { let k = stride / 4; assert(stride == 4 * k); assert(stride * q == 4 * (k * q)) by (nonlinear_arith) requires stride == 4 * k; }
    else if ws == 8 { let k = stride / 8; assert(stride == 8 * k); assert(stride * q == 8 * (k * q)) by (nonlinear_arith) requires stride == 8 * k; }
}
pub proof fn lemma_r_step(a: Seq<u8>, p: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, samples: int, stride: int, lo: int, hi: int)
    requires wsok(ws), stride > 0, samples > 0, r_upto(a, p, ws, e, samples, stride, lo), lo % stride == 0, 0 <= lo < a.len(),
        hi == imin(lo + stride, a.len() as int), wal(lo, ws), wal(stride, ws), wal(a.len() as int, ws),
        p.len() == b.len(),
        forall|j: int| 0 <= j < lo ==> #[trigger] b[j] == p[j],
        forall|j: int| hi <= j < b.len() ==> #[trigger] b[j] == p[j],
        hrow(p.subrange(lo, hi), b.subrange(lo, hi), ws, samples),
    ensures r_upto(a, b, ws, e, samples, stride, hi),
{
    reveal(r_upto); reveal(hrow);
    let pr = p.subrange(lo, hi);
    let br = b.subrange(lo, hi);
    let sw = wmul(samples, ws);
    lemma_wv_frame(p, b, ws, 0, lo);
    lemma_wv_frame(p, b, ws, hi, b.len() as int);
    assert forall|o: int| 0 <= o && o + ws <= hi && o + ws <= a.len() && wal(o, ws) implies #[trigger] wv(b, ws, o) == hdval(a, b, ws, e, samples, o, o % stride) by {
        if o + ws <= lo {
            assert(wv(p, ws, o) == hdval(a, p, ws, e, samples, o, o % stride));
            if o % stride >= sw { 
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod(o, stride);
                assert(stride * (o / stride) >= 0) by (nonlinear_arith) requires stride > 0, o >= 0;
                assert(o - sw >= 0);
                assert(wvn(b, ws, o - sw) == wvn(p, ws, o - sw)); }
        } else {
            assert(o >= lo);
            let c = o - lo;
            lemma_mod_add(lo, c, stride);
            assert(o % stride == c);
            assert(br.subrange(c, c + ws) =~= b.subrange(o, o + ws));
            assert(pr.subrange(c, c + ws) =~= p.subrange(o, o + ws));
            assert(wal(c, ws));
            assert(wv(br, ws, c) == hval(pr, br, ws, samples, c, c));
            assert(wv(p, ws, o) == ev(a, ws, o, e));
            assert(wv(b, ws, o) == wv(br, ws, c));
            assert(wvn(pr, ws, c) == wv(p, ws, o));
            if c >= sw {
                assert(br.subrange(c - sw, c - sw + ws) =~= b.subrange(o - sw, o - sw + ws));
                assert(wvn(br, ws, c - sw) == wvn(b, ws, o - sw));
            }
        }
    }
    assert forall|o: int| 0 <= hi <= o && o + ws <= a.len() && wal(o, ws) implies #[trigger] wv(b, ws, o) == ev(a, ws, o, e) by {
        assert(wv(p, ws, o) == ev(a, ws, o, e));
    }
    assert(hi == a.len() || hi == lo + stride);
}
pub mod vx_lemmas_r {
use super::*;
/// a vector of bytes has at most isize::MAX elements
pub broadcast axiom fn axiom_vec_u8_len(v: Vec<u8>) ensures #[trigger] v@.len() <= isize::MAX;
pub broadcast proof fn lemma_r_base(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, samples: int, stride: int)
    requires #[trigger] host_order(a, b, ws, e), wsok(ws),
    ensures #[trigger] r_upto(a, b, ws, e, samples, stride, 0),
{
    reveal(r_upto); reveal(host_order);
}
pub broadcast proof fn lemma_r_end(a: Seq<u8>, b: Seq<u8>, ws: int, e: Endianness, samples: int, stride: int, u: int)
    requires #[trigger] r_upto(a, b, ws, e, samples, stride, u), u >= a.len(),
    ensures hdiff(a, b, ws, e, samples, stride),
{
    reveal(r_upto); reveal(hdiff);
}
pub broadcast proof fn lemma_bev_ext(s: Seq<u8>, t: Seq<u8>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == t[i],
    ensures #[trigger] bev(s) == #[trigger] bev(t),
{
    assert(s =~= t);
}
pub broadcast proof fn lemma_f_end(acc: Seq<u8>, out: Seq<u8>, ws: int, u: int)
    requires #[trigger] f_upto(acc, out, ws, u), u + ws > out.len(), wal(u, ws), wsok(ws),
    ensures fplane(acc, out, ws),
{
    reveal(f_upto); reveal(fplane);
}
pub broadcast proof fn lemma_fl_end(a: Seq<u8>, out: Seq<u8>, ws: int, samples: int, stride: int, u: int)
    requires #[trigger] fl_upto(a, out, ws, samples, stride, u), u >= a.len(),
    ensures fdiff(a, out, ws, samples, stride),
{
    reveal(fl_upto); reveal(fdiff);
}
}
// ---- floating-point predictor
/// the bytes of sample k, most significant first, of an accumulated row (one plane of len/ws bytes per byte of the sample)
pub open spec fn planes(acc: Seq<u8>, ws: int, k: int) -> Seq<u8> {
    let n = acc.len() as int;
    if ws == 2 { seq![acc[k], acc[n / 2 + k]] }
    else if ws == 4 { seq![acc[k], acc[n / 4 + k], acc[n / 4 * 2 + k], acc[n / 4 * 3 + k]] }
    else { seq![acc[k], acc[n / 8 + k], acc[n / 8 * 2 + k], acc[n / 8 * 3 + k], acc[n / 8 * 4 + k], acc[n / 8 * 5 + k], acc[n / 8 * 6 + k], acc[n / 8 * 7 + k]] }
}
pub open spec fn wdiv(o: int, ws: int) -> int { if ws == 1 { o } else if ws == 2 { o / 2 } else if ws == 4 { o / 4 } else { o / 8 } }
#[verifier::opaque]
pub open spec fn fplane(acc: Seq<u8>, out: Seq<u8>, ws: int) -> bool {
    &&& out.len() == acc.len()
    &&& (forall|o: int| 0 <= o && o + ws <= out.len() && wal(o, ws) ==> #[trigger] wv(out, ws, o) == bev(planes(acc, ws, wdiv(o, ws))))
}
#[verifier::opaque]
pub open spec fn f_upto(acc: Seq<u8>, out: Seq<u8>, ws: int, upto: int) -> bool {
    &&& out.len() == acc.len()
    &&& (forall|o: int| 0 <= o && o + ws <= upto && wal(o, ws) ==> #[trigger] wv(out, ws, o) == bev(planes(acc, ws, wdiv(o, ws))))
}
pub proof fn lemma_f_step(acc: Seq<u8>, p: Seq<u8>, b: Seq<u8>, ws: int, at: int)
    requires wsok(ws), f_upto(acc, p, ws, at), one_word(p, b, ws, at), wal(at, ws), wv(b, ws, at) == bev(planes(acc, ws, wdiv(at, ws))),
    ensures f_upto(acc, b, ws, at + ws),
{
    reveal(f_upto);
    lemma_wv_frame(p, b, ws, 0, at);
    assert forall|o: int| 0 <= o && o + ws <= at + ws && wal(o, ws) implies #[trigger] wv(b, ws, o) == bev(planes(acc, ws, wdiv(o, ws))) by {
        if o != at { assert(o + ws <= at); assert(wv(p, ws, o) == bev(planes(acc, ws, wdiv(o, ws)))); }
    }
}
/// one decoded row: byte-wise accumulation, then the byte planes joined into samples
pub open spec fn frow(a: Seq<u8>, out: Seq<u8>, ws: int, samples: int) -> bool {
    exists|acc: Seq<u8>| #[trigger] hrow(a, acc, 1, samples) && fplane(acc, out, ws)
}
pub open spec fn frow_at(a: Seq<u8>, out: Seq<u8>, ws: int, samples: int, stride: int, r: int) -> bool {
    frow(a.subrange(r, imin(r + stride, a.len() as int)), out.subrange(r, imin(r + stride, a.len() as int)), ws, samples)
}
/// every row of `stride` bytes is decoded
#[verifier::opaque]
pub open spec fn fdiff(a: Seq<u8>, out: Seq<u8>, ws: int, samples: int, stride: int) -> bool {
    &&& a.len() == out.len()
    &&& (forall|r: int| 0 <= r < a.len() && r % stride == 0 ==> #[trigger] frow_at(a, out, ws, samples, stride, r))
}
#[verifier::opaque]
pub open spec fn fl_upto(a: Seq<u8>, out: Seq<u8>, ws: int, samples: int, stride: int, upto: int) -> bool {
    &&& a.len() == out.len()
    &&& (forall|r: int| 0 <= r < a.len() && r < upto && r % stride == 0 ==> #[trigger] frow_at(a, out, ws, samples, stride, r))
}
#[verifier::opaque]
pub open spec fn tail_same(a: Seq<u8>, b: Seq<u8>, from: int) -> bool {
    &&& a.len() == b.len()
    &&& forall|j: int| 0 <= from <= j < a.len() ==> #[trigger] a[j] == b[j]
}
pub proof fn lemma_fl_base(a: Seq<u8>, ws: int, samples: int, stride: int)
    ensures forall|out: Seq<u8>| out.len() == a.len() ==> #[trigger] fl_upto(a, out, ws, samples, stride, 0), tail_same(a, a, 0),
{ reveal(fl_upto); reveal(tail_same); }
pub proof fn lemma_fl_step(a: Seq<u8>, bp: Seq<u8>, bc: Seq<u8>, op: Seq<u8>, oc: Seq<u8>, ws: int, samples: int, stride: int, lo: int, hi: int)
    requires fl_upto(a, op, ws, samples, stride, lo), tail_same(a, bp, lo), stride > 0, lo % stride == 0, 0 <= lo < a.len(),
        hi == imin(lo + stride, a.len() as int), bc.len() == bp.len(), oc.len() == op.len(),
        forall|j: int| hi <= j < bc.len() ==> #[trigger] bc[j] == bp[j],
        forall|j: int| 0 <= j < lo ==> #[trigger] oc[j] == op[j],
        hrow(bp.subrange(lo, hi), bc.subrange(lo, hi), 1, samples),
        fplane(bc.subrange(lo, hi), oc.subrange(lo, hi), ws),
    ensures fl_upto(a, oc, ws, samples, stride, hi), tail_same(a, bc, hi), hi == a.len() || hi % stride == 0,
{
    reveal(fl_upto); reveal(tail_same);
    lemma_mod_add(lo, 0, stride);
    assert(a.subrange(lo, hi) =~= bp.subrange(lo, hi));
    assert(frow_at(a, oc, ws, samples, stride, lo));
    assert forall|r: int| 0 <= r < a.len() && r < hi && r % stride == 0 implies #[trigger] frow_at(a, oc, ws, samples, stride, r) by {
        if r < lo {
            // rows do not overlap: r + stride <= lo
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(r, stride);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(lo, stride);
            let q1 = r / stride; let q2 = lo / stride;
            lemma_below(r, lo, stride, q1, q2);
            assert(frow_at(a, op, ws, samples, stride, r));
            assert(oc.subrange(r, imin(r + stride, a.len() as int)) =~= op.subrange(r, imin(r + stride, a.len() as int)));
        } else if r > lo {
            let c = r - lo;
            lemma_mod_add(lo, c, stride);
            assert(false);
        }
    }
}
pub proof fn lemma_stride(w: int, s: int, bps: int)
    requires 0 <= w <= 0xFFFF_FFFF, 0 <= s <= 0xFFFF, 0 <= bps <= 0x2000,
    ensures 0 <= w * s <= 0xFFFF_FFFF * 0xFFFF, 0 <= w * s * bps <= 0xFFFF_FFFF * 0xFFFF * 0x2000,
        s * bps <= 0xFFFF * 0x2000, w * bps <= 0xFFFF_FFFF * 0x2000,
        w * s * bps == w * (s * bps), w * s * bps == s * w * bps, w * s * bps == (w * bps) * s,
        s == 0 || w == 0 || bps == 0 ==> w * s * bps == 0,
{
    assert(0 <= w * s <= 0xFFFF_FFFF * 0xFFFF) by (nonlinear_arith) requires 0 <= w <= 0xFFFF_FFFF, 0 <= s <= 0xFFFF;
    assert(s * bps <= 0xFFFF * 0x2000) by (nonlinear_arith) requires 0 <= s <= 0xFFFF, 0 <= bps <= 0x2000;
    assert(w * bps <= 0xFFFF_FFFF * 0x2000) by (nonlinear_arith) requires 0 <= w <= 0xFFFF_FFFF, 0 <= bps <= 0x2000;
    let ws = w * s;
    assert(0 <= ws * bps <= 0xFFFF_FFFF * 0xFFFF * 0x2000) by (nonlinear_arith) requires 0 <= ws <= 0xFFFF_FFFF * 0xFFFF, 0 <= bps <= 0x2000;
    assert(w * s * bps == w * (s * bps)) by (nonlinear_arith);
    assert(w * s * bps == s * w * bps) by (nonlinear_arith);
    assert(w * s * bps == (w * bps) * s) by (nonlinear_arith);
    if s == 0 || w == 0 { assert(w * s == 0) by (nonlinear_arith) requires s == 0 || w == 0; }
    assert(ws == 0 || bps == 0 ==> ws * bps == 0) by (nonlinear_arith);
}
"""

UNIT = Unit("predictor", prelude=["base", "bytes"], types={"Endianness": {"derive": ["Clone", "Copy", "PartialEq", "Eq", "Structural"]}}, spec=SPEC,
            broadcast=["vx_lemmas_r::axiom_vec_u8_len", "vx_lemmas_e::lemma_e_end", "vx_lemmas_e::lemma_e_len", "vx_lemmas_e::lemma_h_len", "vx_lemmas_e::lemma_f_len", "vx_lemmas_e::lemma_f_base", "vx_lemmas_e::lemma_h_end", "vx_lemmas_r::lemma_r_base", "vx_lemmas_r::lemma_r_end",
                       "vx_lemmas_r::lemma_bev_ext", "vx_lemmas_r::lemma_f_end", "vx_lemmas_r::lemma_fl_end"])
U = UNIT

U.fn("fix_endianness", ["C03", "C24"],
     requires=[],
     ensures=[("C03:host-order", "host_order(old($0)@, final($0)@, ws_of($2 as int), $1)")],
     entry=["lemma_e_base($in0, ws_of($2 as int), $1);"],
     inv=["$0@.len() == $in0.len()", "wal(%i as int, ws_of($2 as int))", "%i <= $0@.len()",
          "e_upto($in0, $0@, ws_of($2 as int), $1, %i as int)"],
     alt={"entry": ["lemma_wal_floor($in0.len() as int, ws_of($2 as int));"], "inv": ["wal(%e as int, ws_of($2 as int))"],
          "end": ["lemma_wal_gap(vi_%i, %i as int, ws_of($2 as int)); lemma_e_step($in0, vp_$0, $0@, ws_of($2 as int), $1, vi_%i);"]},
     end=["lemma_e_step($in0, vp_$0, $0@, ws_of($2 as int), $1, vi_%i);"],
     )

U.fn("rev_hpredict_row", ["C01", "C24"],
     requires=["$1 <= 64", "wal(old($0)@.len() as int, ws_of($1 as int))", "0 < $2", "$2 * 8 <= usize::MAX"],
     ensures=[("C01:row-accumulated", "final($0)@.len() == old($0)@.len() && hrow(old($0)@, final($0)@, ws_of($1 as int), $2 as int)")],
     entry=["lemma_h_base($in0, ws_of($1 as int), $2 as int);"],
     inv=["$0@.len() == $in0.len()", "wal(%i as int, ws_of($1 as int))", "%i >= wmul($2 as int, ws_of($1 as int))",
          "h_upto($in0, $0@, ws_of($1 as int), $2 as int, %i as int)"],
     end=["lemma_h_step($in0, vp_$0, $0@, ws_of($1 as int), $2 as int, vi_%i);"],
     )

STR = "($4 as int * $2 as int * ((($3 as int) + 7) / 8))"
WS = "ws_of($3 as int)"
U.fn("unpredict_hdiff", ["C01", "C24"],
     requires=["$2 <= 0xFFFF", "$4 <= 0xFFFF_FFFF"],
     ensures=[("C01:decoded", f"$r.is_ok() ==> hdiff($0@, $r->Ok_0@, {WS}, $1, $2 as int, {STR})"),
              ("C01:accepts-every-well-formed-buffer", f"$r.is_err() ==> $3 > 64 || {STR} == 0 || !wal({STR}, {WS}) || !wal($0@.len() as int, {WS})")],
     entry=["lemma_stride($4 as int, $2 as int, ($3 as int + 7) / 8);"],
     inv=["$0@.len() == $in0.len()", f"wal(%i as int, {WS})", "%i <= $0@.len()", f"%i == $0@.len() || %i as int % {STR} == 0",
          f"r_upto($in0, $0@, {WS}, $1, $2 as int, {STR}, %i as int)"],
     end=[f"lemma_mod_add(vi_%i, 0, {STR});", f"lemma_r_step($in0, vp_$0, $0@, {WS}, $1, $2 as int, {STR}, vi_%i, %i as int);"],
     )
for n, w in (("f16", 2), ("f32", 4), ("f64", 8)):
    U.fn("rev_predict_" + n, ["C02", "C24"],
         requires=["old($0)@.len() == old($1)@.len()", "0 < $2"],
         ensures=[("C02:bytes-accumulated", "final($0)@.len() == old($0)@.len() && hrow(old($0)@, final($0)@, 1, $2 as int)"),
                  ("C02:planes-joined", f"fplane(final($0)@, final($1)@, {w})")],
         entry=["lemma_h_base($in0, 1, $2 as int);"],
         inv=["$0@.len() == $in0.len()", "$1@.len() == $in1.len()", "%i <= $0@.len()", f"wal(%i as int, {w})", f"%i == {w} * %i2",
              "%i as int >= $2", "h_upto($in0, $0@, 1, $2 as int, %i as int)", "hrow($in0, $0@, 1, $2 as int)",
              f"f_upto($0@, $1@, {w}, %i as int)"],
         end=["lemma_h_step($in0, vp_$0, $0@, 1, $2 as int, vi_%i);",
              f"lemma_f_step($0@, vp_$1, $1@, {w}, vi_%i);"],
         )
FS = "($3 as int * $1 as int * (($2 as int) / 8))"
FW = "ws_of($2 as int)"
U.fn("unpredict_float", ["C02", "C24"],
     requires=["$1 <= 0xFFFF", "$3 <= 0xFFFF_FFFF"],
     ensures=[("C02:decoded", f"$r.is_ok() && $0@.len() > 0 ==> ($2 == 16 || $2 == 32 || $2 == 64) && fdiff($0@, $r->Ok_0@, {FW}, $1 as int, {FS})"),
              ("C02:length", "$r.is_ok() ==> $r->Ok_0@.len() == $0@.len()"),
              ("C02:accepts-every-well-formed-buffer", f"$r.is_err() ==> {FS} == 0 || !($2 == 16 || $2 == 32 || $2 == 64)")],
     entry=["lemma_stride($3 as int, $1 as int, ($2 as int) / 8);", f"lemma_fl_base($in0, {FW}, $1 as int, {FS});"],
     inv=["$0@.len() == $in0.len()", "%s@.len() == $in0.len()", "%i <= $0@.len()", f"%i == $0@.len() || %i as int % {FS} == 0", "%i == %i2", "%i == 0 || ($2 == 16 || $2 == 32 || $2 == 64)",
          "tail_same($in0, $0@, %i as int)", f"fl_upto($in0, %s@, {FW}, $1 as int, {FS}, %i as int)"],
     end=[f"lemma_fl_step($in0, vp_$0, $0@, vp_%s, %s@, {FW}, $1 as int, {FS}, vi_%i, %i as int);"],
     )
