import re
from vlib.verify import Unit

SPEC = r"""
/// the bytes of the first n buffers
pub open spec fn cat(b: Seq<Bytes>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { seq![] } else { cat(b, n - 1) + b[n - 1]@ }
}
impl SequentialBlockCache {
    /// the held bytes
    #[verifier::opaque]
    pub open spec fn held(&self) -> Seq<u8> { cat(self.buffers@, self.buffers@.len() as int) }
    pub open spec fn wf(&self) -> bool { self.len as int == self.held().len() }
}
/// what a source holding `f` answers to a request: the bytes of the range that exist
pub open spec fn clip(f: Seq<u8>, lo: int, hi: int) -> Seq<u8> {
    let h = if hi <= f.len() { hi } else { f.len() as int };
    if lo < h { f.subrange(lo, h) } else { seq![] }
}
/// `out` is what the range lo..hi has in the first n buffers, and [s, e) is the rest of the range relative to buffer n; or all is done and [s, e) is empty
#[verifier::opaque]
pub open spec fn sl_upto(b: Seq<Bytes>, lo: int, hi: int, out: Seq<Bytes>, s: int, e: int, n: int) -> bool {
    let t = cat(b, n);
    &&& 0 <= n <= b.len()
    &&& 0 <= s <= e
    &&& ({
        &&& cat(out, out.len() as int) == clip(t, lo, hi)
        &&& e == hi - t.len()
        &&& s == (if lo >= t.len() { lo - t.len() } else { 0 })
    } || s == e && sl_done(b, lo, hi, out))
}
pub open spec fn sl_done(b: Seq<Bytes>, lo: int, hi: int, out: Seq<Bytes>) -> bool {
    cat(out, out.len() as int) == clip(cat(b, b.len() as int), lo, hi)
}
/// what the body of the loop needs to know
pub open spec fn sl_facts(b: Seq<Bytes>, hi: int, s: int, e: int, n: int) -> bool {
    &&& 0 <= n <= b.len()
    &&& 0 <= s <= e <= hi
}
pub proof fn lemma_cat_ext(a: Seq<Bytes>, b: Seq<Bytes>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures cat(a, n) == cat(b, n),
    decreases n,
{ if n > 0 { lemma_cat_ext(a, b, n - 1); } }
pub proof fn lemma_cat_prefix(b: Seq<Bytes>, n: int, m: int)
    requires 0 <= n <= m <= b.len(),
    ensures cat(b, n).len() <= cat(b, m).len(), cat(b, n) == cat(b, m).subrange(0, cat(b, n).len() as int),
    decreases m - n,
{
    if n < m { lemma_cat_prefix(b, n, m - 1); assert(cat(b, n) =~= cat(b, m).subrange(0, cat(b, n).len() as int)); }
    else { assert(cat(b, n) =~= cat(b, m).subrange(0, cat(b, n).len() as int)); }
}
pub proof fn lemma_cat_push(b: Seq<Bytes>)
    ensures forall|x: Bytes| cat(#[trigger] b.push(x), b.len() as int + 1) == cat(b, b.len() as int) + x@,
{
    assert forall|x: Bytes| cat(#[trigger] b.push(x), b.len() as int + 1) == cat(b, b.len() as int) + x@ by { lemma_cat_ext(b, b.push(x), b.len() as int); }
}
pub proof fn lemma_sl_base(b: Seq<Bytes>, lo: int, hi: int)
    requires 0 <= lo <= hi,
    ensures sl_upto(b, lo, hi, seq![], lo, hi, 0),
{ reveal(sl_upto); assert(clip(seq![], lo, hi) =~= seq![]); }
/// once the range ends within the first n buffers, the rest adds nothing
pub proof fn lemma_clip_prefix(b: Seq<Bytes>, n: int, lo: int, hi: int)
    requires 0 <= n <= b.len(), 0 <= lo <= hi, hi <= cat(b, n).len() || lo == hi,
    ensures clip(cat(b, n), lo, hi) == clip(cat(b, b.len() as int), lo, hi),
{
    lemma_cat_prefix(b, n, b.len() as int);
    assert(clip(cat(b, n), lo, hi) =~= clip(cat(b, b.len() as int), lo, hi));
}
/// the step over buffer n: skip it, or take its part of the range
pub proof fn lemma_sl_next(b: Seq<Bytes>, lo: int, hi: int, p: Seq<Bytes>, s: int, e: int, n: int)
    requires sl_upto(b, lo, hi, p, s, e, n), 0 <= n < b.len(), 0 <= lo <= hi,
    ensures
        s >= b[n]@.len() ==> sl_upto(b, lo, hi, p, s - b[n]@.len(), e - b[n]@.len(), n + 1),
        s == e ==> sl_upto(b, lo, hi, p, s, e, n + 1),
        s < b[n]@.len() && s < e && e <= b[n]@.len() ==> forall|c: Bytes| c@ == b[n]@.subrange(s, e) ==> sl_done(b, lo, hi, #[trigger] p.push(c)),
        s < b[n]@.len() && s < e && e > b[n]@.len() ==> forall|c: Bytes| c@ == b[n]@.subrange(s, b[n]@.len() as int) ==> sl_upto(b, lo, hi, #[trigger] p.push(c), 0, e - b[n]@.len(), n + 1),
        s < b[n]@.len() && s < e && e == b[n]@.len() ==> forall|c: Bytes| c@ == b[n]@.subrange(s, b[n]@.len() as int) ==> sl_upto(b, lo, hi, #[trigger] p.push(c), 0, 0, n + 1),
{
    reveal(sl_upto);
    let t = cat(b, n);
    let t2 = cat(b, n + 1);
    assert(t2 == t + b[n]@);
    lemma_cat_push(p);
    if e == hi - t.len() && s == (if lo >= t.len() { lo - t.len() } else { 0 }) && cat(p, p.len() as int) == clip(t, lo, hi) {
        if s >= b[n]@.len() { assert(clip(t2, lo, hi) =~= clip(t, lo, hi)); }
        if s == e { lemma_clip_prefix(b, n, lo, hi); }
        if s < b[n]@.len() && s < e {
            let x = if e <= b[n]@.len() { e } else { b[n]@.len() as int };
            let c = b[n]@.subrange(s, x);
            assert(clip(t, lo, hi) + c =~= clip(t2, lo, hi));
            if e <= b[n]@.len() { lemma_clip_prefix(b, n + 1, lo, hi); }
        }
    }
}
pub proof fn lemma_sl_end(b: Seq<Bytes>, lo: int, hi: int, out: Seq<Bytes>, s: int, e: int)
    requires sl_upto(b, lo, hi, out, s, e, b.len() as int),
    ensures sl_done(b, lo, hi, out),
{ reveal(sl_upto); }
/// the same with offsets from the start of the file: `out` is what the range has in the first n buffers
#[verifier::opaque]
pub open spec fn ab_upto(b: Seq<Bytes>, lo: int, hi: int, out: Seq<Bytes>, n: int) -> bool {
    0 <= n <= b.len() && cat(out, out.len() as int) == clip(cat(b, n), lo, hi)
}
pub proof fn lemma_ab_base(b: Seq<Bytes>, lo: int, hi: int)
    requires 0 <= lo <= hi,
    ensures ab_upto(b, lo, hi, seq![], 0),
{ reveal(ab_upto); assert(clip(seq![], lo, hi) =~= seq![]); }
pub proof fn lemma_ab_next(b: Seq<Bytes>, lo: int, hi: int, p: Seq<Bytes>, n: int)
    requires ab_upto(b, lo, hi, p, n), 0 <= n < b.len(), 0 <= lo <= hi,
    ensures ({
        let t = cat(b, n).len();
        let l = b[n]@.len();
        let s = if lo >= t { lo - t } else { 0 };
        let e = if hi - t <= l { hi - t } else { l as int };
        &&& cat(b, n + 1).len() == t + l
        &&& t + l <= cat(b, b.len() as int).len()
        &&& lo >= t + l || hi <= t || lo == hi || l == 0 ==> ab_upto(b, lo, hi, p, n + 1)
        &&& hi <= t || lo == hi ==> sl_done(b, lo, hi, p)
        &&& s < e ==> forall|c: Bytes| c@ == b[n]@.subrange(s, e) ==> ab_upto(b, lo, hi, #[trigger] p.push(c), n + 1) && (hi <= t + l ==> sl_done(b, lo, hi, p.push(c)))
    }),
{
    reveal(ab_upto);
    let t = cat(b, n);
    let t2 = cat(b, n + 1);
    assert(t2 == t + b[n]@);
    lemma_cat_push(p);
    lemma_cat_prefix(b, n + 1, b.len() as int);
    let s = if lo >= t.len() { lo - t.len() } else { 0 };
    let e = if hi - t.len() <= b[n]@.len() { hi - t.len() } else { b[n]@.len() as int };
    if lo >= t2.len() || hi <= t.len() || lo == hi || b[n]@.len() == 0 { assert(clip(t2, lo, hi) =~= clip(t, lo, hi)); }
    if hi <= t.len() || lo == hi { lemma_clip_prefix(b, n, lo, hi); }
    if s < e { assert(clip(t, lo, hi) + b[n]@.subrange(s, e) =~= clip(t2, lo, hi)); if hi <= t2.len() { lemma_clip_prefix(b, n + 1, lo, hi); } }
}
pub mod vx_lemmas_c {
use super::*;
pub broadcast proof fn lemma_ab_end(b: Seq<Bytes>, lo: int, hi: int, out: Seq<Bytes>, n: int)
    requires #[trigger] ab_upto(b, lo, hi, out, n), n >= b.len(),
    ensures sl_done(b, lo, hi, out),
{ reveal(ab_upto); }
pub broadcast proof fn lemma_cat_one(b: Seq<Bytes>, n: int)
    requires n == 1, b.len() >= 1,
    ensures #[trigger] cat(b, n) == b[0]@,
{ reveal_with_fuel(cat, 2); assert(cat(b, 0) =~= seq![]); assert(cat(b, n) =~= b[0]@); }
pub broadcast proof fn lemma_sl_end2(b: Seq<Bytes>, lo: int, hi: int, out: Seq<Bytes>, s: int, e: int, n: int)
    requires #[trigger] sl_upto(b, lo, hi, out, s, e, n), n == b.len(),
    ensures sl_done(b, lo, hi, out),
{ reveal(sl_upto); }
}
"""


UNIT = Unit("cache", prelude=["base", "buf", "floats", "err"], types={"SequentialBlockCache": {"derive": []}}, spec=SPEC,
            rename_methods={"into": "vx_into"}, code_uses="use core::ops::Range;", broadcast=["vx_lemmas_c::lemma_ab_end", "vx_lemmas_c::lemma_cat_one", "vx_lemmas_c::lemma_sl_end2"])
U = UNIT
U.fn("SequentialBlockCache::new", ["C07", "C08"], ensures=[("empty", "$r.held() == Seq::<u8>::empty() && $r.wf()")], entry=["reveal(SequentialBlockCache::held);"])
U.fn("SequentialBlockCache::contains", ["C07", "C08"], requires=["$0.wf()"], ensures=[("C08:contains-iff-held", "$r == ($1.end <= $0.held().len())"), ("C07:contained-is-held", "$r ==> $1.end <= $0.held().len()")])
U.fn("SequentialBlockCache::append_buffer", ["C07", "C08"], requires=["old($0).wf()", "old($0).held().len() + $1@.len() <= u64::MAX"],
     ensures=[("appended", "final($0).held() == old($0).held() + $1@ && final($0).wf()")],
     entry=["reveal(SequentialBlockCache::held); lemma_cat_push($0.buffers@);"])
U.fn("SequentialBlockCache::slice", ["C07", "C23"], requires=["$0.wf()", "$1.start <= $1.end"],
     ensures=[("C07:the-held-bytes-of-the-range", "$r@ == clip($0.held(), $1.start as int, $1.end as int)")],
     entry=["reveal(SequentialBlockCache::held); lemma_sl_base($0.buffers@, $1.start as int, $1.end as int);", "lemma_ab_base($0.buffers@, $1.start as int, $1.end as int);"],
     start=["lemma_sl_next($0.buffers@, $in1.start as int, $in1.end as int, %a@, %i.start as int, %i.end as int, %i2 as int);"],
     xinv=["sl_upto($0.buffers@, $in1.start as int, $in1.end as int, %a@, %i.start as int, %i.end as int, %i2 as int)",
           "sl_facts($0.buffers@, $in1.end as int, %i.start as int, %i.end as int, %i2 as int)"],
     inv=["%i <= %f@.len()", "%a@ =~= cat(%f@, %i as int)"],
     alt={"start": ["lemma_ab_next($0.buffers@, $in1.start as int, $in1.end as int, %a@, %n as int);"],
          "xinv": ["ab_upto($0.buffers@, $in1.start as int, $in1.end as int, %a@, %n as int)", "%i as int == cat($0.buffers@, %n as int).len()", "%i == 0 && %n == 0"]},
     lens=["sl_done($0.buffers@, $in1.start as int, $in1.end as int, %a@)"])

# ---- the cache itself
UNIT.types["ReadaheadMetadataCache"] = {"derive": []}
UNIT.type_edit["ReadaheadMetadataCache"] = lambda t, m: re.sub(r"Arc\s*<\s*Mutex\s*<\s*SequentialBlockCache\s*>\s*>", "VxMutex", t)
UNIT.rename_methods["lock"] = "vx_lock"
UNIT.trusted_base += [
    "assumed: the async mutex of the cache gives exclusive access from lock() to the end of the guard's life; at lock() the state is arbitrary except for the lock invariant (another task may have used the cache), which must hold again at every exit",
    "assumed: a metadata source answers a range with the bytes of the file in that range (clipped at the end of the file) or an error; a file has fewer than 2^64 bytes",
    "assumed: IEEE multiplication and rounding are uninterpreted functions",
]
UNIT.pre_types = r"""
use core::ops::Range;
pub struct VxMutex { pub v: SequentialBlockCache, pub at: Ghost<SequentialBlockCache>, pub file: Ghost<Seq<u8>> }
/// A metadata source: the file's bytes, and the requests it was given (start, end, answered)
pub trait MetadataFetch: Sized {
    spec fn file(&self) -> Seq<u8>;
    spec fn log(&self) -> Seq<(u64, u64, bool)>;
    fn fetch(&mut self, range: Range<u64>) -> (r: AsyncTiffResult<Bytes>)
        requires range.start <= range.end,
        ensures final(self).file() == old(self).file(), final(self).log() == old(self).log().push((range.start, range.end, r.is_ok())),
            r.is_ok() ==> r->Ok_0@ == clip(old(self).file(), range.start as int, range.end as int);
}
"""
UNIT.spec += r"""
impl VxMutex {
    /// the lock invariant: what is held is the start of the file
    pub open spec fn inv(&self) -> bool { self.v.wf() && starts(self.v.held(), self.file@) }
    #[verifier::external_body]
    pub fn vx_lock(&mut self) -> (r: &mut SequentialBlockCache)
        requires old(self).inv(),
        ensures r.wf(), starts(r.held(), old(self).file@), final(self).v == *final(r), final(self).at@ == *r, final(self).file == old(self).file,
    { unimplemented!() }
    /// `Arc::new(Mutex::new(c))`
    #[verifier::external_body]
    pub fn vx_new(c: SequentialBlockCache) -> (r: VxMutex) ensures r.v == c, { unimplemented!() }
}
pub open spec fn starts(h: Seq<u8>, f: Seq<u8>) -> bool { h == clip(f, 0, h.len() as int) && h.len() <= f.len() }
impl<F: MetadataFetch> ReadaheadMetadataCache<F> {
    pub open spec fn ok(&self) -> bool { self.cache.inv() && self.cache.file@ == self.inner.file() && self.inner.file().len() <= u64::MAX }
    pub open spec fn readahead(&self, held: u64) -> u64 { if held == 0 { self.initial } else { u64_of(f64_round(f64_mul(f64_of(held), self.multiplier))) } }
}
pub open spec fn umax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn sat(a: int) -> int { if a > u64::MAX { u64::MAX as int } else { a } }
pub mod vx_lemmas_d {
use super::*;
/// appending what the source has behind the held bytes
pub broadcast proof fn lemma_append(f: Seq<u8>, h: Seq<u8>, hi: int)
    requires starts(h, f), hi >= h.len(),
    ensures starts(#[trigger] (h + clip(f, h.len() as int, hi)), f), (h + clip(f, h.len() as int, hi)).len() == (if hi <= f.len() { hi } else { f.len() as int }),
{ assert(h + clip(f, h.len() as int, hi) =~= clip(f, 0, (h + clip(f, h.len() as int, hi)).len() as int)); }
/// a range of the held bytes is a range of the file
pub broadcast proof fn lemma_clip_start(f: Seq<u8>, h: Seq<u8>, lo: int, hi: int)
    requires starts(h, f), 0 <= lo <= hi, hi <= h.len() || h.len() == f.len(),
    ensures #[trigger] clip(h, lo, hi) == #[trigger] clip(f, lo, hi),
{ assert(clip(h, lo, hi) =~= clip(f, lo, hi)); }
}
"""
UNIT.broadcast += ["vx_lemmas_d::lemma_append", "vx_lemmas_d::lemma_clip_start"]
UNIT.fn("ReadaheadMetadataCache as MetadataFetch::fetch", ["C07", "C08", "C23"], name="vx_fetch", ptypes={0: "&mut Self"},
        requires=["old($0).ok()", "$1.start <= $1.end"],
        ensures=[("C07:bytes-of-the-file", "$r.is_ok() ==> $r->Ok_0@ == clip(old($0).inner.file(), $1.start as int, $1.end as int)"),
                 ("C07:lock-invariant", "final($0).ok() && final($0).inner.file() == old($0).inner.file()"),
                 ("C07:errors-are-those-of-the-source", "$r.is_err() ==> final($0).inner.log().len() > 0 && !final($0).inner.log().last().2 && final($0).cache.v == final($0).cache.at@"),
                 ("C08:held-bytes-need-no-request", "$1.end <= final($0).cache.at@.held().len() ==> final($0).inner.log() == old($0).inner.log() && final($0).cache.v == final($0).cache.at@"),
                 ("C08:one-contiguous-request", "$1.end > final($0).cache.at@.held().len() ==> ({ let h = final($0).cache.at@.held().len() as int; let l = final($0).inner.log(); l.len() == old($0).inner.log().len() + 1 && l.drop_last() =~= old($0).inner.log() && l.last().0 == h && l.last().1 == sat(h + umax(old($0).readahead(h as u64) as int, $1.end - h)) })"),
                 ("C08:configuration-kept", "final($0).initial == old($0).initial && final($0).multiplier == old($0).multiplier"),
                 ])
UNIT.fn("ReadaheadMetadataCache::with_initial_size", ["C08"], ensures=[("initial", "$r.initial == $1 && $r.multiplier == $0.multiplier && $r.inner == $0.inner && $r.cache == $0.cache")])
UNIT.fn("ReadaheadMetadataCache::with_multiplier", ["C08"], ensures=[("multiplier", "$r.multiplier == $1 && $r.initial == $0.initial && $r.inner == $0.inner && $r.cache == $0.cache")])
UNIT.rename_paths.update({"Arc::new": "vx_arc", "Mutex::new": "VxMutex::vx_new"})
UNIT.spec += r"""
/// `Arc::new(x)`
pub fn vx_arc<T>(x: T) -> (r: T) ensures r == x, { x }
"""
UNIT.fn("ReadaheadMetadataCache::new", ["C07", "C08"], ensures=[("starts-empty", "$r.cache.v.held() == Seq::<u8>::empty() && $r.cache.v.wf() && $r.inner == $0"), ("C08:default-read-ahead", "$r.initial == 32768")])
