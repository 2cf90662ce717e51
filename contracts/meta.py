from contracts._meta import unit

UNIT = U = unit("meta", None)
U.types.update({"TiffMetadataReader": {"derive": []}, "ImageFileDirectoryReader": {"derive": []}, "TIFF": {"derive": []}})
U.rename_paths.update({"HashMap::with_capacity": "VxMap::with_capacity", "HashMap::new": "VxMap::new", "HashSet::new": "VxSet::new", "HashSet::with_capacity": "VxSet::with_capacity", "BTreeSet::new": "VxSet::new"})
U.rename_types.update({"HashMap": "VxMap", "HashSet": "VxSet", "BTreeSet": "VxSet"})
U.extra_contracted += ["ImageFileDirectory::from_tags", "read_tag_value"]
U.prelude += ["maps"]
U.spec += r"""
/// The interpreted tags: what `from_tags` makes of the tags (see unit ifd)
pub struct ImageFileDirectory { pub x: u8 }
pub uninterp spec fn made_of(tags: Map<Tag, TagValue>, e: Endianness, i: ImageFileDirectory) -> bool;
pub uninterp spec fn makable(tags: Map<Tag, TagValue>, e: Endianness) -> bool;
impl ImageFileDirectory {
    #[verifier::external_body] pub fn from_tags(tags: VxMap<Tag, TagValue>, e: Endianness) -> (r: AsyncTiffResult<ImageFileDirectory>)
        ensures r.is_ok() ==> made_of(tags@, e, r->Ok_0), r.is_err() ==> !makable(tags@, e), { unimplemented!() }
}
/// verified in unit meta_value
#[verifier::external_body] pub fn read_tag_value<F: MetadataFetch>(cursor: &mut MetadataCursor<'_, F>, t: Type, count: u64, big: bool) -> (r: AsyncTiffResult<TagValue>)
    ensures r.is_ok() ==> value_ok(old(cursor).f(), old(cursor).le(), big, t, count as int, old(cursor).offset as int, r->Ok_0),
        r.is_err() ==> count > 0 && (!old(cursor).fetch.reliable() || !value_there(old(cursor).f(), old(cursor).le(), big, t, count as int, old(cursor).offset as int)),
{ unimplemented!() }
// ---- the header
pub open spec fn mark(f: Seq<u8>, b: u8) -> bool { f.len() >= 2 && f[0] == b && f[1] == b }
pub open spec fn h_le(f: Seq<u8>) -> bool { mark(f, 0x49) }
pub open spec fn h_big(f: Seq<u8>) -> bool { wd(f, h_le(f), 2, 2) == 43 }
pub open spec fn header_ok(f: Seq<u8>) -> bool {
    &&& mark(f, 0x49) || mark(f, 0x4d)
    &&& f.len() >= 4
    &&& wd(f, h_le(f), 2, 2) == 42 && f.len() >= 8 || wd(f, h_le(f), 2, 2) == 43 && f.len() >= 16 && wd(f, h_le(f), 2, 4) == 8 && wd(f, h_le(f), 2, 6) == 0
}
pub open spec fn first_ifd(f: Seq<u8>) -> int { if h_big(f) { wd(f, h_le(f), 8, 8) } else { wd(f, h_le(f), 4, 4) } }
// ---- directories
pub open spec fn csz(big: bool) -> int { if big { 8 } else { 2 } }
pub open spec fn osz(big: bool) -> int { if big { 8 } else { 4 } }
/// the number of entries of the directory at s, the position of entry i, the next directory
pub open spec fn ecount(f: Seq<u8>, le: bool, big: bool, s: int) -> int { wd(f, le, csz(big), s) }
pub open spec fn eoff(big: bool, s: int, i: int) -> int { if big { s + 8 + 20 * i } else { s + 2 + 12 * i } }
pub open spec fn next_at(f: Seq<u8>, le: bool, big: bool, s: int) -> int { wd(f, le, osz(big), eoff(big, s, ecount(f, le, big, s))) }
pub open spec fn opt(x: int) -> Option<int> { if x == 0 { None } else { Some(x) } }
pub open spec fn etype(f: Seq<u8>, le: bool, o: int) -> Option<Type> { type_named(wd(f, le, 2, o + 2)) }
pub open spec fn ecnt(f: Seq<u8>, le: bool, big: bool, o: int) -> int { wd(f, le, osz(big), o + 4) }
pub open spec fn ekey(f: Seq<u8>, le: bool, o: int) -> Tag { tag_any(wd(f, le, 2, o) as u16) }
/// (k, v) is the entry at o
pub open spec fn entry_ok(f: Seq<u8>, le: bool, big: bool, o: int, k: Tag, v: TagValue) -> bool {
    &&& o + 4 + osz(big) <= f.len()
    &&& k == ekey(f, le, o)
    &&& etype(f, le, o) is Some
    &&& value_ok(f, le, big, etype(f, le, o)->0, ecnt(f, le, big, o), o + 4 + osz(big), v)
}
/// the entry at o is well-formed
pub open spec fn entry_there(f: Seq<u8>, le: bool, big: bool, o: int) -> bool {
    &&& o + 4 + osz(big) <= f.len() <= u64::MAX
    &&& etype(f, le, o) is Some
    &&& ecnt(f, le, big, o) == 0 || value_there(f, le, big, etype(f, le, o)->0, ecnt(f, le, big, o), o + 4 + osz(big))
}
impl ImageFileDirectoryReader {
    pub open spec fn wf(&self) -> bool { self.ifd_entry_byte_size == (if self.bigtiff { 20int } else { 12 }) && self.tag_count_byte_size == csz(self.bigtiff) }
    pub open spec fn is_at(&self, f: Seq<u8>, e: Endianness, big: bool, s: int) -> bool {
        &&& self.wf() && self.endianness == e && self.bigtiff == big && self.ifd_start_offset == s
        &&& self.tag_count as int == ecount(f, e.le(), big, s)
    }
    pub open spec fn eo(&self, i: int) -> int { eoff(self.bigtiff, self.ifd_start_offset as int, i) }
}
/// m holds the first n entries of the directory at s; of entries with the same tag, the last one
#[verifier::opaque]
pub open spec fn tags_upto(f: Seq<u8>, le: bool, big: bool, s: int, m: Map<Tag, TagValue>, n: int) -> bool {
    &&& (forall|i: int| 0 <= i < n ==> m.dom().contains(ekey(f, le, #[trigger] eoff(big, s, i))))
    &&& (forall|k: Tag| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < n && entry_ok(f, le, big, #[trigger] eoff(big, s, i), k, m[k]) && (forall|j: int| i < j < n ==> ekey(f, le, #[trigger] eoff(big, s, j)) != k))
}
pub proof fn lemma_tags_base(f: Seq<u8>, le: bool, big: bool, s: int)
    ensures tags_upto(f, le, big, s, Map::empty(), 0),
{ reveal(tags_upto); }
pub proof fn lemma_tags_step(f: Seq<u8>, le: bool, big: bool, s: int, p: Map<Tag, TagValue>, m: Map<Tag, TagValue>, n: int)
    requires tags_upto(f, le, big, s, p, n), 0 <= n, exists|k: Tag, v: TagValue| m == #[trigger] p.insert(k, v) && entry_ok(f, le, big, eoff(big, s, n), k, v),
    ensures tags_upto(f, le, big, s, m, n + 1),
{
    reveal(tags_upto);
    let (k, v) = choose|k: Tag, v: TagValue| m == #[trigger] p.insert(k, v) && entry_ok(f, le, big, eoff(big, s, n), k, v);
    assert forall|i: int| 0 <= i < n + 1 implies m.dom().contains(ekey(f, le, #[trigger] eoff(big, s, i))) by {}
    assert forall|c: Tag| #[trigger] m.dom().contains(c) implies exists|i: int| 0 <= i < n + 1 && entry_ok(f, le, big, #[trigger] eoff(big, s, i), c, m[c]) && (forall|j: int| i < j < n + 1 ==> ekey(f, le, #[trigger] eoff(big, s, j)) != c) by {
        if c == k { assert(entry_ok(f, le, big, eoff(big, s, n), c, m[c])); }
        else {
            assert(p.dom().contains(c));
            let i = choose|i: int| 0 <= i < n && entry_ok(f, le, big, #[trigger] eoff(big, s, i), c, p[c]) && (forall|j: int| i < j < n ==> ekey(f, le, #[trigger] eoff(big, s, j)) != c);
            assert(entry_ok(f, le, big, eoff(big, s, i), c, m[c]));
            assert(ekey(f, le, eoff(big, s, n)) == k);
        }
    }
}
/// what the directory at s holds
pub open spec fn dir_ok(f: Seq<u8>, e: Endianness, big: bool, s: int, d: ImageFileDirectory) -> bool {
    exists|m: Map<Tag, TagValue>| #[trigger] tags_upto(f, e.le(), big, s, m, ecount(f, e.le(), big, s)) && made_of(m, e, d)
}
/// all entries are well-formed, and their tags make a directory
pub open spec fn dir_entries_there(f: Seq<u8>, e: Endianness, big: bool, s: int, n: int) -> bool {
    &&& (forall|i: int| 0 <= i < n ==> entry_there(f, e.le(), big, #[trigger] eoff(big, s, i)))
    &&& (forall|m: Map<Tag, TagValue>| #[trigger] tags_upto(f, e.le(), big, s, m, n) ==> makable(m, e))
}
pub open spec fn dir_there(f: Seq<u8>, e: Endianness, big: bool, s: int) -> bool {
    &&& s + csz(big) <= f.len() <= u64::MAX
    &&& eoff(big, s, ecount(f, e.le(), big, s)) + osz(big) <= f.len()
    &&& dir_entries_there(f, e, big, s, ecount(f, e.le(), big, s))
}
"""
U.broadcast = [b for b in U.broadcast if b.endswith(("lemma_wd_sub", "lemma_lev_pos"))]
H = ["C09", "C23"]
U.fn("TiffMetadataReader::try_open", H,
    entry=["if mark($0.file(), 0x49) { assert(clip($0.file(), 0, 2) =~= [0x49u8, 0x49u8]@); }", "if mark($0.file(), 0x4d) { assert(clip($0.file(), 0, 2) =~= [0x4du8, 0x4du8]@); }"],
    ensures=[
    ("C09:header-read", "$r.is_ok() ==> header_ok($0.file()) && $r->Ok_0.endianness.le() == h_le($0.file()) && $r->Ok_0.bigtiff == h_big($0.file()) && $r->Ok_0.next_ifd_offset.is_some() && $r->Ok_0.next_ifd_offset->0 as int == first_ifd($0.file())"),
    ("C09:valid-headers-are-accepted", "$r.is_err() ==> !$0.reliable() || !header_ok($0.file()) || $0.file().len() > u64::MAX")])
for g in ("endianness", "bigtiff", "next_ifd_offset"):
    U.fn("TiffMetadataReader::" + g, ["C09", "C10"], ensures=[("field", f"$r == $0.{g}")], name="get_" + g)
U.fn("TiffMetadataReader::has_next_ifd", ["C10"], ensures=[("field", "$r == $0.next_ifd_offset.is_some()")])
I = ["C10", "C11", "C23"]
U.fn("ImageFileDirectoryReader::open", I, ensures=[
    ("entry-count-read", "$r.is_ok() ==> $r->Ok_0.is_at($0.file(), $3, $2, $1 as int)"),
    ("valid-directories-are-opened", "$r.is_err() ==> may_fail($0, $1 as int, csz($2))")])
U.fn("ImageFileDirectoryReader::entry_offset", I, requires=["$0.wf()"], ensures=[
    ("entry-position", "$r.is_ok() ==> $r->Ok_0 as int == $0.eo($1 as int)"), ("fails-only-beyond-64-bits", "$r.is_err() ==> $0.eo($1 as int) > u64::MAX")])
U.fn("read_tag", I, ensures=[
    ("C11:entry-read", "$r.is_ok() ==> entry_ok($0.file(), $2.le(), $3, $1 as int, $r->Ok_0.0, $r->Ok_0.1)"),
    ("C11:well-formed-entries-are-read", "$r.is_err() ==> !$0.reliable() || !entry_there($0.file(), $2.le(), $3, $1 as int)")])
U.fn("Type::from_u16", I, trusted="@tags", ensures=["$r == type_named($0 as int)"])
U.fn("Tag::from_u16_exhaustive", I, trusted="@tags", ensures=["$r == tag_any($0)"])
U.fn("ImageFileDirectoryReader::read_tag", I, requires=["$0.wf()", "$2 < $0.tag_count"], ensures=[
    ("C11:entry-read", "$r.is_ok() ==> entry_ok($1.file(), $0.endianness.le(), $0.bigtiff, $0.eo($2 as int), $r->Ok_0.0, $r->Ok_0.1)"),
    ("C11:well-formed-entries-are-read", "$r.is_err() ==> !$1.reliable() || !entry_there($1.file(), $0.endianness.le(), $0.bigtiff, $0.eo($2 as int))")])
TU = "tags_upto($1.file(), $0.endianness.le(), $0.bigtiff, $0.ifd_start_offset as int, "
U.fn("ImageFileDirectoryReader::read", I, requires=["$0.wf()"], ensures=[
    ("C10,C11:all-entries-read", f"$r.is_ok() ==> exists|m: Map<Tag, TagValue>| #[trigger] {TU}m, $0.tag_count as int) && made_of(m, $0.endianness, $r->Ok_0)"),
    ("C10,C11:well-formed-directories-are-read", "$r.is_err() ==> !$1.reliable() || !dir_entries_there($1.file(), $0.endianness, $0.bigtiff, $0.ifd_start_offset as int, $0.tag_count as int)")],
    entry=["lemma_tags_base($1.file(), $0.endianness.le(), $0.bigtiff, $0.ifd_start_offset as int);"],
    inv=["%i <= $0.tag_count", f"{TU}%s@, %i as int)"],
    end=["lemma_tags_step($1.file(), $0.endianness.le(), $0.bigtiff, $0.ifd_start_offset as int, vp_%s, %s@, vi_%i);"])
U.fn("ImageFileDirectoryReader::finish", I, requires=["$0.wf()"], ensures=[
    ("C10:next-offset", "$r.is_ok() ==> ({ let x = wd($1.file(), $0.endianness.le(), osz($0.bigtiff), $0.eo($0.tag_count as int)); $r->Ok_0.is_some() == (x != 0) && (x != 0 ==> $r->Ok_0->0 as int == x) })"),
    ("C10:readable", "$r.is_err() ==> may_fail($1, $0.eo($0.tag_count as int), osz($0.bigtiff))")])
U.fn("TiffMetadataReader::read_next_ifd", I, ensures=[
    ("C10:byte-order-kept", "final($0).endianness == old($0).endianness && final($0).bigtiff == old($0).bigtiff"),
    ("C10:end-of-the-chain", "old($0).next_ifd_offset.is_none() ==> $r.is_ok() && $r->Ok_0.is_none() && final($0).next_ifd_offset.is_none()"),
    ("C10,C11:the-directory-at-the-offset", "old($0).next_ifd_offset.is_some() && $r.is_ok() ==> $r->Ok_0.is_some() && dir_ok($1.file(), old($0).endianness, old($0).bigtiff, old($0).next_ifd_offset->0 as int, $r->Ok_0->0)"),
    ("C10:follows-the-chain", "old($0).next_ifd_offset.is_some() && $r.is_ok() ==> ({ let x = next_at($1.file(), old($0).endianness.le(), old($0).bigtiff, old($0).next_ifd_offset->0 as int); final($0).next_ifd_offset.is_some() == (x != 0) && (x != 0 ==> final($0).next_ifd_offset->0 as int == x) })"),
    ("C10:a-failed-read-can-be-repeated", "$r.is_err() ==> final($0).next_ifd_offset == old($0).next_ifd_offset"),
    ("C10,C11:well-formed-directories-are-read", "$r.is_err() ==> !$1.reliable() || !dir_there($1.file(), old($0).endianness, old($0).bigtiff, old($0).next_ifd_offset->0 as int)"),
    ])

U.spec += r"""
// ---- the chain of directories
pub open spec fn chain(f: Seq<u8>, le: bool, big: bool, s: int, i: int) -> int decreases i { if i <= 0 { s } else { next_at(f, le, big, chain(f, le, big, s, i - 1)) } }
pub open spec fn nxt(o: Option<u64>) -> int { match o { Some(x) => x as int, None => 0 } }
/// l holds the directories before link n of the chain from s on, none of which ends it
#[verifier::opaque]
pub open spec fn chain_upto(f: Seq<u8>, e: Endianness, big: bool, s: int, l: Seq<ImageFileDirectory>, n: int) -> bool {
    &&& l.len() == n
    &&& (forall|i: int| 0 <= i < n ==> dir_ok(f, e, big, #[trigger] chain(f, e.le(), big, s, i), l[i]))
    &&& (forall|i: int| 1 <= i < n ==> #[trigger] chain(f, e.le(), big, s, i) != 0)
}
/// v holds the links 1..=n of the chain, all different
#[verifier::opaque]
pub open spec fn seen(f: Seq<u8>, le: bool, big: bool, s: int, v: Set<u64>, n: int) -> bool {
    &&& v.finite()
    &&& (forall|x: u64| #[trigger] v.contains(x) ==> exists|i: int| 1 <= i <= n && x != 0 && #[trigger] chain(f, le, big, s, i) == x)
}
/// the chain from s on comes back to a link, or one of its directories is not well-formed
pub open spec fn bad_chain(f: Seq<u8>, e: Endianness, big: bool, s: int) -> bool {
    ||| exists|i: int| 0 <= i && !dir_there(f, e, big, #[trigger] chain(f, e.le(), big, s, i)) && forall|j: int| 1 <= j <= i ==> #[trigger] chain(f, e.le(), big, s, j) != 0
    ||| exists|i: int, j: int| 1 <= i < j && #[trigger] chain(f, e.le(), big, s, i) == #[trigger] chain(f, e.le(), big, s, j) && chain(f, e.le(), big, s, i) != 0
}
pub proof fn lemma_chain_base(f: Seq<u8>, e: Endianness, big: bool, s: int)
    ensures chain_upto(f, e, big, s, seq![], 0), seen(f, e.le(), big, s, Set::empty(), 0), chain(f, e.le(), big, s, 0) == s,
{ reveal(chain_upto); reveal(seen); }
pub proof fn lemma_chain_step(f: Seq<u8>, e: Endianness, big: bool, s: int, p: Seq<ImageFileDirectory>, l: Seq<ImageFileDirectory>)
    requires chain_upto(f, e, big, s, p, p.len() as int), l.len() == p.len() + 1, l.subrange(0, p.len() as int) =~= p,
        dir_ok(f, e, big, chain(f, e.le(), big, s, p.len() as int), l[p.len() as int]), p.len() > 0 ==> chain(f, e.le(), big, s, p.len() as int) != 0,
    ensures chain_upto(f, e, big, s, l, l.len() as int),
{
    reveal(chain_upto);
    assert forall|i: int| 0 <= i < l.len() implies dir_ok(f, e, big, #[trigger] chain(f, e.le(), big, s, i), l[i]) by { if i < p.len() { assert(l.subrange(0, p.len() as int)[i] == p[i]); } }
}
pub proof fn lemma_seen_step(f: Seq<u8>, le: bool, big: bool, s: int, v: Set<u64>, w: Set<u64>, n: int)
    requires seen(f, le, big, s, v, n), 0 <= n, w == v || (exists|x: u64| w == #[trigger] v.insert(x) && x != 0 && x as int == chain(f, le, big, s, n + 1)),
    ensures seen(f, le, big, s, w, n + 1),
{
    reveal(seen);
    assert forall|x: u64| #[trigger] w.contains(x) implies exists|i: int| 1 <= i <= n + 1 && x != 0 && #[trigger] chain(f, le, big, s, i) == x by {
        if v.contains(x) { let i = choose|i: int| 1 <= i <= n && x != 0 && #[trigger] chain(f, le, big, s, i) == x; assert(chain(f, le, big, s, i) == x); }
        else { assert(chain(f, le, big, s, n + 1) == x); }
    }
}
pub mod vx_lemmas_c {
use super::*;
pub proof fn lemma_u64s(v: Set<u64>, n: int)
    requires v.finite(), 0 <= n <= 0x1_0000_0000_0000_0000, forall|x: u64| v.contains(x) ==> x < n,
    ensures v.len() <= n,
    decreases n,
{
    if n == 0 { assert(v =~= Set::empty()); }
    else { let w = v.remove((n - 1) as u64); lemma_u64s(w, n - 1); }
}
pub broadcast proof fn lemma_seen_len(f: Seq<u8>, le: bool, big: bool, s: int, v: Set<u64>, n: int)
    requires #[trigger] seen(f, le, big, s, v, n),
    ensures v.finite(), v.len() <= 0x1_0000_0000_0000_0000,
{ reveal(seen); lemma_u64s(v, 0x1_0000_0000_0000_0000); }
/// a link seen before
pub broadcast proof fn lemma_seen_twice(f: Seq<u8>, e: Endianness, big: bool, s: int, v: Set<u64>, n: int, x: u64)
    requires #[trigger] seen(f, e.le(), big, s, v, n), #[trigger] v.contains(x), 0 <= n, x as int == chain(f, e.le(), big, s, n + 1),
    ensures bad_chain(f, e, big, s),
{ reveal(seen); let i = choose|i: int| 1 <= i <= n && x != 0 && #[trigger] chain(f, e.le(), big, s, i) == x; assert(chain(f, e.le(), big, s, n + 1) == chain(f, e.le(), big, s, i)); }
pub broadcast proof fn lemma_chain_bad(f: Seq<u8>, e: Endianness, big: bool, s: int, l: Seq<ImageFileDirectory>, n: int)
    requires #[trigger] chain_upto(f, e, big, s, l, n), 0 <= n, !dir_there(f, e, big, chain(f, e.le(), big, s, n)), n > 0 ==> chain(f, e.le(), big, s, n) != 0,
    ensures bad_chain(f, e, big, s),
{ reveal(chain_upto); assert(!dir_there(f, e, big, chain(f, e.le(), big, s, n))); }
}
"""
U.broadcast += ["vx_lemmas_c::" + x for x in ("lemma_seen_len", "lemma_seen_twice", "lemma_chain_bad")]
CH = "$1.file(), $in0.endianness, $in0.bigtiff, nxt($in0.next_ifd_offset)"
CL = "$1.file(), $in0.endianness.le(), $in0.bigtiff, nxt($in0.next_ifd_offset)"
ALL = [("C10,C11:the-whole-chain", "$r.is_ok() && old($0).next_ifd_offset.is_some() ==> chain_upto(%s, LIST, LIST.len() as int) && LIST.len() > 0 && chain(%s, LIST.len() as int) == 0" % tuple(x.replace("$in0", "old($0)") for x in (CH, CL))),
    ("C10:nothing-left", "$r.is_ok() ==> final($0).next_ifd_offset.is_none()"),
    ("C10:byte-order-kept", "final($0).endianness == old($0).endianness && final($0).bigtiff == old($0).bigtiff"),
    ("C10:nothing-to-read", "$r.is_ok() && old($0).next_ifd_offset.is_none() ==> LIST.len() == 0"),
    ("C10,C11:valid-chains-are-read", "$r.is_err() ==> !$1.reliable() || bad_chain(%s)" % CH.replace("$in0", "old($0)"))]
U.fn("TiffMetadataReader::read_all_ifds", I, ensures=[(l, e.replace("LIST", "$r->Ok_0@")) for l, e in ALL],
    entry=["lemma_chain_base(%s);" % CH],
    inv=["$0.endianness == $in0.endianness && $0.bigtiff == $in0.bigtiff",
         "$in0.next_ifd_offset.is_none() ==> $0.next_ifd_offset.is_none() && %a@.len() == 0",
         "$in0.next_ifd_offset.is_some() && $0.next_ifd_offset.is_none() ==> %a@.len() > 0",
         f"chain_upto({CH}, %a@, %a@.len() as int)",
         f"seen({CL}, %s@, %a@.len() as int)",
         f"nxt($0.next_ifd_offset) == chain({CL}, %a@.len() as int)",
         "$0.next_ifd_offset.is_some() ==> $0.next_ifd_offset->0 != 0 || %a@.len() == 0"],
    decr=["0x1_0000_0000_0000_0000 - %s@.len(), if $0.next_ifd_offset.is_some() { 1int } else { 0 }"],
    end=[f"lemma_chain_step({CH}, vp_%a, %a@);", f"lemma_seen_step({CL}, vp_%s, %s@, vp_%a.len() as int);"])
U.fn("TIFF::new", I, ensures=[("keeps-directories-and-byte-order", "$r.ifds == $0 && $r.endianness == $1")])
for g in ("ifds", "endianness"):
    U.fn("TIFF::" + g, I, ensures=[("field", "$r@ == $0.ifds@" if g == "ifds" else "$r == $0.endianness")], name="get_t" + g)
U.fn("TiffMetadataReader::read", I, ensures=[(l, e.replace("LIST", "$r->Ok_0.ifds@")) for l, e in ALL] + [("C09:byte-order", "$r.is_ok() ==> $r->Ok_0.endianness == old($0).endianness")])
