"""ImageFileDirectory::from_tags again: the geo keys, and that valid tags are accepted."""
from contracts.ifd import *

GG = "sq(%k{Tag::GeoKeyDirectory})->0, chars_of(%k{Tag::GeoAsciiParams}), sq(%k{Tag::GeoDoubleParams})"
UNIT = U = make("ifd_geo")
U.broadcast += ["vx_lemmas_g::lemma_geo_src", "vx_lemmas_g::lemma_keys_base", "vx_lemmas_g::lemma_tag_codes", "vx_lemmas_g::lemma_geo_codes"]
U.fn("ImageFileDirectory::from_tags", ["C13", "C14", "C23"], spinoff=False, ensures=[
    ("C14:geo-keys-resolved", "$r.is_ok() ==> geo_of($0@, $r->Ok_0.geo_key_directory)"),
    ("C13,C14:valid-tags-are-accepted", "$r.is_err() ==> lacking($0@) || bad_geo($0@) || exists|t: Tag| #[trigger] $0@.dom().contains(t) && !tag_can(t, $0@[t])")],
    inv=["%n <= %q@.len()", "%n <= %e", "list_of(%q@, %a@, %n as int)"] +
        [f"fld_{t}(look(%q@, %n as int, Tag::{k}), {x_of(f, t, '%v{' + f + '}')})" for f, k, t in FIELDS if f in REQUIRED] +
        [f"fld_{t}(look(%q@, %n as int, Tag::{k}), {x_of(None, t, '%k{Tag::' + k + '}')})" for k, t in GEOSRC] +
        ["%s.n == 4 && %s.v@ == sq(%k{Tag::GeoKeyDirectory})->0 && %s.at@ == 4 + 4 * %n && %s.at@ <= %s.v@.len()",
         f"keys_upto({GG}, %s@, %n as int)"],
    start=[f"lemma_refers({GG.replace('->0,', '->0, %n as int,', 1)});", f"if 4 + 4 * (%n as int) + 4 <= (sq(%k{{Tag::GeoKeyDirectory}})->0).len() && !says(sq(%k{{Tag::GeoKeyDirectory}})->0, %n as int) {{ lemma_keys_step({GG}, %s@, %s@, %n as int); }}"],
    end=[f"if says(sq(%k{{Tag::GeoKeyDirectory}})->0, vi_%n) {{ lemma_keys_step({GG}, vp_%s, %s@, vi_%n); }}"])
