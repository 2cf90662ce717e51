from vlib.verify import Unit
from contracts.tag_value import SPEC, D, TYPES
from contracts._geo import KEYS
import contracts.tag_value as TV

FIELD = r"""
/// a field is exactly the value stored for it
pub open spec fn fld_u16(o: Option<TagValue>, x: Option<u16>) -> bool { match o { Some(v) => x is Some && u16val(v) == Some(x->0 as int), None => x is None } }
pub open spec fn fld_f64(o: Option<TagValue>, x: Option<f64>) -> bool { match o { Some(v) => x is Some && v == TagValue::Double(x->0), None => x is None } }
pub open spec fn fld_string(o: Option<TagValue>, x: Option<String>) -> bool { match o { Some(v) => x is Some && v == TagValue::Ascii(x->0), None => x is None } }
pub open spec fn can_u16(v: TagValue) -> bool { in_u(u16val(v), 0xffff) }
pub open spec fn can_f64(v: TagValue) -> bool { v is Double }
pub open spec fn can_string(v: TagValue) -> bool { v is Ascii }
"""
# what a key directory holds, given the values of the keys
GEO = """
pub open spec fn geo_is(m: Map<GeoKeyTag, TagValue>, d: GeoKeyDirectory) -> bool {
""" + "".join(f"    &&& fld_{t}(get(m, GeoKeyTag::{k}), d.{f})\n" for _, k, f, t in KEYS) + """}
/// the value has the type of its key
pub open spec fn geo_can(k: GeoKeyTag, v: TagValue) -> bool {
    match k { """ + ", ".join(f"GeoKeyTag::{k} => can_{t}(v)" for _, k, _, t in KEYS) + """ }
}
"""
UNIT = U = Unit("geo", prelude=["base", "ints", "tifferr", "maps"], types={**TYPES, "GeoKeyTag": {"derive": D}, "GeoKeyDirectory": {"derive": []}}, spec=SPEC + FIELD + GEO)
U.alloc_limit = 65536
U.rename_paths.update({"Vec::with_capacity": "vx_vec_cap", "HashMap::with_capacity": "VxMap::with_capacity", "HashMap::new": "VxMap::new"})
U.rename_types.update({"HashMap": "VxMap"})
for f in TV.U.fns:
    if f.spec in ("TagValue::into_u16", "TagValue::into_string", "TagValue::into_f64"):
        U.fn(f.spec, f.props, trusted="@tag_value", ensures=f.ensures)
U.fn("GeoKeyDirectory::from_tags", ["C14", "C23"], rlimit=60, ensures=[
    ("C14:each-field-is-its-key", "$r.is_ok() ==> geo_is($0@, $r->Ok_0)"),
    ("C14:valid-keys-are-accepted", "$r.is_err() ==> exists|k: GeoKeyTag| #[trigger] $0@.dom().contains(k) && !geo_can(k, $0@[k])")],
    inv=["%n <= %q@.len()"] + [f"fld_{t}(look(%q@, %n as int, GeoKeyTag::{k}), %v{{{f}}})" for _, k, f, t in KEYS])
U.fn("GeoKeyDirectory::epsg_code", ["C14"], ensures=[("C14:projected-else-geographic", "$r == (if $0.projected_type is Some { $0.projected_type } else { $0.geographic_type })")])
