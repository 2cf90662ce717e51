from vlib.verify import Unit
from contracts._tables import ENUMS, enum_spec
from contracts.data_type import D

UNIT = Unit("tags", types={n: {"derive": D} for n in ENUMS}, spec=enum_spec(ENUMS))
for n, (t, unk) in ENUMS.items():
    l = n.lower()
    UNIT.fn(f"{n}::from_u16", ["C19"], ensures=[("code-to-name", f"$r == {l}_named($0 as int)")], entry=[f"reveal({l}_named);"])
    UNIT.fn(f"{n}::to_u16", ["C19"], ensures=[("name-to-code", f"$r as int == {l}_code($0)")], entry=[f"reveal({l}_code);"])
    if unk:
        UNIT.fn(f"{n}::from_u16_exhaustive", ["C19"], ensures=[("code-to-name-or-unknown", f"$r == {l}_any($0)")], entry=[f"reveal({l}_named);"])
