from contracts._meta import unit

UNIT = U = unit("meta_value", "@meta")
F, LE = "$in0.f()", "$in0.le()"
TYPES = ["BYTE", "SBYTE", "ASCII", "UNDEFINED", "SHORT", "SSHORT", "LONG", "SLONG", "FLOAT", "IFD", "LONG8", "SLONG8", "DOUBLE", "RATIONAL", "SRATIONAL", "IFD8"]
U.fn("read_tag_value", ["C11", "C23"], cases=("Type", "$1", [f"x is {t}" for t in TYPES]),
     ensures=[("C11:value-of-the-entry", f"$r.is_ok() ==> value_ok(old($0).f(), old($0).le(), $3, $1, $2 as int, old($0).offset as int, $r->Ok_0)"),
              ("C11:well-formed-entries-are-read", f"$r.is_err() ==> $2 > 0 && (!old($0).fetch.reliable() || !value_there(old($0).f(), old($0).le(), $3, $1, $2 as int, old($0).offset as int))")],
     entry=['reveal_strlit("");', f"lemma_list_base({F}, {LE}, $1, vstart({F}, {LE}, $3, $1, $2 as int, $in0.offset as int));"],
     inv=["%i <= $2", f"list_upto({F}, {LE}, $1, vstart({F}, {LE}, $3, $1, $2 as int, $in0.offset as int), %a@, %i as int)",
          f"%s.same(&$in0) && %s.offset == vstart({F}, {LE}, $3, $1, $2 as int, $in0.offset as int) + wmul(%i as int, tsize($1))",
          f"%f.endianness == $in0.endianness && %f.rest() == clip({F}, $in0.offset + wmul(%i as int, tsize($1)), $in0.offset + wmul($2 as int, tsize($1)))",
          "%i == %i2", "(%i is None ==> forall|j: int| 0 <= j < %i2 ==> %f[j] != 0) && (%i is Some ==> %i->0 < %f@.len() && %f@[%i->0 as int] == 0 && forall|j: int| 0 <= j < %i->0 ==> %f[j] != 0)"],
     end=[f"lemma_list_step({F}, {LE}, $1, vstart({F}, {LE}, $3, $1, $2 as int, $in0.offset as int), vp_%a, %a@, vi_%i);"],
     # loops that count down, or without a counter: the values read so far are counted
     alt={"inv": ["%i + %a@.len() == $2", "%i <= $2 && %i2 == $2 - %i", f"list_upto({F}, {LE}, $1, vstart({F}, {LE}, $3, $1, $2 as int, $in0.offset as int), %a@, %a@.len() as int)",
                  f"%s.same(&$in0) && %s.offset == vstart({F}, {LE}, $3, $1, $2 as int, $in0.offset as int) + wmul(%a@.len() as int, tsize($1))",
                  f"%f.endianness == $in0.endianness && %f.rest() == clip({F}, $in0.offset + wmul(%a@.len() as int, tsize($1)), $in0.offset + wmul($2 as int, tsize($1)))"],
          "end": [f"lemma_list_step({F}, {LE}, $1, vstart({F}, {LE}, $3, $1, $2 as int, $in0.offset as int), vp_%a, %a@, vp_%a.len() as int);"]})
