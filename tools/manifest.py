import json,subprocess,sys
sys.path.insert(0,'/verif')
from vlib import verify as V
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
units=V.load_units()
by={}
for u in units:
    for f in u.fns:
        if (f.trusted or '').startswith('@'): continue
        for p in f.props: by.setdefault(p,[]).append((u.name,f.spec,bool(f.trusted)))
checks=[]
NOTE=json.load(open('/verif/levels.json'))
for p in props:
    i=p['id']
    fs=[x for x in by.get(i,[]) if not x[2]]
    n=NOTE.get(i,{})
    lvl=n.get('level') or ('proof' if fs else 'exploration')
    tech=("contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run; "
          "failed obligations are replayed by a failing-input search against the real crate") if fs else \
         "bounded stand-in: generated-input search against the real crate with an independent oracle (no function of this property is within the verifier's reach yet)"
    c={"property":i,"quick_cmd":f"python3 check.py {i} --tier quick","thorough_cmd":f"python3 check.py {i} --tier thorough",
       "evidence_file":f"evidence/{i}.json","technique":tech,"level":lvl,
       "level_note":n.get('note') or (f"{len(fs)} functions under contract: "+", ".join(s for _,s,_ in fs) if fs else "bounded search only, not counted as proved")}
    if fs: c["theorems"]=[f"{u}/{s}" for u,s,_ in fs]
    checks.append(c)
m={"version":1,"setup_cmd":"python3 setup.py","checks":checks,
 "not_applicable":[],
 "notes":"See DESIGN.md, EXTRACTION.md. The Python bindings (python/) cannot be built here (no pyo3 toolchain offline) and are not covered by any property."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
