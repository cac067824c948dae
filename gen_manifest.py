"""writes MANIFEST.json from properties.jsonl"""
import json, sys
sys.path.insert(0, "/verif")
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C20":"quantifies over thread interleavings (std::thread, std::mutex): sequential contract-based deductive verification has no back end here for C++ threads; training contracts are proved for the sequential body of each training step only"}
NOTES={}
try:
    from xvc.notes import NOTES, LEVEL
except Exception:
    LEVEL={}
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
      "evidence_file":"evidence/%s.json"%i,
      "technique":("contract-based deductive verification of the real functions (VCs from the clang AST, z3/cvc5), with bounded concrete replay" if LEVEL.get(i)=="proof" else "bounded concrete check of the contracts on the real functions (stand-in of the contract-based deductive verification)"),
      "level":LEVEL.get(i,"exploration"),
      "level_note":NOTES.get(i,"bounded: concrete driver against independent references until the contracts of this property are discharged")})
json.dump({"version":1,"setup_cmd":"python3 setup.py","checks":checks,
  "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
  "notes":"No hooks in /repo. known_findings.txt lists the repaired defects."},open('/verif/MANIFEST.json','w'),indent=1)
