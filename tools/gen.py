"""Writes properties.jsonl and MANIFEST.json from the tables in gen_*.py."""
import json,os,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
sys.path.insert(0,here)
P=[]; NA=[]
for m in ("gen_c","gen_h"):
    try: mod=__import__(m)
    except ModuleNotFoundError: continue
    P+=mod.P; NA+=getattr(mod,"NA",[])
with open(f"{root}/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        assert x["statement"].count(". ")<=2,x["id"]
        f.write(json.dumps({"id":x["id"],"title":x["title"],"statement":x["statement"],
         "quantifier":{"over":x["over"],"text":x["q"]},"why_tests_cant":x["why"],
         "anchors":{"files":x["files"],"mechanism":x["mech"],"observe_at":x["obs"],"hook_needed":None}})+"\n")
na={n["property"] for n in NA}
json.dump({"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":x["id"],"quick_cmd":f"./check.sh {x['id']}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {x['id']}",
   "evidence_file":f"evidence/{x['id']}.json","technique":x["tech"],"level":"exploration","level_note":x["note"]} for x in P if x["id"] not in na],
 "not_applicable":NA,
 "notes":"No hooks in /repo are needed: every check uses public interfaces only. check.sh rebuilds the harness against /repo's working tree."},
 open(f"{root}/MANIFEST.json","w"),indent=1)
