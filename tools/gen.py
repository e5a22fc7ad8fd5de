#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = sorted(props.P, key=lambda p: p["id"])
with open(V + "/properties.jsonl", "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="none", enable="no hooks: the checks compile /repo's unmodified sources, seams are header stand-ins, compiler instrumentation and link-time interposition", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
                      technique=p["technique"], level="model_checking", level_note=p["note"]) for p in ps if p["claim"]],
         not_applicable=[dict(property=a, reason=b) for a, b in props.NA])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
