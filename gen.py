#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and vf/meta.json from vf/table.py."""
import json, os
from vf.table import PROPS, NOT_APPLICABLE

H = os.path.dirname(os.path.abspath(__file__))
ASSUME = ["the C++ compiler, Eigen, pinocchio, coal and eiquadprog of the sandbox are trusted",
          "numpy/scipy/pinocchio-python are trusted as oracles",
          "verdicts cover the executed cases only; tolerances absorb floating point noise"]
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"],
                                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                             observe_at=p.get("observe", ["Python API of the built module"]),
                                             hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
meta = {}
for p in PROPS:
    meta[p["id"]] = dict(modules=p["modules"], rule=p["rule"], assumptions=ASSUME + p.get("assume", []),
                         **{k: p[k] for k in ("families", "san_only", "crash_only", "san_quick", "san_thorough", "scale", "require_events", "ext", "memcheck") if k in p})
with open(os.path.join(H, "vf", "meta.json"), "w") as f:
    json.dump(meta, f, indent=1)
man = dict(version=1, setup_cmd="python3 check.py --setup",
           checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                        technique=p.get("technique", "runtime monitoring: randomized workloads on the real module, online oracle"
                                                     " (thorough: also under ASan+UBSan+Eigen assertions)"),
                        level="exploration",
                        level_note=p.get("note", "Every execution of the generated workload is judged by an independent oracle; "
                                         "holds for the executed cases (seeded by VERIF_SEED), not proved for all inputs."))
                   for p in PROPS],
           not_applicable=NOT_APPLICABLE)
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
