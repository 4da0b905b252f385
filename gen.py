#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for pid, p in sorted({**PROPS, **{k: v[0] for k, v in NOT_APPLICABLE.items()}}.items()):
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        if p.get("state"):
            a["state"] = p["state"]
        for x in p['files'] + [q['file'] for q in p['mechanism']]:
            assert os.path.exists('/repo/' + x), x
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": pid, "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 build.py lib",
     "checks": [{"property": pid,
                 "quick_cmd": f"python3 check.py {pid} quick",
                 "thorough_cmd": f"python3 check.py {pid} thorough",
                 "technique": "stateless model checking of the real code: "
                 "exhaustive enumeration of inputs, operation sequences and "
                 "schedules under a controlled SYCL/MPI runtime",
                 "level": "model_checking",
                 "level_note": "Every execution within the bounds (" +
                 p["bounds"] + ") runs the implementation compiled from /repo "
                 "and is judged against an independent reference model; trusts "
                 "the substitute SYCL/MPI runtime (mc/), validated with the "
                 "repository's own tests, and says nothing beyond the bounds."}
                for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": k, "reason": v[1]}
                        for k, v in sorted(NOT_APPLICABLE.items())],
     "hooks": {"guard": "NESO_PARTICLES_MC_HOOKS",
               "enable": "-DNESO_PARTICLES_MC_HOOKS (build.py sets it)"},
     "notes": "The substitute runtime is found through the include path; the "
     "one hook makes the pool of temporary buffers hand out fresh buffers of "
     "one element, so that a missing or too small reallocation shows."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
