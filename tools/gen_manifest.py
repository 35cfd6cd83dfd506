#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
CLAIMED = {
    # id: (level, technique suffix, note)
}
exec(open(root + "/tools/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        level, tech, note = CLAIMED[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check.sh {i} quick",
            "thorough_cmd": f"bin/check.sh {i} thorough",
            "technique": "deterministic simulation: " + tech,
            "level": level,
            "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump({
    "version": 1,
    "setup_cmd": "bin/build.sh",
    "hooks": {"guard": "none", "enable": "No hooks in /repo: the seam is the libc boundary, interposed by the simulator binary; code edges are instrumented by compiler flags in engine/rustc-wrap.sh.", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Tier and seed come from VERIF_TIER and VERIF_SEED. target/debug/dsim replay FILE reproduces a violation; see DESIGN.md.",
}, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
