#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {
        "guard": "--cfg parcom_verif (rustc cfg flag)",
        "enable": "the checks build /repo's crates as path dependencies of /verif/harness with RUSTFLAGS='--cfg parcom_verif'",
        "source_commits": ["f1e1dc8"],
    },
    "checks": [
        {
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": PROPS[i]["technique"],
            "level": PROPS[i].get("level", "exploration"),
            "level_note": PROPS[i]["note"],
        }
        for i in ids if i in PROPS
    ],
    "not_applicable": [
        {"property": i, "reason": "its check is not built yet"} for i in ids if i not in PROPS
    ],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
