"""writes MANIFEST.json from engines/levels.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engines.levels import LEVELS, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "python3-vt setup.py",
     "checks": [{"property": p, "quick_cmd": f"python3-vt check.py {p}", "thorough_cmd": f"python3-vt check.py {p}", "technique": t, "level": l, "level_note": n}
                for p, (l, t, n) in LEVELS.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
