"""AssemblyScript: no compiler here.  The emitted text is parsed by the front end and run by harness/asrun.js."""
import os, json, shutil
from .common import *

HERE = os.path.dirname(os.path.abspath(__file__))


class L:
    name = "assemblyscript"

    def __init__(self, p, opts=None):
        self.p, self.opts = p, opts or {}

    def sources(self, text):
        p = self.p
        proto = {"structs": {n: [list(m) for m in s.members] for n, s in p.structs.items()}, "messages": {n: [list(m) for m in s.members] for n, s in p.messages.items()},
                 "enums": {e: 1 for e in p.enums}, "ids": dict(p.msg_ids), "consts": [[e, v] for e, en in p.enums.items() for v, _ in en.values]}
        return {"k.ts": text, "proto.json": json.dumps(proto), "asrun.js": open(os.path.join(HERE, "asrun.js"), encoding="utf-8").read()}

    def build(self, d):
        r = run(["node", os.path.join(VERIF, "front", "ts", "main.js")], d, input=os.path.join(d, "k.ts") + "\n")
        m = json.loads(r.stdout.splitlines()[0]) if r.returncode == 0 and r.stdout.strip() else {"error": r.stderr[:500]}
        if "error" in m:
            raise BuildError("not parsed: " + m["error"])
        for k in ("funcs", "methods", "types", "consts"):
            m.setdefault(k, {})
        with open(os.path.join(d, "m.json"), "w") as f:
            json.dump({"mod": m, "proto": json.load(open(os.path.join(d, "proto.json")))}, f)

    def argv(self, d):
        return ["node", "--stack-size=4000", os.path.join(d, "asrun.js"), os.path.join(d, "m.json")]
    envx = {}
