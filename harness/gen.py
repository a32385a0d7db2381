"""Run inside /opt/venv python (imports beschi from /repo): generate code for many (lang, protocol, options).
stdin: JSON list of {lang, protocol, namespace?, indent?, args{}}; stdout: JSON list of {ok, text|error}."""
import sys, json, io, contextlib
sys.path.insert(0, sys.argv[1] if len(sys.argv) > 1 else "/repo")
sys.dont_write_bytecode = True


def main():
    jobs = json.load(sys.stdin)
    from beschi.protocol import Protocol
    from beschi.writers import all_writers, experimental_writers
    W = {**all_writers, **experimental_writers}
    flags = None
    out = []
    for j in jobs:
        try:
            p = Protocol(j["protocol"])
            if j.get("namespace"):
                p.namespace = j["namespace"]
            extra = {"embed_protocol": False}
            if j["lang"] == "go":
                extra["go_no_rename"] = False
            elif j["lang"] == "rust":
                extra["rust_no_rename"] = False
            elif j["lang"] == "typescript":
                extra["typescript_use_namespace"] = False
            extra.update(j.get("args", {}))
            w = W[j["lang"]](p, extra_args=extra)
            if j.get("indent"):
                w.tab = j["indent"]
            with contextlib.redirect_stdout(io.StringIO()):
                t = w.generate()
                if j.get("twice") and w.generate() != t:
                    raise RuntimeError("a second generate() gives another text")
            out.append({"ok": True, "text": t, "ext": W[j["lang"]].default_extension})
        except Exception as e:
            out.append({"ok": False, "error": f"{type(e).__name__}: {e}"})
    json.dump(out, sys.stdout)


main()
