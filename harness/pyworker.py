"""Runs under the repository's python: answers questions about beschi's own classes, one JSON line each."""
import sys, json, os, signal, tempfile
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)


class Late(BaseException):
    pass


def late(*_):
    raise Late()


signal.signal(signal.SIGALRM, late)


def describe(P):
    return {"namespace": P.namespace, "list": P.list_size_type, "string": P.string_size_type,
            "structs": [[n, [[m.name, m.vartype, bool(m.is_list)] for m in s.members]] for n, s in P.structs.items()],
            "messages": [[n, [[m.name, m.vartype, bool(m.is_list)] for m in s.members]] for n, s in P.messages.items()],
            "enums": [[n, [[k, v] for k, v in e.values.items()], e.encoding, list(e.get_default_pair())] for n, e in P.enums.items()],
            "names": [[n, s.name, bool(s.is_message)] for d in (P.structs, P.messages) for n, s in d.items()] + [[n, e.name, None] for n, e in P.enums.items()]}


def main():
    from beschi.protocol import Protocol, Enum, Variable
    scratch = tempfile.mkdtemp(prefix="pyw.")
    path = os.path.join(scratch, "p.toml")
    try:
        for line in sys.stdin:
            j = json.loads(line)
            if "text" in j:
                with open(path, "w", encoding="utf-8") as f:
                    f.write(j["text"])
            r = {}
            try:
                signal.setitimer(signal.ITIMER_REAL, j.get("limit", 5))
                if j["op"] == "load":
                    r = {"ok": describe(Protocol(path))}
                elif j["op"] == "enum":
                    e = Enum("E", j["values"])
                    r = {"ok": [list(map(list, e.values.items())), e.encoding, list(e.get_default_pair()), list(e.get_minimum_pair())]}
                elif j["op"] == "sizes":
                    P = Protocol(path)
                    o = {}
                    for t in j["types"]:
                        try:
                            s = P.get_size_of(t)
                        except Exception as ex:
                            s = type(ex).__name__
                        x = []
                        for listed in (False, True):
                            for asl in (False, True):
                                try:
                                    x.append(bool(Variable(P, "v", t, asl).is_simple(listed)))
                                except Exception as ex:
                                    x.append(type(ex).__name__)
                        st = P.structs.get(t) or P.messages.get(t)
                        if st:
                            x.append(bool(st.is_simple()))
                        o[t] = [s, x]
                    r = {"ok": o}
            except Late:
                r = {"late": True}
            except Exception as e:
                r = {"no": type(e).__name__ + ": " + str(e)[:200]}
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            sys.stdout.write(json.dumps(r) + "\n")
            sys.stdout.flush()
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
        os.rmdir(scratch)


main()
