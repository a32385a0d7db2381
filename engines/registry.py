import os
from . import bounded_engine as be
from harness import pyside, bounded
from . import deductive as de
from . import pydeductive as pd
from .levels import LEVELS, TRUSTED, PYTRUSTED, ASSUME, PYASSUME, DEDUCTIVE


def deductive(ctx):
    """the obligations of the generated code; what is refuted is replayed, what is out of reach goes to the bounded stand-in"""
    more = pyside.drawn(ctx.seed, 60 if ctx.deep else 6)
    left, refuted = de.run(ctx, de.LANGS.get(ctx.prop, DEDUCTIVE), more=more)
    ctx.coverage["protocols"] = len(pyside.kernels()) + len(more)
    # refuted: the countermodel on the compiled code
    by = {}
    for l, k, kind, t, o in refuted:
        by.setdefault((l, k), []).append((kind, t, o))
    units = {(u.lang, u.path): u for u in be.kernel_units()} if by or left else {}
    for (l, k), os_ in by.items():
        u = units.get((l, k))
        if u and not u.error:
            u.prepare()
        hit = False
        for kind, t, o in os_:
            name = f"{l}:{os.path.basename(k)[:-5]}: {kind} {t or ''}: {o['label']}"
            for cmd, want, what in o.get("cases", ()):
                if not u or u.error or u.build_error or hit:
                    break
                c = bounded.adapt(l, u.p, bounded.Case(cmd, want, what))
                got = u.drv.cmd(c.cmd)
                pr = bounded.judge(l, c.want, got)
                if pr:
                    hit = True
                    ctx.violate(f"obligation refuted: {name}: the countermodel on the compiled code: {pr}", be.replay_of(u, c, pr, obligation=name, condition=o.get("cond")), key=f"{l} {kind} {o['label']}")
        if not hit and u and not u.error and not u.build_error:
            # the same function on more inputs than otherwise
            for c, pr in bounded.run_cases(u, bounded.PROPS[ctx.prop](u.p, ctx.seed, True))[0][:1]:
                hit = True
                ctx.violate(f"obligation refuted: {name}: and on the compiled code: {c.what}: {pr}", be.replay_of(u, c, pr, obligation=name, condition=o.get("cond")), key=f"{l} {kind} {o['label']}")
        if not hit:
            ctx.violate(f"obligation refuted: {name}", {"engine": "obligation", "lang": l, "kernel": k, "function": [kind, t], "obligation": name, "verifier": o}, key=f"{l} {kind} {o['label']}", noinput=True)
        if u:
            u.close()
    return units, left


def python_bounded(P, seed, deep):
    """inputs for the repository's own Python, judged by the reference: [(what, replay, key)], counts"""
    if P in ("C12", "C13"):
        bad, (acc, rej) = pyside.run_docs(getattr(pyside, P)(seed, deep))
        return [("protocol document: " + pr, {"engine": "documents", "text": t, "problem": pr}, pr) for t, pr in bad], {"bounded_documents_accepted": acc, "bounded_documents_refused": rej}
    if P == "C14":
        sp = pyside.C14(seed, deep)
        return [("Enum: " + pr, {"engine": "enums", "values": v, "problem": pr}, pr) for v, pr in pyside.run_enums(sp)], {"bounded_enum_specs": len(sp)}
    if P == "C15":
        bad, n = pyside.run_sizes(pyside.C15(seed, deep))
        return [("fixed size: " + pr, {"engine": "sizes", "text": t, "problem": pr}, pr) for t, pr in bad], {"bounded_types_sized": n}
    bad, n = pyside.C17_runs(seed, deep)
    return [(f"beschi {' '.join(argv)}: {pr}", {"engine": "cli", "argv": argv, "files": fl, "problem": pr}, pr) for argv, pr, fl in bad], {"bounded_runs": n}


def python(ctx):
    """the obligations of the repository's own Python; those not discharged are looked into with inputs, then reported"""
    P = ctx.prop
    bad, left = pd.run(ctx) if pd.specs(P) else ([], [])
    hits, counts = python_bounded(P, ctx.seed, ctx.deep)
    if not hits and (bad or left):
        # more inputs: for a failing one, or in place of what the verifier does not treat
        for k in range(3):
            hits, c2 = python_bounded(P, f"{ctx.seed}.{k}", True)
            for x, v in c2.items():
                counts[x] += v
            if hits:
                break
    for k, v in counts.items():
        ctx.add(k, v)
    names = [f"{w}: {o['label']}" + (f", line {o['line']}" if o.get("line") else "") for w, o in bad]
    for what, rep, key in hits:
        ctx.violate((f"obligation not discharged: {names[0]}: " if names else "") + what, {**rep, "obligations": names[:10]}, key=key)
    if bad and not hits:
        ctx.violate(f"obligation not discharged: {names[0]}", {"engine": "obligation", "language": "python", "obligations": names[:20], "verifier": [o for _, o in bad[:5]]}, key=names[0], noinput=True)


def run(ctx):
    P = ctx.prop
    level = LEVELS[P][0]
    units = {}
    if P in de.KINDS:
        units, left = deductive(ctx)
        # a bounded check of more inputs stands in for what the verifier does not treat
        n = 0
        for l, k in left:
            u = units.get((l, k))
            if u and not u.error:
                u.prepare()
                if not u.build_error:
                    bad, m = bounded.run_cases(u, bounded.PROPS[P](u.p, ctx.seed, True))
                    n += m
                    for c, pr in bad[:1]:
                        ctx.violate(f"{u.label}: {c.what}: {pr}", be.replay_of(u, c, pr), key=f"{u.label} {c.cmd}")
                u.close()
        ctx.add("bounded_cases_standing_in", n)
        if not ctx.coverage["obligations"]:
            ctx.undecided.append("no obligation was generated")
    if P in bounded.PROPS and P not in ("C11", "C14"):
        be.run_units(ctx, be.kernel_units(deep=ctx.deep, more=pyside.drawn(ctx.seed, 20 if ctx.deep else 2)), [P])
    if P == "C11":
        be.run_units(ctx, be.kernel_units(["c"], more=pyside.drawn(ctx.seed, 20 if ctx.deep else 4)), ["C11"])
    if P in ("C12", "C13", "C14", "C15", "C17"):
        python(ctx)
    if P == "C14":
        be.run_units(ctx, be.kernel_units(), ["C14"])
    if P == "C16":
        bad, n = pyside.C16_tokens(ctx.seed, ctx.deep)
        ctx.add("bounded_texts_compared", n)
        for lab, pr, j in bad:
            ctx.violate(f"{lab}: {pr}", {"engine": "tokens", "job": j, "problem": pr}, key=lab)
        be.run_units(ctx, be.option_units(ctx.deep), ["C01", "C02", "C03", "C05", "C06", "C07", "C09", "C10"])
    n = sum(v for k, v in ctx.coverage.items() if k.startswith("bounded"))
    if n == 0:
        ctx.undecided.append("nothing was evaluated")
    ctx.coverage["evaluations"] = n
    ctx.coverage["distinct_nontrivial"] = n
    ctx.coverage["rule"] = "generated inputs, boundary values first, each checked against an independent reference"
    if P in de.KINDS:
        ctx.coverage["checker_cmd"] = f"python3-vt check.py {P}  (bvc generates the obligations, z3 {de.z3.get_version_string()} decides them)"
        ctx.coverage["trusted_base"] = TRUSTED
        ctx.assumptions += [f"{l}: {a}" for l in de.LANGS.get(P, DEDUCTIVE) for a in ASSUME.get(l, ())] + ["string and list lengths below 2^40; the encoded size fits the target's position type"]
    elif level == "proof":
        ctx.coverage["checker_cmd"] = f"python3-vt check.py {P}  (pyvc generates the obligations, z3 {de.z3.get_version_string()} decides them)"
        ctx.coverage["trusted_base"] = PYTRUSTED
        ctx.assumptions += PYASSUME.get(P, [])
    return level
