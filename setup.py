#!/usr/bin/env python3-vt
"""Prefill /verif/build (git-ignored) with the drivers of the current tree, so that the checks rebuild only what a change touches."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
from engines import bounded_engine as be
from harness import pyside
from bvc import fronts

t = time.time()
seed = int(os.environ.get("VERIF_SEED", "1"))
fronts.go_exe()
fronts.csharp_exe()
fronts.rust_exe()
units = be.kernel_units(more=pyside.drawn(seed, 2)) + be.kernel_units(["c"], kernels=(), more=pyside.drawn(seed, 4)) + be.option_units()
with ThreadPoolExecutor(8) as ex:
    list(ex.map(lambda u: u.prepare(), units))
bad = [(u.label, (u.error or u.build_error)[:300]) for u in units if u.error or u.build_error]
for b in bad:
    print("setup:", *b)
print(f"setup: {len(units)} drivers, {len(bad)} not built, {time.time() - t:.1f} s")
