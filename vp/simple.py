"""Most properties: specification functions in one harness plus an executable oracle."""
import os
from spec import spec_tasks
from build import HERE, REPO


def define(ns, harness, only, hunts, note, loops=None, priv=False, config=None, lib=("pystd2026.cpp",), extra=(), budget=None, technique=None, uses=None):
    src = os.path.join(HERE, "harness/%s.cpp" % harness)
    fl = list(extra) + (["-fno-access-control"] if priv else [])
    libs = [(os.path.join(REPO, "src", l), "lib" if i == 0 else "lib%d" % i) for i, l in enumerate(lib)]
    if fl:
        ns['EXTRA'] = {harness: fl}
    ns['modules'] = lambda: [(src, harness)] + libs

    def tasks(tier):
        kw = {}
        if budget:
            kw['budget'] = budget
        return spec_tasks(src, only=only, loops=loops() if loops else (), config=config, uses=uses() if uses else (), **kw)
    ns['tasks'] = tasks
    ns['hunts'] = lambda tier: [dict(name=h[0], src=h[0] + ".cpp", secs=h[1], defs=list(h[2]), functions=[], bound=h[3], **(h[4] if len(h) > 4 else {})) for h in hunts]
    ns['NOTE'] = note
    if technique:
        ns['TECHNIQUE'] = technique
