"""Range."""
import os
from spec import spec_tasks
from build import HERE, REPO

SRC = os.path.join(HERE, "harness/scalars.cpp")
EXTRA = {"scalars": ["-fno-access-control"]}


def modules():
    return [(SRC, "scalars"), (os.path.join(REPO, "src/pystd2026.cpp"), "lib")]


def tasks(tier):
    return spec_tasks(SRC, only="range")


def hunts(tier):
    return [dict(name="scalars", src="scalars.cpp", secs=4, defs=["C22"], functions=[], bound="all start/stop/step in -12..12 and around the int64 limits, random ones for the stated seconds")]


NOTE = ("Proved for every start, stop, step and every reachable state: the constructors and Range::next (value due, advance, end, overflow), hence by induction the whole enumeration; "
        "LoopView and Loopsume over Range.")
