"""clamp and floating point orders."""
import os
from spec import spec_tasks
from build import HERE, REPO

SRC = os.path.join(HERE, "harness/scalars.cpp")
EXTRA = {"scalars": ["-fno-access-control"]}


def modules():
    return [(SRC, "scalars"), (os.path.join(REPO, "src/pystd2026.cpp"), "lib")]


def tasks(tier):
    return spec_tasks(SRC, only="clamp|total|ignore")


def hunts(tier):
    return [dict(name="scalars", src="scalars.cpp", secs=4, defs=["C23"], functions=[], bound="all pairs and triples of 40 boundary values, random bit patterns for the stated seconds")]


NOTE = "Proved for every argument (floats by their IEEE bit patterns): both clamp overloads, total_order_compare/equal for float and double, FloatTotalOrderComparator and FloatIgnoreNanComparator."
