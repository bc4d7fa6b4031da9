"""glob component matching"""
from simple import define
from specs import glob
define(globals(), "glob", None, [("glob", 6, [], "directories of random names with random patterns of up to five letters, dots, stars and question marks for the stated seconds",
       dict(repo=["pystd2026.cpp", "pystd2026_tables.cpp", "pystd_common.cpp", "pystd2026_filesystem.cpp"]))],
       "glob_matches for all names and patterns of all lengths: its result is the recursively defined match relation (recursion by its own contract, with a decreasing measure), "
       "and only the two texts are read. The traversal of directories is covered by the executable oracle only", config=glob.config, priv=True, budget=200, lib=(), uses=lambda: [glob.GlobMatches()])
_t = tasks


def tasks(tier):
    from task import Task
    from spec import install

    def conf(V):
        install(V)
        glob.config(V)
    return [Task(glob.GlobMatches(), config=conf)] + _t(tier)
