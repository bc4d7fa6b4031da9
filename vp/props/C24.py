"""paths"""
from simple import define
from specs import strings
define(globals(), "path", None, [("path", 5, [], "random pairs of paths and extensions of up to 300 bytes over a small alphabet for the stated seconds", dict(repo=["pystd2026.cpp", "pystd2026_filesystem.cpp", "pystd2026_tables.cpp", "pystd_common.cpp"]))],
       "Proved from an arbitrary reachable path of any length: construction, is_abs, joining, filename, extension and replace_extension, each with the class invariant (only the root directory ends in a separator). split is decided by the bounded oracle.", config=strings.config, priv=True, budget=240, lib=("pystd2026_filesystem.cpp", "pystd2026.cpp"))
