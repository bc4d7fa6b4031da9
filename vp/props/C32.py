"""files"""
from simple import define
from specs import strings, files


def config(V):
    strings.config(V)
    V.assumptions.add("stdio and mmap functions are used through the contracts written in harness/files.cpp")


define(globals(), "files", None, [("files", 5, [], "random file contents and sequences of moves of mappings, with counted and failing library calls, for the stated seconds",
       dict(repo=["pystd2026.cpp", "pystd2026_filesystem.cpp", "pystd2026_tables.cpp", "pystd_common.cpp"], libs=["-Wl,--wrap=" + f for f in ("fopen", "fclose", "fread", "ferror", "mmap", "munmap")]))],
       "Proved over the contracts of stdio and mmap: readline_bytes from any position of any file, the line iterator, load_bytes for any file length with reads that may fail at any point, mmap_file, and every sequence of up to three moves, assignments and releases of MMapping objects.", loops=files.loops, config=config, priv=True, budget=240, lib=("pystd2026.cpp", "pystd2026_filesystem.cpp"))
