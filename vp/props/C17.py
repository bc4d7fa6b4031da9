"""case conversion"""
from simple import define
from specs import casing
define(globals(), "casing", None, [("casing", 5, [], "every codepoint (all 1114112), values beyond, and random texts of up to 20 codepoints for the stated seconds")],
       "Proved: uppercase_unicode and lowercase_unicode look every value up correctly in any strictly sorted tables; the tables themselves are evaluated entry by entry against the Unicode Character Database; upper() and lower() append, for texts of any length, the whole mapping of every codepoint in order (iteration and append_codepoint by contract).",
       loops=casing.loops, config=casing.config, priv=True, lib=("pystd2026.cpp", "pystd2026_tables.cpp"))
_t = tasks


def tasks(tier):
    return _t(tier) + [casing.TableTask()]
