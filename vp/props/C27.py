"""regular expressions"""
from simple import define
from specs import regex
define(globals(), "regex", None, [("regex", 5, [], "random patterns with groups, alternatives and repetition on random texts, with counted PCRE2 objects, for the stated seconds",
       dict(repo=["pystd2026.cpp", "pystd2026_regex.cpp", "pystd2026_tables.cpp", "pystd_common.cpp"], libs=["-lpcre2-8"] + ["-Wl,--wrap=" + f for f in ("pcre2_compile_8", "pcre2_code_free_8", "pcre2_match_data_create_from_pattern_8", "pcre2_match_data_free_8", "pcre2_match_8")]))],
       "Proved over the contracts of the PCRE2 functions: compiling and searching for every text, failures included; group, get_submatch and num_groups for every group number and every vector of results; moves of matches; patterns and match data released exactly once on every path.",
       config=regex.config, priv=True, budget=200, lib=("pystd2026.cpp", "pystd2026_regex.cpp"))
