"""command lines"""
from simple import define
from specs import args
define(globals(), "args", None, [("args", 6, [], "random option tables of up to six options and argument vectors of up to six for the stated seconds",
       dict(repo=["pystd2026.cpp", "pystd2026_argparse.cpp", "pystd2026_tables.cpp", "pystd_common.cpp"], libs=["-fno-access-control"] + ["-Wl,--wrap=" + f for f in ("exit", "printf", "fprintf", "puts", "putchar", "fputc", "fwrite")]))],
       "Proved with callees by contract, one level at a time: parse_args for every argument vector and table (loop invariants: every argument is looked at once, in order, by its form); process_long_argument and process_short_argument for every argument and table; "
       "the lookups of options and values for tables of any size; what each kind of option does with every value text (strtol by contract). add_argument, create_value_obj and the help text are decided by the bounded oracle only.",
       config=args.config, priv=True, budget=200, lib=("pystd2026.cpp", "pystd2026_argparse.cpp"))
