"""FixedCString"""
from simple import define
from specs import strings


def config(V):
    strings.config(V)
    V.autoloops = False


define(globals(), "fixedcstring", None, [("strings", 5, ["C14"], "random histories of operations on strings of capacity 1, 2, 5, 16 and 300 for the stated seconds")],
       "every public operation of FixedCString, from an arbitrary reachable state and with an arbitrary argument of any length, "
       "for the capacities 1 and 4 (and between 2/4 and 4/1); other capacities are covered by the bounded stand-in only", config=config, priv=True, budget=240)
