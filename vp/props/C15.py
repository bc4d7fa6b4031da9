"""UTF-8 validation"""
import os
from simple import define
from specs import utf8
define(globals(), "utf8", r"valid", [("utf8", 4, ["C15"], "every one byte text, boundary sequences of two to four bytes, random and mutated texts for the stated seconds")],
       "Proved for every byte sequence of every length: is_valid_utf8 returns true exactly for well-formed UTF-8 (loop invariant over a recursively defined predicate, table 3-7), reads only the given bytes; U8StringView construction with and without length. U8String construction validates through the same function; its storage is covered by C12 and the bounded oracle.",
       config=utf8.config, priv=True, uses=lambda: [utf8.IsValid()])
_t = tasks


def tasks(tier):
    from task import Task
    from spec import install

    def conf(V):
        install(V)
        utf8.config(V)
    return [Task(utf8.IsValid(), config=conf), Task(utf8.IsValid(True), config=conf)] + _t(tier)
