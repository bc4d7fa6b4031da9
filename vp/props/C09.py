"""Bytes"""
from simple import define
from specs import strings
define(globals(), "bytes", None, [("strings", 5, ["C09"], "random histories of operations on three buffers for the stated seconds")],
       'Proved from an arbitrary reachable buffer (any contents, size and capacity, with or without storage): every constructor, copy, move, append (bytes, ranges, parts of itself), extend, resize, shrink, assign, insert, pop_back, pop_front, remove, +=, indexing, front/back, equality, both orderings, the hash feed; the class invariant holds after each and every block is released once. Calls of Bytes::append(char) use its contract, proved in the same run. Histories of operations are additionally run against a plain array as a bounded oracle.', config=strings.config, priv=True, budget=240)
