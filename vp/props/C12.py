"""CString"""
from simple import define
from specs import strings
define(globals(), "cstring", None, [("strings", 5, ["C12"], "random histories of operations on three strings for the stated seconds")],
       'Proved from an arbitrary reachable string (any contents without NUL, any capacity): every constructor, copy and move, access, strip, clear, substr, assignment, comparison and order, append of characters, texts, ranges and of parts of itself, concatenation, pop_back, insert (also of itself), remove, resize, reserve, find, rfind, upper, lower, split_by; the class invariant holds after each, memory is only touched inside live blocks, and NULs and positions out of range are reported. Calls of Bytes::append(char) and CString::append(char) use contracts that are proved in the same run. split() returning a Vector, and whole histories, are decided by the bounded oracle.', config=strings.config, priv=True, budget=240)
