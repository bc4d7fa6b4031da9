"""Optional, Expected"""
from simple import define
define(globals(), "holders", r"optional|expected", [("holders", 4, ["C18"], "random sequences of up to 14 operations on three objects for the stated seconds")],
       "Proved for an opaque element type and every pair of states (absent / holding any value, empty / value / error): every constructor, assignment (also from itself and from its own contents), reset and accessor of Optional<T>, Optional<T*>, Expected and Unexpected, including exactly-once construction and destruction of the contents. Any history is a sequence of these steps.")
