"""unique_ptr, unique_arr"""
from simple import define
define(globals(), "holders", r"unique_", [("holders", 4, ["C20"], "random sequences of up to 14 operations on three owners for the stated seconds")],
       "Proved for arbitrary (possibly null) pointers and a counting deleter: construction, move construction/assignment, self-move, reset, release, destruction; recorded sizes; element access for every index; default deleters release the allocation exactly once. Precondition: reset is not given the pointer already owned.")
