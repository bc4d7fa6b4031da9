"""Variant"""
from simple import define
define(globals(), "variant", None, [("holders", 5, ["C19"], "random sequences of up to 12 operations on three variants of thirty alternatives for the stated seconds")],
       "Proved for Variant with the maximal thirty alternatives, case by case for each held alternative and an arbitrary opaque value: default, value, copy and move construction, copy/move assignment, self assignment, insert, index, contains, get, get_if, destruction exactly once as the right type. Insert, copy, move and value assignment are proved for every pair of held and new alternative, access for every pair of held and requested one. operator== (private, does not compile) is outside.")
