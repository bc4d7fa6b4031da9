"""Span and array accesses"""
from simple import define
define(globals(), "holders", r"span|unique_arr_access", [("holders", 4, ["C21"], "all boundary offset/size/index combinations on spans of 0..11 elements")],
       "Proved for every size below 2^40 and every 64 bit index, offset and length: element access, subspan, iteration bounds, copies, and unique_arr access.")
