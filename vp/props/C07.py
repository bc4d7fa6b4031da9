"""Vector"""
from simple import define
from specs import vec
define(globals(), "vector", None, [("vector", 5, ["C07"], "random histories of up to 40 operations on three vectors of five element types for the stated seconds")],
       "Proved for an opaque element type and every reachable state (class invariant: null buffer exactly with no capacity, otherwise a heap block of that capacity whose first size() slots are exactly the live ones): every public operation keeps the invariant and yields the specified sequence at an arbitrary position, with unbounded sizes. Self-referencing arguments included. Any history is a sequence of these steps.",
       loops=vec.loops, config=vec.config, priv=True)
