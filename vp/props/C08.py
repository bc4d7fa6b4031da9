"""FixedVector"""
from simple import define
from specs import fvec
define(globals(), "fixedvector", None, [("vector", 5, ["C08"], "random histories of up to 40 operations on three objects with capacities 1, 2, 3, 4, 5, 17 and 300 for the stated seconds")],
       "Proved for an opaque element type, the instantiation with capacity 1000 and every reachable state (class invariant: size() <= capacity, exactly the first size() slots of the inline storage are live): every public operation keeps the invariant and yields the specified sequence at an arbitrary position. The capacity enters the code only in comparisons; other capacities are covered by the bounded oracle.",
       loops=fvec.loops, config=fvec.config, priv=True, extra=("-DVP_CAP=1000",))
