"""hashing"""
from simple import define
from specs import hash as hs
define(globals(), "hash", None, [("strings", 5, ["C31"], "random values of every hashable type, equal ones with different histories, for the stated seconds")],
       "every feed_hash of the library's hashable types (Bytes, CStringView, ZStringView, CString, U8String, U8StringView and the integers of every width), on arbitrary reachable values, "
       "feeds exactly the bytes that equality compares (C09, C12, C13, C15), in order, whatever the hash algorithm; SimpleHash::feed_bytes is the fold of its previous value over exactly the fed bytes (loop invariant). "
       "Equal contents therefore give equal hashes", config=hs.config, priv=True, budget=120, loops=hs.loops)
