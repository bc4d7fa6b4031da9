"""hash maps and sets"""
from simple import define
from specs import maps
NOTE = """HashMap over opaque keys and values and a table of any size: the class invariant (an occupied slot carries the low bits of its key's hash; every slot between the home slot of a key and the slot it is in is in use; no key is in two slots; exactly the occupied slots hold live keys and values) is kept by construction, insertion, removal, clear, moves and assignment, and each operation has the effect on every slot that a finite map requires: lookup finds the slot of a key that is there and nothing for one that is not, insert_internal adds exactly one entry and changes no other, remove takes out exactly one, grow hands every entry to the new table exactly once with its value and releases the old table, destroying and overwriting release every key, value and array exactly once. The probe loops terminate (ranking function: distance to the slot where the search ends at the latest). hash_to_slot yields a slot of the table for every 64-bit hash and every table size. insert, operator[], at and contains are proved over the contracts of lookup, grow and insert_internal, HashSet over those of HashMap. Keys compare by a function of their value.
Assumed: hash_for is a function of the key and the salt of the map (its definedness is C31); the counters equal the numbers of occupied and tombstone slots (each operation's effect on them is proved, the equality follows by induction over the history and is what makes an empty slot exist: lemma over counting); tables have fewer than 2^40 slots. The lookup and removal of a key in the table are stated at the slot it is in, which exists by definition. Combined histories over colliding, wrapping and real hashes are additionally executed (bounded)."""
define(globals(), "maps", None, [("maps", 8, [], "random histories of up to 600 operations on maps and sets with controlled (colliding, wrapping) and real hashes for the stated seconds")],
       NOTE, loops=maps.loops, config=maps.config, priv=True)
_t = tasks


def tasks(tier):
    from task import LemmaTask
    return _t(tier) + [LemmaTask("an empty slot is left", maps.lemmas)]
