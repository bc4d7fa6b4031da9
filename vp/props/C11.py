"""B-trees"""
from simple import define
from specs import btree
NOTE = ("every operation on nodes (search within a node, insertion, splitting of leaves, inner nodes and roots, shifting to the left and to the right, merging, removal from leaves and inner nodes, "
        "release of nodes, root fixup, one step down of insertion and of removal, lookup over any height) is proved for nodes of 3 entries with any values and any identifiers and any number of other nodes; "
        "the nodes are separate objects which get_node_common, get_leaf and get_internal hand out by contract, the vectors of nodes are by contract, and the recursive calls are by their own contracts; "
        "that the contracts of the steps compose over a whole history, iteration, and the wrappers BTreeSet and BTreeMap are executed on random histories (bounded)")
define(globals(), "btree", None, [("btree", 10, [], "random histories of up to 1500 operations on trees, sets and maps of 3 to 11 entries per node for the stated seconds")],
       NOTE, loops=btree.loops, config=btree.config, priv=True, extra=["-DVP_N=3"])
