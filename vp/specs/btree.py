"""BTree (C11): nodes by contract."""
import z3
from values import *
from engine import *
from execu import *
from specs import maps


def loops():
    def inv(v):
        return [("the search is where the value must be", v.u('current_id') == v.V.load_global(v.st, "cur_")),
                ("it is at a node", v.u('current_id') % 2**31 != 2**31 - 1)]
    return [LoopSpec(r"::BTree<Elem, \d+ul>::lookup\(", inv, variant=lambda v: v.V.load_global(v.st, "height_"), names=('current_id',), tag='search')]


def config(V):
    V.bitfields = True
    V.load_global = maps.load_global(V)
    V.on("^vp_keyof$", lambda V, st, a, ins: IV(64, Lin.of(KEY(V.elem_get(st, a[0], "Elem", ins, "key")))))
    if V.task_name == "spec_btree_lookup":
        V.on(r"::BTree<Elem, \d+ul>::get_node_common\(", "stub_look")
        V.on(r"::BTree<Elem, \d+ul>::get_internal\(", "stub_look_inner")
    V.on(r"::BTree<Elem, \d+ul>::get_node_common\(", "stub_node")
    V.on(r"::BTree<Elem, \d+ul>::get_leaf\(", "stub_leaf")
    V.on(r"::BTree<Elem, \d+ul>::get_internal\(", "stub_inner")
    V.on(r"::BTree<Elem, \d+ul>::swap_to_end_and_pop\(", "stub_pop") if "merge" in V.task_name else None
    V.on(r"::Vector<pystd2026::BTree<Elem, \d+ul>::LeafNode>::pop_back\(", "stub_pop_leaf")
    V.on(r"::Vector<pystd2026::BTree<Elem, \d+ul>::InternalNode>::pop_back\(", "stub_pop_inner")
    V.on(r"::Vector<pystd2026::BTree<Elem, \d+ul>::LeafNode>::push_back\(", "stub_push_leaf")
    V.on(r"::Vector<pystd2026::BTree<Elem, \d+ul>::InternalNode>::push_back\(", "stub_push_inner")
    B = r"::BTree<Elem, \d+ul>::"
    t = V.task_name
    if "insert_step" in t:
        V.on_nested(B + r"insert_recursive\(", "stub_step")
        V.on(B + r"split_node\(", "stub_split")
    if "extract_step" in t:
        V.on_nested(B + r"extract_value\(", "stub_extract")
        V.on(B + r"extract_value_from_leaf\(", "stub_here_leaf")
        V.on(B + r"extract_value_from_internal\(", "stub_here_inner")
        V.on(B + r"shift_node_to_right\(", "stub_shift_right")
        V.on(B + r"shift_node_to_left\(", "stub_shift_left")
        V.on(B + r"merge_siblings_of_entry\(", "stub_merge")
    if "extract_from_inner" in t:
        for n, f in (("find_predecessor", "stub_pred"), ("find_successor", "stub_succ"), ("extract_value", "stub_take"), ("lookup", "stub_find"), ("merge_siblings_of_entry", "stub_merge")):
            V.on(B + n + r"\(", f)
    if "fixup" in t:
        V.on(B + r"swap_to_end_and_pop\(", "stub_pop_root")
        V.on(r"::Vector<pystd2026::BTree<Elem, \d+ul>::LeafNode>::clear\(", "stub_clear_leaf")
        V.on(r"::Vector<pystd2026::BTree<Elem, \d+ul>::InternalNode>::clear\(", "stub_clear_inner")
    if t in ("spec_btree_insert", "spec_btree_remove"):
        V.on(B + r"insert_recursive\(", "stub_step")
        V.on(B + r"extract_value\(", "stub_remove")
        V.on(B + r"root_fixup\(", "stub_fixup")
