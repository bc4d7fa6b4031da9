"""natural_order"""
from simple import define
from specs import natural
define(globals(), "natural", None, [("strings", 5, ["C30"], "random pairs and triples of texts of digits, signs, white space, letters and arbitrary bytes for the stated seconds")],
       "CStringView::natural_order for all pairs of texts of all lengths: the result is the recursively defined order (loop invariant over the "
       "definition; digit runs of any length by value), nothing outside the two texts is read; that this order is antisymmetric, transitive and well-founded is proved as lemmas "
       "(one induction step each; the induction itself, over the number of bytes left, is the trusted step)", config=natural.config, priv=True, budget=200, loops=natural.loops)
_t = tasks


def tasks(tier):
    from task import LemmaTask
    return _t(tier) + [LemmaTask("the natural order is a total preorder", natural.lemmas)]
