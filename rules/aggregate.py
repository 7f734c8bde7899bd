from sa.check import equiv

from ._ext import extensional
from ._ext import undup

S = "spec.aggregate."
W = ("value", "raises", "heap")


def ranking(depth):
    """two priority lists are the same when every entry has the same first position (up to repeated entries)"""
    def post(k, x, y):
        if depth:
            x, y = extensional(depth)(k, x, y)
        return (undup(x), undup(y)) if k == "value" else (x, y)
    return post


equiv("agg.namespaces", S + "ns_impl", "aggregate.ns", W, post=ranking(0))
equiv("agg.features", S + "feat_impl", "aggregate.feat", W, post=ranking(1))
equiv("agg.properties", S + "prop_impl", "aggregate.prop", W, post=ranking(2))
equiv("agg.namespaces3", S + "ns3_impl", "aggregate.ns3", W, post=ranking(0))
equiv("agg.features3", S + "feat3_impl", "aggregate.feat3", W, post=ranking(1))
equiv("agg.properties3", S + "prop3_impl", "aggregate.prop3", W, post=ranking(2))
