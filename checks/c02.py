"""C02"""
from .value import *

RULE = 'for every operation and every combination of operand kinds, with every allocation and every conversion of the caller allowed to fail: every payload that existed or was allocated is, at each end by return or exception, owned by exactly one value or container, or was destroyed and deallocated exactly once; nothing touches released memory; no exception meets a noexcept boundary'


def run():
    return run_value('C02', RULE, OWN, {'operations': 150, 'paths': 1500, 'obligations': 5000})
