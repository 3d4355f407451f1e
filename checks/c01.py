"""C01"""
from .value import *

RULE = 'for every operation and every combination of operand kinds, with every allocation and every conversion of the caller allowed to fail: at each end, by return or exception, each value has a defined kind and the payload of that kind, constructed and alive; no payload is read through another kind; construction, assignment and the kind queries give the documented kind and content'


def run():
    return run_value('C01', RULE, FORM | {'value', 'query', 'dead-access', 'terminate'}, {'operations': 150, 'paths': 1500, 'obligations': 5000})
