"""C16"""
from .value import *

RULE = 'for every kind of value, every index and every key: each access, insertion and removal returns the element named, creates or removes exactly what was asked (token of the container content, size, kind of the new element), or throws the documented exception and leaves the value as it was'


def run():
    return run_value('C16', RULE, {'access', 'query', 'move'} | OWN - {'leak'}, {'operations': 70, 'paths': 700},
                     lambda n: n[0] in 'qm' or n == 'v_clear')
