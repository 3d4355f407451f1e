"""C03"""
from .value import *

RULE = 'for every combination of kinds: a copy has the kind and content of the source (content tokens: a copy carries the token of its source) and a payload of its own; a move hands over the very payload and leaves null; swap exchanges kind and payload; assignment from itself or from a part of itself gives the value named'


def run():
    return run_value('C03', RULE, OWN - {'leak'} | {'copy', 'move', 'swap', 'self'}, {'operations': 15, 'paths': 300},
                     lambda n: n.split()[0].startswith(COPIES))
