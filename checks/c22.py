"""C22"""
from .value import *

RULE = 'for every pair of kinds and every scalar: the result of each comparison operator on each path is the truth value of the specified relation, for everything the path leaves open about numbers, strings and contents'


def run():
    return run_value('C22', RULE, {'compare', 'access'} | OWN - {'leak'}, {'operations': 60, 'paths': 900},
                     lambda n: n[:2] in ('c_', 'r_'))
