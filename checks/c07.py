"""C07"""
from .reader import *

RULE = 'product of the parser with the grammar automaton: an element or member is compared, when the text completes it, with what the text said and with its place (array under construction and index, object under construction and key); the value returned is the root'


def run():
    return run_reader('C07', RULE, parts(STRUCT), RULE, GRAMMAR | SAFETY, (), {'elements checked': 50, 'members checked': 50, 'results checked': 20})
