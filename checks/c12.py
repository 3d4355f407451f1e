"""C12"""
from .writer import *

RULE = 'product of the writer with the string automaton: each code point the decoder delivers is written once, in order, between two quotes; as itself only when it needs no escape, as the short escape or the four hex digits (or the pair of surrogates) that stand for it otherwise; a string that cannot be decoded or encoded never ends in a normal return'


def run():
    return run_writer('C12', RULE, STRINGS, RULE, STR | SAFETY, {'strings written': 50, 'characters fed': 500, 'documents checked': 3})
