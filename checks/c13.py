"""C13"""
from .writer import *

RULE = 'product of the writer with the document automaton: every character that reaches the output stream is the one due for the value (kind, element, key, number, separator, layout) the automaton is at; a formatted number is the stored one, in decimal, and certainly has a point or exponent exactly when it is a float; the float-to-integer conversion is only reached with the value in range; a normal return leaves a complete document'


def run():
    return run_writer('C13', RULE, DOCS, RULE, DOC | SAFETY, {'values written': 200, 'numbers written': 50, 'documents checked': 5}, DOCS_DEEP)
