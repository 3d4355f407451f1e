"""C09"""
from .reader import *

RULE = 'as C07, over alphabets of string contents: every code point, every escape, every hex digit class and every pair of \\u escapes; each code point handed to the encoder is the one the text stands for and the bytes the encoder writes reach the string once, in order'


def run():
    return run_reader('C09', RULE, parts(STRINGS), RULE, GRAMMAR | SAFETY, (), {'results checked': 5, 'characters fed': 500})
