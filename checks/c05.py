"""C05"""
from .reader import *

RULE = 'for every text over the alphabets, for every position at which it ends or fails to decode or encode, every path of the parser ends in exactly one of: the value is delivered and the text was well-formed; configor_deserialization_error leaves it and the text was not'


def run():
    return run_reader('C05', RULE, parts(FAILURES + STRUCT[6:7] + STRINGS[:1] + COMMENTS[:1] + NUMBERS[:1] + NUMBERS[2:3] + COMMENTS[3:4]), RULE, GRAMMAR - {"element", "member", "result"} | SAFETY, (), {'rejected': 100, 'accepted': 10, 'parts': 5})
