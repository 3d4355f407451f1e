"""C10"""
from .reader import *

RULE = 'as C07, over alphabets of digits, sign, point and exponent characters and delimiters'


def run():
    return run_reader('C10', RULE, parts(NUMBERS), RULE, GRAMMAR | SAFETY, (), {'results checked': 5, 'characters fed': 500})
