"""C08"""
from .reader import *

RULE = 'as C07, over alphabets of whitespace, comment and literal characters (all other code points as one class)'


def run():
    return run_reader('C08', RULE, parts(COMMENTS), RULE, GRAMMAR | SAFETY, (), {'results checked': 5, 'characters fed': 500})
