"""C11"""
from .reader import *

RULE = 'as C10; the automaton computes the mathematical value of the digits read and the stored integer is proved equal to it as a linear expression over the digits, or the refusal is proved to happen exactly when the value leaves [-2^63, 2^63-1]'


def run():
    return run_reader('C11', RULE, parts(INTEGERS), RULE, GRAMMAR | SAFETY | {"signed-overflow", "digits-wrap"}, (), {'results checked': 5, 'characters fed': 200})
