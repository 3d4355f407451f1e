"""C06"""
from .reader import *
from . import writer

RULE = 'on every path with a handler installed the handler is called exactly once, with the exception in flight, if and only if the text is malformed, undecodable or not encodable, or the value cannot be written (undecodable or not encodable content, an output stream that fails, infinity or NaN), and the call returns; without one the exception leaves the call'


def run():
    def extra(mod, L, budget):
        return writer.tasks(mod, L, writer.HANDLED, budget)
    return run_reader('C06', RULE, parts(HANDLED), RULE, HANDLER | SAFETY | {'refuses-valid', 'accepts-failure'}, (), {'handler calls': 50, 'parts': 3}, extra=extra)
