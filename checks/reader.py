"""C05-C11: the reader automaton.  Every check explores the product of json::parse (LLVM IR of the current headers)
with the grammar automaton of engine/jsonspec.py, for a family of input alphabets."""
import os
from engine import build, jsonspec, par
from engine.layout import Layout
from engine.report import Report

SAFETY = {'assert', 'bad-call', 'bad-free', 'dead-access', 'div-zero', 'double-free', 'not-constructed', 'null-deref', 'out-of-bounds',
          'terminate', 'undef-branch', 'undef-pointer', 'undef-value', 'wrong-kind', 'oob'}
GRAMMAR = {'accepts-malformed', 'rejects-valid', 'unread-rest', 'result', 'element', 'member', 'exception-type'}
HANDLER = {'handler-twice', 'handler-missed', 'handler-argument', 'escapes-handler', 'exception-type', 'rejects-valid', 'terminate'}


def S(s, *more):
    return set(s) | set(more)


# name, entry, Cfg arguments
STRUCT = [
    ('any nesting up to 2, integers and strings', dict(struct=S('{}[]:,"7', 'eof'), depth=2, str1=True, num1=True, litrest=False)),
    ('arrays of literals', dict(struct=S('[],tfn', 'eof'), digits='', depth=1)),
    ('objects of literals', dict(struct=S('{}:,"tfn', 'eof'), digits='', depth=1, str1=True, litrest=False)),
    ('arrays of integers', dict(struct=S('[],7-', 'eof', 'ws', 'nul', 'rest'), digits='17', depth=1)),
    ('arrays of strings', dict(struct=S('[],"', 'eof'), digits='', depth=1)),
    ('objects with any keys', dict(struct=S('{}:,"', 'eof'), digits='', depth=1)),
    ('mixed brackets with all delimiters', dict(struct=S('{}[]:,"7', 'eof', 'ws', 'nul', 'rest'), depth=1, str1=True, num1=True)),
    ('arrays of floats', dict(struct=S('[],7', 'eof'), digits='7', depth=1, floats='frac', litrest=False)),
]
COMMENTS = [
    ('comments around a value', dict(struct=S('7', 'eof', 'ws', 'nul', 'rest'), depth=0, comments=True)),
    ('comments in arrays', dict(struct=S('[],7', 'eof', 'ws'), depth=1, comments=True, num1=True)),
    ('comments in objects', dict(struct=S('{}:,"7', 'eof'), depth=1, comments=True, num1=True, str1=True, litrest=False)),
    ('literals', dict(struct=S('tfn', 'eof', 'ws', 'nul', 'rest'), digits='', depth=0)),
    ('literals in arrays', dict(struct=S('[],tfn', 'eof', 'ws'), digits='', depth=1)),
]
STRINGS = [
    ('strings, hex digits 0-9', dict(struct=S('"', 'eof'), digits='', depth=0, strings=True, hexmode='d')),
    ('strings, hex digits A-F', dict(struct=S('"', 'eof'), digits='', depth=0, strings=True, hexmode='u')),
    ('strings, hex digits a-f', dict(struct=S('"', 'eof'), digits='', depth=0, strings=True, hexmode='l')),
    ('surrogate pairs 0-9', dict(struct=S('"', 'eof'), digits='', depth=0, strings=True, hexmode='d', pairs=True)),
    ('surrogate pairs A-F', dict(struct=S('"', 'eof'), digits='', depth=0, strings=True, hexmode='u', pairs=True)),
    ('surrogate pairs a-f', dict(struct=S('"', 'eof'), digits='', depth=0, strings=True, hexmode='l', pairs=True)),
    ('arrays of strings with escapes', dict(struct=S('[],"', 'eof'), digits='', depth=1, strings=True, nou=True)),
    ('objects with escapes', dict(struct=S('{}:,"', 'eof'), digits='', depth=1, esc=True, escs='n"', nou=True)),
]
NUMBERS = [
    ('floats', dict(struct=S('-+7', 'eof', 'ws'), digits='07', floats=True, slot32=3, depth=0)),
    ('floats in arrays', dict(struct=S('[],7', 'eof'), digits='7', depth=1, floats='frac', litrest=False)),
    ('integers and what follows', dict(struct=S('-+7', 'eof', 'ws', 'nul', 'rest'), digits='017', depth=0, comments=True)),
    ('integers in objects', dict(struct=S('{}:,"7-', 'eof', 'ws'), digits='07', depth=1, str1=True, litrest=False)),
]
INTEGERS = [
    ('integers, all digits', dict(overflow=True, struct=S('-+', 'eof'), digits='0123456789', depth=0)),
    ('integers in arrays', dict(overflow=True, struct=S('[],-', 'eof', 'ws'), digits='0189', depth=1, litrest=False)),
    ('exponents', dict(overflow=True, struct=S('-7', 'eof'), digits='7', floats=True, slot32=3, depth=0)),
]
FAILURES = [
    ('decoding failures: values', dict(struct=S('7-tn"', 'eof', 'ws', 'rest'), digits='07', depth=0, decfail=True, encfail=True, strings=True, nou=True, comments=True)),
    ('decoding failures: escapes', dict(struct=S('"', 'eof'), digits='', depth=0, decfail=True, encfail=True, strings=True, hexmode='d')),
    ('decoding failures: structure', dict(struct=S('[]{}:,"7', 'eof'), depth=1, decfail=True, encfail=True, str1=True, num1=True, litrest=False)),
    ('decoding failures: floats', dict(struct=S('7', 'eof'), digits='7', depth=0, decfail=True, floats=True, slot32=3, litrest=False)),
]
HANDLED = [
    ('handler: values', 'h_parse_eh', dict(struct=S('7-tn"', 'eof', 'ws', 'rest', 'nul'), digits='07', depth=0, decfail=True, decthrow=True, encfail=True, strings=True, nou=True, comments=True)),
    ('handler: structure', 'h_parse_eh', dict(struct=S('[]{}:,"7', 'eof'), depth=1, decfail=True, decthrow=True, encfail=True, str1=True, num1=True, litrest=False)),
    ('handler: floats', 'h_parse_eh', dict(struct=S('7', 'eof'), digits='7', depth=0, decfail=True, decthrow=True, floats=True, slot32=3, litrest=False)),
    ('no handler: structure', 'h_parse', dict(struct=S('[]{}:,"7', 'eof'), depth=1, decfail=True, decthrow=True, str1=True, num1=True, litrest=False)),
]


def parts(lst, deep=()):
    out = []
    for x in list(lst) + (list(deep) if os.environ.get('VERIF_TIER') == 'thorough' else []):
        out.append(x if len(x) == 3 else (x[0], 'h_parse', x[1]))
    return out


def repo(f, it):
    fn = it.mod.funcs.get(f)
    return fn is not None and 'configor' in (fn.qual or '')


def run_reader(prop, rule, configs, explanation, only, assume, minimum, budget=None, extra=()):
    budget = budget or (1500 if os.environ.get('VERIF_TIER') == 'thorough' else 420)
    rep = Report(prop, rule)
    rep.only = only
    rep.is_repo = repo
    rep.assume = list(ASSUME) + list(assume)
    mod = build.load('json.cpp')
    L = Layout(mod)

    def task(name, entry, kw):
        return name, lambda r: jsonspec.explore(mod, L, jsonspec.Cfg(**kw), r, name, entry, budget)
    par.run(rep, [task(*c) for c in configs] + (list(extra(mod, L, budget)) if extra else []), limit=budget + 100)
    return rep.finish(explanation, minimum)


ASSUME = [
    'std::vector, std::map, std::string, streams and exceptions behave as specified (modelled in engine/models.py and engine/containers.py)',
    'the source encoding is abstracted to its contract: it delivers one code point, the end of the text, or a failure (the codecs themselves are decided under C14)',
    'no allocation fails while parsing (allocation failures are decided under C02)',
]
