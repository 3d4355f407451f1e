"""C12, C13 and the writer's side of C06: the product of json::dump (LLVM IR of the current headers) with the document
automaton of engine/outspec.py, for families of values whose kinds, sizes and contents are left open."""
import os
from engine import build, outspec, par
from engine.layout import Layout
from engine.report import Report
from .reader import SAFETY, repo

DOC = {'output', 'layout', 'string', 'float-kind', 'float-range', 'not-finite', 'hexfloat', 'locale', 'accepts-failure', 'refuses-valid', 'exception-type'}
STR = {'string', 'accepts-failure', 'refuses-valid', 'exception-type'}
ALL = tuple(n for n, _ in outspec.CLASSES)
FEW = ('control character', 'quote', 'plain character', 'U+0080-FFFF')
FAIL = dict(encfail=True, decfail=True, decthrow=True)

STRINGS = [
    ('strings', 'h_dump', dict(depth=0, root=('string',), classes=ALL)),
    ('strings in arrays', 'h_dump', dict(depth=1, root=('array',), kinds=('string',), classes=ALL)),
    ('keys', 'h_dump', dict(depth=1, root=('object',), kinds=('null',), classes=ALL)),
    ('strings, escaped', 'h_dump_esc', dict(depth=0, root=('string',), classes=ALL, escape=True)),
    ('keys, escaped', 'h_dump_esc', dict(depth=1, root=('object',), kinds=('null',), classes=ALL, escape=True)),
    ('strings that fail', 'h_dump', dict(depth=1, kinds=('null', 'string'), classes=FEW, **FAIL)),
    ('strings that fail, escaped', 'h_dump_esc', dict(depth=0, root=('string',), classes=ALL, escape=True, **FAIL)),
    ('strings, indented', 'h_dump_indent', dict(depth=1, root=('array',), kinds=('string',), classes=FEW, pretty='option')),
]
DOCS = [
    ('every value up to depth 1', 'h_dump', dict(depth=1)),
    ('every value up to depth 2', 'h_dump', dict(depth=2)),
    ('every value up to depth 3', 'h_dump', dict(depth=3)),
    ('every value up to depth 2, stream width', 'h_dump', dict(depth=2, pretty='width')),
    ('every value up to depth 2, with_indent', 'h_dump_indent', dict(depth=2, pretty='option')),
    ('every value up to depth 2, failing stream', 'h_dump', dict(depth=2, sinkfail=True)),
]
DOCS_DEEP = [
    ('every value up to depth 3, stream width', 'h_dump', dict(depth=3, pretty='width')),
    ('every value up to depth 3, with_indent', 'h_dump_indent', dict(depth=3, pretty='option')),
]
HANDLED = [
    ('dump handler: any failure', 'h_dump_eh', dict(depth=1, sinkfail=True, **FAIL)),
    ('dump handler: strings', 'h_dump_eh', dict(depth=0, root=('string',), classes=FEW, sinkfail=True, **FAIL)),
    ('dump without handler', 'h_dump', dict(depth=1, sinkfail=True, **FAIL)),
]
ASSUME = [
    'std::vector, std::map, std::string, streams and exceptions behave as specified (modelled in engine/models.py and engine/containers.py)',
    'the encodings are abstracted to their contract: decode delivers one code point, the end, or a failure; encode writes one code point or fails (the codecs themselves are decided under C14)',
    'containers hold fewer than 2^40 elements, and no loop runs 2^40 times',
]


def tasks(mod, L, lst, budget):
    def task(name, entry, kw):
        return name, lambda r: outspec.explore(mod, L, outspec.Cfg(**kw), r, name, entry, budget)
    return [task(*c) for c in lst]


def run_writer(prop, rule, configs, explanation, only, minimum, deep=()):
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    budget = 1500 if thorough else 420
    rep = Report(prop, rule)
    rep.only = only
    rep.is_repo = repo
    rep.assume = list(ASSUME)
    mod = build.load('json.cpp')
    L = Layout(mod)
    par.run(rep, tasks(mod, L, list(configs) + (list(deep) if thorough else []), budget), limit=budget + 100)
    return rep.finish(explanation, minimum)
