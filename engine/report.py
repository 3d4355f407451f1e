"""Verdicts, evidence and reports of one check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """the analysis itself cannot answer (anchor vanished, harness does not build)"""


class Report:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.viol = {}
        self.counts = {}
        self.funcs = set()
        self.samples = []
        self.notes = {}
        self.assume = []
        self.unmodelled = {}
        self.models = set()
        self.parts = []
        self.only = None

    def clear(self):
        self.viol, self.counts, self.funcs, self.notes, self.unmodelled, self.models, self.parts = {}, {}, set(), {}, {}, set(), []

    def pack(self):
        return dict(viol=self.viol, counts=self.counts, funcs=self.funcs, notes=self.notes, unmodelled=self.unmodelled,
                    models=self.models, parts=self.parts, samples=self.samples)

    def merge(self, d):
        for k, v in d['viol'].items():
            self.viol.setdefault(k, v)
        for n in ('counts', 'notes', 'unmodelled'):
            for k, v in d[n].items():
                getattr(self, n)[k] = getattr(self, n).get(k, 0) + v
        self.funcs |= d['funcs']
        self.models |= d['models']
        self.parts += d['parts']
        self.samples += [x for x in d['samples'] if x not in self.samples]

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violation(self, rule, key, message, **detail):
        k = (rule, key)
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, key=key, message=message, **detail)

    def engine(self, it, name, ex=None):
        """account for one run of the interpreter"""
        for f, n in it.funcs_seen.items():
            if self.is_repo(f, it):
                self.funcs.add(f)
        for k in ('insts', 'heads', 'finished', 'forks', 'obligations', 'merged', 'widened'):
            self.count(k, it.stats.get(k, 0))
        for v in it.violations.values():
            if self.only is not None and v['rule'] not in self.only:
                self.notes['left to another property: %s' % v['rule']] = self.notes.get('left to another property: %s' % v['rule'], 0) + 1
                continue
            self.violation(v['rule'], '%s' % v['function'], v['message'], location=v['location'], stack=v['stack'],
                           path=v['path'], part=name)
        for k, n in it.notes.items():
            self.notes[k] = self.notes.get(k, 0) + n
        for k, n in it.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + n
        self.models |= set(it.models_used)
        d = dict(name=name, insts=it.stats['insts'], states=it.stats['heads'], ends=it.stats['finished'])
        if ex is not None and ex.incomplete:
            d['incomplete'] = ex.incomplete
            self.notes['incomplete: %s' % name] = 1
        self.parts.append(d)

    def is_repo(self, f, it):
        return True

    def known(self):
        out = []
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('{'):
                    j = json.loads(l)
                    if j['property'] == self.prop:
                        out.append(j)
        return out

    def finish(self, explanation, minimum=None):
        if minimum:
            for k, n in minimum.items():
                have = len(self.funcs) if k == 'functions' else self.counts.get(k, 0)
                if have < n and not self.viol:
                    raise Broken('%s: only %d analysed, at least %d expected' % (k, have, n))
        known = self.known()
        new, old = [], []
        for (rule, key), v in sorted(self.viol.items()):
            m = [k for k in known if k['rule'] == rule and k['key'] == key]
            (old if m else new).append(v)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='other', coverage=dict(
            explanation=explanation, rule=self.rule, functions_analysed=len(self.funcs),
            functions=sorted(self.funcs)[:400], counts=self.counts, parts=self.parts[:400],
            samples=self.samples[:12], imprecision=self.notes, unmodelled_calls=self.unmodelled,
            library_models_used=len(self.models)),
            assumptions=self.assume, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')), exist_ok=True)
        with open(os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence'), self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for v in old:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, v['message']))
        print('%s: %d functions, %s, %.1f s' % (self.prop, len(self.funcs), self.counts, time.time() - self.t0))
        if self.notes:
            print('  imprecision: %s' % self.notes)
        if self.unmodelled:
            print('  unmodelled: %s' % self.unmodelled)
        if new:
            rp = os.path.join(os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence'), self.prop + '.report.json')
            with open(rp, 'w') as f:
                json.dump(new, f, indent=1, default=str)
            for v in new[:20]:
                print('  [%s] %s' % (v['rule'], v['message']))
                for k in ('location', 'key', 'part'):
                    if v.get(k):
                        print('      %s: %s' % (k, v[k]))
                for s in (v.get('stack') or [])[:12]:
                    print('        at %s' % s)
                if v.get('path'):
                    print('      path: %s' % ' '.join(v['path']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0
