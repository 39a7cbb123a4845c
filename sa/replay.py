"""Re-runs the abstract evaluations of the other checks with another judge: effects and dtype losses seen on every trace partition they explore."""
import importlib
import multiprocessing
import os
import sys
from . import harness
from .harness import *
from .harness import _wrap
from .interp import run_all, PyList
import time

ALL = ['c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c12', 'c13', 'c14', 'c21']


class Rec(Check):
    """collects, per evaluation, what `probe(I, res, args, kw)` returns on each partition; the original judge is not consulted"""
    probe = None
    wanted = None

    def evaluate(self, key, mod, name, mk, judge, rule, allow=(), opts=None, max_paths=64, **kw):
        ent = name if isinstance(name, str) else None
        if self.wanted and not self.wanted(key, mod, ent):
            return
        n = len(self.obs)

        def mk2(I):
            r = mk(I)
            I.given = r                                 # what the caller passes
            I.mark = I.new(PyList([])).id               # everything older belongs to the caller
            return r
        Check.evaluate(self, key, mod, name, mk2, lambda I, r, a, k: setattr(I, 'answer', (r,)), rule, allow, opts, min(max_paths, 24))
        for o in self.obs[n:]:
            o['entry'] = ent or 'client'

    def judge_paths(self, key, fn, make, rule, allow=(), max_paths=64):
        """effects are read off every partition, also where the value analysis stops early"""
        got, st = [], 'ok'
        if time.time() - self.t0 > BUDGET:
            outs, st = [], 'undecided'
        else:
            try:
                outs = run_all(_wrap(make), max_paths)
            except RecursionError:
                outs, st = [], 'undecided'
        for I, (o, v) in outs:
            self.paths += 1
            if o == 'infeasible':
                continue
            if o != 'ret':
                st = 'undecided' if o != 'raise' else st
                if o != 'raise' and os.environ.get('VERIF_DEBUG') == '2':
                    print('   ', key, o, str(v)[:300])
            if I is None or not hasattr(I, 'given'):
                continue
            a, k = I.given
            got.extend(type(self).probe(I, I.answer[0] if hasattr(I, 'answer') else None, a, k))
            if o == 'raise':
                got.extend([('raises', v.exc, self.site(v.fn, v.node))] if v.exc not in allow and '*' not in allow else [])
        self.add(key, st, self.site(fn), rule)
        self.obs[-1]['events'] = list(dict.fromkeys(got))


def _one(a):
    mod, probe, wanted = a
    sys.setrecursionlimit(20000)
    m = importlib.import_module('sa.checks.' + mod)
    C = type('RecP', (Rec,), {'probe': staticmethod(probe), 'wanted': staticmethod(wanted) if wanted else None})
    old = m.__dict__.get('Check')
    m.Check = C
    try:
        c = m.run()
    finally:
        m.Check = old
    return mod, [dict(o, module=mod) for o in c.obs], sorted(c.fns), c.paths


def replay(probe, mods=None, wanted=None, jobs=8):
    """-> list of observations (dicts with key, site, status, events, entry, module), analysed functions, partitions"""
    prog()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(jobs) as p:
        out = p.map(_one, [(m, probe, wanted) for m in (mods or ALL)], chunksize=1)
    obs, fns, paths = [], set(), 0
    for m, o, f, n in out:
        obs += o
        fns |= set(f)
        paths += n
    return obs, fns, paths
