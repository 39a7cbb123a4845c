"""C22: every operation of the library can be carried out: names, attributes and call signatures resolve on every path."""
import os
from ..harness import *
from .. import names, replay
from ..interp import REPO

RULE = {'undefined': 'every name used is defined in an enclosing scope, in the module or as a builtin',
        'unbound': 'no local name is used where no assignment to it can have been executed',
        'missing': 'every name taken from a module exists in that module',
        'import': 'every module and every imported name exists',
        'attribute': 'every attribute read from an object of a library class is set somewhere in the hierarchy of that class',
        'call': 'every call of a library function or method matches its signature'}
RAISE = 'no path of the operation ends in an unresolved name, a missing attribute or a call that does not match a signature'
EXC = ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError')


def probe(I, res, args, kw):
    return []


def run():
    c = Check('C22')
    lib = names.Lib(REPO)
    counts = {}
    bad = {}
    for f in names.analyse(lib, counts):
        bad.setdefault((f.mod.name, f.fn), {}).setdefault((f.kind, f.text), f)
    for m in sorted(lib.mods.values(), key=lambda m: m.name):
        for q in names.functions(lib, m):
            if (m.name, q) not in bad:
                c.add('names:%s:%s' % (m.name, q), 'ok', '%s %s' % (m.path, q), 'names, attributes and calls resolve', '')
                c.fns.add('%s:%s' % (m.path, q))
    for (mn, q), d in sorted(bad.items()):
        for (k, t), f in sorted(d.items()):
            c.add('%s:%s:%s:%s' % (k, mn, q, t), 'bad', '%s:%d %s' % (f.mod.path, f.line, q), RULE[k], t)
    c.stats = counts
    obs, fns, paths = replay.replay(probe, replay.ALL + ['extra'])
    c.fns |= fns
    c.paths += paths
    for o in obs:
        l = [e for e in o['events'] if e[0] == 'raises' and e[1] in EXC]
        if l:
            c.add('raises:%s:%s' % (o['entry'], o['key']), 'bad', o['site'], RAISE, '; '.join('%s at %s' % (e[1], e[2]) for e in l[:3]))
        elif o['status'] == 'ok':
            c.add('raises:%s:%s' % (o['entry'], o['key']), 'ok', o['site'], RAISE, '')
    c.min_ok = 100
    return c
