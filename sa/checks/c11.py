"""C11: nothing the caller holds is overwritten behind their back: no array that existed before a call has its entries changed by it, and argument lists change only in the functions documented to work in place."""
from ..harness import *
from .. import replay

ARR = 'no array the caller can reach before the call is written to during the call (in-place arithmetic, item assignment, out=, overwrite_*)'
LST = 'a list passed as an argument keeps its members, except in the functions documented to work in place'
INPLACE = {'regaugeIMPS', 'truncateMPS', 'orthonormalizeQR', 'orthonormalizeSVD', 'patchmpo', 'absorbCenterMatrix', 'absorbConnector', 'canonizeMPS'}
HIDDEN = {'_mat', '_connector', '_Z'}          # a state's own working values, created by the state itself


def reach(I, v, seen):
    """arrays and lists the caller can reach"""
    if isinstance(v, (tuple, list)):
        for x in v:
            reach(I, x, seen)
        return
    if isinstance(v, Opq):
        seen |= v.roots
        return
    if not isinstance(v, Ref) or v in seen:
        return
    seen.add(v)
    r = I.rec(v)
    if r.kind == 'arr':
        seen |= I.roots(v)
    elif r.kind == 'list':
        reach(I, list(r.items), seen)
    elif r.kind == 'dict':
        reach(I, list(r.items.values()), seen)
    elif r.kind == 'obj':
        reach(I, [x for k, x in r.f.items() if k not in HIDDEN], seen)


def probe(I, res, args, kw):
    out = []
    hid = set()
    for e in I.events:
        if e.kind != 'mutate' or e.data[0].id > I.mark:
            continue
        x, how = e.data
        k = I.rec(x).kind
        if k == 'arr':
            if not hid:
                for r in I.heap.values():
                    if r.kind == 'obj':
                        for f in HIDDEN:
                            hid |= I.roots(r.f.get(f))
                vis = set()
                reach(I, list(I.given[0]) + list(I.given[1].values()), vis)
                hid -= vis
                hid.add(None)
            if x not in hid:
                out.append(('arr', e.fn.name if e.fn else '?', e.fn.mod.path if e.fn else '?', getattr(e.node, 'lineno', 0), how))
        elif k in ('list', 'sym') and any(a == x for a in list(args) + list(kw.values())):
            out.append(('list', e.fn.name if e.fn else '?', e.fn.mod.path if e.fn else '?', getattr(e.node, 'lineno', 0), how))
    return out


def run():
    c = Check('C11')
    obs, fns, paths = replay.replay(probe, replay.ALL + ['extra'])
    c.fns |= fns
    c.paths += paths
    for o in obs:
        for kind, rule in (('arr', ARR), ('list', LST)):
            l = [e for e in o['events'] if e[0] == kind and not (kind == 'list' and (o['entry'] in INPLACE or o['entry'] == 'client'))]
            st = 'bad' if l else 'ok' if o['status'] == 'ok' else None
            if st:
                c.add('%s:%s:%s' % (kind, o['entry'], o['key']), st, o['site'], rule, '; '.join('%s:%d %s: %s' % (e[2], e[3], e[1], e[4]) for e in l[:3]))
    c.min_ok = 200
    return c
