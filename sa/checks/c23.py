"""C23: no operation loses the imaginary part (or the precision) of a value by storing it in a narrower array; the recorded element type of a state covers all its arrays."""
from ..harness import *
from .. import replay

LOSSY = 'every array into which a value is stored has an element type that can hold it, for every combination of real and complex arguments'
COVER = 'the element type a state reports covers every tensor, the centre matrix and the scalar factor of the state'


def states(I, vals, seen, out):
    for v in vals:
        if isinstance(v, (tuple, list)):
            states(I, v, seen, out)
        elif isinstance(v, Ref) and v not in seen:
            seen.add(v)
            r = I.rec(v)
            if r.kind == 'list':
                states(I, r.items, seen, out)
            elif r.kind == 'obj':
                if r.cls.name == 'MPS' and '_tensors' in r.f:
                    out.append(v)
                states(I, list(r.f.values()), seen, out)


def probe(I, res, args, kw):
    out = []
    for e in I.events:
        if e.kind == 'lossy':
            d = e.data if isinstance(e.data, tuple) else (e.data,)
            out.append(('lossy', e.fn.name if e.fn else '?', e.fn.mod.path if e.fn else '?', getattr(e.node, 'lineno', 0),
                        '; '.join(str(x) for x in d[1:])[:160]))
    objs = []
    states(I, [res] + list(args) + list(kw.values()), set(), objs)
    if objs:
        out.append(('states', len(objs)))
    for o in objs:
        f = I.rec(o).f
        try:
            d = ops.dtarg(I, I.getattr(o, 'dtype', None))
        except (Undecided, Raised):
            d = None
        if d is None:
            out.append(('cover?', '', '', 0, ''))
            continue
        for nm in ('_mat', '_Z', '_tensors'):
            v = f.get(nm)
            x = I.finite(v) if nm == '_tensors' else [v]
            for t in x or []:
                dt = I.dt_of(t) if t is not None else None
                if dt is None or '?' in dt.src:
                    continue
                if not dt.le(d):
                    out.append(('cover', nm, '', 0, '%s holds %r, the state reports %r' % (nm, dt, d)))
    return out


def run():
    c = Check('C23')
    obs, fns, paths = replay.replay(probe)
    c.fns |= fns
    c.paths += paths
    for o in obs:
        if o['status'] != 'ok':
            continue
        ev = [e for e in o['events'] if e[0] == 'lossy']
        cv = [e for e in o['events'] if e[0] == 'cover']
        for kind, l in (('lossy', ev), ('cover', cv)):
            if kind == 'cover' and not any(e[0] == 'states' for e in o['events']):
                continue
            if kind == 'cover' and ('cover?', '', '', 0, '') in o['events']:
                c.add('cover:%s:%s' % (o['entry'], o['key']), 'undecided', o['site'], COVER, 'reported element type')
                continue
            k = '%s:%s:%s' % (kind, o['entry'], o['key'])
            c.add(k, 'bad' if l else 'ok', o['site'], {'lossy': LOSSY, 'cover': COVER}[kind], '; '.join('%s:%d %s %s' % (e[2], e[3], e[1], e[4]) for e in l[:3]))
    c.min_ok = 200
    return c
