"""Differential abstract evaluation: two evaluations that must have the same outcome are carried out in separate interpreters, path by path; every path of the second one is
compared with the paths of the first one whose recorded conditions do not contradict its own."""
from .harness import *
from .interp import run_all


def picture(I, v, seen=None):
    """a value and everything reachable from it as a plain structure"""
    seen = {} if seen is None else seen
    if isinstance(v, Ref):
        if v in seen:
            return ('again', seen[v])
        seen[v] = len(seen)
        r = I.rec(v)
        if r.kind in ('list', 'set', 'tuple'):
            return (r.kind, [picture(I, x, seen) for x in r.items])
        if r.kind == 'dict':
            return ('dict', {k: picture(I, x, seen) for k, x in r.items.items()})
        if r.kind == 'obj':
            return ('obj ' + (r.cls.name if r.cls is not None else '?'), {k: picture(I, x, seen) for k, x in r.f.items()})
        if r.kind == 'arr':
            return ('arr', '?' if r.ten is None else r.ten.key(), repr(r.dt))
        return ('unknown', '?')
    if isinstance(v, tuple):
        return ('tuple', [picture(I, x, seen) for x in v])
    if isinstance(v, Poly):
        return ('number', I.norm(N.DIMS.find(v)).key())
    if isinstance(v, (Fn, Cls)):
        return ('code', getattr(v, 'name', '?'))
    if isinstance(v, Opq):
        return ('opaque', v.key)
    return (type(v).__name__, I.vkey(v))


def compare(a, b, path):
    """b against a; raises Bad / Unk"""
    if a[0] != b[0]:
        if 'unknown' in (a[0], b[0]) or 'opaque' in (a[0], b[0]):
            raise Unk(path)
        raise Bad('%s: %s became %s' % (path, a[0] + (' ' + str(a[1])[:60] if a[0] in ('str', 'number', 'NoneType') else ''), b[0] + (' ' + str(b[1])[:60] if b[0] in ('str', 'number', 'NoneType') else '')))
    if isinstance(a[1], list):
        if len(a[1]) != len(b[1]):
            raise Bad('%s: %d entries became %d' % (path, len(a[1]), len(b[1])))
        for k, (x, y) in enumerate(zip(a[1], b[1])):
            compare(x, y, '%s[%d]' % (path, k))
        return
    if isinstance(a[1], dict):
        if set(a[1]) != set(b[1]):
            raise Bad('%s: attributes %s became %s' % (path, sorted(map(str, a[1])), sorted(map(str, b[1]))))
        for k in a[1]:
            compare(a[1][k], b[1][k], '%s.%s' % (path, k))
        return
    if a[1:] != b[1:]:
        if a[0] == 'unknown' or tainted(str(a[1:])) or tainted(str(b[1:])) or '?' in str(a[1:]) + str(b[1:]):
            raise Unk(path)
        raise Bad('%s: %s became %s' % (path, short(str(a[1:])), short(str(b[1:]))))


def contradict(p, q):
    d = dict(p)
    return any(k in d and d[k] != v for k, v in q)


def differ(c, key, fn, mk1, mk2, outcome, rule, what1='', what2='', opts=None, max_paths=48, fn1=None):
    """mk1, mk2: I -> (args, kw); outcome(I, result, args) -> value or structure to compare (a picture)"""
    def explore(mk, fn, seeds=None, eq=None):
        def make():
            N.reset()
            o = dict(opts or {})
            models = dict(BASE_MODELS)
            models.update(o.pop('models', {}))
            I = Interp(prog(), models=models, **o)

            def thunk(I):
                if eq:
                    N.DIMS.eq.update(eq)
                args, kw = mk(I)
                for k, v, lin in seeds or ():
                    I.decisions[k] = v
                    if lin is not None:
                        op, p = lin
                        if op == 'lt':
                            I.assume(-p - ONE if v else p)
                        elif op == 'eq' and v:
                            I._add_eq(p)
                res = I.call(fn, args, kw, fn.node)
                return outcome(I, res, args)
            return I, thunk
        return make
    first = None

    def base(seeds=None, eq=None):
        out = []
        from .harness import _wrap
        for I, (o, v) in run_all(_wrap(explore(mk1, fn1 or fn, seeds, eq)), max_paths):
            if o == 'infeasible':
                continue
            tr = [(t[0], t[1]) for t in I.trace] if I is not None else []
            out.append((o, v if o == 'ret' else (v.exc if o == 'raise' else str(v)), tr))
        return out
    first = base()
    c.fns.add('caller of ' + key)

    def judge_with(o, v, tr, outs):
        """None or (status, message)"""
        seen = False
        unk = None
        for o1, v1, t1 in outs:
            if contradict(t1, tr):
                continue
            seen = True
            if o1 not in ('ret', 'raise'):
                unk = unk or 'first evaluation: %s' % v1
                continue
            if o1 != o:
                return Bad('%s%s, but %s%s' % (what1 + ' ends with ' if what1 else '', o1 if o1 == 'ret' else v1, what2 + ' ends with ' if what2 else '', o if o == 'ret' else v))
            if o == 'raise':
                if v1 != v:
                    return Bad('%s raises %s, %s raises %s' % (what1, v1, what2, v))
                continue
            try:
                compare(v1, v, 'outcome')
            except Bad as e:
                return e
            except Unk as e:
                unk = unk or str(e)
        if unk or not seen:
            return Unk(unk or 'no matching path')
        return None

    def make2():
        I, thunk = explore(mk2, fn)()

        def th(I):
            try:
                o, v = 'ret', thunk(I)
            except Raised as r:
                o, v = 'raise', r.exc
            tr = [(t[0], t[1]) for t in I.trace]
            e = judge_with(o, v, tr, first)
            if isinstance(e, Bad):
                # once more with everything the second evaluation learned
                seeds = [(t[0], t[1], I.linof.get(t[0]) if hasattr(I, 'linof') else None) for t in I.trace]
                eq = dict(N.DIMS.eq)
                e2 = judge_with(o, v, tr, base(seeds, eq))
                if e2 is None:
                    e = None
                elif isinstance(e2, Unk):
                    e = e2
            if e is not None:
                raise e
            return None
        return I, th
    c.judge_paths(key, fn, make2, rule, (), max_paths)
