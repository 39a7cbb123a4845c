"""C19: the tensor-network contraction routine"""
import itertools
from ..harness import *

RULE = 'the result is the sum over every contracted label of the product of the tensors, with the free legs in the requested order, for every order of contraction'
ERR = 'a label list that does not describe a network of the given tensors is refused'
PURE = 'the tensors and lists of the caller are as before'
NC = 'lib.ncon.ncon'
# name, label lists
NETS = [
    ('vectors', [[1], [1]]), ('matvec', [[-1, 1], [1]]), ('vecmat', [[1], [1, -1]]), ('matmat', [[-1, 1], [1, -2]]), ('matmat-t', [[1, -2], [-1, 1]]),
    ('twobonds', [[1, -1, 2], [2, 1, -2]]), ('threebonds', [[1, 2, 3], [3, 1, 2]]), ('chain', [[-1, 1], [1, 2], [2, -2]]), ('chain4', [[1], [1, 2], [2, 3], [3]]),
    ('ring', [[1, 2], [2, 3], [3, 1]]), ('ring-open', [[1, -2, 2], [2, -1, 3], [3, -3, 1]]), ('star', [[1, 2, 3], [-3, 1], [2, -1], [-2, 3]]),
    ('trace', [[1, 1]]), ('partial-trace', [[-2, 1, -1, 1]]), ('two-traces', [[1, 2, 1, 2]]), ('trace-and-bond', [[1, 1, 2], [2, -1]]), ('bond-and-trace', [[2, -1], [1, 2, 1]]),
    ('free', [[-2, -1, -3]]), ('outer', [[-1], [-2]]), ('outer-rev', [[-3, -1], [-2]]), ('outer-three', [[-2], [-3], [-1]]), ('scalar-times', [[1, 1], [-1, -2]]),
    ('two-components', [[-1, 1], [1], [2, -2], [2]]), ('layer', [[1, 2, 5], [1, -1, 3], [5, -2, 4], [2, -3, 4, 3]]),
]


def shape_of(labs, dims):
    return [dims(x, i, k) for i, l in enumerate(labs) for k, x in enumerate(l)]


def build(I, labs):
    out = []
    for i, l in enumerate(labs):
        nm = 'A%d' % i
        out.append(I.arr(N.Ten.atom(nm, [P('b:%s%d' % ('c' if x > 0 else 'f', abs(x))) for x in l]), Dt([nm])))
    return out


def relabel(labs, mp):
    return [[mp.get(x, x) for x in l] for l in labs]


def run():
    c = Check('C19')
    opts = {'models': {'lib.ncon.ncon.ncon': None}}
    for name, labs in NETS:
        pos = sorted({x for l in labs for x in l if x > 0})
        neg = sorted({x for l in labs for x in l if x < 0}, reverse=True)
        orders = [None] + [list(o) for o in itertools.permutations(pos)][:24]
        forders = [None] + [list(o) for o in itertools.permutations(neg)][:6]
        cases = [(o, None, True, 0) for o in orders] + [(None, f, True, 0) for f in forders[1:]] + [(orders[-1], forders[-1], False, 0), (None, None, False, 0), (None, None, True, 1)] + ([(None, None, True, 2)] if name in ('outer', 'outer-three', 'scalar-times', 'two-components') else [])
        for o, fo, chk, rl in cases:
            ll = relabel(labs, {x: 40 - 7 * x if x > 0 else 5 * x for x in pos + neg}) if rl == 1 else labs
            if o is not None and not o:
                continue

            def mk(I):
                I.setpop = -1 if rl == 2 else 0
                I.t = build(I, labs)
                I.ten0 = [T(I, x) for x in I.t]
                I.aa = lst(I, I.t)
                I.v = lst(I, [lst(I, [C(x) for x in l]) for l in ll])
                kw = {}
                I.o = None
                if o is not None:
                    I.o = kw['order'] = lst(I, [C(x) for x in o])
                if fo is not None:
                    kw['forder'] = lst(I, [C(x) for x in fo])
                if not chk:
                    kw['check_indices'] = False
                if len(labs) == 1 and rl == 1:
                    return [I.t[0], I.finite(I.v)[0]], kw
                return [I.aa, I.v], kw

            def judge(I, r, a, k):
                w = N.ncon(I.ten0, labs)
                if fo is not None:
                    w = N.transpose(w, [neg.index(x) for x in fo])
                same(I, r, w, 'contracted network')
                for x, t0 in zip(I.t, I.ten0):
                    same(I, x, t0, 'tensor of the caller')
                if [getattr(x, 'id', None) for x in I.finite(I.aa)] != [x.id for x in I.t]:
                    raise Bad('the list of tensors of the caller is changed')
                if [[y.as_int() for y in I.finite(x)] for x in I.finite(I.v)] != ll:
                    raise Bad('the label lists of the caller are changed')
                if I.o is not None and [y.as_int() for y in I.finite(I.o)] != o:
                    raise Bad('the contraction order of the caller is changed to %s' % [y.as_int() for y in I.finite(I.o)])
            key = '%s:order=%s:forder=%s:%s%s' % (name, '' if o is None else '.'.join(map(str, o)), '' if fo is None else '.'.join(map(str, fo)), 'checked' if chk else 'unchecked', ('', ':relabelled', ':otherset')[rl])
            c.evaluate(key, NC, 'ncon', mk, judge, RULE, opts=opts)
    D2, D3 = C(2), C(3)
    for name, labs, dims in (
            ('label-thrice', [[1, -1], [1, -2], [1]], {}), ('free-twice', [[-1, 1], [1, -1]], {}), ('dangling', [[1, -1], [-2]], {}), ('dangling-one', [[-1, 1]], {}),
            ('sizes', [[-1, 1], [1, -2]], {(0, 1): D2, (1, 0): D3}), ('trace-sizes', [[1, 1]], {(0, 0): D2, (0, 1): D3}), ('few-labels', [[1], [1, -1]], {'rank': (2, 2)}),
            ('many-labels', [[-1, 1, -3], [1, -2]], {'rank': (2, 2)}), ('missing-list', [[-1, 1], [1, -2]], {'n': 3}), ('extra-list', [[-1, 1], [1, 2], [2, -2]], {'n': 2}),
            ('bad-free-order', [[-1, 1], [1, -2]], {'forder': [-1, -3]}), ('bad-order', [[-1, 1], [1, -2]], {'order': [2]})):
        def mk(I):
            n = dims.get('n', len(labs))
            t = []
            for i in range(n):
                l = labs[i] if i < len(labs) else [-9]
                rk = dims['rank'][i] if 'rank' in dims else len(l)
                t.append(I.arr(N.Ten.atom('A%d' % i, [dims.get((i, k), P('b:%s' % (l[k] if k < len(l) else 'x'))) for k in range(rk)]), Dt(['A%d' % i])))
            kw = {k: lst(I, [C(x) for x in dims[k]]) for k in ('order', 'forder') if k in dims}
            return [lst(I, t), lst(I, [lst(I, [C(x) for x in l]) for l in labs])], kw

        def judge(I, r, a, k):
            raise Bad('accepted: returns %s' % short(I.vkey(r)))
        c.evaluate('refused:' + name, NC, 'ncon', mk, judge, ERR, opts=opts, allow=('ValueError',))
    c.min_ok = 3
    return c
