"""C24: growth step of the infinite-system optimiser.  The gauge motion is modelled by its contract (decided by C03/C04): the tensors it passes become fresh
left- or right-isometric tensors around the new centre, all others stay; the growth step is compared with the specified re-arrangement of those tensors."""
from ..harness import *
from .. import spec as S

CELL = 'the new unit cell is the right half (left-isometric), centre * connector * centre, the left half (right-isometric), with the inverse of the old middle centre as new connector'
ENV = 'the boundary blocks have absorbed exactly the two halves, and every block belongs to the tensors, operators and boundary blocks now stored'
BND = 'the boundary blocks of an infinite state are returned for every gauge position, the left one for left-isometric and the right one for right-isometric tensors, with their energies'
SWEEP = 'the sweeps between two growth steps run with the options of the caller on the stored blocks'


class Grow:
    def __init__(self):
        self.hist, self.gen, self.snap, self.pinv = [], 0, None, []


def snapshot(I, o):
    f = I.rec(o).f
    return dict(ts=tlist(I, o), m=T(I, f['_mat']), conn=T(I, f['_connector']), pos=pos_int(I, o))


def iso(I, name, left, k, g):
    l, r, d = N.newidx(g.dims[k]), N.newidx(g.dims[k + 1]), N.newidx(g.phys[k])
    one = lambda i: () if N.dim(i) == ONE else (i,)
    N.ISOMETRY[name] = ['rows'] if left else ['cols']
    nd = N.Node(name, False, [one(l), one(d), one(r)] if left else [one(l), one(r), one(d)])
    return I.arr(N.Ten([N.Net(ONE, [nd], [one(l), one(r), one(d)])], 3), Dt(['S']))


def m_move(I, args, kw, node):
    o, b = args[0], args[1] if len(args) > 1 else kw.get('bond')
    g = I.grow
    if o.id != g.obj.id or len(args) > 2 or any(k not in ('bond', 'schmidt_thresh', 'r_thresh') and not (k == 'D' and x is None) for k, x in kw.items()):
        return NotImplemented
    q = ops.scal(I, b)
    q = I.norm(q).as_int() if q is not None else None
    cur = pos_int(I, o)
    if q is None or cur is None:
        raise Undecided('gauge motion to an unknown bond')
    if not 0 <= q <= g.n:
        raise Raised('AssertionError', node, I.stack[-1] if I.stack else None)
    f = I.rec(o).f
    s = snapshot(I, o)
    if g.snap is None and s['m'].key() != g.last:
        # the state was replaced
        g.snap = s
        g.dims = [x for x in g.dims[g.n - g.k:]] + g.dims[1:g.n - g.k + 1]
        g.phys = g.phys[g.n - g.k:] + g.phys[:g.n - g.k]
    if q == cur:
        return None
    g.gen += 1
    items = I.rec(f['_tensors']).items
    rng = range(cur, q) if q > cur else range(q, cur)
    for k in rng:
        items[k] = iso(I, 'S%d.%d' % (g.gen, k), q > cur, k, g)
    f['_mat'], f['_position'] = I.atom_arr('S%d.c' % g.gen, [g.dims[q], g.dims[q]], Dt(['S'])), C(q)
    g.last = T(I, f['_mat']).key()
    if g.snap is None:
        g.hist.append(snapshot(I, o))
    return None


def m_pinv(I, args, kw, node):
    t = T(I, args[0])
    d = t.legdims()
    nm = 'pinv%d' % len(I.grow.pinv)
    r = I.arr(N.Ten.atom(nm, [d[1], d[0]]), I.dt_of(args[0]))
    I.grow.pinv.append((t, T(I, r)))
    return r


def start(I, n, pos):
    g = I.grow = Grow()
    h = n // 2
    g.n, g.k = n, n - h                 # k: number of sites of the right half
    D0 = P('b:S0')
    g.dims = [D0] + [P('b:S%d' % k) for k in range(1, n)] + [D0]
    g.phys = [P('p:%d' % k) for k in range(n)]
    ts = [iso(I, 'S0.%d' % k, k < pos, k, g) for k in range(n)]
    m = I.atom_arr('S0.c', [g.dims[pos], g.dims[pos]], Dt(['S']))
    o = g.obj = mps_obj(I, ts, position=pos, mat_=m, obc=False, label='S', dt=Dt(['S']))
    I.rec(o).f['_connector'] = I.atom_arr('conn', [D0, D0], Dt(['S']))
    g.last = T(I, m).key()
    g.hist.append(snapshot(I, o))
    ms = [P('m:%d' % k) for k in range(n)] + [P('m:0')]
    W = I.W = [mpot(I, 'W%d' % k, ms[k], ms[k + 1], P('p:%d' % k), P('p:%d' % k)) for k in range(n)]
    I.W0 = [T(I, w) for w in W]
    I.lb0 = N.Ten.atom('lb', [D0, D0, ms[0]])
    I.rb0 = N.Ten.atom('rb', [D0, D0, ms[0]])
    return o


def engine(I, o, filename='f'):
    cls = Cls(prog().mods[ENG].classes['IDMRGengine'], prog().mods[ENG]) if not hasattr(I, 'cls_of') else None
    e = I.new(Inst(cls, {}))
    f = I.rec(e).f
    f['_mps'], f['_mpo'] = o, lst(I, list(I.W))
    f['_lb'], f['_rb'] = I.arr(I.lb0, Dt(['S', 'W'])), I.arr(I.rb0, Dt(['S', 'W']))
    f['_filename'] = filename
    f['_N'] = C(I.grow.n)
    f['_hl'] = f['_hr'] = P('h')
    return e


def cell(ts):
    return S.mps_state(ts)


def put(ts, m, p):
    """the tensors with the centre matrix absorbed"""
    ts = list(ts)
    if p < len(ts):
        ts[p] = N.tensordot(m, ts[p], [1], [0])
    else:
        ts[p - 1] = N.transpose(N.tensordot(ts[p - 1], m, [1], [0]), [0, 2, 1])
    return ts


def judge_cell(I, r, a, k):
    g = I.grow
    s = g.snap
    if s is None:
        raise Unk('the state is not moved after it is replaced')
    n, h = g.n, g.n // 2
    key = lambda t: t.key()
    msgs = []
    for i in g.hist:
        if i['pos'] != n:
            continue
        for j in g.hist:
            if j['pos'] != h:
                continue
            if h and key(i['ts'][h - 1]) != key(j['ts'][h - 1]):
                continue
            for l in g.hist:
                if l['pos'] != 0 or key(l['ts'][h]) != key(j['ts'][h]):
                    continue
                try:
                    mid = N.tensordot(N.tensordot(i['m'], i['conn'], [1], [0]), l['m'], [1], [0])
                    want = cell(put(i['ts'][h:] + l['ts'][:h], mid, n - h))
                    same(I, I.arr(cell(put(s['ts'], s['m'], s['pos'])), Dt(['S'])), want, 'unit cell')
                    pv = [y for x, y in g.pinv if x.key() == j['m'].key()]
                    if not pv:
                        raise Bad('no inverse of the middle centre matrix is formed')
                    same(I, I.arr(s['conn'], Dt(['S'])), pv[0], 'connector')
                    f = I.rec(a[0]).f
                    same(I, f['_lb'], S.env_chain(I.lb0, j['ts'][:h], I.W0[:h], j['ts'][:h], 1), 'left boundary block')
                    same(I, f['_rb'], S.env_chain(I.rb0, j['ts'][h:], I.W0[h:], j['ts'][h:], -1), 'right boundary block')
                    return
                except (Bad, N.Mismatch) as e:
                    msgs.append(str(e))
    raise Bad(msgs[0] if msgs else 'the centre never visits both ends and the middle')


def judge_env(I, r, a, k):
    g = I.grow
    judge_cell(I, r, a, k)
    f = I.rec(a[0]).f
    n, h = g.n, g.n // 2
    W = [T(I, x) for x in I.finite(f['_mpo'])]
    if [w.key() for w in W] != [w.key() for w in I.W0[h:] + I.W0[:h]]:
        raise Bad('operators are in the order %s' % [short(w.key(), 8) for w in W])
    ts = tlist(I, g.obj)
    p = pos_int(I, g.obj)
    lb, rb = T(I, f['_lb']), T(I, f['_rb'])
    for q in range(p + 1):
        same(I, ops.getitem(I, f['_L'], C(q), None), S.env_chain(lb, ts[:q], W[:q], ts[:q], 1), 'left block %d' % q)
    for q in range(n - p):
        same(I, ops.getitem(I, f['_R'], C(q), None), S.env_chain(rb, ts[n - q:], W[n - q:], ts[n - q:], -1), 'right block %d' % q)


OPTS = {'models': {'lib.mpslib.mps.MPS.__position__': m_move, 'ext:numpy.linalg.pinv': m_pinv, 'ext:numpy.linalg.inv': m_pinv, 'ext:scipy.linalg.pinv': m_pinv}}


def run():
    c = Check('C24')
    for n in (2, 3, 4, 5):
        for pos in range(n + 1):
            def mk(I):
                o = start(I, n, pos)
                return [engine(I, o)], {}
            c.evaluate('grow:%d:%d' % (n, pos), ENG, client('e.__update__()', 'e', ENG), mk, judge_env, ENV, opts=OPTS, max_paths=32)

    # growth with regauging: the new boundary blocks are the ones of the regauged state
    def m_bound(I, args, kw, node):
        b = bound_args(args, kw)
        I.bound = b
        D0 = P('b:Snew')
        g = I.grow
        g.dims = [g.dims[0]] + g.dims[1:]
        I.nlb, I.nrb = N.Ten.atom('newlb', [g.dims[0], g.dims[0], P('m:%d' % (g.n // 2))]), N.Ten.atom('newrb', [g.dims[0], g.dims[0], P('m:%d' % (g.n // 2))])
        z = lambda nm: I.atom_arr(nm, [g.dims[0], g.dims[0]], Dt(['S']))
        return (I.arr(I.nlb, Dt(['S', 'W'])), I.arr(I.nrb, Dt(['S', 'W'])), z('ldens'), z('rdens'), P('hl'), P('hr'))

    def bound_args(args, kw):
        names = ['mps', 'mpo', 'regauge']
        d = dict(zip(names, args))
        d.update(kw)
        return d

    def judge_re(I, r, a, k):
        g = I.grow
        f = I.rec(a[0]).f
        b = getattr(I, 'bound', None)
        if b is None or b.get('regauge') is not True:
            raise Bad('the boundary blocks are not those of the regauged state')
        if b['mps'].id != g.obj.id:
            raise Bad('boundary blocks of another state')
        n, h = g.n, g.n // 2
        W = [T(I, x) for x in I.finite(f['_mpo'])]
        if [T(I, x).key() for x in I.finite(b['mpo'])] != [w.key() for w in W] or [w.key() for w in W] != [w.key() for w in I.W0[h:] + I.W0[:h]]:
            raise Bad('operators are in the order %s' % [short(w.key(), 8) for w in W])
        same(I, f['_lb'], I.nlb, 'left boundary block')
        same(I, f['_rb'], I.nrb, 'right boundary block')
        ts, p = tlist(I, g.obj), pos_int(I, g.obj)
        for q in range(p + 1):
            same(I, ops.getitem(I, f['_L'], C(q), None), S.env_chain(I.nlb, ts[:q], W[:q], ts[:q], 1), 'left block %d' % q)
        for q in range(n - p):
            same(I, ops.getitem(I, f['_R'], C(q), None), S.env_chain(I.nrb, ts[n - q:], W[n - q:], ts[n - q:], -1), 'right block %d' % q)

    for n in (2, 4):
        def mk(I):
            return [engine(I, start(I, n, 0))], {}
        c.evaluate('regauge:%d' % n, ENG, client('e.__update__(regauge=True)', 'e', ENG), mk, judge_re, ENV,
                   opts={'models': {**OPTS['models'], MF + '.getBoundaryHams': m_bound}}, max_paths=32)

    # the outer loop
    def loop(two, kw, nmax, rg):
        nm = '__simulateTwoSite__' if two else '__simulate__'

        def m_sweep(I, args, kw_, node):
            I.log.append(('sweep', dict(kw_), len(args)))
            return P('E%d' % len(I.log))

        def m_up(I, args, kw_, node):
            I.log.append(('grow', kw_.get('regauge', args[1] if len(args) > 1 else False)))
            return P('D')

        def mk(I):
            I.log = []
            return [engine(I, start(I, 2, 0))], {}

        def judge(I, r, a, k):
            want = {'Nmax': C(3), 'Econv': P('ec'), 'tol': P('tl'), 'ncv': P('nv'), 'numvecs': P('nu'), 'Ndiag': P('nd'), 'nmaxlan': P('nl'), 'landelta': P('ld'), 'landeltaEta': P('le'), 'solver': 'LAN'}
            if two:
                want['truncation'] = P('tr')
            if not I.log or len(I.log) % 2:
                raise Bad('sweeps and growth steps do not alternate')
            for q, x in enumerate(I.log):
                if x[0] != ('sweep', 'grow')[q % 2]:
                    raise Bad('sweeps and growth steps do not alternate: %s' % [y[0] for y in I.log])
                if x[0] == 'sweep':
                    if x[2] > 1:
                        raise Unk('positional arguments')
                    for key, v in want.items():
                        g = x[1].get(key, 'its default')
                        if (I.vkey(g) if not isinstance(g, str) else g) != (I.vkey(v) if not isinstance(v, str) else v):
                            raise Bad('option %s given by the caller is not used by the sweeps: %s' % (key, I.vkey(g) if not isinstance(g, str) else g))
                else:
                    it = q // 2
                    exp = rg > 0 and it > 0 and it % rg == 0
                    if x[1] is not exp:
                        raise Bad('growth step %d: regauging is %s, specified %s' % (it, x[1], exp))
            if len(I.log) // 2 < nmax:
                raise Bad('%d growth steps instead of %d' % (len(I.log) // 2, nmax))
        src = '\n return e.%s(Nmax=%d, NUC=3, Econv=ec, tol=tl, ncv=nv, cp=None, verbose=0, numvecs=nu, solver="LAN", Ndiag=nd, nmaxlan=nl, landelta=ld, landeltaEta=le, regaugestep=%d%s)' % (
            'simulateTwoSite' if two else 'simulate', nmax, rg, ', truncation=tr' if two else '')
        par = ['ec', 'tl', 'nv', 'nu', 'nd', 'nl', 'ld', 'le'] + (['tr'] if two else [])

        def mk2(I):
            a, k = mk(I)
            return a + [P(x) for x in par], k
        c.evaluate('loop:%s:%d:%d' % ('two' if two else 'one', nmax, rg), ENG, client(src, 'e,' + ','.join(par), ENG), mk2, judge, SWEEP,
                   opts={'models': {ENG + '.DMRGengine.' + nm: m_sweep, ENG + '.IDMRGengine.__update__': m_up}}, max_paths=32)
    for two in (False, True):
        for nmax, rg in ((1, 0), (3, 0), (4, 2), (4, 3)):
            loop(two, None, nmax, rg)

    # boundary blocks of an infinite state
    def m_tm(I, args, kw, node):
        d = dict(zip(['tensors', 'direction', 'numeig', 'init', 'nmax', 'tolerance', 'ncv', 'which'], args))
        d.update(kw)
        D = I.grow.dims[0]
        dr = I.norm(ops.scal(I, d['direction'])).as_int()
        x = N.Ten.atom('dom%+d' % dr, [D, D])
        I.tm.append((dr, [T(I, t) for t in I.finite(d['tensors'])]))
        return (P('eta'), I.arr(N.reshape(x, [None]), Dt(['S'])), C(1))

    def m_uc(I, args, kw, node):
        d = dict(zip(['mps', 'mpo', 'initial', 'ldens', 'rdens', 'direction', 'thresh', 'imax'], args))
        d.update(kw)
        dr = I.norm(ops.scal(I, d['direction'])).as_int()
        D = I.grow.dims[0]
        I.uc.append((dr, [T(I, t) for t in I.finite(d['mps'])], d))
        return (I.atom_arr('block%+d' % dr, [D, D, P('m:0')], Dt(['S', 'W'])), P('energy%+d' % dr))

    def judge_b(I, r, a, k):
        f = I.finite(r)
        if f is None or len(f) != 6:
            raise Bad('returns %s values, six are used by the optimiser' % (None if f is None else len(f)))
        n = I.grow.n
        same(I, f[0], N.Ten.atom('block+1', [I.grow.dims[0], I.grow.dims[0], P('m:0')]), 'left boundary block')
        same(I, f[1], N.Ten.atom('block-1', [I.grow.dims[0], I.grow.dims[0], P('m:0')]), 'right boundary block')
        if I.vkey(f[4]) != I.vkey(P('energy+1')) or I.vkey(f[5]) != I.vkey(P('energy-1')):
            raise Bad('energies %s, %s' % (I.vkey(f[4]), I.vkey(f[5])))
        D = I.grow.dims[0]
        one = N.Ten.delta(D) if hasattr(N.Ten, 'delta') else None
        for dr, ts, d in I.uc:
            # left blocks are those of left-isometric tensors (trivial left density), right blocks the mirror image
            for t in ts:
                if len(t.nets) != 1 or len(t.nets[0].nodes) != 1 or N.ISOMETRY.get(t.nets[0].nodes[0].label) != (['rows'] if dr > 0 else ['cols']):
                    raise Bad('the %s block is computed from tensors that are not %s-isometric' % (('left', 'right') if dr > 0 else ('right', 'left')))
            q = [x for x in I.tm if [y.key() for y in x[1]] == [y.key() for y in ts]]
            if not q or q[-1][0] != -dr:
                raise Bad('the density opposite to the %s block is not the dominant vector of the same tensors' % ('left' if dr > 0 else 'right'))
        if sorted(x[0] for x in I.uc) != [-1, 1]:
            raise Bad('blocks computed for directions %s' % [x[0] for x in I.uc])

    for n in (1, 2, 3):
        for pos in range(n + 1):
            def mk(I):
                o = start(I, n, pos)
                I.tm, I.uc = [], []
                return [o, lst(I, list(I.W))], {}
            c.evaluate('boundary:%d:%d' % (n, pos), MF, 'getBoundaryHams', mk, judge_b, BND,
                       opts={'models': {**OPTS['models'], MF + '.UnitcellTMeigs': m_tm, MF + '.computeUCsteadyStateHamiltonianGMRES': m_uc}}, max_paths=32)
    c.min_ok = 3
    return c
