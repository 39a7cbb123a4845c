"""Obligation bookkeeping, comparison of abstract values with hand-written specifications, reports and evidence."""
import hashlib
import json
import os
import sys
import time
import traceback
from . import net as N
from . import poly as PL
from . import ops
from .poly import Poly, ONE, ZERO
from .interp import (Program, PyDict, Interp, run_all, BadResult, Raised, Undecided, Infeasible, Ref, Opq, Cond, Arr, PyList, SymSeq, Inst, Cls, PyFn,
                     Bound, Fn, Builtin, Partial, Dt, DT_FLOAT, DT_CPLX, DT_INT, Ext)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MF = 'lib.mpslib.mpsfunctions'
MPS = 'lib.mpslib.mps'
HAM = 'lib.mpslib.Hamiltonians'
ENG = 'lib.mpslib.engines'
LAN = 'lib.Lanczos.LanczosEngine'
SEX = 'lib.mpslib.sexpmv'
P = Poly.atom
C = Poly.const

_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


# ------------------------------------------------------------------ models shared by all checks
def m_ncon(I, args, kw, node):
    """ncon(tensors, labels): its own semantics are decided by property C19"""
    a, v = args[0], args[1]
    f = I.finite(a) if not I.is_arr(a) else [a]
    if f is None:
        raise Undecided('ncon')
    lab = I.finite(v)
    if lab is None:
        raise Undecided('ncon labels')
    labs = []
    if lab and isinstance(lab[0], Poly):
        lab = [v]
    for x in lab:
        l = ops._intlist(I, x)
        if l is None:
            raise Undecided('ncon labels')
        labs.append(l)
    ts = [ops.ten(I, x) for x in f]
    if any(t is None for t in ts):
        return I.opq('ncon', *(list(f) + [repr(labs)]))
    if len(ts) != len(labs):
        raise N.Mismatch('ncon: %d tensors, %d label lists' % (len(ts), len(labs)))
    r = N.ncon(ts, labs)
    fo = args[3] if len(args) > 3 else kw.get('forder')
    if fo is not None:
        fo = ops._intlist(I, fo)
        free = sorted({x for l in labs for x in l if x < 0}, reverse=True)
        if fo is None or sorted(fo, reverse=True) != free:
            raise Undecided('ncon forder')
        r = N.transpose(r, [free.index(x) for x in fo])
    return ops.mk(I, r, ops.join_dt(*[ops.dt_of(I, x) for x in f]))


BASE_MODELS = {'lib.ncon.ncon.ncon': m_ncon}


class Bad(BadResult):
    """definite disagreement with the specification"""


class Unk(Exception):
    """the analysis cannot decide"""


def T(I, v):
    t = ops.ten(I, v)
    if t is None:
        raise Unk('not a tensor value: %s' % I.vkey(v)[:120])
    return t


def tainted(k):
    return '?' in k or 'Opq' in k or 'RESHAPE' in k and '~' in k


def short(s, n=260):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


def same(I, got, want, what, modtrunc=False):
    """got: abstract value; want: Ten / Poly / str / tuple / None"""
    if isinstance(want, (tuple, list)):
        f = I.finite(got)
        if f is None:
            raise Unk('%s: not a known tuple (%s)' % (what, short(I.vkey(got))))
        if len(f) != len(want):
            raise Bad('%s: %d components instead of %d' % (what, len(f), len(want)))
        for k, (g, w) in enumerate(zip(f, want)):
            same(I, g, w, '%s[%d]' % (what, k), modtrunc)
        return
    if isinstance(want, Poly):
        s = ops.scal(I, got)
        if s is None:
            t = ops.ten(I, got) if not isinstance(got, Opq) else None
            if t is None:
                raise Unk('%s: unknown scalar %s' % (what, short(I.vkey(got))))
            if t.ndim != 0 and all(d == ONE for d in (t.legdims() or [None])):
                t = N.Ten([N.Net(n.coef, n.nodes, []) for n in t.nets], 0)
                s = ops.to_scalar(I, t)
            else:
                raise Bad('%s: array of rank %d where a number is specified' % (what, t.ndim))
        d = I.norm(N.DIMS.find(s - want))
        if not d.is_zero():
            d = I.norm(normal_poly(s) - normal_poly(want))
        if d.is_zero():
            return
        k = s.key()
        if tainted(k):
            raise Unk('%s: %s' % (what, short(k)))
        raise Bad('%s is %s, specified %s' % (what, short(k), short(want.key())))
    if isinstance(want, N.Ten):
        if isinstance(got, (Opq, Cond)) or got is None or isinstance(got, (str, bool)):
            if isinstance(got, (Opq, Cond)):
                raise Unk('%s: unknown value %s' % (what, short(I.vkey(got))))
            raise Bad('%s is %r' % (what, got))
        t = ops.ten(I, got)
        if t is None:
            raise Unk('%s: unknown array %s' % (what, short(I.vkey(got))))
        if t.ndim != want.ndim:
            if tainted(t.key()):
                raise Unk(what)
            raise Bad('%s has rank %d, specified %d' % (what, t.ndim, want.ndim))
        d1, d2 = t.legdims(), want.legdims()
        if d1 and d2:
            for a, b in zip(d1, d2):
                if a != b and not N.DIMS.unify(a, b) and a.as_int() is not None and b.as_int() is not None:
                    raise Bad('%s has shape %s, specified %s' % (what, d1, d2))
        if modtrunc:
            t, want = N.simplify(t, True), N.simplify(want, True)
        k1, k2 = t.key(), want.key()
        if k1 == k2:
            return
        if tainted(k1) or tainted(k2):
            raise Unk('%s: %s' % (what, short(k1)))
        raise Bad('%s = %s ; specified %s' % (what, short(k1), short(k2)))
    if isinstance(want, str) or want is None or isinstance(want, bool):
        if got == want and type(got) == type(want):
            return
        if isinstance(got, (Opq, Cond)):
            raise Unk(what)
        raise Bad('%s is %s, specified %r' % (what, short(I.vkey(got)), want))
    if isinstance(want, Dt):
        d = ops.dt_of(I, got)
        if d is None:
            raise Unk(what + ' dtype')
        if d != want:
            raise Bad('%s has dtype %r, specified %r' % (what, d, want))
        return
    raise Unk('spec type %r' % type(want))


def normal_poly(p):
    return p


BUDGET = 600       # seconds per check; later obligations stay undecided


class Check:
    def __init__(self, pid, title=''):
        self.pid = pid
        self.obs = []
        self.t0 = time.time()
        self.title = title
        self.fns = set()
        self.paths = 0
        self.stats = {}
        self.assumptions = []
        self.min_ok = 1
        self.keys = set()
        self.rules = set()

    # status: ok / bad / undecided / na
    def add(self, key, status, site, rule, detail=''):
        base, k = key, 2
        while key in self.keys:
            key = '%s#%d' % (base, k)
            k += 1
        self.keys.add(key)
        self.rules.add(rule)
        self.obs.append(dict(key=key, status=status, site=site, rule=rule, detail=detail))
        if os.environ.get('VERIF_DEBUG') and status != 'ok':
            print('   [%s] %s %s: %s' % (status, key, site, detail))

    def site(self, fn, node=None):
        if getattr(fn, "label", None):
            return fn.label
        if fn is None:
            return '?'
        rel = os.path.relpath(fn.mod.path, prog().repo)
        return '%s:%s %s' % (rel, getattr(node, 'lineno', None) or getattr(fn.node, 'lineno', '?'), fn.name)

    def evaluate(self, key, mod, name, mk, judge, rule, allow=(), opts=None, max_paths=64, ignore_raise=False, require=True):
        """Analyse function `name` of module `mod` for arguments mk(I) -> (args, kw) on every trace partition;
        judge(I, result, args, kw) raises Bad/Unk.  `allow`: exception names that are within the contract."""
        fn = prog().func(mod, name) if isinstance(name, str) else name
        if fn is None or not isinstance(fn, Fn):
            self.add(key, 'gone', mod, rule, 'anchor %s.%s not found' % (mod, name))
            return
        self.fns.add('%s.%s' % (mod, name) if isinstance(name, str) else '%s: %s' % (mod, fn.name))

        def make():
            N.reset()
            for a in [a for a in ops.ATOM_DT if a.startswith('<')]:
                del ops.ATOM_DT[a]
            o = dict(opts or {})
            models = dict(BASE_MODELS)
            models.update(o.pop('models', {}))
            I = Interp(prog(), models=models, **o)

            def thunk(I):
                args, kw = mk(I)
                I.argsnap = (args, kw)
                res = I.call(fn, args, kw, fn.node)
                judge(I, res, args, kw)
                return None
            return I, thunk
        self.judge_paths(key, fn, make, rule, allow, max_paths)

    def judge_paths(self, key, fn, make, rule, allow=(), max_paths=64):
        if time.time() - self.t0 > BUDGET:
            self.add(key, 'undecided', self.site(fn), rule, 'time budget of the check used up')
            return
        try:
            outs = run_all(_wrap(make), max_paths)
        except RecursionError:
            self.add(key, 'undecided', self.site(fn), rule, 'recursion')
            return
        st, det, site = 'ok', '', self.site(fn)
        nok = 0
        for I, (o, v) in outs:
            self.paths += 1
            if o == 'infeasible':
                continue
            trace = [] if I is None else ['%s=%s' % (short(t[0], 70), t[1]) for t in I.trace]
            if o == 'ret':
                nok += 1
            elif o == 'bad':
                st, det = 'bad', '%s  [path: %s]' % (v, ', '.join(trace))
                break
            elif o == 'raise':
                if v.exc in allow or v.exc in ('SystemExit', 'KeyboardInterrupt') and allow != ():
                    nok += 1
                    continue
                ev = [e for e in I.events if e.kind in ('arity', 'undefined', 'unpack', 'notcallable', 'nonecmp', 'nonlen', 'indexerr')]
                st, det = 'bad', 'raises %s at %s %s [path: %s]' % (v.exc, self.site(v.fn, v.node), ev[-1:] or '', ', '.join(trace))
                break
            elif o == 'mismatch':
                st, det = 'bad', 'contracts legs that do not fit: %s [path: %s]' % (v, ', '.join(trace))
                break
            else:
                if st == 'ok':
                    st, det = 'undecided', '%s [path: %s]' % (v, ', '.join(trace[:6]))
        if st == 'ok' and nok == 0:
            st, det = 'undecided', 'no path analysed'
        self.add(key, st, site, rule, det)

    # ---------------------------------------------------------------- end of run
    def finish(self):
        known = load_known(self.pid)
        bad = [o for o in self.obs if o['status'] == 'bad']
        gone = [o for o in self.obs if o['status'] == 'gone']
        und = [o for o in self.obs if o['status'] == 'undecided']
        ok = [o for o in self.obs if o['status'] == 'ok']
        # a listed construct that was renamed or moved within its module is still the same finding: it pairs, one to one, with a listed
        # finding of the same kind and module that is no longer reported and agrees in the function or in the message
        left = [k for k in known if k not in {o['key'] for o in bad}]
        for o in bad:
            if o['key'] not in known:
                a = o['key'].split(':')
                for same in (lambda b: a[3:] == b[3:], lambda b: a[2] == b[2]):
                    hit = [k for k in left if len(a) > 3 and k.split(':')[:2] == a[:2] and len(k.split(':')) > 3 and same(k.split(':'))]
                    if hit:
                        known[o['key']] = known[hit[0]]
                        left.remove(hit[0])
                        break
        new = [o for o in bad if o['key'] not in known]
        for o in bad:
            if o['key'] in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, o['key'], known[o['key']]))
        tier = os.environ.get('VERIF_TIER', 'quick')
        tier = tier if tier in ('quick', 'thorough') else 'quick'
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        files = sorted({f.split(':')[0].split(' ')[0] for f in (o['site'] for o in self.obs)})
        cov = {
            'explanation': 'Static obligations decided from the current source of %s: each obligation is one analysed construct (function, '
                           'call site, branch or loop) with the rule applied to it.  "undecided" obligations raise no alarm.' % prog().repo,
            'obligations': len(self.obs), 'discharged': len(ok), 'violated': len(bad), 'known_findings': len(bad) - len(new),
            'undecided': len(und), 'anchors_missing': len(gone), 'functions_analysed': sorted(self.fns), 'trace_partitions': self.paths,
            'rules': sorted(self.rules), 'files': files,
            'undecided_list': [{'key': o['key'], 'why': short(o['detail'], 200)} for o in und],
            'obligation_list': [{'key': o['key'], 'site': o['site'], 'status': o['status']} for o in self.obs],
            'checker_cmd': 'python3 /verif/check.py %s' % self.pid,
            'source_digest': digest(),
        }
        cov.update(self.stats)
        ev = {'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d violated (%d known), %d undecided, %d anchors missing; %d functions, %d trace partitions, %.1f s'
              % (self.pid, len(self.obs), len(ok), len(bad), len(bad) - len(new), len(und), len(gone), len(self.fns), self.paths, time.time() - self.t0))
        for o in und:
            print('  undecided %s (%s): %s' % (o['key'], o['site'], short(o['detail'], 160)))
        for o in gone:
            print('  missing anchor %s: %s' % (o['key'], o['detail']))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.report.txt')
            with open(rp, 'w') as f:
                f.write('property %s\n' % self.pid)
                for o in new:
                    f.write('\nconstruct : %s\nobligation: %s\nrule      : %s\nfinding   : %s\n' % (o['site'], o['key'], o['rule'], o['detail']))
                f.write('\nreproduce: python3 /verif/check.py %s\n' % self.pid)
            for o in new:
                print('  VIOLATED %s at %s\n    rule: %s\n    %s' % (o['key'], o['site'], o['rule'], short(o['detail'], 700)))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if len(ok) < self.min_ok:
            print('analysis broken: only %d obligations discharged, at least %d expected' % (len(ok), self.min_ok))
            return 3
        return 0


def digest():
    h = hashlib.sha256()
    for n in sorted(prog().mods):
        h.update(prog().mods[n].src.encode())
    return h.hexdigest()[:16]


def _alarm(*_):
    raise Undecided('time limit of the obligation')


def _wrap(make):
    def mk():
        I, thunk = make()

        def th(I):
            import signal
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, float(os.environ.get('VERIF_OB_SECONDS', '40')))
            try:
                return thunk(I)
            except Unk as u:
                raise Undecided(str(u))
            except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e:
                if os.environ.get('VERIF_TRACE'):
                    raise
                raise Undecided('analyser: %s: %s' % (type(e).__name__, e))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        return I, th
    return mk


def load_known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                rest = l[len('finding: property=%s ' % pid):].strip()
                k, _, t = rest.partition(' :: ')
                out[k.strip()] = t.strip()
    return out


# ------------------------------------------------------------------ common abstract arguments
def tens(I, name, dl=None, dr=None, d=None, dt=None):
    """rank-3 state tensor with generic dimensions (left bond, right bond, physical)"""
    return I.atom_arr(name, [dl or P('b:%s.l' % name), dr or P('b:%s.r' % name), d or P('p:%s' % name)], dt)


def mpot(I, name, ml=None, mr=None, di=None, do=None, dt=None):
    return I.atom_arr(name, [ml or P('m:%s.l' % name), mr or P('m:%s.r' % name), di or P('p:%s.i' % name), do or P('p:%s.o' % name)], dt)


def env(I, name, a=None, b=None, m=None, dt=None):
    return I.atom_arr(name, [a or P('b:%s.k' % name), b or P('b:%s.b' % name), m or P('m:%s' % name)], dt)


def mat(I, name, a=None, b=None, dt=None):
    return I.atom_arr(name, [a or P('b:%s.l' % name), b or P('b:%s.r' % name)], dt)


def vec(I, name, n, dt=None):
    return I.atom_arr(name, [n], dt)


def lst(I, items):
    return I.new(PyList(list(items)))


def nc(ts, labels):
    return N.ncon(ts, labels)


cj = N.conj


def mps_cls():
    m = prog().mods[MPS]
    return Cls(m.classes['MPS'], m)


def cscalar(name):
    """a scalar that may be complex, with a dtype of its own"""
    from . import poly
    poly.COMPLEX_ATOMS.add(name)
    ops.ATOM_DT[name] = ops.Dt([name])
    return P(name)


def mps_obj(I, tensors, position=None, mat_=None, Z=None, obc=True, label='S', dt=None, fields=None):
    """an MPS object as the constructor and the gauge routines leave it: `tensors`, centre matrix, scalar factor"""
    n = len(tensors)
    d0 = [I.dims_of(t) for t in tensors]
    position = n if position is None else position
    if mat_ is None:
        dim = d0[position][0] if position < n else d0[-1][1]
        mat_ = mat(I, label + '.c', dim, dim)
    Z = Z if Z is not None else cscalar('Z.%s' % label)
    conn = mat(I, label + '.conn', d0[-1][1], d0[0][0])
    d = dt if dt is not None else ops.join_dt(DT_FLOAT, *[I.dt_of(t) for t in list(tensors) + [mat_, conn, Z]])
    f = {'_N': C(n), '_D': P('b:Dmax.%s' % label), '_obc': obc, '_dtype': d, '_schmidt_thresh': Opq(label + '.st'), '_r_thresh': Opq(label + '.rt'),
         '_tensors': lst(I, tensors), '_d': lst(I, [x[2] for x in d0]), '_mat': mat_, '_connector': conn, '_position': C(position), '_Z': Z,
         '_gamma': lst(I, []), '_lambda': lst(I, [])}
    f.update(fields or {})
    o = I.new(Inst(mps_cls(), f, label))
    return o


def fld(I, o, a):
    return I.rec(o).f.get(a)


def tlist(I, o):
    f = I.finite(fld(I, o, '_tensors'))
    if f is None:
        raise Unk('tensor list')
    return [T(I, x) for x in f]


def obj_state(I, o):
    """the vector an MPS object stands for: tensors with the centre matrix inserted at its bond, times the scalar factor"""
    from . import spec as S
    ts = tlist(I, o)
    p = ops.scal(I, fld(I, o, '_position'))
    p = I.norm(p).as_int() if p is not None else None
    if p is None:
        raise Unk('position')
    m = T(I, fld(I, o, '_mat'))
    Z = ops.scal(I, fld(I, o, '_Z'))
    if Z is None:
        raise Unk('scalar factor')
    n = len(ts)
    if p < n:
        ts[p] = N.tensordot(m, ts[p], [1], [0])
    elif n:
        ts[n - 1] = N.transpose(N.tensordot(ts[n - 1], m, [1], [0]), [0, 2, 1])
    return N.scale(S.mps_state(ts), Z)


# ------------------------------------------------------------------ states in canonical gauge and the gauge-motion model (decided by C04)
def gauge_tens(I, label, n, p, dims, phys, dt=None):
    """site tensors of a state whose centre sits at bond p: left-isometric before, right-isometric after; returns (tensors, centre matrix)"""
    ts = []
    dt = dt if dt is not None else ops.Dt([label])
    for k in range(n):
        l, r, d = N.newidx(dims[k]), N.newidx(dims[k + 1]), N.newidx(phys[k])
        lab = '%s@%d.%d' % (label, p, k)
        one = lambda i: () if N.dim(i) == ONE else (i,)
        if k < p:
            N.ISOMETRY[lab] = ['rows']
            nd = N.Node(lab, False, [one(l), one(d), one(r)])
        else:
            N.ISOMETRY[lab] = ['cols']
            nd = N.Node(lab, False, [one(l), one(r), one(d)])
        ts.append(I.arr(N.Ten([N.Net(ONE, [nd], [one(l), one(r), one(d)])], 3), dt))
    if dims[p] == ONE:
        ph = 'phase<%s@%d>' % (label, p)
        PL.UNIT_ATOMS.add(ph)
        m = I.arr(N.Ten([N.Net(P(ph), [], [(), ()])], 2), dt)
    else:
        m = I.atom_arr('%s@%d.c' % (label, p), [dims[p], dims[p]], dt)
    return ts, m


def canon_obj(I, n, p, label='S', obc=True, phys='p', dt=None, fields=None, Z=None):
    ds = [P('b:%s%d' % (label, k)) for k in range(n + 1)]
    if obc:
        ds[0] = ds[n] = ONE
    ps = [P('%s:%d' % (phys, k)) for k in range(n)]
    ts, m = gauge_tens(I, label, n, p, ds, ps, dt)
    o = mps_obj(I, ts, position=p, mat_=m, obc=obc, label=label, dt=dt, fields=fields, Z=Z)
    I.gauge = getattr(I, 'gauge', {})
    I.gauge[o.id] = dict(label=label, n=n, dims=ds, phys=ps, dt=dt, obj=o, hist=[obj_state(I, o)], moves=[])
    return o


def m_position(I, args, kw, node):
    """model of the gauge motion: same state, tensors isometric around the requested bond"""
    o, b = args[0], args[1] if len(args) > 1 else kw.get('bond')
    g = getattr(I, 'gauge', {}).get(o.id) if isinstance(o, Ref) else None
    if g is None or len(args) > 2 or any(k != 'bond' for k in kw):
        return NotImplemented
    q = ops.scal(I, b)
    q = I.norm(q).as_int() if q is not None else None
    if q is None:
        raise Undecided('gauge motion to an unknown bond')
    if not 0 <= q <= g['n']:
        raise Raised('AssertionError', node, I.stack[-1] if I.stack else None)
    cur = pos_int(I, o)
    if cur == q:
        return None
    ts, m = gauge_tens(I, g['label'], g['n'], q, g['dims'], g['phys'], g['dt'])
    f = I.rec(o).f
    I.rec(f['_tensors']).items[:] = ts
    f['_mat'], f['_position'] = m, C(q)
    g['hist'].append(obj_state(I, o))
    g['moves'].append((cur, q))
    return None


def client(src, params, mod=None):
    """a synthetic caller: the given statements / expression analysed in the namespace of a module of the program"""
    import ast
    body = src if src.startswith('\n') else '\n return ' + src
    node = ast.parse('def client(%s):%s\n' % (params, body)).body[0]
    for n in ast.walk(node):
        if hasattr(n, 'lineno'):
            n.lineno = 0
    f = Fn(node, prog().mods[mod or MPS])
    f.label = '%s caller: %s' % (os.path.relpath(f.mod.path, prog().repo), '; '.join(x.strip() for x in src.strip().split('\n')))
    return f


def pos_int(I, o):
    p = ops.scal(I, fld(I, o, '_position'))
    return I.norm(p).as_int() if p is not None else None


GAUGE = {'lib.mpslib.mps.MPS.__position__': m_position}


def hists(I, *objs):
    """all combinations of the equivalent forms the states took during the run"""
    import itertools
    return list(itertools.product(*[reversed(I.gauge[o.id]['hist']) for o in objs]))


def same_any(I, got, wants, what):
    """equal to one of several equivalent forms"""
    err = None
    for w in wants:
        try:
            same(I, got, w, what)
            return
        except Bad as e:
            err = err or e
    raise err


def atmost(I, x, cap, what):
    """definite violation of x <= cap, if the sign can be decided; unknown signs stay undecided"""
    s = I.sign(I.norm(N.DIMS.find(cap - x)))
    if s in ('+', '0', '>='):
        return
    if s == '-':
        raise Bad('%s is %s, larger than %s' % (what, x, cap))
    if not (x.atoms() & cap.atoms()) and not any('min(' in a for a in x.atoms()):
        raise Bad('%s is %s, not limited by %s' % (what, x, cap))
    raise Unk('%s: %s <= %s' % (what, x, cap))
