#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from the planted changes in seeds_src/*.py.  Not used by any check.
usage: mkseeds.py [id ...]   (patches are made in a scratch copy of /repo)"""
import glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = (prop, edits, needs, breaks, demo)


PRE = '''import sys, os
sys.path.insert(0, os.getcwd())
import numpy as np
import lib.mpslib.mps as M, lib.mpslib.mpsfunctions as mf, lib.mpslib.engines as en, lib.mpslib.Hamiltonians as H
import lib.ncon as ncon
np.random.seed(7)


def vec(ts, mat=None, pos=None, Z=1.0):
    """dense vector of an open chain given by its tensors"""
    v = np.ones((1, 1))
    for n, t in enumerate(ts):
        if mat is not None and n == pos:
            v = v.dot(mat)
        v = np.einsum('xa,abs->xsb', v, t).reshape(-1, t.shape[1])
    if mat is not None and pos == len(ts):
        v = v.dot(mat)
    return v[:, 0] * Z


def rnd(*shape):
    return np.random.rand(*shape) - 0.5 + 1j * (np.random.rand(*shape) - 0.5)


def chain(N, D, d=2, cplx=True):
    return M.MPS.random(N, D, d, obc=True, dtype=complex if cplx else float)


def psi(s):
    return vec(s.tensors, s._mat, s.pos, s._Z)


def ray(a, b):
    """|cos| of the angle between two vectors"""
    return abs(np.vdot(a, b)) / np.linalg.norm(a) / np.linalg.norm(b)


def dense(mpo):
    """dense matrix [out, in] of an open chain operator with legs (l, r, in, out)"""
    W = np.ones((1, 1, 1))
    for n in range(len(mpo)):
        w = mpo[n]
        W = np.einsum('xyl,lrio->xoyir', W, w).reshape(W.shape[0] * w.shape[3], W.shape[1] * w.shape[2], w.shape[1])
    return W[:, :, 0]


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)


'''
SH = '''#!/bin/bash
# exit 0 if the behaviour holds
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
export MPLCONFIGDIR="$T" SCRATCH="$T"
timeout 250 /opt/pvenv/bin/python -W ignore "$D/demo.py" > "$T/out" 2>&1
r=$?
tail -5 "$T/out"
exit $r
'''


def main():
    for f in sorted(glob.glob(os.path.join(V, 'tools/seeds_src/*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
    want = sys.argv[1:] or sorted(SEEDS)
    w = tempfile.mkdtemp(prefix='mkseed')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for s in want:
        prop, edits, needs, breaks, demo = SEEDS[s]
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            t = open(p).read()
            k = 0
            if isinstance(old, tuple):
                old, k = old
            parts = t.split(old)
            if k == 0 and len(parts) != 2:
                print(s, 'edit matches %d times in %s' % (len(parts) - 1, f), repr(old)[:80])
                break
            k = max(k, 1)
            open(p, 'w').write(old.join(parts[:k]) + new + old.join(parts[k:]))
        else:
            d = os.path.join(V, 'seeded', s)
            os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(PRE + demo.strip() + '\n')
            open(d + '/demo.sh', 'w').write(SH)
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        subprocess.check_call(['git', '-C', w + '/r', 'checkout', '-q', '--', '.'])
    shutil.rmtree(w)


main()
