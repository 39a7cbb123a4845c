MF, MP, EN, HA = 'lib/mpslib/mpsfunctions.py', 'lib/mpslib/mps.py', 'lib/mpslib/engines.py', 'lib/mpslib/Hamiltonians.py'

seed('c01-contractmpo-left', 'C01', [(MF, 'R=addLayer(R,mps1[site],mpo[site],mps2[site],direction)', 'R=addLayer(R,mps2[site],mpo[site],mps1[site],direction)')],
     'contracting a block towards the left between two different states', 'bra and ket are exchanged in the left-going block contraction', '''
a = [rnd(2, 3, 2), rnd(3, 2, 2)]
b = [rnd(2, 3, 2), rnd(3, 2, 2)]
w = [rnd(2, 2, 2, 2), rnd(2, 2, 2, 2)]
R = rnd(2, 2, 2)
got = mf.contractMPO(a, b, w, R, 0, 1, -1)
want = R
for n in (1, 0):
    want = np.einsum('xyz,axi,mzio,byo->abm', want, a[n], w[n], np.conj(b[n]))
check(np.allclose(got, want), 'block between two different states')
''')

seed('c01-bond-leg', 'C01', [(MF, '    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),chi*chi)', '    return np.reshape(np.tensordot(temp,R,([2,1],[1,2])),chi*chi)')],
     'a right block that is not symmetric under exchange of its two state legs for each operator leg', 'the bond Hamiltonian joins the matrix to the bra leg of the right block', '''
L, R, m = rnd(3, 3, 2), rnd(3, 3, 2), rnd(3, 3)
got = mf.HAproductBond(L, R, m.reshape(-1)).reshape(3, 3)
check(np.allclose(got, np.einsum('axm,ab,bym->xy', L, m, R)), 'bond Hamiltonian')
''')

seed('c03-svd-fallback', 'C03', [(MF, ('            u=q.dot(u_)\n', 2), '            u=u_\n')],
     'the library singular value decomposition must fail to converge on the first call, in the truncating factorisation towards the left', 'the fallback returns the factors of r instead of those of the matrix', '''
real = np.linalg.svd
n = [0]


def svd(*a, **k):
    n[0] += 1
    if n[0] == 1:
        raise np.linalg.LinAlgError('no convergence')
    return real(*a, **k)


t = rnd(3, 3, 2)
np.linalg.svd = svd
u, s, v, Z = mf.prepareTruncate(t, -1)
check(np.allclose(Z * np.einsum('ab,b,bcs->acs', u, s, v[:3]), t), 'reconstruction after a convergence failure')
''')

seed('c02-momentum', 'C02', [(MF, ('            return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)', 2), '            return vector-np.exp(-1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)')],
     'a non-zero momentum, acting to the left', 'the momentum phase of the left-going operator is conjugated', '''
A, B, x = rnd(3, 3, 2), rnd(3, 3, 2), rnd(3, 3)
got = mf.OneMinusPseudoTransferOperator(A, B, rnd(3, 3), rnd(3, 3), -1, 0.7, x.reshape(-1)).reshape(3, 3)
check(np.allclose(got, x - np.exp(0.7j) * np.einsum('xy,axs,bys->ab', x, A, np.conj(B))), 'momentum transfer operator to the left')
''')

seed('c04-absorb-left', 'C04', [(MP, 'self._tensors[self._position-1]=np.transpose(np.tensordot(self._tensors[self._position-1],self._mat,([1],[0])),(0,2,1))\n            D=self._mat.shape[1]',
                                     'self._tensors[self._position-1]=np.transpose(np.tensordot(self._tensors[self._position-1],self._mat,([1],[1])),(0,2,1))\n            D=self._mat.shape[1]')],
     'absorbing the centre matrix to the left while it is a non-symmetric square matrix', 'the transposed centre matrix is absorbed', '''
s = chain(5, 4)
s.position(0)
s.position(3)
v = psi(s)
s.__absorbCenterMatrix__(-1)
check(np.allclose(psi(s), v), 'state after absorbing the centre matrix')
''')

seed('c05-same-site-order', 'C05', [(MP, 'op=op.dot(ops[n])', 'op=ops[n].dot(op)')],
     'two non-commuting operators measured at the same site', 'the product of operators at one site is taken in reverse order', '''
s = chain(4, 3)
a, b = rnd(2, 2), rnd(2, 2)
x = s.measure([a, b], [1, 1])
y = s.measure([a.dot(b)], [1])
check(abs(x - y) < 1e-10, 'product of two operators at one site')
''')

seed('c07-remembered-limit', 'C07', [(MP, 'tensor,s,v,Z=mf.prepareTruncate(self._tensors[n],direction=1,D=D,thresh=_schmidt_thresh,', 'tensor,s,v,Z=mf.prepareTruncate(self._tensors[n],direction=1,D=self._D,thresh=_schmidt_thresh,')],
     'moving the centre to the right with a bond limit smaller than the one the state remembers', 'the remembered limit is used instead of the requested one', '''
s = chain(8, 12)
s.position(0)
s.position(8, D=3)
check(max(s.D) <= 3, 'bond dimensions after moving right with limit 3: %s' % s.D)
''')

seed('c08-load-z', 'C08', [(MP, '        self._Z=mps._Z\n        self._gamma', '        self._gamma')],
     'loading a saved state whose scalar factor is not one', 'the scalar factor is lost when loading', '''
f = os.path.join(os.environ.get('SCRATCH', '/tmp'), 'state')
a = chain(4, 3) * (2 + 1j)
a.save(f)
b = chain(4, 3)
b.load(f)
check(np.allclose(psi(a), psi(b)), 'loaded state')
''')

seed('c08-shared-copy', 'C08', [(MP, 'cop._tensors=copy.deepcopy(self._tensors)', 'cop._tensors=copy.copy(self._tensors)')],
     'a copy whose tensors are modified in place', 'copies share their tensors with the original', '''
a = chain(4, 3)
v = psi(a)
b = a.copy()
b[1][...] = 0
check(np.allclose(psi(a), v), 'original after its copy was modified')
''')

seed('c09-iadd-factor', 'C09', [(MP, '        out=self+other\n', '        out=other+self\n')] if False else [(MP, ('cpy._Z*=num', 2), 'cpy._Z*=np.conj(num)')],
     'a complex number multiplied from the left', 'number*state multiplies by the conjugate', '''
a = chain(4, 3)
check(np.allclose(psi((1 + 2j) * a), (1 + 2j) * psi(a)), 'number times state')
''')

seed('c10-gate-transposed', 'C10', [(MP, 'tensor=ncon.ncon([self.__tensor__(site,clear=True),gate],[[-1,-2,1],[1,-3]])', 'tensor=ncon.ncon([self.__tensor__(site,clear=True),gate],[[-1,-2,1],[-3,1]])')],
     'a one-site gate that is not symmetric', 'the transposed gate is applied', '''
s = chain(4, 3)
v = psi(s)
g = rnd(2, 2)
s.applyOneSiteGate(g, 1)
want = np.einsum('asb,st->atb', v.reshape(2, 2, 4), g).reshape(-1)
check(np.allclose(psi(s), want), 'state after a one-site gate')
''')

seed('c10-last-site-phase', 'C10', [(MP, '            self._tensors[site]=A\n            self._mat=mat\n', '            self._tensors[site]=A\n            self._mat=mat if site<len(self)-1 else np.eye(mat.shape[0])\n')],
     'a one-site gate on the last site whose effect includes a sign or phase', 'the phase of the state is lost at the last site', '''
bad = 0
for k in range(6):
    s = chain(4, 3)
    v = psi(s)
    g = rnd(2, 2)
    s.applyOneSiteGate(g, 3)
    want = np.einsum('as,st->at', v.reshape(8, 2), g).reshape(-1)
    bad += not np.allclose(psi(s), want)
check(bad == 0, 'state after a gate on the last site')
''')

seed('c12-odd-layer', 'C12', [(EN, 'lstart=self._mps._N-2', 'lstart=self._mps._N-4')],
     'a chain with an odd number of sites', 'the last odd bond is never evolved', '''
N = 5
mpo = H.XXZ(np.random.rand(N - 1) + .5, np.random.rand(N - 1) + .5, np.random.rand(N), True)
s = chain(N, 4)
s.position(0)
s.position(N)
s.resetZ()
v = psi(s)
import scipy.linalg as sl
hm = dense(mpo)
e = en.TimeEvolutionEngine(s, mpo, 'x')
e.doTEBD(dt=-1j * 0.002, numsteps=50, Dmax=40, tr_thresh=1e-16, verbose=0)
check(ray(psi(e.mps), sl.expm(-1j * 0.1 * hm).dot(v)) > 1 - 1e-5, 'TEBD against exact evolution')
''')

seed('c12-checkpoint-step', 'C12', [(EN, '''                        current=self._filename+'_tebd_cp'+str(self._it)
                        self.save(current)
                    self.applyEven(dt/2.0,Dmax,tr_thresh)''', '''                        current=self._filename+'_tebd_cp'+str(self._it)
                        self.save(current)
                    if keep_cp or step>self._it:
                        self.applyEven(dt/2.0,Dmax,tr_thresh)''')],
     'a run with checkpoints of which only the last is kept', 'the second half step after a checkpoint is left out', '''
os.chdir(os.environ.get('SCRATCH', '/tmp'))
N = 4
mpo = H.XXZ(np.ones(N - 1), np.ones(N - 1), np.zeros(N), True)
s = chain(N, 4)
s.position(0)
s.position(N)
s.resetZ()
out = []
for cp in (None, 2):
    e = en.TimeEvolutionEngine(s, mpo, 'x')
    e.doTEBD(dt=-1j * 0.1, numsteps=8, Dmax=40, tr_thresh=1e-16, verbose=0, cp=cp)
    out.append(psi(e.mps))
check(ray(*out) > 1 - 1e-8, 'evolution with and without checkpoints')
''')

seed('c13-expmv-backward', 'C13', [(EN, ('evMat=mf.evolveMatrixSexpmv(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_)', 1), 'evMat=mf.evolveMatrixSexpmv(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,dt_)')],
     'the exponential integrator and the left-going half of a sweep', 'bonds are evolved forward instead of backward', '''
N = 4
mpo = H.XXZ(np.ones(N - 1), np.ones(N - 1), np.zeros(N), True)
s = chain(N, 4)
s.position(0)
s.position(N)
s.resetZ()
out = []
for sv in ('LAN', 'SEXPMV'):
    e = en.TimeEvolutionEngine(s, mpo, 'x')
    e.doTDVP(-1j * 0.05, 4, solver=sv, verbose=0)
    out.append(psi(e.mps))
check(ray(*out) > 1 - 1e-7, 'two integrators agree')
''')

seed('c14-stale-right', 'C14', [(EN, '''                self._mps._mat=np.diag(S)
                self._R[self._mps._N-1-n]=mf''', '''                self._mps._mat=np.diag(S)
                if n>0:
                    self._R[self._mps._N-1-n]=mf'''),
                                (EN, '''            self._mps.__position__(0)
            self._R[self._mps._N-1-n]=mf.addLayer(self._R[self._mps._N-1-n-1],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
''', '''            self._mps.__position__(0)
''')],
     'a single-site run after a two-site run on the same engine', 'the block right of the first site is the one of the initial state', '''
N = 6
mpo = H.XXZ(np.ones(N - 1), np.ones(N - 1), np.zeros(N), True)
s = chain(N, 8, cplx=False)
e = en.DMRGengine(s, mpo, 'x')
E = e.simulateTwoSite(Nmax=4, cp=None, solver='AR')
x, opt = e.optimize(0)
check(abs(x - E) < 1e-6, 'local energy at the first site %s, energy %s' % (x, E))
''')
