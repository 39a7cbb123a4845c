"""Further entry points of the library, analysed for their effects only (used by the effect, type and name checks)."""
from ..harness import *
from ..infmodel import INF

ANY = ('ValueError', 'SystemExit', 'AssertionError', 'TypeError', 'ArpackError', 'ZeroDivisionError', 'NotImplementedError', 'IndexError', 'Exception')


def run():
    c = Check('extra')
    ok = lambda I, r, a, k: None

    def go(key, name, mk, mod=MF, **kw):
        c.evaluate(key, mod, name, mk, ok, 'effects', ANY, {'models': dict(INF)}, max_paths=24, **kw)
    D, d = P('b:D'), P('p:s')

    def uni(I, nm='A'):
        return tens(I, nm, D, D, d)

    def cellD(I, n=2, nm='A'):
        ds = [P('b:D')] + [P('b:%d' % k) for k in range(1, n)] + [P('b:D')]
        return [tens(I, '%s%d' % (nm, k), ds[k], ds[k + 1], P('p:%d' % k)) for k in range(n)]

    def mpoc(I, n=2):
        return lst(I, [mpot(I, 'W%d' % k, P('m:0'), P('m:0'), P('p:%d' % k), P('p:%d' % k)) for k in range(n)])

    def dens(I, nm, ds=None):
        return mat(I, nm, ds or D, ds or D)
    for g in ('left', 'right', 'symmetric'):
        go('regauge:' + g, 'regauge', lambda I: ([uni(I), g], {'numeig': C(2)}))
        go('regaugeIMPS:' + g, 'regaugeIMPS', lambda I: ([lst(I, cellD(I)), g], {}))
        go('regaugeIMPS:init:' + g, 'regaugeIMPS', lambda I: ([lst(I, cellD(I)), g], {'ldens': dens(I, 'l'), 'rdens': dens(I, 'r')}))
    for s in (1, -1):
        S_ = C(s)
        go('TMeigs:%+d' % s, 'TMeigs', lambda I: ([uni(I), S_, ONE], {}))
        go('UnitcellTMeigs:%+d' % s, 'UnitcellTMeigs', lambda I: ([lst(I, cellD(I)), S_, ONE], {}))
        go('MixedUnitcellTMeigs:%+d' % s, 'MixedUnitcellTMeigs', lambda I: ([lst(I, cellD(I)), lst(I, cellD(I, 2, 'B')), S_, ONE], {}))
        go('computeDensity:%+d' % s, 'computeDensity', lambda I: ([dens(I, 'rho'), lst(I, cellD(I)), S_], {}))
        go('TDVPGMRES:%+d' % s, 'TDVPGMRES', lambda I: ([uni(I), uni(I, 'B'), dens(I, 'r'), dens(I, 'l'), vec(I, 'h', D * D), vec(I, 'x0', D * D)], {'direction': S_}))
        go('RENORMBLOCKHAMGMRES:%+d' % s, 'RENORMBLOCKHAMGMRES', lambda I: ([uni(I), uni(I, 'B'), dens(I, 'r'), dens(I, 'l'), vec(I, 'h', D * D), vec(I, 'x0', D * D)], {'direction': S_}))
        ld = lambda I, nm: lst(I, [dens(I, nm + '0'), dens(I, nm + '1', P('b:1')), dens(I, nm + '2')])
        go('TDVPGMRESUC:%+d' % s, 'TDVPGMRESUC', lambda I: ([lst(I, cellD(I)), ld(I, 'l'), ld(I, 'r'), vec(I, 'h', D * D), vec(I, 'x0', D * D)], {'direction': S_}))
        go('steadyState:%+d' % s, 'computeUCsteadyStateHamiltonianGMRES',
           lambda I: ([lst(I, cellD(I)), _mpo(I), vec(I, 'b', D * D), ld(I, 'l'), ld(I, 'r'), S_, P('tol'), C(10)], {}))
        go('prepareTensorfixA0:%+d' % s, 'prepareTensorfixA0', lambda I: ([uni(I), S_], {}))
        go('getBlock:%+d' % s, 'getL' if s > 0 else 'getR', lambda I: ([lst(I, cellD(I)), mpoc(I), env(I, 'E', D, D, P('m:0'))], {}))
        go('getUC:%+d' % s, 'getUCL' if s > 0 else 'getUCR', lambda I: ([lst(I, cellD(I)), mpoc(I), env(I, 'E', D, D, P('m:0'))], {}))
        go('getprojected:%+d' % s, 'getLprojected' if s > 0 else 'getRprojected',
           lambda I: ([lst(I, cellD(I)), mpoc(I), env(I, 'E', D, D, P('m:0')), ld(I, 'l'), ld(I, 'r')], {}))
        go('contractE:%+d' % s, 'contractE', lambda I: ([lst(I, cellD(I)), lst(I, cellD(I, 2, 'B')), env(I, 'E', D, D, P('m:0')), ZERO if s > 0 else ONE, ONE if s > 0 else ZERO, S_], {}))
    for rg in (False, True):
        go('getBoundaryHams:%s' % rg, 'getBoundaryHams', lambda I: ([mps_obj(I, cellD(I), obc=False), _mpo(I)], {'regauge': rg}))
        go('getBoundaryHams:left:%s' % rg, 'getBoundaryHams', lambda I: ([mps_obj(I, cellD(I), position=0, obc=False), _mpo(I)], {'regauge': rg}))
    go('TDVPupdate', 'TDVPupdate', lambda I: ([dens(I, 'r'), uni(I), mpot(I, 'W', P('m:0'), P('m:0'), d, d)], {}))
    go('tangent', 'tangentSpaceHAproduct', lambda I: ([dens(I, 'k'), uni(I), uni(I, 'B'), dens(I, 'c'), tens(I, 'V'), mpot(I, 'W', P('m:0'), P('m:0'), d, d)], {}))
    for f in ('MPSinit', 'MPSinitializer'):
        go(f, f, (lambda I: ([C(3), P('b:D'), P('p:s')], {})) if f == 'MPSinit' else (lambda I: ([Ext('numpy.random.random_sample'), C(3), P('b:D'), P('p:s')], {})))
    go('truncateMPS', 'truncateMPS', lambda I: ([lst(I, cellD(I, 3)), P('b:cap')], {}))
    go('patchmpo', 'patchmpo', lambda I: ([mpoc(I), ONE], {}))
    c.min_ok = 1
    return c


def _mpo(I):
    from . import c12
    return c12.mpo_obj(I, [mpot(I, 'W%d' % k, P('m:0'), P('m:0'), P('p:%d' % k), P('p:%d' % k)) for k in range(2)], False)
