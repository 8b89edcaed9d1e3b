"""The 2vN approach: exactness without interactions, second order with interactions, invariants of the iteration."""

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from .c08 import scales

RULE = ('non-trivial: a current above 1e-6 flows (exactness), or an iteration changes the solution (histories)')
ASSUMPTIONS = [
    'all leads share one band, as the approach documents; the grid resolves level width and temperature',
    'comparison with exact currents: extrapolated to zero grid spacing, allowed error 3e-4 of the level width',
    'dots with coherences between levels are excluded from exactness: the defect of the iteration recorded as known finding',
    'comparison with second order: equal temperatures, extrapolated to zero coupling']


# ---- decoupled levels, exact currents

@st.composite
def exact(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    levels = []
    for i in range(n):
        nl = draw(st.integers(1, 3 if n == 1 else 2))
        levels.append(dict(e=draw(gen.num(-3, 3)), v=[draw(gen.nzcplx(0.45)) for _ in range(nl)]))
    nl = sum(len(x['v']) for x in levels)
    return dict(levels=levels, mu=[draw(gen.num(-2, 2)) for _ in range(nl)],
                T=[draw(gen.num(0.5, 2)) for _ in range(nl)], D=[-draw(gen.num(10, 20, 1)), draw(gen.num(10, 20, 1))],
                py=draw(st.integers(0, 7)) == 0, order=draw(st.permutations(range(nl))),
                indexing=draw(st.sampled_from(['charge', 'charge', 'Lin'])))


def check_exact(ctx, case):
    import qmeq
    lev = case['levels']
    n = len(lev)
    py = case['py'] and n == 1
    owner = [i for i, x in enumerate(lev) for _ in x['v']]
    amps = [gen.cx(*z) for x in lev for z in x['v']]
    nl = len(amps)
    order = case['order']
    owner, amps = [owner[o] for o in order], [amps[o] for o in order]
    # a width below the smallest amplitude of each level keeps the spectral function resolvable on the grid
    width = [2*np.pi*sum(abs(a)**2 for a, o in zip(amps, owner) if o == i) for i in range(n)]
    kpnts = (151, 301) if py else (201, 401)
    D = case['D']
    step = (D[1]-D[0])/(kpnts[1]-1)
    if min(width) < 5*step:
        ctx.skip('level too sharp for the grid')
    I, J = np.zeros(nl), np.zeros(nl)
    occ = np.zeros(n)
    for i in range(n):
        own = [l for l in range(nl) if owner[l] == i]
        a, b, occ[i] = ref.landauer_level(lev[i]['e'], [amps[l] for l in own], [case['mu'][l] for l in own],
                                          [case['T'][l] for l in own], *D)
        I[own], J[own] = a, b
    res = []
    for kp in kpnts:
        s = qmeq.Builder.base(n, {(i, i): lev[i]['e'] for i in range(n)}, {}, nl,
                              {(l, owner[l]): amps[l] for l in range(nl)}, list(case['mu']), list(case['T']),
                              {l: tuple(D) for l in range(nl)}, kerntype='py2vN' if py else '2vN', kpnt=kp,
                              indexing=case['indexing'])
        s.solve(niter=2 if n == 1 else 6)
        ctx.require(s.success, 'the 2vN solution failed')
        if n > 1 and np.abs(s.iters[-1].current-s.iters[-2].current).max() > 1e-5*sum(width):
            ctx.skip('not converged')
        rho = np.diag(common.rho_matrix(s)).real
        res.append((np.array(s.current), np.array(s.energy_current), rho))
    ctx.label('%d levels' % n, '%d leads' % nl, 'Python' if py else 'compiled')
    ctx.nontrivial(np.abs(I).max() > 1e-6)
    G = sum(width)
    # the error is first order in the spacing
    cur = 2*res[1][0]-res[0][0]
    ctx.close(cur, I, 3e-4*G, 'particle currents against the exact ones')
    ctx.close(res[1][1], J, 4e-3*G*(1+max(abs(x['e']) for x in lev)+G), 'energy currents against the exact ones')
    # populations of the product state
    if n == 1:
        want = np.array([1-occ[0], occ[0]])
        ctx.close(res[1][2], want, 0.1*step+2e-3, 'populations against the exact ones')
    else:
        # with energies as labels only the charge populations are unambiguous
        N = common.charges_of(s)
        got = [res[1][2][N == c].sum() for c in range(3)]
        ctx.close(got, [(1-occ[0])*(1-occ[1]), occ[0]*(1-occ[1])+occ[1]*(1-occ[0]), occ[0]*occ[1]], 0.4*step+1e-2,
                  'charge populations against the exact ones')


# ---- interacting levels: agreement with RTD to second order in the rates

GS = (0.5, 0.35, 0.2)


@st.composite
def interacting(draw):
    n = 2
    return dict(e=[draw(gen.num(-3, 2)) for _ in range(n)], U=draw(gen.num(0.5, 4)),
                v=[draw(gen.num(0.75, 1.25)) for _ in range(2*n)], mu=[draw(gen.num(-2, 2)) for _ in range(2*n)],
                order=draw(st.permutations(range(2*n))), py=False)


def second_order_difference(case):
    """Intercepts (g -> 0) of (2vN - RTD)/g^2 for particle and energy currents, and of (2vN - RTD)/g for the populations."""
    import qmeq
    n = 2
    out, conv = [], 0.0
    for g in GS:
        r = []
        for k in ('2vN', 'RTD'):
            tl = {(case['order'][l], l//2): case['v'][l]*np.sqrt(g/2/np.pi) for l in range(2*n)}
            s = qmeq.Builder.base(n, {(i, i): case['e'][i] for i in range(n)}, {(0, 1, 1, 0): case['U']}, 2*n, tl,
                                  list(case['mu']), [1.0]*(2*n), 30.0, kerntype=k, kpnt=601, itype=1)
            if k == '2vN':
                s.solve(niter=5)
                conv = max(conv, np.abs(s.iters[-1].current-s.iters[-2].current).max()/g**2)
            else:
                s.solve()
            if not s.success:
                return None, None, None, np.inf
            r.append((np.array(s.current), np.array(s.energy_current),
                      np.array([s.get_phi0(i, i).real for i in range(4)])))
        out.append((np.concatenate([(r[0][0]-r[1][0])/g**2, (r[0][1]-r[1][1])/g**2, (r[0][2]-r[1][2])/g]), r))
    M = np.vander(GS, 3, increasing=True)
    icept = np.linalg.solve(M, np.array([o[0] for o in out]))[0]
    nl = 2*n
    return icept[:nl], icept[nl:2*nl], icept[2*nl:], conv


def check_interacting(ctx, case):
    dI, dJ, dp, conv = second_order_difference(case)
    if conv > 2e-4:
        ctx.skip('not converged')
    ctx.nontrivial()
    ctx.label('U %s' % ('<2' if case['U'] < 2 else '>=2'), 'order permuted' if case['order'] != sorted(case['order']) else 'order')
    ctx.close(dI, np.zeros_like(dI), 1.2e-2, 'second-order particle current: 2vN minus RTD')
    ctx.close(dJ, np.zeros_like(dJ), 3e-2, 'second-order energy current: 2vN minus RTD')
    ctx.close(dp, np.zeros_like(dp), 5e-2, 'first-order populations: 2vN minus RTD')


# ---- invariants and histories of the iteration

@st.composite
def history(draw):
    spec = draw(gen.system(nmin=1, nmax=2, lmin=1, lmax=3, itypes=(0, 1, 2), D=draw(gen.num(8, 24, 1)), tmin=0.5))
    spec['py'] = draw(st.integers(0, 3)) == 0
    spec['kpnt'] = draw(st.sampled_from([15, 20, 31, 40]))
    spec['parts'] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['symq'] = draw(st.sampled_from([True, True, False]))
    spec['nrow'] = draw(st.integers(0, 3))
    spec['before'] = draw(st.sampled_from(['', '', 'solve', 'kpnt', 'Pauli']))
    spec['rm'] = draw(st.integers(0, 3)) == 0
    spec['after'] = draw(st.sampled_from(['', 'again', 'zero', 'kpnt', 'dband']))
    return spec


def snapshot(s):
    return dict(phi0=np.array(s.phi0), phi1=np.array(s.phi1), current=np.array(s.current),
                energy_current=np.array(s.energy_current), heat_current=np.array(s.heat_current))


def check_history(ctx, spec):
    k = 'py2vN' if spec['py'] else '2vN'
    total = sum(spec['parts'])

    def make(**kw):
        d = dict(kerntype=k, kpnt=spec['kpnt'], indexing=spec['indexing'], symq=spec['symq'], norm_row=spec['nrow'] % 2**spec['n'])
        d.update(kw)
        return gen.build(spec, **d)

    s = make()
    if spec['rm'] and spec['n'] == 2:
        s.solve(masterq=False)
        s.remove_states(0.6*(np.max(s.Ea)-np.min(s.Ea))+0.1)
        s.norm_row = 0
    if spec['before'] == 'solve':
        s.solve(niter=2)
    elif spec['before'] == 'kpnt':
        s.kpnt = 25
        s.solve(niter=1)
        s.kpnt = spec['kpnt']
    elif spec['before'] == 'Pauli' and not spec['rm']:
        s.kerntype = 'Pauli'
        s.solve()
        s.kerntype = k
    seen = []

    def record(appr):
        seen.append((appr.niter, snapshot(appr)))
    try:
        for i, m in enumerate(spec['parts']):
            s.solve(niter=m, restartq=i == 0, func_iter=record)
    except np.linalg.LinAlgError:
        # the local equations of an uncoupled amplitude are singular on a grid point
        ctx.skip('singular local equations')
    ctx.label(k, '%d levels' % spec['n'], '%d iterations' % total, 'before %s' % (spec['before'] or 'nothing'),
              'after %s' % (spec['after'] or 'nothing'))
    if not all(np.isfinite(x[1]['phi1']).all() for x in seen):
        ctx.skip('singular local equations')
    ctx.require(len(seen) == total, lambda: 'func_iter was called %d times in %d iterations' % (len(seen), total))
    ctx.require([x[0] for x in seen] == list(range(total)), 'iteration numbers %s' % [x[0] for x in seen])
    ctx.require(s.niter == total-1, lambda: 'niter is %r after %d iterations' % (s.niter, total))
    ctx.require(len(s.iters) == total, lambda: '%d recorded iterations instead of %d' % (len(s.iters), total))
    for it, (i, snap) in zip(s.iters, seen):
        ctx.require(it.niter == i, 'recorded iteration number %r instead of %d' % (it.niter, i))
        for name, val in snap.items():
            ctx.close(getattr(it, name), val, 0, 'recorded %s of iteration %d' % (name, i))
    for name, val in snapshot(s).items():
        ctx.close(val, seen[-1][1][name], 0, 'reported %s after the last iteration' % name)

    if not s.success:
        ctx.skip('no solution')
    # invariants of every iteration
    G, E = scales(s)
    E += abs(float(spec['D']))
    lo, hi = common.conditioning(s)
    if lo < 1e-8*hi:
        ctx.label('ill-conditioned')
    for i, snap in seen if lo >= 1e-8*hi else []:
        rho = snap['phi0']
        size = max(1, np.abs(rho).max())
        if size > 1e6:
            ctx.skip('iteration diverges')
        # charge conservation is exact: it follows from the equations of the populations
        cur, ecur, heat = snap['current'], snap['energy_current'], snap['heat_current']
        scale = max(np.abs(snap['phi1']).max(initial=0)*np.abs(s.Tba).max(initial=0), G*size)
        ctx.close(cur.sum(), 0.0, (1e-10+1e-13*hi/lo)*scale*(1+1e2*(not s.symq)), 'sum of the particle currents, iteration %d' % i)
        ctx.close(heat, ecur-np.array(s.mulst)*cur, 1e-12*(np.abs(ecur).max()+np.abs(cur).max()*E), 'heat currents')
        # current of phi1: I_l = -2 Im sum_cb Tba[b, c] phi1[cb]
        if i == total-1:
            R = common.rho_matrix(s)
            err = 1e-11*hi/lo*size
            ctx.close(np.trace(R), 1.0, err, 'trace')
            ctx.close(R, R.conj().T, err*10, 'Hermiticity of the density matrix')
            P = common.phi1_matrix(s)
            got = np.array([-2*np.trace(np.where(common.charges_of(s)[:, None] == common.charges_of(s)[None, :]-1, s.Tba[l], 0)
                                        @ P[l]).imag for l in range(s.nleads)])
            ctx.close(got, cur, 1e-12*scale+1e-14, 'currents against the current amplitudes')
    # one go instead of parts
    f = make()
    if spec['rm'] and spec['n'] == 2:
        f.solve(masterq=False)
        f.remove_states(0.6*(np.max(f.Ea)-np.min(f.Ea))+0.1)
        f.norm_row = 0
    f.solve(niter=total)
    a, b = snapshot(s), snapshot(f)
    for name in a:
        ctx.close(a[name], b[name], 1e-12*(np.abs(b[name]).max(initial=0)+1e-9)*(1 if s.symq else 1e3),
                  '%s: parts %s against %d iterations at once' % (name, spec['parts'], total))
    ctx.nontrivial(total > 1 and np.abs(f.iters[-1].phi1-f.iters[-2].phi1).max() > 1e-12)
    # continuing after the comparison
    if spec['after'] == 'again':
        s.solve(niter=total)
        for name in a:
            ctx.close(snapshot(s)[name], b[name], 1e-12*(np.abs(b[name]).max(initial=0)+1e-9)*(1 if s.symq else 1e3),
                      name+' of a restarted calculation')
    elif spec['after'] == 'zero':
        s.solve(niter=0, restartq=False)
        for name in a:
            ctx.close(snapshot(s)[name], a[name], 0, name+' after no further iteration')
        ctx.require(len(s.iters) == total and s.niter == total-1, 'no iteration was requested')
    elif spec['after'] in ('kpnt', 'dband'):
        # documented: a changed grid restarts the calculation
        if spec['after'] == 'kpnt':
            s.kpnt = spec['kpnt']+10
            kw = dict(kpnt=spec['kpnt']+10)
        else:
            s.change(dlst={l: (-float(spec['D'])-4, float(spec['D'])) for l in range(spec['nl'])})
            kw = dict(dband={l: (-float(spec['D'])-4, float(spec['D'])) for l in range(spec['nl'])})
        s.solve(niter=1)
        g = make(**kw)
        if spec['rm'] and spec['n'] == 2:
            g.solve(masterq=False)
            g.remove_states(0.6*(np.max(g.Ea)-np.min(g.Ea))+0.1)
            g.norm_row = 0
        g.solve(niter=1)
        a, b = snapshot(s), snapshot(g)
        for name in a:
            ctx.close(a[name], b[name], 1e-12*(np.abs(b[name]).max(initial=0)+1e-9)*(1 if s.symq else 1e3),
                      name+' after the grid changed')


SUBCHECKS = [
    Sub('exact', exact, check_exact, 100, 800, 'a current above 1e-6 flows', shards=2, tshards=8),
    Sub('interacting', interacting, check_interacting, 20, 120, 'converged', shards=4, tshards=4, threads=2),
    Sub('history', history, check_history, 160, 2000, 'an iteration changes the amplitudes', shards=2, tshards=8),
]
