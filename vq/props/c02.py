"""Many-body tunnelling and phonon amplitudes represent the given couplings."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from . import c04

RULE = 'non-trivial: at least two levels and two non-zero amplitudes'
ASSUMPTIONS = ['numpy dense linear algebra is correct',
               'mixed traces of up to four operators decide equality up to a unitary mapping of eigenbases']


@st.composite
def fock(draw):
    n = draw(st.integers(1, 5))
    nl = draw(st.integers(1, 3))
    nb = draw(st.integers(0, 2))
    spec = dict(n=n, nl=nl, nb=nb, tl=draw(gen.tunnel(n, nl, draw(st.booleans()), 2.0)),
                indexing=draw(st.sampled_from(['Lin', 'charge', 'sz', 'ssq'] if n % 2 == 0 else ['Lin', 'charge'])))
    v = []
    for b in range(nb):
        for i, j in itertools.product(range(n), repeat=2):
            if draw(st.booleans()):
                v.append([b, i, j] + draw(gen.nzcplx(2)))
    spec['v'] = v
    return spec


def vdict(spec):
    return {(b, i, j): gen.cx(x, y) for b, i, j, x, y in spec['v']}


def builder(spec, **kw):
    import qmeq
    if spec.get('nb'):
        nb = spec['nb']
        return qmeq.Builder.elph(nbaths=nb, velph=vdict(spec), tlst_ph={b: 1.0 for b in range(nb)},
                                 dband_ph={b: 50.0 for b in range(nb)}, **kw)
    return qmeq.Builder.base(**kw)


def check_fock(ctx, spec):
    n, nl = spec['n'], spec['nl']
    s = builder(spec, nsingle=n, nleads=nl, tleads=gen.tl_dict(spec), indexing=spec['indexing'],
                mulst={l: 0.0 for l in range(nl)}, tlst={l: 1.0 for l in range(nl)}, dband=50.0)
    ix = [int(''.join(map(str, s.si.get_state(b))), 2) for b in range(len(s.Ea))]
    T = ref.tunneling(n, nl, gen.tl_dict(spec))[:, ix][:, :, ix]
    ctx.close(s.Tba, T, 1e-13, 'amplitudes between Fock states')
    if spec['nb']:
        V = ref.phonon_coupling(n, spec['nb'], vdict(spec))[:, ix][:, :, ix]
        ctx.close(s.Vbbp, V, 1e-12, 'phonon amplitudes between Fock states')
    ctx.nontrivial(n >= 2 and len(spec['tl']) >= 2)
    ctx.label(spec['indexing'], 'n=%d' % n, 'phonons' if spec['nb'] else 'no phonons')


# ------------------------------------------------------------------------------------------------

@st.composite
def eigen(draw):
    n = draw(st.integers(1, 4))
    nl = draw(st.integers(1, 3))
    real = draw(st.booleans())
    nb = draw(st.sampled_from([0, 0, 1, 2]))
    spec = dict(n=n, nl=nl, nb=nb, hs=draw(gen.hsingle(n, real, 2.0)), co=draw(gen.coulomb(n, real, 3.0)) if n > 1 else [],
                tl=draw(gen.tunnel(n, nl, real, 1.0)), indexing=draw(st.sampled_from(['Lin', 'charge'])),
                mreal=real and draw(st.booleans()))
    v = []
    for b in range(nb):
        for i, j in itertools.product(range(n), repeat=2):
            if draw(st.booleans()):
                v.append([b, i, j] + draw(gen.nzcplx(1)))
    spec['v'] = v
    return spec


def traces(E, N, ops_up, ops_v, s1=0.31, s2=0.17):
    """Basis-independent mixed traces per charge sector.  E: energies or Hamiltonian in its eigenbasis."""
    w1 = np.exp(-s1*E)
    w2 = np.exp(-s2*E)
    out = []
    cs = sorted(set(N))
    P = [N == c for c in cs]
    A, B = w1[:, None], w2[:, None]
    nl = len(ops_up)
    res = []
    # pairs: e^{-s1 H} T_l^+ e^{-s2 H} T_k resolved by the charge of the initial state
    pair = {}
    for l, k in itertools.product(range(nl), repeat=2):
        M = (A*ops_up[l].conj().T) @ (B*ops_up[k])
        pair[l, k] = M
        d = np.diag(M)
        res += [d[p].sum() for p in P]
    for (l, k), M in pair.items():
        # with a second energy weight on the outside
        d = np.diag(M)*w2
        res += [d[p].sum() for p in P]
        for (l2, k2), M2 in pair.items():
            d = np.einsum('ij,ji->i', M, M2)
            res += [d[p].sum() for p in P]
    # chains through two charges: T_l^+ T_k^+ T_m T_n
    for l, k, m, o in itertools.product(range(nl), repeat=4):
        X = (A*ops_up[l].conj().T) @ (B*ops_up[k].conj().T)
        Y = (A*ops_up[m]) @ (B*ops_up[o])
        d = np.einsum('ij,ji->i', X, Y)
        res += [d[p].sum() for p in P]
    for b in range(len(ops_v)):
        d = w1*np.diag(ops_v[b])
        res += [d[p].sum() for p in P]
        for c in range(len(ops_v)):
            d = np.einsum('ij,ji->i', A*ops_v[b], B*ops_v[c])
            res += [d[p].sum() for p in P]
        for (l, k), M in pair.items():
            d = np.einsum('ij,ji->i', B*ops_v[b], M)
            res += [d[p].sum() for p in P]
            d = np.einsum('ij,ji->i', (B*ops_v[b]) @ ops_v[b].conj().T, M)
            res += [d[p].sum() for p in P]
    return np.array(res)


def reference_ops(n, ham, T, V):
    """Reference energies, charges and operators in an eigenbasis of the reference Hamiltonian."""
    N = ref.charges(n)
    E = np.zeros(2**n)
    W = np.zeros((2**n, 2**n), dtype=complex)
    for c in range(n+1):
        ix = np.flatnonzero(N == c)
        w, v = np.linalg.eigh(ham[np.ix_(ix, ix)])
        E[ix] = w
        W[np.ix_(ix, ix)] = v
    rot = lambda X: np.array([W.conj().T @ x @ W for x in X]) if len(X) else np.zeros((0, 2**n, 2**n))
    return E, N, rot(T), rot(V)


def structure(ctx, s, N, where=''):
    T = np.array(s.Tba)
    sc = 1e-12*(1+np.abs(T).max(initial=0))
    ctx.close(T, T.conj().transpose(0, 2, 1), sc, where+'amplitudes are not Hermitian')
    bad = np.abs(N[:, None]-N[None, :]) != 1
    ctx.require(np.abs(T[:, bad]).max(initial=0) <= sc, where+'amplitudes between charges that do not differ by one')
    if hasattr(s, 'Vbbp'):
        V = np.array(s.Vbbp)
        bad = N[:, None] != N[None, :]
        ctx.require(np.abs(V[:, bad]).max(initial=0) <= 1e-11, where+'phonon amplitudes between different charges')


def compare_eigen(ctx, s, n, ham, T, V, where=''):
    N = common.charges_of(s)
    structure(ctx, s, N, where)
    rE, rN, rT, rV = reference_ops(n, ham, T, V)
    up = np.where((N[:, None] == N[None, :]+1)[None], np.array(s.Tba), 0)
    rup = np.where((rN[:, None] == rN[None, :]+1)[None], rT, 0)
    E0 = rE.min()
    got = traces(np.array(s.Ea)-E0, N, up, np.array(s.Vbbp) if len(V) else [])
    want = traces(rE-E0, rN, rup, rV)
    scale = 1e-10*2**n*(1+np.abs(rT).max(initial=0))**4*(1+np.abs(rV).max(initial=0))**2*(1+np.abs(rE).max())
    ctx.close(got, want, scale, where+'mixed traces of energies and amplitudes')
    # elements between non-degenerate states are fixed up to their phase
    same = lambda e: np.abs(e[:, None]-e[None, :])
    rmap = {}
    order_r = [np.flatnonzero(rN == c)[np.argsort(rE[rN == c], kind='stable')] for c in sorted(set(rN))]
    order_s = [np.flatnonzero(N == c)[np.argsort(np.array(s.Ea)[N == c], kind='stable')] for c in sorted(set(N))]
    i_r, i_s = np.concatenate(order_r), np.concatenate(order_s)
    Er = rE[i_r]
    gap = np.where((rN[i_r][:, None] == rN[i_r][None, :]) & ~np.eye(len(Er), dtype=bool), same(Er), np.inf).min(axis=1)
    ok = gap > 1e-3
    pairs = ok[:, None] & ok[None, :]
    tol = 1e-8*(1+np.abs(rT).max(initial=0))*(1+np.abs(rE).max())
    ctx.close(np.abs(np.array(s.Tba)[:, i_s][:, :, i_s])*pairs, np.abs(rT[:, i_r][:, :, i_r])*pairs, tol,
              where+'magnitudes of amplitudes between non-degenerate eigenstates')
    if len(V):
        ctx.close(np.abs(np.array(s.Vbbp)[:, i_s][:, :, i_s])*pairs, np.abs(rV[:, i_r][:, :, i_r])*pairs,
                  1e-8*(1+np.abs(rV).max(initial=0))*(1+np.abs(rE).max()),
                  where+'magnitudes of phonon amplitudes between non-degenerate eigenstates')
    if not ok.all():
        ctx.label('degenerate')


def check_eigen(ctx, spec):
    n, nl = spec['n'], spec['nl']
    s = builder(spec, nsingle=n, hsingle=gen.hs_dict(spec), coulomb=gen.co_dict(spec), nleads=nl,
                tleads=gen.tl_dict(spec), indexing=spec['indexing'], mulst={l: 0.0 for l in range(nl)},
                tlst={l: 1.0 for l in range(nl)}, dband=50.0,
                mtype_qd=float if spec['mreal'] else complex, mtype_leads=float if spec['mreal'] else complex)
    s.solve(masterq=False)
    ham = ref.hamiltonian(n, ref.hermitise_hs(gen.hs_dict(spec)), gen.co_dict(spec))
    compare_eigen(ctx, s, n, ham, ref.tunneling(n, nl, gen.tl_dict(spec)),
                  ref.phonon_coupling(n, spec['nb'], vdict(spec)) if spec['nb'] else np.zeros((0, 2**n, 2**n)))
    ctx.nontrivial(n >= 2 and len(spec['tl']) >= 2)
    ctx.label(spec['indexing'], 'n=%d' % n, 'phonons' if spec['nb'] else 'no phonons',
              'float' if spec['mreal'] else 'complex type')


# ------------------------------------------------------------------------------------------------

@st.composite
def spin(draw):
    sp = draw(c04.spinful(big=True))
    sp['indexing'] = draw(st.sampled_from(['sz', 'ssq', 'sz', 'ssq', 'charge']))
    if sp['indexing'] == 'ssq':
        sp['sym'] = True
    if not sp['sym']:
        sp.setdefault('B', 0.5)
        sp.setdefault('pol', 0.75)
    h = sp['h']
    sp['v'] = []
    sp['nb'] = draw(st.sampled_from([0, 1]))
    for b in range(sp['nb']):
        for i, j in itertools.product(range(h), repeat=2):
            if draw(st.booleans()):
                sp['v'].append([b, i, j] + draw(gen.nzcplx(1)))
    return sp


def check_spin(ctx, sp):
    h, nlh, nb = sp['h'], sp['nlh'], sp['nb']
    n, nl = 2*h, 2*nlh
    kw = c04.spin_kwargs(sp)
    full = dict(sp, sym=False, B=sp.get('B', 0.0) if not sp['sym'] else 0.0,
                pol=sp.get('pol', 1.0) if not sp['sym'] else 1.0)
    fkw = c04.spin_kwargs(full)
    v = vdict(sp)
    vfull = {(b, i+o, j+o): x for (b, i, j), x in v.items() for o in (0, h)}
    if sp['sym']:
        s = builder(dict(nb=nb, v=sp['v']), indexing=sp['indexing'], **kw)
    else:
        s = builder(dict(nb=nb, v=[[b, i, j, complex(x).real, complex(x).imag] for (b, i, j), x in vfull.items()]),
                    indexing=sp['indexing'], **kw)
    s.solve(masterq=False)
    ham = ref.hamiltonian(n, ref.hermitise_hs(fkw['hsingle']), fkw['coulomb'])
    compare_eigen(ctx, s, n, ham, ref.tunneling(n, nl, fkw['tleads']),
                  ref.phonon_coupling(n, nb, vfull) if nb else np.zeros((0, 2**n, 2**n)))
    ctx.nontrivial(h >= 2 and len(sp['tl']) >= 2)
    ctx.label(sp['indexing'], 'spin symmetry' if sp['sym'] else 'two spin species', '%d orbitals' % h,
              'phonons' if nb else 'no phonons')


# ------------------------------------------------------------------------------------------------
# the interface of the couplings: explicit rotations, Fock basis, replaced couplings

@st.composite
def interface(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 4]))
    nl = draw(st.sampled_from([2, 2, 4]) if n % 2 == 0 else st.integers(1, 3))
    idx = draw(st.sampled_from(['Lin', 'charge', 'sz', 'ssq'] if n % 2 == 0 else ['Lin', 'charge']))
    real = draw(st.booleans())
    spec = dict(n=n, nl=nl, nb=draw(st.integers(0, 2)), indexing=idx, mreal=real and draw(st.booleans()))
    h, hl = n//2, nl//2
    spin = idx in ('sz', 'ssq')

    def leads():
        if not spin:
            return draw(gen.tunnel(n, nl, real, 1.0))
        tl = draw(gen.tunnel(h, hl, real, 1.0))
        return tl+[[l+hl, i+h, a, b] for l, i, a, b in tl]

    def phonons():
        m, out = (h if spin else n), []
        for b in range(spec['nb']):
            for i, j in itertools.product(range(m), repeat=2):
                if draw(st.booleans()):
                    z = draw(gen.nzcplx(1, real=spec['mreal']))
                    out += [[b, i+o, j+o] + z for o in ((0, h) if spin else (0,))]
        return out

    if spin:
        hs = draw(gen.hsingle(h, real, 2.0))
        spec['hs'] = hs+[[i+h, j+h, a, b] for i, j, a, b in hs]
        u = draw(gen.num(0, 4))
        spec['co'] = [[i, i+h, i+h, i, u, 0.0] for i in range(h)]
    else:
        spec['hs'] = draw(gen.hsingle(n, real, 2.0))
        spec['co'] = draw(gen.coulomb(n, real, 3.0)) if n > 1 else []
    spec['tl'], spec['tl2'] = leads(), leads()
    spec['v'], spec['v2'] = phonons(), phonons()
    spec['fock'] = draw(st.lists(st.integers(0, 2**n-1), max_size=3)) if idx != 'ssq' and draw(st.booleans()) else []
    spec['steps'] = draw(st.lists(st.sampled_from(['Lin', 'own', 'none', 'fock', 'replace', 'solve']), min_size=1,
                                  max_size=5))
    return spec


def check_interface(ctx, spec):
    n, nl, nb = spec['n'], spec['nl'], spec['nb']
    typ = float if spec['mreal'] else complex
    s = builder(spec, nsingle=n, hsingle=gen.hs_dict(spec), coulomb=gen.co_dict(spec), nleads=nl,
                tleads=gen.tl_dict(spec), indexing=spec['indexing'], mulst={l: 0.0 for l in range(nl)},
                tlst={l: 1.0 for l in range(nl)}, dband=50.0, mtype_qd=typ, mtype_leads=typ)
    if spec['fock'] and len(set(spec['fock'])) < 2**n:
        s.remove_fock_states(sorted(set(spec['fock'])))
    s.solve(masterq=False)
    nmany = len(s.Ea)
    ix = [int(''.join(map(str, s.si.get_state(b))), 2) for b in range(nmany)]
    # eigenvectors in the order of the states, from the documented lists of the indexing
    N = common.charges_of(s)
    tl, v = gen.tl_dict(spec), vdict(spec)

    def expected(tl, v):
        T = ref.tunneling(n, nl, tl)[:, ix][:, :, ix]
        V = ref.phonon_coupling(n, nb, v)[:, ix][:, :, ix] if nb else np.zeros((0, nmany, nmany))
        return T, V

    ham = ref.hamiltonian(n, ref.hermitise_hs(gen.hs_dict(spec)), gen.co_dict(spec))[np.ix_(ix, ix)]
    P = eigenvectors(s, nmany)
    ctx.close(P.conj().T @ P, np.eye(nmany), 1e-10, 'scalar products of the eigenvectors')
    ctx.close(ham @ P, P*np.array(s.Ea), 1e-10*(1+np.abs(ham).sum()), 'H times the eigenvectors')

    def compare(basis, where):
        T, V = expected(tl, v)
        ctx.close(s.leads.Tba0, T, 1e-12, where+'amplitudes kept for the Fock basis')
        if basis == 'eigen':
            T, V = [np.array([P.conj().T @ x @ P for x in X]).reshape(X.shape) for X in (T, V)]
        ctx.close(s.leads.Tba, T, 1e-10, where+'amplitudes')
        if nb:
            ctx.close(s.baths.Vbbp, V, 1e-10, where+'phonon amplitudes')

    compare('eigen', '')
    for i, step in enumerate(spec['steps']):
        where = 'after %s: ' % spec['steps'][:i+1]
        objs = [s.leads]+([s.baths] if nb else [])
        if step == 'solve':
            s.solve(masterq=False)
            P = eigenvectors(s, nmany)
            basis = 'eigen'
        elif step == 'fock':
            s.leads.use_Tba0()
            if nb:
                s.baths.use_Vbbp0()
            basis = 'fock'
        else:
            if step == 'replace':
                tl = {(l, k): gen.cx(a, b) for l, k, a, b in spec['tl2']} 
                v = {(b, k, j): gen.cx(x, y) for b, k, j, x, y in spec['v2']}
                s.leads.update_Tba0(nl, dict(tl), typ)
                if nb:
                    s.baths.update_Vbbp0(nb, dict(v), typ)
            for o in objs:
                if step == 'Lin':
                    o.rotate(s.qd.vecslst, indexing='Lin')
                else:
                    o.rotate(s.qd.vecslst)
            basis = 'eigen'
        compare(basis, where)
    ctx.nontrivial(n >= 2 and len(spec['tl']) >= 2 and np.abs(P-np.diag(np.diag(P))).max() > 1e-6)
    ctx.label(spec['indexing'], 'n=%d' % n, 'phonons' if nb else 'no phonons', 'float' if spec['mreal'] else 'complex type',
              'Fock states removed' if nmany < 2**n else 'all Fock states', *set(spec['steps']))


def eigenvectors(s, nmany):
    """Matrix of eigenvectors in the Fock basis, from the eigenvectors of the sectors."""
    si, vecs = s.si, s.qd.vecslst
    P = np.zeros((nmany, nmany), dtype=complex)
    for c in range(si.ncharge):
        if si.indexing not in ('sz', 'ssq'):
            rows = cols = si.get_lst(c)
            P[np.ix_(rows, cols)] = vecs[c]
            continue
        top = min(c, si.nsingle-c)
        for k, m in enumerate(range(-top, top+1, 2)):
            rows = si.get_lst(charge=c, sz=m)
            if si.indexing == 'sz':
                P[np.ix_(rows, rows)] = vecs[c][k]
            else:
                for q, x in enumerate(range(abs(m), top+1, 2)):
                    P[np.ix_(rows, si.get_lst(charge=c, sz=m, ssq=x))] = vecs[c][k][q]
    return P


SUBCHECKS = [
    Sub('fock', fock, check_fock, 4000, 50000,
        'random couplings of 1-5 levels, 1-3 leads, up to 2 phonon baths: every Fock-basis element', shards=4,
        tshards=16),
    Sub('eigen', eigen, check_eigen, 3000, 50000,
        'random dots of 1-4 levels after diagonalisation: mixed traces, structure, magnitudes', shards=6, tshards=16),
    Sub('spin', spin, check_spin, 1200, 20000,
        'spinful dots in sz/ssq/charge indexing after diagonalisation', shards=6, tshards=16),
    Sub('interface', interface, check_interface, 1000, 16000,
        'element by element with the reported eigenvectors, after rotations with a given indexing, use of the Fock '
        'basis, replaced couplings and removed Fock states', shards=4, tshards=16),
]
