"""Many-body energies equal the spectrum of the second-quantised Hamiltonian."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from . import c04

RULE = ('non-trivial: the Hamiltonian has at least two different non-zero terms of which one is off-diagonal in the '
        'Fock basis, or an interaction term')
ASSUMPTIONS = ['numpy eigvalsh is correct to 1e-10 of the norm']


def sector_eigs(ham, basis, key):
    """Sorted eigenvalues of ham per value of key(basis state)."""
    out = {}
    labels = [key(b) for b in basis]
    for lab in sorted(set(labels)):
        ix = [i for i, x in enumerate(labels) if x == lab]
        out[lab] = np.linalg.eigvalsh(ham[np.ix_(ix, ix)])
    return out


def offblock(ham, labels):
    lab = np.array(labels)
    return np.abs(np.where(lab[:, None] != lab[None, :], ham, 0)).max(initial=0)


# ------------------------------------------------------------------------------------------------
# general terms, Lin and charge indexing

@st.composite
def terms(draw):
    n = draw(st.integers(1, 5))
    real = draw(st.booleans())
    herm_hs = draw(st.booleans())
    herm_c = draw(st.booleans()) if n > 1 else False
    m_less_n = draw(st.booleans())
    spec = dict(n=n, herm_hs=herm_hs, herm_c=herm_c, m_less_n=m_less_n,
                indexing=draw(st.sampled_from(['Lin', 'charge'])), mreal=real and draw(st.booleans()))
    hs = [[i, i, draw(gen.num(-3, 3)), 0.0] for i in range(n) if draw(st.integers(0, 4))]
    for i, j in itertools.combinations(range(n), 2):
        if draw(st.booleans()):
            z = draw(gen.nzcplx(2, real=real))
            a, b = (i, j) if draw(st.booleans()) else (j, i)
            hs.append([a, b] + z)
            if not herm_hs:
                hs.append([b, a, z[0], -z[1]])
    spec['hs'] = draw(st.permutations(hs)) if hs else []
    co = []
    if n > 1:
        pairs = list(itertools.permutations(range(n), 2))
        seen = set()
        for _ in range(draw(st.integers(0, 6))):
            m, nn = draw(st.sampled_from(pairs))
            kind = draw(st.integers(0, 2))
            if kind == 0:
                k, l = nn, m
            else:
                k, l = draw(st.sampled_from(pairs))
            if herm_c and m_less_n:
                # convention of the options: first label below the second, third above the fourth
                m, nn = min(m, nn), max(m, nn)
                k, l = max(k, l), min(k, l)
            key, conj = (m, nn, k, l), (l, k, nn, m)
            if key in seen or conj in seen:
                continue
            seen.update((key, conj))
            if key == conj:
                co.append(list(key) + [draw(gen.num(-6, 6)), 0.0])
                continue
            z = draw(gen.nzcplx(2, real=real))
            co.append(list(key) + z)
            if not herm_c:
                co.append(list(conj) + [z[0], -z[1]])
    spec['co'] = draw(st.permutations(co)) if co else []
    spec['forms'] = draw(st.sampled_from([[0, 0], [0, 0], [1, 1], [2, 2], [2, 0], [1, 2]]))
    return spec


def as_form(entries, form, n=None):
    """Dictionary, list or array; n: size of the matrix of single-particle elements."""
    if form == 0 or not entries:
        return entries
    if form == 1:
        return [list(k)+[x] for k, x in entries.items()]
    if n is None:
        return np.array([list(k)+[x] for k, x in entries.items()])
    a = np.zeros((n, n), dtype=complex)
    for (i, j), x in entries.items():
        a[j, i] = np.conj(x)
        a[i, j] = x
    return a if a.imag.any() else a.real.copy()


def reference_terms(spec):
    hs, co = gen.hs_dict(spec), gen.co_dict(spec)
    if spec['herm_hs']:
        hs = ref.hermitise_hs(hs)
    if spec['herm_c']:
        co = ref.hermitise_coul(co, spec['m_less_n'])
    return ref.hamiltonian(spec['n'], hs, co)


def check_terms(ctx, spec):
    import qmeq
    f = spec.get('forms', [0, 0])
    s = qmeq.Builder.base(nsingle=spec['n'], hsingle=as_form(gen.hs_dict(spec), f[0], spec['n']),
                          coulomb=as_form(gen.co_dict(spec), f[1]),
                          indexing=spec['indexing'], herm_hs=spec['herm_hs'], herm_c=spec['herm_c'],
                          m_less_n=spec['m_less_n'], mtype_qd=float if spec['mreal'] else complex)
    s.solve(qdq=True, rotateq=False, masterq=False, currentq=False)
    ham = reference_terms(spec)
    if np.abs(ham-ham.conj().T).max() > 1e-9:
        ctx.fail('generator produced a non-Hermitian reference')
    compare_charge(ctx, s, ham, spec['n'])
    nd = np.abs(ham-np.diag(np.diag(ham))).max(initial=0)
    ctx.nontrivial(nd > 0 or spec['co'])
    ctx.label(spec['indexing'], 'n=%d' % spec['n'], 'herm_hs' if spec['herm_hs'] else 'explicit conjugates',
              'herm_c' if spec['herm_c'] else 'explicit c', 'float' if spec['mreal'] else 'complex type')
    ctx.label('forms %s' % ''.join(map(str, f)))
    if any(k < l for _, _, k, l, _, _ in spec['co']):
        ctx.label('unordered labels')
    if np.abs(ham.imag).max(initial=0) > 0:
        ctx.label('complex')


def compare_charge(ctx, s, ham, n, where=''):
    basis = ref.fock(n)
    want = sector_eigs(ham, basis, sum)
    tol = 1e-11*(1+np.abs(ham).sum(axis=1).max())
    E = np.array(s.Ea)
    ctx.require(E.shape == (2**n,), where+'%d energies for %d levels' % (len(E), n))
    N = common.charges_of(s)
    ctx.require((N >= 0).all(), where+'states without charge label')
    for c in range(n+1):
        ctx.close(np.sort(E[N == c]), want[c], tol, where+'energies of charge %d' % c)


# ------------------------------------------------------------------------------------------------
# sz and ssq indexing

@st.composite
def spin(draw, four=False):
    sp = draw(c04.spinful())
    sp['h'] = h = draw(st.integers(1, 2))
    sp = dict(sp)
    big = draw(st.integers(0, 5)) == 0
    real = draw(st.booleans())
    h = 4 if four else 3 if big else h
    sp.update(h=h, hs=draw(gen.hsingle(h, real, 2.0)), nlh=0, tl=[], mu=[], T=[])
    # orbital interaction
    orb = []
    for i in range(h):
        orb.append([i, i, i, i, draw(gen.num(0, 5)), 0.0])
    for i, j in itertools.combinations(range(h), 2):
        if draw(st.booleans()):
            orb.append([i, j, j, i, draw(gen.num(0, 3)), 0.0])
        if draw(st.booleans()):
            orb.append([i, j, i, j, draw(gen.num(-1, 1)), 0.0])
        if draw(st.booleans()):
            z = draw(gen.nzcplx(1, real=real))
            orb.append([i, i, j, j] + z)
    sp['orb'] = [x for x in orb if x[4] or x[5]]
    sp['sym'] = draw(st.booleans())
    sp['herm_c'] = draw(st.booleans())
    sp['indexing'] = draw(st.sampled_from(['sz', 'ssq', 'ssq', 'charge'] if four else ['sz', 'ssq', 'charge', 'Lin']))
    if not sp['sym']:
        if sp['indexing'] != 'ssq':
            sp['B'] = draw(st.lists(gen.num(-2, 2), min_size=h, max_size=h))
            sp['dU'] = draw(st.lists(gen.num(-1, 1), min_size=h, max_size=h))
        else:
            sp['B'], sp['dU'] = [0.0]*h, [0.0]*h
    for k in ('tl', 'mu', 'T', 'D', 'itype', 'k', 'py', 'pol', 'U', 'V', 'J', 'P'):
        sp.pop(k, None)
    return sp


def spin_terms(sp):
    """(hsingle, coulomb) handed to the builder and the complete explicit lists of terms."""
    h = sp['h']
    hs = {(i, j): gen.cx(a, b) for i, j, a, b in sp['hs']}
    orb = {(m, n, k, l): gen.cx(a, b) for m, n, k, l, a, b in sp['orb']}
    full_orb = dict(orb)
    for (m, n, k, l), u in orb.items():
        if m == n and k == l and m != k:
            full_orb[(l, k, n, m)] = np.conj(u)
    full_h = dict(hs)
    for (i, j), v in hs.items():
        full_h[(i+h, j+h)] = v + (sp['B'][i] if not sp['sym'] and i == j else 0)
    canon = {}
    for (m, n, k, l), u in full_orb.items():
        # an orbital element stands for the sum over both spins of d_ms+ d_ns'+ d_ks' d_ls, in which the same
        # operator written twice (both electrons exchanged) counts once
        mine = {}
        for a, b in itertools.product((0, h), repeat=2):
            m1, n1, k1, l1 = m+a, n+b, k+b, l+a
            if m1 == n1 or k1 == l1:
                continue
            sgn = 1
            if m1 > n1:
                m1, n1, sgn = n1, m1, -sgn
            if k1 < l1:
                k1, l1, sgn = l1, k1, -sgn
            mine[(m1, n1, k1, l1)] = sgn*u
        for key, x in mine.items():
            canon[key] = canon.get(key, 0) + x
    return hs, orb, full_h, canon


def check_spin(ctx, sp):
    import qmeq
    h = sp['h']
    n = 2*h
    hs, orb, full_h, canon = spin_terms(sp)
    # Operator of the orbital elements.  (i,i,i,i) gives U n_up n_dn once; (i,j,j,i) gives V n_i n_j; (i,j,i,j) gives
    # the exchange term; (i,i,j,j) the pair hopping.
    d = ref.annihilators(n)
    dim = 2**n
    ham = np.zeros((dim, dim), dtype=complex)
    for (i, j), v in ref.hermitise_hs(full_h).items():
        ham += v*(d[j].T @ d[i])
    up = lambda i, s: d[i+h*s]
    for (m, nn, k, l), u in orb.items():
        if m == nn == k == l:
            ham += u*up(m, 0).T @ up(m, 0) @ up(m, 1).T @ up(m, 1)
        elif m == l and nn == k:
            nm = sum(up(m, s).T @ up(m, s) for s in (0, 1))
            n2 = sum(up(nn, s).T @ up(nn, s) for s in (0, 1))
            ham += u*nm @ n2
        elif m == k and nn == l:
            for s1, s2 in itertools.product((0, 1), repeat=2):
                ham += u*up(m, s1).T @ up(nn, s2).T @ up(m, s2) @ up(nn, s1)
        elif m == nn and k == l:
            t = u*up(m, 0).T @ up(m, 1).T @ up(k, 1) @ up(k, 0)
            ham += t + t.conj().T
    kw = dict(nsingle=n, indexing=sp['indexing'])
    if sp['sym']:
        co = dict(orb)
        if not sp['herm_c']:
            for (m, nn, k, l), u in orb.items():
                if m == nn and k == l and m != k:
                    co[(l, k, nn, m)] = np.conj(u)
        kw.update(hsingle=hs, coulomb=co, symmetry='spin', herm_c=sp['herm_c'])
    else:
        for i in range(h):
            ham += sp['dU'][i]*up(i, 0).T @ up(i, 0) @ up(i, 1).T @ up(i, 1)
        co = {}
        co.update(canon)
        for i in range(h):
            key = (i, i+h, i+h, i)
            co[key] = co.get(key, 0) + sp['dU'][i]
        if sp['herm_c']:
            half, seen = {}, set()
            for (m, nn, k, l), u in co.items():
                if (l, k, nn, m) in seen:
                    continue
                seen.add((m, nn, k, l))
                half[(m, nn, k, l)] = u
            co = half
        kw.update(hsingle=full_h, coulomb=co, herm_c=sp['herm_c'])
    if np.abs(ham-ham.conj().T).max() > 1e-9:
        raise RuntimeError('generator produced a non-Hermitian reference')
    s = qmeq.Builder.base(**kw)
    s.solve(qdq=True, rotateq=False, masterq=False, currentq=False)
    compare_charge(ctx, s, ham, n)
    basis = ref.fock(n)
    if sp['indexing'] in ('sz', 'ssq'):
        E = np.array(s.Ea)
        tol = 1e-10*(1+np.abs(ham).sum(axis=1).max())
        sz, s2 = ref.spin_ops(n)
        N = np.array([sum(b) for b in basis])
        M = np.rint(np.diag(sz)).astype(int)
        for c in range(n+1):
            for m in range(-min(c, n-c), min(c, n-c)+1, 2):
                ix = np.flatnonzero((N == c) & (M == m))
                sub = ham[np.ix_(ix, ix)]
                got = E[list(s.si.get_lst(charge=c, sz=m))]
                if sp['indexing'] == 'sz':
                    ctx.close(np.sort(got), np.linalg.eigvalsh(sub), tol, 'energies of charge %d, sz %d' % (c, m))
                else:
                    w, v = np.linalg.eigh(s2[np.ix_(ix, ix)])
                    two_s = np.rint(np.sqrt(1+4*w)-1).astype(int)
                    for ssq in sorted(set(two_s)):
                        p = v[:, two_s == ssq]
                        ctx.close(np.sort(E[list(s.si.get_lst(charge=c, sz=m, ssq=int(ssq)))]),
                                  np.linalg.eigvalsh(p.conj().T @ sub @ p), tol,
                                  'energies of charge %d, sz %d, total spin %d/2' % (c, m, ssq))
    ctx.nontrivial(len(orb) + len(hs) >= 2)
    ctx.label(sp['indexing'], 'spin symmetry' if sp['sym'] else 'two spin species', '%d orbitals' % h,
              'herm_c' if sp['herm_c'] else 'explicit c')


# ------------------------------------------------------------------------------------------------
# the quantum dot object itself, sector by sector

@st.composite
def sectors(draw):
    if draw(st.booleans()):
        sp = draw(spin())
        if sp['sym']:
            sp['B'], sp['dU'] = [0.0]*sp['h'], [0.0]*sp['h']
        sp['sym'] = False
    else:
        sp = draw(terms())
    sp['all_sz'] = draw(st.booleans())
    # part of the terms come with add() or change()
    sp['late'] = draw(st.lists(st.sampled_from(['add', 'change', 'none']), min_size=1, max_size=3))
    sp['how'] = draw(st.sampled_from(['sector', 'all']))
    return sp


def check_sectors(ctx, sp):
    """Hamiltonian blocks and their eigenstates as the dot object gives them for each sector."""
    import qmeq
    spinful = 'orb' in sp
    if spinful:
        n = 2*sp['h']
        _, _, full_h, canon = spin_terms(sp)
        hs = dict(full_h)
        co = dict(canon)
        for i in range(sp['h']):
            key = (i, i+sp['h'], i+sp['h'], i)
            co[key] = co.get(key, 0)+sp['dU'][i]
        herm_hs, herm_c, m_less_n = True, False, True
        ham = ref.hamiltonian(n, ref.hermitise_hs(hs), co)
    else:
        n = sp['n']
        hs, co = gen.hs_dict(sp), gen.co_dict(sp)
        herm_hs, herm_c, m_less_n = sp['herm_hs'], sp['herm_c'], sp['m_less_n']
        ham = reference_terms(sp)
    if np.abs(ham-ham.conj().T).max() > 1e-9:
        raise RuntimeError('generator produced a non-Hermitian reference')
    from qmeq.indexing import StateIndexing
    from qmeq.qdot import QuantumDot
    si = StateIndexing(n, indexing=sp['indexing'])
    late = sp['late']
    pick = lambda d, i: {k: x for j, (k, x) in enumerate(sorted(d.items())) if late[j % len(late)] == i}
    start_h, start_c = pick(hs, 'none'), pick(co, 'none')
    # changed elements start from something else
    start_h.update({k: 0.5-x if k[0] == k[1] else 0.25*x for k, x in pick(hs, 'change').items()})
    start_c.update({k: 0.5*x for k, x in pick(co, 'change').items()})
    qd = QuantumDot(dict(start_h), dict(start_c), si, herm_hs, herm_c, m_less_n, complex, sp['all_sz'])
    if 'add' in late:
        qd.add(hsingle=pick(hs, 'add'), coulomb=pick(co, 'add'))
    if 'change' in late:
        qd.change(hsingle=pick(hs, 'change'), coulomb=pick(co, 'change'))
    fockix = [int(''.join(map(str, si.get_state(b))), 2) for b in range(2**n)]
    tol = 1e-11*(1+np.abs(ham).sum(axis=1).max())
    _, s2 = ref.spin_ops(n) if n % 2 == 0 else (None, None)
    secs = []
    if sp['indexing'] in ('sz', 'ssq'):
        for c in range(n+1):
            top = min(c, n-c)
            for k, m in enumerate(range(-top, top+1, 2)):
                have = sp['indexing'] == 'sz' or sp['all_sz'] or m == -(c % 2)
                secs.append(((c, m), qd.hamlst[c][k] if have else False))
    else:
        secs = [((c,), qd.hamlst[c]) for c in range(n+1)]
    for lab, got in secs:
        f = [fockix[b] for b in si.get_lst(*lab)]
        if got is not False:
            ctx.require(got is not None, 'there is no Hamiltonian of the sector (charge, sz) = %s' % (lab,))
            ctx.close(got, ham[np.ix_(f, f)], tol, 'Hamiltonian of the sector (charge, sz) = %s' % (lab,))
    if sp['how'] == 'all':
        qd.diagonalise()
    for lab, _ in secs:
        f = [fockix[b] for b in si.get_lst(*lab)]
        H = ham[np.ix_(f, f)]
        S = s2[np.ix_(f, f)] if s2 is not None else None
        parts = [()]
        if sp['indexing'] == 'ssq':
            two_s = np.rint(np.sqrt(1+4*np.linalg.eigvalsh(S))-1).astype(int)
            parts = [(int(x),) for x in sorted(set(two_s))]
        count = 0
        for p in parts:
            if sp['how'] == 'all':
                k = [lab[0]]
                if len(lab) > 1:
                    k.append((lab[1]+min(lab[0], n-lab[0]))//2)
                k += [(x-abs(lab[1]))//2 for x in p]
                vals, vecs = qd.valslst, qd.vecslst
                for i in k:
                    vals, vecs = vals[i], vecs[i]
            else:
                vals, vecs = qd.diagonalise_charge(*(lab+p))
            vals, vecs = np.array(vals), np.array(vecs)
            where = ' of the sector %s' % (lab+p,)
            ctx.require(vecs.shape == (len(f), len(vals)), 'shape of the eigenvectors'+where)
            ctx.close(vecs.conj().T @ vecs, np.eye(len(vals)), 1e-11*2**n, 'scalar products of the eigenvectors'+where)
            ctx.close(H @ vecs, vecs*vals, 10*tol, 'H times the eigenvectors'+where)
            if p:
                ctx.close(S @ vecs, vecs*(p[0]/2*(p[0]/2+1)), 1e-10*2**n, 'S^2 times the eigenvectors'+where)
            count += len(vals)
        ctx.require(count == len(f), 'number of eigenstates of the sector %s' % (lab,))
    ctx.nontrivial(len(hs)+len(co) >= 2)
    ctx.label(sp['indexing'], 'spinful' if spinful else 'n=%d' % n, sp['how'], *('terms: '+x for x in set(late)))


SUBCHECKS = [
    Sub('terms', terms, check_terms, 6000, 80000,
        'random lists of terms, 1-5 levels, any label order, all completion options, Lin and charge indexing',
        shards=6, tshards=16),
    Sub('spin', spin, check_spin, 2000, 30000,
        'spin-conserving Hamiltonians with 1-3 orbitals, with and without the symmetry option, in all indexings; '
        'energies compared per (charge, sz, total spin) sector', shards=6, tshards=16),
    Sub('four_orbitals', lambda: spin(True), check_spin, 48, 1000,
        'the same with four orbitals (256 states, total spins up to 2)', shards=6, tshards=16),
    Sub('sectors', sectors, check_sectors, 1500, 20000,
        'the dot object alone: Hamiltonian blocks after add/change and eigenpairs of every sector, diagonalised one by '
        'one or together', shards=6, tshards=16),
]
