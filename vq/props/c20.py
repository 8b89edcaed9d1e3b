"""Accessors, sorting and printing report the solved system faithfully."""

import contextlib
import copy
import io
import os
import re
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from . import c04, c14
from .c12 import model_of
from .c14 import Kept, copy_ctx, valid_norm

RULE = ('non-trivial: a sort order different from the original one was in effect and the solved system has a coherence, '
        'a current or at least four states')
ASSUMPTIONS = ['printed numbers are the shortest representation that reads back exactly',
               'properties of states are computed from the printed eigenvectors']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']
SECOND = ['2vN', 'RTD']


# ---- reading printed states

HEAD = re.compile(r'Sorted label: (\d+)\nOriginal label: (\d+)\nCharge: (\d+)\n'
                  r'(?:S\^2 \[in units of 1/2\]: (-?\d+)\n)?(?:S\^z \[in units of 1/2\]: (-?\d+)\n)?'
                  r'(?:S\^2 \[in units of 1/2\]: (-?\d+)\n)?'
                  r'Energy: (\S+)\nEigenstate coefficients:')
COEF = re.compile(r'\n    \|([01]+)>: (\S+)')


def number(ctx, text):
    try:
        return complex(text)
    except ValueError:
        ctx.fail('a printed number cannot be read: %r' % text)


class Printed(object):
    def __init__(self, ctx, text, what):
        m = HEAD.match(text)
        ctx.require(m is not None, lambda: what+'unexpected layout:\n'+text)
        self.label, self.orig, self.charge = (int(x) for x in m.groups()[:3])
        ssq1, sz, ssq2, e = m.groups()[3:]
        self.sz = None if sz is None else int(sz)
        ssq = ssq1 if ssq1 is not None else ssq2
        self.ssq = None if ssq is None else int(ssq)
        self.energy = number(ctx, e).real
        self.coeffs = []
        pos = m.end()
        while True:
            c = COEF.match(text, pos)
            if c is None:
                break
            self.coeffs.append((c.group(1), number(ctx, c.group(2))))
            pos = c.end()
        ctx.require(text[pos:].strip() == '', lambda: what+'unexpected layout:\n'+text)

    def vector(self, n):
        v = np.zeros(2**n, dtype=complex)
        for k, z in self.coeffs:
            v[int(k, 2)] += z
        return v

    def charges(self):
        return set(k.count('1') for k, _ in self.coeffs)


def capture(f, *a, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **kw)
    return out.getvalue()


# ---- generator

def sort_op(draw, nprop):
    props = draw(st.permutations(range(nprop)))
    props = list(props)[:draw(st.sampled_from([0]+2*list(range(1, nprop+1))))]
    return ['sort', props, draw(st.sampled_from(['list', 'list', 'tuple', 'array'])) if props else 'none']


@st.composite
def ops(draw, kinds, nprop, maxlen=6):
    out = [sort_op(draw, nprop)] if draw(st.integers(0, 3)) else [['solve', 0]]
    for _ in range(draw(st.integers(2, maxlen))):
        k = draw(st.sampled_from(kinds+['sort', 'sort', 'sort']))
        out.append(sort_op(draw, nprop) if k == 'sort' else [k, draw(st.integers(1, 63))])
    if draw(st.integers(0, 3)):
        out.append(sort_op(draw, nprop))
    return out


@st.composite
def history(draw, second=False, elph=False):
    spec = draw(gen.system(nmin=draw(st.sampled_from([2, 2, 2, 1])), nmax=2 if second else 3, lmax=2, itypes=(1, 2, 3) if not second else (1,), D=30.0,
                           equal_T=second, real=True if second else None, tmin=0.5 if second else 0.25))
    spec['real'] = second
    fam = SECOND if second else BASE
    spec['k'] = draw(st.sampled_from(['', '', 'py']))+draw(st.sampled_from(fam))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin'])) if not second else 'charge'
    if elph:
        spec['ph'] = draw(gen.phonons(spec['n']))
    kinds = ['rmstates', 'all', 'solve', 'solve', 'solve', 'hs', 'mu', 'k', 'fock']
    if not second:
        kinds += ['rmcoh', 'rmcoh', 'norm', 'symq']
    spec['ops'] = draw(ops(kinds, 2))
    spec['out'] = draw(outputs())
    return spec


@st.composite
def outputs(draw):
    return dict(eps=draw(st.sampled_from([0.0, 0.0, 1e-12, 0.05, 0.3, 0.7, 1.1])),
                sep=draw(st.sampled_from(['', '\n', '---\n', 'state: '])), mode=draw(st.sampled_from(['w', 'a', 'default'])),
                pick=draw(st.integers(0, 63)), old=draw(st.booleans()))


@st.composite
def spin(draw):
    sp = draw(c04.spinful(big=True))
    if sp['itype'] == 0:
        sp['itype'] = 2
    if draw(st.booleans()):
        # values without accidental degeneracies between multiplets
        sp['indexing'] = draw(st.sampled_from(['sz', 'ssq']))
        sp['sym'] = sp['sym'] or sp['indexing'] == 'ssq'
    sp['nl'], sp['n'] = 2*sp['nlh'], 2*sp['h']
    sp['k'] = ('py' if sp['py'] else '')+sp['k']
    kinds = ['rmstates', 'rmcoh', 'all', 'solve', 'solve', 'k', 'norm', 'symq']
    if not sp['sym']:
        kinds += ['fock', 'mu']
    sp['ops'] = draw(ops(kinds, {'sz': 3, 'ssq': 4}.get(sp['indexing'], 2), 5))
    sp['out'] = draw(outputs())
    return sp


def build(spec):
    if 'hs' in spec and 'h' in spec:
        return c04.spin_build(spec, kerntype=spec['k'], indexing=spec['indexing'])
    kw = dict(kpnt=24) if common.base_kerntype(spec['k']) in SECOND else {}
    if spec.get('ph'):
        return gen.build_elph(spec, spec['ph'], spec['k'], indexing=spec['indexing'], **kw)
    return gen.build(spec, kerntype=spec['k'], indexing=spec['indexing'], **kw)


def hamiltonian(spec, m):
    """Reference Hamiltonian in the Fock basis (integer of the occupations as the index), with its removed states."""
    if 'h' in spec:
        kw = c04.spin_kwargs(dict(spec, sym=False, B=spec.get('B', 0.0) if not spec['sym'] else 0.0,
                                  pol=spec.get('pol', 1.0) if not spec['sym'] else 1.0))
        hs, co = kw['hsingle'], kw['coulomb']
    else:
        hs, co = m['hsingle'], m['coulomb']
    H = ref.hamiltonian(spec['n'], ref.hermitise_hs(hs), co)
    gone = spec.get('gone', [])
    H[gone] = 0
    H[:, gone] = 0
    return H


# ---- checks

def properties(ctx, s, spec, printed, m, what):
    """Properties of the states with original labels, from the printed eigenvectors.  Checks energies, charge, spin."""
    n = spec['n']
    H = hamiltonian(spec, m)
    scale = 1+np.abs(H).max()
    V = np.array([p.vector(n) for p in printed]).T
    ctx.close(V.conj().T @ V, np.eye(len(printed)), 1e-10, what+'printed eigenvectors are not orthonormal')
    E = np.array([p.energy for p in printed])
    ctx.close(H @ V, V*E, 1e-9*scale, what+'printed eigenvectors do not belong to the printed energies')
    gone = spec.get('gone', [])
    ctx.close(V[gone], np.zeros((len(gone), V.shape[1])), 1e-12, what+'components of removed Fock states')
    Nop = np.array([bin(i).count('1') for i in range(2**n)])
    props = [E, np.real(np.einsum('ij,i,ij->j', V.conj(), Nop, V))]
    ctx.close(Nop[:, None]*V, V*np.array([p.charge for p in printed]), 1e-10, what+'printed charge')
    if s.si.indexing in ('sz', 'ssq'):
        Sz, S2 = ref.spin_ops(n)[:2]
        Sz = np.diag(Sz)
        sz = np.array([p.sz for p in printed])
        ctx.require(all(p.sz is not None for p in printed), what+'no spin projection printed')
        ctx.close(Sz[:, None]*V, V*sz, 1e-10, what+'printed spin projection')
        props.append(sz)
        if s.si.indexing == 'ssq':
            ctx.require(all(p.ssq is not None for p in printed), what+'no total spin printed')
            ssq = np.array([p.ssq for p in printed])
            ctx.close(S2 @ V, V*(ssq/2*(ssq/2+1)), 1e-9, what+'printed total spin')
            props.append(ssq)
    for p in printed:
        ctx.require(p.charges() <= {p.charge}, what+'Fock states of another charge are printed')
        size = [abs(z) for _, z in p.coeffs]
        ctx.require(all(a >= b-1e-12 for a, b in zip(size[:-1], size[1:])), what+'coefficients are not in decreasing order')
        ctx.require(len(set(k for k, _ in p.coeffs)) == len(p.coeffs), what+'a Fock state is printed twice')
    return props


def print_all(ctx, s, what):
    out = []
    for b in range(s.si.nmany):
        p = Printed(ctx, capture(s.print_state, b), what)
        ctx.require(p.label == b, lambda: what+'sorted label %d instead of %d' % (p.label, b))
        out.append(p)
    order = [p.orig for p in out]
    ctx.require(sorted(order) == list(range(s.si.nmany)), lambda: what+'original labels %s' % order)
    for p in out:
        ctx.require(p.energy == s.Ea[p.orig], what+'printed energy is not the energy of the state')
    return out, order


def files(ctx, s, spec, what):
    """Files and the cut of small coefficients."""
    o = spec['out']
    eps, sep = o['eps'], o['sep']
    n = s.si.nmany
    with tempfile.TemporaryDirectory(dir='.') as d:
        path = os.path.join(d, 'states.txt')
        old = 'earlier content\n'
        if o['old']:
            with open(path, 'w') as f:
                f.write(old)
        kw = {} if o['mode'] == 'default' else dict(mode=o['mode'])
        text = capture(s.print_all_states, path, eps, sep, **kw)
        ctx.require(text == '', what+'print_all_states writes to the screen')
        with open(path) as f:
            got = f.read()
        want = old if o['old'] and o['mode'] == 'a' else ''
        want += ''.join(capture(s.print_state, b, eps, separator=sep) for b in range(n))
        ctx.require(got == want, lambda: what+'file\n%s\nagainst the states\n%s' % (got, want))
        b = o['pick'] % n
        full = Printed(ctx, capture(s.print_state, b), what)
        one = capture(s.print_state, b, eps, separator=sep)
        ctx.require(one.startswith(sep), what+'no separator')
        cut = Printed(ctx, one[len(sep):], what)
        ctx.require(cut.coeffs == [x for x in full.coeffs if abs(x[1]) >= eps], what+'coefficients above the limit')
        ctx.require((cut.label, cut.orig, cut.energy, cut.charge, cut.sz, cut.ssq)
                    == (full.label, full.orig, full.energy, full.charge, full.sz, full.ssq), what+'header with a limit')
        text = capture(s.print_state, b, eps, False, path, sep)
        ctx.require(text == '', what+'prntq=False prints')
        with open(path) as f:
            ctx.require(f.read() == want+one, what+'print_state appends to the file')


def read(s):
    n = s.si.nmany
    R = np.array([[s.get_phi0(b, bp) for bp in range(n)] for b in range(n)], dtype=complex)
    P = [[[s.get_phi1(l, c, b) for b in range(n)] for c in range(n)] for l in range(s.nleads)]
    return R, P


def snapshot(s):
    return [np.array(x) for x in (s.Ea, s.Tba, s.phi0, s.current, s.energy_current, s.heat_current)
            + (() if s.phi1 is None else (s.phi1,))]


def accessors(ctx, s, keep, solved, what):
    """Elements in the original order against the theory and the vector of the solution."""
    k = common.base_kerntype(s.kerntype)
    N = common.charges_of(s)
    R, P = read(s)
    mask = keep.full_mask(s) if k != '2vN' else common.kept_mask(s)
    if k in ('Pauli', 'RTD'):
        mask = mask & np.eye(len(N), dtype=bool)
    kept = np.zeros(len(N), dtype=bool)
    kept[keep.states] = True
    mask = mask & kept[:, None] & kept[None, :]
    ctx.require(not R[~mask].any(), what+'elements outside the theory are not zero')
    size = max(1.0, np.abs(R).max())
    if k != '2vN':
        ctx.close(R, R.conj().T, 0, what+'exchanged arguments give the conjugate element')
    if s.success:
        ctx.close(np.trace(R), 1.0, 1e-8*size, what+'trace')
    # the accessors show the vector of the solution, which contains each element once
    v = np.array(s.phi0)
    if k == '2vN' or np.iscomplexobj(v):
        shown = np.concatenate([R[mask].real, R[mask].imag])
        have = np.concatenate([v.real, v.imag])
    else:
        # real parts of the upper elements and the imaginary ones
        up = np.triu(mask, 1)
        shown, have = np.concatenate([R.diagonal()[kept].real, R[up].real, np.abs(R[up].imag)]), v
        if s.si.indexing == 'ssq':
            # spin multiplets share elements
            shown = np.unique(np.abs(np.concatenate([shown, [0.0]])).round(13))
            have = np.unique(np.abs(np.concatenate([have, [0.0]])).round(13))
            ctx.close([np.abs(have-x).min() for x in shown], np.zeros(len(shown)), 1e-12, what+'elements against the solution')
            shown = have = np.zeros(0)
    ctx.require(len(shown) == len(have), lambda: what+'%d elements for %d entries of the solution' % (len(shown), len(have)))
    ctx.close(np.sort(np.abs(shown)), np.sort(np.abs(have)), 0, what+'elements against the solution vector')
    if k in ('Pauli', 'Lindblad', 'RTD'):
        ctx.require(all(x is None for a in P for b in a for x in b), what+'current amplitudes of an approach without them')
        return R, P
    A = np.array(P, dtype=complex)
    far = np.abs(N[:, None]-N[None, :]) != 1
    far |= ~(kept[:, None] & kept[None, :])
    ctx.require(not A[:, far].any(), what+'current amplitudes between unconnected states')
    ctx.close(A, A.conj().transpose(0, 2, 1), 0, what+'exchanged states give the conjugate amplitude')
    up = N[:, None] == N[None, :]+1
    T = np.where(up[None], np.array(s.Tba), 0)
    Up = np.where(up[None], A, 0)
    got = np.array([-2*np.imag(np.trace(T[l].conj().T @ Up[l])) for l in range(s.nleads)])
    ctx.close(got, s.current, 1e-12*(1+np.abs(T).max()*np.abs(A).max())+1e-10*(k == '2vN'),
              what+'currents against the amplitudes')
    return R, P


def check_history(ctx, spec):
    spec = copy.deepcopy(spec)
    s = build(spec)
    s.funcp.suppress_err = True
    quiet = dict(niter=2) if spec['k'].endswith('2vN') else {}
    s.solve(masterq=False, **({'restartq': False} if quiet else {}))
    m = model_of(spec) if 'h' not in spec else None
    keep = Kept(s)
    if 'h' in spec or spec.get('ph') or spec['k'] in BASE+['py'+k for k in BASE]:
        ks = ['1vN', 'Redfield', 'Lindblad', 'Pauli', 'py1vN', 'pyLindblad', 'pyRedfield', 'pyPauli']
    else:
        ks = ['2vN', 'RTD', 'Pauli', '1vN', 'py2vN', 'pyRTD']
    order = list(range(s.si.nmany))
    srt = None
    solved = False
    for i, op in enumerate(spec['ops']+[['solve', 0]]):
        what = 'after %s: ' % (spec['ops'][:i+1],)
        kind = op[0]
        if kind == 'sort':
            props = op[1]
            arg = {'list': list, 'tuple': tuple, 'array': np.array, 'none': lambda x: None}[op[2]](props)
            before = snapshot(s) if solved else None
            s.sort_eigenstates(arg)
            if arg is not None:
                ctx.require(list(arg) == props, what+'the list of the caller was changed: %s' % (arg,))
            if before is not None:
                for a, b in zip(before, snapshot(s)):
                    ctx.require(np.array_equal(a, b, equal_nan=True), what+'sorting changes the solution')
            printed, order = print_all(ctx, s, what)
            by_orig = sorted(printed, key=lambda p: p.orig)
            vals = properties(ctx, s, spec, by_orig, m, what)
            srt = arg
            if arg is None:
                ctx.require(order == list(range(s.si.nmany)), what+'order without a request: %s' % order)
            else:
                keys = [tuple(np.round(vals[p][b], 9) if p else vals[0][b] for p in props) for b in order]
                ctx.require(all(a <= b for a, b in zip(keys[:-1], keys[1:])),
                            lambda: what+'states are not sorted by %s: %s' % (props, keys))
            ctx.label('sort by %d' % len(props))
            continue
        if kind == 'solve':
            valid_norm(s)
            if common.base_kerntype(s.kerntype) not in SECOND and not c04.away_from_edges(s):
                ctx.skip('level at a band edge')
            if common.base_kerntype(s.kerntype) == 'RTD':
                s.appr.printed_warning_ImGamma = True
            try:
                s.solve(**({'niter': 2} if common.base_kerntype(s.kerntype) == '2vN' else {}))
            except np.linalg.LinAlgError:
                if common.base_kerntype(s.kerntype) == '2vN':
                    ctx.skip('singular local equations')
                raise
            solved = True
        else:
            nmany = s.si.nmany
            if not c14.do(s, op, keep, spec, ks, m):
                continue
            solved = False
            if kind == 'fock':
                # labels of the remaining states
                order = list(range(s.si.nmany))
                srt = None
            ctx.label(kind)
        # labels stay until the next sorting
        printed, now = print_all(ctx, s, what)
        ctx.require(now == order, lambda: what+'order of the states %s instead of %s' % (now, order))
        properties(ctx, s, spec, sorted(printed, key=lambda p: p.orig), m, what)
        if not solved:
            continue
        files(ctx, s, spec, what)
        if not np.isfinite(s.phi0).all() or not s.success:
            ctx.label('no solution')
            continue
        Rs, Ps = read(s)
        s.sort_eigenstates()
        R, P = accessors(ctx, s, keep, solved, what)
        ctx.close(Rs, R[np.ix_(order, order)], 0, what+'density matrix in the sort order')
        for l in range(s.nleads):
            for c in range(len(order)):
                for b in range(len(order)):
                    ctx.require(Ps[l][c][b] == P[l][order[c]][order[b]], what+'current amplitudes in the sort order')
        c = copy_ctx(ctx)
        k = common.base_kerntype(s.kerntype)
        if k in BASE and not spec.get('ph'):
            c04.check_first_order(c, s, s.itype, keep.full_mask(s), what, keep=keep.states)
        if order != list(range(len(order))) and (c.nontriv or len(order) > 3 or np.abs(s.current).max() > 1e-9):
            ctx.nontrivial()
        ctx.label(s.kerntype, s.si.indexing)
        # back to the sort order
        if order != list(range(len(order))):
            s.sort_eigenstates(srt)
            order = print_all(ctx, s, what)[1]


# ---- systems given by many-body states

@st.composite
def manybody(draw):
    nmax = draw(st.integers(1, 2))
    Na = [0]+draw(st.lists(st.integers(0, nmax), min_size=1, max_size=5))
    Na = draw(st.permutations(Na))
    n = len(Na)
    off = draw(st.integers(-2, 3))
    spec = dict(Na=[x+off for x in Na], E=[draw(gen.num(-3, 3)) for _ in range(n)], nl=draw(st.integers(1, 2)),
                mu=[draw(gen.num(-2, 2)) for _ in range(2)], T=[draw(gen.num(0.5, 2)) for _ in range(2)])
    spec['t'] = [[draw(gen.nzcplx(0.4)) for _ in range(n*n)] for _ in range(spec['nl'])]
    spec['k'] = draw(st.sampled_from(['', 'py']))+draw(st.sampled_from(BASE))
    spec['sorts'] = [sort_op(draw, 2) for _ in range(draw(st.integers(1, 3)))]
    spec['cut'] = draw(st.integers(0, 5))
    return spec


def check_manybody(ctx, spec):
    import qmeq
    Na, E = np.array(spec['Na']), np.array(spec['E'])
    n, nl = len(Na), spec['nl']
    T = np.array([[gen.cx(*z) for z in row] for row in spec['t']], dtype=complex).reshape(nl, n, n)
    up = Na[:, None] == Na[None, :]+1
    if not up.any():
        ctx.skip('no transition')
    T = np.where(up[None], T, 0)
    T = T+T.conj().transpose(0, 2, 1)
    s = qmeq.BuilderManyBody(Ea=E, Na=Na, Tba=T, mulst=spec['mu'][:nl], tlst=spec['T'][:nl], dband=50.0,
                             kerntype=spec['k'], itype=1)
    s.funcp.suppress_err = True
    kept = np.ones(n, dtype=bool)
    cuts = c14.cuts_of(E)
    if cuts and spec['cut'] % 3 == 0:
        dE = cuts[spec['cut'] % len(cuts)]
        s.remove_states(dE)
        kept = E < E.min()+dE
    s.solve(qdq=False, rotateq=False)
    if not s.success or not np.isfinite(s.phi0).all():
        ctx.skip('no solution')
    R, P = read(s)
    ctx.require(not R[~kept].any() and not R[:, ~kept].any(), 'elements of removed states')
    ctx.require(not R[Na[:, None] != Na[None, :]].any(), 'elements between charges')
    ctx.close(R, R.conj().T, 0, 'Hermiticity')
    vals = [E, Na]
    for op in spec['sorts']:
        props = op[1]
        what = 'sorted by %s: ' % props
        arg = {'list': list, 'tuple': tuple, 'array': np.array, 'none': lambda x: None}[op[2]](props)
        before = snapshot(s)
        s.sort_eigenstates(arg)
        for a, b in zip(before, snapshot(s)):
            ctx.require(np.array_equal(a, b, equal_nan=True), what+'sorting changes the solution')
        keys = [tuple(vals[p][b] for p in props) for b in range(n)]
        if arg is None:
            order = list(range(n))
        elif len(set(keys)) < n:
            ctx.label('ties')
            continue
        else:
            order = sorted(range(n), key=lambda b: keys[b])
        Rs, Ps = read(s)
        ctx.close(Rs, R[np.ix_(order, order)], 0, what+'density matrix')
        for l in range(nl):
            for c in range(n):
                for b in range(n):
                    ctx.require(Ps[l][c][b] == P[l][order[c]][order[b]], what+'current amplitudes')
        ctx.nontrivial(order != list(range(n)) and (n > 3 or np.abs(s.current).max() > 1e-9))
    ctx.label(spec['k'])


SUBCHECKS = [
    Sub('history', history, check_history, 1500, 30000,
        'a sort order different from the original one and four states, coherences or a current', shards=4, tshards=16),
    Sub('spin', spin, check_history, 900, 16000, 'the same with the indexings that resolve spin', shards=3, tshards=12),
    Sub('second', lambda: history(second=True), check_history, 400, 6000, 'the same with 2vN and RTD', shards=2, tshards=8),
    Sub('phonon', lambda: history(elph=True), check_history, 300, 6000, 'the same with phonon baths', shards=2, tshards=8),
    Sub('manybody', manybody, check_manybody, 400, 6000, 'sorting of systems given by many-body states', shards=1, tshards=4),
]
