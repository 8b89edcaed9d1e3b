"""State labels and density-matrix indices form a consistent one-to-one labelling."""

import itertools

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import Sub

RULE = 'non-trivial: at least two levels and, for density-matrix labels, a proper subset of states or a spin indexing'
ASSUMPTIONS = ['occupation numbers and reference spin operators define the labels']


def sz_of(state):
    h = len(state)//2
    return sum(state[:h]) - sum(state[h:])


_SSQ = {}


def multiplets(n):
    """{(charge, sz, 2S): number of states}"""
    if n not in _SSQ:
        out = {}
        sz, s2 = ref.spin_ops(n)
        N = ref.charges(n)
        M = np.rint(np.diag(sz)).astype(int)
        for c in range(n+1):
            for m in sorted(set(M[N == c])):
                ix = np.flatnonzero((N == c) & (M == m))
                w = np.linalg.eigvalsh(s2[np.ix_(ix, ix)])
                for x in np.rint(np.sqrt(1+4*w)-1).astype(int):
                    key = (c, int(m), int(x))
                    out[key] = out.get(key, 0)+1
        _SSQ[n] = out
    return _SSQ[n]


@st.composite
def labels(draw):
    n = draw(st.integers(1, 7))
    cls = draw(st.sampled_from(['StateIndexing', 'StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc']))
    if cls != 'StateIndexing':
        n = min(n, 6)
    idx = draw(st.sampled_from(['Lin', 'charge', 'sz', 'ssq']))
    if idx in ('sz', 'ssq') and n % 2:
        n -= 1
    n = max(n, 2 if idx in ('sz', 'ssq') else 1)
    case = dict(n=n, idx=idx, cls=cls, sym=draw(st.booleans()) and n % 2 == 0, removals=[])
    if idx != 'ssq' and draw(st.booleans()):
        for _ in range(draw(st.integers(1, 2))):
            case['removals'].append(draw(st.lists(st.integers(0, 2**n-1), max_size=min(8, 2**n-1), unique=True)))
    return case


def make(case):
    import qmeq.indexing as ind
    si = getattr(ind, case['cls'])(case['n'], case['idx'], 'spin' if case['sym'] else None)
    for r in case['removals']:
        si.remove_fock_states(r)
    return si


def check_states(ctx, si, case):
    n = case['n']
    gone = set(x for r in case['removals'] for x in r)
    all_states = [s for k, s in enumerate(itertools.product((0, 1), repeat=n)) if k not in gone]
    nmany = len(all_states)
    ctx.require(si.nmany == nmany, 'nmany is %s, %d Fock states are kept' % (si.nmany, nmany))
    ctx.require(si.ncharge == n+1, 'ncharge')
    ctx.require(list(si.states_order) == list(range(nmany)), 'initial state order')
    seen = {}
    for b in range(nmany):
        s = si.get_state(b)
        ctx.require(len(s) == n and all(x in (0, 1) for x in s), 'state %d is %s' % (b, s))
        seen[tuple(int(x) for x in s)] = b
        ctx.require(si.get_ind(list(s)) == b, 'get_ind(get_state(%d)) is %s' % (b, si.get_ind(list(s))))
        ctx.require(si.get_state(b, strq=True) == ''.join(str(int(x)) for x in s), 'string form of state %d' % b)
    ctx.require(set(seen) == set(all_states), 'the indices do not cover the kept Fock states once each')
    for k in range(2**n):
        s = si.get_state(k, linq=True)
        ctx.require(tuple(int(x) for x in s) == tuple(int(x) for x in np.binary_repr(k, n)), 'Lin state %d' % k)
        ctx.require(si.get_ind(list(s), linq=True) == k, 'Lin index of %s' % (s,))
        if k in gone:
            ctx.require(si.get_ind(list(s)) is None, 'a removed Fock state still has an index')
    # charge sectors
    flat = []
    for c in range(n+1):
        lst = list(si.get_lst(charge=c))
        flat += lst
        if case['idx'] != 'Lin' or case['removals']:
            ctx.require(lst == list(range(lst[0], lst[0]+len(lst))) if lst else True,
                        'states of charge %d are not consecutive: %s' % (c, lst))
        for b in lst:
            ctx.require(sum(si.get_state(b)) == c, 'state %d is listed with charge %d' % (b, c))
            ctx.require(si.ind_qn[b][0] == c, 'charge quantum number of state %d' % b)
    ctx.require(sorted(flat) == list(range(nmany)), 'charge sectors do not partition the states')
    if case['idx'] in ('sz', 'ssq'):
        flat = []
        for c in range(n+1):
            for sz in range(-min(c, n-c), min(c, n-c)+1, 2):
                lst = list(si.get_lst(charge=c, sz=sz))
                flat += lst
                want = sum(1 for s in all_states if sum(s) == c and sz_of(s) == sz)
                ctx.require(len(lst) == want, 'sector (%d, %d) lists %d of %d states' % (c, sz, len(lst), want))
                for b in lst:
                    s = si.get_state(b)
                    ctx.require(sum(s) == c and sz_of(s) == sz, 'state %d in sector (%d, %d)' % (b, c, sz))
                    ctx.require(si.ind_qn[b][1] == sz, 'spin quantum number of state %d' % b)
                if case['idx'] == 'ssq':
                    sub = []
                    for ssq in range(abs(sz), min(c, n-c)+1, 2):
                        x = list(si.get_lst(charge=c, sz=sz, ssq=ssq))
                        ctx.require(len(x) == multiplets(n).get((c, sz, ssq), 0),
                                    'sector (%d, %d, %d) lists %d states' % (c, sz, ssq, len(x)))
                        for a, b in enumerate(x):
                            ctx.require(tuple(si.ind_qn[b]) == (c, sz, ssq, a), 'quantum numbers of state %d' % b)
                        sub += x
                    ctx.require(sorted(sub) == sorted(lst), 'spin sectors do not partition sector (%d, %d)' % (c, sz))
        ctx.require(sorted(flat) == list(range(nmany)), 'sz sectors do not partition the states')
    ctx.require(len(si.ind_qn) == nmany and len(si.qn_ind) == nmany, 'quantum number tables')
    for b in range(nmany):
        ctx.require(si.qn_ind[si.ind_qn[b]] == b, 'quantum numbers of state %d are ambiguous' % b)


def check_labels(ctx, case):
    si = make(case)
    check_states(ctx, si, case)
    ctx.label(case['cls'], case['idx'], 'n=%d' % case['n'], '%d removals' % len(case['removals']))
    ctx.nontrivial(case['n'] >= 2)


# ------------------------------------------------------------------------------------------------
# density-matrix labels

@st.composite
def elements(draw):
    idx = draw(st.sampled_from(['Lin', 'charge', 'sz', 'ssq']))
    n = draw(st.sampled_from([2, 4, 2, 4, 4]) if idx in ('sz', 'ssq') else st.integers(1, 5))
    case = dict(n=n, idx=idx, cls=draw(st.sampled_from(['StateIndexingPauli', 'StateIndexingDM', 'StateIndexingDMc'])),
                sym=idx == 'ssq', removals=[], keep=[])
    if idx != 'ssq' and draw(st.integers(0, 2)) == 0:
        case['removals'].append(draw(st.lists(st.integers(0, 2**n-1), max_size=min(6, 2**n-1), unique=True)))
    for _ in range(draw(st.integers(0, 3))):
        # subset of states (ssq: of multiplets) to keep, by a bit mask over the states in index order
        case['keep'].append(draw(st.integers(0, 2**min(2**n, 32)-1)))
    return case


def check_elements(ctx, case):
    si = make(case)
    check_states(ctx, si, case)
    kept = set(range(si.nmany))
    for mask in case['keep']:
        kept = set()
        for b in range(si.nmany):
            q = si.ind_qn[b]
            bit = si.qn_ind[(q[0], -q[2], q[2], q[3])] if case['idx'] == 'ssq' else b
            if (mask >> (bit % 32)) & 1:
                kept.add(b)
        lst = [[b for b in si.chargelst[c] if b in kept] for c in range(si.ncharge)]
        si.set_statesdm(lst)
    verify_elements(ctx, si, kept, case)
    if case['keep']:
        # everything again
        si.set_statesdm(si.chargelst)
        verify_elements(ctx, si, set(range(si.nmany)), case)
    ctx.label(case['cls'], case['idx'], 'n=%d' % case['n'], 'subset' if case['keep'] else 'all states')
    ctx.nontrivial(case['n'] >= 2 and (case['keep'] or case['idx'] in ('sz', 'ssq')))


def verify_elements(ctx, si, kept, case):
    """get_ind_dm0 / get_ind_dm1 against the sets of elements the indexing should keep."""
    pauli = case['cls'] == 'StateIndexingPauli'
    ssq, sz = case['idx'] == 'ssq', case['idx'] == 'sz'
    lst = [[b for b in si.chargelst[c] if b in kept] for c in range(si.ncharge)]

    def cls(b):
        # states of one multiplet share their density-matrix elements in ssq indexing
        q = si.ind_qn[b]
        return (q[0], q[2], q[3]) if ssq else b

    def sector(b):
        q = si.ind_qn[b]
        return (q[1], q[2]) if ssq else ((q[1],) if sz else ())

    pops, cohs = {}, {}
    for c in range(si.ncharge):
        for b in lst[c]:
            i = int(si.get_ind_dm0(b, b, c))
            ctx.require(pops.setdefault(cls(b), i) == i, 'population of state %d: index %d' % (b, i))
    npauli = len(pops)
    ctx.require(sorted(pops.values()) == list(range(npauli)),
                'populations do not have the first indices: %s' % sorted(pops.values()))
    ctx.require(si.npauli == npauli, 'npauli=%s, %d distinct populations' % (si.npauli, npauli))
    ctx.require(si.npauli_ == len(kept), 'npauli_=%s, %d kept states' % (si.npauli_, len(kept)))
    rep = {}
    for c in range(si.ncharge):
        for b in lst[c]:
            if si.get_ind_dm0(b, b, c, maptype=2):
                rep[pops[cls(b)]] = rep.get(pops[cls(b)], 0) + 1
    ctx.require(all(rep.get(i, 0) == 1 for i in range(npauli)), 'a population has no or several representatives')
    if pauli:
        return
    dmc = case['cls'] == 'StateIndexingDMc'
    conjs = {}
    reps = {}
    for c in range(si.ncharge):
        for b, bp in itertools.permutations(lst[c], 2):
            i = int(si.get_ind_dm0(b, bp, c))
            if sector(b) != sector(bp):
                ctx.require(i == -1, 'element (%d, %d) between different spin sectors has index %d' % (b, bp, i))
                continue
            key = (cls(b), cls(bp))
            if ssq and (si.ind_qn[b][1] != si.ind_qn[bp][1]):
                continue
            ctx.require(i >= npauli, 'coherence (%d, %d) has index %d' % (b, bp, i))
            ctx.require(cohs.setdefault(key, i) == i, 'coherence (%d, %d) has several indices' % (b, bp))
            if dmc:
                pass
            else:
                conj = bool(si.get_ind_dm0(b, bp, c, maptype=3))
                ctx.require(conjs.setdefault(key, conj) == conj, 'conjugation flag of (%d, %d)' % (b, bp))
            if si.get_ind_dm0(b, bp, c, maptype=2):
                reps[i] = reps.get(i, 0) + 1
    byidx = {}
    for key, i in cohs.items():
        byidx.setdefault(i, []).append(key)
    for i, keys in byidx.items():
        if dmc:
            ctx.require(len(keys) == 1, 'index %d denotes several elements %s' % (i, keys))
        else:
            ctx.require(len(keys) == 2 and keys[0] == keys[1][::-1],
                        'index %d should denote one conjugate pair, it denotes %s' % (i, keys))
            ctx.require(conjs[keys[0]] != conjs[keys[1]], 'both elements of pair %s have the same orientation' % (keys,))
        ctx.require(reps.get(i, 0) == 1, 'coherence index %d has %d representatives' % (i, reps.get(i, 0)))
    ndm0 = npauli + len(byidx)
    ctx.require(sorted(byidx) == list(range(npauli, ndm0)), 'coherence indices %s' % sorted(byidx))
    ctx.require(si.ndm0 == ndm0, 'ndm0=%s, %d distinct elements' % (si.ndm0, ndm0))
    ctx.require(si.ndm0r == npauli + 2*len(byidx), 'ndm0r=%s' % si.ndm0r)
    ctx.require(si.ndm0_ == sum(len(x)**2 for x in lst), 'ndm0_=%s' % si.ndm0_)
    # representatives listed with their index
    for i, (b, bp) in si.inddm0.items():
        c = si.ind_qn[b][0]
        ctx.require(b in kept and bp in kept and int(si.get_ind_dm0(b, bp, c)) == i, 'inddm0[%d]=%s' % (i, (b, bp)))
    ctx.require(sorted(si.inddm0) == list(range(ndm0)), 'inddm0 does not list every element')
    # first-order elements
    ones = []
    for c in range(si.ncharge-1):
        for b in lst[c]:
            for cc in lst[c+1]:
                ones.append(int(si.get_ind_dm1(cc, b, c)))
    ctx.require(sorted(ones) == list(range(len(ones))), 'current-amplitude indices are not one-to-one')
    ctx.require(si.ndm1 == len(ones) == si.ndm1_, 'ndm1=%s, %d elements' % (si.ndm1, len(ones)))


# ------------------------------------------------------------------------------------------------
# labels seen through a solved system

@st.composite
def solved(draw):
    idx = draw(st.sampled_from(['Lin', 'charge', 'sz', 'ssq']))
    n = 2 if idx in ('sz', 'ssq') and draw(st.booleans()) else draw(st.integers(1, 2))*2 if idx in ('sz', 'ssq') \
        else draw(st.integers(1, 3))
    return dict(n=n, idx=idx, k=draw(st.sampled_from(['Pauli', 'Lindblad', 'Redfield', '1vN', 'pyPauli', 'py1vN'])),
                e=[draw(st.integers(-64, 64))/32 for _ in range(max(1, n//2 if idx in ('sz', 'ssq') else n))],
                U=draw(st.integers(0, 128))/32, dE=draw(st.integers(1, 255))/31)


def check_solved(ctx, case):
    """The array of density-matrix values has the length the labels promise, also after removing states."""
    import qmeq
    n, idx = case['n'], case['idx']
    spin = idx in ('sz', 'ssq')
    h = n//2 if spin else n
    co = {(i, i, i, i): case['U'] for i in range(h)} if spin else \
        {(i, j, j, i): case['U'] for i, j in itertools.combinations(range(n), 2)}
    s = qmeq.Builder.base(nsingle=n, hsingle={(i, i): case['e'][i] for i in range(h)}, coulomb=co,
                          nleads=2 if spin else 1, tleads={(0, i): 0.2+0.1*i for i in range(h)}, mulst={0: 0.1},
                          tlst={0: 1.0}, dband=50.0, itype=2, kerntype=case['k'], indexing=idx,
                          symmetry='spin' if spin else None)
    for rem in (False, True):
        if rem:
            E = np.sort(np.array(s.Ea))
            if np.abs(E-E[0]-case['dE']).min() < 1e-6:
                ctx.skip('cut at a level')
            s.remove_states(case['dE'])
        s.solve(currentq=False)
        pops = 'Pauli' in case['k']
        want = s.si.npauli if pops else (s.si.ndm0 if type(s.si).__name__ == 'StateIndexingDMc' else s.si.ndm0r)
        ctx.require(len(s.phi0) == want, 'phi0 has %d values, the labels promise %d' % (len(s.phi0), want))
        kept = [b for lst in s.si.statesdm[:s.si.ncharge] for b in lst]
        if rem:
            E = np.array(s.Ea)
            ctx.require(sorted(kept) == sorted(np.flatnonzero(E-E.min() < case['dE'])), 'kept states %s' % kept)
    ctx.nontrivial(n >= 2)
    ctx.label(idx, case['k'])


SUBCHECKS = [
    Sub('labels', labels, check_labels, 1500, 10000,
        'all state-indexing classes, 1-7 levels, Fock-state removals: bijection and sector partition', shards=4),
    Sub('elements', elements, check_elements, 2500, 30000,
        'density-matrix labels for random kept subsets, all indexings and layouts', shards=6, tshards=12),
    Sub('solved', solved, check_solved, 800, 8000,
        'lengths of the reported arrays and kept states in solved systems before and after removing states', shards=2),
]
