"""Hypothesis strategies for systems.  Every case is a JSON-able dict; complex numbers are [re, im]."""

import numpy as np
from hypothesis import strategies as st


def cplx(x):
    return complex(x[0], x[1]) if isinstance(x, (list, tuple)) else x


def num(lo, hi, den=64):
    """Rational grid lo..hi; shrinks towards 0 (or the nearest bound)."""
    a, b = int(np.ceil(lo*den)), int(np.floor(hi*den))
    return st.integers(a, b).map(lambda k: k/den)


def nzcplx(mx, den=64, real=None):
    re = num(-mx, mx, den)
    im = st.just(0.0) if real else st.one_of(st.just(0.0), num(-mx, mx, den))
    return st.tuples(re, im).map(lambda x: [x[0], x[1]] if (x[0] or x[1]) else [1/den, 0.0])


@st.composite
def hsingle(draw, n, real=False, emax=4.0, hop=0.6, phop=0.6, degenerate=None):
    """Upper-triangular single-particle Hamiltonian [[i, j, re, im], ...]."""
    out = []
    if degenerate is None:
        degenerate = draw(st.sampled_from([False, False, False, True]))
    e0 = draw(num(-emax, emax))
    for i in range(n):
        e = e0 if degenerate and i else (e0 if i == 0 else draw(num(-emax, emax)))
        out.append([i, i, e, 0.0])
    for i in range(n):
        for j in range(i+1, n):
            if draw(st.integers(0, 99)) < 100*phop:
                z = draw(nzcplx(hop, real=real))
                out.append([i, j] + z)
    return out


def coulomb_pairs(n):
    """Index quadruples (m, n, k, l) with m<n, k>l — one per ordered pair of electron pairs."""
    import itertools
    pairs = list(itertools.combinations(range(n), 2))
    return [(m, k, l2, l1) for (m, k) in pairs for (l1, l2) in pairs]


@st.composite
def coulomb(draw, n, real=False, umax=6.0, exchange=True, pdens=0.85, pex=0.4):
    """Hermitian Coulomb list: density-density (m,n,n,m) plus exchange/pair terms given with their conjugates
    explicitly (for herm_c=False)."""
    import itertools
    out = []
    pairs = list(itertools.combinations(range(n), 2))
    for (m, k) in pairs:
        if draw(st.integers(0, 99)) < 100*pdens:
            u = draw(num(0, umax))
            if u:
                out.append([m, k, k, m, u, 0.0])
    if exchange and len(pairs) > 1:
        for a, b in itertools.combinations(pairs, 2):
            if draw(st.integers(0, 99)) < 100*pex:
                z = draw(nzcplx(0.8, real=real))
                out.append([a[0], a[1], b[1], b[0]] + z)
                out.append([b[0], b[1], a[1], a[0], z[0], -z[1]])
    return out


@st.composite
def tunnel(draw, n, nl, real=False, tmax=0.4, pzero=0.15):
    out = []
    for l in range(nl):
        for i in range(n):
            if draw(st.integers(0, 99)) < 100*pzero:
                continue
            out.append([l, i] + draw(nzcplx(tmax, real=real)))
    if not out:
        out.append([0, 0, 0.25, 0.0])
    return out


@st.composite
def system(draw, nmin=1, nmax=3, lmin=1, lmax=3, real=None, D=None, tmin=0.25, tmaxT=2.0, mu=3.0, itypes=(0, 1, 2, 3),
           exchange=True, t=0.4, equal_T=False, emax=4.0, umax=6.0):
    """A general system, everything specified explicitly (herm_hs=True, herm_c=False)."""
    n = draw(st.integers(nmin, nmax))
    nl = draw(st.integers(lmin, lmax))
    if real is None:
        real = draw(st.booleans())
    spec = dict(n=n, nl=nl)
    spec['hs'] = draw(hsingle(n, real, emax))
    spec['co'] = draw(coulomb(n, real, umax, exchange)) if n > 1 else []
    spec['tl'] = draw(tunnel(n, nl, real, t))
    spec['mu'] = [draw(num(-mu, mu)) for _ in range(nl)]
    T0 = draw(num(tmin, tmaxT))
    spec['T'] = [T0 if equal_T or l == 0 else draw(st.one_of(st.just(T0), num(tmin, tmaxT))) for l in range(nl)]
    if D is None:
        spec['D'] = draw(band(nl))
    else:
        spec['D'] = D
    spec['itype'] = draw(st.sampled_from(list(itypes)))
    return spec


@st.composite
def band(draw, nl):
    """Either one symmetric half-bandwidth or one [lo, hi] per lead (asymmetric), wide enough for all levels
    of the default generators."""
    if draw(st.booleans()):
        return draw(num(40, 100, 1))
    return [[-draw(num(40, 100, 1)), draw(num(40, 100, 1))] for _ in range(nl)]


# ---- conversions

def hs_dict(spec):
    return {(i, j): cx(re, im) for i, j, re, im in spec['hs']}


def co_dict(spec):
    return {(m, n, k, l): cx(re, im) for m, n, k, l, re, im in spec['co']}


def tl_dict(spec):
    return {(l, i): cx(re, im) for l, i, re, im in spec['tl']}


def cx(re, im):
    return complex(re, im) if im else float(re)


def dlst(spec):
    D, nl = spec['D'], spec['nl']
    if isinstance(D, (int, float)):
        return np.array([[-D, D]]*nl, dtype=float)
    return np.array(D, dtype=float)


def kwargs(spec, **over):
    """Constructor arguments of Builder.base for a system spec."""
    nl = spec['nl']
    D = spec['D']
    kw = dict(nsingle=spec['n'], hsingle=hs_dict(spec), coulomb=co_dict(spec), nleads=nl, tleads=tl_dict(spec),
              mulst={l: spec['mu'][l] for l in range(nl)}, tlst={l: spec['T'][l] for l in range(nl)},
              dband=(float(D) if isinstance(D, (int, float)) else {l: tuple(D[l]) for l in range(nl)}),
              itype=spec.get('itype', 0))
    kw.update(over)
    return kw


def build(spec, **over):
    import qmeq
    return qmeq.Builder.base(**kwargs(spec, **over))


# ---- phonon baths

@st.composite
def phonons(draw, n, nbmax=2, real=None, offdiag=True):
    """Phonon part of a system: couplings [[bath, i, j, re, im]], temperatures, bands and density of states."""
    nb = draw(st.integers(1, nbmax))
    if real is None:
        real = draw(st.booleans())
    v = []
    for b in range(nb):
        for i in range(n):
            for j in range(n):
                if (i == j or offdiag) and draw(st.integers(0, 9)) < 6:
                    v.append([b, i, j] + draw(nzcplx(0.4, real=real)))
    ph = dict(nb=nb, v=v, T=[draw(num(0.25, 2)) for _ in range(nb)],
              D=[[draw(st.sampled_from([0.0, 0.0, 1/16, 0.25])), draw(num(5, 40, 1))] for _ in range(nb)],
              dos=draw(st.sampled_from([None, None, 'lin', 'const', 'gauss'])))
    return ph


def velph_dict(ph):
    return {(b, i, j): cx(re, im) for b, i, j, re, im in ph['v']}


def dos_value(kind, bath, x):
    """Spectral densities used for the baths (bath-dependent)."""
    if kind is None:
        return 1.0
    if kind == 'const':
        return 0.5 + 0.25*bath
    if kind == 'lin':
        return 0.3*(1+bath)*x
    return (0.4 + 0.2*bath)*float(np.exp(-(x/5.0)**2))


_FUNCS = {}


def bath_func(kind, nb, compiled):
    """List of density-of-states objects of the class the implementation expects."""
    if kind is None:
        return None
    key = bool(compiled)
    if key not in _FUNCS:
        if compiled:
            from qmeq.specfunc.c_specfunc_elph import Func
        else:
            from qmeq.specfunc.specfunc_elph import Func

        class Dos(Func):
            def __init__(self, kind, bath):
                self.kind, self.bath = kind, bath

            def eval(self, x):
                return dos_value(self.kind, self.bath, x)

            def __deepcopy__(self, memo):
                return type(self)(self.kind, self.bath)
        _FUNCS[key] = Dos
    return [_FUNCS[key](kind, b) for b in range(nb)]


def elph_kwargs(spec, ph, compiled=True, **over):
    kw = kwargs(spec)
    kw.update(nbaths=ph['nb'], velph=velph_dict(ph), tlst_ph={b: ph['T'][b] for b in range(ph['nb'])},
              dband_ph={b: tuple(ph['D'][b]) for b in range(ph['nb'])},
              bath_func=bath_func(ph['dos'], ph['nb'], compiled), itype_ph=ph.get('itype', 2))
    kw.update(over)
    return kw


def build_elph(spec, ph, kerntype='Pauli', **over):
    import qmeq
    return qmeq.Builder.elph(**elph_kwargs(spec, ph, not kerntype.startswith('py'), kerntype=kerntype, **over))
