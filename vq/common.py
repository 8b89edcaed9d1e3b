"""Reading a solved qmeq system through its public interface into dense arrays."""

import numpy as np

from . import gen, ref

EPS = 2.3e-16


def charges_of(s):
    """Charge of every many-body index."""
    N = np.full(len(s.Ea), -1)
    for c in range(s.si.ncharge):
        for b in s.si.chargelst[c]:
            N[b] = c
    return N


def sz_labels(s):
    """Arbitrary integer labels per index such that coherences are kept only between equal labels
    (charge and, where the indexing resolves them, spin quantum numbers)."""
    si = s.si
    lab = np.full((len(s.Ea), 3), 0)
    for b in range(len(s.Ea)):
        q = si.ind_qn[b]
        lab[b, 0] = q[0]
        if si.indexing == 'sz':
            lab[b, 1] = q[1]
        elif si.indexing == 'ssq':
            lab[b, 1], lab[b, 2] = q[1], q[2]
    return lab


def kept_mask(s):
    """mask[b, bp]: elements the stated indexing keeps when no state or coherence has been removed."""
    lab = sz_labels(s)
    return (lab[:, None, :] == lab[None, :, :]).all(axis=2)


def rho_matrix(s, N=None):
    """Dense reduced density matrix from get_phi0 (all pairs of equal charge)."""
    N = charges_of(s) if N is None else N
    n = len(N)
    r = np.zeros((n, n), dtype=complex)
    for b in range(n):
        for bp in range(n):
            if N[b] == N[bp]:
                r[b, bp] = s.get_phi0(b, bp)
    return r


def phi1_matrix(s, N=None):
    N = charges_of(s) if N is None else N
    n, nl = len(N), s.nleads
    out = np.zeros((nl, n, n), dtype=complex)
    for l in range(nl):
        for c in range(n):
            for b in range(n):
                if N[c] == N[b] + 1:
                    out[l, c, b] = s.get_phi1(l, c, b)
    return out


def dot_of(s, spec=None):
    """ref.Dot from the energies, amplitudes and lead parameters the system reports."""
    return ref.Dot(s.Ea, charges_of(s), s.Tba, s.mulst, s.tlst, s.dlst)


def base_kerntype(k):
    return k[2:] if k.startswith('py') else k


def quiet_solve(s, **kw):
    s.solve(**kw)
    return s


def ok(s):
    return bool(s.success)


def observables(s):
    return (np.array(s.current), np.array(s.energy_current), np.array(s.heat_current))


def rate_scale(dot, itype):
    """Size of the largest tunnelling rate: 2 pi |T|^2 summed, times the size of the integrals."""
    t2 = (np.abs(dot.up)**2).sum() if dot.up.size else 0.0
    return 2*np.pi*t2


def quad_err(itype):
    """Documented accuracy of the numerically evaluated integrals (absolute in the dimensionless integral)."""
    return 5e-6 if itype == 0 else 1e-13


def solved_matrix(s):
    """The matrix of the linear system that was solved (make_kern_copy=True before solving compiled approaches)."""
    k = np.array(s.kern)
    if s.symq:
        k[s.norm_row] = np.array(s.appr.norm_vec)
    else:
        k[-1] = np.array(s.appr.norm_vec)
    return k


def conditioning(s, unit=1.0):
    """(smallest, largest) singular value of the matrix that determines the stationary state (with energies in units
    of unit)."""
    k = solved_matrix(s)
    if unit != 1:
        keep = k[s.norm_row if s.symq else -1].copy()
        k /= unit
        k[s.norm_row if s.symq else -1] = keep
    if not np.isfinite(k).all():
        return 0.0, np.inf
    sv = np.linalg.svd(k, compute_uv=False)
    return sv[-1], sv[0]


def rel_error(s, itype=None, G=None, quad=None, unit=1.0):
    """Bound on the error of the reported density matrix: rounding plus quadrature error over the smallest singular
    value.  Above 1e-3 the case says nothing."""
    lo, hi = conditioning(s, unit)
    if not lo > 0:
        return np.inf
    err = 1e-14*hi*max(4, len(s.phi0))
    if quad is None:
        quad = 0.0 if base_kerntype(s.kerntype) in ('Pauli', 'Lindblad') else quad_err(itype if itype is not None else 1)
    if G is None:
        G = 2*np.pi*(np.abs(s.Tba)**2).sum()/unit
    err += quad*G*4
    if hasattr(s, 'Vbbp'):
        # phonon terms of order 1/eps_elph cancel in the kernel
        err += 1e-15*1e7*np.abs(s.Vbbp).max(initial=0)**2/unit
    return err/lo*max(1.0, np.abs(s.phi0).max())
