"""Independent reference models (numpy only, nothing imported from qmeq).

Fock states are occupation tuples (n_0, ..., n_{N-1}); the reference basis is the list of all tuples in the order
of the binary number n_0 n_1 ... n_{N-1} (n_0 most significant).  |n> = (d_0^+)^n_0 ... (d_{N-1}^+)^n_{N-1} |0>."""

import itertools

import numpy as np


def fock(nsingle):
    return list(itertools.product((0, 1), repeat=nsingle))


def annihilators(nsingle):
    """Dense Jordan-Wigner matrices of d_i built as Kronecker products."""
    low = np.array([[0., 1.], [0., 0.]])
    z = np.diag([1., -1.])
    ops = []
    for i in range(nsingle):
        m = np.eye(1)
        for k in range(nsingle):
            m = np.kron(m, z if k < i else (low if k == i else np.eye(2)))
        ops.append(m)
    return ops


def hamiltonian(nsingle, hs, coul):
    """H = sum h_ij d_j^+ d_i + sum U_mnkl d_m^+ d_n^+ d_k d_l, from complete (Hermitian) lists of terms."""
    d = annihilators(nsingle)
    dim = 2**nsingle
    ham = np.zeros((dim, dim), dtype=complex)
    for (i, j), h in hs.items():
        ham += h*(d[j].T @ d[i])
    for (m, n, k, l), u in coul.items():
        ham += u*(d[m].T @ d[n].T @ d[k] @ d[l])
    return ham


def hermitise_hs(hs):
    """What herm_hs=True stands for: each off-diagonal element also brings its conjugate (j, i)."""
    out = {}
    for (i, j), h in hs.items():
        out[(i, j)] = out.get((i, j), 0) + h
        if i != j:
            out[(j, i)] = out.get((j, i), 0) + np.conj(h)
    return out


def hermitise_coul(coul, m_less_n=True):
    """What herm_c=True stands for: (m,n,k,l) also brings the conjugate (l,k,n,m), except for elements that are
    their own conjugate and, with m_less_n, those whose conjugate would not have its first index below the second."""
    out = {}
    for (m, n, k, l), u in coul.items():
        out[(m, n, k, l)] = out.get((m, n, k, l), 0) + u
        if (m != l or n != k) and not (m_less_n and l > k):
            out[(l, k, n, m)] = out.get((l, k, n, m), 0) + np.conj(u)
    return out


def tunneling(nsingle, nleads, tl):
    """(nleads, dim, dim) matrices sum_i t_li d_i^+ + h.c."""
    d = annihilators(nsingle)
    out = np.zeros((nleads, 2**nsingle, 2**nsingle), dtype=complex)
    for (l, i), t in tl.items():
        out[l] += t*d[i].T + np.conj(t)*d[i]
    return out


def phonon_coupling(nsingle, nbaths, velph):
    """(nbaths, dim, dim) matrices sum_ij v_ij d_i^+ d_j."""
    d = annihilators(nsingle)
    out = np.zeros((nbaths, 2**nsingle, 2**nsingle), dtype=complex)
    for (b, i, j), v in velph.items():
        out[b] += v*(d[i].T @ d[j])
    return out


def charges(nsingle):
    return np.array([sum(s) for s in fock(nsingle)])


def spin_ops(nsingle):
    """Sz (in units of 1/2) and S^2 for first half up / second half down."""
    d = annihilators(nsingle)
    h = nsingle//2
    dim = 2**nsingle
    sz = np.zeros((dim, dim))
    sp = np.zeros((dim, dim))
    for i in range(h):
        sz += d[i].T @ d[i] - d[i+h].T @ d[i+h]
        sp += d[i].T @ d[i+h]
    s2 = 0.5*(sp @ sp.T + sp.T @ sp) + 0.25*sz @ sz
    return sz, s2


# ------------------------------------------------------------------------------------------------
# occupation factors and first-order integrals

def fermi(x):
    x = np.asarray(x, dtype=float)
    e = np.exp(-np.abs(x))
    return np.where(x > 0, e/(1+e), 1/(1+e))


def bose(x):
    x = np.asarray(x, dtype=float)
    return np.where(x > 0, np.exp(-np.abs(x))/(-np.expm1(-np.abs(x))), 1/np.expm1(-np.abs(x)))


def digamma_c(z):
    from scipy.special import digamma
    return digamma(z)


def first_order_integrals(E, mu, T, Dm, Dp, itype):
    """(I0, I1): P int f(x)/(x - E) - i pi f(E), and the same with (1-f) (with opposite sign conventions of
    the lead-electron/hole parts as used in the equations: I1 = I0 - P int 1/(x-E) + i pi), x in [Dm, Dp]."""
    f = float(fermi((E-mu)/T))
    inside = Dm < E < Dp
    if itype == 1:
        z = 0.5 + 1j*(E-mu)/(2*np.pi*T)
        I0 = digamma_c(z).real - np.log(abs(Dm)/(2*np.pi*T)) - 1j*np.pi*f
        I1 = I0 + np.log(abs(Dm/Dp)) + 1j*np.pi
        return I0, I1
    if itype == 3:
        return -1j*np.pi*f, 1j*np.pi*(1-f)
    if itype == 2:
        return (-1j*np.pi*f, 1j*np.pi*(1-f)) if inside else (0j, 0j)
    # itype 0: principal value by splitting f = f(E) + (f - f(E)) (regular integrand), Gauss-Legendre panels
    val = pv_fermi(E, mu, T, Dm, Dp)
    lg = np.log(abs((Dm-E)/(Dp-E)))
    I0 = val - (1j*np.pi*f if inside else 0)
    I1 = I0 + lg + (1j*np.pi if inside else 0)
    return I0, I1


_GL = np.polynomial.legendre.leggauss(48)


def pv_fermi(E, mu, T, Dm, Dp):
    """P int_Dm^Dp f((x-mu)/T)/(x-E) dx by singularity subtraction on adaptive panels."""
    f0 = float(fermi((E-mu)/T))
    pts = {Dm, Dp}
    for c in (mu, E):
        for s in (0, 1, 3, 6, 10, 16, 24, 40):
            for sg in (-1, 1):
                x = c + sg*s*T
                if Dm < x < Dp:
                    pts.add(x)
    pts = sorted(pts)
    xg, wg = _GL
    tot = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        if b - a <= 0:
            continue
        x = 0.5*(b-a)*xg + 0.5*(a+b)
        num = fermi((x-mu)/T) - f0
        den = x-E
        small = np.abs(den) < 1e-7*T
        df = -f0*(1-f0)/T
        q = np.where(small, df, num/np.where(small, 1.0, den))
        tot += 0.5*(b-a)*np.sum(wg*q)
    tot += f0*np.log(abs((Dp-E)/(Dm-E)))
    return tot


def quadpack_ok(E, mu, T, Dm, Dp):
    """Does QUADPACK's dqawc (scipy, requested accuracy 1e-6 as documented for itype=0) evaluate this integral?
    Its error estimate is wrong for about one argument in 1e5 (errors up to 1e-2, see known_findings.json)."""
    import warnings
    from scipy.integrate import quad
    a, lo, hi = (E-mu)/T, (Dm-mu)/T, (Dp-mu)/T

    def f(x):
        return 0.0 if x > 709.77 else 1/(np.exp(x)+1)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = quad(f, lo, hi, weight='cauchy', wvar=a, epsabs=1e-6, epsrel=1e-6, limit=10000)[0]
    return abs(v - pv_fermi(E, mu, T, Dm, Dp)) < 4e-6*max(1, abs(v))


def quadpack_ok_dot(dot):
    for l in range(dot.nleads):
        for c, b in np.argwhere(dot.N[:, None] == dot.N[None, :]+1):
            if not quadpack_ok(dot.E[c]-dot.E[b], dot.mu[l], dot.temp[l], *dot.dband[l]):
                return False
    return True


# ------------------------------------------------------------------------------------------------
# first-order master equations in the dense many-body eigenbasis

class Dot(object):
    """Eigenbasis data: energies E[a], charges N[a], amplitudes T[l, a, b] (full, both directions)."""

    def __init__(self, E, N, T, mu, temp, dband):
        self.E = np.asarray(E, dtype=float)
        self.N = np.asarray(N, dtype=int)
        self.T = np.asarray(T, dtype=complex)
        self.mu = np.asarray(mu, dtype=float)
        self.temp = np.asarray(temp, dtype=float)
        self.dband = np.asarray(dband, dtype=float)
        self.n = len(self.E)
        self.nleads = self.T.shape[0]
        up = (self.N[:, None] == self.N[None, :] + 1)
        # amplitude |c><b| with N_c = N_b + 1
        self.up = np.where(up[None], self.T, 0)
        self.samecharge = self.N[:, None] == self.N[None, :]

    def integrals(self, itype):
        """I0[l, c, b], I1[l, c, b] at E_c - E_b for N_c = N_b + 1."""
        n = self.n
        I0 = np.zeros((self.nleads, n, n), dtype=complex)
        I1 = np.zeros((self.nleads, n, n), dtype=complex)
        for l in range(self.nleads):
            for c in range(n):
                for b in range(n):
                    if self.N[c] == self.N[b] + 1:
                        I0[l, c, b], I1[l, c, b] = first_order_integrals(
                            self.E[c]-self.E[b], self.mu[l], self.temp[l],
                            self.dband[l, 0], self.dband[l, 1], itype)
        return I0, I1


def kept(*shape):
    return np.ones(shape, dtype=bool)


class FirstOrder(object):
    """Reference right-hand side and currents of a first-order approach for one dot.

    approach is 'Pauli', 'Lindblad', 'Redfield' or '1vN'.  mask[b, bp] says which density matrix elements take
    part (default: all with equal charge); everything outside the mask is zero and its equation is dropped."""

    def __init__(self, dot, approach, itype, mask=None):
        self.dot = dot
        self.approach = approach
        self.itype = itype
        self.mask = dot.samecharge if mask is None else (mask & dot.samecharge)
        I0, I1 = dot.integrals(itype)
        self.I0, self.I1 = I0, I1
        self.de = dot.E[:, None] - dot.E[None, :]
        # golden-rule factors at E_c - E_b: electron in 2 pi f, electron out 2 pi (1-f)
        self.fin = -2*I0.imag
        self.fout = 2*I1.imag
        if approach == 'Lindblad':
            n = dot.n
            self.jump = np.zeros((dot.nleads, n, n), dtype=complex)
            for l in range(dot.nleads):
                for c in range(n):
                    for b in range(n):
                        if dot.N[c] == dot.N[b] + 1:
                            self.jump[l, c, b] = np.sqrt(max(self.fin[l, c, b], 0))*dot.up[l, c, b]
                            self.jump[l, b, c] = np.sqrt(max(self.fout[l, c, b], 0))*np.conj(dot.up[l, c, b])

    def phi1(self, rho):
        """Phi_l[c, b], the energy-integrated current amplitudes (1vN and Redfield)."""
        U = self.dot.up
        if self.approach == '1vN':
            return np.array([self.I0[l]*(U[l] @ rho) + self.I1[l]*(rho @ U[l]) for l in range(self.dot.nleads)])
        return np.array([(self.I0[l]*U[l]) @ rho + rho @ (U[l]*self.I1[l]) for l in range(self.dot.nleads)])

    def phi1_energy(self, rho):
        U, de = self.dot.up, self.de
        if self.approach == '1vN':
            return np.array([de*(self.I0[l]*(U[l] @ rho) + self.I1[l]*(rho @ U[l]))
                             for l in range(self.dot.nleads)])
        return np.array([(de*self.I0[l]*U[l]) @ rho + rho @ (U[l]*self.I1[l]*de) for l in range(self.dot.nleads)])

    def rates(self):
        """(l, to, from) golden-rule rates (Pauli)."""
        d = self.dot
        W = np.abs(d.up)**2*self.fin
        for l in range(d.nleads):
            W[l] += (np.abs(d.up[l])**2*self.fout[l]).T
        return W

    def rhs(self, rho):
        """d rho/dt restricted to the mask."""
        d = self.dot
        rho = np.where(self.mask, rho, 0)
        if self.approach == 'Pauli':
            W = self.rates().sum(0)
            p = np.diag(rho)
            out = np.diag(W @ p - W.sum(0)*p)
        elif self.approach == 'Lindblad':
            out = -1j*self.de*rho
            # jump operators act within fixed charge change: in and out of each lead are separate channels
            for l in range(d.nleads):
                J = self.jump[l]
                up = np.where(d.N[:, None] > d.N[None, :], J, 0)
                dn = np.where(d.N[:, None] < d.N[None, :], J, 0)
                for L in (up, dn):
                    LL = L.conj().T @ L
                    out = out + L @ rho @ L.conj().T - 0.5*(LL @ rho + rho @ LL)
        else:
            out = self.de*rho
            phi = self.phi1(rho)
            for l in range(d.nleads):
                U, P = d.up[l], phi[l]
                Ud, Pd = U.conj().T, P.conj().T
                out = out + U @ Pd - P @ Ud + Ud @ P - Pd @ U
            out = -1j*out
        return np.where(self.mask, out, 0)

    def currents(self, rho):
        """(particle, energy, heat) currents into the dot per lead, and a size scale for tolerances."""
        d = self.dot
        rho = np.where(self.mask, rho, 0)
        if self.approach == 'Pauli':
            W, p = self.rates(), np.diag(rho).real
            dN = d.N[:, None] - d.N[None, :]
            cur = np.einsum('lab,ab,b->l', W, dN, p)
            ecur = np.einsum('lab,ab,b->l', W, self.de, p)
        elif self.approach == 'Lindblad':
            cur, ecur = np.zeros(d.nleads), np.zeros(d.nleads)
            for l in range(d.nleads):
                for sgn in (1, -1):
                    L = np.where((d.N[:, None] - d.N[None, :]) == sgn, self.jump[l], 0)
                    R = L @ rho @ L.conj().T
                    cur[l] += sgn*np.trace(R).real
                    # energy E_after - (E_b + E_b')/2 weighted with the same amplitudes
                    M = L.conj().T @ L
                    ME = L.conj().T @ (d.E[:, None]*L)
                    H = np.diag(d.E)
                    ecur[l] += (np.trace(ME @ rho) - 0.5*np.trace(M @ (H @ rho + rho @ H))).real
        else:
            P, PE = self.phi1(rho), self.phi1_energy(rho)
            cur = np.array([-2*np.trace(d.up[l].conj().T @ P[l]).imag for l in range(d.nleads)])
            ecur = np.array([-2*np.trace(d.up[l].conj().T @ PE[l]).imag for l in range(d.nleads)])
        return cur, ecur, ecur - d.mu*cur

    def norm(self):
        """An upper-bound-like size of the generator, for tolerances."""
        d = self.dot
        n = d.n
        g = 0.0
        for l in range(d.nleads):
            a = np.abs(d.up[l])
            w = np.maximum(np.abs(self.I0[l]), np.abs(self.I1[l]))
            g += (a*w).sum(axis=None)*a.max(initial=0)
        om = np.abs(np.where(self.mask, self.de, 0)).max(initial=0)
        return 4*g + om + 1e-300

    def superop(self):
        """Matrix of rhs on the masked elements (column by column) and the list of elements."""
        els = [tuple(x) for x in np.argwhere(self.mask)]
        if self.approach == 'Pauli':
            els = [e for e in els if e[0] == e[1]]
        M = np.zeros((len(els), len(els)), dtype=complex)
        for j, e in enumerate(els):
            r = np.zeros((self.dot.n, self.dot.n), dtype=complex)
            r[e] = 1
            # rhs is complex-linear on Hermitian matrices only
            out = self.rhs(0.5*(r+r.conj().T)) + 1j*self.rhs(-0.5j*(r-r.conj().T))
            M[:, j] = [out[k] for k in els]
        return M, els


class Phonons(object):
    """Phonon part of the same equations.  V[l, b, bp] couplings, dos(l, w) spectral density.

    Transition rates 2 pi dos n_B(w) for absorption (E_b > E_bp) and 2 pi dos (1 + n_B) for emission, zero when |w| is
    outside the band; |w| is kept above eps T and states closer than this have the same energy.  The coupling operator is V or its adjoint with probability 1/2 each."""

    def __init__(self, fo, V, temp, dband, dos, eps=1e-6, pv=None):
        """pv(alpha, T, Rm, Rp, dos, emission): principal values to be added (dimensionless arguments)."""
        self.fo, self.V = fo, np.asarray(V, dtype=complex)
        E, n = fo.dot.E, fo.dot.n
        nb = self.V.shape[0]
        self.up = np.zeros((nb, n, n))      # pi dos n_B at E_b - E_bp > 0
        self.down = np.zeros((nb, n, n))    # pi dos (1 + n_B) at E_b - E_bp > 0
        self.val = np.zeros((nb, n, n))     # rate factor of bp -> b
        self.pv = np.zeros((2, nb, n, n))
        for l in range(nb):
            lo, hi = max(dband[l][0], 0.9*eps*temp[l]), dband[l][1]
            for b in range(n):
                for a in range(n):
                    if not fo.dot.samecharge[b, a]:
                        continue
                    w = E[b]-E[a]
                    x = max(abs(w), eps*temp[l])
                    # one half of the absorption and of the emission for states with the same energy
                    same = a == b or abs(w) < eps*temp[l]
                    if pv is not None:
                        t = temp[l]
                        for k in range(2):
                            self.pv[k, l, b, a] = pv((x if w >= 0 or same else -x)/t, t, lo/t, hi/t, lambda y: dos(l, y), k == 1)[0]
                    if not lo < x < hi:
                        continue
                    nB, d = 1/np.expm1(x/temp[l]), dos(l, x)
                    self.val[l, b, a] = 2*np.pi*d*(nB if w >= 0 else 1+nB)
                    if w >= 0 or same:
                        half = 0.5 if same else 1.0
                        self.up[l, b, a] = half*np.pi*d*nB
                        self.down[l, b, a] = half*np.pi*d*(1+nB)

    def rates(self):
        x = 0.5*(np.abs(self.V)**2+np.abs(self.V.transpose(0, 2, 1))**2)
        return x*self.val*~np.eye(self.fo.dot.n, dtype=bool)

    def size(self):
        """Size of the generator."""
        x = 0.5*(np.abs(self.V)**2+np.abs(self.V.transpose(0, 2, 1))**2)
        y = self.val+np.abs(self.pv).max(axis=0)
        return (np.sqrt(x*y).sum(axis=(1, 2))**2).sum() + (x*y).sum()

    def largest(self):
        """Bound of the terms of the kernel: in the 1vN approach all couplings meet the functions at zero energy."""
        x = 0.5*(np.abs(self.V)**2+np.abs(self.V.transpose(0, 2, 1))**2)
        return (x.sum(axis=(1, 2))*self.val.max(axis=(1, 2), initial=0)).sum()

    def rhs(self, rho):
        fo, k = self.fo, self.fo.approach
        rho = np.where(fo.mask, rho, 0)
        out = np.zeros_like(rho, dtype=complex)
        if k == 'Pauli':
            W, p = self.rates().sum(0), np.diag(rho)
            return np.diag(W @ p - W.sum(0)*p)
        for l in range(self.V.shape[0]):
            for X in (self.V[l], self.V[l].conj().T):
                if k == 'Lindblad':
                    L = np.sqrt(0.5*self.val[l])*X
                    LL = L.conj().T @ L
                    out = out + L @ rho @ L.conj().T - 0.5*(LL @ rho + rho @ LL)
                else:
                    a, b = self.pv[0, l]-1j*self.up[l], self.pv[1, l]+1j*self.down[l]
                    P = a*(X @ rho) + b*(rho @ X) if k == '1vN' else (a*X) @ rho + rho @ (b*X)
                    Xd, Pd = X.conj().T, P.conj().T
                    out = out - 0.5j*(X @ Pd - P @ Xd + Xd @ P - Pd @ X)
        return np.where(fo.mask, out, 0)


def well_posed(fo, rel=1e-7):
    """Is the stationary state of the reference equations clearly unique (second smallest singular value)?"""
    M, els = fo.superop()
    if not np.isfinite(M).all():
        return False
    if len(els) == 1:
        return True
    sv = np.linalg.svd(M, compute_uv=False)
    G = 2*np.pi*(np.abs(fo.dot.up)**2).sum()
    return sv[-2] > rel*max(sv[0], G)


# ------------------------------------------------------------------------------------------------
# polygamma functions and the second-order integrals, as exact Matsubara sums

_BERN = {2: 1/6, 4: -1/30, 6: 1/42, 8: -1/30, 10: 5/66, 12: -691/2730, 14: 7/6}


def polygamma_c(z, K):
    """K-th derivative of the digamma function: recurrence up to Re z >= 40, then the asymptotic series."""
    from math import factorial
    z = complex(z)
    s, big = 0, 0.0
    if K == 0:
        while z.real < 40:
            s -= 1/z
            big = max(big, abs(1/z))
            z += 1
        s += np.log(z) - 1/(2*z)
        for k, b in _BERN.items():
            s -= b/(k*z**k)
        return s, max(big, abs(s))
    sg = (-1)**(K+1)
    while z.real < 40:
        t = sg*factorial(K)/z**(K+1)
        s += t
        big = max(big, abs(t))
        z += 1
    t = factorial(K-1)/z**K + factorial(K)/(2*z**(K+1))
    for k, b in _BERN.items():
        t += b*factorial(k+K-1)/factorial(k)/z**(k+K)
    return s+sg*t, max(big, abs(s+sg*t))


_GL60 = np.polynomial.legendre.leggauss(60)


def matsubara_sum(g, N=400):
    """sum_{k >= 0} g(k + 1/2) for a smooth g that decays like log(k)/k^2 (Euler-Maclaurin tail)."""
    s = g(np.arange(N)+0.5).sum()
    tot = 0
    for j in range(45):
        k = N*np.exp(0.5*_GL60[0]+0.5+j)
        tot = tot + 0.5*np.sum(_GL60[1]*g(k)*k)
    h = 0.01*N
    dg = (g(np.array([N+h]))-g(np.array([N-h])))[0]/(2*h)
    return s+tot+dg/24


def second_order_integral(kind, p1, eta1, E, T1, T2, mu1, mu2, D):
    """The direct ('D') and exchange ('X') second-order integrals in the wide-band limit, complex."""
    z1, z2, z3 = -E[0], -E[1], -E[2]
    m2 = eta1*mu2
    B = D/2
    pt1, pt2 = 2*np.pi*T1, 2*np.pi*T2
    N = int(400 + 4*max(abs(z1+mu1), abs(z3+mu1), abs(z2+mu1+m2), abs(z2-z3+mu1))/pt1 + 40*T2/T1)

    def psi_a(x):
        return digamma_c(0.5+x/pt2-1j*(z2+mu1+m2)/pt2)
    if kind == 'D':
        f1 = -8j*np.pi*T1*matsubara_sum(
            lambda k: (np.log(B/pt1)-psi_a(pt1*k))/((pt1*k-1j*(z3+mu1))*(pt1*k-1j*(z1+mu1))), N)
        f2 = -2*np.pi*pt1*matsubara_sum(lambda k: 1/((pt1*k-1j*(z3+mu1))*(pt1*k-1j*(z1+mu1))), N)
        return -0.25j*(p1*f1-f2)
    b = digamma_c(0.5-1j*(z3+m2)/pt2)
    f = matsubara_sum(lambda k: (psi_a(pt1*k)-b)/(pt1*k-1j*(z2-z3+mu1))/(pt1*k-1j*(z1+mu1)), N)
    return -0.25j*p1*(-8j*np.pi*T1)*f


# ------------------------------------------------------------------------------------------------
# a single non-interacting level: exact stationary transport (constant density of states between Dm and Dp)

_GL40 = np.polynomial.legendre.leggauss(40)


def landauer_level(eps, v, mu, T, Dm, Dp):
    """(particle currents, energy currents, occupation) of the level eps coupled by amplitudes v[l] to its leads."""
    v2 = np.abs(np.asarray(v))**2
    g = 2*np.pi*v2
    G = max(g.sum(), 1e-12)
    pts = {Dm, Dp}
    for c, w in [(eps, G)]+list(zip(mu, T))+[(Dm, 0.5), (Dp, 0.5)]:
        if Dm < c < Dp:
            pts.add(c)
        for k in range(-12, 30):
            for sg in (-1, 1):
                x = c+sg*w*2.0**(k/2)
                if Dm < x < Dp:
                    pts.add(x)
    pts = np.array(sorted(pts))
    h = 0.5*(pts[1:]-pts[:-1])[:, None]
    x = (h*_GL40[0]+0.5*(pts[1:]+pts[:-1])[:, None]).ravel()
    w = (h*_GL40[1]).ravel()
    lam = np.log(np.abs((x-Dm)/(Dp-x)))
    A = 1/((x-eps-v2.sum()*lam)**2+(G/2)**2)
    f = np.array([fermi((x-m)/t) for m, t in zip(mu, T)])
    tot = (g[:, None]*f).sum(0)
    I = np.array([np.sum(w*g[l]*A*(g.sum()*f[l]-tot)) for l in range(len(g))])/(2*np.pi)
    J = np.array([np.sum(w*x*g[l]*A*(g.sum()*f[l]-tot)) for l in range(len(g))])/(2*np.pi)
    return I, J, np.sum(w*A*tot)/(2*np.pi)
