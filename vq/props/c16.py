"""Special functions equal what they denote."""

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import Sub

RULE = ('non-trivial: the value is neither zero nor an exponentially saturated limit')
ASSUMPTIONS = [
    'finite arguments; poles (Bose function at 0, polygamma at non-positive integers, exact band edges) excluded',
    'itype 0: accuracy 1e-6 as requested from QUADPACK; arguments at which QUADPACK itself is wrong are a known finding',
    'second-order integrals: wide band, energy differences either coinciding (below 1e-10 T) or above 1e-3 T',
    'spectral densities of the baths are smooth']


def impl(case):
    if case['py']:
        import qmeq.specfunc.specfunc as m
        return m, ''
    import qmeq.specfunc.c_specfunc as m
    return m, 'c_'


# ---- thermal occupation functions

@st.composite
def thermal(draw):
    return dict(py=draw(st.booleans()), x=draw(gen.num(-40, 40)), y=draw(gen.num(-40, 40)),
                scale=draw(st.sampled_from([1, 1, 1e-6, 1e-3, 20, 1e3, 1e6])), sign=draw(st.sampled_from([1, -1])))


def check_thermal(ctx, case):
    m, pre = impl(case)
    fermi, dfermi, bose = (getattr(m, pre+k) for k in ('fermi_func', 'diff_fermi', 'bose'))
    x, y, s = case['x']*case['scale'], case['y']*case['scale'], case['sign']
    ctx.label('Python' if case['py'] else 'compiled', 'scale %g' % case['scale'], 'sign %d' % s)
    ctx.nontrivial(abs(x) < 300)
    with np.errstate(all='raise', under='ignore'):
        f, want = fermi(x), float(ref.fermi(x))
        ctx.require(0 <= f <= 1, lambda: 'fermi_func(%r) = %r is no occupation' % (x, f))
        ctx.close(f, want, 4e-15*want*max(1, abs(x))+1e-300, 'fermi_func(%r)' % x)
        ctx.close(f+fermi(-x), 1.0, 1e-15, 'fermi_func(x)+fermi_func(-x)')
        if x < y:
            ctx.require(f >= fermi(y), lambda: 'fermi_func increases from %r to %r' % (x, y))
        d = dfermi(x, s)
        want = -s*float(ref.fermi(x)*ref.fermi(-x))
        ctx.close(d, want, 4e-15*abs(want)*max(1, abs(x))+1e-150, 'diff_fermi(%r, %d)' % (x, s))
        if x != 0:
            b = bose(x, s)
            want = float(ref.bose(s*x))
            ctx.close(b, want, 4e-15*abs(want)*max(1, abs(x), abs(1/x))+1e-300, 'bose(%r, %d)' % (x, s))
        if s == 1:
            ctx.close(dfermi(x), dfermi(x, 1), 0, 'default sign of diff_fermi')
            if x != 0:
                ctx.close(bose(x), bose(x, 1), 0, 'default sign of bose')


# ---- digamma, polygamma and the phi functions

@st.composite
def gamma(draw):
    return dict(py=draw(st.booleans()), K=draw(st.integers(0, 4)), x=draw(gen.num(-30, 30)), y=draw(gen.num(-30, 30)),
                xs=draw(st.sampled_from([1, 1, 0.1, 1e-3, 10])), ys=draw(st.sampled_from([1, 1, 0, 1e-3, 0.1, 10, 300])),
                D=draw(gen.num(30, 300, 1)), D2=draw(gen.num(30, 300, 1)), sign=draw(st.sampled_from([1, -1])))


def check_gamma(ctx, case):
    m, pre = impl(case)
    K, s = case['K'], case['sign']
    z = complex(case['x']*case['xs'], case['y']*case['ys'])
    ctx.label('Python' if case['py'] else 'compiled', 'K=%d' % K)
    n = round(z.real)
    if z.real > 0.5 or abs(z-n) > 0.05:
        want, big = ref.polygamma_c(z, K)
        left = z.real < 0
        # the reflection formula cancels exponentially small terms against the regular part
        tol = 1e-13*max(big, abs(want))*max(1, abs(z))
        if left:
            tol += 1e-13*(np.pi**(K+1)*10*(1+abs(1/(z-n)))**(K+1))*max(1, abs(z))
        if z.real >= 0 or not (z.real == 0 and z.imag == 0):
            ctx.label('left half-plane' if left else 'right half-plane')
            ctx.nontrivial()
            if abs(z) > 0.05:
                ctx.close(getattr(m, pre+'polygamma')(z, K), want, tol, 'polygamma(%r, %d)' % (z, K))
                if K == 0 and (z.real > 0 or left):
                    ctx.close(getattr(m, pre+'digamma')(z), want, tol+1e-12, 'digamma(%r)' % z)
    x = case['y']*case['ys']
    Dp, Dm = case['D'], -case['D2']
    Z = 0.5+1j*x/(2*np.pi)
    p0 = -ref.polygamma_c(Z, 0)[0].real+np.log(0.5*(Dp-Dm)/(2*np.pi))
    ctx.close(getattr(m, pre+'phi')(x, Dp, Dm, s), s*p0, 1e-13*(1+abs(p0)), 'phi(%r)' % x)
    ctx.close(getattr(m, pre+'diff_phi')(x, s), s*ref.polygamma_c(Z, 1)[0].imag/(2*np.pi), 1e-13, 'diff_phi(%r)' % x)
    ctx.close(getattr(m, pre+'diff2_phi')(x, s), s*ref.polygamma_c(Z, 2)[0].real/(2*np.pi)**2, 1e-13, 'diff2_phi(%r)' % x)
    x2 = case['x']*case['xs']
    p2 = -ref.polygamma_c(0.5+1j*x2/(2*np.pi), 0)[0].real+np.log(0.5*(Dp-Dm)/(2*np.pi))
    ctx.close(getattr(m, pre+'delta_phi')(x, x2, Dp, Dm, s), s*(p0-p2), 1e-13*(1+abs(p0)+abs(p2)), 'delta_phi')


# ---- first-order integrals

@st.composite
def first_order(draw):
    D = draw(gen.num(5, 300, 1))
    return dict(py=draw(st.booleans()), itype=draw(st.integers(0, 3)), E=draw(gen.num(-20, 20)), mu=draw(gen.num(-20, 20)),
                T=draw(gen.num(0.25, 8)), D=D, D2=draw(st.one_of(st.just(D), gen.num(5, 300, 1))),
                s=draw(st.sampled_from([1, 1, 1, 1e-4, 1e-2, 50, 1e4])),
                where=draw(st.sampled_from(['', '', '', '', 'lo', 'hi', 'below', 'above', 'cold'])))


def check_first_order(ctx, case):
    m, pre = impl(case)
    s, itype = case['s'], case['itype']
    Dm, Dp = -case['D']*s, case['D2']*s
    T, mu = case['T']*s, case['mu']*s
    if case['where'] == 'cold':
        T *= 1e-2
    E = {'lo': Dm+0.01*(Dp-Dm), 'hi': Dp-0.01*(Dp-Dm), 'below': Dm-0.3*T, 'above': Dp+2*T}.get(case['where'], case['E']*s)
    ctx.label('Python' if case['py'] else 'compiled', 'itype %d' % itype, 'scale %g' % s)
    if min(abs(E-Dm), abs(E-Dp)) < 1e-3*T:
        ctx.skip('energy at a band edge')
    I0, I1 = ref.first_order_integrals(E, mu, T, Dm, Dp, itype)
    P = getattr(m, pre+'func_pauli')(E, mu, T, Dm, Dp, itype)
    f = float(ref.fermi((E-mu)/T))
    band = itype in (1, 3) or Dm < E < Dp
    want = 2*np.pi*np.array([f, 1-f])*band
    ctx.close(P, want, 1e-13, 'func_pauli(%s)' % ([E, mu, T, Dm, Dp, itype],))
    tol = 1e-13*(1+abs(I0)+abs(I1))
    if itype == 0:
        if not ref.quadpack_ok(E, mu, T, Dm, Dp) and not case.get('strict'):
            ctx.skip('QUADPACK does not evaluate this integral to the documented accuracy (known finding)')
        tol = 1e-5*max(1, abs(I0))
    ctx.nontrivial(band)
    ctx.label('inside the band' if Dm < E < Dp else 'outside the band')
    got = getattr(m, pre+'func_1vN')(E, mu, T, Dm, Dp, itype, 10000)
    ctx.require(np.shape(got) == (4,), 'func_1vN does not return four values')
    ctx.close(got[:2], np.array([I0, I1]), tol, 'func_1vN(%s) particle part' % ([E, mu, T, Dm, Dp, itype],))
    ctx.close(got[:2].imag, np.array([I0, I1]).imag, 1e-13, 'golden-rule part of func_1vN')
    ctx.close(2*got[:2].imag, np.array([-1, 1])*P, 1e-13, 'func_1vN against func_pauli')
    # energy part: x f(x)/(x-E) = f(x) + E f(x)/(x-E)
    if itype == 0:
        # int f and -int (1-f) over the band, with log(1+e^x) evaluated stably
        c0 = T*(np.logaddexp(0, -(Dm-mu)/T)-np.logaddexp(0, -(Dp-mu)/T))
        c1 = c0+Dm-Dp
    elif itype == 1:
        c0, c1 = -Dm, -Dp
    else:
        c0 = c1 = 0
    en = np.array([c0+E*I0, c1+E*I1])
    ctx.close(got[2:], en, tol*abs(E)+1e-12*(abs(Dm)+abs(Dp))+1e-13*np.abs(en).max(), 'func_1vN energy part')


# ---- Hilbert transform

@st.composite
def hilbert(draw):
    n = draw(st.integers(1, 40))
    return dict(py=True, f=[draw(gen.num(-4, 4)) for _ in range(n)], g=draw(st.booleans()), h=draw(gen.num(-2, 2)),
                ker=draw(st.booleans()), k=draw(st.integers(0, 39)))


def check_hilbert(ctx, case):
    import qmeq.specfunc.specfunc as m
    f = np.array(case['f'], dtype=complex if case['g'] else float)
    if case['g']:
        f = f + 1j*f[::-1]*case['h']
    n = len(f)
    before = f.copy()
    got = m.hilbert_fredriksen(f, m.kernel_fredriksen(n)) if case['ker'] else m.hilbert_fredriksen(f)
    ctx.label('n %s' % ('1' if n == 1 else '<8' if n < 8 else '>=8'), 'complex' if case['g'] else 'real')
    ctx.nontrivial(n > 2 and np.abs(f).max() > 0)
    ctx.require((f == before).all(), 'the input of the Hilbert transform changed')
    # the transform -(1/pi) P int f(y)/(y-x) dy ... of the function interpolated linearly on the grid, zero outside:
    # each point carries a hat function, whose transform at distance d is the second difference of d log|d|
    d = np.arange(n)[:, None]-np.arange(n)[None, :]
    a = np.abs(d).astype(float)

    def xlogx(x):
        return np.where(x == 0, 0.0, x*np.log(np.where(x == 0, 1.0, np.abs(x))))
    M = (xlogx(d+1.0)-2*xlogx(d+0.0)+xlogx(d-1.0))/np.pi
    want = M @ f
    ctx.require(got.shape == (n,), 'wrong length')
    ctx.close(got, want, 1e-12*(1+np.abs(f).max())*(1+a.max()), 'hilbert_fredriksen')


@st.composite
def lorentz(draw):
    return dict(x0=draw(gen.num(-3, 3)), w=draw(gen.num(1, 3)), n=draw(st.integers(1000, 2000)), f=draw(st.booleans()))


def check_lorentz(ctx, case):
    """Convergence to the analytic transform: P(1/pi) int dy L(y)/(x-y) of a Lorentzian is (x-x0)/((x-x0)^2+w^2)/pi."""
    import qmeq.specfunc.specfunc as m
    x = np.linspace(-200, 200, case['n'])
    u, w = x-case['x0'], case['w']
    f = w/np.pi/(u**2+w**2)
    want = u/np.pi/(u**2+w**2)
    got = m.hilbert_fredriksen(f)
    ctx.nontrivial()
    ctx.label('Lorentzian')
    mid = np.abs(x) < 20
    ctx.close(np.imag(got), np.zeros(len(x)), 1e-12, 'imaginary part of the transform of a real function')
    ctx.close(got.real[mid], want[mid], 0.03/w, 'Hilbert transform of a Lorentzian')


# ---- second-order integrals and the Ozaki expansion

@st.composite
def second_order(draw):
    return dict(py=draw(st.booleans()), kind=draw(st.sampled_from('DX')), p1=draw(st.sampled_from([1, -1])),
                eta=draw(st.sampled_from([1, -1])), E=[draw(gen.num(-6, 6)) for _ in range(3)],
                mu=[draw(gen.num(-3, 3)) for _ in range(2)], T=[draw(gen.num(0.25, 3)) for _ in range(2)],
                same=draw(st.sampled_from(['T', 'T', ''])), co=draw(st.sampled_from(['', '', 'pair', 'sum', 'both', 'near'])),
                s=draw(st.sampled_from([1, 1, 1, 10, 0.01])), im=draw(st.booleans()), D=draw(gen.num(100, 1000, 1)))


def check_second_order(ctx, case):
    m, pre = impl(case)
    s, eta, kind = case['s'], case['eta'], case['kind']
    E1, E2, E3 = [e*s for e in case['E']]
    mu1, mu2 = [v*s for v in case['mu']]
    T1, T2 = [v*s for v in case['T']]
    if case['same']:
        T2 = T1
    # coincidences that the degenerate branches serve, in terms of the arguments
    if case['co'] in ('pair', 'both', 'near'):
        E3 = E1 if kind == 'D' else E2-E1
    if case['co'] in ('sum', 'both', 'near'):
        E2 = mu1+eta*mu2
        if kind == 'X' and case['co'] != 'sum':
            E3 = E2-E1
    if case['co'] == 'near':
        E3 += 2e-3*T1
    D = case['D']*max(T1, T2, abs(E1), abs(E2), abs(E3), abs(mu1), abs(mu2), 1e-3)*4
    l1, l2 = (E1-mu1)/T1, (E2-mu1-eta*mu2)/T1
    l3 = (E3-mu1)/T1 if kind == 'D' else (E3-eta*mu2)/T1
    gaps = [abs(l2), abs(l1-l3) if kind == 'D' else abs(l2-l1-l3)]
    if any(1e-11 < g < 1e-3 for g in gaps):
        ctx.skip('nearly coinciding energies')
    digam = case['same'] and not case['im']
    ctx.label('Python' if case['py'] else 'compiled', kind, 'digamma branch' if digam else 'Ozaki branch',
              'coinciding' if case['co'] else 'generic')
    ctx.nontrivial()
    fun = getattr(m, pre+'integral'+kind)
    # the Ozaki expansion must reach the cutoff D/(2 T2) in units of the second temperature
    oz = np.array(getattr(m, pre+'BW_Ozaki')(min(D/T2, 4000.0)))

    def lib(E2):
        return fun(case['p1'], eta, E1, E2, E3, T1, T2, mu1, mu2, D, oz, bool(case['im']))

    def want(E2):
        return ref.second_order_integral(kind, case['p1'], eta, (E1, E2, E3), T1, T2, mu1, mu2, D)
    size = np.pi/T1*(1+abs(np.log(D/T1)))
    if digam:
        small = min([g for g in gaps if g > 1e-9]+[1.0])
        ctx.close(lib(E2), want(E2).real, size*(1e-9+1e-12/small**2), 'integral%s at equal temperatures' % kind)
        return
    cut = min(D/2/T2, 2000.0)
    reach = 3*size*(1+np.log(cut))/(cut*min(1, T1/T2, T2/T1))*(1+T2/T1)
    if kind == 'X':
        ctx.close(lib(E2), want(E2), reach, 'integralX (Ozaki expansion)')
    else:
        # the logarithm of the cutoff may be normalised by either temperature: compare differences in E2
        if case['same']:
            ctx.close(lib(E2), want(E2), reach, 'integralD (Ozaki expansion)')
        E2b = E2+3*T2
        ctx.close(lib(E2b)-lib(E2), want(E2b)-want(E2), reach, 'integralD (Ozaki expansion) as a function of its energy')


@st.composite
def ozaki(draw):
    return dict(py=draw(st.booleans()), D=draw(gen.num(4, 400, 1)), f=draw(st.sampled_from([1, 1, 4])), x=draw(gen.num(-30, 30)),
                N=draw(st.integers(1, 60)))


def check_ozaki(ctx, case):
    m, pre = impl(case)
    D = case['D']*case['f']
    ctx.label('Python' if case['py'] else 'compiled')
    ctx.nontrivial()
    for what, br in (('BW_Ozaki(%g)' % D, np.array(getattr(m, pre+'BW_Ozaki')(D))),
                     ('Ozaki(%d)' % (2*case['N']), np.array(getattr(m, pre+'Ozaki')(2*case['N'])))):
        ctx.require(br.ndim == 2 and br.shape[1] == 2, what+': wrong shape')
        order = np.argsort(br[:, 0])[::-1]
        b, R = 1/br[order, 0], br[order, 1]
        ctx.require((b > 0).all() and (R > 0).all(), what+': poles and residues must be positive')
        if what.startswith('BW'):
            # documented: the largest pole is roughly the bandwidth (number of poles fitted empirically)
            ctx.require(0.5*D-20 <= b[-1] <= 2*D+40, lambda: '%s reaches %g' % (what, b[-1]))
        else:
            ctx.require(len(b) == case['N'], what+': N/2 poles expected')
        # the leading poles are Matsubara frequencies with residue one
        k = (len(b)+1)//3 if len(b) > 1 else 0
        ctx.close(b[:k], np.pi*(2*np.arange(k)+1), 5e-3*b[:k].max(initial=0), what+': leading poles')
        ctx.close(R[:k], np.ones(k), 0.05, what+': leading residues')
        # f(x) = 1/2 - sum R 2x/(x^2+b^2): accurate for |x| well below the number of poles
        x = case['x']
        if len(b) >= 3 and abs(x) <= len(b)/2 or len(b) >= 8 and abs(x) <= 1.5*len(b):
            fx = 0.5-np.sum(2*R*x/(x*x+b*b))
            ctx.close(fx, float(ref.fermi(x)), 1e-10 if len(b) >= 4 else 1e-9, what+': expansion of the Fermi function at %g' % x)


# ---- phonon functions

@st.composite
def phonon(draw):
    nb = draw(st.integers(1, 2))
    return dict(py=draw(st.booleans()), nb=nb, T=[draw(gen.num(0.25, 4)) for _ in range(nb)],
                lo=[draw(st.sampled_from([0.0, 0.0, 0.5, 1.0, 1e-6])) for _ in range(nb)],
                hi=[draw(gen.num(4, 40, 1)) for _ in range(nb)], dos=draw(st.sampled_from([None, 'const', 'lin', 'gauss'])),
                itype=draw(st.sampled_from([0, 2, 2])), eps=draw(st.sampled_from([1e-6, 1e-6, 1e-3])),
                w=[draw(st.tuples(st.integers(0, nb-1), gen.num(-45, 45), st.sampled_from([1, 1, 0.1, 0, 1e-8])))
                   for _ in range(draw(st.integers(1, 4)))])


def pv_phonon(alpha, T, Rm, Rp, dos, emit):
    """P int over [Rm, Rp] of (dos(Tx) n(x)) or (-dos(Tx)(1+n(x))), divided by (x - alpha)."""
    def g(x):
        n = 1/np.expm1(x)
        d = np.array([dos(T*v) for v in np.atleast_1d(x)])
        return -d*(1+n) if emit else d*n
    pts = {Rm, Rp}
    for k in range(60):
        v = Rm+Rm*2.0**k if Rm < 1 else Rm+0.5*k
        if Rm < v < Rp:
            pts.add(v)
    for v in np.linspace(Rm, Rp, 40):
        pts.add(float(v))
    inside = Rm < alpha < Rp
    if inside:
        for k in range(0, 25):
            for sg in (-1, 1):
                v = alpha+sg*alpha*0.5*2.0**(-k)
                if Rm < v < Rp:
                    pts.add(v)
    pts = sorted(pts)
    ga = g(np.array([alpha]))[0] if inside else 0.0
    xg, wg = ref._GL
    tot = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        x = 0.5*(b-a)*xg+0.5*(a+b)
        den = x-alpha
        ok = np.abs(den) > 1e-9*abs(alpha)
        tot += 0.5*(b-a)*np.sum(np.where(ok, wg*(g(x)-ga)/np.where(ok, den, 1.0), 0))
    if inside:
        tot += ga*np.log(abs((Rp-alpha)/(Rm-alpha)))
    return tot, (g(np.array([alpha]))[0] if inside else 0.0)


def check_phonon(ctx, case):
    import qmeq.specfunc.specfunc_elph as pm
    import qmeq.specfunc.c_specfunc_elph as cm
    m = pm if case['py'] else cm
    T = np.array(case['T'], dtype=float)
    dl = np.array([[a, b] for a, b in zip(case['lo'], case['hi'])], dtype=float)
    eps = case['eps']
    funcs = gen.bath_func(case['dos'], case['nb'], not case['py'])
    F = m.FuncPauliElPh(T, dl, funcs, eps)
    G = m.Func1vNElPh(T, dl, case['itype'], 10000, funcs, eps)
    ctx.label('Python' if case['py'] else 'compiled', 'itype %d' % case['itype'], 'dos %s' % case['dos'], '%d evaluations' % len(case['w']))
    for l, w, sc in case['w']:
        w = w*sc
        alpha = max(abs(w/T[l]), eps)*(1 if w >= 0 else -1)
        Rm, Rp = max(dl[l, 0]/T[l], 0.9*eps), dl[l, 1]/T[l]
        if min(abs(abs(alpha)-Rm), abs(abs(alpha)-Rp)) < 1e-9:
            continue
        n = 1/np.expm1(abs(alpha))
        dos = gen.dos_value(case['dos'], l, T[l]*abs(alpha))
        want = 2*np.pi*dos*(n if alpha > 0 else 1+n) if Rm < abs(alpha) < Rp else 0.0
        F.eval(w, l)
        ctx.close(F.val, want, 1e-9*abs(want)+1e-14, 'phonon rate at %r' % w)
        ctx.nontrivial(want != 0)
        if case['itype'] == 0 and abs(alpha) < 1e-3:
            continue
        G.eval(w, l)
        if case['itype'] == 2:
            want0 = -1j*np.pi*dos*n if Rm < alpha < Rp else 0.0
            want1 = 1j*np.pi*dos*(1+n) if Rm < alpha < Rp else 0.0
            ctx.close(G.val0, want0, 1e-9*abs(want0)+1e-14, 'phonon absorption amplitude at %r' % w)
            ctx.close(G.val1, want1, 1e-9*abs(want1)+1e-14, 'phonon emission amplitude at %r' % w)
        else:
            for val, emit in ((G.val0, False), (G.val1, True)):
                pv, ga = pv_phonon(alpha, T[l], Rm, Rp, lambda x: gen.dos_value(case['dos'], l, x), emit)
                want = pv-1j*np.pi*ga
                big = max(1, abs(want))
                if abs(val.real-pv) > 1e-4*big and not case.get('strict'):
                    # QUADPACK's own accuracy: only a wrong integrand is a violation
                    from scipy.integrate import quad
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        sg = (lambda x: -gen.dos_value(case['dos'], l, T[l]*x)*(1+1/np.expm1(x))) if emit else \
                            (lambda x: gen.dos_value(case['dos'], l, T[l]*x)/np.expm1(x))
                        q = quad(sg, Rm, Rp, weight='cauchy', wvar=alpha, epsabs=1e-6, epsrel=1e-6, limit=10000)[0]
                    if abs(q-pv) > 1e-5*big:
                        ctx.label('QUADPACK inaccurate')
                        continue
                ctx.close(val, want, 1e-4*big, 'phonon amplitude (principal value) at %r' % w)


SUBCHECKS = [
    Sub('thermal', thermal, check_thermal, 1500, 20000, 'argument within 300 of zero'),
    Sub('gamma', gamma, check_gamma, 1500, 20000, 'away from the poles'),
    Sub('first_order', first_order, check_first_order, 1500, 30000, 'energy inside the band, or infinite band', tshards=6),
    Sub('hilbert', hilbert, check_hilbert, 500, 6000, 'three or more grid points, not all zero'),
    Sub('lorentz', lorentz, check_lorentz, 30, 300, 'always'),
    Sub('second_order', second_order, check_second_order, 700, 12000, 'always', tshards=8),
    Sub('ozaki', ozaki, check_ozaki, 100, 800, 'always'),
    Sub('phonon', phonon, check_phonon, 600, 6000, 'non-zero rate'),
]
