"""Equivalent inputs give equal systems; the objects the caller passes are neither modified nor shared."""

import copy

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from .c08 import scales

RULE = ('non-trivial: at least one argument given in another form than a dictionary, a tunnelling amplitude and a '
        'finite current or coherence')
ASSUMPTIONS = ['observables are compared at rounding error over the smallest singular value of the kernel; degenerate '
               'levels are skipped where the approach depends on the choice of eigenvectors (Pauli, phonon rates)']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


# ---- the same data as different objects

def number(x, typ):
    z = complex(x)
    real = z.imag == 0
    if typ == 1:
        return np.complex128(z) if not real else np.float64(z.real)
    if typ == 2:
        return z
    if typ == 3 and real and z.real == int(z.real):
        return int(z.real)
    return z.real if real else z


def matrix(entries, shape, typ, conj=None):
    a = np.zeros(shape, dtype=complex)
    for key, x in entries.items():
        a[key] = x
        if conj:
            a[conj(key)] = np.conj(x)
    if typ == 0 and not a.imag.any():
        return a.real.copy()
    return a


def keyed(entries, form, typ, shape, alt=None):
    """entries: key tuple -> value.  Forms: dict, dict backwards, list of lists, list of tuples, array, other keys."""
    items = [(k, number(x, typ)) for k, x in entries.items()]
    if form == 1:
        items = items[::-1]
    if form == 2:
        return [list(k)+[x] for k, x in items[::-1]]
    if form == 3:
        return [tuple(k)+(x,) for k, x in items]
    if form == 4:
        return matrix(entries, shape, typ)
    if form == 5 and alt:
        return dict(alt(k, x) for k, x in items)
    return dict(items)


def form_hs(spec, form, typ, explicit=False):
    e, n = gen.hs_dict(spec), spec['n']
    if explicit:
        # for herm_hs=False
        e.update({(j, i): np.conj(x) for (i, j), x in list(e.items()) if i != j})
    if form == 6:
        return matrix(e, (n, n), typ, lambda k: k[::-1])
    return keyed(e, form, typ, (n, n), lambda k, x: (k[::-1], np.conj(x) if k[0] != k[1] else x))


def form_co(spec, form, typ):
    e = gen.co_dict(spec)
    if form in (4, 6):
        rows = [list(k)+[x] for k, x in e.items()]
        if not rows:
            return np.zeros((0, 5))
        a = np.array(rows)
        return a.real.copy() if typ == 0 and not a.imag.any() else a
    return keyed(e, form, typ, None, lambda k, x: ((k[1], k[0], k[3], k[2]), x))


def form_tl(spec, form, typ):
    return keyed(gen.tl_dict(spec), form, typ, (spec['nl'], spec['n']))


def form_v(ph, n, form, typ):
    return keyed(gen.velph_dict(ph), form, typ, (ph['nb'], n, n))


def form_lst(vals, form, typ):
    vals = [number(v, typ if typ != 2 else 0) for v in vals]
    if form in (1,):
        return {i: vals[i] for i in reversed(range(len(vals)))}
    if form in (2, 3):
        return list(vals)
    if form in (4, 6):
        return np.array(vals)
    if form == 5 and all(v == vals[0] for v in vals):
        return vals[0]
    return dict(enumerate(vals))


def form_band(d, form, typ):
    """d: [[lo, hi]] per lead."""
    d = [[float(a), float(b)] for a, b in d]
    sym = all(a == -b for a, b in d)
    if form == 5 and sym and all(x == d[0] for x in d):
        return number(d[0][1], typ if typ != 2 else 0)
    if form == 3 and sym:
        return [x[1] for x in d]
    if form == 6 and sym:
        return np.array([x[1] for x in d])
    if form == 4:
        return np.array(d)
    if form == 2:
        return [list(x) for x in d]
    if form == 1 and sym:
        return {i: x[1] for i, x in enumerate(d)}
    return {i: (tuple(x) if form % 2 else list(x)) for i, x in enumerate(d)}


def inputs(spec, forms, typ, explicit=False):
    kw = dict(hsingle=form_hs(spec, forms[0], typ, explicit), coulomb=form_co(spec, forms[1], typ),
              tleads=form_tl(spec, forms[2], typ), mulst=form_lst(spec['mu'], forms[3], typ),
              tlst=form_lst(spec['T'], forms[4], typ), dband=form_band(gen.dlst(spec).tolist(), forms[5], typ))
    if spec.get('ph'):
        ph = spec['ph']
        kw.update(velph=form_v(ph, spec['n'], forms[6], typ), tlst_ph=form_lst(ph['T'], forms[7], typ),
                  dband_ph=form_band(ph['D'], forms[8], typ))
    return kw


def scramble(x):
    """Change an object of the caller in place."""
    if isinstance(x, dict):
        for k in list(x):
            x[k] = (99.0, 99.5) if isinstance(x[k], (tuple, list)) else 7.5
        return
    if isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], list):
                x[i][-1] = 7.5
            else:
                x[i] = 9.0 if not isinstance(x[i], tuple) else x[i][:-1]+(7.5,)
        x.append(x[0] if x else 1)
        return
    if isinstance(x, np.ndarray):
        x[...] = 7.5


def same(a, b):
    """Deep equality including types, the order of keys and array types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)
    return a == b


def make(spec, kw, **over):
    import qmeq
    ph = spec.get('ph')
    args = dict(nsingle=spec['n'], nleads=spec['nl'], itype=spec['itype'], kerntype=spec['k'],
                indexing=spec['indexing'])
    args.update(kw)
    if ph:
        args.update(nbaths=ph['nb'], itype_ph=2, bath_func=gen.bath_func(ph['dos'], ph['nb'], not spec['k'].startswith('py')))
        args.update(over)
        return qmeq.Builder.elph(**args)
    args.update(over)
    return qmeq.Builder.base(**args)


def canonical(spec, explicit=False):
    return inputs(spec, [0]*9, 0, explicit)


@st.composite
def forms(draw, elph=False):
    spec = draw(gen.system(nmax=3, itypes=(1, 2, 2, 3)))
    if draw(st.integers(0, 3)) == 0:
        # equal parameters can be given as one number
        spec['mu'] = [spec['mu'][0]]*spec['nl']
        spec['T'] = [spec['T'][0]]*spec['nl']
    if draw(st.booleans()):
        spec['mu'] = [float(round(x)) for x in spec['mu']]
    spec['k'] = draw(st.sampled_from(['', '', '', 'py']))+draw(st.sampled_from(BASE))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['ph'] = draw(gen.phonons(spec['n'])) if elph else None
    spec['forms'] = draw(st.lists(st.integers(0, 6), min_size=9, max_size=9))
    spec['typ'] = draw(st.integers(0, 3))
    spec['mode'] = draw(st.sampled_from(['new', 'new', 'positional', 'add', 'change']))
    spec['late'] = draw(st.sampled_from(['construction', 'solve']))
    spec['explicit'] = draw(st.integers(0, 3)) == 0
    return spec


def split_spec(spec):
    """A system with a part of the entries, and the rest."""
    a, b = copy.deepcopy(spec), copy.deepcopy(spec)
    for key in ('hs', 'co', 'tl'):
        a[key] = [e for i, e in enumerate(spec[key]) if i % 2 == 0]
        # every second entry is added in halves
        b[key] = [e for i, e in enumerate(spec[key]) if i % 2]
    a['mu'] = [m-0.5 for m in spec['mu']]
    b['mu'] = [0.5]*spec['nl']
    a['T'] = [t/2 for t in spec['T']]
    b['T'] = [t/2 for t in spec['T']]
    d = gen.dlst(spec)
    a['D'] = (d/2).tolist()
    b['D'] = (d/2).tolist()
    if spec.get('ph'):
        a['ph']['v'] = spec['ph']['v'][::2]
        b['ph']['v'] = spec['ph']['v'][1::2]
        a['ph']['T'] = [t/2 for t in spec['ph']['T']]
        b['ph']['T'] = [t/2 for t in spec['ph']['T']]
        a['ph']['D'] = b['ph']['D'] = (np.array(spec['ph']['D'])/2).tolist()
    return a, b


def other_spec(spec):
    """The same entries with other values."""
    a = copy.deepcopy(spec)
    for key in ('hs', 'co', 'tl'):
        a[key] = [e[:-2]+[-0.5*e[-2]+0.125, 0.0] for e in spec[key]]
    a['mu'] = [m-0.5 for m in spec['mu']]
    a['T'] = [t*2 for t in spec['T']]
    a['D'] = (gen.dlst(spec)/2).tolist()
    if spec.get('ph'):
        a['ph']['v'] = [e[:-2]+[0.25, 0.0] for e in spec['ph']['v']]
        a['ph']['T'] = [t*2 for t in spec['ph']['T']]
        a['ph']['D'] = (np.array(spec['ph']['D'])*2).tolist()
    return a


ARGS = ['hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dband', 'velph', 'tlst_ph', 'dband_ph']


def renamed(kw):
    return {{'dband': 'dlst', 'dband_ph': 'dlst_ph'}.get(k, k): v for k, v in kw.items()}


def build_in_mode(spec, ctx):
    """Returns (system, objects the caller passed, their copies)."""
    import qmeq
    fs, typ, mode = list(spec['forms']), spec['typ'], spec['mode']
    explicit = spec.get('explicit', False)
    over = dict(herm_hs=False) if explicit else {}
    if mode in ('add', 'change'):
        # entries are found by their keys
        fs = [f if not (f == 5 and i in (0, 1)) else 0 for i, f in enumerate(fs)]
    if mode in ('new', 'positional'):
        kw = inputs(spec, fs, typ, explicit)
        old = copy.deepcopy(kw)
        if mode == 'positional' and not spec.get('ph'):
            s = qmeq.Builder.base(spec['n'], kw['hsingle'], kw['coulomb'], spec['nl'], kw['tleads'], kw['mulst'],
                                  kw['tlst'], kw['dband'], itype=spec['itype'], kerntype=spec['k'],
                                  indexing=spec['indexing'], **over)
        else:
            s = make(spec, kw, **over)
        return s, kw, old
    if mode == 'add':
        a, b = split_spec(spec)
        s = make(spec, canonical(a, explicit), **over)
        kw = renamed(inputs(b, fs, typ, explicit))
        old = copy.deepcopy(kw)
        s.add(**kw)
        return s, kw, old
    s = make(spec, canonical(other_spec(spec), explicit), **over)
    kw = renamed(inputs(spec, fs, typ, explicit))
    old = copy.deepcopy(kw)
    s.change(**kw)
    return s, kw, old


def arrays(s):
    out = [('mulst', s.mulst), ('tlst', s.tlst), ('dlst', s.dlst), ('Tba0', s.leads.Tba0)]
    if hasattr(s, 'baths'):
        out += [('tlst_ph', s.baths.tlst_ph), ('dlst_ph', s.baths.dlst_ph), ('Vbbp0', s.baths.Vbbp0)]
    return out


def compare(ctx, s, u, spec, what):
    """u against the canonical system s, both solved."""
    for (name, a), (_, b) in zip(arrays(u), arrays(s)):
        ctx.close(a, b, 1e-13*(1+np.abs(b).max(initial=0)), what+name)
    ctx.close(np.sort(u.Ea), np.sort(s.Ea), 1e-12*(1+np.abs(s.Ea).max()), what+'energies')
    err = common.rel_error(s, spec['itype'], quad=0.0)*4+1e-13
    if common.base_kerntype(spec['k']) == 'Pauli' or spec.get('ph'):
        E, N = np.array(s.Ea), common.charges_of(s)
        d = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)].min(initial=1)
        err = np.inf if d < 1e-4 else err*(1+0.1/d)
    if not err < 1e-4:
        ctx.label('observables not compared')
        return
    ctx.require(bool(s.success) == bool(u.success), what+'success')
    if not s.success:
        return
    size = max(1, np.abs(s.phi0).max())
    G, E = scales(s)
    ctx.close(u.current, s.current, err*G*4+1e-15, what+'currents')
    etol = (err*G*4+1e-15)*E*4+1e-13*G*size*np.abs(s.dlst).max()
    ctx.close(u.energy_current, s.energy_current, etol, what+'energy currents')
    ctx.close(u.heat_current, s.heat_current, etol*2, what+'heat currents')
    N = common.charges_of(s)
    pops = [np.bincount(N, weights=np.array([q.get_phi0(b, b).real for b in range(len(N))])) for q in (u, s)]
    ctx.close(pops[0], pops[1], err*4, what+'populations of the charge sectors')


def check_forms(ctx, spec):
    s = make(spec, canonical(spec))
    s.make_kern_copy = True
    s.solve()
    u, kw, old = build_in_mode(spec, ctx)
    ctx.require(same(kw, old), lambda: 'an argument was modified on %s: %s became %s' % (spec['mode'], old, kw))
    if spec['late'] == 'construction':
        for x in kw.values():
            scramble(x)
        changed = copy.deepcopy(kw)
    u.make_kern_copy = True
    u.solve()
    if spec['late'] == 'construction':
        ctx.require(same(kw, changed), 'an argument was modified by solving')
    else:
        ctx.require(same(kw, old), 'an argument was modified by solving')
    compare(ctx, s, u, spec, '')
    if spec['late'] == 'solve':
        for x in kw.values():
            scramble(x)
        u.solve()
        compare(ctx, s, u, spec, 'after changing the passed objects: ')
        # a system built from the same objects is another system
    if spec['mode'] in ('new', 'positional'):
        kw2 = inputs(spec, spec['forms'], spec['typ'], spec.get('explicit', False))
        over = dict(herm_hs=False) if spec.get('explicit') else {}
        a, b = make(spec, kw2, **over), make(spec, kw2, **over)
        a.change(hsingle={(0, 0): 9.0}, mulst={0: 5.5}, tlst={0: 3.25}, dlst={0: 77.0})
        a.add(tleads={(0, 0): 0.75})
        a.solve()
        b.make_kern_copy = True
        b.solve()
        compare(ctx, s, b, spec, 'two systems from the same objects: ')
    for i, name in enumerate(ARGS[:9 if spec.get('ph') else 6]):
        ctx.label('%s form %d' % (name, spec['forms'][i]))
    ctx.label(spec['mode'], 'number type %d' % spec['typ'])
    if spec.get('explicit'):
        ctx.label('explicit conjugates')
    ctx.nontrivial(any(spec['forms']) and np.abs(s.leads.Tba0).max() > 0 and
                   (np.abs(s.current).max() > 1e-9 or len(s.phi0) > s.si.npauli))


# ---- the spin symmetry flag

FLAGS = ['spin', 'joined', 'numpy', 'subclass', 'sliced']


def flag(kind):
    if kind == 'joined':
        return ''.join(['sp', 'in'])
    if kind == 'numpy':
        return np.str_('spin')
    if kind == 'subclass':
        return type('S', (str,), {})('spin')
    if kind == 'sliced':
        return 'xspinx'[1:-1]
    return 'spin'


@st.composite
def spin(draw):
    from . import c04
    sp = draw(c04.spinful())
    sp['sym'] = True
    sp.pop('B', None)
    sp.pop('pol', None)
    sp['flag'] = draw(st.sampled_from(FLAGS))
    sp['forms'] = draw(st.lists(st.integers(0, 6), min_size=6, max_size=6))
    sp['typ'] = draw(st.integers(0, 3))
    sp['n'], sp['nl'] = 2*sp['h'], 2*sp['nlh']
    sp['steps'] = draw(st.lists(st.tuples(st.sampled_from(['add', 'change']),
                                          st.sampled_from(['hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dlst']),
                                          st.integers(0, 31), st.integers(0, 3)), max_size=3))
    return sp


def doubled(sp, name, d):
    """A dictionary for the orbitals written out for both spins."""
    h, nlh = sp['h'], sp['nlh']
    out = {}
    if name == 'hsingle':
        for (i, j), x in d.items():
            out[(i, j)] = out[(i+h, j+h)] = x
    elif name == 'tleads':
        for (l, i), x in d.items():
            out[(l, i)] = out[(l+nlh, i+h)] = x
    elif name == 'coulomb':
        for (a, b, c, e), x in d.items():
            for key in ((a, b, c, e), (a, b+h, c+h, e), (b, a+h, e+h, c), (a+h, b+h, c+h, e+h)):
                if key[0] != key[1] and key[2] != key[3]:
                    out[key] = x
    else:
        for l, x in d.items():
            out[l] = out[l+nlh] = x
    return out


def step_dict(sp, step):
    how, name, x, form = step
    h, nlh = sp['h'], sp['nlh']
    if name == 'hsingle':
        keys = [(i, i) for i in range(h)]+([(0, 1)] if h == 2 else [])
        return {keys[x % len(keys)]: (x-16)/16}
    if name == 'coulomb':
        keys = [(i, i, i, i) for i in range(h)]+([(0, 1, 1, 0)] if h == 2 else [])
        return {keys[x % len(keys)]: x/16}
    if name == 'tleads':
        return {(x % nlh, (x//2) % h): (x-15)/40+(0.1j if x % 3 == 0 else 0)}
    if name == 'mulst':
        return {x % nlh: (x-16)/16}
    if name == 'tlst':
        return {x % nlh: 0.5+x/32}
    return {x % nlh: 60.0+x}


def step_form(sp, name, d, form):
    if name in ('hsingle', 'coulomb', 'tleads') and form == 2:
        return [list(k)+[v] for k, v in d.items()]
    return d


def check_spin(ctx, sp):
    from . import c04
    import qmeq
    kw = c04.spin_kwargs(sp)
    kerntype = ('py' if sp['py'] else '')+sp['k']
    half = dict(n=sp['h'], nl=sp['nlh'], hs=sp['hs'], tl=sp['tl'], mu=sp['mu'], T=sp['T'], D=sp['D'], co=[])
    # the symmetric system in other forms (orbital matrices)
    # elements given as (j, i) are other elements for add and change
    given = inputs(half, [0 if sp['forms'][0] == 5 and sp['steps'] else sp['forms'][0]]+sp['forms'][1:], sp['typ'])
    co = kw['coulomb']
    if sp['forms'][1] == 2:
        co = [list(k)+[x] for k, x in co.items()]
    elif sp['forms'][1] == 3:
        co = [tuple(k)+(x,) for k, x in co.items()]
    elif sp['forms'][1] == 4:
        co = np.array([list(k)+[x] for k, x in co.items()])
    given['coulomb'] = co
    old = copy.deepcopy(given)
    sym = qmeq.Builder.base(nsingle=sp['n'], nleads=sp['nl'], itype=sp['itype'], kerntype=kerntype,
                            indexing=sp['indexing'], symmetry=flag(sp['flag']), **given)
    ctx.require(same(given, old), lambda: 'an argument was modified: %s became %s' % (old, given))
    # written out for both spins, as dictionaries
    exp = {k: doubled(sp, k, kw[k]) for k in ('hsingle', 'coulomb', 'tleads')}
    mu = dict(enumerate(list(sp['mu'])*2))
    T = dict(enumerate(list(sp['T'])*2))
    u = qmeq.Builder.base(nsingle=sp['n'], nleads=sp['nl'], itype=sp['itype'], kerntype=kerntype, mulst=mu, tlst=T,
                          dband=float(sp['D']), indexing='sz' if sp['indexing'] == 'ssq' else sp['indexing'], **exp)
    spec = dict(itype=sp['itype'], k=kerntype)
    for i, step in enumerate([None]+list(sp['steps'])):
        if step:
            how, name, x, form = step
            d = step_dict(sp, step)
            for q, dd in ((sym, step_form(sp, name, d, form)), (u, doubled(sp, name, d))):
                arg = copy.deepcopy(dd)
                getattr(q, how)(**{name: dd})
                ctx.require(same(dd, arg), '%s modified its argument %s' % (how, name))
            ctx.label('%s %s' % (how, name))
        for q in (sym, u):
            q.make_kern_copy = True
            q.solve()
        if sp['itype'] == 0 and not all(ref.quadpack_ok_dot(common.dot_of(q)) for q in (sym, u)):
            ctx.skip('QUADPACK fails for an integral (known finding C16-dqawc)')
        compare_spin(ctx, u, sym, spec, 'after %s: ' % (step,) if step else '')
    ctx.label('flag '+sp['flag'], sp['indexing'], sp['k'])
    ctx.nontrivial(np.abs(sym.current).max() > 1e-9)


def compare_spin(ctx, s, u, spec, what):
    """ssq and sz indexing differ in the eigenvectors, and QUADPACK depends on the energies."""
    for (name, a), (_, b) in zip(arrays(u), arrays(s)):
        if name == 'Tba0' and s.si.indexing != u.si.indexing:
            continue
        ctx.close(a, b, 1e-13*(1+np.abs(b).max(initial=0)), what+name)
    ctx.close(np.sort(u.Ea), np.sort(s.Ea), 1e-12*(1+np.abs(s.Ea).max()), what+'energies')
    err = (common.rel_error(s, spec['itype'])+common.rel_error(u, spec['itype']))*20+1e-12
    if common.base_kerntype(spec['k']) == 'Pauli':
        E, N, q = np.array(s.Ea), common.charges_of(s), common.sz_labels(s)
        eq = (q[:, None, :] == q[None, :, :]).all(axis=2) & ~np.eye(len(E), dtype=bool)
        d = np.abs(E[:, None]-E[None, :])[eq].min(initial=1)
        err = np.inf if d < 1e-4 else err*(1+0.1/d)
    if not (s.success and err < 1e-3):
        ctx.label('observables not compared')
        return
    ctx.require(bool(u.success), what+'failure with the symmetry flag only')
    G, E = scales(s)
    quad = 2*common.quad_err(spec['itype']) if common.base_kerntype(spec['k']) in ('Redfield', '1vN') else 0
    tol = (err+quad)*G*4*max(1, np.abs(s.phi0).max())+1e-15
    ctx.close(u.current, s.current, tol, what+'currents')
    etol = tol*E*4+1e-13*G*np.abs(s.dlst).max()*10
    ctx.close(u.energy_current, s.energy_current, etol, what+'energy currents')


# ---- arrays handed over directly

@st.composite
def direct(draw):
    spec = draw(gen.system(nmax=2, lmax=2, itypes=(1, 2, 3)))
    spec['k'] = draw(st.sampled_from(['', 'py']))+draw(st.sampled_from(BASE))
    spec['indexing'] = 'charge'
    spec['what'] = draw(st.sampled_from(['many_body', 'many_body_elph', 'phi0_init', 'phi0_init attribute', 'fock', 'band']))
    spec['ph'] = draw(gen.phonons(spec['n'])) if spec['what'] == 'many_body_elph' else None
    spec['vals'] = draw(st.lists(st.integers(-8, 8), min_size=3, max_size=6))
    return spec


def check_direct(ctx, spec):
    import qmeq
    s = make(spec, canonical(spec))
    s.solve()
    what = spec['what']
    kw = {k: v for k, v in canonical(spec).items() if k in ('mulst', 'tlst', 'dband', 'tlst_ph', 'dband_ph')}
    if what.startswith('many_body'):
        given = dict(Ea=np.array(s.Ea), Na=common.charges_of(s), Tba=np.array(s.Tba))
        if spec['ph']:
            given['Vbbp'] = np.array(s.Vbbp)
            kw['bath_func'] = gen.bath_func(spec['ph']['dos'], spec['ph']['nb'], not spec['k'].startswith('py'))
        if spec['vals'][0] % 2:
            given['Ea'], given['Na'] = given['Ea'].tolist(), [int(x) for x in given['Na']]
        old = copy.deepcopy(given)
        f = qmeq.Builder.many_body_elph if spec['ph'] else qmeq.Builder.many_body
        u = f(kerntype=spec['k'], itype=spec['itype'], **given, **kw)
        u.make_kern_copy = True
        u.solve(qdq=False, rotateq=False)
        ctx.require(same(given, old), 'an argument was modified')
        first = common.observables(u)+(np.array(u.phi0),)
        for x in given.values():
            scramble(x)
        u.solve(qdq=False, rotateq=False)
        for a, b in zip(common.observables(u)+(np.array(u.phi0),), first):
            ctx.close(a, b, 0, 'results after changing the passed arrays')
        u.change(mulst={0: 1.5}, tlst={0: 1.25})
        u.solve(qdq=False, rotateq=False)
        ctx.nontrivial(np.abs(first[0]).max() > 1e-9)
    elif what.startswith('phi0_init'):
        n = len(s.phi0)
        vec = np.array([spec['vals'][i % len(spec['vals'])]/8 for i in range(n)])
        old = vec.copy()
        if what == 'phi0_init':
            u = make(spec, canonical(spec), mfreeq=True, phi0_init=vec)
        else:
            u = make(spec, canonical(spec), mfreeq=True)
            u.phi0_init = vec
        u.funcp.suppress_err = True
        u.solve()
        ctx.require(same(vec, old), 'the start vector was modified by solving')
        first = np.array(u.phi0)
        u.solve()
        ctx.require(same(vec, old), 'the start vector was modified by solving again')
        ctx.close(u.phi0, first, 1e-12*(1+np.abs(first).max()) if np.isfinite(first).all() else 0, 'second solution from the same start vector')
        ctx.nontrivial(n > 1)
    elif what == 'fock':
        lst = sorted({x % 2**spec['n'] for x in spec['vals']})[:2**spec['n']-1][::-1]
        old = list(lst)
        u = make(spec, canonical(spec))
        u.remove_fock_states(lst)
        ctx.require(lst == old, 'the list of Fock states was modified')
        E = len(u.Ea)
        lst.clear()
        u.solve()
        ctx.require(len(u.Ea) == E == 2**spec['n']-len(old), 'number of states left')
        ctx.nontrivial()
    else:
        given = gen.dlst(spec)*0.5
        old = given.copy()
        u = make(spec, canonical(spec))
        u.dband = given
        ctx.require(same(given, old), 'the bandwidth array was modified')
        given[...] = 9.0
        ctx.close(u.dlst, old, 0, 'bandwidths')
        u.solve()
        ctx.close(u.dlst, old, 0, 'bandwidths')
        ctx.nontrivial()
    ctx.label(what, spec['k'])


SUBCHECKS = [
    Sub('forms', forms, check_forms, 2400, 40000,
        'every argument as dictionary, list, array or number with different number types, at construction, in add and '
        'in change; passed objects compared with copies and changed afterwards', shards=6, tshards=16),
    Sub('phonon', lambda: forms(elph=True), check_forms, 700, 12000, 'the same with phonon baths', shards=4, tshards=16),
    Sub('spin', spin, check_spin, 800, 14000, 'the spin symmetry flag against both spin species written out', shards=4,
        tshards=16),
    Sub('direct', direct, check_direct, 800, 12000,
        'many-body arrays, start vectors, state lists and bandwidths passed directly', shards=2, tshards=8),
]
