"""A system modified by add, change, assignments and solves equals a freshly built one."""

import copy

import numpy as np
from hypothesis import strategies as st

from .. import common, gen, ref
from ..core import Sub
from .c11 import arrays, compare, compare_spin

RULE = ('non-trivial: at least one modification took effect after a solve, and the final system has a current above '
        '1e-9 or coherences')
ASSUMPTIONS = ['the model of the history is the set of resulting parameters; a new system built with them is the oracle',
               'observables are compared at rounding error over the smallest singular value of the kernel']

BASE = ['Pauli', 'Lindblad', 'Redfield', '1vN']


# ---- model: dictionaries of the parameters

def model_of(spec):
    m = dict(hsingle=gen.hs_dict(spec), coulomb=gen.co_dict(spec), tleads=gen.tl_dict(spec),
             mulst=dict(enumerate(spec['mu'])), tlst=dict(enumerate(spec['T'])), dlst=gen.dlst(spec))
    herm_hs, herm_c = spec.get('herm', [True, False])
    if not herm_hs:
        m['hsingle'].update({(j, i): np.conj(h) for (i, j), h in m['hsingle'].items() if i != j})
    if herm_c:
        # of two conjugated elements only one is given
        m['coulomb'] = {k: v for k, v in m['coulomb'].items() if k[:2] <= k[2:][::-1]}
    if spec.get('ph'):
        ph = spec['ph']
        m.update(velph=gen.velph_dict(ph), tlst_ph=dict(enumerate(ph['T'])), dlst_ph=np.array(ph['D'], dtype=float))
    return m


def fresh(spec, m, **over):
    import qmeq
    kw = dict(nsingle=spec['n'], nleads=spec['nl'], hsingle=m['hsingle'], coulomb=m['coulomb'], tleads=m['tleads'],
              mulst=m['mulst'], tlst=m['tlst'], dband={i: tuple(x) for i, x in enumerate(m['dlst'].tolist())},
              itype=spec['itype'], kerntype=spec['k'], indexing=spec['indexing'])
    kw['herm_hs'], kw['herm_c'] = spec.get('herm', [True, False])
    if spec['k'].endswith('2vN'):
        kw['kpnt'] = 24
    f = qmeq.Builder.base
    if spec.get('ph'):
        ph = spec['ph']
        kw.update(nbaths=ph['nb'], velph=m['velph'], tlst_ph=m['tlst_ph'],
                  dband_ph={i: tuple(x) for i, x in enumerate(m['dlst_ph'].tolist())}, itype_ph=2,
                  bath_func=gen.bath_func(ph['dos'], ph['nb'], not spec['k'].startswith('py')))
        f = qmeq.Builder.elph
    kw.update(over)
    return f(**kw)


def keys_of(spec, field):
    n, nl = spec['n'], spec['nl']
    if field == 'hsingle':
        return [(i, i) for i in range(n)]+[(i, j) for i in range(n) for j in range(i+1, n)]
    if field == 'coulomb':
        return [(i, j, j, i) for i in range(n) for j in range(i+1, n)] + ([(0, 1, 2, 1)] if n > 2 else [])
    if field == 'tleads':
        return [(l, i) for l in range(nl) for i in range(n)]
    if field == 'velph':
        return [(b, i, j) for b in range(spec['ph']['nb']) for i in range(n) for j in range(n)]
    if field in ('tlst_ph', 'dlst_ph'):
        return list(range(spec['ph']['nb']))
    return list(range(nl))


def value(spec, field, how, x, y):
    """A value for the field from two small integers."""
    real = spec['real']
    if field == 'hsingle':
        return (x-32)/16, (y-4)/16
    if field == 'coulomb':
        return x/16, (y-4)/16
    if field in ('tleads', 'velph'):
        z = (x-31)/80 + (0 if real else 1j*(y-4)/20)
        return z, z
    if field == 'mulst':
        return (x-32)/16, None
    if field in ('tlst', 'tlst_ph'):
        return 0.25+x/32, None
    return [-20.0-x-y, 20.0+x], None


FIELDS = ['hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dlst']
PHF = ['velph', 'tlst_ph', 'dlst_ph']


@st.composite
def ops(draw, elph=False, maxlen=7, second=False):
    fields = FIELDS+(PHF+PHF if elph else [])+(['dlst', 'dlst', 'mulst'] if second else [])
    out = [['solve']] if draw(st.integers(0, 3)) else []
    for _ in range(draw(st.integers(2, maxlen))):
        kind = draw(st.sampled_from(['add', 'change', 'change', 'zero', 'solve', 'solve', 'undo', 'set', 'dband', 'partial']))
        if kind in ('add', 'change', 'zero'):
            parts = draw(st.lists(st.tuples(st.sampled_from(fields), st.integers(0, 15), st.integers(0, 64),
                                            st.integers(0, 8)), min_size=1, max_size=3))
            out.append([kind, parts, draw(st.integers(0, 3))])
        elif kind == 'set':
            out.append([kind, draw(st.sampled_from(['mulst', 'tlst'])), draw(st.integers(0, 3)), draw(st.integers(0, 64)),
                        draw(st.integers(0, 2))])
        elif kind == 'dband':
            out.append([kind, draw(st.integers(0, 3)), draw(st.integers(0, 64))])
        else:
            out.append([kind])
    return out


def argument(spec, how, parts, m):
    """Arguments of add/change for the parts, and the model afterwards."""
    kw, new = {}, copy.deepcopy(m)
    for field, k, x, y in parts:
        keys = keys_of(spec, field)
        if not keys:
            continue
        key = keys[k % len(keys)]
        if field in kw and not isinstance(kw[field], dict):
            continue
        d = kw.setdefault(field, {})
        if key in d:
            continue
        if field in ('dlst', 'dlst_ph'):
            if how == 'zero':
                how2 = 'change'
            else:
                how2 = how
            if field == 'dlst_ph':
                v = [x/256, 5.0+y]
                if how2 == 'add':
                    v = [0.0, 1.0+y]
            else:
                v = value(spec, field, how, x, y)[0]
                if how2 == 'add':
                    v = [-1.0-y/4, 2.0+y]
                # sometimes only one edge of the band moves
                if y % 3:
                    v[y % 3-1] = 0.0 if how2 == 'add' else float(new[field][key][y % 3-1])
            d[key] = tuple(v)
            new[field][key] = (new[field][key] if how2 == 'add' else 0)+np.array(v)
            continue
        v, w = value(spec, field, how, x, y)
        pairs = [(key, v)]
        if how == 'zero' and field in ('tlst', 'tlst_ph'):
            v = 0.5
            pairs = [(key, v)]
        elif how == 'zero':
            pairs = [(key, 0.0 if x % 2 else 0)]
        if field == 'hsingle' and key[0] != key[1] and how != 'zero':
            pairs = [(key, v/4 + (0 if spec['real'] else 1j*w))]
        if field == 'hsingle' and key[0] != key[1] and not spec.get('herm', [True])[0]:
            pairs.append((key[::-1], np.conj(pairs[0][1])))
        if field == 'coulomb' and key == (0, 1, 2, 1):
            # an exchange element with its conjugate: (0,1,2,1) and (1,2,1,0)
            z = 0 if how == 'zero' else v/8 + (0 if spec['real'] else 1j*w)
            pairs = [(key, z), ((1, 2, 1, 0), np.conj(z) if how != 'zero' else 0)]
            if spec.get('herm', [True, False])[1]:
                pairs = pairs[:1]
        for kk, vv in pairs:
            d[kk] = vv
            new[field][kk] = (new[field].get(kk, 0) if how == 'add' else 0)+vv
    return kw, new


def as_form(kw, form):
    out = {}
    for f, d in kw.items():
        if form == 1 and f in ('hsingle', 'coulomb', 'tleads', 'velph'):
            out[f] = [list(k)+[v] for k, v in d.items()]
        else:
            out[f] = d
    return out


def full_form(spec, kw, new, form):
    """For change, a full array of the new values is another way to say it."""
    if form != 2:
        return kw
    out = dict(kw)
    for f in kw:
        if f in ('mulst', 'tlst'):
            out[f] = [new[f][i] for i in range(spec['nl'])]
        elif f == 'tleads':
            a = np.zeros((spec['nl'], spec['n']), dtype=complex)
            for k, v in new[f].items():
                a[k] = v
            out[f] = a
        elif f == 'dlst':
            out[f] = new[f].copy()
        elif f == 'velph':
            a = np.zeros((spec['ph']['nb'], spec['n'], spec['n']), dtype=complex)
            for k, v in new[f].items():
                a[k] = v
            out[f] = a
        elif f == 'tlst_ph':
            out[f] = np.array([new[f][i] for i in range(spec['ph']['nb'])])
    return out


def apply_op(s, op, spec, m, undo):
    """Applies one operation to the system; returns (new model, undo action or None)."""
    kind = op[0]
    if kind in ('add', 'change', 'zero'):
        kw, new = argument(spec, kind, op[1], m)
        if kind == 'add':
            s.add(**as_form(kw, op[2]))
            neg = {f: {k: (tuple(-z for z in v) if isinstance(v, tuple) else -v) for k, v in d.items()} for f, d in kw.items()}
            return new, (lambda: s.add(**neg), m)
        s.change(**full_form(spec, as_form(kw, op[2]), new, op[2]))
        back = {}
        for f, d in kw.items():
            back[f] = {k: (tuple(m[f][k]) if f in ('dlst', 'dlst_ph') else m[f].get(k, 0)) for k in d}
        if op[2] == 2:
            return new, None        # arrays set all elements
        return new, (lambda: s.change(**back), m)
    if kind == 'set':
        _, field, l, x, how = op
        l %= spec['nl']
        v = (x-32)/16 if field == 'mulst' else 0.25+x/32
        new = copy.deepcopy(m)
        new[field][l] = v
        if how == 0:
            getattr(s, field)[l] = v
        elif how == 1:
            setattr(s, field, np.array([new[field][i] for i in range(spec['nl'])]))
        else:
            getattr(s, field)[:] = [new[field][i] for i in range(spec['nl'])]
        return new, None
    if kind == 'dband':
        _, form, x = op
        new = copy.deepcopy(m)
        d = 20.0+x
        new['dlst'][:] = [-d, d]
        nl = spec['nl']
        s.dband = [d, {i: d for i in range(nl)}, [d]*nl, [[-d, d]]*nl][form]
        return new, None
    if kind == 'undo' and undo is not None:
        undo[0]()
        return undo[1], None
    return m, undo


def bands(d, nl):
    """(lower, upper) edges for a bandwidth given in any form."""
    if not np.ndim(d) and not isinstance(d, dict):
        d = [d]*nl
    if isinstance(d, dict):
        d = [d[i] for i in range(nl)]
    return np.array([(-x, x) if not np.ndim(x) else tuple(x) for x in d], dtype=float)


@st.composite
def history(draw, elph=False):
    spec = draw(gen.system(nmax=3, lmax=3, itypes=(1, 2, 2, 3)))
    spec['real'] = draw(st.booleans())
    spec['k'] = draw(st.sampled_from(['', '', '', 'py']))+draw(st.sampled_from(BASE))
    spec['indexing'] = draw(st.sampled_from(['charge', 'charge', 'Lin']))
    spec['ph'] = draw(gen.phonons(spec['n'])) if elph else None
    spec['herm'] = [draw(st.booleans()), draw(st.booleans())]
    spec['ops'] = draw(ops(elph))
    return spec


def run(ctx, spec, solve, comp):
    m = model_of(spec)
    s = fresh(spec, m)
    s.make_kern_copy = True
    undo = None
    solved = changed = 0
    for i, op in enumerate(list(spec['ops'])+[['solve']]):
        if op[0] == 'solve':
            solve(s)
            u = fresh(spec, m)
            u.make_kern_copy = True
            solve(u)
            comp(ctx, u, s, spec, 'after %s: ' % (spec['ops'][:i],))
            solved += 1
        elif op[0] == 'partial':
            s.solve(masterq=False)
            ctx.close(np.sort(s.Ea), np.sort(energies(spec, m)), 1e-12*(1+np.abs(s.Ea).max()), 'energies after solve without master equation')
        else:
            m, undo = apply_op(s, op, spec, m, undo)
            changed += solved > 0
            if op[0] == 'dband':
                ctx.require(np.array_equal(bands(s.dband, spec['nl']), m['dlst']), 'bandwidth read back after assignment: %s' % (s.dband,))
        ctx.label(op[0])
    ctx.label(spec['k'])
    ctx.nontrivial(changed and (np.abs(s.current).max() > 1e-9 or len(s.phi0) > s.si.npauli))


def energies(spec, m):
    """Levels of the resulting Hamiltonian from the dense reference."""
    A = np.zeros((spec['n'], spec['n']), dtype=complex)
    herm_hs, herm_c = spec.get('herm', [True, False])
    for (i, j), h in m['hsingle'].items():
        A[j, i] += h
        if i != j and herm_hs:
            A[i, j] += np.conj(h)
    hs = {(i, j): A[i, j] for i in range(spec['n']) for j in range(spec['n'])}
    # reference convention: H = sum h_ij d_j+ d_i
    co = dict(m['coulomb'])
    if herm_c:
        for (a, b, c, d), u in m['coulomb'].items():
            if (a, b) != (d, c):
                co[(d, c, b, a)] = np.conj(u)
    return np.linalg.eigvalsh(ref.hamiltonian(spec['n'], {(j, i): v for (i, j), v in hs.items()}, co))


def check_history(ctx, spec):
    run(ctx, spec, lambda s: s.solve(), lambda ctx, u, s, spec, what: compare(ctx, u, s, spec, what))


# ---- spin indexings

@st.composite
def spin(draw):
    from . import c11
    sp = draw(c11.spin())
    sp['sym'] = draw(st.booleans()) or sp['indexing'] == 'ssq'
    sp['steps'] = draw(st.lists(st.tuples(st.sampled_from(['add', 'change']),
                                          st.sampled_from(['hsingle', 'coulomb', 'tleads', 'mulst', 'tlst', 'dlst']),
                                          st.integers(0, 31), st.integers(0, 3)), min_size=1, max_size=4))
    return sp


def check_spin(ctx, sp):
    from . import c04, c11
    import qmeq
    kw = c04.spin_kwargs(dict(sp, sym=True))
    kerntype = ('py' if sp['py'] else '')+sp['k']
    double = (lambda name, d: d) if sp['sym'] else (lambda name, d: c11.doubled(sp, name, d))
    m = {k: dict(double(k, kw[k])) for k in ('hsingle', 'coulomb', 'tleads', 'mulst', 'tlst')}
    m['dlst'] = double('dlst', {l: float(sp['D']) for l in range(sp['nlh'])})

    def new():
        return qmeq.Builder.base(nsingle=sp['n'], nleads=sp['nl'], itype=sp['itype'], kerntype=kerntype,
                                 indexing=sp['indexing'], symmetry='spin' if sp['sym'] else None, dband=m['dlst'],
                                 **{k: v for k, v in m.items() if k != 'dlst'})
    spec = dict(itype=sp['itype'], k=kerntype)
    s = new()
    for step in [None]+list(sp['steps']):
        if step:
            how, name, x, form = step
            d = double(name, c11.step_dict(sp, step))
            getattr(s, how)(**{name: c11.step_form(sp, name, d, form)})
            for k, v in d.items():
                m[name][k] = (m[name].get(k, 0) if how == 'add' else 0)+v
            ctx.label('%s %s' % (how, name))
            if form == 3:
                continue
        u = new()
        for q in (s, u):
            q.make_kern_copy = True
            q.solve()
        if sp['itype'] == 0 and not all(ref.quadpack_ok_dot(common.dot_of(q)) for q in (s, u)):
            ctx.skip('QUADPACK fails for an integral (known finding C16-dqawc)')
        compare_spin(ctx, u, s, spec, 'after %s: ' % (step,))
    ctx.label(sp['indexing'], sp['k'], 'spin symmetry' if sp['sym'] else 'two spin species')
    ctx.nontrivial(np.abs(s.current).max() > 1e-9)


# ---- second-order approaches

@st.composite
def second(draw):
    k = draw(st.sampled_from(['2vN', 'RTD']))
    spec = draw(gen.system(nmin=1, nmax=2, lmax=2, itypes=(1,), real=True, D=30.0 if k == '2vN' else 100.0, tmin=0.5,
                           equal_T=True))
    spec['k'] = ('py' if draw(st.integers(0, 7)) == 0 else '')+k
    spec['indexing'] = 'charge'
    spec['real'] = True
    spec['ops'] = draw(ops(maxlen=4, second=True))
    if k == 'RTD':
        # equal temperatures only: the expansion used otherwise keeps a history of its own
        spec['ops'] = [[o[0], [p for p in o[1] if p[0] != 'tlst'], o[2]] if o[0] in ('add', 'change', 'zero') else o
                       for o in spec['ops'] if not (o[0] == 'set' and o[1] == 'tlst')]
        spec['ops'] = [o for o in spec['ops'] if o[0] not in ('add', 'change', 'zero') or o[1]]
    spec['off'] = draw(st.booleans())
    return spec


def check_second(ctx, spec):
    def solve(s):
        if spec['k'].endswith('2vN'):
            try:
                s.solve(niter=2)
            except np.linalg.LinAlgError:
                ctx.skip('an uncoupled state in resonance with a grid point (singular)')
        else:
            s.off_diag_corrections = spec['off']
            s.appr.printed_warning_ImGamma = True
            s.solve()

    def comp(ctx, u, s, spec, what):
        for (name, a), (_, b) in zip(arrays(s), arrays(u)):
            ctx.close(a, b, 1e-13*(1+np.abs(b).max(initial=0)), what+name)
        ctx.close(s.Ea, u.Ea, 1e-12*(1+np.abs(u.Ea).max()), what+'energies')
        lo, hi = common.conditioning(u)
        cond = hi/lo if lo > 0 else np.inf
        if spec['k'].endswith('2vN'):
            cond += np.linalg.cond(u.appr.kern1k_inv).max()
        E, N = np.array(u.Ea), common.charges_of(u)
        d = np.abs(E[:, None]-E[None, :])[(N[:, None] == N[None, :]) & ~np.eye(len(E), dtype=bool)].min(initial=1)
        if not cond < 1e7 or d < 1e-4 or not u.success:
            ctx.label('observables not compared')
            return
        ctx.require(bool(s.success), what+'success')
        tol = 1e-12*cond*(1+0.1/d)*(1+np.abs(u.phi0).max())
        G = 2*np.pi*(np.abs(u.Tba)**2).sum()
        ctx.close(s.phi0, u.phi0, tol, what+'density matrix')
        ctx.close(s.current, u.current, tol*(G+1e-3), what+'currents')
        ctx.close(s.energy_current, u.energy_current, tol*(G+1e-3)*(1+np.abs(u.dlst).max()+np.abs(u.Ea).max()), what+'energy currents')

    run(ctx, spec, solve, comp)


SUBCHECKS = [
    Sub('history', history, check_history, 2400, 50000,
        'up to 7 operations: add, change, set to zero, undo, element assignment, bandwidth assignment, solves', shards=6,
        tshards=16),
    Sub('phonon', lambda: history(elph=True), check_history, 800, 16000, 'the same with phonon parameters', shards=4,
        tshards=16),
    Sub('spin', spin, check_spin, 700, 12000, 'sz and ssq indexing, symmetry flag or two spin species', shards=4, tshards=16),
    Sub('second', second, check_second, 600, 8000, 'histories in the 2vN and RTD approaches', shards=4, tshards=16),
]
