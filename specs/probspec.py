"""The bundled problems: symbolic evaluation of right-hand sides, Jacobians,
exact solutions and energies at an arbitrary state, time and parameters, and
polynomial / rational identities between them."""
from spec import *
from values import Opq
from ctx import clip
import models
from fractions import Fraction as Fr
from specs.erkspec import leafatom

ASSUMPTIONS = ['division by a parameter or distance that is zero is outside the statement (singularities)']
NS = 'test_equations::'
DIMS = {'exponential': 1, 'harmonic': 2, 'vdpol': 2, 'bruss': 2, 'rober': 3, 'dimer': 2, 'stiff_eq': 2, 'three_body': 12,
        'kinetic_4': 4, 'lorenz': 3}


def diff(p, x):
    """partial derivative of a polynomial with respect to an atom"""
    out = ZERO
    for m, c in P(p).d.items():
        for i, (a, k) in enumerate(m):
            da = datom(a, x)
            if da.d:
                rest = {b: e for j, (b, e) in enumerate(m) if j != i}
                t = Poly({tuple(sorted(rest.items(), key=lambda q: q[0].id)): c}) if rest else P(c)
                base = P(a)
                t = t * (base ** (k - 1) if k > 0 else recip(base) ** (1 - k)) * P(k) * da
                out = out + t
    return out


def datom(a, x):
    if a is x:
        return ONE
    if a.kind == 'sym':
        return ZERO
    if a.kind == 'inv':
        d = diff(a.args[0], x)
        return -d * P(a) * P(a) if d.d else ZERO
    if a.kind == 'sqrt':
        d = diff(a.args[0], x)
        return d * recip(P(a)) * P(Fr(1, 2)) if d.d else ZERO
    if a.kind == 'fn' and a.args[0] in ('exp', 'sin', 'cos'):
        d = diff(a.args[1], x)
        if not d.d:
            return ZERO
        g = {'exp': P(a), 'sin': models.trig('cos', a.args[1]), 'cos': -models.trig('sin', a.args[1])}[a.args[0]]
        return g * d
    if not any(y is x for y in atoms_in(a)):
        return ZERO
    raise Unsupported('derivative of %s' % a.kind)


def atoms_in(a, seen=None):
    seen = set() if seen is None else seen
    for y in a.args:
        if isinstance(y, Poly):
            for b in y.atoms():
                if b not in seen:
                    seen.add(b)
                    atoms_in(b, seen)
    return seen


def problems(prog):
    out = []
    for k, r in prog.records.items():
        n = k.split('::')[-1]
        if any(g['q'] == NS + n + '::fun' and g.get('s') is not None for g in prog.fns.values()) and n not in out:
            out.append(n)
    return sorted(out)


class Prob:
    """one problem as built by one of its constructors"""

    def __init__(self, c, prog, name, ctor, ndebug=False):
        self.name = name
        self.R = Run(prog, {}, ndebug, ghosts=False)
        c.use(self.R)
        self.I = self.R.I
        st = self.R.st
        self.par = []
        if ctor is None:
            v = self.I.default(st, self.cls(prog))
            r = [('v', st, v)]
        else:
            self.par = [sym(p['n'] or 'p%d' % i) for i, p in enumerate(ctor['params'])]
            r = self.I.exec_ctor(st, ctor, self.cls(prog), [st.alloc('p', x, False) for x in self.par])
        if len(r) != 1 or r[0][0] != 'v':
            raise Unsupported('several outcomes of a constructor')
        self.st = r[0][1]
        v = self.I.load(self.st, r[0][2])
        self.obj = self.st.alloc('obj', v, False)
        self.t = sym('t')

    def cls(self, prog):
        for k in prog.records:
            if k == NS + self.name or k.endswith('::' + self.name) or k == self.name:
                return k
        raise Unsupported('no record %s' % self.name)

    def fn(self, name, n, own=True):
        for f in self.R.prog.fns.values():
            if f['q'] == NS + self.name + '::' + name and len(f['params']) == n and f.get('s') is not None:
                return f
        for f in self.R.prog.fns.values():
            if f['q'].startswith('functor') and f['n'] == name and len(f['params']) == n and f.get('s') is not None:
                return f
        raise Unsupported('%s::%s not found' % (self.name, name))

    def call(self, name, args):
        f = self.fn(name, len(args))
        st = self.st.copy()
        cells = [a if isinstance(a, LV) else st.alloc('a', a, False) for a in args]
        r = self.I.exec_fn(st, f, self.obj, cells)
        if len(r) != 1 or r[0][0] != 'v':
            raise Unsupported('several outcomes of %s' % name)
        return r[0][1], self.I.load(r[0][1], r[0][2]) if r[0][2] is not None else None, cells

    def dim(self):
        if self.name in DIMS:
            return DIMS[self.name]
        for n in range(1, 20):
            try:
                k = len(self.I.bounds_errors), len(self.I.shape_errors)
                v = self.call('fun', [self.t, svec([sym('y%d' % i) for i in range(n)])])[1]
                if len(v.ent) == n and k == (len(self.I.bounds_errors), len(self.I.shape_errors)):
                    return n
            except Unsupported:
                pass
            self.I.bounds_errors[:] = []
            self.I.shape_errors[:] = []
        raise Unsupported('dimension of %s' % self.name)

    def at(self, n=None):
        """symbolic state with its right-hand side and Jacobian"""
        n = n or self.dim()
        self.y = [sym('y%d' % i) for i in range(n)]
        self.Y = svec(self.y)
        self.f = self.call('fun', [self.t, self.Y])[1]
        self.J = self.call('jac', [self.t, self.Y])[1]
        return n


def ctors(prog, name):
    fs = [f for f in prog.fns.values() if f['q'] == '%s%s::%s' % (NS, name, name) and f.get('s') is not None
          and not any(ctype(p['t']).endswith(name) for p in f['params'])]
    seen, out = set(), []
    for f in fs:
        if len(f['params']) not in seen:
            seen.add(len(f['params']))
            out.append(f)
    return out or [None]


def same(a, b):
    """identity of two rational expressions"""
    d = z3if.clear(P(a) - P(b))
    return not d.d


def comps(v):
    return [r[0] for r in v.ent]


def jacobian(c, prog, name, ct, ndebug=False):
    p = Prob(c, prog, name, ct, ndebug)
    n = p.at()
    c.fact('right-hand side has the size of the state', isinstance(p.f, BM) and len(p.f.ent) == n)
    if not c.fact('Jacobian is square', isinstance(p.J, BM) and len(p.J.ent) == n and all(len(r) == n for r in p.J.ent)):
        return
    f = comps(p.f)
    wrong = []
    for i in range(n):
        row = 0
        for j in range(n):
            d = diff(f[i], leafatom(p.y[j]))
            if same(p.J.ent[i][j], d):
                c.note('entry (%d,%d) is the derivative' % (i, j), 'proved', 'rewriting')
            elif n < 8:
                c.eq('entry (%d,%d) is the derivative' % (i, j), [], p.J.ent[i][j], d)
            else:
                row |= 1 << j
        wrong.append('%x' % row)
    if n >= 8:
        # the pattern of wrong entries identifies a listed finding
        w = '.'.join(wrong)
        c.fact('large Jacobian: every entry is the derivative', set(wrong) == {'0'}, w, finding='%s:%s' % (name, w))
    J0 = smat([[sym('j%d_%d' % (i, j)) for j in range(n)] for i in range(n)])
    for on in (True, False):
        st, v, cells = p.call('compute', [p.t, p.Y, J0, TRUE if on else FALSE])
        J1 = p.I.load(st, cells[2])
        for i in range(n):
            c.eq('combined evaluation: component %d' % i, [], comps(v)[i], f[i])
            for j in range(n):
                want = p.J.ent[i][j] if on else J0.ent[i][j]
                c.eq('combined evaluation%s: entry (%d,%d)' % ('' if on else ' without Jacobian', i, j), [], J1.ent[i][j], want)
        if not on:
            break
    # neither changes the problem
    c.fact('the state is not changed', p.I.load(st, cells[1]) == p.Y)
    c.safety(name, p.I)


def zero(c, name, p, finding=None):
    c.eq(name, [], p, ZERO, finding=finding)


def exact(c, p, sol):
    """the stated solution satisfies the equation at every time"""
    t = sym('t')
    s = comps(p.call('sol', [t])[1])
    f = comps(p.call('fun', [t, svec(s)])[1])
    c.fact('solution has the size of the system', len(s) == len(f) == len(p.y))
    for i, (a, b) in enumerate(zip(s, f)):
        c.eq('exact solution: component %d' % i, [], diff(a, leafatom(t)), b)
    return s


def at0(p, x):
    return [subst(q, {leafatom(sym('t')): ZERO}) for q in x]


def laws(c, prog, name, ct, ndebug=False):
    p = Prob(c, prog, name, ct, ndebug)
    p.at(DIMS[name])
    f, y = comps(p.f), p.y
    a = dict((q['n'], v) for q, v in zip(ct['params'], p.par)) if ct else {}
    par = p.par
    if name == 'exponential':
        l = par[0] if par else ONE
        c.eq('grows at its rate', [], f[0], l * y[0])
        s = exact(c, p, 'sol')
        c.eq('starts at 1', [], at0(p, comps(p.call('sol', [ZERO])[1]))[0], ONE)
    elif name == 'harmonic':
        w = par[0]
        zero(c, 'amplitude is conserved', y[0] * f[0] + y[1] * f[1])
        c.eq('frequency', [], f[0], w * y[1])
        c.eq('frequency (2)', [], f[1], -w * y[0])
        exact(c, p, 'sol')
        s = comps(p.call('sol', [ZERO])[1])
        c.eq('starts at (0, 1)', [], s[0], ZERO)
        c.eq('starts at (0, 1) (2)', [], s[1], ONE)
    elif name == 'stiff_eq':
        c.eq('second order equation', [], f[0], y[1])
        c.eq('second order equation (2)', [], f[1], y[1] * -1001 - y[0] * 1000)
        exact(c, p, 'sol')
        s = comps(p.call('sol', [ZERO])[1])
        c.eq('starts at (1, 0)', [], s[0], ONE)
        c.eq('starts at (1, 0) (2)', [], s[1], ZERO)
    elif name == 'rober':
        zero(c, 'mass is conserved', f[0] + f[1] + f[2])
        k1, k2, k3 = P(Fr(4, 100)), P(3 * 10 ** 7), P(10 ** 4)
        c.eq('first reaction', [], f[0], -k1 * y[0] + k3 * y[1] * y[2])
        c.eq('last reaction', [], f[2], k2 * y[1] * y[1])
    elif name == 'dimer':
        r = par[0]
        zero(c, 'mass is conserved', f[0] + f[1] * 2)
        c.eq('dimerisation and dissociation', [], f[1], r * y[0] * y[0] - recip(r) * y[1])
    elif name == 'kinetic_4':
        zero(c, 'mass is conserved', f[0] + f[1] * 2 + f[2] * 3 + f[3] * 4)
        b2, b3, b4 = par
        c.eq('dimers', [], f[1], y[0] * y[0] - y[0] * y[1] + b3 * y[2] - b2 * y[1])
        c.eq('trimers', [], f[2], y[0] * y[1] - y[0] * y[2] + b4 * y[3] - b3 * y[2])
        c.eq('tetramers', [], f[3], y[0] * y[2] - b4 * y[3])
    elif name == 'vdpol':
        mu = par[0] if par else P(Fr(1, 2))
        c.eq('velocity', [], f[0], y[1])
        c.eq('force', [], f[1] * mu, (ONE - y[0] * y[0]) * y[1] - y[0])
    elif name == 'bruss':
        A, B_ = par if par else (ONE, P(Fr(5, 2)))
        c.eq('first species', [], f[0], A + y[0] * y[0] * y[1] - B_ * y[0] - y[0])
        c.eq('second species', [], f[1], B_ * y[0] - y[0] * y[0] * y[1])
    elif name == 'lorenz':
        s, r, b = par
        c.eq('x', [], f[0], s * (y[1] - y[0]))
        c.eq('y', [], f[1], y[0] * (r - y[2]) - y[1])
        c.eq('z', [], f[2], y[0] * y[1] - b * y[2])
    elif name == 'three_body':
        three_body(c, p, f, y, par or [ONE] * 3)
    c.safety(name, p.I)


def three_body(c, p, f, y, m):
    for i in range(6):
        c.eq('velocity %d is momentum over mass' % i, [], f[i], y[6 + i] * recip(m[i // 2]))
    zero(c, 'momentum is conserved: x', f[6] + f[8] + f[10])
    zero(c, 'momentum is conserved: y', f[7] + f[9] + f[11], finding='three_body-force')
    L = ZERO
    for b in range(3):
        x_, y_ = 2 * b, 2 * b + 1
        L = L + f[x_] * y[7 + 2 * b] + y[x_] * f[7 + 2 * b] - f[y_] * y[6 + 2 * b] - y[y_] * f[6 + 2 * b]
    zero(c, 'angular momentum is conserved', L, finding='three_body-force')
    T = p.call('kin_energy', [p.Y])[1]
    V = p.call('pot_energy', [p.Y])[1]
    T, V = P(T), P(V)
    want = ZERO
    for i in range(6):
        want = want + y[6 + i] * y[6 + i] * recip(m[i // 2]) * P(Fr(1, 2))
    c.eq('kinetic energy', [], T, want, finding='three_body-energy')
    # the momenta follow the potential
    for i in range(6):
        c.eq('force %d is minus the slope of the potential' % i, [], f[6 + i], -diff(V, leafatom(y[i])),
             finding='three_body-force' if i == 3 else None)


def each(c, fn, ndebugs=(False, True)):
    with c.part('extraction'):
        progs = {n: c.program(('api',), ('NDEBUG',) if n else ()) for n in ndebugs}
        names = problems(progs[False])
        c.fact('all problems found', set(names) >= set(DIMS), names)
    jobs = []
    for n in ndebugs:
        for x in names:
            if fn is laws and x not in DIMS:
                continue
            for ct in ctors(progs[n], x):
                k = len(ct['params']) if ct else 0
                jobs.append(('%s(%d)%s' % (x, k, ' NDEBUG' if n else ''),
                             lambda c, x=x, ct=ct, n=n: fn(c, progs[n], x, ct, n)))
    c.parallel(jobs)
