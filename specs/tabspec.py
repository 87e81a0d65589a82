"""Coefficient sets: get_coefficients is executed for every code (its result is a
term, exact in rationals and square roots) and the conditions are decided by
evaluating those exact values with rational enclosures far below the tolerance,
which only allows for the rounding of the literals in the source."""
from fractions import Fraction as Fr
from functools import lru_cache
from math import isqrt, factorial
from spec import *
from ctx import clip
import z3if

TOL = Fr(1, 10 ** 12)
GTOL = Fr(1, 10 ** 9)
ERK_IMPL = ['EXPLICIT_EULER', 'RUNGE_KUTTA_4', 'BOGACKI_SHAMPINE_32', 'CASH_KARP_54', 'DORMAND_PRINCE_54', 'FEHLBERG_54']
IRK_IMPL = ['IMPLICIT_EULER', 'RADAU_IIA_32', 'RADAU_IIA_53', 'RADAU_IIA_95', 'RADAU_IIA_137', 'LOBATTO_IIIA_43',
            'LOBATTO_IIIA_127', 'LOBATTO_IIIC_43', 'LOBATTO_IIIC_64', 'LOBATTO_IIIC_85', 'GAUSS_LEGENDRE_42',
            'GAUSS_LEGENDRE_147']
MISSING = ['LOBATTO_IIIA_85', 'LOBATTO_IIIC_127', 'GAUSS_LEGENDRE_63', 'GAUSS_LEGENDRE_105']
SCALARS = ('order', 'order2', 'FSAL', 'gamma', 'name')
BIG = 10 ** 90


class NoValue(Exception):
    pass


def num(p):
    """value of a closed term, exact up to 90 digits"""
    p = P(p)
    t = Fr(0)
    for m, c in p.d.items():
        v = Fr(c)
        for a, k in m:
            v *= numatom(a) ** k
        t += v
    return t


@lru_cache(None)
def numatom(a):
    if a.kind == 'sqrt':
        x = num(a.args[0])
        if x < 0:
            raise NoValue(str(a))
        return Fr(isqrt(int(x * BIG * BIG)), BIG)
    if a.kind == 'inv':
        x = num(a.args[0])
        if x == 0:
            raise NoValue(str(a))
        return 1 / x
    if a.kind == 'pow':
        b, e = num(a.args[0]), num(a.args[1])
        if e == Fr(1, 2) and b >= 0:
            return Fr(isqrt(int(b * BIG * BIG)), BIG)
    if a.kind == 'abs':
        return abs(num(a.args[0]))
    raise NoValue(str(a))


class Tab:
    pass


def vecof(m):
    return [num(r[0]) for r in m.ent] if m.cols == ('1',) else [num(x) for r in m.ent for x in r]


def matof(m):
    return [[num(x) for x in r] for r in m.ent]


class Family:
    def __init__(self, c, fam):
        self.c, self.fam = c, fam
        self.prog = c.program((fam,))
        self.R = Run(self.prog, {}, ghosts=False)
        self.codes = self.prog.enums[fam + '::rk_methods']
        self.get = self.R.find(fam + '::get_coefficients', 1)
        self.check = self.R.find(fam + '::verify_solver_coeffs', 1)
        self.impl = ERK_IMPL if fam == 'erk' else IRK_IMPL

    def call(self, f, args, st=None):
        st = (st or self.R.st).copy()
        cells = [st.alloc('arg', a, False) for a in args]
        return list(self.R.I.exec_fn(st, f, None, cells))

    def raw(self, code):
        return self.call(self.get, [P(code)])

    def verdict(self, v, st=None):
        """outcomes (pc, result) of the library's own size check"""
        out = []
        for k, s, r in self.call(self.check, [v], st):
            r = self.R.I.load(s, r)
            out.append((s.pc, r if isinstance(r, B) else Not(Eq(r, 0))))
        return out

    def accepted(self, v, st=None):
        o = self.verdict(v, st)
        return len(o) == 1 and o[0][1] == TRUE

    def tab(self, name):
        """exact coefficients, or None when the result is not a usable set"""
        outs = self.raw(self.codes[name])
        if len(outs) != 1 or outs[0][0] != 'v':
            return None
        st = outs[0][1]
        v = self.R.I.load(st, outs[0][2])
        t = Tab()
        t.v, t.st = v, st
        g = {k: self.R.I.load(st, x) for k, x in v.f.items()}
        t.b, t.c, t.b2 = vecof(g['b']), vecof(g['c']), vecof(g['b2'])
        t.A = matof(g['A'])
        t.bi = g['b_interp']
        t.s = len(t.b)
        t.order, t.order2 = int(num(g['order'])), int(num(g['order2']))
        t.gamma = num(g['gamma'])
        f = g['FSAL']
        t.fsal = f == TRUE if isinstance(f, B) else num(f) != 0
        t.ok = self.accepted(v, st)
        return t

    def offered(self):
        for n in self.codes:
            with self.c.part(n):
                try:
                    t = self.tab(n)
                except NoValue as e:
                    self.c.note('coefficients are values', 'unknown', 'evaluation', str(e))
                    continue
                if n in MISSING and (t is None or not t.ok):
                    continue
                if self.c.fact('has an accepted coefficient set', t is not None and t.ok):
                    yield n, t


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


# ---------------------------------------------------------- rooted trees
@lru_cache(None)
def trees(n):
    """rooted trees with n nodes, each a sorted tuple of subtrees"""
    if n == 1:
        return ((),)
    out = set()

    def parts(left, mx, acc):
        if left == 0:
            out.add(tuple(sorted(acc, key=repr)))
            return
        for k in range(min(left, mx), 0, -1):
            for t in trees(k):
                parts(left - k, k, acc + [t])
    parts(n - 1, n - 1, [])
    return tuple(sorted(out, key=repr))


def size(t):
    return 1 + sum(size(x) for x in t)


def density(t):
    r = size(t)
    for x in t:
        r *= density(x)
    return r


def weight(t, A, memo):
    """vector of elementary weights of a tree at every stage"""
    if t in memo:
        return memo[t]
    s = len(A)
    r = [Fr(1)] * s
    for x in t:
        w = weight(x, A, memo)
        u = [sum(A[i][j] * w[j] for j in range(s)) for i in range(s)]
        r = [r[i] * u[i] for i in range(s)]
    memo[t] = r
    return r


def tree_defect(b, A, n):
    memo = {}
    worst = Fr(0), None
    for t in trees(n):
        w = weight(t, A, memo)
        d = abs(sum(x * y for x, y in zip(b, w)) - Fr(1, density(t)))
        if d > worst[0]:
            worst = d, t
    return worst


# ------------------------------------------------- simplifying conditions
def quad_order(b, c, mx, g=Fr(0), tol=TOL):
    """largest p with B(p); g is the weight of an extra node 0"""
    for k in range(1, mx + 1):
        d = sum(x * y ** (k - 1) for x, y in zip(b, c)) + (g if k == 1 else 0) - Fr(1, k)
        if abs(d) > tol:
            return k - 1
    return mx


def stage_order(A, c, mx, tol=TOL):
    s = len(c)
    for k in range(1, mx + 1):
        for i in range(s):
            d = sum(A[i][j] * c[j] ** (k - 1) for j in range(s)) - c[i] ** k / k
            if abs(d) > tol:
                return k - 1
    return mx


def adj_order(A, b, c, mx, tol=TOL):
    s = len(c)
    for k in range(1, mx + 1):
        for j in range(s):
            d = sum(b[i] * c[i] ** (k - 1) * A[i][j] for i in range(s)) - b[j] / k * (1 - c[j] ** k)
            if abs(d) > tol:
                return k - 1
    return mx


def rowdiv(n, d):
    return Fr(n.numerator * d.denominator, n.denominator * d.numerator)


def det(M):
    M = [list(r) for r in M]
    n = len(M)
    d = Fr(1)
    for k in range(n):
        p = max(range(k, n), key=lambda r: abs(M[r][k]))
        if M[p][k] == 0:
            return Fr(0)
        if p != k:
            M[k], M[p] = M[p], M[k]
            d = -d
        d *= M[k][k]
        for r in range(k + 1, n):
            f = M[r][k] / M[k][k]
            for q in range(k, n):
                M[r][q] -= f * M[k][q]
    return d


def charpoly(A):
    """coefficients of det(x I - A), constant first (Faddeev-LeVerrier)"""
    n = len(A)
    k = [Fr(0)] * n + [Fr(1)]
    M = [[Fr(0)] * n for i in range(n)]
    for m in range(1, n + 1):
        M = [[sum(A[i][l] * M[l][j] for l in range(n)) + (k[n - m + 1] if i == j else 0) for j in range(n)] for i in range(n)]
        k[n - m] = -sum(A[i][l] * M[l][i] for i in range(n) for l in range(n)) / m
    return k


def peval(k, x):
    r = Fr(0)
    for a in reversed(k):
        r = r * x + a
    return r


def real_eigenvalue(k):
    """the polynomial has a non-zero real root (Sturm)"""
    k = list(k)
    while k and abs(k[0]) <= Fr(1, 10 ** 13):      # rounding of a zero root
        k = k[1:]
    if len(k) < 2:
        return False
    seq = [k, [i * x for i, x in enumerate(k)][1:]]
    while len(seq[-1]) > 1:
        a, b = list(seq[-2]), seq[-1]
        while len(a) >= len(b):
            q = a[-1] / b[-1]
            for i in range(len(b)):
                a[len(a) - len(b) + i] -= q * b[i]
            a.pop()
        while a and a[-1] == 0:
            a.pop()
        if not a:
            break
        seq.append([-x for x in a])

    def changes(sg):
        v = [(q[-1] * (sg ** (len(q) - 1))) > 0 for q in seq]
        return sum(x != y for x, y in zip(v, v[1:]))
    return changes(-1) - changes(1) > 0


def name_order(n):
    """main order as the name states it"""
    tail = n.rsplit('_', 1)[-1]
    if n.endswith('EULER'):
        return 1
    if not tail.isdigit():
        return None
    if len(tail) == 1:
        return int(tail)
    return int(tail[:-1])


# ------------------------------------------------------------------ C12
def c12(c):
    F = Family(c, 'erk')
    for n, t in F.offered():
        A, b, cc, s = t.A, t.b, t.c, t.s
        c.fact('dimensions agree', len(cc) == s and len(A) == s and all(len(r) == s for r in A))
        c.fact('strictly lower triangular', all(A[i][j] == 0 for i in range(s) for j in range(i, s)))
        c.fact('row sums equal the nodes', all(close(sum(A[i]), cc[i]) for i in range(s)),
               clip([float(sum(A[i]) - cc[i]) for i in range(s)]))
        c.fact('claimed order is that of the name', name_order(n) in (None, t.order) and t.order >= 1, t.order)
        for k in range(1, min(t.order, 8) + 1):
            d, w = tree_defect(b, A, k)
            c.fact('order conditions of order %d (%d trees)' % (k, len(trees(k))), d <= TOL, '%s: %.3g' % (w, d))
        if t.b2:
            c.fact('embedded weights have the right number', len(t.b2) == s)
            c.fact('embedded weights differ from the main ones', any(not close(x, y) for x, y in zip(t.b2, b)))
            c.fact('embedded order is claimed', t.order2 >= 1, t.order2)
            for k in range(1, min(t.order2, 8) + 1):
                d, w = tree_defect(t.b2, A, k)
                c.fact('embedded order conditions of order %d' % k, d <= TOL, '%s: %.3g' % (w, d))
        if t.fsal:
            c.fact('last stage is the first of the next step',
                   all(close(x, y) for x, y in zip(A[-1], b)) and close(cc[-1], 1) and cc[0] == 0)
    c.use(F.R)


# ------------------------------------------------------------------ C13
STIFF = ('RADAU', 'LOBATTO_IIIC', 'IMPLICIT_EULER')


def c13(c):
    F = Family(c, 'irk')
    for n, t in F.offered():
        A, b, cc, s = t.A, t.b, t.c, t.s
        c.fact('dimensions agree', len(cc) == s and len(A) == s and all(len(r) == s for r in A))
        c.fact('row sums equal the nodes', all(close(sum(A[i]), cc[i]) for i in range(s)),
               clip([float(sum(A[i]) - cc[i]) for i in range(s)]))
        c.fact('claimed order is that of the name', name_order(n) in (None, t.order) and t.order >= 1, t.order)
        p, eta, zeta = quad_order(b, cc, 2 * s + 1), stage_order(A, cc, s + 1), adj_order(A, b, cc, s + 1)
        c.fact('B(p), C(eta), D(zeta) give the claimed order',
               p >= t.order and t.order <= eta + zeta + 1 and t.order <= 2 * eta + 2, 'B(%d) C(%d) D(%d)' % (p, eta, zeta))
        if t.b2:
            c.fact('embedded weights have the right number', len(t.b2) == s)
            q = quad_order(t.b2, cc, t.order2, t.gamma)
            c.fact('gamma and the embedded weights meet the claimed embedded order',
                   t.order2 >= 1 and q >= t.order2 and eta >= t.order2 - 1, 'order %d of %d' % (q, t.order2),
                   finding='embedded-order:%s:%s' % (n, ','.join('%.6f' % x for x in t.b2)))
        if t.gamma != 0:
            k = charpoly(A)
            if real_eigenvalue(k):
                v, w = peval(k, t.gamma), peval([i * x for i, x in enumerate(k)][1:], t.gamma)
                c.fact('gamma is an eigenvalue of the coefficient matrix',
                       w != 0 and abs(v / w) <= GTOL * abs(t.gamma), '%.17g, Newton correction %.3g' % (t.gamma, v / w if w else -1),
                       finding='gamma:' + n)
        if n.startswith(STIFF):
            c.fact('stiffly accurate', all(close(x, y) for x, y in zip(A[-1], b)) and close(cc[-1], 1))
        c.fact('coefficient matrix is invertible', abs(det(A)) > Fr(1, 10 ** 30), '%.3g' % det(A), finding='singular:' + n)
    c.use(F.R)


# ------------------------------------------------------------------ C14
def defined(I, st, v):
    v = I.load(st, v)
    from values import Undef
    return not isinstance(v, Undef)


def same_value(x, want):
    if isinstance(want, bool):
        if isinstance(x, B):
            return x == (TRUE if want else FALSE)
        return P(x) == P(int(want))
    return isinstance(x, Poly) and x == P(want)


def c14(c):
    for fam in ('erk', 'irk'):
        with c.part(fam):
            F = Family(c, fam)
            I = F.R.I
            offered = set(F.impl)
            c.fact('the documented methods are enumerated', offered <= set(F.codes), clip(sorted(offered - set(F.codes))))
            for n, code in F.codes.items():
                with c.part(n):
                    outs = F.raw(code)
                    if not c.fact('the lookup returns', len(outs) == 1 and outs[0][0] == 'v'):
                        continue
                    st = outs[0][1]
                    v = I.load(st, outs[0][2])
                    c.fact('every scalar is defined', all(defined(I, st, v.f[k]) for k in SCALARS),
                           [k for k in SCALARS if not defined(I, st, v.f[k])])
                    nm = I.load(st, v.f['name'])
                    c.fact('the name is that of the method', isinstance(nm, Str) and nm.lit() == n, str(nm))
                    if n in F.impl:
                        c.fact('the size check accepts it', F.accepted(v, st))
                    elif n not in MISSING:
                        c.fact('the size check decides', len(F.verdict(v, st)) == 1)
                    else:
                        t = F.verdict(v, st)
                        c.fact('an unimplemented method is rejected or complete', len(t) == 1)
            x = sym('code', 'I')
            st = F.R.st.copy()
            st.assume(*[Not(Eq(x, k)) for k in F.codes.values()])
            with c.part('any other code'):
                outs = F.call(F.get, [x], st)
                c.fact('the lookup returns', len(outs) >= 1 and all(k == 'v' for k, s, v in outs))
                for k, s, v in outs:
                    v = I.load(s, v)
                    c.cover('unknown code', s.pc)
                    c.fact('every scalar is defined', all(defined(I, s, v.f[k2]) for k2 in SCALARS))
                    nm = I.load(s, v.f['name'])
                    c.fact('its name is no method', isinstance(nm, Str) and nm.lit() not in F.codes, str(nm))
                    for pc, r in F.verdict(v, s):
                        c.prove('the size check rejects it', pc, Not(r))
            with c.part('size check'):
                sizes(c, F)
            with c.part('defaults'):
                defaults(c, F)
            c.use(F.R)


def coeffset(F, s0, nb, nc, r, k):
    """a coefficient set with the given dimensions and arbitrary entries"""
    f = dict(s0.f)
    f['b'] = svec([sym('b%d' % i) for i in range(nb)])
    f['c'] = svec([sym('c%d' % i) for i in range(nc)])
    f['A'] = smat([[sym('a%d_%d' % (i, j)) for j in range(k)] for i in range(r)]) if r and k else BM(('1',) * r, ('1',) * k, [[]] * r)
    return Struct(s0.cls, f)


def verdicts(F, v, pre):
    """outcomes of the size check under a precondition, and the interpreter's state afterwards"""
    R = Run(F.prog, {}, ghosts=False)
    i, j = sym('i', 'I'), sym('j', 'I')
    Z = Eq(v.f['A'].at(i, j), 0)
    R.I.watch = (('A', Z, (i, j)),)
    R.st.assume(*pre(i, j))
    R.call(F.check, [v])
    out = []
    for k, s, r in R.outs:
        r = R.I.load(s, r)
        out.append((s.pc, r if isinstance(r, B) else Not(Eq(r, 0))))
    return R, i, j, Z, out


def instances(pc, idx, depth=0):
    """what the quantified facts say of the given indices"""
    out = []
    for q in pc:
        if q.k == 'all' and q.a[2] == 0 and depth < 3:
            for x in idx:
                rng = And(Le(q.a[0], x), Lt(x, q.a[1]))
                out += [Or(Not(rng), y) for y in ([inst(q.a[3], x)] if q.a[3].k != 'all' else instances([inst(q.a[3], x)], idx, depth + 1))]
    return out


def witnesses(pc, n=0):
    """the facts, with a name for what is said to exist"""
    out = []
    for q in pc:
        while q.k == 'any' and q.a[2] == 0:
            n += 1
            x = sym('w%d' % n, 'I')
            out += [Le(q.a[0], x), Lt(x, q.a[1])]
            q = inst(q.a[3], x)
        out += list(q.a) if q.k == 'and' else [q]
    return out


def anysize(c, F, s0):
    """the size check on dimensions and entries of every size"""
    nb, nc, r, k = [sym(x, 'I') for x in ('nb', 'nc', 'rA', 'cA')]
    dims = [nb, nc, r, k]
    v = Struct(s0.cls, dict(s0.f, b=OMat('b', nb, ONE), c=OMat('c', nc, ONE), A=OMat('A', r, k)))
    nonneg = [Ge(x, 0) for x in dims]
    same = And(Eq(nb, nc), Eq(nb, r), Eq(nb, k), Gt(nb, 0))
    expl = F.fam == 'erk'
    for nm, pre in (('unequal or empty', [Not(same)]), ('equal', [same])):
        R, i, j, Z, out = verdicts(F, v, lambda i, j: nonneg + pre + [Le(0, i), Lt(i, nb), Le(0, j), Lt(j, nb)] + ([Le(i, j)] if expl else []))
        c.use(R)
        # an invariant that is too weak is no refutation: the concrete sizes below decide then
        shown = c.prove_or_open if R.I.loops else c.prove
        c.safety('%s dimensions' % nm, R.I)
        c.fact('has an outcome', len(out) >= 1)
        for pc, x in out:
            if nm != 'equal':
                shown('rejects unequal or empty dimensions', pc, Not(x))
                continue
            if not expl:
                shown('accepts equal dimensions', pc, x)
                continue
            # accepted: the entry (i, j), any on or above the diagonal, is zero
            acc = list(pc) + [x]
            shown('accepts strictly lower triangular matrices only', acc + instances(acc, (i, j)), Z)
            # rejected: not possible when all of those are zero
            rej = witnesses(list(pc) + [Not(x)])
            zeros = []
            for a in {a for q in rej for a in z3if.batoms(q) if isinstance(a, Atom) and a.kind == 'mel' and a.args[0] == 'A'}:
                p, q = a.args[1:]
                zeros.append(Or(Lt(p, 0), Lt(q, p), Ge(q, nb), Eq(v.f['A'].at(p, q), 0)))
            shown('accepts every strictly lower triangular matrix', rej + zeros, FALSE)


def sizes(c, F):
    outs = F.raw(-12345)
    s0 = F.R.I.load(outs[0][1], outs[0][2])
    with c.part('of every size'):
        anysize(c, F, s0)
    mx = 3
    for nb in range(mx + 1):
        for nc in range(mx + 1):
            for r in range(mx + 1):
                for k in range(mx + 1):
                    if nb == nc == r == k and nb:
                        continue
                    v = coeffset(F, s0, nb, nc, r, k)
                    o = F.verdict(v)
                    c.fact('rejects unequal or empty dimensions', all(x == FALSE for pc, x in o) and o,
                           'b %d c %d A %dx%d' % (nb, nc, r, k))
    for n in range(1, 8):
        v = coeffset(F, s0, n, n, n, n)
        o = F.verdict(v)
        upper = [sym('a%d_%d' % (i, j)) for i in range(n) for j in range(i, n)] if F.fam == 'erk' else []
        want = And(*[Eq(x, 0) for x in upper])
        c.fact('has an outcome', len(o) >= 1)
        for pc, x in o:
            c.prove('accepts %d stages exactly when %s' % (n, 'strictly lower triangular' if upper else 'sizes agree'),
                    pc, Or(And(x, want), And(Not(x), Not(want))))


DEF_COMMON = {'internal_solver': 1, 'rel_tol': Fr(1, 10000), 'abs_tol': Fr(1, 1000), 'max_dt': 0, 'max_steps': -1,
              'out_interval': 0, 'time_internals': False, 'adaptive_step_size': True, 'extrapolate_stage': False}
DEF_IRK = {'use_newton_iters_adaptive_step': True, 'verbose_newton': False}


def allfields(v):
    out = {}
    for k, x in v.f.items():
        if isinstance(x, Struct):
            out.update(allfields(x))
        else:
            out[k] = x
    return out


def defaults(c, F):
    f = F.R.find(F.fam + '::default_solver_options', 0)
    for k, s, v in F.call(f, []):
        v = F.R.I.load(s, v)
        g = allfields(v)
        want = dict(DEF_COMMON, **(DEF_IRK if F.fam == 'irk' else {}))
        for n, w in want.items():
            c.fact('default %s' % n, n in g and same_value(F.R.I.load(s, g[n]), w), str(g.get(n)))
        p = F.R.I.load(s, g['newton_opts']) if 'newton_opts' in g else None
        c.fact('no Newton options by default', p is not None and 'null' in str(p).lower() or p == ZERO or str(p) == 'Ptr(None)', str(p))


# ------------------------------------------------------------------ C15
def integral_coeffs(cs):
    """coefficients (numerators per power of theta, common denominator) of the integrated Lagrange polynomials"""
    s = len(cs)
    out = []
    for i in range(s):
        pol = [ONE]
        den = ONE
        for j in range(s):
            if j == i:
                continue
            den = den * (cs[i] - cs[j])
            new = [ZERO] * (len(pol) + 1)
            for k, x in enumerate(pol):
                new[k + 1] = new[k + 1] + x
                new[k] = new[k] - x * cs[j]
            pol = new
        out.append(([x * Fr(1, k + 1) for k, x in enumerate(pol)], den))
    return out


def c15(c, smax):
    F = Family(c, 'irk')
    I = F.R.I
    f = F.R.find('irk::collocation_interpolate_coeffs', 1)
    for s in range(1, smax + 1):
        with c.part('%d arbitrary nodes' % s):
            cs = [sym('c%d' % i) for i in range(s)]
            st = F.R.st.copy()
            st.assume(*[Not(Eq(cs[i], cs[j])) for i in range(s) for j in range(i)])
            outs = F.call(f, [svec(cs)], st)
            c.fact('returns', len(outs) == 1 and outs[0][0] == 'v', len(outs))
            for k, s2, v in outs:
                m = I.load(s2, v)
                if not c.fact('one row per node, one column per power', isinstance(m, BM) and len(m.rows) == s and len(m.cols) == s):
                    continue
                for i, (pol, den) in enumerate(integral_coeffs(cs)):
                    for k2, x in enumerate(pol):
                        c.eq('row %d power %d is the integrated Lagrange coefficient' % (i, k2 + 1), s2.pc,
                             m.ent[i][s - 1 - k2], x * recip(den))
    for fam in ('erk', 'irk'):
        with c.part(fam + '::project_b'):
            G = F if fam == 'irk' else Family(c, fam)
            pb = G.R.find(fam + '::project_b', 2)
            outs = G.raw(-12345)
            s0 = G.R.I.load(outs[0][1], outs[0][2])
            th = sym('theta')
            for s in range(1, 9):
                v = coeffset(G, s0, s, s, s, s)
                M = [[sym('m%d_%d' % (i, j)) for j in range(s)] for i in range(s)]
                v = v.set('b_interp', smat(M))
                for k, s2, r in G.call(pb, [th, v]):
                    r = G.R.I.load(s2, r)
                    if not c.fact('%d weights' % s, k == 'v' and isinstance(r, BM) and len(r.rows) == s):
                        continue
                    for i in range(s):
                        w = ZERO
                        for j in range(s):
                            w = w + M[i][j] * th ** (s - j)
                        c.eq('weight %d of %d' % (i, s), s2.pc, r.ent[i][0], w)
            if fam == 'erk':
                c.use(G.R)
    for n, t in F.offered():
        if not isinstance(t.bi, BM) or not t.bi.rows:
            continue
        s = t.s
        M = matof(t.bi)
        ok = len(M) == s and all(len(r) == s for r in M)
        if not c.fact('dense output has one row and power per stage', ok):
            continue
        bad = Fr(0)
        for i, (pol, den) in enumerate(integral_coeffs([P(x) for x in t.c])):
            for k, x in enumerate(pol):
                bad = max(bad, abs(M[i][s - 1 - k] - num(x) / num(den)) / (1 + abs(M[i][s - 1 - k])))
        c.fact('dense output is generated from its own nodes', bad <= TOL, '%.3g' % bad)
        if stage_order(t.A, t.c, s) == s:
            c.fact('b_j(1) is the weight b_j', all(close(sum(M[j]), t.b[j]) for j in range(s)))
            for i in range(s):
                c.fact('b_j(c_%d) is row %d of the matrix' % (i, i), all(
                    close(sum(M[j][k] * t.c[i] ** (s - k) for k in range(s)), t.A[i][j]) for j in range(s)))
    c.use(F.R)
