"""Term algebra of the verifier: polynomials over interned atoms, Boolean
terms, noncommutative matrix/vector words, block matrices.

doubles are mathematical reals, integers mathematical integers (unsigned
subtraction is checked separately).  Terms are kept in canonical form so that
equality of most terms is structural."""
from fractions import Fraction as Fr
import itertools

_intern = {}
_cnt = itertools.count(1)


class Atom:
    __slots__ = ('kind', 'args', 'id', 'sort', 'shape', '_h', 'lvl')

    def __repr__(self):
        return atom_str(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def atom(kind, *args, sort='R', shape='s'):
    key = (kind, args, sort, shape)
    a = _intern.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.sort = sort
        a.shape = shape
        a.id = next(_cnt)
        a.lvl = max([_lvl(x) for x in args], default=0)
        if kind == 'bound':
            a.lvl = args[0]
        _intern[key] = a
    return a


def _lvl(x):
    if isinstance(x, Atom):
        return x.lvl
    if isinstance(x, (Poly, B, Lin)):
        return x.lvl()
    if isinstance(x, BM):
        return max([_lvl(e) for r in x.ent for e in r], default=0)
    if isinstance(x, tuple):
        return max([_lvl(e) for e in x], default=0)
    return 0


class Poly:
    """canonical polynomial: {monomial: Fraction}; monomial = ((atom,exp),...)"""
    __slots__ = ('d', '_h', '_l')

    def __init__(self, d):
        self.d = d
        self._h = None
        self._l = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def lvl(self):
        if self._l is None:
            self._l = max([a.lvl for m in self.d for a, e in m], default=0)
        return self._l

    def __repr__(self):
        return poly_str(self)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fr(0))

    def isint(self):
        return all(c.denominator == 1 and all(a.sort == 'I' and e > 0 for a, e in m) for m, c in self.d.items())

    def atoms(self):
        s = set()
        for m in self.d:
            for a, e in m:
                s.add(a)
        return s

    def __add__(self, o):
        o = P(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m)
            if v is None:
                d[m] = c
            else:
                v = v + c
                if v:
                    d[m] = v
                else:
                    del d[m]
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if self.is_const():
            k = self.const()
            if k == 0:
                return ZERO
            if k == 1:
                return o
            return Poly({m: c * k for m, c in o.d.items()})
        if o.is_const():
            return o * self
        if len(self.d) > LET and self == o:
            return bigsquare(self)
        d = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                r = mono_mul(m1, m2)
                if isinstance(r, tuple):
                    v = d.get(r)
                    d[r] = c1 * c2 if v is None else v + c1 * c2
                else:
                    t = r * (c1 * c2)
                    extra = t if extra is None else extra + t
        p = Poly({m: c for m, c in d.items() if c})
        if extra is not None:
            p = p + extra
        return p
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * recip(P(o))

    def __rtruediv__(self, o):
        return P(o) * recip(self)

    def __pow__(self, n):
        r = ONE
        if n < 0:
            return recip(self) ** (-n)
        for _ in range(n):
            r = r * self
        return r


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): Fr(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fr)):
        x = Fr(x)
        return Poly({(): x}) if x else ZERO
    raise TypeError('not a scalar: %r' % (x,))


ZERO = Poly({})
ONE = Poly({(): Fr(1)})


LET = 10


def bigsquare(p):
    """p*p with a long p kept under a name (expanded again only where needed)"""
    g = content(p)
    c = leading(p)
    q = p * (1 / c)
    r = Poly({(): c * c})
    if g:
        q = q * Poly({tuple((a, -k) for a, k in g): Fr(1)})
        m = Poly({g: Fr(1)})
        r = r * (m * m)
    return r * Poly({((atom('let', q, sort='I' if q.isint() else 'R'), 2),): Fr(1)})


def unlet(p):
    """with every top-level name expanded"""
    while True:
        ls = [a for a in p.atoms() if a.kind == 'let']
        if not ls:
            return p
        out = ZERO
        for m, c in p.d.items():
            r = P(c)
            for a, e in m:
                if a.kind == 'let' and e > 0:
                    x = a.args[0]
                    for _ in range(e):
                        r = nolet_mul(r, x)
                else:
                    r = nolet_mul(r, Poly({((a, e),): Fr(1)}))
            out = out + r
        p = out


def nolet_mul(a, b):
    global LET
    old = LET
    LET = 10 ** 9
    try:
        return a * b
    finally:
        LET = old


def mono_mul(m1, m2):
    """product of monomials; applies sqrt(p)^2 -> p and x*inv(x) -> 1."""
    if not m1:
        return m2
    if not m2:
        return m1
    e = dict(m1)
    for a, k in m2:
        v = e.get(a, 0) + k
        if v:
            e[a] = v
        else:
            e.pop(a, None)
    red = None
    for a in list(e):
        k = e[a]
        if a.kind == 'sqrt' and (k >= 2 or k < 0):
            q, r = divmod(k, 2)
            arg = a.args[0]
            if r:
                e[a] = 1
            else:
                del e[a]
            f = (arg ** q) if q > 0 else recip(arg) ** (-q)
            red = f if red is None else red * f
        elif a.kind == 'inv' and k < 0:
            # cannot happen: inv(p)^-1
            del e[a]
            f = a.args[0] ** (-k)
            red = f if red is None else red * f
    m = tuple(sorted(e.items(), key=lambda t: t[0].id))
    if red is None:
        return m
    return Poly({m: Fr(1)}) * red


def sym(name, sort='R'):
    return P(atom('sym', name, sort=sort))


def fresh(name, sort='R'):
    return P(atom('sym', '%s!%d' % (name, next(_cnt)), sort=sort))


def content(p):
    """(leading coefficient, monomial gcd) normalisation for reciprocals"""
    ms = list(p.d)
    g = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(g):
            k = dm.get(a, 0)
            if g[a] > 0 and k > 0:
                g[a] = min(g[a], k)
            elif g[a] < 0 and k < 0:
                g[a] = max(g[a], k)
            else:
                del g[a]
        # negative exponents present only in some monomials: pull them out too
    for m in ms:
        for a, k in m:
            if k < 0:
                g[a] = min(g.get(a, 0), k) if a not in g or g[a] > k else g[a]
    return tuple(sorted(((a, k) for a, k in g.items() if k), key=lambda t: t[0].id))


def leading(p):
    m = min(p.d, key=lambda m: tuple((a.id, -k) for a, k in m) or ((1 << 60, 0),))
    return p.d[m]


def recip(p):
    if not p.d:
        return P(atom('div0', next(_cnt)))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = Poly({(): 1 / c})
        for a, k in m:
            if a.kind == 'inv':
                out = out * (a.args[0] ** k)
            elif a.kind == 'sqrt' and k > 0:
                # 1/sqrt(q) = sqrt(q)/q
                for _ in range(k):
                    out = out * P(a) * recip(a.args[0])
            elif a.kind == 'pow' and k > 0:
                # 1/x^e = x^-e
                for _ in range(k):
                    out = out * P(atom('pow', a.args[0], -a.args[1]))
            else:
                out = out * Poly({((a, -k),): Fr(1)})
        return out
    g = content(p)
    if g:
        gi = tuple((a, -k) for a, k in g)
        q = p * Poly({gi: Fr(1)})
        return recip(Poly({g: Fr(1)})) * recip(q)
    if len(p.d) in (3, 6) and all(isinstance(k, int) and k % 2 == 0 for m in [max(p.d, key=lambda m: sum(e for _, e in m))] for a, k in m):
        r = psqrt(p)
        if r is not None:
            return recip(r) ** 2
    c = leading(p)
    q = p * (1 / c)
    return Poly({((atom('inv', q), 1),): 1 / c})


def cancel(p):
    """(1 + x) * inv(1 + x) -> 1 where a sum is divided by itself"""
    if len(p.d) < 2 or len(p.d) > 40:
        return p
    for _ in range(4):
        ats = {a for m in p.d for a, e in m if a.kind == 'inv' and e > 0 and a.shape == 's'}
        for a in sorted(ats):
            q = a.args[0]
            if not 2 <= len(q.d) <= 6:
                continue
            num = Poly({tuple((b, e - 1) if b is a else (b, e) for b, e in m if not (b is a and e == 1)): c
                        for m, c in p.d.items() if any(b is a for b, e in m)})
            r = exactdiv(num, q)
            if r is not None:
                p = Poly({m: c for m, c in p.d.items() if not any(b is a for b, e in m)}) + r
                break
        else:
            return p
    return p


def exactdiv(n, q):
    """n / q if it is a polynomial (in positive powers)"""
    if len(n.d) < len(q.d) or any(e < 0 for m in q.d for a, e in m):
        return None
    key = lambda m: sorted(((a.id, e) for a, e in m), reverse=True)
    lm = max(q.d, key=key)
    lc = q.d[lm]
    out = ZERO
    for _ in range(40):
        if not n.d:
            return out
        m = max(n.d, key=key)
        t = mono_mul(m, tuple((a, -e) for a, e in lm))
        have = dict(m)
        if any(have.get(a, 0) < e for a, e in lm):
            return None
        t = Poly({t: n.d[m] / lc}) if not isinstance(t, Poly) else t * (n.d[m] / lc)
        out = out + t
        n = n - t * q
        if len(n.d) > 40:
            return None
    return None


# ---------------------------------------------------------------- functions
def sqrt(p):
    if p.is_const():
        c = p.const()
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return P(Fr(n, d))
            # sqrt(n/d) = sqrt(n*d)/d
            if c.denominator != 1:
                return sqrt(P(c.numerator * c.denominator)) * Fr(1, c.denominator)
            # pull out square factors
            k = c.numerator
            f = 1
            for q in range(2, 200):
                while k % (q * q) == 0:
                    k //= q * q
                    f *= q
            return P(atom('sqrt', P(k))) * f
    return P(atom('sqrt', p))


def absv(p):
    if p.is_const():
        return P(abs(p.const()))
    if leading(p) < 0:
        p = -p
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ('abs', 'sqrt'):
            return p
    c = leading(p)
    if c != 1:
        return P(atom('abs', p * (1 / c))) * c
    return P(atom('abs', p))


def maxv(a, b):
    a, b = P(a), P(b)
    if a == b:
        return a
    d = a - b
    if d.is_const():
        return a if d.const() > 0 else b
    if not (a + b).d:
        return absv(a)
    xs = set()
    for x in (a, b):
        xs |= set(_flat(x, 'max'))
    return P(atom('max', *sorted(xs, key=lambda q: str_key(q)), sort=_srt(a, b)))


def minv(a, b):
    a, b = P(a), P(b)
    if a == b:
        return a
    d = a - b
    if d.is_const():
        return b if d.const() > 0 else a
    xs = set()
    for x in (a, b):
        xs |= set(_flat(x, 'min'))
    return P(atom('min', *sorted(xs, key=lambda q: str_key(q)), sort=_srt(a, b)))


def _flat(x, kind):
    if len(x.d) == 1:
        (m, c), = x.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == kind:
            return list(m[0][0].args)
    return [x]


def _srt(*ps):
    return 'I' if all(p.isint() for p in ps) else 'R'


_skeys = {}


def str_key(p):
    k = _skeys.get(p)
    if k is None:
        k = _skeys[p] = len(_skeys)
    return k


def powv(b, e):
    b, e = P(b), P(e)
    if e.is_const() and e.const().denominator == 1 and abs(e.const()) <= 8:
        return b ** int(e.const())
    if e.is_const() and e.const() == Fr(1, 2):
        return sqrt(b)
    if b.is_const() and b.const() == 1:
        return ONE
    # (1/x)^e = x^-e  canonical: keep base with nonnegative leading exponent
    if len(b.d) == 1:
        (m, c), = b.d.items()
        if c == 1 and m and all(k < 0 for a, k in m):
            return P(atom('pow', recip(b), -e))
        if c == 1 and len(m) == 1 and m[0][0].kind == 'inv' and m[0][1] == 1:
            return P(atom('pow', m[0][0].args[0], -e))
        for a, k in m:
            if a.kind == 'sqrt' and b == recip(P(a)):
                return P(atom('pow', P(a), -e))
    return P(atom('pow', b, e))


def psqrt(p):
    """polynomial q with q*q == p, or None"""
    if not p.d:
        return ZERO
    if len(p.d) > 300:
        return None

    def order(m):
        return tuple(sorted(((a.id, -e) for a, e in m)))

    def lead(x):
        # graded by a fixed weight so that products are monotone
        return max(x.d, key=wkey)

    ids = sorted({a.id for m in p.d for a, e in m})
    pos = {i: n for n, i in enumerate(ids)}

    def wkey(m):
        v = [0] * len(ids)
        for a, e in m:
            if a.id not in pos:
                return (1 << 30,)
            v[pos[a.id]] = e
        return tuple(v)

    def msqrt(m, c):
        from math import isqrt
        if c < 0 or any(e % 2 for a, e in m):
            return None
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        return Poly({tuple((a, e // 2) for a, e in m): Fr(n, d)})
    m0 = lead(p)
    q = msqrt(m0, p.d[m0])
    if q is None:
        return None
    l2 = q * 2
    (lm, lc), = l2.d.items()
    r = p - q * q
    for _ in range(40):
        if not r.d:
            return q
        m = lead(r)
        t = Poly({m: r.d[m]}) * Poly({tuple((a, -e) for a, e in lm): 1 / lc})
        if len(t.d) != 1:
            return None
        q2 = q + t
        r2 = p - q2 * q2
        if len(r2.d) > len(p.d) + 60:
            return None
        q, r = q2, r2
    return None


def fn(name, *args, sort='R'):
    return P(atom('fn', name, *args, sort=sort))


def floordiv(a, b):
    """C++ integer division (truncation), exact for constants"""
    a, b = P(a), P(b)
    if b.is_const() and b.const() == 1:
        return a
    if a.is_const() and b.is_const() and b.const() != 0:
        q = abs(a.const()) // abs(b.const())
        return P(q if (a.const() >= 0) == (b.const() > 0) else -q)
    q = a * recip(b)
    if q.isint():
        return q
    return P(atom('idiv', a, b, sort='I'))


def mod(a, b):
    a, b = P(a), P(b)
    if b.is_const() and b.const() in (1, -1):
        return ZERO
    if a.is_const() and b.is_const() and b.const() != 0:
        r = abs(a.const()) % abs(b.const())
        return P(r if a.const() >= 0 else -r)
    if not a.d:
        return ZERO
    return P(atom('mod', a, b, sort='I'))


# ------------------------------------------------------------------ Booleans
class B:
    __slots__ = ('k', 'a', '_h')

    def __init__(self, k, *a):
        self.k = k
        self.a = a
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, self.a))
        return self._h

    def __eq__(self, o):
        return isinstance(o, B) and self.k == o.k and self.a == o.a

    def lvl(self):
        return max([_lvl(x) for x in self.a], default=0)

    def __repr__(self):
        return bool_str(self)


TRUE = B('true')
FALSE = B('false')


def bsym(name):
    return B('bsym', name)


def Not(b):
    if b is TRUE or b.k == 'true':
        return FALSE
    if b.k == 'false':
        return TRUE
    if b.k == 'not':
        return b.a[0]
    if b.k == 'lt':
        return Le0(-b.a[0])
    if b.k == 'le':
        return Lt0(-b.a[0])
    if b.k == 'and':
        return Or(*[Not(x) for x in b.a])
    if b.k == 'or':
        return And(*[Not(x) for x in b.a])
    if b.k == 'all':
        return B('any', b.a[0], b.a[1], b.a[2], Not(b.a[3]))
    if b.k == 'any':
        return B('all', b.a[0], b.a[1], b.a[2], Not(b.a[3]))
    return B('not', b)


def And(*bs):
    out = []
    for b in bs:
        if b.k == 'true':
            continue
        if b.k == 'false':
            return FALSE
        for x in (b.a if b.k == 'and' else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not1(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B('and', *out)


def Not1(x):
    if x.k in ('and', 'or'):
        return None
    return Not(x)


def Or(*bs):
    out = []
    for b in bs:
        if b.k == 'false':
            continue
        if b.k == 'true':
            return TRUE
        for x in (b.a if b.k == 'or' else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if Not1(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B('or', *out)


def Implies(a, b):
    return Or(Not(a), b)


def _ite_only(p):
    """p = c0 + c1*ite(...)  ->  (c0, c1, atom)"""
    its = [m for m in p.d if m]
    if len(its) == 1 and len(its[0]) == 1 and its[0][0][1] == 1 and its[0][0][0].kind == 'ite':
        return p.const(), p.d[its[0]], its[0][0][0]
    return None


def _cmp(mk, p):
    r = _ite_only(p)
    if r:
        c0, c1, a = r
        c, x, y = a.args
        if x.is_const() or y.is_const():
            return Or(And(c, mk(x * c1 + c0)), And(Not(c), mk(y * c1 + c0)))
    return None


def _nrm(p):
    c = abs(leading(p))
    if c != 1:
        p = p * (1 / c)
    return p


def _intnorm(p):
    from math import gcd
    g = 0
    l = 1
    for m, c in p.d.items():
        l = l * c.denominator // gcd(l, c.denominator)
    for m, c in p.d.items():
        if m:
            g = gcd(g, int(c * l))
    return p * Fr(l, g or 1)


def _allint(p):
    return all(all(a.sort == 'I' and e > 0 for a, e in m) for m in p.d)


def Lt0(p):
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    r = _cmp(Lt0, p)
    if r is not None:
        return r
    if _allint(p):
        p = _intnorm(p)
        # a.x + c < 0  <=>  a.x + ceil(c) ... ; strengthen to <= with integer part
        c = p.const()
        q = p - c
        # q < -c  <=> q <= ceil(-c)-1
        import math
        k = math.ceil(-c) - 1
        return B('le', q - k)
    m = _posfactor(p)
    if m is not None:
        p = m
    return B('lt', _nrm(p))


def Le0(p):
    if p.is_const():
        return TRUE if p.const() <= 0 else FALSE
    r = _cmp(Le0, p)
    if r is not None:
        return r
    if _allint(p):
        p = _intnorm(p)
        import math
        c = p.const()
        q = p - c
        return B('le', q - math.floor(-c))
    return B('le', _nrm(p))


def _posfactor(p):
    return None


def Eq0(p):
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    r = _cmp(Eq0, p)
    if r is not None:
        return r
    c = leading(p)
    if _allint(p):
        p = _intnorm(p)
        if p.const().denominator != 1:
            return FALSE
        if leading(p) < 0:
            p = -p
        return B('eq', p)
    return B('eq', p * (1 / c))


def Lt(a, b):
    return Lt0(P(a) - P(b))


def Le(a, b):
    return Le0(P(a) - P(b))


def Gt(a, b):
    return Lt(b, a)


def Ge(a, b):
    return Le(b, a)


def Eq(a, b):
    return Eq0(P(a) - P(b))


def ite(c, a, b):
    a, b = P(a), P(b)
    if c.k == 'true':
        return a
    if c.k == 'false':
        return b
    if a == b:
        return a
    if c.k == 'not':
        return ite(c.a[0], b, a)
    # min/max recognition: c is  p<0 / p<=0 ; a-b = k*p
    if c.k in ('lt', 'le'):
        p = c.a[0]
        d = a - b
        if not d.is_const():
            k = _ratio(d, p)
            if k is None and c.k == 'le' and _allint(p) and d.isint():
                # strict integer comparison was rewritten to p+1<=0
                k = _ratio(d, p - 1)
            if k is not None:
                # p<0 -> a.  a-b = k*p: if k>0, a<b when p<0 -> min
                return minv(a, b) if k > 0 else maxv(a, b)
            # |x| recognition: a = -b
            if (a + b) == ZERO:
                k = _ratio(a, p)
                if k is not None:
                    return -absv(a) if k > 0 else absv(a)
    a2 = _assume(a, c, True)
    b2 = _assume(b, c, False)
    if a2 == b2:
        return a2
    return P(atom('ite', c, a2, b2, sort=_srt(a2, b2)))


def _assume(p, c, val):
    """simplify ite atoms of p whose condition is c"""
    for a in p.atoms():
        if a.kind == 'ite' and (a.args[0] == c or a.args[0] == Not(c)):
            v = val if a.args[0] == c else not val
            return _assume(subst_poly_atom(p, a, a.args[1] if v else a.args[2]), c, val)
    return p


def _ratio(a, b):
    if len(a.d) != len(b.d) or set(a.d) != set(b.d):
        return None
    k = None
    for m, c in a.d.items():
        r = c / b.d[m]
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def b2p(b):
    return ite(b, ONE, ZERO)


def p2b(p):
    return Not(Eq0(p))


def bite(c, a, b):
    if a == b:
        return a
    return Or(And(c, a), And(Not(c), b))


def subst_poly_atom(p, a, val):
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        for x, k in m:
            if x is a:
                t = t * (val ** k if k > 0 else recip(val) ** (-k))
            else:
                t = t * Poly({((x, k),): Fr(1)})
        out = out + t
    return out


# -------------------------------------------------------- vectors and words
# letter shapes: 'v' column vector (N x 1), 'r' row vector (1 x N), 'm' N x N
SH = {'v': ('N', '1'), 'r': ('1', 'N'), 'm': ('N', 'N')}


class Lin:
    """linear combination of words; shape in 'v','r','m'"""
    __slots__ = ('d', 'shape', '_h', '_l')

    def __init__(self, d, shape):
        self.d = d
        self.shape = shape
        self._h = None
        self._l = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.shape, frozenset(self.d.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.shape == o.shape and self.d == o.d

    def lvl(self):
        if self._l is None:
            self._l = max([max([a.lvl for a in w] + [c.lvl()]) for w, c in self.d.items()], default=0)
        return self._l

    def __repr__(self):
        return lin_str(self)

    def __add__(self, o):
        if self.shape != o.shape:
            raise TypeError('shape')
        d = dict(self.d)
        for w, c in o.d.items():
            v = d.get(w)
            v = c if v is None else v + c
            if v.d:
                d[w] = v
            else:
                d.pop(w, None)
        return Lin(d, self.shape)

    def __neg__(self):
        return Lin({w: -c for w, c in self.d.items()}, self.shape)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        k = P(k)
        if not k.d:
            return Lin({}, self.shape)
        return Lin({w: c * k for w, c in self.d.items()}, self.shape)

    def t(self):
        sh = {'v': 'r', 'r': 'v', 'm': 'm'}[self.shape]
        return Lin({tuple(trans(a) for a in reversed(w)): c for w, c in self.d.items()}, sh)


def vzero():
    return Lin({}, 'v')


def vsym(name):
    return Lin({(atom('sym', name, shape='v'),): ONE}, 'v')


def vfresh(name):
    return vsym('%s!%d' % (name, next(_cnt)))


def msym(name):
    return Lin({(atom('sym', name, shape='m'),): ONE}, 'm')


def letter(a):
    return Lin({(a,): ONE}, a.shape)


IDENT = Lin({(): ONE}, 'm')


def trans(a):
    if a.kind == 'T':
        return a.args[0]
    if a.kind == 'diag':
        return a
    if a.kind == 'inv' and a.shape == 'm':
        at = a.args[0].t()
        if at == a.args[0]:
            return a
    return atom('T', a, shape={'v': 'r', 'r': 'v', 'm': 'm'}[a.shape])


def wshape(w):
    if not w:
        return 'm'
    r = SH[w[0].shape][0]
    c = SH[w[-1].shape][1]
    return {('N', '1'): 'v', ('1', 'N'): 'r', ('N', 'N'): 'm', ('1', '1'): 's'}[(r, c)]


def dotatom(seg):
    """scalar atom for r . m ... m . v, canonical under transposition"""
    alt = tuple(trans(a) for a in reversed(seg))
    k1 = tuple(a.id for a in seg)
    k2 = tuple(a.id for a in alt)
    return P(atom('dot', *(seg if k1 <= k2 else alt)))


def lamdot(r, v):
    """r . v as a sum when a factor is given by its components"""
    x = r.args[0] if r.kind == 'T' else None
    if x is None or (x.kind != 'lam' and v.kind != 'lam'):
        return dotatom((r, v))
    k = atom('sym', '#ld', sort='I')
    return sumk(k, ZERO, NP, elem_word((x,), P(k)) * elem_word((v,), P(k)))


def _reduce_word(w):
    """cancels inv(M) M and LU triples, pulls scalar segments out.
    returns (Poly factor, word) or a list of (Poly, word) alternatives"""
    k = ONE
    w = list(w)
    changed = True
    while changed:
        changed = False
        for i in range(len(w) - 1):
            a, b = w[i], w[i + 1]
            if _isinv(a, b) or _isinv(b, a):
                del w[i:i + 2]
                changed = True
                break
        if changed:
            continue
        for i in range(len(w) - 2):
            a, b, c = w[i:i + 3]
            if a.kind == 'inv' and b.kind == 'inv' and c.kind == 'LUP':
                u, l = _single(a.args[0]), _single(b.args[0])
                if u is not None and l is not None and u[1].kind == 'LUU' and l[1].kind == 'LUL' \
                        and u[1].args[0] == c.args[0] and l[1].args[0] == c.args[0]:
                    w[i:i + 3] = [atom('inv', c.args[0], shape='m')]
                    k = k * recip(u[0]) * recip(l[0])
                    changed = True
                    break
            if a.kind == 'T' and a.args[0].kind == 'LUP' and b.kind == 'LUL' and c.kind == 'LUU' \
                    and b.args[0] == c.args[0] == a.args[0].args[0]:
                # P' L U = M  handled by expansion in mul (M may be a sum)
                pass
        if changed:
            continue
        # scalar segments
        start = None
        for i, a in enumerate(w):
            if a.shape == 'r':
                start = i
            elif a.shape == 'v' and start is not None:
                k = k * (lamdot(w[start], w[i]) if i == start + 1 else dotatom(tuple(w[start:i + 1])))
                del w[start:i + 1]
                changed = True
                break
    return k, tuple(w)


def _single(lin):
    if len(lin.d) == 1:
        (w, c), = lin.d.items()
        if len(w) == 1 and c.is_const():
            return c, w[0]
    return None


def _isinv(a, b):
    if a.kind == 'inv' and a.shape == 'm' and b.shape == 'm':
        s = _single(a.args[0])
        return s is not None and s[1] is b and s[0] == ONE
    if a.kind == 'LUP' and b.kind == 'T' and b.args[0] is a:
        return True
    if b.kind == 'LUP' and a.kind == 'T' and a.args[0] is b:
        return True
    return False


def lmul(x, y):
    """product of two Lins; result Lin or Poly"""
    out = {}
    scal = ZERO
    shape = None
    rs = SH[x.shape][0]
    cs = SH[y.shape][1]
    if SH[x.shape][1] != SH[y.shape][0]:
        raise TypeError('shape mismatch in product')
    shape = {('N', '1'): 'v', ('1', 'N'): 'r', ('N', 'N'): 'm', ('1', '1'): 's'}[(rs, cs)]
    for w1, c1 in x.d.items():
        for w2, c2 in y.d.items():
            k, w = _reduce_word(w1 + w2)
            k = k * c1 * c2
            if shape == 's':
                assert w == ()
                scal = scal + k
            else:
                v = out.get(w)
                v = k if v is None else v + k
                if v.d:
                    out[w] = v
                else:
                    out.pop(w, None)
    if shape == 's':
        return scal
    return Lin(out, shape)


def linv(m):
    """inverse of an N x N Lin"""
    if len(m.d) == 1:
        (w, c), = m.d.items()
        if w == ():
            return Lin({(): recip(c)}, 'm')
        if len(w) == 1:
            a = w[0]
            if a.kind == 'inv' and a.shape == 'm':
                return a.args[0].scale(recip(c))
            return Lin({(atom('inv', letter(a), shape='m'),): recip(c)}, 'm')
        # product: reverse inverses if every letter is square
        if all(a.shape == 'm' for a in w):
            r = Lin({(): recip(c)}, 'm')
            for a in reversed(w):
                r = lmul(r, linv(letter(a)))
            return r
    # normalise scalar factor: leading coefficient
    k = None
    ws = sorted(m.d, key=lambda w: tuple(a.id for a in w))
    c = m.d[ws[0]]
    if c.is_const():
        k = c
    else:
        k = ONE
    mm = m.scale(recip(k))
    return Lin({(atom('inv', mm, shape='m'),): recip(k)}, 'm')


def app(f, t, y):
    """uninterpreted functor application: vector valued"""
    return letter(atom('app', f, t, y, shape='v'))


def mapp(f, t, y):
    return letter(atom('app', f, t, y, shape='m'))




def elem(v, i):
    """component i of an N-vector (Lin shape v or r)"""
    i = P(i)
    if v.shape == 'r':
        v = v.t()
    out = ZERO
    for w, c in v.d.items():
        out = out + c * elem_word(w, i)
    return out


def elem_word(w, i):
    a = w[0]
    if len(w) == 1:
        if a.kind == 'lam':
            return inst(a.args[0], i)
        if a.kind == 'unit':
            return ite(Eq(a.args[0], i), ONE, ZERO)
        if a.kind == 'ones':
            return ONE
    if len(w) >= 2 and a.kind == 'diag':
        return inst(a.args[0], i) * elem_word(w[1:], i)
    return P(atom('elem', w, i))


def mdiag(v):
    """diagonal matrix with the vector v (shape v) on its diagonal"""
    if not v.d:
        return Lin({}, 'm')
    k = atom('sym', '#dg', sort='I')
    body = elem(v, P(k))
    if not occurs(body, k):
        return Lin({(): body}, 'm')
    return letter(atom('diag', bind(body, k), shape='m'))


def isdiag(m):
    return isinstance(m, Lin) and m.shape == 'm' and all(w == () or (len(w) == 1 and w[0].kind == 'diag') for w in m.d)


def diagvec(m):
    """diagonal of a diagonal matrix"""
    k = atom('sym', '#dg', sort='I')
    body = ZERO
    for w, c in m.d.items():
        body = body + (c if w == () else c * inst(w[0].args[0], P(k)))
    return lam(k, body)


def melem(m, i, j):
    i, j = P(i), P(j)
    out = ZERO
    for w, c in m.d.items():
        out = out + c * melem_word(w, i, j)
    return out


def melem_word(w, i, j):
    if not w:
        return ite(Eq(i, j), ONE, ZERO)
    # outer product: column part . row part
    for p in range(len(w) - 1):
        if w[p].shape == 'v' and w[p + 1].shape == 'r':
            return elem_word(w[:p + 1], i) * elem(Lin({w[p + 1:]: ONE}, 'r'), j)
    a = w[0]
    if len(w) == 1:
        if a.kind == 'colcomp':
            return elem(inst(a.args[0], j), i)
        if a.kind == 'mlam':
            return inst2(a.args[0], i, j)
        if a.kind == 'diag':
            return ite(Eq(i, j), inst(a.args[0], i), ZERO)
        if a.kind == 'munit':
            return ite(And(Eq(a.args[0], i), Eq(a.args[1], j)), ONE, ZERO)
        if a.kind == 'T':
            return melem_word((a.args[0],), j, i)
    if a.kind == 'diag':
        return inst(a.args[0], i) * melem_word(w[1:], i, j)
    if w[-1].kind == 'diag':
        return melem_word(w[:-1], i, j) * inst(w[-1].args[0], j)
    return P(atom('melem', w, i, j))


# ------------------------------------------------------- binding / substitution
def bound(level):
    return atom('bound', level, sort='I')


def bind(body, k):
    """abstract integer atom k out of body; returns body with a bound atom"""
    l = _lvl(subst(body, {k: ZERO})) + 1
    # other bound atoms inside have levels < l
    return subst(body, {k: P(bound(l))})


def inst(body, i):
    l = _lvl(body)
    bs = bound(l)
    if l == 0:
        return body
    return subst(body, {bs: P(i)}) if occurs(body, bs) else body


def inst2(body, i, j):
    """body uses bound atoms tagged by ('bound2',0/1)"""
    return subst(body, {ROWK: P(i), COLK: P(j)})




def lam(k, body):
    """vector with component k = body"""
    return lam_norm(k, body)


def lam_norm(k, body):
    # linear pieces elem(w,k)*c become plain words
    out = Lin({}, 'v')
    rest = ZERO
    kp = P(k)
    for m, c in body.d.items():
        hit = None
        for x, e in m:
            if x.kind == 'elem' and e == 1 and x.args[1] == kp and not occurs(Lin({x.args[0]: ONE}, 'v'), k):
                hit = x
                break
        if hit is not None:
            co = Poly({tuple((x, e) for x, e in m if x is not hit): c})
            if not occurs(co, k):
                out = out + Lin({hit.args[0]: co}, 'v')
                continue
        rest = rest + Poly({m: c})
    if rest.d:
        if not occurs(rest, k):
            out = out + Lin({(atom('ones', shape='v'),): rest}, 'v')
        else:
            out = out + letter(atom('lam', bind(rest, k), shape='v'))
    return out


def sumk(k, lo, hi, body):
    """sum over integer k in [lo,hi) of body"""
    lo, hi = P(lo), P(hi)
    if not body.d:
        return ZERO
    if not occurs(body, k):
        return body * (hi - lo)
    out = ZERO
    if len(body.d) > 4:
        # large summand: only common factors are pulled out
        g = content(body)
        gk = tuple((x, e) for x, e in g if not occurs(x, k))
        if gk:
            body = body * Poly({tuple((x, -e) for x, e in gk): Fr(1)})
        c = leading(body)
        co = Poly({gk: Fr(1)}) * c
        return co * P(atom('sum', lo, hi, bind(body * (1 / c), k)))
    for m, c in body.d.items():
        inside = tuple((x, e) for x, e in m if occurs(x, k))
        outside = tuple((x, e) for x, e in m if not occurs(x, k))
        co = Poly({outside: c})
        if not inside:
            out = out + co * (hi - lo)
            continue
        inn = Poly({inside: Fr(1)})
        d = _as_dot(inside, k) if (lo == ZERO and hi == NP) else None
        if d is not None:
            out = out + co * d
            continue
        out = out + co * P(atom('sum', lo, hi, bind(inn, k)))
    return out


def _as_dot(inside, k):
    fs = []
    for x, e in inside:
        if x.kind != 'elem' or x.args[1] != P(k) or e < 1:
            return None
        if occurs(Lin({x.args[0]: ONE}, 'v'), k):
            return None
        fs += [x.args[0]] * e
    if len(fs) == 2:
        a = Lin({fs[0]: ONE}, 'v').t()
        return lmul(a, Lin({fs[1]: ONE}, 'v'))
    return None


_occ = {}


def occurs(t, a):
    if isinstance(t, Atom):
        if t is a:
            return True
        key = (t.id, a if isinstance(a, B) else a.id)
        r = _occ.get(key)
        if r is None:
            r = _occ[key] = any(occurs(x, a) for x in t.args)
        return r
    if isinstance(t, Poly):
        return any(occurs(x, a) for m in t.d for x, e in m)
    if isinstance(t, B):
        return t == a or any(occurs(x, a) for x in t.a)
    if isinstance(t, Lin):
        return any(occurs(c, a) or any(occurs(x, a) for x in w) for w, c in t.d.items())
    if isinstance(t, BM):
        return any(occurs(e, a) for r in t.ent for e in r)
    if isinstance(t, (tuple, list)):
        return any(occurs(x, a) for x in t)
    if hasattr(t, 'hsub'):
        return t.hocc(a)
    return False


def subst(t, mp):
    """substitute atoms: scalars -> Poly, letters -> Lin, ('b',B) -> B"""
    if not mp:
        return t
    try:
        key = frozenset(mp.items())
    except TypeError:
        return _sub(t, mp, {})
    memo = _submemo.get(key)
    if memo is None:
        if len(_submemo) > 200:
            _submemo.clear()
        memo = _submemo[key] = {}
    return _sub(t, mp, memo)


_submemo = {}


def _sub(t, mp, memo):
    if isinstance(t, Poly):
        out = None
        changed = False
        for m in t.d:
            for x, e in m:
                if _subatom(x, mp, memo) is not None:
                    changed = True
                    break
            if changed:
                break
        if not changed:
            return t
        out = ZERO
        for m, c in t.d.items():
            r = P(c)
            plain = []
            for x, e in m:
                v = _subatom(x, mp, memo)
                if v is None:
                    plain.append((x, e))
                else:
                    r = r * (v ** e)
            if plain:
                r = r * Poly({tuple(plain): Fr(1)})
            out = out + r
        return cancel(out)
    if isinstance(t, B):
        if t in mp:
            return mp[t]
        if t.k in ('true', 'false', 'bsym'):
            return t
        a = [_sub(x, mp, memo) for x in t.a]
        return mkb(t.k, a)
    if isinstance(t, Lin):
        ch = any(any(_subatom(x, mp, memo) is not None for x in w) or _sub(c, mp, memo) != c for w, c in t.d.items())
        if not ch:
            return t
        out = Lin({}, t.shape)
        for w, c in t.d.items():
            c2 = _sub(c, mp, memo)
            r = None
            for x in w:
                v = _subatom(x, mp, memo)
                lx = letter(x) if v is None else v
                r = lx if r is None else rmul(r, lx)
            if r is None:
                r = IDENT
            out = out + r.scale(c2)
        return out
    if isinstance(t, BM):
        return BM(t.rows, t.cols, [[_sub(e, mp, memo) for e in r] for r in t.ent])
    if isinstance(t, tuple):
        return tuple(_sub(x, mp, memo) for x in t)
    if isinstance(t, Atom):
        v = _subatom(t, mp, memo)
        return t if v is None else v
    return t


def rmul(x, y):
    """product where x or y may be outer shapes"""
    if isinstance(x, Poly):
        return y.scale(x)
    if isinstance(y, Poly):
        return x.scale(y)
    if SH[x.shape][1] == SH[y.shape][0]:
        return lmul(x, y)
    raise TypeError('rmul')


_NOSUB = object()


_deep = {}


def deep(t):
    """every atom and every Boolean term inside t, at any depth"""
    r = _deep.get(t)
    if r is None:
        s = set()
        if isinstance(t, Atom):
            for x in t.args:
                s |= deepx(x)
            s.add(t)
        elif isinstance(t, B):
            for x in t.a:
                s |= deepx(x)
            s.add(t)
        r = _deep[t] = frozenset(s)
    return r


def deepx(x):
    if isinstance(x, (Atom, B)):
        return deep(x)
    s = set()
    if isinstance(x, Poly):
        for m in x.d:
            for a, e in m:
                s |= deep(a)
    elif isinstance(x, Lin):
        for w, c in x.d.items():
            s |= deepx(c)
            for a in w:
                s |= deep(a)
    elif isinstance(x, BM):
        for r in x.ent:
            for e in r:
                s |= deepx(e)
    elif isinstance(x, (tuple, list)):
        for y in x:
            s |= deepx(y)
    elif hasattr(x, 'hsub'):
        s.add(OPAQUE)
    return s


OPAQUE = 'opaque holder'


def touches(x, mp, memo):
    keys = memo.get(OPAQUE)
    if keys is None:
        keys = memo[OPAQUE] = frozenset(mp) | {OPAQUE}
    return not keys.isdisjoint(deep(x))


def _subatom(x, mp, memo):
    if x in mp:
        return mp[x]
    r = memo.get(x, memo)
    if r is not memo:
        return r
    r = None
    if x.args and touches(x, mp, memo):
        na = []
        ch = False
        for a in x.args:
            if isinstance(a, (Poly, B, Lin, BM, Atom)):
                b = _sub(a, mp, memo)
            elif isinstance(a, tuple) and a and isinstance(a[0], Atom):
                # a word
                l = Lin({a: ONE}, wshape(a)) if wshape(a) != 's' else None
                if l is None:
                    b = a
                else:
                    b = _sub(l, mp, memo)
                    if b == l:
                        b = a
            elif isinstance(a, tuple):
                b = _sub(a, mp, memo)
            elif hasattr(a, 'hsub'):
                b = a.hsub(mp)
            else:
                b = a
            if b is not a and b != a:
                ch = True
            na.append(b)
        if ch:
            r = mkatom(x, na)
    memo[x] = r
    return r


def mkatom(x, na):
    """rebuild atom x with new args through its smart constructor"""
    k = x.kind
    if k in ('selq', 'upd'):
        return atom(k, *na, sort=x.sort, shape=x.shape)
    if x.shape == 's':
        if k == 'inv':
            return recip(na[0])
        if k == 'sqrt':
            return sqrt(na[0])
        if k == 'let':
            p = na[0]
            if len(p.d) <= LET:
                return p
            g = content(p)
            c = leading(p)
            q = p * (1 / c)
            if g:
                q = q * Poly({tuple((a, -e) for a, e in g): Fr(1)})
            return Poly({((atom('let', q, sort='I' if q.isint() else 'R'), 1),): c}) * (Poly({g: Fr(1)}) if g else ONE)
        if k == 'abs':
            return absv(na[0])
        if k in ('max', 'min'):
            r = na[0]
            for y in na[1:]:
                r = maxv(r, y) if k == 'max' else minv(r, y)
            return r
        if k == 'pow':
            return powv(*na)
        if k == 'ite':
            return ite(*na)
        if k == 'idiv':
            return floordiv(*na)
        if k == 'mod':
            return mod(*na)
        if k == 'elem':
            w = na[0]
            l = w if isinstance(w, Lin) else Lin({w: ONE}, 'v')
            return elem(l, na[1])
        if k == 'melem':
            w = na[0]
            l = w if isinstance(w, Lin) else Lin({w: ONE}, 'm')
            return melem(l, na[1], na[2])
        if k == 'sum':
            l = _lvl(na[2])
            bs = bound(l)
            kk = atom('sym', '#s%d' % next(_cnt), sort='I')
            return sumk(kk, na[0], na[1], subst(na[2], {bs: P(kk)}))
        if k == 'bigmax' and not na[2].d:
            return ZERO
        if k == 'dot':
            r = None
            for y in na:
                ly = y if isinstance(y, Lin) else letter(y)
                r = ly if r is None else rmul(r, ly)
            return r
        return P(atom(k, *na, sort=x.sort))
    if k == 'inv':
        return linv(na[0])
    if k == 'T':
        y = na[0]
        return y.t() if isinstance(y, Lin) else letter(trans(y))
    if k == 'lam':
        l = _lvl(na[0])
        bs = bound(l)
        kk = atom('sym', '#s%d' % next(_cnt), sort='I')
        return lam_norm(kk, subst(na[0], {bs: P(kk)}))
    return letter(atom(k, *na, sort=x.sort, shape=x.shape))


def mkb(k, a):
    if k == 'not':
        return Not(a[0])
    if k == 'and':
        return And(*a)
    if k == 'or':
        return Or(*a)
    if k == 'lt':
        return Lt0(a[0])
    if k == 'le':
        return Le0(a[0])
    if k == 'eq':
        return Eq0(a[0])
    return B(k, *a)


# -------------------------------------------------------------- block matrix
class BM:
    """block matrix; rows/cols are tuples of '1' or 'N'; entries Poly for
    (1,1) blocks and Lin otherwise."""
    __slots__ = ('rows', 'cols', 'ent', '_h')

    def __init__(self, rows, cols, ent):
        self.rows = tuple(rows)
        self.cols = tuple(cols)
        self.ent = tuple(tuple(r) for r in ent)
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.rows, self.cols, self.ent))
        return self._h

    def __eq__(self, o):
        return isinstance(o, BM) and self.rows == o.rows and self.cols == o.cols and self.ent == o.ent

    def __repr__(self):
        return 'BM%s%s%s' % (''.join(self.rows), 'x' + ''.join(self.cols), [list(r) for r in self.ent])

    def nr(self):
        return dimsize(self.rows)

    def nc(self):
        return dimsize(self.cols)


def dimsize(ds):
    n1 = sum(1 for d in ds if d == '1')
    nn = sum(1 for d in ds if d == 'N')
    return P(n1) + NP * nn


def bzero(r, c):
    if r == '1' and c == '1':
        return ZERO
    return Lin({}, {('N', '1'): 'v', ('1', 'N'): 'r', ('N', 'N'): 'm'}[(r, c)])


def bmzeros(rows, cols):
    return BM(rows, cols, [[bzero(r, c) for c in cols] for r in rows])


def bmeye(rows, cols):
    out = []
    for i, r in enumerate(rows):
        row = []
        for j, c in enumerate(cols):
            if i == j and r == c:
                row.append(ONE if r == '1' else IDENT)
            else:
                row.append(bzero(r, c))
        out.append(row)
    return BM(rows, cols, out)


def bscale(e, k):
    return e * k if isinstance(e, Poly) else e.scale(k)


def bmul(x, y):
    if isinstance(x, Poly) and isinstance(y, Poly):
        return x * y
    if isinstance(x, Poly):
        return y.scale(x)
    if isinstance(y, Poly):
        return x.scale(y)
    # inner dims may be 1 (outer product) or N
    rs = SH[x.shape]
    cs = SH[y.shape]
    if rs[1] != cs[0]:
        raise TypeError('block mismatch')
    if rs[1] == '1':
        # outer product v * r
        d = {}
        for w1, c1 in x.d.items():
            for w2, c2 in y.d.items():
                w = w1 + w2
                v = d.get(w)
                v = c1 * c2 if v is None else v + c1 * c2
                if v.d:
                    d[w] = v
                else:
                    d.pop(w, None)
        return Lin(d, 'm')
    return lmul(x, y)


def bt(e):
    return e if isinstance(e, Poly) else e.t()


def bmt(m):
    return BM(m.cols, m.rows, [[bt(m.ent[i][j]) for i in range(len(m.rows))] for j in range(len(m.cols))])


def bmap(f, m):
    return BM(m.rows, m.cols, [[f(e) for e in r] for r in m.ent])


def bmadd(a, b, sgn=1):
    if a.rows != b.rows or a.cols != b.cols:
        raise ShapeError('add %s x %s with %s x %s' % (a.rows, a.cols, b.rows, b.cols))
    return BM(a.rows, a.cols, [[x + y if sgn > 0 else x - y for x, y in zip(r, s)] for r, s in zip(a.ent, b.ent)])


class ShapeError(Exception):
    pass


def bmmul(a, b):
    if a.cols != b.rows:
        raise ShapeError('mul')
    out = []
    for i, r in enumerate(a.rows):
        row = []
        for j, c in enumerate(b.cols):
            s = bzero(r, c)
            for k in range(len(a.cols)):
                x, y = a.ent[i][k], b.ent[k][j]
                if not x.d or not y.d:
                    continue
                s = s + bmul(x, y)
            row.append(s)
        out.append(row)
    return BM(a.rows, b.cols, out)


def isscalar_bm(m):
    return m.rows == ('1',) and m.cols == ('1',)


def vec(l):
    return BM(('N',), ('1',), [[l]])


def svec(ps):
    return BM(('1',) * len(ps), ('1',), [[P(p)] for p in ps])


def smat(rows):
    return BM(('1',) * len(rows), ('1',) * (len(rows[0]) if rows else 0), [[P(x) for x in r] for r in rows])


NEQ = atom('sym', 'N', sort='I')
NP = P(NEQ)
ROWK = atom('sym', '#row', sort='I')
COLK = atom('sym', '#col', sort='I')


# ----------------------------------------------------------------- printing
def atom_str(a):
    k = a.kind
    if k == 'sym':
        return a.args[0]
    if k == 'bound':
        return '#%d' % a.args[0]
    if k == 'T':
        return '%s^T' % (a.args[0],)
    if k == 'elem':
        return '%s[%s]' % ('.'.join(map(str, a.args[0])), a.args[1])
    return '%s(%s)' % (k, ', '.join(map(str, a.args)))


def poly_str(p):
    if not p.d:
        return '0'
    ts = []
    for m, c in p.d.items():
        f = [('%s^%d' % (a, e) if e != 1 else str(a)) for a, e in m]
        if c != 1 or not f:
            f = [str(c)] + f
        ts.append('*'.join(f))
    return '(' + ' + '.join(ts) + ')' if len(ts) > 1 else ts[0]


def lin_str(l):
    if not l.d:
        return '0_' + l.shape
    return '{' + ' + '.join(('' if c == ONE else '%s*' % (c,)) + ('.'.join(map(str, w)) or 'I') for w, c in l.d.items()) + '}'


def bool_str(b):
    if b.k in ('lt', 'le', 'eq'):
        return '%s%s0' % (b.a[0], {'lt': '<', 'le': '<=', 'eq': '=='}[b.k])
    if b.k == 'bsym':
        return b.a[0]
    return '%s(%s)' % (b.k, ', '.join(map(str, b.a)))
