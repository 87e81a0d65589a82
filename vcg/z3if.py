"""SMT back end (z3): validity and feasibility of Boolean terms."""
import time
import z3
from terms import *

STAT = {'queries': 0, 'time': 0.0, 'unknown': 0}


NONLIN = 'nonlinear'


class Tr:
    """translation to z3; kept between queries.  Every translated term remembers
    which defining facts it depends on."""

    def __init__(self, linear=False):
        self.linear = linear
        self.mono = {}
        self.cache = {}
        self.bc = {}
        self.facts = []
        self.vals = {}
        self.own = {}       # key -> facts that define it
        self.deps = {}      # key -> keys it depends on
        self.cur = set()

    @property
    def nonlin(self):
        return False

    @nonlin.setter
    def nonlin(self, v):
        self.cur.add(NONLIN)

    def track(self, key, fn):
        d = self.deps.get(key)
        if d is not None:
            self.cur |= d
            return self.vals[key]
        cur, facts = self.cur, self.facts
        self.cur, self.facts = set(), []
        try:
            r = fn()
            if self.facts:
                self.own[key] = self.facts
                self.cur.add(key)
            self.deps[key] = frozenset(self.cur)
            self.vals[key] = r
        finally:
            cur |= self.cur
            self.cur, self.facts = cur, facts
        return r

    def atom(self, a):
        r = self.cache.get(a)
        if r is not None and ('a', a.id) not in self.deps:
            return r          # being defined
        return self.track(('a', a.id), lambda: self.atom_(a))

    def monovar(self, m):
        return self.track(('m', m), lambda: self.monovar_(m))

    def recipvar(self, a):
        return self.track(('r', a.id), lambda: self.recipvar_(a))

    def b(self, b):
        return self.track(('b', b), lambda: self.b_(b))

    def query(self, bs):
        """z3 formulas of bs with the facts they need; and whether they are linear"""
        self.cur = set()
        self.facts = []
        fs = [self.b(b) for b in bs]
        need = self.cur
        for k in need:
            if k != NONLIN:
                fs.extend(self.own[k])
        return fs, NONLIN in need

    def var(self, a, name=None):
        n = 'a%d' % a.id
        return z3.Int(n) if a.sort == 'I' else z3.Real(n)

    def atom_(self, a):
        r = self.cache.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == 'ite':
            r = z3.If(self.b(a.args[0]), self.p(a.args[1]), self.p(a.args[2]))
            if a.sort == 'R':
                r = _real(r)
        elif k in ('max', 'min'):
            r = self.p(a.args[0])
            for x in a.args[1:]:
                y = self.p(x)
                if z3.is_int(r) != z3.is_int(y):
                    r, y = _real(r), _real(y)
                r = z3.If(r >= y, r, y) if k == 'max' else z3.If(r <= y, r, y)
        elif k == 'inv':
            r = self.var(a)
            p = self.p(a.args[0])
            self.cache[a] = r
            if not self.linear:
                self.facts.append(z3.Implies(p != 0, r * p == 1))
            else:
                self.nonlin = True
            self.facts.append(z3.Implies(p > 0, r > 0))
            self.facts.append(z3.Implies(p < 0, r < 0))
            if definitely_pos(a.args[0]):
                self.facts += [p > 0]
        elif k == 'sqrt':
            r = self.var(a)
            self.cache[a] = r
            p = self.p(a.args[0])
            self.facts += [r >= 0, z3.Implies(p > 0, r > 0)]
            if not self.linear:
                self.facts.append(z3.Implies(p >= 0, r * r == p))
            else:
                self.nonlin = True
        elif k == 'let':
            r = self.var(a)
            self.cache[a] = r
            if self.linear:
                self.nonlin = True
            else:
                self.facts.append(r == self.p(a.args[0]))
        elif k == 'abs':
            p = self.p(a.args[0])
            r = z3.If(p >= 0, p, -p)
        elif k == 'pow':
            r = self.var(a)
            self.cache[a] = r
            b, e = self.p(a.args[0]), self.p(a.args[1])
            self.facts += [z3.Implies(b > 0, r > 0),
                           z3.Implies(z3.And(b > 1, e > 0), r > 1), z3.Implies(z3.And(b > 1, e < 0), r < 1),
                           z3.Implies(z3.And(b < 1, b > 0, e > 0), r < 1), z3.Implies(z3.And(b < 1, b > 0, e < 0), r > 1),
                           z3.Implies(z3.Or(b == 1, e == 0), r == 1)]
        elif k == 'idiv':
            r = self.var(a)
            self.cache[a] = r
            x, y = self.p(a.args[0]), self.p(a.args[1])
            if self.linear and not a.args[1].is_const():
                self.nonlin = True
            else:
                self.facts.append(z3.Implies(z3.And(x >= 0, y > 0), r == x / y))
        elif k == 'mod':
            r = self.var(a)
            self.cache[a] = r
            x, y = self.p(a.args[0]), self.p(a.args[1])
            if self.linear and not a.args[1].is_const():
                self.nonlin = True
                self.facts.append(z3.Implies(z3.And(x >= 0, y > 0), z3.And(r >= 0, r < y)))
            else:
                self.facts.append(z3.Implies(z3.And(x >= 0, y > 0), r == x % y))
        elif k == 'mel':
            x, y = self.p(a.args[1]), self.p(a.args[2])
            r = z3.Function('mel_' + a.args[0], z3.IntSort(), z3.IntSort(), z3.RealSort())(x, y)
        else:
            r = self.var(a)
            self.cache[a] = r
            if k == 'sum' and (obviously_nonneg(a.args[2]) or issquare(a.args[2])):
                self.facts.append(r >= 0)
            if k == 'dot' and selfdot(a):
                self.facts.append(r >= 0)
            if k in ('norminf', 'len', 'bv'):
                self.facts.append(r >= 0)
            if a is NEQ:
                self.facts.append(r >= 1)
        self.cache[a] = r
        return r

    def p(self, p):
        r = None
        for m, c in p.d.items():
            t = None
            if self.linear and (len(m) > 1 or (m and m[0][1] != 1)):
                t = self.monovar(m)
                m = ()
                if c != 1:
                    t = _real(t) * z3.RealVal(c)
                if r is None:
                    r = t
                else:
                    r = _real(r) + _real(t)
                continue
            for a, e in m:
                x = self.atom(a)
                if e < 0:
                    x = self.recipvar(a)
                    e = -e
                for _ in range(e):
                    t = x if t is None else t * x
            if t is None:
                t = z3.RealVal(c) if c.denominator != 1 else z3.IntVal(c.numerator)
            elif c != 1:
                if z3.is_int(t) and c.denominator == 1:
                    t = t * int(c)
                else:
                    t = _real(t) * z3.RealVal(c)
            if r is None:
                r = t
            else:
                if z3.is_int(r) != z3.is_int(t):
                    r, t = _real(r), _real(t)
                r = r + t
        return z3.IntVal(0) if r is None else r

    def monovar_(self, m):
        v = self.mono.get(m)
        if v is not None:
            return v
        self.nonlin = True
        v = z3.Real('m%d' % _bid(m))
        self.mono[m] = v
        odd = [self.atom(a) for a, e in m if e % 2]
        ev = [self.atom(a) for a, e in m if e % 2 == 0]
        if not odd:
            self.facts.append(v >= 0)
        if len(odd) <= 6:
            self.facts.append(z3.Implies(z3.And(*[x >= 0 for x in odd]), v >= 0))
            self.facts.append(z3.Implies(z3.And(*([x > 0 for x in odd] + [x != 0 for x in ev])), v > 0))
        if len(odd) == 2 and not ev:
            x, y = odd
            self.facts += [z3.Implies(z3.And(x <= 0, y >= 0), v <= 0), z3.Implies(z3.And(x >= 0, y <= 0), v <= 0),
                           z3.Implies(z3.And(x > 0, y < 0), v < 0), z3.Implies(z3.And(x < 0, y > 0), v < 0)]
        if len(m) == 1 and m[0][1] == -1:
            self.facts.append(z3.Implies(odd[0] < 0, v < 0))
        return v

    def recipvar_(self, a):
        key = ('rec', a)
        r = self.cache.get(key)
        if r is None:
            r = z3.Real('r%d' % a.id)
            self.cache[key] = r
            x = self.atom(a)
            self.facts += [z3.Implies(x != 0, r * x == 1), z3.Implies(x > 0, r > 0), z3.Implies(x < 0, r < 0)]
        return r

    def b_(self, b):
        r = self.bc.get(b)
        if r is not None:
            return r
        k = b.k
        if k == 'true':
            r = z3.BoolVal(True)
        elif k == 'false':
            r = z3.BoolVal(False)
        elif k == 'lt':
            r = self.p(b.a[0]) < 0
        elif k == 'le':
            r = self.p(b.a[0]) <= 0
        elif k == 'eq':
            r = self.p(b.a[0]) == 0
        elif k == 'not':
            r = z3.Not(self.b(b.a[0]))
        elif k == 'and':
            r = z3.And(*[self.b(x) for x in b.a])
        elif k == 'or':
            r = z3.Or(*[self.b(x) for x in b.a])
        else:
            r = z3.Bool('b%d' % _bid(b))
        self.bc[b] = r
        return r


_bids = {}


def _bid(b):
    if b not in _bids:
        _bids[b] = len(_bids)
    return _bids[b]


def _real(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def selfdot(a):
    """w^T w for some word w"""
    w = a.args
    return len(w) % 2 == 0 and all(w[i] is trans(w[-1 - i]) for i in range(len(w) // 2))


def definitely_pos(p):
    """positive by shape: nonneg terms plus positive constant"""
    return p.d.get((), 0) > 0 and obviously_nonneg(p)


_sq = {}


def issquare(p):
    r = _sq.get(p)
    if r is None:
        r = _sq[p] = psqrt(p) is not None
    return r


def obviously_nonneg(p):
    for m, c in p.d.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 == 0:
                continue
            if a.kind in ('abs', 'sqrt', 'norminf', 'len'):
                continue
            if a is NEQ or a.kind == 'bound':
                continue
            if a.kind == 'inv' and obviously_nonneg(a.args[0]):
                continue
            if a.kind == 'sum' and (obviously_nonneg(a.args[2]) or issquare(a.args[2])):
                continue
            if a.kind == 'max' and any(obviously_nonneg(x) for x in a.args):
                continue
            if a.kind == 'min' and all(obviously_nonneg(x) for x in a.args):
                continue
            if a.kind == 'dot' and selfdot(a):
                continue
            return False
    return True


_memo = {}
TRS = (Tr(True), Tr())
FAST = [0]     # cap (ms) on nonlinear queries while candidates are filtered


def check(bs, timeout=2000):
    """sat / unsat / unknown for the conjunction"""
    key = frozenset(bs)
    r = _memo.get(key)
    if r is not None and (r[0] != 'unknown' or r[1] >= timeout):
        return r[0]
    t0 = time.time()
    fs, nl = TRS[0].query(bs)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*fs)
    STAT['queries'] += 1
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    if r == 'unsat' or (r == 'sat' and not nl):
        STAT['time'] += time.time() - t0
        _memo[key] = (r, timeout)
        return r
    if FAST[0]:
        timeout = min(timeout, FAST[0])
    fs, nl = TRS[1].query(bs)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*fs)
    STAT['queries'] += 1
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STAT['time'] += time.time() - t0
    if r == 'unknown':
        STAT['unknown'] += 1
    _memo[key] = (r, timeout)
    return r


def relevant(pc, goal_terms):
    """facts of pc connected to the goal through shared atoms"""
    want = set()
    for g in goal_terms:
        want |= batoms(g)
    rest = list(pc)
    out = []
    ch = True
    while ch:
        ch = False
        for b in list(rest):
            if batoms(b) & want:
                out.append(b)
                rest.remove(b)
                want |= batoms(b)
                ch = True
    return out


_ba = {}


def batoms(b):
    r = _ba.get(b)
    if r is None:
        s = set()
        st = [b]
        while st:
            x = st.pop()
            if isinstance(x, B):
                if x.k == 'bsym':
                    s.add(x)
                st.extend(y for y in x.a if isinstance(y, (B, Poly)))
            elif isinstance(x, Poly):
                for m in x.d:
                    for a, e in m:
                        if a not in s:
                            s.add(a)
                            if a.kind in ('ite', 'max', 'min', 'inv', 'sqrt', 'abs', 'pow', 'idiv', 'mod', 'mel'):
                                st.extend(y for y in a.args if isinstance(y, (B, Poly)))
        r = _ba[b] = frozenset(x for x in s if not (isinstance(x, Atom) and x is NEQ))
    return r


def valid(pc, goal, timeout=2000):
    """pc |- goal"""
    if goal.k == 'true':
        return True
    pcs = set(pc)
    if goal in pcs:
        return True
    if goal.k == 'and':
        return all(valid(pc, g, timeout) for g in goal.a)
    if FALSE in pcs:
        return True
    if goal.k == 'or' and any(g in pcs for g in goal.a):
        return True
    if goal.k == 'all' and any(b.k == 'all' and b.a == goal.a for b in pcs):
        return True
    ng = Not(goal)
    rel = relevant(pc, [ng])
    if check(rel + [ng], timeout) == 'unsat':
        return True
    if len(rel) < len(list(pc)):
        return check(list(pc) + [ng], timeout) == 'unsat'
    return False


def feasible(pc, timeout=500):
    if FALSE in pc:
        return False
    return check(list(pc), timeout) != 'unsat'


def zero(p, pc=(), timeout=2000):
    """is the polynomial zero under pc?"""
    if not p.d:
        return True
    q = clear(p)
    if not q.d:
        return True
    if any(a.kind == 'let' for a in q.atoms()):
        q = clear(unlet(q))
        if not q.d:
            return True
    # case split on one ite
    for a in q.atoms():
        if a.kind == 'ite':
            c = a.args[0]
            for v, cond in ((a.args[1], c), (a.args[2], Not(c))):
                pc2 = list(pc) + [cond]
                if not feasible(pc2):
                    continue
                if not zero(subst(q, {a: v}), pc2, timeout):
                    return False
            return True
    return valid(pc, Eq0(q), timeout)


def clear(p):
    """multiply out reciprocals (denominators assumed nonzero)"""
    for _ in range(40):
        inv = None
        for m in p.d:
            for a, e in m:
                if a.kind == 'inv' and e > 0:
                    inv = a
                    break
                if e < 0:
                    inv = a
                    break
            if inv:
                break
        if inv is None:
            return p
        if inv.kind == 'inv':
            k = max(dict(m).get(inv, 0) for m in p.d)
            den = inv.args[0]
            out = ZERO
            for m, c in p.d.items():
                dm = dict(m)
                e = dm.pop(inv, 0)
                out = out + Poly({tuple(sorted(dm.items(), key=lambda t: t[0].id)): c}) * den ** (k - e)
            p = out
        else:
            k = min(dict(m).get(inv, 0) for m in p.d)
            p = p * Poly({((inv, -k),): Fr(1)})
    return p


def lin_zero(l, pc=(), timeout=2000):
    return all(zero(c, pc, timeout) for c in l.d.values())


def equal(a, b, pc=(), timeout=2000):
    """structural values: Poly, B, Lin, BM"""
    if a == b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        return zero(a - b, pc, timeout)
    if isinstance(a, B) and isinstance(b, B):
        return valid(pc, Or(And(a, b), And(Not(a), Not(b))), timeout)
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a.shape != b.shape:
            return False
        if lin_zero(a - b, pc, timeout):
            return True
        if a.shape in ('v', 'r'):
            k = fresh('k', 'I')
            return zero(elem(a, k) - elem(b, k), list(pc) + [Le(0, k), Lt(k, NP)], timeout)
        k, l = fresh('k', 'I'), fresh('l', 'I')
        return zero(melem(a, k, l) - melem(b, k, l), list(pc) + [Le(0, k), Lt(k, NP), Le(0, l), Lt(l, NP)], timeout)
    if isinstance(a, BM) and isinstance(b, BM):
        return a.rows == b.rows and a.cols == b.cols and all(
            equal(x, y, pc, timeout) for r, s in zip(a.ent, b.ent) for x, y in zip(r, s))
    return False


def inner_atoms(t, kinds, out, seen):
    """choice atoms anywhere inside a term, innermost first"""
    if id(t) in seen:
        return
    if isinstance(t, Atom):
        if t.id in out or ('a', t.id) in seen:
            return
        seen.add(('a', t.id))
        for x in t.args:
            inner_atoms(x, kinds, out, seen)
        if t.kind in kinds:
            out[t.id] = t
    elif isinstance(t, Poly):
        for m in t.d:
            for x, e in m:
                inner_atoms(x, kinds, out, seen)
    elif isinstance(t, B):
        for x in t.a:
            inner_atoms(x, kinds, out, seen)
    elif isinstance(t, Lin):
        for w, c in t.d.items():
            inner_atoms(c, kinds, out, seen)
            for x in w:
                inner_atoms(x, kinds, out, seen)
    elif isinstance(t, BM):
        for r in t.ent:
            for e in r:
                inner_atoms(e, kinds, out, seen)
    elif isinstance(t, (tuple, list)):
        for x in t:
            inner_atoms(x, kinds, out, seen)


def resolve(t, pc, timeout=2000, limit=40):
    """rewrite choices (max, min, abs, conditional) that pc decides"""
    for _ in range(limit):
        out = {}
        inner_atoms(t, ('max', 'min', 'abs', 'ite'), out, set())
        mp = None
        for a in out.values():
            if a.kind in ('max', 'min'):
                xs = a.args
                keep = list(xs)
                for x in xs:
                    for y in xs:
                        if x is y or x not in keep or y not in keep:
                            continue
                        g = Le(x, y) if a.kind == 'max' else Ge(x, y)
                        if valid(pc, g, timeout):
                            keep.remove(x)
                            break
                if len(keep) < len(xs):
                    r = keep[0]
                    for y in keep[1:]:
                        r = maxv(r, y) if a.kind == 'max' else minv(r, y)
                    mp = {a: r}
            elif a.kind == 'abs':
                x = a.args[0]
                if valid(pc, Ge(x, 0), timeout):
                    mp = {a: x}
                elif valid(pc, Le(x, 0), timeout):
                    mp = {a: -x}
            elif isinstance(a.args[0], B):
                if valid(pc, a.args[0], timeout):
                    mp = {a: a.args[1]}
                elif valid(pc, Not(a.args[0]), timeout):
                    mp = {a: a.args[2]}
            if mp:
                break
        if not mp:
            return t
        t = subst(t, mp)
    return t


def pullroots(t, pc, timeout=2000):
    """sqrt(a^2 b) = |a| sqrt(b), also for negative powers"""
    for _ in range(20):
        out = {}
        inner_atoms(t, ('sqrt',), out, set())
        mp = None
        for a in out.values():
            p = a.args[0]
            if not isinstance(p, Poly) or not p.d:
                continue
            if len(p.d) == 1:
                (m, c), = p.d.items()
                rest = Poly({(): c})
            else:
                m = content(p)
                if not m:
                    continue
                rest = p * Poly({tuple((x, -e) for x, e in m): Fr(1)})
            pull, odd = ONE, []
            for x, e in m:
                if x.kind == 'inv' and e % 2:
                    # 1/q = q (1/q)^2
                    rest = rest * x.args[0]
                    pull = pull * absv(P(x)) ** ((e + 1) // 2)
                    continue
                k = e // 2
                if e % 2:
                    odd.append(x)
                if k:
                    pull = pull * Poly({((x, k),): Fr(1)}) if not (k % 2) or obviously_nonneg(P(x)) else \
                        pull * (P(x) ** k if k > 0 else Poly({((x, k),): Fr(1)})) * _sign(x, pc, timeout)
            if pull == ONE:
                continue
            for x in odd:
                rest = rest * P(x)
            mp = {a: pull * sqrt(rest)}
            break
        if not mp:
            return t
        t = subst(t, mp)
    return t


def _sign(x, pc, timeout):
    if valid(pc, Gt(P(x), 0), timeout):
        return ONE
    if valid(pc, Lt(P(x), 0), timeout):
        return -ONE
    return absv(P(x)) * Poly({((x, -1),): Fr(1)})


def refuted(pc, goals, timeout=2000):
    """which goals do not follow from pc (or cannot be shown to): indices"""
    pcs = set(pc)
    left = [i for i, g in enumerate(goals) if g.k != 'true' and g not in pcs]
    bad = []
    if not left:
        return bad
    if FALSE in pcs:
        return bad
    t0 = time.time()
    first = True
    for lin in (0, 1):
        tr = TRS[lin]
        s = z3.Solver()
        s.set('timeout', timeout)
        fs, nl = tr.query(list(pc))
        s.add(*fs)
        have = set(tr.cur)
        neg = {}
        for i in left:
            f, n = tr.query([Not(goals[i])])
            neg[i] = f[0]
            nl = nl or n
            for k in tr.cur - have:
                if k != NONLIN:
                    s.add(*tr.own[k])
            have |= tr.cur
        while left:
            s.push()
            s.add(z3.Or(*[neg[i] for i in left]))
            STAT['queries'] += 1
            try:
                r = str(s.check())
                m = s.model() if r == 'sat' else None
            except z3.Z3Exception:
                r, m = 'unknown', None
            s.pop()
            if r == 'unsat':
                STAT['time'] += time.time() - t0
                return bad
            if r == 'unknown' or (lin == 0 and nl):
                break
            out = [i for i in left if z3.is_true(m.eval(neg[i], model_completion=True))]
            if not out:
                break
            bad += out
            left = [i for i in left if i not in out]
    STAT['time'] += time.time() - t0
    for i in left:
        if not valid(pc, goals[i], timeout):
            bad.append(i)
    return bad
