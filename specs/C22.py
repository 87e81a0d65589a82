"""The cyclic buffer against the list of its most recent elements.  An arbitrary
buffer satisfying the representation invariant is taken through every operation;
what the accessors then show must be what the list operation gives, for every
capacity and every index."""
from spec import *
from values import Opq
from ctx import clip
HARNESS = 'misc'
CLS = 'cyclic_buffer<vp_elem>'
ASSUMPTIONS = ['writing through an indexed reference is not among the operations of the property']
VP = 'vp_elem'


class Buf:
    def __init__(self, c, prog, ndebug):
        self.c, self.prog = c, prog
        self.R = Run(prog, {}, ndebug, ghosts=False)
        self.I = self.R.I
        c.use(self.R)

    def fns(self, name, n, first=None):
        out = []
        for f in self.prog.fns.values():
            if f['q'] == CLS + '::' + name and len(f['params']) == n and f.get('s') is not None:
                t = f['params'][0]['t'] if n else ''
                if first is None or first in t:
                    if not any(g['params'] == f['params'] and g.get('s') == f.get('s') for g in out):
                        out.append(f)
        if not out:
            raise Unsupported('%s not found' % name)
        return out

    def outs(self, st, cell, f, args=()):
        st = st.copy()
        a = [x if isinstance(x, LV) else st.alloc('arg', x, False) for x in args]
        r = []
        if f['q'] == CLS + '::cyclic_buffer':
            for k, s, v in self.I.exec_ctor(st, f, CLS, a):
                self.c.fact('construction returns', k == 'v')
                if k == 'v':
                    s.heap[cell.cell] = v
                    r.append((s, cell))
            return r
        for k, s, v in self.I.exec_fn(st, f, cell, a):
            if k != 'v':
                self.c.fact('%s returns' % f['q'], False, k)
                continue
            r.append((s, v))
        return r

    def call(self, st, cell, name, args=(), first=None):
        for f in self.fns(name, len(args), first)[:1]:
            return self.outs(st, cell, f, args)

    def observe(self, st, cell, name):
        r = self.call(st, cell, name)
        if len(r) != 1:
            raise Unsupported('%s has several outcomes' % name)
        v = self.I.load(r[0][0], r[0][1])
        return v

    # ------------------------------------------------------------ the state
    def roles(self):
        """which member holds the capacity, the position, the count, the storage"""
        st = self.R.st.copy()
        p = sym('p0', 'I')
        st.assume(Ge(p, 1))
        o = self.blank(st)
        ints = [k for k, v in o.f.items() if isinstance(v, Poly)]
        vecs = [k for k, v in o.f.items() if isinstance(v, Seq)]
        if len(vecs) != 1:
            raise Unsupported('another representation: %s' % sorted(o.f))
        q = o
        for k in ints:
            q = q.set(k, sym('role_' + k, 'I'))
            st.assume(Ge(q.f[k], 0))
        cell = st.alloc('buf', q, False)
        got = {}
        for name in ('period', 'current', 'size'):
            v = P(self.observe(st, cell, name))
            ks = [k for k in ints if v == sym('role_' + k, 'I')]
            if len(ks) != 1:
                raise Unsupported('%s() is not a member' % name)
            got[name] = ks[0]
        if len(set(got.values())) != 3 or len(ints) != 3:
            raise Unsupported('another representation: %s' % sorted(o.f))
        got['storage'] = vecs[0]
        self.role = got
        return got

    def blank(self, st):
        return self.I.default(st, CLS)

    def arbitrary(self, st, tag):
        """an arbitrary buffer that satisfies the invariant"""
        p, cur, n = sym('p' + tag, 'I'), sym('cur' + tag, 'I'), sym('n' + tag, 'I')
        o = self.blank(st)
        base = atom('sym', 'sto' + tag)
        o = o.set(self.role['period'], p).set(self.role['current'], cur).set(self.role['size'], n)
        o = o.set(self.role['storage'], Seq((), base, p * 2, VP))
        st.assume(*self.shape(p, cur, n))
        return st.alloc('buf' + tag, o, False), (p, cur, n, base)

    @staticmethod
    def shape(p, cur, n):
        return [Ge(p, 1), Ge(n, 0), Le(n, p), Ge(cur, 0),
                Or(Eq(n, 0), Eq(n, p), Eq(cur, n - 1)),
                Or(Not(Eq(n, p)), And(Ge(cur, p - 1), Le(cur, p * 2 - 2)))]

    def members(self, st, cell):
        o = self.I.load(st, cell)
        return [o.f[self.role[k]] for k in ('period', 'current', 'size', 'storage')]

    def same(self, pc, a, b):
        """the stored elements a and b are equal in every state of the path"""
        if a == b:
            return True
        if not (isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag == 'sel'):
            return None
        (ba, ia), (bb, ib) = a.args, b.args
        if ba != bb:
            return False
        ia, ib = P(ia), P(ib)
        alts = [Eq(ia, ib)]
        for p, cur, n, base in self.srcs:
            if base == ba:
                for x, y in ((ia, ib), (ib, ia)):
                    alts.append(And(Eq(n, p), Eq(y, x + p), Ge(x, 0), Le(x, cur - p)))
        return Or(*alts)

    def need_same(self, name, pc, a, b):
        g = self.same(pc, a, b)
        if g is None:
            self.c.note(name, 'unknown', 'rewriting', '%s vs %s' % (clip(a), clip(b)))
        elif isinstance(g, bool):
            self.c.fact(name, g, '%s vs %s' % (clip(a), clip(b)))
        else:
            self.c.prove(name, pc, g)

    def check_invariant(self, what, st, cell):
        p, cur, n, sto = self.members(st, cell)
        for g in self.shape(P(p), P(cur), P(n)):
            self.c.prove('%s: invariant kept' % what, st.pc, g)
        self.c.eq('%s: storage for twice the capacity' % what, st.pc, sto.length(), P(p) * 2)
        # an arbitrary duplicated slot
        s = st.copy()
        k = fresh('slot', 'I')
        s.assume(Eq(n, p), Ge(k, 0), Le(k, P(cur) - P(p)))
        if z3if.check(list(s.pc), 3000) == 'unsat':
            return
        for s2, (a, b) in self.reads(s, cell, [k, k + p]):
            self.need_same('%s: duplicate slots agree' % what, s2.pc, a, b)

    def reads(self, st, cell, idx):
        """elements at storage positions, over all case distinctions"""
        def fn(s):
            v = self.I.load(s, cell).f[self.role['storage']]
            return tuple(self.I.models_mod.seq_get(self.I, s, v, i) for i in idx)
        return [(s, v) for k, s, v in self.I.run(st, fn) if k == 'v']

    def element(self, st, cell, i):
        """what indexing returns, for both overloads: [(overload, state, value)]"""
        out = []
        for q, f in enumerate(self.fns('operator[]', 1)):
            for s, v in self.outs(st, cell, f, [i]):
                for k2, s2, x in self.I.run(s, lambda s_, v=v: self.I.load(s_, v)):
                    out.append((q, s2, x))
        return out

    def compare(self, what, st, cell, i, st0, cell0, j):
        """element i here is element j there (states on one path)"""
        n = 0
        for q, s, x in self.element(st, cell, i):
            t = st0.copy()
            t.pc = list(s.pc) if isinstance(s.pc, list) else s.pc
            for q2, s2, y in self.element(t, cell0, j):
                if q2 != q:
                    continue
                n += 1
                self.need_same(what, s2.pc, x, y)
        self.c.fact('%s: compared' % what, n > 0)

    def bounds(self, what):
        self.c.safety(what, self.I, asserts=True)


def push(B_):
    c = B_.c
    st = B_.R.st.copy()
    cell, src = B_.arbitrary(st, '')
    B_.srcs = [src]
    p, cur, n, base = src
    t = Opq('pushed')
    i = sym('i', 'I')
    for f in B_.fns('push_back', 1):
        for s, v in B_.outs(st, cell, f, [t]):
            c.cover('push', s.pc)
            B_.check_invariant('push', s, cell)
            c.eq('push: capacity unchanged', s.pc, B_.observe(s, cell, 'period'), p)
            n2 = P(B_.observe(s, cell, 'size'))
            c.prove('push: one more element, up to the capacity', s.pc, Or(And(Lt(n, p), Eq(n2, n + 1)), And(Eq(n, p), Eq(n2, p))))
            c.prove('push: not empty', s.pc, Not(truth(B_.observe(s, cell, 'empty'))))
            for q, s2, x in B_.element(s, cell, ZERO):
                c.fact('push: the newest element is the one pushed', x == t, clip(x))
            s3 = s.copy()
            s3.assume(Ge(i, 1), Lt(i, n2))
            if z3if.check(list(s3.pc), 3000) != 'unsat':
                for q, s4, x in B_.element(s3, cell, i):
                    o = st.copy()
                    o.pc = s4.pc
                    for q2, s5, y in B_.element(o, cell, i - 1):
                        if q2 == q:
                            B_.need_same('push: older elements move back by one', s5.pc, x, y)
    B_.bounds('push')


def truth(v):
    return v if isinstance(v, B) else Not(Eq(P(v), 0))


def fresh_buffers(B_):
    c = B_.c
    p = sym('p0', 'I')
    for f in B_.fns('cyclic_buffer', 1, 'int') if B_.fns('cyclic_buffer', 1) else ():
        st = B_.R.st.copy()
        st.assume(Ge(p, 1))
        cell = st.alloc('new', B_.blank(st), False)
        for s, v in B_.outs(st, cell, f, [p]):
            B_.srcs = []
            c.cover('construction', s.pc)
            c.eq('construction: empty', s.pc, B_.observe(s, cell, 'size'), ZERO)
            c.prove('construction: reports empty', s.pc, truth(B_.observe(s, cell, 'empty')))
            c.eq('construction: capacity', s.pc, B_.observe(s, cell, 'period'), p)
            B_.check_invariant('construction', s, cell)
            iteration_empty(B_, 'construction', s, cell)
    st = B_.R.st.copy()
    cell, src = B_.arbitrary(st, '')
    B_.srcs = [src]
    m = sym('m', 'I')
    st.assume(Ge(m, 1))
    for f in B_.fns('resize', 1):
        for s, v in B_.outs(st, cell, f, [m]):
            c.cover('resize', s.pc)
            c.eq('resize: empty', s.pc, B_.observe(s, cell, 'size'), ZERO)
            c.prove('resize: reports empty', s.pc, truth(B_.observe(s, cell, 'empty')))
            c.eq('resize: capacity', s.pc, B_.observe(s, cell, 'period'), m)
            B_.check_invariant('resize', s, cell)
            iteration_empty(B_, 'resize', s, cell)
    B_.bounds('construction and resize')


def iteration_empty(B_, what, s, cell):
    b = B_.call(s, cell, 'begin')
    for s1, x in b:
        for s2, y in B_.call(s1, cell, 'end'):
            for s3, r in itop(B_, s2, x, 'operator!=', [y]):
                B_.c.prove('%s: nothing to iterate over' % what, s3.pc, Not(truth(B_.I.load(s3, r))))


def itop(B_, s, it, name, args=()):
    q = CLS + '::iterator::' + name
    fs = [f for f in B_.prog.fns.values() if f['q'] == q and len(f['params']) == len(args) and f.get('s') is not None]
    if not fs:
        raise Unsupported('%s not found' % q)
    s = s.copy()
    v = B_.I.load(s, it)
    cell = it if isinstance(it, LV) else s.alloc('it', v, False)
    a = [x if isinstance(x, LV) else s.alloc('arg', x, False) for x in args]
    out = []
    for k, s2, r in B_.I.exec_fn(s, fs[0], cell, a):
        if k == 'v':
            out.append((s2, r))
    return out


def copies(B_):
    c = B_.c
    i = sym('i', 'I')
    for how in ('copy', 'assignment', 'self-assignment'):
        st = B_.R.st.copy()
        cell, src = B_.arbitrary(st, '')
        B_.srcs = [src]
        p, cur, n, base = src
        if how == 'copy':
            fs = B_.fns('cyclic_buffer', 1, 'cyclic_buffer')
            dest = st.alloc('copy', B_.blank(st), False)
        else:
            fs = B_.fns('operator=', 1)
            if how == 'assignment':
                dest, src2 = B_.arbitrary(st, '2')
                B_.srcs.append(src2)
            else:
                dest = cell
        for f in fs:
            for s, v in B_.outs(st, dest, f, [cell]):
                c.cover(how, s.pc)
                c.fact('%s: the source is unchanged' % how, B_.I.load(s, cell) == B_.I.load(st, cell))
                c.eq('%s: capacity' % how, s.pc, B_.observe(s, dest, 'period'), p)
                c.eq('%s: size' % how, s.pc, B_.observe(s, dest, 'size'), n)
                c.prove('%s: emptiness' % how, s.pc, iff(truth(B_.observe(s, dest, 'empty')), Eq(n, 0)))
                d = B_.I.load(s, dest)
                c.fact('%s: independent storage' % how, isinstance(d, Struct) and not any(isinstance(x, (LV, Ptr)) for x in d.f.values()))
                B_.check_invariant(how, s, dest)
                s2 = s.copy()
                s2.assume(Ge(i, 0), Lt(i, n))
                for q, s3, x in B_.element(s2, dest, i):
                    o = st.copy()
                    o.pc = s3.pc
                    for q2, s4, y in B_.element(o, cell, i):
                        if q2 == q:
                            B_.need_same('%s: same elements' % how, s4.pc, x, y)
                if how == 'assignment':
                    for s5, r in [(s, v)]:
                        c.fact('assignment: returns the buffer assigned to', isinstance(r, LV) and r.cell == dest.cell)
    B_.bounds('copying')


def iff(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def iteration(B_):
    """begin, k increments: the k-th newest element; equal to end exactly at k = size"""
    c = B_.c
    st = B_.R.st.copy()
    cell, src = B_.arbitrary(st, '')
    B_.srcs = [src]
    p, cur, n, base = src
    (s0, b), = B_.call(st, cell, 'begin')
    (s1, e), = B_.call(s0, cell, 'end')
    it0 = B_.I.load(s1, b)
    ints = [k for k, v in it0.f.items() if isinstance(v, Poly)]
    if len(ints) != 1:
        raise Unsupported('another iterator: %s' % sorted(it0.f))
    pos = ints[0]
    k = sym('k', 'I')
    # where an increment takes an arbitrary position
    step = None
    x = it0.set(pos, sym('pos', 'I'))
    cx = s1.alloc('it', x, False)
    for s2, r in itop(B_, s1, cx, 'operator++'):
        y = B_.I.load(s2, cx)
        step = P(y.f[pos]) - sym('pos', 'I')
        c.fact('increment moves by a constant', step.is_const() and y.set(pos, ZERO) == x.set(pos, ZERO), clip(step))
        c.fact('increment returns the iterator', isinstance(r, LV) and r.cell == cx.cell)
    def at(k):
        return it0.set(pos, P(it0.f[pos]) + step * k)
    s = s1.copy()
    s.assume(Ge(k, 0), Le(k, n))
    for op, same in (('operator!=', False), ('operator==', True)):
        for s2, r in itop(B_, s, at(k), op, [e]):
            v = truth(B_.I.load(s2, r))
            c.prove('the end is reached exactly after all elements (%s)' % op, s2.pc, iff(v if same else Not(v), Eq(k, n)))
    s = s1.copy()
    s.assume(Ge(k, 0), Lt(k, n))
    c.cover('iteration', s.pc)
    for s2, r in itop(B_, s, at(k), 'operator*'):
        for k2, s3, v in B_.I.run(s2, lambda s_, r=r: B_.I.load(s_, r)):
            for q, s4, y in B_.element(s3, cell, k):
                B_.need_same('the element visited is the one indexing gives', s4.pc, v, y)
    B_.bounds('iteration')


def queries(B_):
    c = B_.c
    st = B_.R.st.copy()
    cell, src = B_.arbitrary(st, '')
    B_.srcs = [src]
    p, cur, n, base = src
    c.prove('empty exactly when nothing is stored', st.pc, iff(truth(B_.observe(st, cell, 'empty')), Eq(n, 0)))
    i = sym('i', 'I')
    s = st.copy()
    s.assume(Ge(i, 0), Lt(i, n))
    before = B_.I.load(s, cell)
    vals = {}
    for q, s2, x in B_.element(s, cell, i):
        vals[q] = x
        c.fact('indexing changes nothing', B_.I.load(s2, cell) == before)
    c.fact('both overloads of indexing give the same element', len(set(map(str, vals.values()))) == 1, clip(vals))
    for name in ('size', 'period', 'empty', 'current'):
        for s2, v in B_.call(st, cell, name):
            c.fact('%s changes nothing' % name, B_.I.load(s2, cell) == before)
    B_.bounds('queries')


def verify(c):
    for nd in (False, True):
        with c.part('without assertions' if nd else ''):
            prog = c.program(('api',), ('NDEBUG',) if nd else ())
            for name, fn in (('push', push), ('construction and resize', fresh_buffers), ('copies', copies),
                             ('iteration', iteration), ('queries', queries)):
                with c.part(('NDEBUG ' if nd else '') + name):
                    B_ = Buf(c, prog, nd)
                    B_.roles()
                    fn(B_)
                    c.use(B_.R)
