"""Symbolic executor over the exported AST: produces, for one function, every
path outcome with its path condition; callees are executed through their own
body or replaced by a contract (hook); loops are cut by invariants (loops.py).
"""
from fractions import Fraction as Fr
import re
from terms import *
from values import *
import z3if


class Fork(Exception):
    def __init__(self, n):
        self.n = n


class Dead(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, val):
        self.val = val


class Loop0(Exception):
    """a loop needs another treatment"""


def strip(q):
    """drop template arguments from a qualified name"""
    m = re.search(r'operator(?:\(\)|\[\]|->\*?|<<=?|>>=?|<=?|>=?|[^\w\s<>]+|\s*(?:new|delete)|\s+.*)$', q)
    tail = ''
    if m:
        q, tail = q[:m.start()], q[m.start():]
    out = []
    d = 0
    for c in q:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out) + tail


_ct = {}


def ctype(t):
    """canonical type: no cv, no struct/class keyword, no spaces after commas"""
    r = _ct.get(t)
    if r is None:
        r = re.sub(r'\b(const|volatile|struct|class|typename)\b', '', t)
        r = re.sub(r'\s+', ' ', r).strip()
        r = re.sub(r'\s*([<>,&*])\s*', r'\1', r)
        _ct[t] = r
    return r


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short',
        'unsigned short', 'char', 'signed char', 'unsigned char', 'std::size_t', 'size_t'}
FLOATS = {'double', 'float', 'long double'}


def isint_t(t):
    return ctype(t) in INTS


def bits_of(t):
    t = ctype(t)
    return {'int': 32, 'unsigned int': 32, 'unsigned': 32, 'short': 16, 'unsigned short': 16, 'char': 8,
            'signed char': 8, 'unsigned char': 8}.get(t, 64)


def isunsigned_t(t):
    t = ctype(t)
    return t.startswith('unsigned') or t in ('std::size_t', 'size_t')


def targs_of(t):
    """top-level template arguments of a type"""
    t = ctype(t)
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    cur = ''
    out = []
    for c in t[i + 1:t.rfind('>')]:
        if c == '<':
            d += 1
        if c == '>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out


class St:
    __slots__ = ('heap', 'pc', 'log', 'env', 'this', 'owned', 'n', 'fr')

    def __init__(self):
        self.heap = {}
        self.pc = ()
        self.log = ()
        self.env = {}
        self.this = None
        self.owned = ()
        self.n = 0
        self.fr = ''

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.log = self.log
        s.env = self.env
        s.this = self.this
        s.owned = self.owned
        s.n = self.n
        s.fr = self.fr
        return s

    def become(self, o):
        self.heap = dict(o.heap)
        self.pc = o.pc
        self.log = o.log
        self.env = o.env
        self.this = o.this
        self.owned = o.owned
        self.n = o.n
        self.fr = o.fr

    def assume(self, *bs):
        for b in bs:
            if b.k == 'true' or b in self.pc:
                continue
            if b.k == 'and':
                self.assume(*b.a)
            else:
                self.pc = self.pc + (b,)

    def alloc(self, name, val, own=True):
        self.n += 1
        c = 'c%d:%s' % (self.n, name)
        self.heap[c] = val
        if own:
            self.owned = self.owned + (c,)
        return LV(c)


STDSTREAMS = ('std::cout', 'std::cerr', 'std::clog')


class Interp:
    def __init__(self, prog, hooks=None, ndebug=False):
        self.prog = prog
        self.hooks = hooks or {}
        self.ndebug = ndebug
        self.script = ()
        self.pos = 0
        self.cache = {}
        self.ord = 0
        self.ginit = {}
        self.used = set()         # functions executed through their body
        self.models = set()       # library contracts relied upon
        self.assume_notes = set()
        self.loops = []           # LoopRecords
        self.unroll_limit = 400
        self.depth = 0
        self.merge_on = True
        self.on_loop = None
        self.watch = ()
        self.quiet_asserts = True
        self.failed_asserts = []
        self.shape_errors = []
        self.bounds_errors = []
        self.bounds_unproved = []
        self.capture = ()
        self.oblig = 0            # loop-invariant obligations discharged
        self.deadline = None
        import models
        self.M = models.MODELS
        self.models_mod = models
        self._byqt = {}
        for f in prog.fns.values():
            if f.get('s') is not None or f.get('inits') is not None:
                self._byqt.setdefault((f['q'], self.fnkey(f)), f)

    def fnkey(self, f):
        return tuple(ctype(p['t']) for p in f['params'])

    # ------------------------------------------------------------- oracle
    def choose(self, n):
        if n <= 0:
            raise Dead()
        if n == 1:
            return 0
        if self.pos < len(self.script):
            r = self.script[self.pos]
            self.pos += 1
            return r
        raise Fork(n)

    def run(self, st, fn):
        """all outcomes of fn on copies of st: list of ('v'|'t', state, value)"""
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
        outs = []
        work = [()]
        saved = (self.script, self.pos, self.cache, self.ord)
        cache = {}
        try:
            while work:
                sc = work.pop()
                s = st.copy()
                self.script, self.pos, self.cache, self.ord = sc, 0, cache, 0
                try:
                    v = fn(s)
                    outs.append(('v', s, v))
                except Fork as f:
                    work.extend(sc + (i,) for i in reversed(range(f.n)))
                    if len(work) > 3000:
                        raise Unsupported('too many paths')
                except Dead:
                    pass
                except CppThrow as t:
                    outs.append(('t', s, t.val))
        finally:
            self.script, self.pos, self.cache, self.ord = saved
        return outs

    def cached(self, thunk):
        key = (self.script[:self.pos], self.ord)
        self.ord += 1
        r = self.cache.get(key)
        if r is None:
            saved = (self.script, self.pos, self.cache, self.ord)
            r = thunk()
            self.script, self.pos, self.cache, self.ord = saved
            self.cache[key] = r
        return r

    def adopt(self, st, outs):
        """continue the current expression in one of the outcomes"""
        i = self.choose(len(outs))
        k, s, v = outs[i]
        st.become(s)
        if k == 't':
            raise CppThrow(v)
        return v

    def decide(self, st, b):
        if b.k == 'true':
            return True
        if b.k == 'false':
            return False
        r = self.cond(st, b)
        if r is not None:
            return r
        if self.choose(2) == 0:
            st.assume(b)
            return True
        st.assume(Not(b))
        return False

    def cond(self, st, b):
        """True / False if decided by the path condition, else None"""
        if b in st.pc:
            return True
        nb = Not(b)
        if nb in st.pc:
            return False
        if z3if.check(z3if.relevant(st.pc, [b]) + [nb], 1500) == 'unsat':
            return True
        if z3if.check(z3if.relevant(st.pc, [b]) + [b], 1500) == 'unsat':
            return False
        return None

    # --------------------------------------------------------------- heap
    def cellval(self, st, c):
        v = st.heap.get(c)
        if v is None:
            if c in self.ginit:
                return self.ginit[c]
            raise Unsupported('dangling reference %s' % c)
        return v

    def load(self, st, x):
        """value of an lvalue or value"""
        n = 0
        while isinstance(x, LV):
            v = self.cellval(st, x.cell)
            for p in x.path:
                v = self.getp(st, v, p)
            x = v
            n += 1
            if n > 20:
                raise Unsupported('reference loop')
        return x

    def getp(self, st, v, p):
        import models
        while isinstance(v, LV):
            v = self.load(st, v)
        return models.getp(self, st, v, p)

    def store(self, st, lv, val):
        if not isinstance(lv, LV):
            raise Unsupported('assignment to %r' % (lv,))
        base = self.cellval(st, lv.cell)
        if isinstance(base, LV):
            return self.store(st, LV(base.cell, base.path + lv.path), val)
        if isinstance(base, Stream) and base.name:
            raise Unsupported('store to stream')
        st.heap[lv.cell] = self.putp(st, base, lv.path, val, lv)

    def putp(self, st, v, path, val, lv=None):
        import models
        if not path:
            return val
        if isinstance(v, LV):
            raise Unsupported('store through nested reference')
        sub = models.getp(self, st, v, path[0]) if len(path) > 1 else None
        if isinstance(sub, LV):
            self.store(st, LV(sub.cell, sub.path + path[1:]), val)
            return v
        return models.putp(self, st, v, path[0], self.putp(st, sub, path[1:], val) if len(path) > 1 else val)

    # ------------------------------------------------------------- types
    def default(self, st, t):
        """default-initialised object of type t"""
        t = ctype(t)
        if t.endswith('*'):
            return UNDEF
        if t in INTS or t in FLOATS or t == 'bool':
            return UNDEF
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            return self.arr_default(st, t)
        s = strip(t)
        if s in ('arma::Col',):
            return BM((), ('1',), [])
        if s in ('arma::Row',):
            return BM(('1',), (), [[]])
        if s == 'arma::Mat':
            return BM((), (), [])
        if s == 'std::vector':
            return Seq(et=targs_of(t)[0])
        if s == 'std::basic_string':
            return Str('')
        if s in ('std::basic_stringstream', 'std::basic_ostringstream'):
            return Stream(None)
        if s == 'std::map':
            a = targs_of(t)
            return MapV((), a[0], a[1])
        if s == 'std::pair':
            a = targs_of(t)
            return Struct('std::pair', {'first': self.value_init(st, a[0]), 'second': self.value_init(st, a[1])})
        if s == 'timeval':
            return Struct('timeval', {'tv_sec': UNDEF, 'tv_usec': UNDEF})
        if s == 'vp_elem':
            return Opq('elem0')
        if s == 'vp_ode' or s == 'vp_sys':
            return Struct(s, {})
        if t in self.prog.records:
            r = self.prog.records[t]
            for f in self.prog.fns.values():
                if f.get('defctor') and f.get('cls') == t and f.get('inits') is not None and not f['params']:
                    return self.adopt(st, self.cached(lambda: self.exec_ctor(st, f, t, [])))
            return self.default_struct(st, r)
        raise Unsupported('default of %s' % t)

    def default_struct(self, st, r, cls=None):
        d = {}
        for b in r.get('bases', []):
            d.update(self.default(st, b).f)
        for f in r['fields']:
            if f.get('init') is not None:
                v = self.ev(st, f['init'])
                if not f['t'].rstrip().endswith('&'):
                    v = self.load(st, v)
                d[f['n']] = v
            else:
                d[f['n']] = self.default(st, f['t']) if not f['t'].rstrip().endswith('&') else UNDEF
        return Struct(cls or r['n'], d)

    def value_init(self, st, t):
        t = ctype(t)
        if t == 'bool':
            return FALSE
        if t in INTS or t in FLOATS:
            return ZERO
        if t.endswith('*'):
            return NULL
        return self.default(st, t)

    def arr_default(self, st, t):
        m = re.match(r'^([^\[]*)\[(\d+)\](.*)$', t)
        n = int(m.group(2))
        inner = m.group(1) + m.group(3)
        return Arr([self.default(st, inner) for _ in range(n)])

    # -------------------------------------------------------- expressions
    def rv(self, st, e):
        return self.load(st, self.ev(st, e))

    def num(self, st, e):
        v = self.rv(st, e)
        return self.asnum(v)

    def num2(self, st, x):
        return self.asnum(self.load(st, x))

    def note_nonneg(self, st, n):
        n = P(n)
        if n.is_const():
            return
        if not z3if.valid(st.pc, Ge(n, 0), 500):
            self.assume_notes.add('sizes are non-negative')
            st.assume(Ge(n, 0))

    LISTS = ('failed_asserts', 'shape_errors', 'bounds_errors', 'bounds_unproved', 'loops')

    def mark(self):
        return tuple(len(getattr(self, n)) for n in self.LISTS)

    def reset(self, m):
        for n, k in zip(self.LISTS, m):
            del getattr(self, n)[k:]

    def asnum(self, v):
        if isinstance(v, B):
            return b2p(v)
        if isinstance(v, Undef):
            return fresh('undef', 'R')
        if isinstance(v, BM) and v.rows == ('1',) and v.cols == ('1',):
            return v.ent[0][0]
        if not isinstance(v, Poly):
            raise Unsupported('number expected: %r' % (v,))
        return v

    def boolean(self, st, e):
        return self.asbool(self.rv(st, e))

    def asbool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Poly):
            return p2b(v)
        if isinstance(v, Ptr):
            return FALSE if v.lv is None else TRUE
        if isinstance(v, Undef):
            return bsym('undef!%d' % next(_cntr))
        if isinstance(v, (Str, FnV)):
            return TRUE
        raise Unsupported('boolean expected: %r' % (v,))

    def ev(self, st, e):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s' % e['k'])
        return m(st, e)

    def e_Int(self, st, e):
        return P(int(e['v']))

    def e_Float(self, st, e):
        t = e.get('txt', e['v']).rstrip('fFlL')
        return P(Fr(t))

    def e_Bool(self, st, e):
        return TRUE if e['v'] else FALSE

    def e_Str(self, st, e):
        return Str(e['v'])

    def e_Null(self, st, e):
        return NULL

    def e_This(self, st, e):
        return Ptr(st.this)

    def e_ZeroInit(self, st, e):
        t = ctype(e['t'])
        if '[' in t:
            m = re.match(r'^([^\[]*)\[(\d+)\](.*)$', t)
            return Arr([self.e_ZeroInit(st, {'t': m.group(1) + m.group(3)}) for _ in range(int(m.group(2)))])
        if t == 'timeval':
            return Struct('timeval', {'tv_sec': ZERO, 'tv_usec': ZERO})
        return self.value_init(st, t)

    def e_Ref(self, st, e):
        d = e['d']
        k = d['dk']
        if k == 'enum':
            return P(int(d['v']))
        if k == 'fn':
            return FnV(d)
        if d['id'] in st.env:
            lv = st.env[d['id']]
            return lv
        if k == 'gvar' or k == 'var':
            return self.global_lv(st, d)
        if e.get('cv') is not None:
            return P(Fr(str(e['cv'])))
        raise Unsupported('unbound variable %s' % d['n'])

    def global_lv(self, st, d):
        q = d['q']
        if q in STDSTREAMS:
            c = 'G:' + q
            if c not in self.ginit:
                self.ginit[c] = Stream(q)
            return LV(c)
        if q.startswith('arma::fill::'):
            return Opq(q)
        g = self.prog.globals.get(d['id']) or self.prog.gbyq.get(q)
        if g is None or g.get('init') is None:
            if g is not None:
                c = 'G:%s' % q
                if c not in self.ginit:
                    self.ginit[c] = self.default(St(), g['t'])
                return LV(c)
            raise Unsupported('global %s' % q)
        c = 'G:%s' % q
        if c not in self.ginit:
            outs = self.run(St(), lambda s: self.load(s, self.ev(s, g['init'])))
            if len(outs) != 1:
                raise Unsupported('global initialiser')
            self.ginit[c] = outs[0][2]
        return LV(c)

    def e_Member(self, st, e):
        b = self.ev(st, e['b'])
        if e.get('arrow'):
            b = self.deref(st, self.load(st, b))
        d = e.get('d', {})
        if d.get('dk') == 'enum':
            return P(int(d['v']))
        n = e['n']
        if isinstance(b, LV):
            v = self.load(st, b)
            r = b.sub('f', n)
            while isinstance(self.peek(st, b), LV):
                b = self.peek(st, b)
                r = b.sub('f', n)
            if isinstance(v, Struct):
                if n not in v.f:
                    raise Unsupported('field %s of %s' % (n, v.cls))
                if isinstance(v.f[n], LV):
                    return v.f[n]
                return r
            return self.models_mod.member(self, st, v, n, b)
        if isinstance(b, Struct):
            return b.f[n]
        return self.models_mod.member(self, st, b, n, None)

    def peek(self, st, lv):
        """value at lv without following a final reference"""
        v = self.cellval(st, lv.cell)
        for p in lv.path:
            v = self.getp(st, v, p)
        return v

    def deref(self, st, v):
        if isinstance(v, LV):
            v = self.load(st, v)
        if isinstance(v, Ptr):
            if v.lv is None:
                self.models_mod.oob(self, st, 'null pointer dereferenced')
            return v.lv
        if isinstance(v, FnV):
            return v
        if isinstance(v, It):
            return self.models_mod.it_deref(self, st, v)
        raise Unsupported('dereference of %r' % (v,))

    def e_Cast(self, st, e):
        ck = e['ck']
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'BitCast', 'BuiltinFnToFnPtr', 'LValueBitCast', 'Dependent', 'BaseToDerived'):
            return self.ev(st, e['e'])
        if ck == 'LValueToRValue':
            v = self.rv(st, e['e'])
            if isinstance(v, Undef):
                v = self.undef_value(st, e)
            return v
        if ck == 'ArrayToPointerDecay':
            x = self.ev(st, e['e'])
            v = self.load(st, x)
            if isinstance(v, Str):
                return v
            return Ptr(x.sub('i', ZERO)) if isinstance(x, LV) else v
        if ck == 'NullToPointer':
            self.ev(st, e['e'])
            return NULL
        if ck == 'ToVoid':
            self.ev(st, e['e'])
            return UNDEF
        v = self.rv(st, e['e'])
        if ck in ('IntegralCast',):
            if ctype(e['t']) == 'bool':
                return self.asbool(v)
            p = self.asnum(v)
            if p.is_const():
                c = p.const()
                if isunsigned_t(e['t']) and c < 0:
                    return P(c + (1 << bits_of(e['t'])))
                if not isunsigned_t(e['t']) and isunsigned_t(e['ft']) and isint_t(e['t']) \
                        and c >= (1 << (bits_of(e['t']) - 1)) and bits_of(e['ft']) >= bits_of(e['t']):
                    return P(c - (1 << bits_of(e['t'])))
            elif isunsigned_t(e['t']) and not isunsigned_t(e.get('ft', '')):
                self.wrap_note(st, p)
            return p
        if ck == 'IntegralToFloating':
            return self.asnum(v)
        if ck == 'FloatingToIntegral':
            p = self.asnum(v)
            if p.is_const():
                c = p.const()
                return P(int(c))
            if p.isint():
                return p
            return P(atom('trunc', p, sort='I'))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.asbool(v)
        if ck == 'BooleanToSignedIntegral':
            return -self.asnum(v)
        if ck == 'FloatingCast':
            return v
        raise Unsupported('cast %s' % ck)

    def wrap_note(self, st, p):
        if z3if.valid(st.pc, Ge(p, 0), 500):
            return
        # an obligation of its own: shown by a loop's invariants, or reported
        self.bounds_unproved.append(('unsigned conversion of %s' % (p,), st.pc, Ge(p, 0)))
        st.assume(Ge(p, 0))

    def undef_value(self, st, e):
        t = ctype(e['t'])
        n = next(_cntr)
        if t == 'bool':
            return bsym('undef!%d' % n)
        if t in INTS:
            return sym('undef!%d' % n, 'I')
        if t in FLOATS:
            return sym('undef!%d' % n)
        return UNDEF

    def e_Un(self, st, e):
        op = e['op']
        if op in ('++', '--'):
            x = self.ev(st, e['e'])
            v = self.load(st, x)
            d = 1 if op == '++' else -1
            if isinstance(v, It):
                nv = self.models_mod.it_add(self, st, v, P(d))
            elif isinstance(v, Ptr):
                nv = Ptr(self.ptr_add(v.lv, P(d)))
            else:
                v = self.asnum(v)
                nv = v + d
                if d < 0 and isunsigned_t(e['t']):
                    nv = self.unsigned_res(st, nv, e['t'])
            self.store(st, x, nv)
            return v if e.get('post') else x
        if op == '&':
            x = self.ev(st, e['e'])
            if isinstance(x, FnV):
                return x
            if isinstance(x, LV):
                return Ptr(x)
            return Ptr(st.alloc('tmp', x))
        if op == '*':
            v = self.rv(st, e['e'])
            return self.deref(st, v)
        if op == '!':
            return Not(self.boolean(st, e['e']))
        if op in ('__extension__',):
            return self.ev(st, e['e'])
        v = self.rv(st, e['e'])
        if op == '-':
            p = -self.asnum(v)
            if isunsigned_t(e['t']):
                p = self.unsigned_res(st, p, e['t'])
            return p
        if op == '+':
            return v
        if op == '~':
            p = self.asnum(v)
            r = -p - 1
            if isunsigned_t(e['t']):
                if r.is_const():
                    r = P(r.const() + (1 << bits_of(e['t']))) if r.const() < 0 else r
                else:
                    return P(atom('bitnot', p, sort='I'))
            return r
        raise Unsupported('unary %s' % op)

    def unsigned_res(self, st, p, t):
        if p.is_const():
            return P(p.const() % (1 << bits_of(t)))
        if z3if.valid(st.pc, Ge(p, 0), 500):
            return p
        return self.decide(st, Ge(p, 0)) and p or self.wrapped(p, t)

    def wrapped(self, p, t):
        return p + (1 << bits_of(t))

    def ptr_add(self, lv, k):
        if not lv.path or lv.path[-1][0] != 'i':
            raise Unsupported('pointer arithmetic')
        return LV(lv.cell, lv.path[:-1] + (('i', lv.path[-1][1] + k),))

    def e_Bin(self, st, e):
        op = e['op']
        if op == ',':
            self.ev(st, e['a'])
            return self.ev(st, e['b'])
        if op in ('&&', '||'):
            a = self.boolean(st, e['a'])
            if a.k in ('true', 'false'):
                if (a.k == 'true') == (op == '||'):
                    return a
                return self.boolean(st, e['b'])
            if self.pure(e['b']):
                pc = st.pc
                st.assume(a if op == '&&' else Not(a))
                try:
                    n = (self.pos, len(self.script))
                    b = self.boolean(st, e['b'])
                    if self.pos == n[0]:
                        st.pc = pc
                        return And(a, b) if op == '&&' else Or(a, b)
                except (Fork, Dead):
                    pass
                st.pc = pc
                self.pos = n[0]
            if self.decide(st, a):
                return self.boolean(st, e['b']) if op == '&&' else TRUE
            return FALSE if op == '&&' else self.boolean(st, e['b'])
        if op == '=':
            # built-in assignment: right operand first is unspecified before C++17
            b = self.ev(st, e['b'])
            a = self.ev(st, e['a'])
            self.store(st, a, self.load(st, b))
            return a
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            a = self.ev(st, e['a'])
            b = self.rv(st, e['b'])
            va = self.load(st, a)
            if isinstance(va, Undef):
                va = self.undef_value(st, e)
            if isinstance(va, Ptr):
                r = Ptr(self.ptr_add(va.lv, self.asnum(b) if op == '+=' else -self.asnum(b)))
            else:
                r = self.binop(st, op[:-1], va, b, e.get('ct', e['t']), e)
                if ctype(e['t']) == 'bool':
                    r = self.asbool(r)
                elif isint_t(e['t']) and isinstance(r, Poly) and not r.isint():
                    r = P(int(r.const())) if r.is_const() else P(atom('trunc', r, sort='I'))
            self.store(st, a, r)
            return a
        a = self.rv(st, e['a'])
        b = self.rv(st, e['b'])
        return self.binop(st, op, a, b, e['t'], e)

    def pure(self, e):
        """conservative syntactic purity (no writes, no body calls that could fork)"""
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                k = x.get('k')
                if k == 'Un' and x['op'] in ('++', '--'):
                    return False
                if k == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                    return False
                if k in ('Call', 'MCall', 'OpCall') and x.get('f', {}).get('body'):
                    f = self.resolve(x['f'])
                    if f is None or not self.const_getter(f):
                        return False
                if k in ('Call', 'MCall', 'OpCall') and not x.get('f', {}).get('body'):
                    q = strip(x.get('f', {}).get('q', '?'))
                    if q.endswith(('push_back', 'insert', 'clear', 'resize', 'operator=', 'operator<<', 'fun', 'jac',
                                   'gettimeofday', 'erase', 'pop_back')):
                        return False
                if k in ('Lambda', 'Throw', 'New'):
                    return False
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                st.extend(x)
        return True

    def const_getter(self, f):
        s = f.get('s')
        return s is not None and s['k'] == 'Compound' and len(s['b']) == 1 and s['b'][0]['k'] == 'Return' \
            and self.pure(s['b'][0])

    def binop(self, st, op, a, b, t, e):
        if isinstance(a, It) or isinstance(b, It):
            return self.models_mod.it_binop(self, st, op, a, b)
        if isinstance(a, (Ptr, FnV)) or isinstance(b, (Ptr, FnV)):
            if op in ('==', '!='):
                r = TRUE if a == b else FALSE
                return r if op == '==' else Not(r)
            if isinstance(a, Ptr) and op in ('+', '-') and isinstance(b, Poly):
                return Ptr(self.ptr_add(a.lv, b if op == '+' else -b))
            raise Unsupported('pointer operation')
        if isinstance(a, B) and isinstance(b, B):
            if op == '==':
                return Or(And(a, b), And(Not(a), Not(b)))
            if op == '!=':
                return Or(And(a, Not(b)), And(Not(a), b))
            if op == '&':
                return And(a, b)
            if op == '|':
                return Or(a, b)
        a, b = self.asnum(a), self.asnum(b)
        if op == '+':
            return a + b
        if op == '-':
            r = a - b
            if isunsigned_t(t):
                r = self.unsigned_res(st, r, t)
            return r
        if op == '*':
            return a * b
        if op == '/':
            if isint_t(t):
                return floordiv(a, b)
            if b.is_const() and b.const() == 0:
                return P(atom('div0', a))
            return a / b
        if op == '%':
            return mod(a, b)
        if op == '<':
            return Lt(a, b)
        if op == '<=':
            return Le(a, b)
        if op == '>':
            return Gt(a, b)
        if op == '>=':
            return Ge(a, b)
        if op == '==':
            return Eq(a, b)
        if op == '!=':
            return Not(Eq(a, b))
        if op == '<<':
            if b.is_const():
                return a * (1 << int(b.const()))
        if op == '>>':
            if a.is_const() and b.is_const():
                return P(int(a.const()) >> int(b.const()))
        if op in ('&', '|', '^'):
            return self.models_mod.bitop(self, st, op, a, b, t)
        raise Unsupported('binary %s' % op)

    def e_Cond(self, st, e):
        c = self.boolean(st, e['c'])
        fail = self.assert_side(e)
        if fail is not None:
            # assert( x ): the failing side does not return
            ok = c if fail == 'b' else Not(c)
            r = self.cond(st, ok)
            if r is False:
                self.failed_asserts.append((e.get('l'), st.pc))
                raise Dead()
            if r is None:
                self.failed_asserts.append((e.get('l'), st.pc))
                st.assume(ok)
            return UNDEF
        if c.k == 'true':
            return self.ev(st, e['a'])
        if c.k == 'false':
            return self.ev(st, e['b'])
        r = self.cond(st, c)
        if r is True:
            return self.ev(st, e['a'])
        if r is False:
            return self.ev(st, e['b'])
        if self.pure(e['a']) and self.pure(e['b']) and ctype(e['t']) in INTS | FLOATS | {'bool'}:
            pc = st.pc
            n = self.pos
            try:
                st.assume(c)
                a = self.rv(st, e['a'])
                st.pc = pc
                st.assume(Not(c))
                b = self.rv(st, e['b'])
                st.pc = pc
                if self.pos == n:
                    if isinstance(a, B) or isinstance(b, B):
                        return bite(c, self.asbool(a), self.asbool(b))
                    return ite(c, self.asnum(a), self.asnum(b))
            except (Fork, Dead):
                pass
            st.pc = pc
            self.pos = n
        return self.ev(st, e['a'] if self.decide(st, c) else e['b'])

    def assert_side(self, e):
        for s in ('b', 'a'):
            x = e[s]
            while x['k'] == 'Cast':
                x = x['e']
            if x['k'] == 'Call' and x.get('f', {}).get('n') in ('__assert_fail', 'abort', 'exit', 'terminate'):
                return s
        return None

    def e_Index(self, st, e):
        a = self.ev(st, e['a'])
        i = self.num(st, e['b'])
        v = self.load(st, a)
        if isinstance(v, Ptr):
            return self.ptr_add(v.lv, i)
        if isinstance(a, LV):
            return a.sub('i', i)
        return self.getp(st, v, ('i', i))

    def e_Lambda(self, st, e):
        caps = {}
        for c in e['caps']:
            if 'this' in c and c.get('this'):
                caps['this'] = st.this
                continue
            x = self.ev(st, c['init']) if c.get('init') is not None else st.env[c['id']]
            if c.get('ref'):
                if not isinstance(x, LV):
                    x = st.alloc('tmp', x)
                caps[c['id']] = x
            else:
                caps[c['id']] = ('v', self.load(st, x))
        return Clo(e, caps)

    def e_InitList(self, st, e):
        if e.get('dims') or '[' in e.get('t', ''):
            vs = [self.rv(st, x) for x in e['a']]
            return Arr(vs)
        t = ctype(e.get('t', ''))
        if t == 'timeval':
            vs = [self.rv(st, x) for x in e['a']] + [ZERO, ZERO]
            return Struct('timeval', {'tv_sec': vs[0], 'tv_usec': vs[1]})
        if t in self.prog.records:
            r = self.prog.records[t]
            d = {}
            for i, f in enumerate(r['fields']):
                if i < len(e['a']):
                    x = self.ev(st, e['a'][i])
                    d[f['n']] = x if f['t'].rstrip().endswith('&') else self.load(st, x)
                elif f.get('init') is not None:
                    d[f['n']] = self.rv(st, f['init'])
                else:
                    d[f['n']] = self.value_init(st, f['t'])
            return Struct(r['n'], d)
        vs = [self.rv(st, x) for x in e['a']]
        if len(vs) == 1 and t in INTS | FLOATS | {'bool'}:
            return vs[0]
        return Seq([('e', v) for v in vs])

    def e_ArrayCopy(self, st, e):
        return self.rv(st, e['e'] if 'e' in e else e['a'][0])

    def e_Throw(self, st, e):
        v = self.rv(st, e['e']) if e.get('e') else Opq('rethrow')
        raise CppThrow(v)

    def e_Delete(self, st, e):
        self.rv(st, e['e']) if e.get('e') else None
        return UNDEF

    # -------------------------------------------------------------- calls
    def resolve(self, f):
        """function declaration with a body for a reference, or None"""
        g = self.prog.fns.get(f['id'])
        if g is not None and (g.get('s') is not None):
            return g
        q = f['q']
        m = re.match(r'^.*?\((.*)\)[^)]*$', f['t'], re.S)
        cands = [h for h in self.prog.byq.get(q, []) if h.get('s') is not None]
        if not cands:
            return None
        if len(cands) == 1:
            return cands[0]
        pt = None
        i = f['t'].find('(')
        args = f['t'][i + 1:f['t'].rfind(')')]
        key = ctype(args)
        for h in cands:
            if ','.join(ctype(p['t']) for p in h['params']).replace(' ', '') == key.replace(' ', ''):
                return h
        return None

    def e_Call(self, st, e):
        f = e.get('f')
        if f is None:
            c = self.rv(st, e['callee'])
            if isinstance(c, Ptr) and c.lv is not None:
                c = self.load(st, c.lv)
            args = [self.ev(st, a) for a in e['a']]
            if isinstance(c, Clo):
                return self.call_clo(st, c, args)
            if isinstance(c, FnV):
                return self.call(st, c.f, None, args, e)
            raise Unsupported('indirect call')
        if f['dk'] != 'fn' and f.get('id') in st.env:
            c = self.load(st, st.env[f['id']])
            args = [self.ev(st, a) for a in e['a']]
            if isinstance(c, Clo):
                return self.call_clo(st, c, args)
            return self.call(st, c.f, None, args, e)
        args = [self.ev(st, a) for a in e['a']]
        return self.call(st, f, None, args, e)

    def e_MCall(self, st, e):
        o = self.ev(st, e['obj'])
        if e.get('arrow'):
            o = self.deref(st, self.load(st, o))
        args = [self.ev(st, a) for a in e['a']]
        return self.call(st, e['f'], o, args, e)

    def e_OpCall(self, st, e):
        f = e['f']
        if e.get('ismem'):
            o = self.ev(st, e['a'][0])
            v = self.load(st, o)
            args = [self.ev(st, a) for a in e['a'][1:]]
            if isinstance(v, Clo) and e['op'] == '()':
                return self.call_clo(st, v, args)
            return self.call(st, f, o, args, e)
        args = [self.ev(st, a) for a in e['a']]
        return self.call(st, f, None, args, e)

    def e_Construct(self, st, e):
        cls = ctype(e['cls'])
        f = e.get('f') or {}
        s = strip(cls)
        if s in self.M_ctor():
            args = [self.ev(st, a) for a in e['a']]
            self.models.add(s + ' constructor')
            return self.M_ctor()[s](self, st, cls, args, e)
        if (f.get('copy') or f.get('move')) and len(e['a']) == 1:
            v = self.rv(st, e['a'][0])
            if isinstance(v, Struct) and f.get('implicit', True):
                return v
            g = self.resolve(f) if f.get('body') else None
            if g is None or f.get('implicit'):
                return v
            if isinstance(v, Struct) and not g.get('inits') and not g['s']['b']:
                return v
            args = [self.ev(st, e['a'][0])]
            return self.adopt(st, self.cached(lambda: self.exec_ctor(st, g, cls, args)))
        if e['cls'].startswith('lambda#') and len(e['a']) == 1:
            return self.rv(st, e['a'][0])
        hk = self.hooks.get('new ' + s)
        if hk:
            args = [self.ev(st, a) for a in e['a']]
            return hk(self, st, None, args, e)
        g = self.resolve(f) if f else None
        if g is None and cls in self.prog.records and not e['a']:
            return self.default_struct(st, self.prog.records[cls])
        if g is None:
            if not e['a']:
                return self.default(st, cls)
            raise Unsupported('constructor of %s' % cls)
        args = [self.ev(st, a) for a in e['a']]
        return self.adopt(st, self.cached(lambda: self.exec_ctor(st, g, cls, args)))

    def M_ctor(self):
        return self.models_mod.CTORS

    def call(self, st, f, obj, args, e):
        q = strip(f['q'])
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, st, obj, args, f)
            if r is not NotImplemented:
                return r
        # virtual dispatch on the dynamic class
        if obj is not None and f.get('virtual'):
            v = self.load(st, obj)
            if isinstance(v, Struct):
                g = self.find_virtual(v.cls, f)
                if g is not None:
                    return self.invoke(st, g, obj, args)
        g = self.resolve(f)
        if g is not None:
            if f.get('n') == 'operator=' and f.get('implicit'):
                self.store(st, obj, self.load(st, args[0]))
                return obj
            return self.invoke(st, g, obj, args)
        m = self.M.get(q)
        if m is None and '::' in q:
            m = self.M.get('*::' + q.rsplit('::', 1)[1])
        if m is not None:
            self.models.add(q)
            return m(self, st, obj, args, f, e)
        if f.get('n') == 'operator=' and obj is not None and len(args) == 1:
            v = self.load(st, args[0])
            self.store(st, obj, v)
            return obj
        raise Unsupported('no contract for %s' % f['q'])

    def find_virtual(self, cls, f):
        seen = [cls]
        while seen:
            c = seen.pop(0)
            for g in self.prog.fns.values():
                if g.get('cls') == c and g['n'] == f['n'] and g.get('s') is not None and \
                        len(g['params']) == len(targs_sig(f['t'])):
                    return g
            r = self.prog.records.get(c)
            if r:
                seen.extend(r.get('bases', []))
        return None

    def invoke(self, st, g, obj, args):
        return self.adopt(st, self.cached(lambda: self.exec_fn(st, g, obj, args)))

    def call_clo(self, st, c, args):
        return self.adopt(st, self.cached(lambda: self.exec_clo(st, c, args)))

    def bind_params(self, st, params, args, env):
        for i, p in enumerate(params):
            if i < len(args):
                a = args[i]
            elif p.get('init') is not None:
                a = self.ev(st, p['init'])
            else:
                raise Unsupported('missing argument')
            t = p['t'].rstrip()
            if t.endswith('&'):
                if not isinstance(a, LV):
                    a = st.alloc(p['n'] or 'tmp', a)
                env[p['id']] = a
            else:
                env[p['id']] = st.alloc(p['n'] or 'arg', self.load(st, a))

    def exec_fn(self, st0, g, obj, args):
        """outcomes of calling g: ('v', state, value) / ('t', ...)"""
        self.used.add(sig(g))
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        try:
            st = st0.copy()
            st.owned = ()
            env = {}
            this = None
            if obj is not None:
                if not isinstance(obj, LV):
                    obj = st.alloc('self', obj)
                this = obj
            self.bind_params(st, g['params'], args, env)
            st.env = env
            st.this = this
            outs = self.exec(g['s'], st)
            res = []
            isref = g['t'].rstrip().endswith('&')
            for k, s, v in outs:
                if k in ('n', 'r'):
                    if k == 'n':
                        v = UNDEF
                    if not isref:
                        v = self.load(s, v)
                    res.append(('v', self.leave(s, st0), v))
                elif k == 't':
                    res.append(('t', self.leave(s, st0), v))
                else:
                    raise Unsupported('stray ' + k)
            return self.merge_outs(res)
        finally:
            self.depth -= 1

    def exec_clo(self, st0, c, args):
        e = c.e
        self.depth += 1
        try:
            st = st0.copy()
            st.owned = ()
            env = dict(st0.env)
            this = st.this
            for k, v in c.caps.items():
                if k == 'this':
                    this = v
                elif isinstance(v, LV):
                    env[k] = v
                else:
                    env[k] = st.alloc('cap', v[1])
            self.bind_params(st, e['params'], args, env)
            st.env = env
            st.this = this
            outs = self.exec(e['s'], st)
            res = []
            isref = (e.get('rt') or '').rstrip().endswith('&')
            for k, s, v in outs:
                if k in ('n', 'r'):
                    if k == 'n':
                        v = UNDEF
                    if not isref:
                        v = self.load(s, v)
                    res.append(('v', self.leave(s, st0), v))
                elif k == 't':
                    res.append(('t', self.leave(s, st0), v))
            return self.merge_outs(res)
        finally:
            self.depth -= 1

    def exec_ctor(self, st0, g, cls, args):
        """outcomes of constructing cls by constructor g; value = the object"""
        self.used.add(sig(g))
        st = st0.copy()
        st.owned = ()
        r = self.prog.records.get(cls)
        base = Struct(cls, {})
        lv = st.alloc('self', base)
        env = {}
        self.bind_params(st, g['params'], args, env)
        st.env = env
        st.this = lv

        def go(s):
            self.run_inits(s, g, lv, cls)
            return None
        res = []
        for k, s, v in self.run(st, go):
            if k == 't':
                res.append(('t', self.leave(s, st0), v))
                continue
            if g.get('s') is None:
                outs = [('n', s, None)]
            else:
                outs = self.exec(g['s'], s)
            for k2, s2, v2 in outs:
                if k2 == 't':
                    res.append(('t', self.leave(s2, st0), v2))
                else:
                    val = s2.heap[lv.cell]
                    res.append(('v', self.leave(s2, st0), val))
        return self.merge_outs(res)

    def run_inits(self, s, g, lv, cls):
        r = self.prog.records.get(cls)
        done = set()

        def put(n, v):
            o = s.heap[lv.cell]
            s.heap[lv.cell] = o.set(n, v)
            done.add(n)
        if r is not None:
            for f in r['fields']:
                if not f['t'].rstrip().endswith('&') and (ctype(f['t']) in INTS | FLOATS | {'bool'} or ctype(f['t']).endswith('*')):
                    o = s.heap[lv.cell]
                    s.heap[lv.cell] = o.set(f['n'], UNDEF)
        for i in g.get('inits') or []:
            if 'base' in i:
                v = self.load(s, self.ev(s, i['init']))
                o = s.heap[lv.cell]
                d = dict(v.f) if isinstance(v, Struct) else {}
                keep = {k: x for k, x in o.f.items()}
                keep.update(d)
                s.heap[lv.cell] = Struct(o.cls, keep)
                done |= set(d)
            elif 'field' in i:
                x = self.ev(s, i['init'])
                ft = i.get('t', '')
                if ft.rstrip().endswith('&'):
                    put(i['field'], x)
                else:
                    put(i['field'], self.load(s, x))
            else:
                # delegating constructor
                v = self.load(s, self.ev(s, i['init']))
                s.heap[lv.cell] = v
                done |= set(v.f)
        if r is not None:
            for b in r.get('bases', []):
                pass
            for f in r['fields']:
                if f['n'] in done:
                    continue
                if f.get('init') is not None:
                    x = self.ev(s, f['init'])
                    put(f['n'], x if f['t'].rstrip().endswith('&') else self.load(s, x))
                elif f['n'] not in s.heap[lv.cell].f:
                    put(f['n'], self.default(s, f['t']))

    def leave(self, s, st0):
        """return to the caller's frame"""
        for c in s.owned:
            s.heap.pop(c, None)
        s.env = st0.env
        s.this = st0.this
        s.owned = st0.owned
        return s

    # --------------------------------------------------------- statements
    def exec(self, s, st):
        """list of (kind, state, value); kind n b c r t"""
        if s is None:
            return [('n', st, None)]
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement %s' % s['k'])
        return m(s, st)

    def s_Null(self, s, st):
        return [('n', st, None)]

    def scope(self, outs, st0):
        for k, s, v in outs:
            if k == 'r' and isinstance(v, LV):
                pass
            new = s.owned[len(st0.owned):]
            if new and k != 'r':
                for c in new:
                    s.heap.pop(c, None)
                s.owned = s.owned[:len(st0.owned)]
            if k != 'r':
                s.env = st0.env
        return outs

    def s_Compound(self, s, st):
        return self.seq(s['b'], st)

    def seq(self, stmts, st0):
        live = [st0.copy()]
        done = []
        for x in stmts:
            nxt = []
            for st in live:
                for o in self.exec(x, st):
                    if o[0] == 'n':
                        nxt.append(o)
                    else:
                        done.append(o)
            nxt = self.merge_outs(nxt)
            live = [o[1] for o in nxt]
            if len(live) + len(done) > 800:
                raise Unsupported('too many paths')
            if not live:
                break
        outs = done + [('n', s, None) for s in live]
        return self.merge_outs(self.scope(outs, st0))

    def s_ExprStmt(self, s, st):
        def go(x):
            n = len(x.owned)
            self.ev(x, s['e'])
            for c in x.owned[n:]:
                x.heap.pop(c, None)
            x.owned = x.owned[:n]
        return self.conv(self.run(st, go))

    def conv(self, outs):
        return self.merge_outs([('n' if k == 'v' else 't', s, v if k == 't' else None) for k, s, v in outs])

    def s_Decl(self, s, st):
        def go(x):
            for d in s['d']:
                self.declare(x, d)
        return self.conv(self.run(st, go))

    def declare(self, st, d):
        t = d['t'].rstrip()
        init = d.get('init')
        if d.get('static'):
            c = 'S:%s:%s' % (d['n'], d['id'])
            if c not in self.ginit:
                v = self.rv(St(), init) if init is not None else self.default(St(), t)
                self.ginit[c] = v
            lv = LV(c)
        elif t.endswith('&'):
            x = self.ev(st, init)
            if not isinstance(x, LV):
                x = st.alloc(d['n'], x)
            lv = x
        else:
            if init is not None:
                x = self.ev(st, init)
                if 'subview' in t and isinstance(x, LV):
                    env = dict(st.env)
                    env[d['id']] = x
                    st.env = env
                    return
                v = self.load(st, x)
                if isinstance(v, Seq) and '[' in t:
                    v = Arr(v.vals())
                if '[' in t and isinstance(v, Arr):
                    v = self.fill_arr(st, v, t)
                if isinstance(v, Undef) and self.isscalar(t):
                    v = UNDEF
            else:
                v = self.default(st, t)
            lv = st.alloc(d['n'], v)
        env = dict(st.env)
        env[d['id']] = lv
        st.env = env

    def fill_arr(self, st, v, t):
        m = re.match(r'^([^\[]*)\[(\d+)\](.*)$', ctype(t))
        if not m:
            return v
        n = int(m.group(2))
        inner = m.group(1) + m.group(3)
        vs = list(v.v)
        if '[' in inner:
            vs = [self.fill_arr(st, x, inner) if isinstance(x, Arr) else x for x in vs]
        while len(vs) < n:
            vs.append(self.e_ZeroInit(st, {'t': inner}))
        return Arr(vs)

    def isscalar(self, t):
        return ctype(t) in INTS | FLOATS | {'bool'}

    def s_If(self, s, st):
        st0 = st

        def go(x):
            if s.get('init'):
                for d in s['init'].get('d', []):
                    self.declare(x, d)
            if s.get('cv'):
                self.declare(x, s['cv'])
            n = len(x.owned)
            b = self.boolean(x, s['c'])
            r = self.decide(x, b)
            return r
        outs = []
        for k, x, v in self.run(st, go):
            if k == 't':
                outs.append(('t', x, v))
                continue
            br = s['a'] if v else s.get('b')
            outs.extend(self.exec(br, x))
        return self.merge_outs(self.scope(outs, st0))

    def s_Return(self, s, st):
        if s.get('e') is None:
            return [('r', st, UNDEF)]

        def go(x):
            v = self.ev(x, s['e'])
            return v
        res = []
        for k, x, v in self.run(st, go):
            if k == 't':
                res.append(('t', x, v))
            else:
                if isinstance(v, LV) and not self.keepref(x, v):
                    pass
                res.append(('r', x, v))
        return res

    def keepref(self, st, v):
        return True

    def s_Break(self, s, st):
        return [('b', st, None)]

    def s_Continue(self, s, st):
        return [('c', st, None)]

    def s_Try(self, s, st):
        outs = []
        for o in self.exec(s['b'], st):
            if o[0] == 't':
                h = s['h'][0] if isinstance(s['h'], list) else s['h']
                body = h.get('b') or h.get('s') or h
                x = o[1]
                var = h.get('var') or h.get('d')
                if var and 'id' in var:
                    env = dict(x.env)
                    env[var['id']] = x.alloc('exc', o[2] if o[2] is not None else Opq('exception'))
                    x.env = env
                outs.extend(self.exec(body, x))
            else:
                outs.append(o)
        return self.merge_outs(self.scope(outs, st))

    def s_Switch(self, s, st):
        body = s['b']['b'] if s['b']['k'] == 'Compound' else [s['b']]
        flat = []
        labels = []
        hasdef = None
        for x in body:
            while x is not None and x['k'] in ('Case', 'Default'):
                if x['k'] == 'Case':
                    labels.append((self.caseval(x), len(flat)))
                else:
                    hasdef = len(flat)
                x = x.get('b')
            if x is not None:
                flat.append(x)

        def go(x):
            v = self.num(x, s['c'])
            for lv, pos in labels:
                if self.decide(x, Eq(v, lv)):
                    return pos
            return hasdef
        outs = []
        for k, x, v in self.run(st, go):
            if k == 't':
                outs.append(('t', x, v))
                continue
            if v is None:
                outs.append(('n', x, None))
                continue
            for o in self.seq(flat[v:], x):
                outs.append(('n', o[1], None) if o[0] == 'b' else o)
        return self.merge_outs(self.scope(outs, st))

    def caseval(self, x):
        v = x['v']
        if isinstance(v, dict):
            r = self.rv(St(), v)
            return self.asnum(r)
        return P(int(v))

    # loops -----------------------------------------------------------------
    def s_For(self, s, st):
        outs = []
        base = st
        if s.get('init') is not None:
            inits = self.exec(s['init'], st.copy())
        else:
            inits = [('n', st.copy(), None)]
        for k, x, v in inits:
            if k != 'n':
                outs.append((k, x, v))
                continue
            outs.extend(self.loop(s, x, s.get('c'), s['b'], s.get('inc')))
        return self.merge_outs(self.scope(outs, base))

    def s_While(self, s, st):
        return self.merge_outs(self.scope(self.loop(s, st, s['c'], s['b'], None), st))

    def s_Do(self, s, st):
        outs = []
        for k, x, v in self.merge_outs(self.exec(s['b'], st.copy())):
            if k in ('n', 'c'):
                outs.extend(self.loop(s, x, s['c'], s['b'], None))
            elif k == 'b':
                outs.append(('n', x, None))
            else:
                outs.append((k, x, v))
        return self.merge_outs(self.scope(outs, st))

    def s_RangeFor(self, s, st):
        return self.models_mod.range_for(self, s, st)

    def loop(self, node, st, c, b, inc, hooks=None):
        import loops
        return loops.loop(self, node, st, c, b, inc)

    def cond_value(self, st, c):
        """the condition as a Boolean term if it has a single outcome, else None"""
        if c is None:
            return st, TRUE
        if callable(c):
            return st, c(st)
        outs = self.run(st, lambda x: self.boolean(x, c))
        if len(outs) == 1 and outs[0][0] == 'v':
            return outs[0][1], outs[0][2]
        return None

    def run_inc(self, st, inc):
        """outcomes of the increment"""
        if inc is None:
            return [('n', st, None)]
        if callable(inc):
            st = st.copy()
            inc(st)
            return [('n', st, None)]

        def go(x):
            n = len(x.owned)
            self.ev(x, inc)
            for c in x.owned[n:]:
                x.heap.pop(c, None)
            x.owned = x.owned[:n]
        return self.conv(self.run(st, go))

    def run_body(self, st, b):
        return b(st) if callable(b) else self.exec(b, st.copy())

    def eval_cond(self, st, c):
        """outcomes (state, bool)"""
        if c is None:
            return [(st, True)]
        if callable(c):
            def fn(x):
                return self.decide(x, c(x))
        else:
            def fn(x):
                n = len(x.owned)
                b = self.boolean(x, c)
                return self.decide(x, b)
        res = []
        for k, x, v in self.run(st, fn):
            if k == 't':
                raise Unsupported('throwing loop condition')
            res.append((x, v))
        return res

    # -------------------------------------------------------------- merging
    def merge_outs(self, outs):
        if len(outs) < 2 or not self.merge_on:
            return outs
        res = []
        groups = {}
        for o in outs:
            if o[0] in ('n', 'v', 'c', 'b', 'r'):
                key = (o[0], o[1].log, frozenset(o[1].heap), o[1].owned, o[1].this,
                       frozenset(o[1].env.items()))
                groups.setdefault(key, []).append(o)
            else:
                res.append(o)
        for key, os in groups.items():
            ch = True
            while ch and len(os) > 1:
                ch = False
                for i in range(len(os)):
                    for j in range(i + 1, len(os)):
                        m = self.merge2(os[i], os[j])
                        if m is not None:
                            os = [x for n, x in enumerate(os) if n not in (i, j)]
                            os.insert(i, m)
                            ch = True
                            break
                    if ch:
                        break
            res.extend(os)
        # keep deterministic order: as produced
        return res

    def merge2(self, o1, o2):
        s1, s2 = o1[1], o2[1]
        p1, p2 = s1.pc, s2.pc
        i = 0
        while i < len(p1) and i < len(p2) and p1[i] == p2[i]:
            i += 1
        r1, r2 = p1[i:], p2[i:]
        if r1 and r2:
            l = r1[0]
            if Not(l) != r2[0]:
                if not (z3if.check([l, r2[0]], 300) == 'unsat'):
                    return None
            # condition selecting state 1
            if Not(l) == r2[0]:
                c = l
            else:
                return None
        else:
            # identical conditions: only equal states may be merged
            c = None
        h = {}
        nd = 0
        for k, v1 in s1.heap.items():
            v2 = s2.heap[k]
            if v1 is v2 or v1 == v2:
                h[k] = v1
                continue
            if c is None:
                return None
            m = self.mergev(c, v1, v2)
            if m is None:
                return None
            h[k] = m
        v1, v2 = o1[2], o2[2]
        if v1 is v2 or v1 == v2:
            v = v1
        elif c is None:
            return None
        else:
            v = self.mergev(c, v1, v2)
            if v is None:
                return None
        s = s1.copy()
        s.heap = h
        s.n = max(s1.n, s2.n)
        a, b = And(*r1), And(*r2)
        if c is not None:
            if len(r1) > 1 or len(r2) > 1:
                rest = Or(a, b)
                a2, b2 = And(*r1[1:]), And(*r2[1:])
                if a2 == b2:
                    rest = a2
            else:
                rest = TRUE
        else:
            rest = Or(a, b)
        s.pc = p1[:i]
        s.assume(rest)
        return (o1[0], s, v)

    def mergev(self, c, a, b):
        if a is b or a == b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(c, a, b)
        if isinstance(a, B) and isinstance(b, B):
            return bite(c, a, b)
        if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls and a.f.keys() == b.f.keys():
            d = {}
            for k in a.f:
                m = self.mergev(c, a.f[k], b.f[k])
                if m is None:
                    return None
                d[k] = m
            return Struct(a.cls, d)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.v) == len(b.v):
            ms = [self.mergev(c, x, y) for x, y in zip(a.v, b.v)]
            return None if any(m is None for m in ms) else Arr(ms)
        if isinstance(a, Seq) and isinstance(b, Seq) and a.pre == b.pre and a.plen == b.plen \
                and len(a.ch) == len(b.ch) and all(x[0] == y[0] == 'e' for x, y in zip(a.ch, b.ch)):
            ms = [self.mergev(c, x[1], y[1]) for x, y in zip(a.ch, b.ch)]
            return None if any(m is None for m in ms) else a.with_ch([('e', m) for m in ms])
        if isinstance(a, BM) and isinstance(b, BM) and a.rows == b.rows and a.cols == b.cols \
                and all(isinstance(e, Poly) for r in a.ent for e in r):
            return BM(a.rows, a.cols, [[ite(c, x, y) for x, y in zip(r, q)] for r, q in zip(a.ent, b.ent)])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return None
        return None


import itertools
_cntr = itertools.count(1)


def targs_sig(t):
    """parameter types of a function type string"""
    i = t.find('(')
    d = 0
    cur = ''
    out = []
    for c in t[i + 1:]:
        if c in '(<':
            d += 1
        if c in ')>':
            if c == ')' and d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def sig(g):
    ta = g.get('targs') or []
    return '%s%s(%s)' % (g['q'], '<%s>' % ', '.join(map(str, ta)) if ta else '', ', '.join(p['t'] for p in g['params']))
