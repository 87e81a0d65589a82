"""Contracts of the library functions the code calls (Armadillo, standard
library, C runtime, the user's functor).  These are the trusted, external
contracts; every one that a proof used is listed in its evidence."""
from terms import *
from values import *
import values
import z3if
import re
import itertools
from fractions import Fraction as Fr

MODELS = {}
CTORS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def ctor(*names):
    def d(fn):
        for n in names:
            CTORS[n] = fn
        return fn
    return d


# ------------------------------------------------------------- dimensions
def dims(p):
    """tuple of block dimensions for a size polynomial"""
    p = P(p)
    if p.is_const():
        c = p.const()
        if c < 0 or c.denominator != 1:
            raise Unsupported('dimension %s' % p)
        return ('1',) * int(c)
    rest = p
    n = p.d.get(((NEQ, 1),), Fr(0))
    rest = p - NP * n
    if rest.is_const() and rest.const() == 0 and n > 0 and n.denominator == 1:
        return ('N',) * int(n)
    raise Unsupported('dimension %s' % p)


def shape_fail(I, st, what):
    I.shape_errors.append((what, st.pc))
    raise values_Dead()


def values_Dead():
    import interp
    return interp.Dead()


def bm(I, st, x):
    v = I.load(st, x)
    if isinstance(v, BM):
        return v
    if isinstance(v, Poly):
        return svec([v])
    if isinstance(v, (Seq, Arr)):
        return from_list(I, st, v)
    raise Unsupported('matrix expected: %r' % (v,))


def guard(I, st, f):
    try:
        return f()
    except ShapeError as e:
        I.shape_errors.append((str(e), st.pc))
        import interp
        raise interp.Dead()
    except TypeError as e:
        raise Unsupported('matrix shapes: %s' % e)


# --------------------------------------------------------- element access
def locate(I, st, ds, idx):
    """block number and offset of a scalar index in a dimension"""
    idx = P(idx)
    if all(d == '1' for d in ds):
        if idx.is_const():
            c = idx.const()
            if c.denominator == 1 and 0 <= c < len(ds):
                return int(c), ZERO
            return None
        raise Unsupported('symbolic index into concrete dimension')
    if all(d == 'N' for d in ds):
        c = idx.d.get(((NEQ, 1),), Fr(0))
        c = int(c) if c.denominator == 1 else 0
        for b in (c, c - 1, c + 1):
            if 0 <= b < len(ds):
                r = idx - NP * b
                if z3if.valid(st.pc, And(Le(0, r), Lt(r, NP)), 1500):
                    return b, r
        if len(ds) == 1:
            return 'oob?', idx
    raise Unsupported('index %s into %s' % (idx, ds))


def oob(I, st, what):
    I.bounds_errors.append((what, st.pc))
    import interp
    raise interp.Dead()


def locate1(I, st, ds, idx, what='index'):
    r = locate(I, st, ds, idx)
    if r is None:
        oob(I, st, '%s %s of %d' % (what, idx, len(ds)))
    if r[0] == 'oob?':
        i = r[1]
        inr = And(Le(0, i), Lt(i, NP))
        c = I.cond(st, inr)
        if c is False:
            oob(I, st, '%s %s outside 0..N-1' % (what, i))
        if c is None:
            I.bounds_unproved.append((str(i), st.pc, inr))
            st.assume(inr)
        return 0, i
    return r


def block_elem(rd, cd, e, i, j):
    if rd == '1' and cd == '1':
        return e
    if rd == 'N' and cd == '1':
        return elem(e, i)
    if rd == '1' and cd == 'N':
        return elem(e.t(), j)
    return melem(e, i, j)


def bm_get(I, st, m, i, j):
    bi, oi = locate1(I, st, m.rows, i, 'row')
    bj, oj = locate1(I, st, m.cols, j, 'column')
    return block_elem(m.rows[bi], m.cols[bj], m.ent[bi][bj], oi, oj)


def set_block(m, bi, bj, e):
    ent = [list(r) for r in m.ent]
    ent[bi][bj] = e
    return BM(m.rows, m.cols, ent)


def bm_set(I, st, m, i, j, v):
    bi, oi = locate1(I, st, m.rows, i, 'row')
    bj, oj = locate1(I, st, m.cols, j, 'column')
    rd, cd = m.rows[bi], m.cols[bj]
    e = m.ent[bi][bj]
    if rd == '1' and cd == '1':
        return set_block(m, bi, bj, v)
    if rd == 'N' and cd == '1':
        d = v - elem(e, oi)
        return set_block(m, bi, bj, e + letter(atom('unit', oi, shape='v')).scale(d))
    if rd == '1' and cd == 'N':
        d = v - elem(e.t(), oj)
        return set_block(m, bi, bj, (e.t() + letter(atom('unit', oj, shape='v')).scale(d)).t())
    d = v - melem(e, oi, oj)
    return set_block(m, bi, bj, e + letter(atom('munit', oi, oj, shape='m')).scale(d))


def asscalar(I, v):
    if isinstance(v, B):
        return b2p(v)
    if isinstance(v, Poly):
        return v
    if isinstance(v, BM) and isscalar_bm(v):
        return v.ent[0][0]
    if isinstance(v, Undef):
        return fresh('undef')
    raise Unsupported('scalar expected: %r' % (v,))


def getp(I, st, v, p):
    k = p[0]
    if k == 'f':
        if isinstance(v, Struct):
            if p[1] not in v.f:
                raise Unsupported('field %s of %s' % (p[1], v.cls))
            return v.f[p[1]]
        raise Unsupported('field %s of %r' % (p[1], type(v)))
    if isinstance(v, BM):
        if k == 'e':
            return bm_get(I, st, v, p[1], p[2])
        if k == 'i':
            return lin_get(I, st, v, p[1])
        if k == 'sub':
            r0, r1, c0, c1 = p[1:]
            return BM(v.rows[r0:r1], v.cols[c0:c1], [r[c0:c1] for r in v.ent[r0:r1]])
        if k == 'ncol':
            # symbolic column of an N-column block
            bj, oj = locate1(I, st, v.cols, p[1], 'column')
            u = letter(atom('unit', oj, shape='v'))
            return BM(v.rows, ('1',), [[bmul(r[bj], u)] for r in v.ent])
        if k == 'diag':
            return diag_get(v)
    if isinstance(v, OMat) and k in ('e', 'i'):
        i, j = (P(p[1]), P(p[2])) if k == 'e' else (P(p[1]), ZERO) if v.c == ONE else (None, None)
        if i is None:
            raise Unsupported('linear index into a matrix of arbitrary dimensions')
        for x, n in ((i, v.r), (j, v.c)):
            inr = And(Le(0, x), Lt(x, n))
            t = I.cond(st, inr)
            if t is False:
                oob(I, st, 'index %s outside 0..%s' % (x, n))
            if t is None:
                I.bounds_unproved.append((str(x), st.pc, inr))
                st.assume(inr)
        return v.at(i, j)
    if isinstance(v, Arr):
        if k == 'i':
            i = P(p[1])
            if i.is_const():
                c = i.const()
                if 0 <= c < len(v.v):
                    return v.v[int(c)]
                oob(I, st, 'array index %s of %d' % (i, len(v.v)))
            return arr_sel(I, st, v, i)
    if isinstance(v, Seq) and k == 'i':
        return seq_get(I, st, v, P(p[1]))
    if isinstance(v, MapV) and k == 'i':
        kk, vv = v.items[int(P(p[1]).const())]
        return Struct('std::pair', {'first': kk, 'second': vv})
    if isinstance(v, Str) and k == 'i':
        return P(atom('char', v.p, P(p[1]), sort='I'))
    if isinstance(v, (Poly, B)) and k == 'i' and P(p[1]) == ZERO:
        return v
    if isinstance(v, Undef):
        raise Unsupported('access into an undefined object')
    raise Unsupported('access %s of %r' % (k, type(v).__name__))


def arr_sel(I, st, v, i):
    for n in range(len(v.v)):
        if n == len(v.v) - 1:
            st.assume(Eq(i, n))
            return v.v[n]
        if I.decide(st, Eq(i, n)):
            return v.v[n]


def lin_get(I, st, m, i):
    """m[i] / m(i): column-major linear index"""
    if len(m.cols) == 1 and m.cols[0] == '1':
        return bm_get(I, st, m, i, ZERO)
    if len(m.rows) == 1 and m.rows[0] == '1':
        return bm_get(I, st, m, ZERO, i)
    a, b = lin_ij(m, i)
    return bm_get(I, st, m, a, b)


def lin_ij(m, i):
    i = P(i)
    if i.is_const() and all(d == '1' for d in m.rows) and m.rows:
        b, a = divmod(int(i.const()), len(m.rows))
        return P(a), P(b)
    raise Unsupported('linear index into a matrix')


def putp(I, st, v, p, new):
    k = p[0]
    if k == 'f':
        return v.set(p[1], new)
    if isinstance(v, BM):
        if k == 'e':
            return bm_set(I, st, v, p[1], p[2], asscalar(I, new))
        if k == 'i':
            new = asscalar(I, new)
            if len(v.cols) == 1 and v.cols[0] == '1':
                return bm_set(I, st, v, p[1], ZERO, new)
            if len(v.rows) == 1 and v.rows[0] == '1':
                return bm_set(I, st, v, ZERO, p[1], new)
            a, b = lin_ij(v, p[1])
            return bm_set(I, st, v, a, b, new)
        if k == 'sub':
            r0, r1, c0, c1 = p[1:]
            new = bm(I, st, new)
            if (new.rows, new.cols) != (v.rows[r0:r1], v.cols[c0:c1]):
                if new.cols == v.rows[r0:r1] and new.rows == v.cols[c0:c1] and c1 - c0 == 1:
                    new = bmt(new)
                else:
                    guard(I, st, lambda: bmadd(new, BM(v.rows[r0:r1], v.cols[c0:c1], [r[c0:c1] for r in v.ent[r0:r1]])))
            ent = [list(r) for r in v.ent]
            for a in range(r0, r1):
                for b in range(c0, c1):
                    ent[a][b] = new.ent[a - r0][b - c0]
            return BM(v.rows, v.cols, ent)
        if k == 'ncol':
            bj, oj = locate1(I, st, v.cols, p[1], 'column')
            u = letter(atom('unit', oj, shape='v'))
            new = bm(I, st, new)
            ent = [list(r) for r in v.ent]
            for a in range(len(v.rows)):
                ent[a][bj] = ent[a][bj] + bmul(new.ent[a][0] - bmul(ent[a][bj], u), u.t())
            return BM(v.rows, v.cols, ent)
    if isinstance(v, Arr) and k == 'i':
        i = P(p[1])
        if i.is_const():
            c = i.const()
            if 0 <= c < len(v.v):
                l = list(v.v)
                l[int(c)] = new
                return Arr(l)
            oob(I, st, 'array index %s of %d' % (i, len(v.v)))
        for n in range(len(v.v)):
            if n == len(v.v) - 1 or I.decide(st, Eq(i, n)):
                l = list(v.v)
                l[n] = new
                return Arr(l)
    if isinstance(v, Seq) and k == 'i':
        return seq_put(I, st, v, P(p[1]), new)
    if isinstance(v, MapV) and k == 'i':
        it = list(v.items)
        it[int(P(p[1]).const())] = (new.f['first'], new.f['second'])
        return MapV(it, v.kt, v.vt)
    if isinstance(v, (Poly, B)) and k == 'i' and P(p[1]) == ZERO:
        return new
    raise Unsupported('update %s of %r' % (k, type(v).__name__))


# ------------------------------------------------------------- sequences
_fid = itertools.count(1)


def opaque_elem(et, pre, idx):
    """element idx of the unknown sequence pre"""
    import interp
    et = interp.ctype(et)
    if pre.kind == 'upd':
        raise RuntimeError
    if et in interp.INTS:
        return P(atom('sel', pre, idx, sort='I'))
    if et in interp.FLOATS:
        return P(atom('sel', pre, idx))
    s = interp.strip(et)
    if s == 'arma::Col':
        return vec(letter(atom('selv', pre, idx, shape='v')))
    if s == 'std::vector':
        q = atom('selq', pre, idx)
        return Seq((), pre=q, plen=P(atom('len', q, sort='I')), et=interp.targs_of(et)[0])
    return Opq('sel', pre, idx)


def sel(I, st, pre, idx, et):
    while pre.kind == 'upd':
        if I.decide(st, Eq(pre.args[1], idx)):
            return pre.args[2].args[0]
        pre = pre.args[0]
    return opaque_elem(et, pre, idx)


def seq_pos(I, st, v, i):
    """('pre', idx) or ('ch', n, off)"""
    n = v.length()
    # from the end
    d = n - i
    if d.is_const():
        c = d.const()
        if c <= 0:
            oob(I, st, 'vector index %s of %s' % (i, n))
        if c <= v.tailn():
            return ('ch', len(v.ch) - int(c), ZERO)
    base = v.plen
    if v.pre is not None:
        if z3if.valid(st.pc, And(Le(0, i), Lt(i, base)), 1500):
            return ('pre', i)
    for k, c in enumerate(v.ch):
        w = chunk_len(c)
        r = i - base
        if (c[0] == 'e' and r == ZERO) or (c[0] != 'e' and z3if.valid(st.pc, And(Le(0, r), Lt(r, w)), 1500)):
            return ('ch', k, r)
        base = base + w
    if (v.pre is not None and not v.ch) or (v.pre is None and len(v.ch) == 1):
        inr = And(Le(0, i), Lt(i, n))
        c = I.cond(st, inr)
        if c is False:
            oob(I, st, 'vector index %s of %s' % (i, n))
        I.bounds_unproved.append(('vector index %s of %s' % (i, n), st.pc, inr))
        st.assume(inr)
        return ('pre', i) if v.pre is not None else ('ch', 0, i)
    raise Unsupported('vector index %s of %s' % (i, n))


def seq_get(I, st, v, i):
    w = seq_pos(I, st, v, i)
    if w[0] == 'pre':
        return sel(I, st, v.pre, i, v.et)
    c = v.ch[w[1]]
    if c[0] == 'e':
        return c[1]
    if c[0] == 's':
        return sel(I, st, c[1], c[2] + w[2], v.et)
    lo, hi, a, vs = c[1:]
    if len(vs) == 1 and c[0] == 'm':
        return vsubst(vs[0], {a: lo + w[2]})
    raise Unsupported('element of an interleaved sequence')


def seq_put(I, st, v, i, new):
    w = seq_pos(I, st, v, i)
    if w[0] == 'pre':
        return Seq(v.ch, atom('upd', v.pre, i, Hold(new)), v.plen, v.et)
    c = v.ch[w[1]]
    if c[0] == 'e':
        l = list(v.ch)
        l[w[1]] = ('e', new)
        return v.with_ch(l)
    raise Unsupported('update of a generated sequence')


def aslist(I, st, x):
    v = I.load(st, x)
    if isinstance(v, Seq) and v.explicit():
        return v.vals()
    if isinstance(v, Arr):
        return list(v.v)
    raise Unsupported('explicit sequence expected')


def seq_append(a, b):
    """concatenation"""
    if b.pre is not None:
        mid = (('s', b.pre, ZERO, b.plen),)
    else:
        mid = ()
    if a.pre is None and not a.ch and b.pre is not None:
        return Seq(b.ch, b.pre, b.plen, a.et or b.et)
    return Seq(a.ch + mid + b.ch, a.pre, a.plen, a.et or b.et)


def seq_range(I, st, a, b):
    """the elements between two iterators of one sequence"""
    if a.kind != 'seq' or b.kind != 'seq' or a.lv != b.lv:
        raise Unsupported('iterator range')
    v = I.load(st, a.lv)
    if isinstance(v, Arr):
        v = Seq([('e', x) for x in v.v])
    if a.idx == ZERO and b.idx == v.length():
        return v
    if v.explicit() and a.idx.is_const() and b.idx.is_const():
        i, j = int(a.idx.const()), int(b.idx.const())
        if 0 <= i <= j <= len(v.ch):
            return v.with_ch(v.ch[i:j])
        oob(I, st, 'iterator range')
    if not v.ch and v.pre is not None:
        return Seq((('s', v.pre, a.idx, b.idx),), None, ZERO, v.et)
    raise Unsupported('partial iterator range')


def noalloc(args):
    return [a for a in args if not (isinstance(a, Opq) and a.tag == 'alloc')]


@ctor('std::allocator')
def c_alloc(I, st, cls, args, e):
    return Opq('alloc')


def arr2seq(I, st, v, et):
    """a braced list as a sequence, its inner lists as well where elements are vectors"""
    if isinstance(v, Arr):
        v = Seq(tuple(('e', x) for x in v.v), et=et)
    if isinstance(v, Seq) and interp().strip(et).startswith('std::vector') and any(
            c[0] == 'e' and isinstance(I.load(st, c[1]), Arr) for c in v.ch):
        it = interp().targs_of(et)[0]
        return Seq([('e', arr2seq(I, st, I.load(st, c[1]), it)) if c[0] == 'e' else c for c in v.ch],
                   v.pre, v.plen, v.et)
    return v


@ctor('std::vector')
def c_vector(I, st, cls, args, e):
    et = interp().targs_of(cls)[0]
    a = [arr2seq(I, st, v, et) for v in noalloc([I.load(st, x) for x in args])]
    if not a:
        return Seq(et=et)
    if e.get('initlist'):
        v = a[0]
        return Seq(v.ch, v.pre, v.plen, et)
    if len(a) == 1 and isinstance(a[0], Seq):
        return Seq(a[0].ch, a[0].pre, a[0].plen, et)
    if len(a) == 2 and isinstance(a[0], It):
        v = seq_range(I, st, a[0], a[1])
        return Seq(v.ch, v.pre, v.plen, et)
    if isinstance(a[0], Poly):
        val = a[1] if len(a) > 1 else I.value_init(st, et)
        return seq_n(I, st, a[0], val, et)
    raise Unsupported('vector constructor')


def seq_n(I, st, n, val, et):
    if n.is_const():
        return Seq([('e', val)] * int(n.const()), et=et)
    I.note_nonneg(st, n)
    k = atom('sym', 'fill!%d' % next(_fid), sort='I')
    if isinstance(val, Opq):
        return Seq((), atom('newseq', next(_fid)), n, et)
    return Seq([('m', ZERO, n, k, (val,))], et=et)


def interp():
    import interp as m
    return m


@ctor('std::pair')
def c_pair(I, st, cls, args, e):
    a = [I.load(st, x) for x in args]
    if len(a) == 1:
        return a[0]
    return Struct('std::pair', {'first': a[0], 'second': a[1]})


@ctor('std::map')
def c_map(I, st, cls, args, e):
    kt, vt = interp().targs_of(cls)[:2]
    a = noalloc([I.load(st, x) for x in args])
    a = [x for x in a if not (isinstance(x, Opq) and x.tag == 'less')]
    if not a:
        return MapV((), kt, vt)
    if isinstance(a[0], MapV):
        return a[0]
    items = []
    for x in a[0].vals():
        if isinstance(x, Seq):
            k, v = x.vals()
        else:
            k, v = x.f['first'], x.f['second']
        k, v = tostr(k, kt), tostr(v, vt)
        if any(k == y[0] for y in items):
            continue            # std::map keeps the first of equal keys
        items.append((k, v))
    return MapV(sorted(items, key=lambda y: keyord(y[0])), kt, vt)


def tostr(v, t):
    return v


def keyord(k):
    if isinstance(k, Str):
        if k.lit() is None:
            raise Unsupported('map key')
        return k.lit()
    return k.const()


@ctor('std::less')
def c_less(I, st, cls, args, e):
    return Opq('less')


@ctor('std::basic_string')
def c_string(I, st, cls, args, e):
    a = noalloc([I.load(st, x) for x in args])
    if not a:
        return Str('')
    if len(a) == 1:
        if isinstance(a[0], Str):
            return a[0]
        raise Unsupported('string constructor')
    if isinstance(a[0], Poly):
        c = a[1]
        if c.is_const():
            return Str([('rep', a[0], chr(int(c.const())))])
        return Str([('repc', a[0], c)])
    raise Unsupported('string constructor')


_oslen = Str.length


def _slength(self):
    n = ZERO
    for x in self.p:
        if isinstance(x, str):
            n = n + len(x)
        elif x[0] in ('rep', 'repc'):
            n = n + x[1]
        else:
            n = n + P(atom('len', Hold(x), sort='I'))
    return n


Str.length = _slength


@ctor('std::basic_stringstream', 'std::basic_ostringstream')
def c_ss(I, st, cls, args, e):
    return Stream(None)


@ctor('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_Setw',
      'std::_Setprecision', 'std::move_iterator')
def c_copy(I, st, cls, args, e):
    return I.load(st, args[0]) if args else UNDEF


@ctor('vp_elem')
def c_elem(I, st, cls, args, e):
    return I.load(st, args[0]) if args else Opq('elem0')


@ctor('vp_ode', 'vp_sys')
def c_functor(I, st, cls, args, e):
    return I.load(st, args[0])


@ctor('timeval')
def c_timeval(I, st, cls, args, e):
    if len(args) == 1:
        return I.load(st, args[0])
    return Struct('timeval', {'tv_sec': UNDEF, 'tv_usec': UNDEF})


def from_list(I, st, v, t='arma::Mat'):
    """initialiser list to matrix"""
    rows = []
    if isinstance(v, Seq) and not v.explicit():
        raise Unsupported('symbolic initialiser list')
    vals = [I.load(st, x) for x in v.vals()]
    if vals and all(isinstance(x, (Seq, Arr)) for x in vals):
        rows = [[asscalar(I, y) for y in aslist(I, st, x)] for x in vals]
        w = max(len(r) for r in rows)
        rows = [r + [ZERO] * (w - len(r)) for r in rows]
        return smat(rows)
    ps = [asscalar(I, x) for x in vals]
    if t == 'arma::Col':
        return svec(ps)
    return BM(('1',), ('1',) * len(ps), [ps])


def _opt_fill(a):
    """split off a trailing fill specification"""
    if a and isinstance(a[-1], Struct) and 'fill' in a[-1].cls:
        return a[:-1], a[-1].cls
    if a and isinstance(a[-1], Opq) and a[-1].tag == 'fill':
        return a[:-1], a[-1].args[0]
    return a, None


@ctor('arma::Col', 'arma::Mat', 'arma::Row')
def c_arma(I, st, cls, args, e):
    s = interp().strip(cls)
    raw = e['a']
    a = []
    fill = None
    for x, r in zip(args, raw):
        t = interp().ctype(r.get('t', ''))
        if 'fill_class' in t or 'fill::' in t:
            fill = t
            continue
        a.append(I.load(st, x))
    if not a:
        return {'arma::Col': BM((), ('1',), []), 'arma::Row': BM(('1',), (), [[]]), 'arma::Mat': BM((), (), [])}[s]
    if isinstance(a[0], (Seq, Arr)):
        v = a[0] if isinstance(a[0], Seq) else Seq([('e', x) for x in a[0].v])
        if not v.explicit() and not e.get('initlist'):
            raise Unsupported('matrix from vector')
        return from_list(I, st, v, s)
    if isinstance(a[0], Poly) and not (len(a) == 1 and interp().ctype(raw[0].get('t', '')) in interp().FLOATS):
        if s == 'arma::Mat':
            r = dims(a[0])
            c = dims(a[1]) if len(a) > 1 else ('1',)
            m = bmzeros(r, c)
        elif s == 'arma::Col':
            m = bmzeros(dims(a[0]), ('1',))
        else:
            m = bmzeros(('1',), dims(a[0]))
        if fill:
            if 'eye' in fill:
                m = bmeye(m.rows, m.cols)
            elif 'ones' in fill:
                m = bmones(m.rows, m.cols)
            elif 'zeros' in fill:
                pass
            else:
                raise Unsupported('fill ' + fill)
        return m
    return convert(I, st, a[0], s)


def convert(I, st, v, s):
    if isinstance(v, Big):
        return v
    v = bm(I, st, v)
    if s == 'arma::Col' and v.cols != ('1',):
        if v.rows == () or v.cols == ():
            return BM((), ('1',), [])
        return guardshape(I, st, v, 'column vector')
    if s == 'arma::Row' and v.rows != ('1',):
        if v.rows == () or v.cols == ():
            return BM(('1',), (), [[]])
        return guardshape(I, st, v, 'row vector')
    return v


def guardshape(I, st, v, what):
    I.shape_errors.append(('%s x %s is not a %s' % (v.rows, v.cols, what), st.pc))
    raise interp().Dead()


def bmones(r, c):
    def one(x, y):
        o = letter(atom('ones', shape='v'))
        if x == '1' and y == '1':
            return ONE
        if x == 'N' and y == '1':
            return o
        if x == '1':
            return o.t()
        return bmul(o, o.t())
    return BM(r, c, [[one(x, y) for y in c] for x in r])


def cls_of(t):
    return interp().strip(interp().ctype(t).rstrip('&'))


# ------------------------------------------------------------- arma calls
@model('arma::Mat::operator()', 'arma::Mat::at', 'arma::Col::operator()', 'arma::Col::at', 'arma::Row::at', 'arma::Row::operator()',
       'arma::subview_col::operator()', 'arma::subview_col::at', 'arma::subview::operator()', 'arma::subview::at')
def m_paren(I, st, obj, args, f, e):
    idx = [I.asnum(I.load(st, a)) for a in args]
    if isinstance(obj, LV):
        v = I.load(st, obj)
        # bounds are checked by the library at run time
        if len(idx) == 1:
            x = obj.sub('i', idx[0])
        else:
            x = obj.sub('e', idx[0], idx[1])
        I.load(st, x)
        return x
    v = bm(I, st, obj)
    return bm_get(I, st, v, idx[0], idx[1]) if len(idx) == 2 else lin_get(I, st, v, idx[0])


@model('arma::Mat::operator[]', 'arma::Col::operator[]', 'arma::Row::operator[]', 'arma::subview_col::operator[]')
def m_brack(I, st, obj, args, f, e):
    return m_paren(I, st, obj, args, f, e)


@model('arma::Mat::size', 'arma::subview::size', 'arma::subview_col::size', 'arma::Mat::n_elem', 'arma::Base::size')
def m_size(I, st, obj, args, f, e):
    v = I.load(st, obj)
    return v.nr() * v.nc()


def member(I, st, v, n, lv):
    if isinstance(v, (BM, OMat)):
        if n == 'n_rows':
            return v.nr()
        if n == 'n_cols':
            return v.nc()
        if n == 'n_elem':
            return v.nr() * v.nc()
    if isinstance(v, MapV) or isinstance(v, Undef):
        pass
    raise Unsupported('member %s of %r' % (n, type(v).__name__))


@model('arma::Mat::is_square')
def m_issquare(I, st, obj, args, f, e):
    v = I.load(st, obj)
    return Eq(v.nr(), v.nc())


@model('arma::Mat::is_empty', 'arma::Mat::empty')
def m_isempty(I, st, obj, args, f, e):
    v = I.load(st, obj)
    return Eq(v.nr() * v.nc(), 0)


def block_range(ds, a, b):
    """block indices for inclusive element range a..b"""
    a, b = P(a), P(b)
    if all(d == '1' for d in ds):
        if a.is_const() and b.is_const():
            i, j = int(a.const()), int(b.const()) + 1
            if 0 <= i and j <= len(ds) and i <= j:
                return i, j
            return None
    if all(d == 'N' for d in ds):
        c1 = a.d.get(((NEQ, 1),), Fr(0))
        c2 = (b + 1).d.get(((NEQ, 1),), Fr(0))
        if a == NP * c1 and b + 1 == NP * c2 and c1.denominator == 1 and c2.denominator == 1:
            i, j = int(c1), int(c2)
            if 0 <= i <= j <= len(ds):
                return i, j
            return None
    raise Unsupported('range %s..%s' % (a, b))


def sub_lv(I, st, obj, r0, r1, c0, c1):
    if isinstance(obj, LV):
        return obj.sub('sub', r0, r1, c0, c1)
    v = bm(I, st, obj)
    return BM(v.rows[r0:r1], v.cols[c0:c1], [r[c0:c1] for r in v.ent[r0:r1]])


@model('arma::Col::subvec', 'arma::Row::subvec', 'arma::Col::rows', 'arma::subview_col::subvec', 'arma::subview_col::rows')
def m_subvec(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    a, b = [I.num2(st, x) for x in args]
    row = v.rows == ('1',) and v.cols != ('1',)
    r = block_range(v.cols if row else v.rows, a, b)
    if r is None:
        oob(I, st, 'subvec')
    return sub_lv(I, st, obj, 0, 1, r[0], r[1]) if row else sub_lv(I, st, obj, r[0], r[1], 0, 1)


@model('arma::Col::head', 'arma::Col::tail', 'arma::Col::head_rows', 'arma::Col::tail_rows')
def m_head(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    n = I.num2(st, args[0])
    if f['n'].startswith('head'):
        r = block_range(v.rows, ZERO, n - 1)
    else:
        r = block_range(v.rows, v.nr() - n, v.nr() - 1)
    return sub_lv(I, st, obj, r[0], r[1], 0, 1)


@model('arma::Mat::col', 'arma::Mat::unsafe_col')
def m_col(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    j = I.num2(st, args[0])
    if all(d == '1' for d in v.cols):
        if not j.is_const():
            raise Unsupported('symbolic column')
        c = int(j.const())
        if not 0 <= c < len(v.cols):
            oob(I, st, 'column %s' % j)
        return sub_lv(I, st, obj, 0, len(v.rows), c, c + 1)
    if isinstance(obj, LV):
        return obj.sub('ncol', j)
    return getp(I, st, v, ('ncol', j))


@model('arma::Mat::row')
def m_row(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    j = I.num2(st, args[0])
    if all(d == '1' for d in v.rows) and j.is_const():
        c = int(j.const())
        if not 0 <= c < len(v.rows):
            oob(I, st, 'row %s' % j)
        return sub_lv(I, st, obj, c, c + 1, 0, len(v.cols))
    raise Unsupported('symbolic row')


@model('arma::Mat::cols', 'arma::Mat::head_cols')
def m_cols(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    if f['n'] == 'cols':
        a, b = [I.num2(st, x) for x in args]
    else:
        a, b = ZERO, I.num2(st, args[0]) - 1
    r = block_range(v.cols, a, b)
    if r is None:
        oob(I, st, 'cols')
    return sub_lv(I, st, obj, 0, len(v.rows), r[0], r[1])


@model('arma::Mat::rows')
def m_rows(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    a, b = [I.num2(st, x) for x in args]
    r = block_range(v.rows, a, b)
    if r is None:
        oob(I, st, 'rows')
    return sub_lv(I, st, obj, r[0], r[1], 0, len(v.cols))


@model('arma::Mat::submat')
def m_submat(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    a, b, c, d = [I.num2(st, x) for x in args]
    r, q = block_range(v.rows, a, c), block_range(v.cols, b, d)
    if r is None or q is None:
        oob(I, st, 'submat')
    return sub_lv(I, st, obj, r[0], r[1], q[0], q[1])


@model('arma::Base_trans_default::t', 'arma::Col::t', 'arma::Row::t', 'arma::Mat::t', 'arma::trans', '*::t', '*::st', 'arma::strans')
def m_t(I, st, obj, args, f, e):
    v = I.load(st, obj if obj is not None else args[0])
    if isinstance(v, Big):
        return big_t(v)
    return bmt(bm(I, st, v))


@model('arma::Mat::zeros', 'arma::Col::zeros', 'arma::Row::zeros', 'arma::Mat::ones', 'arma::Col::ones', 'arma::Mat::eye',
       'arma::Mat::set_size', 'arma::Col::set_size', 'arma::Mat::resize', 'arma::Col::resize', 'arma::Row::ones')
def m_memfill(I, st, obj, args, f, e):
    v = I.load(st, obj)
    n = [I.num2(st, x) for x in args]
    isrow = isinstance(v, BM) and v.rows == ('1',) and v.cols != ('1',) and v.cols != ()
    if not n:
        r, c = v.rows, v.cols
    elif len(n) == 1:
        r, c = (dims(n[0]), ('1',)) if not isrow else (('1',), dims(n[0]))
    else:
        r, c = dims(n[0]), dims(n[1])
    k = f['n']
    if k == 'resize':
        m = bmzeros(r, c)
        ent = [list(x) for x in m.ent]
        for i in range(min(len(r), len(v.rows))):
            for j in range(min(len(c), len(v.cols))):
                if r[i] != v.rows[i] or c[j] != v.cols[j]:
                    raise Unsupported('resize')
                ent[i][j] = v.ent[i][j]
        m = BM(r, c, ent)
    elif k == 'set_size' and isinstance(v, BM) and (v.rows, v.cols) == (r, c):
        m = v
    else:
        m = bmones(r, c) if k == 'ones' else bmeye(r, c) if k == 'eye' else bmzeros(r, c)
    I.store(st, obj, m)
    return obj


@model('arma::Mat::fill', 'arma::Col::fill', 'arma::subview::fill', 'arma::Row::fill')
def m_fill(I, st, obj, args, f, e):
    v = I.load(st, obj)
    x = I.num2(st, args[0])
    I.store(st, obj, bmap(lambda z: bscale(z, x), bmones(v.rows, v.cols)))
    return obj


@model('arma::Mat::reset', 'arma::Col::reset', 'arma::Mat::clear')
def m_reset(I, st, obj, args, f, e):
    v = I.load(st, obj)
    I.store(st, obj, BM((), ('1',), []) if v.cols == ('1',) else BM((), (), []))
    return UNDEF


def out_is_col(e):
    return 'arma::Col' in e.get('t', '')


@model('arma::zeros', 'arma::ones')
def m_zeros(I, st, obj, args, f, e):
    n = [I.num2(st, x) for x in args if isinstance(I.load(st, x), Poly)]
    rt = e.get('t', '') + f.get('t', '')
    if len(n) == 1:
        r, c = dims(n[0]), ('1',)
        if 'arma::Row' in rt.split('(')[0]:
            r, c = c, r
    else:
        r, c = dims(n[0]), dims(n[1])
    return bmzeros(r, c) if f['n'] == 'zeros' else bmones(r, c)


@model('arma::eye')
def m_eye(I, st, obj, args, f, e):
    n = [I.num2(st, x) for x in args]
    return bmeye(dims(n[0]), dims(n[1]))


@model('arma::dot')
def m_dot(I, st, obj, args, f, e):
    a, b = bm(I, st, args[0]), bm(I, st, args[1])
    if a.cols != ('1',):
        a = bmt(a)
    if b.cols != ('1',):
        b = bmt(b)
    return guard(I, st, lambda: scalar_of(bmmul(bmt(a), b)))


def scalar_of(m):
    if not isscalar_bm(m):
        raise ShapeError('scalar product')
    return m.ent[0][0]


@model('arma::inv', 'arma::pinv', 'arma::inv_sympd', 'arma::Mat::i', '*::i')
def m_inv(I, st, obj, args, f, e):
    v = I.load(st, obj if obj is not None else args[0])
    return inverse(I, st, bm(I, st, v))


def inverse(I, st, m):
    if m.rows != m.cols:
        raise Unsupported('inverse of a non-square matrix')
    if m.rows == ('N',):
        return BM(m.rows, m.cols, [[linv(m.ent[0][0])]])
    if all(d == '1' for d in m.rows):
        r = numinv(m)
        if r is not None:
            return r
        n = len(m.rows)
        if all(not m.ent[i][j].d for i in range(n) for j in range(n) if i != j):
            return BM(m.rows, m.cols, [[recip(m.ent[i][i]) if i == j else ZERO for j in range(n)] for i in range(n)])
        t = bmt(m)
        h1, h2 = mat_key(m), mat_key(t)
        if h2 < h1:
            return bmt(symbolic_inv(t))
        return symbolic_inv(m)
    n = len(m.rows)
    return Big(ONE, (('inv', m),), m.rows)


def mat_key(m):
    return tuple(str_key(e) for r in m.ent for e in r)


def symbolic_inv(m):
    n = len(m.rows)
    return BM(m.rows, m.cols, [[P(atom('ainv', m, i, j)) for j in range(n)] for i in range(n)])


def numinv(m):
    n = len(m.rows)
    if not all(e.is_const() for r in m.ent for e in r):
        return None
    a = [[m.ent[i][j].const() for j in range(n)] + [Fr(1 if i == j else 0) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if a[r][c] != 0), None)
        if p is None:
            return None
        a[c], a[p] = a[p], a[c]
        q = a[c][c]
        a[c] = [x / q for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                k = a[r][c]
                a[r] = [x - k * y for x, y in zip(a[r], a[c])]
    return BM(m.rows, m.cols, [[P(a[i][n + j]) for j in range(n)] for i in range(n)])


class Big:
    """block-matrix word applied (or not) to a block vector: k * w * vec"""
    __slots__ = ('k', 'w', 'dims', 'vec')

    def __init__(self, k, w, dims, vec=None):
        self.k = P(k)
        self.w = tuple(w)
        self.dims = dims
        self.vec = vec

    def __eq__(self, o):
        return isinstance(o, Big) and (self.k, self.w, self.vec) == (o.k, o.w, o.vec)

    def __hash__(self):
        return hash((self.k, self.w, self.vec))

    def __repr__(self):
        return 'Big(%s,%s)' % (self.k, [x[0] for x in self.w])


values.Big = Big


def big_t(b):
    fl = {'P': 'Pt', 'Pt': 'P', 'L': 'Lt', 'U': 'Ut', 'M': None}
    w = []
    for x in reversed(b.w):
        t = fl.get(x[0])
        if x[0] in ('M', 'inv'):
            w.append((x[0], bmt(x[1])))
        elif t is None:
            raise Unsupported('transpose of a decomposition')
        else:
            w.append((t, x[1]))
    return Big(b.k, w, b.dims)


def big_norm(b):
    """reduce a big word; a fully applied solve becomes a block vector"""
    w = list(b.w)
    ch = True
    while ch:
        ch = False
        for i in range(len(w) - 2):
            if w[i][0] == 'iU' and w[i + 1][0] == 'iL' and w[i + 2][0] == 'P' and w[i][1] == w[i + 1][1] == w[i + 2][1]:
                w[i:i + 3] = [('inv', w[i][1])]
                ch = True
                break
            if w[i][0] == 'Pt' and w[i + 1][0] == 'L' and w[i + 2][0] == 'U' and w[i][1] == w[i + 1][1] == w[i + 2][1]:
                w[i:i + 3] = [('M', w[i][1])]
                ch = True
                break
        for i in range(len(w) - 1):
            if {w[i][0], w[i + 1][0]} == {'inv', 'M'} and w[i][1] == w[i + 1][1]:
                del w[i:i + 2]
                ch = True
                break
    if b.vec is not None:
        vec_ = b.vec
        while w:
            t, m = w[-1]
            if t == 'M':
                vec_ = bmmul(m, vec_)
                w.pop()
                continue
            if t == 'inv' or len(w) == 1 or True:
                vec_ = bsol(t, m, vec_)
                w.pop()
        return bmap(lambda x: bscale(x, b.k), vec_)
    if not w:
        return bmap(lambda x: bscale(x, b.k), bmeye(b.dims, b.dims))
    if len(w) == 1 and w[0][0] == 'M':
        return bmap(lambda x: bscale(x, b.k), w[0][1])
    return Big(b.k, w, b.dims)


def bsol(t, m, v):
    """entries of (t(m)) * v as opaque letters; linear in v up to a scalar"""
    if not any(e.d for r in v.ent for e in r):
        return v
    if t == 'inv' and m.rows == ('N',):
        return bmmul(BM(m.rows, m.cols, [[linv(m.ent[0][0])]]), v)
    # normalise a common scalar factor -1
    out = []
    for i, d in enumerate(m.rows):
        row = []
        for j, c in enumerate(v.cols):
            if d == '1' and c == '1':
                row.append(P(atom('bsol', t, m, v, i, j)))
            else:
                row.append(letter(atom('bsol', t, m, v, i, j, shape='v')))
        out.append(row)
    return BM(m.rows, v.cols, out)


@model('arma::lu')
def m_lu(I, st, obj, args, f, e):
    # lu(L, U, P, X)  with P'*L*U == X, or lu(L, U, X)
    x = I.load(st, args[-1])
    a = args
    if isinstance(x, Ptr) or isinstance(x, Undef):
        a = args[:-1]
    m = bm(I, st, a[-1])
    d = m.rows
    I.store(st, a[0], Big(ONE, (('L', m),), d))
    I.store(st, a[1], Big(ONE, (('U', m),), d))
    if len(a) == 4:
        I.store(st, a[2], Big(ONE, (('P', m),), d))
    else:
        raise Unsupported('lu without permutation')
    return TRUE


@model('arma::trimatl', 'arma::trimatu')
def m_tri(I, st, obj, args, f, e):
    v = I.load(st, args[0])
    if isinstance(v, Big) and len(v.w) == 1:
        want = 'L' if f['n'] == 'trimatl' else 'U'
        if v.w[0][0] == want:
            return v
    if isinstance(v, Big):
        raise Unsupported('triangular part')
    if isinstance(v, BM) and set(v.rows) | set(v.cols) <= {'1'} and len(args) == 1:
        low = f['n'] == 'trimatl'
        return BM(v.rows, v.cols, [[x if i == j or (j < i) == low else ZERO for j, x in enumerate(r)] for i, r in enumerate(v.ent)])
    raise Unsupported('triangular part of a general matrix')


@model('arma::solve')
def m_solve(I, st, obj, args, f, e):
    a = I.load(st, args[0])
    b = I.load(st, args[1])
    if len(args) > 2 and isinstance(I.load(st, args[2]), BM):
        # bool solve( X, A, B )
        x = solve_val(I, st, I.load(st, args[1]), I.load(st, args[2]))
        I.store(st, args[0], x)
        return TRUE
    return solve_val(I, st, a, b)


def solve_val(I, st, a, b):
    if isinstance(a, Big):
        inv = []
        fl = {'L': 'iL', 'U': 'iU', 'iL': 'L', 'iU': 'U', 'P': 'Pt', 'Pt': 'P', 'M': 'inv', 'inv': 'M'}
        for t, m in reversed(a.w):
            inv.append((fl[t], m))
        k = recip(a.k)
        if isinstance(b, Big):
            r = Big(k * b.k, tuple(inv) + b.w, a.dims, b.vec)
        else:
            r = Big(k, tuple(inv), a.dims, bm(I, st, b))
        return maybe_vec(r)
    a = bm(I, st, a)
    if isinstance(b, Big):
        raise Unsupported('solve')
    b = bm(I, st, b)
    if a.rows != a.cols or a.rows != b.rows:
        I.shape_errors.append(('solve', st.pc))
        raise interp().Dead()
    if a.rows == ('N',) or all(d == '1' for d in a.rows):
        return guard(I, st, lambda: bmmul(inverse(I, st, a), b))
    return big_norm(Big(ONE, (('inv', a),), a.rows, b))


def maybe_vec(r):
    """keep partially applied LU words symbolic until they are complete"""
    if r.vec is None:
        return big_norm(r)
    ts = [t for t, m in r.w]
    if ts in (['P'], ['iL', 'P'], ['Pt'], ['iL'], ['iL', 'Pt']):
        return r
    return big_norm(r)


@model('arma::kron')
def m_kron(I, st, obj, args, f, e):
    a, b = bm(I, st, args[0]), bm(I, st, args[1])
    if not all(d == '1' for d in a.rows + a.cols):
        raise Unsupported('kron with a symbolic first factor')
    rows = b.rows * len(a.rows)
    cols = b.cols * len(a.cols)
    ent = []
    for i in range(len(a.rows)):
        for k in range(len(b.rows)):
            ent.append([bscale(b.ent[k][l], a.ent[i][j]) for j in range(len(a.cols)) for l in range(len(b.cols))])
    return BM(rows, cols, ent)


@model('arma::reshape')
def m_reshape(I, st, obj, args, f, e):
    v = bm(I, st, args[0])
    r, c = dims(I.num2(st, args[1])), dims(I.num2(st, args[2]))
    return reshape(I, st, v, r, c)


@model('arma::Mat::reshape', 'arma::Col::reshape')
def m_mreshape(I, st, obj, args, f, e):
    v = bm(I, st, obj)
    I.store(st, obj, reshape(I, st, v, dims(I.num2(st, args[0])), dims(I.num2(st, args[1]))))
    return obj


def reshape(I, st, v, r, c):
    # column major block stream; only whole-block regrouping is supported
    if not all(x == '1' for x in c) or not all(x == '1' for x in v.cols):
        if (r, c) == (v.rows, v.cols):
            return v
        raise Unsupported('reshape')
    blocks = [(v.rows[i], v.ent[i][j]) for j in range(len(v.cols)) for i in range(len(v.rows))]
    if len(blocks) != len(r) * len(c):
        if sum(1 for b in blocks if b[0] == 'N') != sum(1 for x in r if x == 'N') * len(c):
            I.shape_errors.append(('reshape', st.pc))
            raise interp().Dead()
        raise Unsupported('reshape')
    ent = [[None] * len(c) for _ in r]
    n = 0
    for j in range(len(c)):
        for i in range(len(r)):
            if blocks[n][0] != r[i]:
                raise Unsupported('reshape')
            ent[i][j] = blocks[n][1]
            n += 1
    return BM(r, c, ent)


@model('arma::vectorise')
def m_vectorise(I, st, obj, args, f, e):
    v = I.load(st, args[0])
    v = bm(I, st, v)
    if v.rows == () or v.cols == ():
        return BM((), ('1',), [])
    return reshape(I, st, v, v.rows * len(v.cols), ('1',))


@model('arma::join_cols', 'arma::join_vert')
def m_joinc(I, st, obj, args, f, e):
    vs = [bm(I, st, a) for a in args]
    vs = [v for v in vs if v.rows != ()]
    if not vs:
        return BM((), ('1',), [])
    return BM(sum((v.rows for v in vs), ()), vs[0].cols, [r for v in vs for r in v.ent])


def ew1(v, g):
    """elementwise function g: Poly -> Poly"""
    def blk(rd, cd, e):
        if rd == '1' and cd == '1':
            return g(e)
        k = atom('sym', '#e%d' % next(_fid), sort='I')
        if rd == 'N' and cd == '1':
            return lam(k, g(elem(e, P(k))))
        if rd == '1':
            return lam(k, g(elem(e.t(), P(k)))).t()
        raise Unsupported('elementwise matrix function')
    return BM(v.rows, v.cols, [[blk(v.rows[i], v.cols[j], v.ent[i][j]) for j in range(len(v.cols))] for i in range(len(v.rows))])


def ew2(I, st, a, b, g):
    if (a.rows, a.cols) != (b.rows, b.cols):
        I.shape_errors.append(('elementwise', st.pc))
        raise interp().Dead()

    def blk(rd, cd, x, y):
        if rd == '1' and cd == '1':
            return g(x, y)
        k = atom('sym', '#e%d' % next(_fid), sort='I')
        if rd == 'N' and cd == '1':
            return lam(k, g(elem(x, P(k)), elem(y, P(k))))
        if rd == '1':
            return lam(k, g(elem(x.t(), P(k)), elem(y.t(), P(k)))).t()
        raise Unsupported('elementwise matrix function')
    return BM(a.rows, a.cols, [[blk(a.rows[i], a.cols[j], a.ent[i][j], b.ent[i][j]) for j in range(len(a.cols))]
                               for i in range(len(a.rows))])


EW = {'abs': absv, 'square': lambda x: x * x, 'sqrt': sqrt, 'exp': lambda x: fn('exp', x)}


def m_ew(I, st, obj, args, f, e):
    v = I.load(st, args[0])
    if isinstance(v, Poly):
        return EW[f['n']](v)
    return ew1(bm(I, st, v), EW[f['n']])


for _n in EW:
    MODELS['arma::' + _n] = m_ew


@model('arma::accu', 'arma::sum')
def m_accu(I, st, obj, args, f, e):
    v = bm(I, st, args[0])
    if f['n'] == 'sum' and v.cols != ('1',) and v.rows != ('1',):
        raise Unsupported('sum of a matrix')
    t = ZERO
    for i, r in enumerate(v.rows):
        for j, c in enumerate(v.cols):
            x = v.ent[i][j]
            if r == '1' and c == '1':
                t = t + x
            elif c == '1':
                t = t + vsum(x)
            elif r == '1':
                t = t + vsum(x.t())
            else:
                raise Unsupported('sum of a matrix')
    return t


def vsum(l):
    k = atom('sym', '#u%d' % next(_fid), sort='I')
    return sumk(k, ZERO, NP, elem(l, P(k)))


def bigmax(k, lo, hi, body):
    """max over k in [lo,hi) of body (body >= 0); 0 if empty"""
    if not occurs(body, k):
        return body
    c = None
    if len(body.d) == 1:
        (m, c), = body.d.items()
        out = tuple((a, e) for a, e in m if not occurs(a, k))
        inn = tuple((a, e) for a, e in m if occurs(a, k))
        co = Poly({out: abs(c)})
        if c > 0 and (not out or z3if.obviously_nonneg(co)):
            # |a|^2 -> (max|a|)^2
            if len(inn) == 1 and inn[0][1] == 2:
                return co * bigmax(k, lo, hi, absv(P(inn[0][0]))) ** 2
            body = Poly({inn: Fr(1)})
            if len(inn) == 1 and inn[0][1] == 1 and inn[0][0].kind == 'abs':
                inner = inn[0][0].args[0]
                l2 = leading_elem_norm(inner)
                return co * absfac(l2) * P(atom('bigmax', P(lo), P(hi), bind(absv(inner * recip(l2)) if l2 != ONE else absv(inner), k)))
            return co * P(atom('bigmax', P(lo), P(hi), bind(body, k)))
    r = sqpoly(body)
    if r is not None:
        return bigmax(k, lo, hi, absv(r)) ** 2
    return P(atom('bigmax', P(lo), P(hi), bind(body, k)))


def leading_elem_norm(p):
    return ONE


def absfac(p):
    return ONE if p == ONE else absv(p)


def sqpoly(p):
    """q with q*q == p if p is the square of a linear form (two or three terms), else None"""
    if len(p.d) < 2 or len(p.d) > 10:
        return None
    sq = []
    for m, c in p.d.items():
        if c > 0 and all(e % 2 == 0 for a, e in m):
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                sq.append(Poly({tuple((a, e // 2) for a, e in m): Fr(n, d)}))
    if len(sq) < 2 or len(sq) > 4:
        return None
    for signs in itertools.product((1, -1), repeat=len(sq) - 1):
        q = sq[0]
        for s, x in zip(signs, sq[1:]):
            q = q + x * s
        if q * q == p:
            return q
    return None


@model('arma::norm')
def m_norm(I, st, obj, args, f, e):
    v = bm(I, st, args[0])
    kind = I.load(st, args[1]) if len(args) > 1 else P(2)
    if isinstance(kind, Str):
        if kind.lit() == 'inf':
            return norminf(I, st, v)
        raise Unsupported('norm kind')
    if isinstance(kind, Poly) and kind == P(2):
        w = v if v.cols == ('1',) else bmt(v)
        return sqrt(scalar_of(bmmul(bmt(w), w)))
    raise Unsupported('norm kind')


def norminf(I, st, v):
    if v.rows == ('1',) and v.cols != ('1',):
        v = bmt(v)
    if v.cols != ('1',):
        raise Unsupported('inf norm of a matrix')
    r = None
    for i, d in enumerate(v.rows):
        if d == '1':
            x = absv(v.ent[i][0])
        else:
            k = atom('sym', '#n%d' % next(_fid), sort='I')
            x = bigmax(k, ZERO, NP, absv(elem(v.ent[i][0], P(k))))
        r = x if r is None else maxv(r, x)
    return ZERO if r is None else r


@model('arma::max', 'arma::Mat::max', 'arma::Col::max', '*::max_elem')
def m_amax(I, st, obj, args, f, e):
    x = obj if obj is not None else args[0]
    v = I.load(st, x)
    if obj is None and len(args) == 2:
        w = I.load(st, args[1])
        if isinstance(v, BM) and isinstance(w, BM):
            return ew2(I, st, v, w, maxv)
        raise Unsupported('max')
    if isinstance(v, BM) and v.cols == ('1',):
        # only for nonnegative entries (abs)
        if v.rows == ('N',):
            k = atom('sym', '#n%d' % next(_fid), sort='I')
            b = elem(v.ent[0][0], P(k))
            if z3if.obviously_nonneg(b):
                return bigmax(k, ZERO, NP, b)
        elif all(d == '1' for d in v.rows):
            r = v.ent[0][0]
            for q in v.ent[1:]:
                r = maxv(r, q[0])
            return r
    raise Unsupported('max')


@model('arma::as_scalar')
def m_as_scalar(I, st, obj, args, f, e):
    v = I.load(st, args[0])
    return v if isinstance(v, Poly) else scalar_of(bm(I, st, v))


@model('arma::min')
def m_amin(I, st, obj, args, f, e):
    if obj is None and len(args) == 2:
        v, w = I.load(st, args[0]), I.load(st, args[1])
        if isinstance(v, BM) and isinstance(w, BM):
            return ew2(I, st, v, w, minv)
    raise Unsupported('min')


# operators
def scal_or_bm(I, st, x):
    v = I.load(st, x)
    return v


@model('arma::operator*')
def m_mul(I, st, obj, args, f, e):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    return mul(I, st, a, b)


def mul(I, st, a, b):
    a, b = undefnum(a), undefnum(b)
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a * b
    if isinstance(a, Poly):
        a, b = b, a
    if isinstance(b, Poly):
        if isinstance(a, Big):
            return Big(a.k * b, a.w, a.dims, a.vec)
        a = bm(I, st, a)
        return bmap(lambda e: bscale(e, b), a)
    if isinstance(a, Big) or isinstance(b, Big):
        if not isinstance(a, Big):
            a = bm(I, st, a)
            if not any(e.d for r in a.ent for e in r):
                raise Unsupported('product')
            a = Big(ONE, (('M', a),), a.rows)
        if isinstance(b, Big):
            if a.vec is not None:
                raise Unsupported('product')
            return maybe_vec(Big(a.k * b.k, a.w + b.w, a.dims, b.vec))
        b = bm(I, st, b)
        if b.rows != a.dims:
            I.shape_errors.append(('product', st.pc))
            raise interp().Dead()
        if b.cols == ('1',):
            return maybe_vec(Big(a.k, a.w, a.dims, b))
        return maybe_vec(Big(a.k, a.w + (('M', b),), a.dims))
    a, b = bm(I, st, a), bm(I, st, b)
    return guard(I, st, lambda: bmmul(a, b))


def undefnum(v):
    return fresh('undef') if isinstance(v, Undef) else v


def tobm(I, st, v):
    if isinstance(v, Big):
        r = big_norm(v)
        if isinstance(r, Big):
            raise Unsupported('factorised matrix used as a matrix')
        return r
    return bm(I, st, v)


def addsub(I, st, a, b, s):
    if isinstance(a, Poly) and isinstance(b, Poly):
        return a + b if s > 0 else a - b
    if isinstance(a, Poly) or isinstance(b, Poly):
        # scalar broadcast
        m, c = (b, a) if isinstance(a, Poly) else (a, b)
        m = tobm(I, st, m)
        ones = bmap(lambda e: bscale(e, c), bmones(m.rows, m.cols))
        if isinstance(a, Poly):
            return bmadd(ones, m, s)
        return bmadd(m, ones, s)
    a, b = tobm(I, st, a), tobm(I, st, b)
    return guard(I, st, lambda: bmadd(a, b, s))


@model('arma::operator+')
def m_add(I, st, obj, args, f, e):
    if len(args) == 1:
        return I.load(st, args[0])
    return addsub(I, st, I.load(st, args[0]), I.load(st, args[1]), 1)


@model('arma::operator-')
def m_sub(I, st, obj, args, f, e):
    a = I.load(st, args[0])
    if len(args) == 1:
        return mul(I, st, a, P(-1))
    return addsub(I, st, a, I.load(st, args[1]), -1)


@model('arma::operator/')
def m_div(I, st, obj, args, f, e):
    a, b = I.load(st, args[0]), undefnum(I.load(st, args[1]))
    if isinstance(b, Poly):
        return mul(I, st, a, recip(b))
    if isinstance(a, Poly):
        return ew1(bm(I, st, b), lambda y: a / y)
    return ew2(I, st, bm(I, st, a), bm(I, st, b), lambda x, y: x / y)


@model('arma::operator%')
def m_schur(I, st, obj, args, f, e):
    return ew2(I, st, bm(I, st, args[0]), bm(I, st, args[1]), lambda x, y: x * y)


def m_inplace(op):
    def g(I, st, obj, args, f, e):
        a = I.load(st, obj)
        b = undefnum(I.load(st, args[0]))
        if op in '+-':
            r = addsub(I, st, a, b, 1 if op == '+' else -1)
        elif op == '*':
            r = mul(I, st, a, b)
        elif op == '%':
            r = ew2(I, st, bm(I, st, a), bm(I, st, b), lambda x, y: x * y)
        else:
            if isinstance(b, Poly):
                r = mul(I, st, a, recip(b))
            else:
                r = ew2(I, st, bm(I, st, a), bm(I, st, b), lambda x, y: x / y)
        I.store(st, obj, r)
        return obj
    return g


for _c in ('Mat', 'Col', 'Row', 'subview', 'subview_col', 'subview_row'):
    for _o in '+-*/%':
        MODELS['arma::%s::operator%s=' % (_c, _o)] = m_inplace(_o)


@model('arma::Mat::operator=', 'arma::Col::operator=', 'arma::Row::operator=', 'arma::subview::operator=', 'arma::subview_col::operator=',
       'arma::subview_row::operator=')
def m_assign(I, st, obj, args, f, e):
    v = I.load(st, args[0])
    c = f['q'].split('<')[0].split('::')[1]
    if isinstance(v, Undef):
        raise Unsupported('undefined matrix')
    if c.startswith('subview'):
        cur = I.load(st, obj)
        if isinstance(v, Poly):
            v = bmap(lambda e: bscale(e, v), bmones(cur.rows, cur.cols))
        if isinstance(v, Seq):
            v = from_list(I, st, v, 'arma::Col')
    elif isinstance(v, (Seq, Arr)):
        v = from_list(I, st, v, 'arma::' + c)
    elif isinstance(v, Poly):
        v = svec([v]) if True else v
    if isinstance(v, Big) and v.vec is not None:
        pass
    elif not isinstance(v, Big):
        v = convert(I, st, v, 'arma::' + c) if not c.startswith('subview') else v
    I.store(st, obj, v)
    return obj


@model('arma::Mat::begin', 'arma::Col::begin', 'arma::Mat::end', 'arma::Col::end')
def m_matit(I, st, obj, args, f, e):
    v = I.load(st, obj)
    if v.cols == ('1',):
        return It(obj, ZERO if f['n'] == 'begin' else v.nr(), 'vec')
    raise Unsupported('matrix iterator')


@model('arma::Mat::swap')
def m_matswap(I, st, obj, args, f, e):
    a, b = I.load(st, obj), I.load(st, args[0])
    I.store(st, obj, b)
    I.store(st, args[0], a)
    return UNDEF


# ------------------------------------------------------------- scalar maths
def unary(name, fnc):
    def g(I, st, obj, args, f, e):
        v = I.load(st, args[0])
        if isinstance(v, BM) and not isscalar_bm(v):
            return ew1(v, fnc)
        return fnc(I.asnum(v))
    for n in (name, 'std::' + name):
        MODELS[n] = g


unary('fabs', absv)
unary('sqrt', sqrt)
unary('exp', lambda x: expf(x))
unary('sin', lambda x: trig('sin', x))
unary('cos', lambda x: trig('cos', x))
unary('log', lambda x: fn('log', x))
unary('floor', lambda x: x if x.isint() else fn('floor', x, sort='I'))
unary('ceil', lambda x: x if x.isint() else fn('ceil', x, sort='I'))


def m_abs(I, st, obj, args, f, e):
    v = I.load(st, args[0])
    if isinstance(v, BM) and not isscalar_bm(v):
        return ew1(v, absv)
    return absv(I.asnum(v))


MODELS['abs'] = MODELS['std::abs'] = m_abs
MODELS['arma::abs'] = m_abs


def expf(x):
    if not x.d:
        return ONE
    return fn('exp', x)


def trig(n, x):
    if not x.d:
        return ZERO if n == 'sin' else ONE
    if leading(x) < 0:
        return -trig(n, -x) if n == 'sin' else trig(n, -x)
    return fn(n, x)


@model('pow', 'std::pow')
def m_pow(I, st, obj, args, f, e):
    return powv(I.num2(st, args[0]), I.num2(st, args[1]))


@model('std::max', 'fmax', 'std::fmax')
def m_max(I, st, obj, args, f, e):
    return maxv(I.num2(st, args[0]), I.num2(st, args[1]))


@model('std::min', 'fmin', 'std::fmin')
def m_min(I, st, obj, args, f, e):
    return minv(I.num2(st, args[0]), I.num2(st, args[1]))


@model('std::isfinite', 'isfinite', '__builtin_isfinite')
def m_isfinite(I, st, obj, args, f, e):
    I.num2(st, args[0])
    # exact reals are finite, but overflow in doubles is possible: both outcomes
    return bsym('isfinite!%d' % next(_fid))


@model('std::isnan', 'isnan', 'std::isinf', 'isinf')
def m_isnan(I, st, obj, args, f, e):
    return bsym('isnan!%d' % next(_fid))


@model('std::move', 'std::forward')
def m_move(I, st, obj, args, f, e):
    return args[0]


@model('std::swap')
def m_swap(I, st, obj, args, f, e):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    I.store(st, args[0], b)
    I.store(st, args[1], a)
    return UNDEF


@model('std::accumulate')
def m_accumulate(I, st, obj, args, f, e):
    a, b = I.load(st, args[0]), I.load(st, args[1])
    v = seq_range(I, st, a, b)
    r = I.num2(st, args[2])
    for c in v.ch:
        if c[0] == 'e':
            r = r + I.asnum(c[1])
        elif c[0] == 'm':
            r = r + sum((sumk(c[3], c[1], c[2], x) for x in c[4]), ZERO)
        elif c[0] == 's':
            k = atom('sym', '#a%d' % next(_fid), sort='I')
            r = r + sumk(k, c[2], c[3], opaque_elem(v.et, c[1], P(k)))
        else:
            raise Unsupported('accumulate')
    if v.pre is not None:
        k = atom('sym', '#a%d' % next(_fid), sort='I')
        r = r + sumk(k, ZERO, v.plen, opaque_elem(v.et, v.pre, P(k)))
    return r


@model('std::count')
def m_count(I, st, obj, args, f, e):
    a, b, x = [I.load(st, y) for y in args]
    x = I.num2(st, x)
    v = seq_range(I, st, a, b)

    def one(y):
        return b2p(Eq(I.asnum(y), x))
    r = ZERO
    for c in v.ch:
        if c[0] == 'e':
            r = r + one(c[1])
        elif c[0] == 'm':
            r = r + sum((sumk(c[3], c[1], c[2], one(y)) for y in c[4]), ZERO)
        elif c[0] == 's':
            k = atom('sym', '#a%d' % next(_fid), sort='I')
            r = r + sumk(k, c[2], c[3], one(opaque_elem(v.et, c[1], P(k))))
        else:
            raise Unsupported('count')
    if v.pre is not None:
        k = atom('sym', '#a%d' % next(_fid), sort='I')
        r = r + sumk(k, ZERO, v.plen, one(opaque_elem(v.et, v.pre, P(k))))
    return r


@model('std::fill')
def m_stdfill(I, st, obj, args, f, e):
    a, b, x = [I.load(st, y) for y in args]
    v = seq_range(I, st, a, b)
    d = I.load(st, a.lv)
    if isinstance(d, Seq) and a.idx == ZERO and b.idx == d.length():
        I.store(st, a.lv, seq_n(I, st, v.length(), x, d.et))
        return UNDEF
    raise Unsupported('fill')


@model('std::back_inserter')
def m_back(I, st, obj, args, f, e):
    return It(args[0], ZERO, 'back')


@model('hypot', 'std::hypot')
def m_hypot(I, st, obj, args, f, e):
    a, b = [I.num2(st, x) for x in args]
    return sqrt(a * a + b * b)


@model('std::copy')
def m_copy(I, st, obj, args, f, e):
    a, b, o = [I.load(st, x) for x in args]
    v = seq_range(I, st, a, b)
    d = I.load(st, o.lv)
    n = v.length()
    if o.kind == 'back':
        I.store(st, o.lv, seq_append(d, v))
        return o
    if o.idx == ZERO and isinstance(d, Seq):
        if z3if.valid(st.pc, Eq(n, d.length()), 1500):
            I.store(st, o.lv, Seq(v.ch, v.pre, v.plen, d.et))
            return It(o.lv, n, 'seq')
        c = I.cond(st, Le(n, d.length()))
        if c is False:
            oob(I, st, 'copy past the end of the destination')
        if not c:
            I.bounds_unproved.append(('copy of %s elements into %s' % (n, d.length()), st.pc, Le(n, d.length())))
    raise Unsupported('copy')


# --------------------------------------------------------------- vectors
@model('std::vector::push_back', 'std::vector::emplace_back')
def m_push(I, st, obj, args, f, e):
    v = I.load(st, obj)
    x = I.load(st, args[0])
    if isinstance(x, Undef):
        x = I.undef_value(st, {'t': v.et or 'double'})
    s = interp().strip(v.et)
    if isinstance(x, BM) and s == 'arma::Col':
        x = convert(I, st, x, 'arma::Col')
    if isinstance(x, Seq) and not x.et:
        x = Seq(x.ch, x.pre, x.plen, interp().targs_of(v.et)[0] if '<' in v.et else '')
    I.store(st, obj, v.push(x))
    return UNDEF


@model('std::vector::pop_back')
def m_pop(I, st, obj, args, f, e):
    v = I.load(st, obj)
    if v.ch and v.ch[-1][0] == 'e':
        I.store(st, obj, v.with_ch(v.ch[:-1]))
        return UNDEF
    raise Unsupported('pop_back')


@model('std::vector::size', 'std::map::size')
def m_vsize(I, st, obj, args, f, e):
    v = I.load(st, obj)
    if isinstance(v, MapV):
        return P(len(v.items))
    return v.length()


@model('std::vector::empty', 'std::map::empty')
def m_vempty(I, st, obj, args, f, e):
    v = I.load(st, obj)
    if isinstance(v, MapV):
        return TRUE if not v.items else FALSE
    return Eq(v.length(), 0)


@model('std::vector::operator[]', 'std::vector::at', 'std::array::operator[]')
def m_vidx(I, st, obj, args, f, e):
    i = I.num2(st, args[0])
    if isinstance(obj, LV):
        v = I.load(st, obj)
        if isinstance(v, Seq) and not i.is_const():
            pass
        return obj.sub('i', i)
    return seq_get(I, st, I.load(st, obj), i)


@model('std::vector::front', 'std::vector::back')
def m_front(I, st, obj, args, f, e):
    v = I.load(st, obj)
    i = ZERO if f['n'] == 'front' else v.length() - 1
    return obj.sub('i', i) if isinstance(obj, LV) else seq_get(I, st, v, i)


@model('std::vector::clear')
def m_vclear(I, st, obj, args, f, e):
    I.store(st, obj, Seq(et=I.load(st, obj).et))
    return UNDEF


@model('std::vector::reserve', 'std::vector::shrink_to_fit')
def m_reserve(I, st, obj, args, f, e):
    return UNDEF


@model('std::vector::assign')
def m_vassign(I, st, obj, args, f, e):
    v = I.load(st, obj)
    a = [I.load(st, x) for x in args]
    if isinstance(a[0], It):
        r = seq_range(I, st, a[0], a[1])
        I.store(st, obj, Seq(r.ch, r.pre, r.plen, v.et))
    elif isinstance(a[0], Poly):
        I.store(st, obj, seq_n(I, st, a[0], a[1], v.et))
    else:
        I.store(st, obj, Seq(a[0].ch, a[0].pre, a[0].plen, v.et))
    return UNDEF


@model('std::vector::resize')
def m_vresize(I, st, obj, args, f, e):
    v = I.load(st, obj)
    n = I.num2(st, args[0])
    val = I.load(st, args[1]) if len(args) > 1 else I.value_init(st, v.et)
    l = v.length()
    if n == l:
        return UNDEF
    if v.explicit() and n.is_const():
        c = int(n.const())
        vs = v.vals()[:c]
        vs += [val] * (c - len(vs))
        I.store(st, obj, Seq([('e', x) for x in vs], et=v.et))
        return UNDEF
    if l == ZERO:
        I.store(st, obj, seq_n(I, st, n, val, v.et))
        return UNDEF
    if z3if.valid(st.pc, Eq(n, l), 1000):
        return UNDEF
    # general case: contents beyond are value-initialised, prefix kept; content abstracted
    I.store(st, obj, Seq((), atom('resized', Hold((v.pre, v.plen, v.ch)), n), n, v.et))
    return UNDEF


@model('std::vector::begin', 'std::vector::cbegin', 'std::map::begin', 'std::map::cbegin')
def m_begin(I, st, obj, args, f, e):
    v = I.load(st, obj)
    if not isinstance(obj, LV):
        obj = st.alloc('tmp', v)
    return It(obj, ZERO, 'map' if isinstance(v, MapV) else 'seq')


@model('std::vector::end', 'std::vector::cend', 'std::map::end', 'std::map::cend')
def m_end(I, st, obj, args, f, e):
    v = I.load(st, obj)
    if not isinstance(obj, LV):
        obj = st.alloc('tmp', v)
    if isinstance(v, MapV):
        return It(obj, P(len(v.items)), 'map')
    return It(obj, v.length(), 'seq')


@model('std::begin', 'std::end', 'std::cbegin', 'std::cend')
def m_fbegin(I, st, obj, args, f, e):
    return (m_begin if 'begin' in f['n'] else m_end)(I, st, args[0], [], f, e)


@model('std::vector::insert')
def m_insert(I, st, obj, args, f, e):
    v = I.load(st, obj)
    a = [I.load(st, x) for x in args]
    pos = a[0]
    if len(a) == 3 and isinstance(a[1], It):
        add = seq_range(I, st, a[1], a[2])
    elif len(a) == 2 and isinstance(a[1], Seq) and not v.et.startswith('std::vector'):
        add = a[1]
    elif len(a) == 2:
        add = Seq([('e', a[1])])
    elif len(a) == 3 and isinstance(a[1], Poly):
        add = seq_n(I, st, a[1], a[2], v.et)
    else:
        raise Unsupported('insert')
    if pos.idx == v.length():
        I.store(st, obj, seq_append(v, add))
    elif pos.idx == ZERO:
        I.store(st, obj, seq_append(add, v))
    elif v.explicit() and pos.idx.is_const() and add.pre is None:
        i = int(pos.idx.const())
        I.store(st, obj, v.with_ch(v.ch[:i] + add.ch + v.ch[i:]))
    else:
        raise Unsupported('insert in the middle')
    return pos


@model('std::vector::erase')
def m_erase(I, st, obj, args, f, e):
    v = I.load(st, obj)
    a = [I.load(st, x) for x in args]
    if v.explicit() and all(x.idx.is_const() for x in a):
        i = int(a[0].idx.const())
        j = int(a[1].idx.const()) if len(a) > 1 else i + 1
        I.store(st, obj, v.with_ch(v.ch[:i] + v.ch[j:]))
        return a[0]
    raise Unsupported('erase')


@model('std::vector::operator=')
def m_vop(I, st, obj, args, f, e):
    v = I.load(st, args[0])
    cur = I.load(st, obj)
    et = cur.et if isinstance(cur, Seq) else ''
    v = arr2seq(I, st, v, et)
    I.store(st, obj, Seq(v.ch, v.pre, v.plen, et or v.et))
    return obj


@model('std::vector::swap')
def m_vswap(I, st, obj, args, f, e):
    a, b = I.load(st, obj), I.load(st, args[0])
    I.store(st, obj, b)
    I.store(st, args[0], a)
    return UNDEF


@model('std::vector::data')
def m_data(I, st, obj, args, f, e):
    return Ptr(obj.sub('i', ZERO))


# iterators
def it_deref(I, st, v):
    return v.lv.sub('i', v.idx)


def it_add(I, st, v, k):
    return It(v.lv, v.idx + k, v.kind)


def it_binop(I, st, op, a, b):
    if isinstance(a, It) and isinstance(b, It):
        if a.lv != b.lv:
            raise Unsupported('iterators into different containers')
        d = {'==': Eq, '<': Lt, '<=': Le, '>': Gt, '>=': Ge}
        if op == '!=':
            return Not(Eq(a.idx, b.idx))
        if op in d:
            return d[op](a.idx, b.idx)
        if op == '-':
            return a.idx - b.idx
    if isinstance(a, It) and op in ('+', '-'):
        b = I.asnum(b)
        return It(a.lv, a.idx + b if op == '+' else a.idx - b, a.kind)
    raise Unsupported('iterator operation')


for _c in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
    def _star(I, st, obj, args, f, e):
        return it_deref(I, st, I.load(st, obj))

    def _arrow(I, st, obj, args, f, e):
        return Ptr(it_deref(I, st, I.load(st, obj)))

    def _inc(d):
        def g(I, st, obj, args, f, e):
            v = I.load(st, obj)
            I.store(st, obj, it_add(I, st, v, P(d)))
            return v if args else obj
        return g

    def _plus(s):
        def g(I, st, obj, args, f, e):
            v = I.load(st, obj)
            k = I.load(st, args[0])
            if isinstance(k, It):
                return v.idx - k.idx
            return it_add(I, st, v, k * s)
        return g

    def _pluseq(s):
        def g(I, st, obj, args, f, e):
            v = I.load(st, obj)
            I.store(st, obj, it_add(I, st, v, I.num2(st, args[0]) * s))
            return obj
        return g

    def _itidx(I, st, obj, args, f, e):
        return it_deref(I, st, it_add(I, st, I.load(st, obj), I.num2(st, args[0])))
    MODELS[_c + '::operator*'] = _star
    MODELS[_c + '::operator->'] = _arrow
    MODELS[_c + '::operator++'] = _inc(1)
    MODELS[_c + '::operator--'] = _inc(-1)
    MODELS[_c + '::operator+'] = _plus(1)
    MODELS[_c + '::operator-'] = _plus(-1)
    MODELS[_c + '::operator+='] = _pluseq(1)
    MODELS[_c + '::operator-='] = _pluseq(-1)
    MODELS[_c + '::operator[]'] = _itidx


def eqv(I, st, a, b):
    if isinstance(a, It) and isinstance(b, It):
        return it_binop(I, st, '==', a, b)
    if isinstance(a, Str) and isinstance(b, Str):
        if a.lit() is not None and b.lit() is not None:
            return TRUE if a.lit() == b.lit() else FALSE
        if a == b:
            return TRUE
        return bsym('streq:%s:%s' % tuple(sorted((repr(a), repr(b)))))
    if isinstance(a, Poly) and isinstance(b, Poly):
        return Eq(a, b)
    if isinstance(a, B) or isinstance(b, B):
        return Eq(I.asnum(a), I.asnum(b))
    raise Unsupported('comparison of %r and %r' % (a, b))


@model('std::operator==', '__gnu_cxx::operator==')
def m_eq(I, st, obj, args, f, e):
    return eqv(I, st, I.load(st, args[0]), I.load(st, args[1]))


@model('std::operator!=', '__gnu_cxx::operator!=')
def m_ne(I, st, obj, args, f, e):
    return Not(eqv(I, st, I.load(st, args[0]), I.load(st, args[1])))


@model('__gnu_cxx::operator-', '__gnu_cxx::operator<')
def m_itop(I, st, obj, args, f, e):
    return it_binop(I, st, f['n'][len('operator'):], I.load(st, args[0]), I.load(st, args[1]))


# maps
@model('std::map::find', 'std::map::count', 'std::map::at', 'std::map::operator[]')
def m_find(I, st, obj, args, f, e):
    v = I.load(st, obj)
    k = I.load(st, args[0])
    n = f['n']
    for i, (kk, vv) in enumerate(v.items):
        if I.decide(st, eqv(I, st, k, kk)):
            if n == 'find':
                return It(obj, P(i), 'map')
            if n == 'count':
                return ONE
            return obj.sub('i', P(i)).sub('f', 'second')
    if n == 'find':
        return It(obj, P(len(v.items)), 'map')
    if n == 'count':
        return ZERO
    if n == 'at':
        raise interp().CppThrow(Opq('std::out_of_range'))
    # operator[] inserts
    new = MapV(v.items + ((k, I.value_init(st, v.vt)),), v.kt, v.vt)
    I.store(st, obj, new)
    return obj.sub('i', P(len(v.items))).sub('f', 'second')


# strings
@model('std::basic_string::c_str', 'std::basic_string::data')
def m_cstr(I, st, obj, args, f, e):
    return I.load(st, obj)


@model('std::basic_string::empty')
def m_sempty(I, st, obj, args, f, e):
    v = I.load(st, obj)
    if any(isinstance(x, str) for x in v.p):
        return FALSE
    return Eq(v.length(), 0)


@model('std::basic_string::length', 'std::basic_string::size')
def m_slen(I, st, obj, args, f, e):
    return I.load(st, obj).length()


@model('std::basic_string::append', 'std::basic_string::operator+=')
def m_sapp(I, st, obj, args, f, e):
    a = [I.load(st, x) for x in args]
    s = a[0]
    if len(a) == 2 and isinstance(a[0], Poly):
        s = rep(a[0], a[1])
    elif isinstance(s, Poly):
        s = rep(ONE, s)
    I.store(st, obj, I.load(st, obj) + s)
    return obj


def rep(n, c):
    if c.is_const():
        return Str([('rep', n, chr(int(c.const())))])
    return Str([('repc', n, c)])


@model('std::basic_string::operator=')
def m_sassign(I, st, obj, args, f, e):
    I.store(st, obj, I.load(st, args[0]))
    return obj


@model('std::operator+')
def m_splus(I, st, obj, args, f, e):
    return I.load(st, args[0]) + I.load(st, args[1])


@model('std::to_string')
def m_tostr(I, st, obj, args, f, e):
    return Str([('fmt', I.load(st, args[0]))])


@model('std::basic_string::compare', 'strcmp', 'std::strcmp')
def m_compare(I, st, obj, args, f, e):
    a = I.load(st, obj if obj is not None else args[0])
    b = I.load(st, args[-1])
    return ite(eqv(I, st, a, b), ZERO, ONE)


# streams
def stream_put(I, st, s, v):
    """s << v"""
    lv = s
    v = I.load(st, v) if not isinstance(v, FnV) else v
    x = I.load(st, lv)
    if isinstance(x, Ptr):
        raise Unsupported('stream')
    if not isinstance(x, Stream):
        raise Unsupported('stream expected: %r' % (x,))
    if x.name is not None:
        if 'g:printed' in st.heap:
            st.heap['g:printed'] = TRUE
        if x.name in I.capture:
            cur = st.heap.get('g:text:' + x.name, Seq())
            st.heap['g:text:' + x.name] = cur.push(v)
        return lv
    if isinstance(v, Undef):
        v = Opq('undef')
    I.store(st, lv, Stream(None, x.seq.push(v)))
    return lv


@model('std::basic_ostream::operator<<')
def m_ostream(I, st, obj, args, f, e):
    return stream_put(I, st, obj, args[0])


@model('std::operator<<', 'arma::operator<<', 'operator<<')
def m_ostream2(I, st, obj, args, f, e):
    return stream_put(I, st, args[0], args[1])


@model('std::basic_ostream::put', 'std::basic_ostream::write', 'std::basic_ostream::flush')
def m_put(I, st, obj, args, f, e):
    return stream_put(I, st, obj, args[0]) if args else obj


@model('std::endl', 'std::flush')
def m_endl(I, st, obj, args, f, e):
    return stream_put(I, st, args[0], Str('\n' if f['n'] == 'endl' else ''))


@model('std::setw', 'std::setprecision', 'std::setfill')
def m_manip(I, st, obj, args, f, e):
    return Opq(f['n'], I.load(st, args[0]))


@model('std::basic_stringstream::str', 'std::basic_ostringstream::str')
def m_str(I, st, obj, args, f, e):
    v = I.load(st, obj)
    s = v.seq
    if s.explicit():
        vs = s.vals()
        if all(isinstance(x, Str) for x in vs):
            r = Str('')
            for x in vs:
                r = r + x
            return r
        return Str([('fmt', tuple(Hold2(x) for x in vs))])
    raise Unsupported('text of a symbolic stream')


Hold2 = Hold


# clock
@model('gettimeofday')
def m_tod(I, st, obj, args, f, e):
    p = I.load(st, args[0])
    n = next(_fid)
    s, u = sym('tod_s!%d' % n, 'I'), sym('tod_u!%d' % n, 'I')
    I.store(st, p.lv, Struct('timeval', {'tv_sec': s, 'tv_usec': u}))
    return ZERO


# the user's functor
def lin_arg(I, st, x):
    v = bm(I, st, x)
    if v.rows == ('N',) and v.cols == ('1',):
        return v.ent[0][0]
    if v.cols == ('1',):
        I.shape_errors.append(('functor argument of size %s' % v.nr(), st.pc))
        raise interp().Dead()
    raise Unsupported('functor argument')


def bump(st, g):
    if g in st.heap:
        st.heap[g] = st.heap[g] + 1


@model('vp_ode::fun')
def m_fun(I, st, obj, args, f, e):
    bump(st, 'g:nfun')
    t = I.num2(st, args[0])
    y = lin_arg(I, st, args[1])
    return vec(app('f', t, y))


@model('vp_ode::jac')
def m_jac(I, st, obj, args, f, e):
    bump(st, 'g:njac')
    t = I.num2(st, args[0])
    y = lin_arg(I, st, args[1])
    return BM(('N',), ('N',), [[mapp('f', t, y)]])


@model('vp_sys::fun')
def m_sfun(I, st, obj, args, f, e):
    bump(st, 'g:nfun')
    return vec(app('F', ZERO, lin_arg(I, st, args[0])))


@model('vp_sys::jac')
def m_sjac(I, st, obj, args, f, e):
    bump(st, 'g:njac')
    return BM(('N',), ('N',), [[mapp('F', ZERO, lin_arg(I, st, args[0]))]])


@model('vp_elem::operator=')
def m_elemassign(I, st, obj, args, f, e):
    I.store(st, obj, I.load(st, args[0]))
    return obj


def bits_above(m):
    """the few cleared bits of an all-ones mask"""
    for w in (8, 16, 32, 64):
        c = ((1 << w) - 1) ^ m if m >= 0 else ~m
        if 0 <= c < 256:
            return c
    return None


def maskbits(p, m):
    """p & m for a small constant mask and p >= 0"""
    if m < 0 or m.bit_length() > 16 or bin(m).count('1') > 4:
        return None
    r = ZERO
    for j in range(m.bit_length()):
        if not m >> j & 1:
            continue
        w = 1 << (j + 1)
        q = Poly({mm: (c if mm else Fr(int(c) % w)) for mm, c in p.d.items()
                  if not (c.denominator == 1 and int(c) % w == 0)})
        if q.is_const():
            r = r + (int(q.const()) & (1 << j))
        else:
            r = r + (mod(q, P(w)) if j == 0 else floordiv(mod(q, P(w)), P(1 << j)) * (1 << j))
    return r


def bitop(I, st, op, a, b, t):
    if a.is_const() and b.is_const():
        x, y = int(a.const()), int(b.const())
        return P(x & y if op == '&' else x | y if op == '|' else x ^ y)
    if op == '|' and a == ZERO:
        return b
    if op == '|' and b == ZERO:
        return a
    if a.is_const():
        a, b = b, a
    if b.is_const() and a.isint() and not a.is_const() and b.const().denominator == 1:
        m = int(b.const())
        if op == '&':
            r = maskbits(a, m)
            if r is not None:
                return r
            w = bits_above(m)
            r = maskbits(a, w) if w is not None else None
            if r is not None:
                return a - r
        r = maskbits(a, m) if m >= 0 else None
        if r is not None:
            return a + m - r if op == '|' else a + m - 2 * r if op == '^' else r
    x, y = (a, b) if str_key(a) <= str_key(b) else (b, a)
    return P(atom({'&': 'band', '|': 'bor', '^': 'bxor'}[op], x, y, sort='I'))


# ----------------------------------------------------------- range-for
def range_for(I, s, st):
    import loops
    var = s['var']
    x0 = st

    def go(x):
        r = I.ev(x, s['range'])
        if not isinstance(r, LV):
            r = x.alloc('range', r)
        return r
    outs = []
    for k, x, lv in I.run(st, go):
        if k == 't':
            outs.append((k, x, lv))
            continue
        v = I.load(x, lv)
        if isinstance(v, Seq):
            n = v.length()
        elif isinstance(v, Arr):
            n = P(len(v.v))
        elif isinstance(v, MapV):
            n = P(len(v.items))
        elif isinstance(v, BM) and v.cols == ('1',):
            n = v.nr()
        else:
            raise Unsupported('range-for over %r' % (type(v).__name__,))
        ctr = x.alloc('range_index', ZERO)
        isref = var['t'].rstrip().endswith('&')

        def bodyf(y, lv=lv, ctr=ctr):
            y = y.copy()
            i = I.load(y, ctr)

            def bindv(z):
                el = lv.sub('i', i)
                env = dict(z.env)
                if isref:
                    env[var['id']] = el
                else:
                    env[var['id']] = z.alloc(var['n'], I.load(z, el))
                z.env = env
            res = []
            for k2, z, _ in I.run(y, bindv):
                if k2 == 't':
                    res.append((k2, z, _))
                else:
                    res.extend(I.exec(s['b'], z))
            return I.scope(res, y)

        def incf(y, ctr=ctr):
            I.store(y, ctr, I.load(y, ctr) + 1)

        def condf(y, lv=lv, ctr=ctr, n=n):
            return Lt(I.load(y, ctr), n)
        outs.extend(loops.loop(I, s, x, condf, bodyf, incf))
    return I.merge_outs(I.scope(outs, x0))
