"""Run-time values of the symbolic executor (all immutable by convention)."""
from terms import *


class Unsupported(Exception):
    """a construct outside the verifier's reach"""


class Undef:
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag

    def __repr__(self):
        return 'undef'

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return 7


UNDEF = Undef()


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def __eq__(self, o):
        return isinstance(o, Struct) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        return hash((self.cls, tuple(sorted((k, hash(v)) for k, v in self.f.items()))))

    def __repr__(self):
        return '%s%r' % (self.cls, self.f)

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Struct(self.cls, f)


def chunk_len(c):
    if c[0] == 'e':
        return ONE
    if c[0] == 's':
        return c[3] - c[2]
    if c[0] == 'f':
        return sumk(c[3], c[1], c[2], Seq(c[4]).length())
    return (c[2] - c[1]) * len(c[4])


def canon(v, depth=0):
    """rename the bound indices of comprehensions by nesting depth"""
    if isinstance(v, Struct):
        return Struct(v.cls, {k: canon(x, depth) for k, x in v.f.items()})
    if isinstance(v, Arr):
        return Arr([canon(x, depth) for x in v.v])
    if not isinstance(v, Seq):
        return v
    ch = []
    for c in v.ch:
        if c[0] == 'e':
            ch.append(('e', canon(c[1], depth)))
        elif c[0] == 's':
            if c[2] == c[3]:
                continue
            ch.append(c)
        else:
            b = atom('sym', '#c%d' % depth, sort='I')
            mp = {c[3]: P(b)}
            if c[0] == 'm':
                ch.append(('m', c[1], c[2], b, tuple(canon(vsubst(x, mp), depth + 1) for x in c[4])))
            else:
                ch.append(('f', c[1], c[2], b, canon(vsubst(Seq(c[4]), mp), depth + 1).ch))
    if v.pre is not None and v.plen == ZERO:
        return Seq(ch)
    if v.pre is not None:
        # a whole opaque prefix and the same sequence as a slice are equal
        ch = [('s', v.pre, ZERO, v.plen)] + ch
    return Seq(ch)


class Seq:
    """sequence: optional opaque prefix (of symbolic length) then chunks.
    chunk: ('e', value) or ('m', lo, hi, atom, (values...)) meaning the values
    for atom = lo..hi-1 in order"""
    __slots__ = ('pre', 'plen', 'ch', 'et')

    def __init__(self, ch=(), pre=None, plen=ZERO, et=''):
        self.ch = tuple(ch)
        self.pre = pre
        self.plen = plen
        self.et = et

    def key(self):
        return (self.pre, self.plen, self.ch)

    def __eq__(self, o):
        return isinstance(o, Seq) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return 'Seq(%s%s)' % ((str(self.pre) + '.. ') if self.pre else '', list(self.ch))

    def length(self):
        n = self.plen
        for c in self.ch:
            n = n + chunk_len(c)
        return n

    def explicit(self):
        return self.pre is None and all(c[0] == 'e' for c in self.ch)

    def vals(self):
        return [c[1] for c in self.ch]

    def with_ch(self, ch):
        return Seq(ch, self.pre, self.plen, self.et)

    def push(self, v):
        return self.with_ch(self.ch + (('e', v),))

    def tailn(self):
        """number of explicit elements at the end"""
        n = 0
        for c in reversed(self.ch):
            if c[0] != 'e':
                break
            n += 1
        return n


class Arr:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'Arr%r' % (list(self.v),)

    def vals(self):
        return list(self.v)


class LV:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __eq__(self, o):
        return isinstance(o, LV) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return '&%s%s' % (self.cell, ''.join('.%s' % (p[1:],) for p in self.path))

    def sub(self, *step):
        return LV(self.cell, self.path + (tuple(step),))


class Ptr:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv

    def __hash__(self):
        return hash(('ptr', self.lv))

    def __repr__(self):
        return 'Ptr(%s)' % (self.lv,)


NULL = Ptr(None)


class FnV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, FnV) and self.f['id'] == o.f['id']

    def __hash__(self):
        return hash(self.f['id'])

    def __repr__(self):
        return 'fn:' + self.f['q']


class Clo:
    __slots__ = ('e', 'caps')

    def __init__(self, e, caps):
        self.e = e
        self.caps = caps      # id -> LV (by ref) or ('v', value)

    def __eq__(self, o):
        return isinstance(o, Clo) and self.e is o.e and self.caps == o.caps

    def __hash__(self):
        return hash(id(self.e))

    def __repr__(self):
        return 'closure'


class Str:
    """string: tuple of pieces; literal python str, ('rep', n, c), ('fmt', key)"""
    __slots__ = ('p',)

    def __init__(self, p):
        out = []
        for x in ([p] if isinstance(p, str) else p):
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            elif x[0] == 'rep' and x[1].is_const():
                n = int(x[1].const())
                s = x[2] * max(n, 0)
                if out and isinstance(out[-1], str):
                    out[-1] += s
                elif s:
                    out.append(s)
                continue
            out.append(x)
        self.p = tuple(out)

    def lit(self):
        if not self.p:
            return ''
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None

    def __add__(self, o):
        return Str(self.p + o.p)

    def length(self):
        n = ZERO
        for x in self.p:
            if isinstance(x, str):
                n = n + len(x)
            elif x[0] == 'rep':
                n = n + x[1]
            else:
                n = n + P(atom('len', x, sort='I'))
        return n

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Str%r' % (self.p,)


class MapV:
    __slots__ = ('items', 'kt', 'vt')

    def __init__(self, items, kt, vt):
        self.items = tuple(items)
        self.kt = kt
        self.vt = vt

    def __eq__(self, o):
        return isinstance(o, MapV) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return 'Map%r' % (self.items,)


class It:
    """iterator into container at lv; idx Poly (map: int position)"""
    __slots__ = ('lv', 'idx', 'kind')

    def __init__(self, lv, idx, kind):
        self.lv = lv
        self.idx = idx
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, It) and (self.lv, self.idx, self.kind) == (o.lv, o.idx, o.kind)

    def __hash__(self):
        return hash((self.lv, self.idx))

    def __repr__(self):
        return 'It(%s,%s)' % (self.lv, self.idx)


class Stream:
    """output stream: name for std streams (writes only logged), or Seq of pieces"""
    __slots__ = ('name', 'seq')

    def __init__(self, name, seq=None):
        self.name = name
        self.seq = seq if seq is not None else Seq()

    def __eq__(self, o):
        return isinstance(o, Stream) and self.name == o.name and self.seq == o.seq

    def __hash__(self):
        return hash((self.name, self.seq))

    def __repr__(self):
        return 'Stream(%s,%s)' % (self.name, self.seq)


class Opq:
    """opaque value (element of a generic type, manipulators, exceptions ...)"""
    __slots__ = ('tag', 'args')

    def __init__(self, tag, *args):
        self.tag = tag
        self.args = args

    def __eq__(self, o):
        return isinstance(o, Opq) and self.tag == o.tag and self.args == o.args

    def __hash__(self):
        return hash((self.tag, self.args))

    def __repr__(self):
        return '%s%s' % (self.tag, list(self.args) if self.args else '')


class Big:
    """NN x NN matrix expression: coefficient times a word of big letters;
    letters: ('M', BM) ('inv', letter) ('L'|'U'|'P', BM) ('tr', ...)"""
    __slots__ = ('k', 'w', 'dims')

    def __init__(self, k, w, dims):
        self.k = k
        self.w = tuple(w)
        self.dims = dims

    def __eq__(self, o):
        return isinstance(o, Big) and (self.k, self.w) == (o.k, o.w)

    def __hash__(self):
        return hash((self.k, self.w))

    def __repr__(self):
        return 'Big(%s,%s)' % (self.k, self.w)


def voccurs(v, a):
    if isinstance(v, (Poly, B, Lin, BM, Atom)):
        return occurs(v, a)
    if isinstance(v, Struct):
        return any(voccurs(x, a) for x in v.f.values())
    if isinstance(v, Arr):
        return any(voccurs(x, a) for x in v.v)
    if isinstance(v, Seq):
        return (v.pre is not None and occurs(v.pre, a)) or occurs(v.plen, a) or any(voccurs(c[1:], a) for c in v.ch)
    if isinstance(v, tuple):
        return any(voccurs(x, a) for x in v)
    if isinstance(v, Opq):
        return voccurs(v.args, a)
    if isinstance(v, Str):
        return voccurs(v.p, a)
    if isinstance(v, Stream):
        return voccurs(v.seq, a)
    return False


class OMat:
    """a matrix of arbitrary dimensions with arbitrary entries, only read"""
    __slots__ = ('name', 'r', 'c')

    def __init__(self, name, r, c):
        self.name = name
        self.r = r
        self.c = c

    def __eq__(self, o):
        return isinstance(o, OMat) and (self.name, self.r, self.c) == (o.name, o.r, o.c)

    def __hash__(self):
        return hash((self.name, self.r, self.c))

    def __repr__(self):
        return 'OMat(%s,%s,%s)' % (self.name, self.r, self.c)

    def nr(self):
        return self.r

    def nc(self):
        return self.c

    def at(self, i, j):
        return P(atom('mel', self.name, P(i), P(j)))


class Hold:
    """hashable box for a value inside an atom"""
    __slots__ = ('args', 'kind')

    def __init__(self, v):
        self.args = (v,)

    def __hash__(self):
        return hash(self.args)

    def __eq__(self, o):
        return isinstance(o, Hold) and self.args == o.args

    def hsub(self, mp):
        return type(self)(vsubst(self.args[0], mp))

    def hocc(self, a):
        return voccurs(self.args[0], a)

    def __repr__(self):
        return repr(self.args[0])


def vsubst(v, mp):
    """substitute terms inside a value"""
    if isinstance(v, (Poly, B, Lin, BM)):
        return subst(v, mp)
    if isinstance(v, Struct):
        return Struct(v.cls, {k: vsubst(x, mp) for k, x in v.f.items()})
    if isinstance(v, Arr):
        return Arr([vsubst(x, mp) for x in v.v])
    if isinstance(v, Seq):
        ch = []
        for c in v.ch:
            if c[0] == 'e':
                ch.append(('e', vsubst(c[1], mp)))
            elif c[0] == 's':
                ch.append(('s', subst(c[1], mp), subst(c[2], mp), subst(c[3], mp)))
            elif c[0] == 'f':
                ch.append(('f', subst(c[1], mp), subst(c[2], mp), c[3], vsubst(Seq(c[4]), mp).ch))
            else:
                ch.append(('m', subst(c[1], mp), subst(c[2], mp), c[3], tuple(vsubst(x, mp) for x in c[4])))
        pre = v.pre
        if pre is not None and pre in mp:
            new = mp[pre]
            if isinstance(new, Seq):
                return Seq(new.ch + tuple(ch), new.pre, new.plen, v.et)
            pre = new
        elif pre is not None:
            pre = subst(pre, mp)
        return Seq(ch, pre, subst(v.plen, mp), v.et)
    if isinstance(v, Str):
        return Str([x if isinstance(x, str) else tuple(vsubst(y, mp) if not isinstance(y, str) else y for y in x)
                    for x in v.p])
    if isinstance(v, Stream):
        return Stream(v.name, vsubst(v.seq, mp))
    if isinstance(v, Opq):
        return Opq(v.tag, *[vsubst(x, mp) if not isinstance(x, (str, int)) else x for x in v.args])
    if isinstance(v, LV):
        return LV(v.cell, tuple(tuple(subst(x, mp) if isinstance(x, Poly) else x for x in p) for p in v.path))
    if isinstance(v, Ptr):
        return Ptr(vsubst(v.lv, mp)) if v.lv is not None else v
    if isinstance(v, It):
        return It(vsubst(v.lv, mp), subst(P(v.idx), mp), v.kind)
    if isinstance(v, Clo):
        return Clo(v.e, {k: (vsubst(x, mp) if isinstance(x, LV) else ('v', vsubst(x[1], mp))) for k, x in v.caps.items()})
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    return v
