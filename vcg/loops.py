"""Loops: unrolled while their condition is literally true or false, folded to
a closed form when every modified location has one, and otherwise cut by an
inductive invariant that is inferred (equalities, definitions, linear
relations, signs) and discharged at entry and at the end of every path."""
from fractions import Fraction as Fr
from terms import *
from values import *
import z3if
import itertools

_n = itertools.count(1)
UNROLL = 400
import os
DBG = os.environ.get('LOOPDBG')


class LoopRecord:
    def __init__(self):
        self.node = None
        self.entry = None      # state before the loop
        self.head = None       # arbitrary iteration (invariant assumed)
        self.start = None      # head with the condition assumed: list of states
        self.ends = []         # states reaching the head again
        self.exits = []        # (kind, state, value)
        self.leaves = {}       # path -> head term
        self.inv = []          # invariants proved (B terms over head)
        self.defs = {}         # eliminated head atoms -> definition


def loop(I, node, st, c, b, inc):
    m = I.mark()
    r = unroll(I, st, c, b, inc, c is None or (isinstance(c, dict) and c.get('k') == 'Bool'))
    if r is not None:
        return r
    I.reset(m)
    return symbolic(I, node, st, c, b, inc)


def unroll(I, st, c, b, inc, endless=False):
    """endless: the condition is no condition; such a loop is unrolled only while
    each iteration either goes on or leaves, not both"""
    live = [st.copy()]
    outs = []
    n = 0
    while live:
        n += 1
        if n > UNROLL:
            return None
        nxt = []
        for s in live:
            cv = I.cond_value(s, c)
            if cv is None or cv[1].k not in ('true', 'false'):
                return None
            s = cv[0]
            if cv[1].k == 'false':
                outs.append(('n', s, None))
                continue
            for k, x, v in I.run_body(s, b):
                if k in ('n', 'c'):
                    for k2, x2, v2 in I.run_inc(x, inc):
                        if k2 == 'n':
                            nxt.append(('n', x2, v2))
                        else:
                            outs.append((k2, x2, v2))
                elif k == 'b':
                    outs.append(('n', x, None))
                else:
                    outs.append((k, x, v))
        nxt = I.merge_outs(nxt)
        if len(nxt) > 40 or (endless and nxt and outs):
            return None
        live = [o[1] for o in nxt]
    return I.merge_outs(outs)


# --------------------------------------------------------------- havocing
class Gen:
    def __init__(self):
        self.leaf = {}      # path -> head value (Poly, Lin, B or UNDEF)
        self.entry = {}     # path -> entry value
        self.facts = []
        self.stale = set()
        self.full = set()   # matrices that do not stay diagonal

    def fresh_like(self, path, entry, es):
        nm = '.'.join(str(p) for p in path if not isinstance(p, tuple))
        nm = nm.split(':')[-1] + '@%d' % next(_n)
        if isinstance(entry, Poly):
            isint = entry.isint() and all(e.isint() for e in es)
            h = P(atom('sym', nm, sort='I' if isint else 'R'))
        elif isinstance(entry, B):
            h = bsym(nm)
        elif isinstance(entry, Lin) and path not in self.full and isdiag(entry) and all(isdiag(e) for e in es):
            h = letter(atom('sym', nm, shape='v'))
            self.leaf[path + ('diag',)] = h
            self.entry[path + ('diag',)] = diagvec(entry)
            return mdiag(h)
        elif isinstance(entry, Lin):
            h = letter(atom('sym', nm, shape=entry.shape))
        else:
            return None
        self.leaf[path] = h
        self.entry[path] = entry
        return h

    def gen(self, path, en, h, es):
        if isinstance(path[0], str) and path[0].startswith('g:~'):
            if all(e is h or e == h for e in es):
                return h
            return UNDEF      # scratch ghost: only meaningful within one iteration
        if path in self.leaf:
            return h
        if path in self.stale:
            return UNDEF
        if path + ('diag',) in self.leaf:
            if all(isdiag(e) for e in es):
                return h
            del self.leaf[path + ('diag',)]
            self.full.add(path)
            return self.fresh_like(path, en, es)
        if all(e is h or e == h for e in es):
            return h
        if isinstance(en, Struct) and isinstance(h, Struct) and all(
                isinstance(e, Struct) and e.f.keys() == h.f.keys() for e in es):
            return Struct(h.cls, {k: self.gen(path + (k,), en.f[k], h.f[k], [e.f[k] for e in es]) for k in h.f})
        if isinstance(h, Arr) and all(isinstance(e, Arr) and len(e.v) == len(h.v) for e in es):
            return Arr([self.gen(path + (i,), en.v[i], h.v[i], [e.v[i] for e in es]) for i in range(len(h.v))])
        if isinstance(h, BM) and all(isinstance(e, BM) and (e.rows, e.cols) == (h.rows, h.cols) for e in es):
            return BM(h.rows, h.cols, [[self.gen(path + (i, j), en.ent[i][j], h.ent[i][j],
                                                 [e.ent[i][j] for e in es]) for j in range(len(h.cols))]
                                       for i in range(len(h.rows))])
        if isinstance(h, Stream) and all(isinstance(e, Stream) for e in es):
            return Stream(h.name, self.gen(path + ('text',), en.seq, h.seq, [e.seq for e in es]))
        if isinstance(h, Seq) and all(isinstance(e, Seq) for e in es):
            return self.gen_seq(path, en, h, es)
        if isinstance(h, It) and all(isinstance(e, It) and e.lv == h.lv for e in es):
            return It(h.lv, self.gen(path + ('idx',), en.idx, h.idx, [e.idx for e in es]), h.kind)
        if isinstance(h, (Poly, B)) and any(isinstance(e, (Poly, B)) for e in es) \
                and not any(isinstance(e, Undef) for e in es):
            return self.fresh_like(path, h, [e if isinstance(e, Poly) else b2p(e) for e in es]
                                   if isinstance(h, Poly) else es)
        if isinstance(h, Lin) and all(isinstance(e, Lin) and e.shape == h.shape for e in es):
            return self.fresh_like(path, h, es)
        self.stale.add(path)
        return UNDEF

    def gen_seq(self, path, en, h, es):
        same = all(e.pre == h.pre and e.plen == h.plen and len(e.ch) == len(h.ch) for e in es) \
            and all(c[0] == 'e' for x in [h] + es for c in x.ch)
        if same:
            return h.with_ch([('e', self.gen(path + (i,), en.ch[i][1] if i < len(en.ch) else h.ch[i][1], h.ch[i][1],
                                             [e.ch[i][1] for e in es])) for i in range(len(h.ch))])
        key = path + ('len',)
        if key in self.leaf:
            # already generalised: a consistent end extends the head
            ok = all(e.pre == h.pre and e.plen == h.plen and len(e.ch) >= len(h.ch) for e in es)
            if ok:
                return h
            if path + ('opaque',) in self.stale:
                return h
            self.stale.add(path + ('opaque',))
            return self.opaque_seq(path, h)
        grow = h.explicit() and all(e.explicit() and len(e.ch) >= len(h.ch) for e in es)
        pre = atom('sym', '%s@%d' % (str(path[-1]).split(':')[-1], next(_n)), shape='q')
        n = P(atom('sym', 'len_%s@%d' % (str(path[-1]).split(':')[-1], next(_n)), sort='I'))
        self.leaf[key] = n
        self.entry[key] = en.plen if grow else en.length()
        self.facts.append(Ge(n, 0))
        if not grow:
            ext = all(e.pre == h.pre and e.plen == h.plen and e.ch[:len(h.ch)] == h.ch for e in es)
            if not ext:
                self.stale.add(path + ('opaque',))
            return Seq((), pre, n, h.et)
        ch = []
        for i, c in enumerate(h.ch):
            ch.append(('e', self.tail(path + (i,), c[1])))
        return Seq(ch, pre, n, h.et)

    def opaque_seq(self, path, h):
        pre = atom('sym', '%s@%d' % (str(path[-1]).split(':')[-1], next(_n)), shape='q')
        n = P(atom('sym', 'len_%s@%d' % (str(path[-1]).split(':')[-1], next(_n)), sort='I'))
        key = path + ('len',)
        self.leaf[key] = n
        self.facts.append(Ge(n, 0))
        for k in [k for k in self.leaf if k[:len(path)] == path and k != key]:
            del self.leaf[k]
        return Seq((), pre, n, h.et)

    def tail(self, path, v):
        if isinstance(v, (Poly, B, Lin)):
            return self.fresh_like(path, v, [v] if not isinstance(v, Poly) else [v])
        if isinstance(v, BM):
            return BM(v.rows, v.cols, [[self.tail(path + (i, j), v.ent[i][j]) for j in range(len(v.cols))]
                                       for i in range(len(v.rows))])
        if isinstance(v, Struct):
            return Struct(v.cls, {k: self.tail(path + (k,), x) for k, x in v.f.items()})
        if isinstance(v, Arr):
            return Arr([self.tail(path + (i,), x) for i, x in enumerate(v.v)])
        self.stale.add(path)
        return UNDEF


def at(v, path):
    """value at a leaf path of a heap value (tail-aligned for grown sequences)"""
    for i, p in enumerate(path):
        if v is None or isinstance(v, Undef):
            return None
        if isinstance(v, Struct):
            v = v.f.get(p)
        elif isinstance(v, Arr):
            v = v.v[p]
        elif isinstance(v, BM):
            if i + 1 >= len(path):
                return v
            if p >= len(v.ent) or not isinstance(path[i + 1], int):
                return None
            return at(v.ent[p][path[i + 1]], path[i + 2:])
        elif isinstance(v, Stream):
            v = v.seq
        elif isinstance(v, It):
            v = v.idx
        elif isinstance(v, Seq):
            if p == 'len':
                return v
            v = ('seq', v, p)
            return v
        else:
            return None
    return v


class Leaves:
    """reads the leaves of a head template out of another state"""

    def __init__(self, I, gen, head):
        self.I = I
        self.gen = gen
        self.head = head

    def read(self, st):
        out = {}
        for c, h in self.head.heap.items():
            v = cell(self.I, st, c)
            if v is None:
                continue
            self.match((c,), h, v, out)
        return out

    def match(self, path, h, v, out):
        if path in self.gen.leaf:
            out[path] = v
            return
        if path + ('diag',) in self.gen.leaf:
            out[path + ('diag',)] = diagvec(v) if isdiag(v) else UNDEF
            return
        if isinstance(h, Undef) or h is v:
            if not self.any(path):
                return
        if isinstance(h, Struct) and isinstance(v, Struct):
            for k in h.f:
                if k in v.f:
                    self.match(path + (k,), h.f[k], v.f[k], out)
        elif isinstance(h, Arr) and isinstance(v, Arr):
            for i in range(min(len(h.v), len(v.v))):
                self.match(path + (i,), h.v[i], v.v[i], out)
        elif isinstance(h, BM) and isinstance(v, BM):
            if (h.rows, h.cols) == (v.rows, v.cols):
                for i in range(len(h.rows)):
                    for j in range(len(h.cols)):
                        self.match(path + (i, j), h.ent[i][j], v.ent[i][j], out)
        elif isinstance(h, Stream) and isinstance(v, Stream):
            self.match(path + ('text',), h.seq, v.seq, out)
        elif isinstance(h, It) and isinstance(v, It):
            self.match(path + ('idx',), h.idx, v.idx, out)
        elif isinstance(h, Seq) and isinstance(v, Seq):
            key = path + ('len',)
            if key in self.gen.leaf:
                k = len(h.ch)
                if path + ('opaque',) in self.gen.stale:
                    out[key] = v.length()
                else:
                    out[key] = v.length() - k
                    t = v.ch[len(v.ch) - k:] if k else ()
                    for i, (hc, vc) in enumerate(zip(h.ch, t)):
                        if vc[0] == 'e':
                            self.match(path + (i,), hc[1], vc[1], out)
            else:
                for i, (hc, vc) in enumerate(zip(h.ch, v.ch)):
                    if vc[0] == 'e' and hc[0] == 'e':
                        self.match(path + (i,), hc[1], vc[1], out)

    def any(self, path):
        return any(k[:len(path)] == path for k in self.gen.leaf)


def cell(I, st, c):
    v = st.heap.get(c)
    if v is None:
        v = I.ginit.get(c)
    return v


def atomof(h):
    if isinstance(h, Poly):
        (m, c), = h.d.items()
        return m[0][0]
    if isinstance(h, Lin):
        (w, c), = h.d.items()
        return w[0]
    return h       # bsym


def step(I, head, c, b, inc):
    """run one iteration from head: (starts, ends, exits)"""
    ends, exits, falses = [], [], []
    for x, tv in I.eval_cond(head.copy(), c):
        if not tv:
            falses.append(x)
            continue
        for k, y, v in I.run_body(x, b):
            if k in ('n', 'c'):
                for k2, z, v2 in I.run_inc(y, inc):
                    if k2 == 'n':
                        ends.append(('n', z, None))
                    else:
                        exits.append((k2, z, v2))
            elif k == 'b':
                exits.append(('n', y, None))
            else:
                exits.append((k, y, v))
    ends = I.merge_outs(ends)
    return [o[1] for o in ends], exits, falses


def symbolic(I, node, st, c, b, inc):
    m = I.mark()
    gen = Gen()
    head = st.copy()
    entry = st
    for rnd in range(8):
        I.reset(m)
        ends, exits, falses = step(I, head, c, b, inc)
        n0 = (len(gen.leaf), len(gen.stale), len(gen.full))
        nh = {}
        for cc, h in head.heap.items():
            es = [cell(I, e, cc) for e in ends]
            if any(e is None for e in es):
                raise Unsupported('location dies in a loop')
            nh[cc] = gen.gen((cc,), cell(I, entry, cc), h, es)
        for e in ends:
            for cc in e.heap:
                if cc not in nh:
                    g = I.ginit.get(cc)
                    if g is None:
                        raise Unsupported('new location survives an iteration: %s' % cc)
                    nh[cc] = gen.gen((cc,), g, g, [cell(I, x, cc) for x in ends])
        if (len(gen.leaf), len(gen.stale), len(gen.full)) == n0:
            break
        head = entry.copy()
        head.heap = nh
        head.pc = entry.pc
        head.assume(*gen.facts)
        head.log = ()
        head.n = max([head.n] + [e.n for e in ends]) + 1000
    else:
        raise Unsupported('loop does not stabilise')
    lv = Leaves(I, gen, head)
    if constants(I, gen, lv, entry, head, ends):
        I.reset(m)
        ends, exits, falses = step(I, head, c, b, inc)
        lv = Leaves(I, gen, head)
    r = fold(I, node, entry, head, gen, lv, ends, exits, falses, c, b, inc, m)
    if r is not None:
        return r
    return invariant(I, node, entry, head, gen, lv, c, b, inc, m)


# ------------------------------------------------------------------- folding
def constants(I, gen, lv, entry, head, ends):
    """locations that are written but hold their value from before the loop at
    the end of every iteration"""
    inseq = lambda p: any(p[:q] + ('len',) in gen.leaf for q in range(len(p)))
    cand = {p: gen.entry[p] for p, h in gen.leaf.items() if isinstance(h, (Poly, Lin)) and p[-1] != 'len'
            and not inseq(p) and p in gen.entry and type(gen.entry[p]) is type(h)}
    if not cand or not ends:
        return False
    vals = [lv.read(e) for e in ends]
    while cand:
        mp = {atomof(gen.leaf[p]): e0 for p, e0 in cand.items()}
        bad = [p for p, e0 in cand.items()
               if any(v.get(p) is None or isinstance(v[p], Undef) or vsubst(v[p], mp) != e0 for v in vals)]
        if not bad:
            break
        for p in bad:
            del cand[p]
    if not cand:
        return False
    mp = {atomof(gen.leaf[p]): e0 for p, e0 in cand.items()}
    if any(voccurs(e0, a) for e0 in cand.values() for a in mp):
        return False
    head.heap = {c: vsubst(v, mp) for c, v in head.heap.items()}
    for p in cand:
        del gen.leaf[p]
    return True


def counter(I, entry, head, gen, lv, ends, falses):
    """(path, atom, lo, hi, step): an integer location that drives the loop"""
    if len(falses) != 1:
        return None
    extra = [x for x in falses[0].pc if x not in head.pc]
    atoms = {atomof(h): p for p, h in gen.leaf.items() if isinstance(h, Poly)}
    if len(extra) > 1:
        # facts picked up on the way that do not depend on the iteration
        extra = [x for x in extra if any(voccurs(x, atomof(h)) for h in gen.leaf.values())]
    if len(extra) != 1:
        return None
    cond = Not(extra[0])
    if cond.k == 'le':
        p = cond.a[0]
        strict = ONE
    elif cond.k == 'lt':
        p = cond.a[0]
        strict = ZERO
    elif cond.k == 'not' and cond.a[0].k == 'eq':
        p = cond.a[0].a[0]
        strict = None
    else:
        return None
    used = [a for a in atoms if occurs(p, a)]
    if len(used) != 1:
        return None
    i = used[0]
    k = p.d.get(((i, 1),))
    if k is None or any(occurs(Poly({m: Fr(1)}), i) for m in p.d if m != ((i, 1),)):
        return None
    if any(occurs(p - P(i) * k, atomof(h)) for h in gen.leaf.values() if h != P(i)):
        return None
    path = atoms[i]
    r = lv.read(ends[0])
    d = r.get(path)
    if not isinstance(d, Poly):
        return None
    d = d - P(i)
    if not d.is_const() or d.const() not in (1, -1):
        return None
    d = d.const()
    # i < hi  (integers: i - hi + 1 <= 0)
    if strict is None:
        hi = -(p - P(i) * k) * (1 / k)
        if i.sort != 'I' or not hi.isint():
            return None
    elif k == 1 and d == 1:
        hi = -(p - P(i))
        hi = hi + 1 if strict == ONE else hi
    elif k == -1 and d == -1:
        # lo' <= i : runs down to hi (exclusive)
        hi = (p + P(i))
        hi = hi - 1 if strict == ONE else hi
    else:
        return None
    if strict == ZERO and not (i.sort == 'I' and hi.isint()):
        return None
    lo = gen.entry[path]
    if not isinstance(lo, Poly):
        return None
    return path, i, lo, hi, d


def fold(I, node, entry, head, gen, lv, ends, exits, falses, c, b, inc, m):
    if len(ends) != 1:
        return None
    cn = counter(I, entry, head, gen, lv, ends, falses)
    if cn is None:
        return None
    path, i, lo, hi, d = cn
    end = ends[0]
    vals = lv.read(end)
    leafatoms = {atomof(h): p for p, h in gen.leaf.items()}
    # seq leaves are handled with their sequences
    cond_pc = [x for x in end.pc if x not in head.pc]
    start = [x for x in cond_pc]
    # iteration range
    if d == 1:
        n = hi - lo
    else:
        n = lo - hi
    if n.is_const():
        if n.const() < 0:
            return None
        last = hi
    elif z3if.valid(entry.pc, Ge(n, 0), 1500):
        last = hi
    elif node['k'] == 'For' and False:
        return None
    else:
        last = None
    if last is None:
        mx = maxv(lo, hi) if d == 1 else minv(lo, hi)
        last = mx
        n = last - lo if d == 1 else lo - last
    k = atom('sym', '#i%d' % next(_n), sort='I')
    # first iteration index and one-past-last in increasing order
    L, H = (lo, last) if d == 1 else (last + 1, lo + 1)
    env = {i: P(k)}            # closed forms at iteration k
    final = {path: last}
    # affine counters
    pend = {}
    inseq = set()
    for p, h in gen.leaf.items():
        if p == path:
            continue
        if any(p[:q] + ('len',) in gen.leaf for q in range(len(p))):
            inseq.add(atomof(h))
            continue
        v = vals.get(p)
        if v is None:
            return None
        pend[p] = v
    ch = True
    while ch:
        ch = False
        for p in list(pend):
            h = gen.leaf[p]
            v = pend[p]
            if isinstance(h, Poly) and isinstance(v, Poly):
                dd = v - h
                if dd.is_const():
                    e0 = gen.entry[p]
                    if not isinstance(e0, Poly):
                        return None
                    it = (P(k) - lo) if d == 1 else (lo - P(k))
                    env[atomof(h)] = e0 + it * dd
                    final[p] = e0 + n * dd
                    del pend[p]
                    ch = True
    rest = {atomof(gen.leaf[p]) for p in pend} | inseq

    def at_k(x):
        return vsubst(x, env)

    def free(x, more=()):
        return not any(voccurs(x, a) for a in rest if a not in more)
    # conditions under which the iteration continues
    conts = [at_k(x) for x in cond_pc if not isrange(x, i)]
    conts = [x for x in conts if not z3if.valid(list(entry.pc) + [Le(L, k), Lt(k, H)], x, 1000)]
    if any(not free(x) for x in conts):
        return None
    if conts and not exits:
        # paths that die (failed assertions): assume for every iteration
        pass
    for p in list(pend):
        h = gen.leaf[p]
        v = at_k(pend[p])
        e0 = gen.entry[p]
        r = closed(I, h, v, e0, k, L, H, d, rest, entry, last)
        if r is None:
            return None
        final[p] = r
    # sequences
    out = entry.copy()
    out.n = max(head.n, end.n)
    out.heap = {}
    for cc, h in head.heap.items():
        v = rebuild(I, gen, lv, (cc,), cell(I, entry, cc), h, cell(I, end, cc), final, at_k, k, L, H, free, d)
        if v is None:
            return None
        out.heap[cc] = v
    res = []
    full = out.copy()
    for x in conts:
        full.assume(B('all', L, H, 0, bind(x, k)))
    if not n.is_const() and z3if.valid(entry.pc, Ge(n, 0), 300):
        full.assume(Ge(n, 0))
    # accesses that could not be shown inside bounds before the range of the
    # counter was known
    q0 = m[I.LISTS.index('bounds_unproved')]
    left = []
    for what, pc, inr in I.bounds_unproved[q0:]:
        g = at_k(inr)
        if free(g) and z3if.valid(list(entry.pc) + [at_k(x) for x in pc if x not in head.pc] + [Le(L, k), Lt(k, H)], g, 1500):
            I.oblig += 1
        else:
            left.append((what, pc, inr))
    I.bounds_unproved[q0:] = left
    rec = LoopRecord()
    rec.node = node
    rec.entry = entry
    rec.kind = 'fold'
    I.loops.append(rec)
    res.append(('n', full, None))
    if exits:
        if d != 1:
            return None
        # leaves at the start of iteration j
        j = P(atom('sym', 'j@%d' % next(_n), sort='I'))
        mp = {}
        for p, h in gen.leaf.items():
            a = atomof(h)
            if a in env:
                mp[a] = subst(env[a], {k: j})
            else:
                fj = closed(I, h, at_k(pend[p]), gen.entry[p], k, L, j, d, rest, entry, j)
                if fj is None:
                    return None
                mp[a] = fj
        for kk, s, v in exits:
            if kk == 't':
                pass
            y = entry.copy()
            y.n = s.n
            y.log = s.log
            y.heap = {}
            for cc, hv in s.heap.items():
                if hasopaque(gen, (cc,)):
                    return None
                y.heap[cc] = vsubst(hv, mp)
            y.env, y.owned, y.this = s.env, s.owned, s.this
            y.assume(Le(L, j), Lt(j, H))
            for x in conts:
                y.assume(B('all', L, j, 0, bind(x, k)))
            for x in s.pc:
                if x not in head.pc:
                    y.assume(subst(x, mp))
            res.append((kk, y, vsubst(v, mp) if v is not None else None))
    return I.merge_outs(res) if not exits else res


def hasopaque(gen, path):
    return any(k[:len(path)] == path and k[-1] == 'len' for k in gen.leaf)


def isrange(x, i):
    """the loop condition itself"""
    return False


def closed(I, h, v, e0, k, L, H, d, rest, entry, last):
    """value after all iterations k = L..H-1 of h := v(h, k), from e0"""
    a = atomof(h) if not isinstance(h, B) else h
    if isinstance(h, B):
        if not isinstance(v, B):
            return None
        if not any(voccurs(v, x) for x in rest):
            if voccurs(v, k):
                return None
            return bite(Lt(L, H), v, e0)
        for kind, mk in (('or', 'any'), ('and', 'all')):
            parts = list(v.a) if v.k == kind else [v]
            if h in parts:
                r = [x for x in parts if x != h]
                body = Or(*r) if kind == 'or' else And(*r)
                if any(voccurs(body, x) for x in rest):
                    continue
                if occurs(body, k):
                    q = B(mk, L, H, 0, bind(body, k))
                elif kind == 'or':
                    q = And(body, Lt(L, H))
                else:
                    q = Or(body, Le(H, L))
                return Or(e0, q) if kind == 'or' else And(e0, q)
        return None
    others = [x for x in rest if x is not a]
    if isinstance(h, Poly):
        if not isinstance(v, Poly):
            return None
        if any(voccurs(v, x) for x in others):
            return None
        if not voccurs(v, a):
            # the value of the last iteration
            lastk = H - 1 if d == 1 else L
            r = subst(v, {k: lastk}) if occurs(v, k) else v
            ne = Lt(L, H)
            if z3if.valid(entry.pc, ne, 800):
                return r
            return ite(ne, r, e0) if isinstance(e0, Poly) else None
        inc = v - h
        if not voccurs(inc, a):
            return e0 + sumk(k, L, H, inc) if isinstance(e0, Poly) else None
        mx = maxparts(v, h)
        if mx is not None and isinstance(e0, Poly) and not voccurs(mx, a):
            import models
            if z3if.obviously_nonneg(mx):
                bm = models.bigmax(k, L, H, mx)
                return bm if e0 == ZERO else maxv(e0, bm)
        return None
    if isinstance(h, Lin):
        if not isinstance(v, Lin) or any(voccurs(v, x) for x in others):
            return None
        if not voccurs(v, a):
            lastk = H - 1 if d == 1 else L
            r = subst(v, {k: lastk}) if occurs(v, k) else v
            if z3if.valid(entry.pc, Lt(L, H), 800):
                return r
            return None
        inc = v - h
        return vecclosed(I, h, inc, e0, k, L, H, entry)
    return None


def maxparts(v, h):
    """v = max(h, e) -> e"""
    if len(v.d) == 1:
        (m, c), = v.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'max' and h in m[0][0].args:
            r = [x for x in m[0][0].args if x != h]
            o = r[0]
            for x in r[1:]:
                o = maxv(o, x)
            return o
    # ite(e > h, e, h) with an unsimplified condition
    if len(v.d) == 1:
        (m, c), = v.d.items()
        if c == 1 and len(m) == 1 and m[0][0].kind == 'ite':
            cc, x, y = m[0][0].args
            if y == h or x == h:
                pass
    return None


def vecclosed(I, h, inc, e0, k, L, H, entry):
    """h := h + inc(h,k), written one component (or column) per iteration"""
    a = atomof(h)
    kp = P(k)
    if not isinstance(e0, Lin):
        return None
    full = (L == ZERO and H == NP)
    if not voccurs(inc, a):
        # accumulation: linear in the iteration
        if not occurs(inc, k):
            return e0 + inc.scale(H - L)
        out = e0
        if full and all(len(w) == 1 and w[0].kind == 'unit' and w[0].args[0] == kp for w in inc.d):
            body = ZERO
            for w, co in inc.d.items():
                body = body + co
            return e0 + lam(k, body)
    if inc.shape == 'v':
        u = atom('unit', kp, shape='v')
        if set(inc.d) != {(u,)}:
            return None
        co = inc.d[(u,)]
        own = elem(h, kp)
        body = co + own
        ea = P(atom('elem', (a,), kp))
        # new component value: body; only its own old component may occur
        body = subst(body, {atomelem(own): elem(e0, kp)}) if own.d else body
        if voccurs(body, a):
            return None
        if full:
            return lam(k, body)
        if any(voccurs(body, x) for x in (a,)):
            return None
        kk = atom('sym', '#i%d' % next(_n), sort='I')
        inr = And(Le(L, kk), Lt(kk, H))
        return lam(kk, ite(inr, subst(body, {k: P(kk)}), elem(e0, P(kk))))
    if inc.shape == 'm':
        u = atom('unit', kp, shape='v')
        ur = trans(u)
        r = munits(inc, h, a, e0, k, L, H)
        if r is not None:
            return r
        # column writes: inc = (c - h.u) u^T
        col = Lin({}, 'v')
        for w, co in inc.d.items():
            if not w or w[-1] is not ur:
                return None
            col = col + Lin({w[:-1]: co}, 'v') if len(w) > 1 else None
        new = col + lmul(h, letter(u))
        if voccurs(new, a):
            new = subst(new, {a: e0}) if False else new
            return None
        if full:
            return colcomp(k, new)
        return None
    return None


def munits(inc, h, a, e0, k, L, H):
    """entries of one column, one row or the diagonal, one per iteration"""
    if len(inc.d) != 1 or not (L == ZERO and H == NP):
        return None
    (w, co), = inc.d.items()
    if len(w) != 1 or w[0].kind != 'munit':
        return None
    i, j = w[0].args
    kp = P(k)
    own = melem(h, i, j)
    body = co + own
    if own.d:
        body = subst(body, {atomelem(own): melem(e0, i, j)})
    if voccurs(body, a):
        return None
    if i == kp and not occurs(j, k):
        u = letter(atom('unit', j, shape='v'))
        return e0 + bmul(lam(k, body) - bmul(e0, u), u.t())
    if j == kp and not occurs(i, k):
        u = letter(atom('unit', i, shape='v'))
        return e0 + bmul(u, lam(k, body).t() - bmul(u.t(), e0))
    if i == kp and j == kp and isdiag(e0):
        return mdiag(lam(k, body))
    return None


def colcomp(k, col):
    """matrix whose column k is col(k)"""
    if not occurs(col, k):
        return bmul(col, letter(atom('ones', shape='v')).t())
    # M.unit(k) -> M
    u = atom('unit', P(k), shape='v')
    out = Lin({}, 'm')
    rest = Lin({}, 'v')
    for w, co in col.d.items():
        if w and w[-1] is u and not occurs(co, k) and not any(occurs(x, k) for x in w[:-1]):
            out = out + Lin({w[:-1]: co}, 'm')
        else:
            rest = rest + Lin({w: co}, 'v')
    if rest.d:
        out = out + letter(atom('colcomp', bind(rest, k), shape='m'))
    return out


def atomelem(p):
    (m, c), = p.d.items()
    return m[0][0]


def rebuild(I, gen, lv, path, en, h, v, final, at_k, k, L, H, free, d):
    """value after the loop"""
    if path in final:
        return final[path]
    if path + ('diag',) in final:
        return mdiag(final[path + ('diag',)])
    if path in gen.stale:
        return UNDEF
    if isinstance(h, Undef):
        return UNDEF
    if isinstance(h, Struct):
        dd = {}
        for f in h.f:
            x = rebuild(I, gen, lv, path + (f,), en.f[f], h.f[f], v.f[f], final, at_k, k, L, H, free, d)
            if x is None:
                return None
            dd[f] = x
        return Struct(h.cls, dd)
    if isinstance(h, Arr):
        l = [rebuild(I, gen, lv, path + (n,), en.v[n], h.v[n], v.v[n], final, at_k, k, L, H, free, d)
             for n in range(len(h.v))]
        return None if any(x is None for x in l) else Arr(l)
    if isinstance(h, BM):
        rows = []
        for a in range(len(h.rows)):
            row = []
            for b in range(len(h.cols)):
                x = rebuild(I, gen, lv, path + (a, b), en.ent[a][b], h.ent[a][b], v.ent[a][b], final, at_k, k, L, H,
                            free, d)
                if x is None:
                    return None
                row.append(x)
            rows.append(row)
        return BM(h.rows, h.cols, rows)
    if isinstance(h, It):
        x = rebuild(I, gen, lv, path + ('idx',), en.idx, h.idx, v.idx, final, at_k, k, L, H, free, d)
        return It(h.lv, x, h.kind)
    if isinstance(h, Stream):
        x = rebuild(I, gen, lv, path + ('text',), en.seq, h.seq, v.seq, final, at_k, k, L, H, free, d)
        return None if x is None else Stream(h.name, x)
    if isinstance(h, Seq):
        if path + ('len',) in gen.leaf:
            if path + ('opaque',) in gen.stale or v.pre is not h.pre or v.plen != h.plen:
                return None
            new = v.ch[len(h.ch):]
            if d != 1 or any(c != x for c, x in zip(h.ch, v.ch)):
                return None
            if not new:
                return en
            if not all(c[0] == 'e' for c in new):
                fl = at_k(Seq(new))
                if not free(fl) or voccurs(fl, h.pre):
                    return None
                return en.with_ch(en.ch + (('f', L, H, k, fl.ch),))
            vals = tuple(at_k(c[1]) for c in new)
            if not all(free(x) for x in vals):
                return None
            if any(voccurs(x, h.pre) for x in vals):
                return None
            return en.with_ch(en.ch + (slice_of(L, H, k, vals) or ('m', L, H, k, vals),))
        if len(h.ch) != len(v.ch):
            return None
        ch = []
        for n, c in enumerate(h.ch):
            if c[0] != 'e':
                if c != v.ch[n]:
                    return None
                ch.append(c)
                continue
            x = rebuild(I, gen, lv, path + (n,), en.ch[n][1], c[1], v.ch[n][1], final, at_k, k, L, H, free, d)
            if x is None:
                return None
            ch.append(('e', x))
        return en.with_ch(ch)
    return en


def slice_of(L, H, k, vals):
    """the elements L..H-1 of an unknown sequence, copied one by one"""
    if len(vals) != 1:
        return None
    v = vals[0]
    if isinstance(v, BM) and v.cols == ('1',) and len(v.ent) == 1:
        v = v.ent[0][0]
    if isinstance(v, Poly) and len(v.d) == 1:
        (m, c), = v.d.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
    elif isinstance(v, Lin) and len(v.d) == 1:
        (w, c), = v.d.items()
        if c != ONE or len(w) != 1:
            return None
        a = w[0]
    elif isinstance(v, Seq) and not v.ch and v.pre is not None and v.pre.kind == 'selq':
        a = v.pre
    else:
        return None
    if a.kind not in ('sel', 'selv', 'selq') or not isinstance(a.args[0], Atom) or a.args[0].kind == 'upd':
        return None
    off = a.args[1] - P(k)
    if occurs(off, k) or occurs(P(atom('q', a.args[0])), k):
        return None
    return ('s', a.args[0], L + off, H + off)


# ----------------------------------------------------------------- invariants
def ites(v, out):
    if isinstance(v, Poly):
        for m in v.d:
            for a, e in m:
                if a.kind == 'ite':
                    out.add(a.args[0])
                for x in a.args:
                    if isinstance(x, (Poly, B)):
                        ites(x, out)
    elif isinstance(v, Lin):
        for w, c in v.d.items():
            ites(c, out)
            for a in w:
                for x in a.args:
                    if isinstance(x, (Poly, Lin, B)):
                        ites(x, out)


def simp(v, pc):
    """choose the branches of conditional terms that the path condition decides"""
    if not isinstance(v, (Poly, Lin)):
        return v
    for _ in range(10):
        cs = set()
        ites(v, cs)
        mp = {}
        pcs = set(pc)
        for c in cs:
            if c in pcs:
                mp[c] = TRUE
            elif Not(c) in pcs:
                mp[c] = FALSE
            elif z3if.valid(pc, c, 400):
                mp[c] = TRUE
            elif z3if.valid(pc, Not(c), 400):
                mp[c] = FALSE
        if not mp:
            return v
        n = resolve_ites(v, mp)
        if n == v:
            return v
        v = n
    return v


def resolve_ites(v, mp):
    sub = {}

    def walk(x):
        if isinstance(x, Poly):
            for m in x.d:
                for a, e in m:
                    if a.kind == 'ite' and a.args[0] in mp:
                        sub[a] = a.args[1] if mp[a.args[0]] == TRUE else a.args[2]
                    for y in a.args:
                        if isinstance(y, (Poly, Lin)):
                            walk(y)
        elif isinstance(x, Lin):
            for w, c in x.d.items():
                walk(c)
                for a in w:
                    for y in a.args:
                        if isinstance(y, (Poly, Lin)):
                            walk(y)
    walk(v)
    return subst(v, sub) if sub else v


def eqt(a, b, pc=()):
    if a is b or a == b:
        return True
    if type(a) is not type(b) or a is None or isinstance(a, Undef):
        return False
    try:
        return z3if.equal(a, b, list(pc), 800)
    except Exception:
        return False


def abstract(e, table, depth=0):
    """rewrite e, replacing (sub)terms equal to a table key by the leaf"""
    if e in table:
        return table[e]
    if depth > 6:
        return e
    for v, leaf in table.items():
        if type(v) is type(e) and getattr(v, 'shape', 0) == getattr(e, 'shape', 0) and v.d and len(e.d) > len(v.d) >= 1:
            if all(e.d.get(k) == cc for k, cc in v.d.items()) and not (isinstance(v, Poly) and v.is_const()):
                return leaf + abstract(e - v, table, depth + 1)
    mp = {}
    if isinstance(e, Poly):
        ats = e.atoms()
    elif isinstance(e, Lin):
        ats = {a for w in e.d for a in w}
        d = {}
        ch = False
        for w, c in e.d.items():
            c2 = abstract(c, table, depth + 1) if not c.is_const() else c
            ch = ch or c2 != c
            d[w] = c2
        if ch:
            e = Lin({w: c for w, c in d.items() if c.d}, e.shape)
    else:
        return e
    for a in ats:
        pa = P(a) if a.shape == 's' else letter(a)
        if pa in table:
            mp[a] = table[pa]
            continue
        if not a.args or a.kind in ('sym', 'bound'):
            continue
        na = []
        ch = False
        for x in a.args:
            y = x
            if isinstance(x, (Poly, Lin)) and not (isinstance(x, Poly) and x.is_const()):
                y = abstract(x, table, depth + 1)
            elif isinstance(x, Atom) and x.shape in ('v', 'm', 'r'):
                y2 = abstract(letter(x), table, depth + 1)
                if y2 != letter(x):
                    y = y2
            ch = ch or (y is not x and y != x)
            na.append(y)
        if ch:
            try:
                mp[a] = mkatom(a, na)
            except Exception:
                pass
    return subst(e, mp) if mp else e


def has_bigmax(p):
    return any(a.kind == 'bigmax' for m in p.d for a, e in m)


def models_norminf(v):
    import models
    return models.norminf(None, None, vec(v))


def abstractb(b, tab):
    if b.k in ('and', 'or'):
        return (And if b.k == 'and' else Or)(*[abstractb(x, tab) for x in b.a])
    if b.k == 'not':
        return Not(abstractb(b.a[0], tab))
    mk = {'lt': Lt0, 'le': Le0, 'eq': Eq0}.get(b.k)
    return mk(abstract(b.a[0], tab)) if mk else b


def cmps(b):
    """the comparisons a Boolean term is made of"""
    if b.k in ('lt', 'le'):
        return [b]
    if b.k in ('and', 'or', 'not'):
        return [y for x in b.a for y in cmps(x)]
    return []


def nullspace(rows, n):
    """basis of {x : rows x = 0} over Q"""
    mat = [list(r) for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(mat)) if mat[i][c]), None)
        if p is None:
            continue
        mat[r], mat[p] = mat[p], mat[r]
        iv = 1 / mat[r][c]
        mat[r] = [x * iv for x in mat[r]]
        for i in range(len(mat)):
            if i != r and mat[i][c]:
                f = mat[i][c]
                mat[i] = [x - f * y for x, y in zip(mat[i], mat[r])]
        piv.append(c)
        r += 1
    out = []
    for c in range(n):
        if c in piv:
            continue
        v = [Fr(0)] * n
        v[c] = Fr(1)
        for i, pc in enumerate(piv):
            v[pc] = -mat[i][c]
        out.append(v)
    return out


def invariant(I, node, entry, head, gen, lv, c, b, inc, m):
    I.reset(m)
    ends, exits, falses = step(I, head, c, b, inc)
    leaves = gen.leaf
    ent = lv.read(entry)
    ent = {p: ent[p] for p in leaves if p in ent}
    vals = []
    for e in ends:
        r = lv.read(e)
        vals.append({p: simp(r.get(p), e.pc) for p in leaves})
    usable = [p for p in leaves if p in ent and all(v[p] is not None and not isinstance(v[p], Undef) for v in vals)
              and not isinstance(ent[p], Undef)]
    atm = {p: atomof(leaves[p]) for p in leaves}
    # (a) equal leaves
    group = {}
    for p in usable:
        sort = atm[p].sort if isinstance(leaves[p], Poly) else type(leaves[p]).__name__
        group.setdefault((sort, ent[p]), []).append(p)
    parts = [g for g in group.values()]
    if DBG:
        print('GRP', [(str(k), [str(p) for p in g]) for k, g in group.items()])
        for v in vals: print('VAL', str(v.get(('c30:t',))), str(v.get(('c34:sol', 't_vals', 0))))
    while True:
        mp = {}
        for g in parts:
            for p in g[1:]:
                mp[atm[p]] = leaves[g[0]]
        new = []
        for g in parts:
            sub = {}
            for p in g:
                key = tuple(vsubst(v[p], mp) for v in vals)
                for k in sub:
                    if k == key:
                        sub[k].append(p)
                        break
                else:
                    sub[key] = [p]
            new.extend(sub.values())
        if len(new) == len(parts):
            break
        parts = new
    elim = {}
    reps = []
    if DBG: print('PARTS', [[str(p) for p in g] for g in parts if len(g) > 1])
    # prefer as representative the leaf that was declared first
    for g in parts:
        reps.append(g[0])
        for p in g[1:]:
            elim[atm[p]] = leaves[g[0]]

    def red(x):
        for _ in range(4):
            y = vsubst(x, elim)
            if y == x:
                return x
            x = y
        return x
    # (b) definitions
    defs = {}
    for X in list(reps):
        h = leaves[X]
        if isinstance(h, B):
            continue
        cands = []
        tab = {}
        for Y in reps:
            if Y != X and not isinstance(leaves[Y], B) and Y not in defs:
                tab.setdefault(ent[Y], leaves[Y])
        tab = {k: v for k, v in tab.items() if not (isinstance(k, Poly) and k.is_const()) and not (isinstance(k, Lin) and not k.d)}
        e0 = ent[X]
        if isinstance(e0, (Poly, Lin)):
            cands.append(abstract(e0, tab))
        for v in vals:
            x1 = red(v[X])
            if x1 == h or not isinstance(x1, (Poly, Lin)):
                continue
            tab = {}
            for Y in reps:
                if Y != X and not isinstance(leaves[Y], B) and Y not in defs:
                    y1 = red(v[Y])
                    if not (isinstance(y1, Poly) and y1.is_const()) and y1 != leaves[Y]:
                        tab.setdefault(y1, leaves[Y])
            cands.append(abstract(x1, tab))
        if isinstance(h, Poly) and any(isinstance(v[X], Poly) and has_bigmax(v[X]) for v in vals):
            for Y in reps:
                if Y != X and Y not in defs and isinstance(leaves[Y], Lin) and leaves[Y].shape == 'v':
                    cands.append(models_norminf(leaves[Y]))
        for D in cands:
            if type(D) is not type(h) or occurs(D, atm[X]) or getattr(D, 'shape', 0) != getattr(h, 'shape', 0):
                continue
            la = [p for p in reps if p != X and not isinstance(leaves[p], B) and occurs(D, atm[p])]
            if any(p in defs for p in la):
                continue
            if D == h:
                continue
            if DBG: print('DEFENT', X, D, la, subst(D, {atm[p]: ent[p] for p in la}), ent[X])
            if not eqt(ent[X], subst(D, {atm[p]: ent[p] for p in la})):
                continue
            trial = dict(elim)
            trial[atm[X]] = D
            ok = True
            for v, e in zip(vals, ends):
                lhs = vsubst(red(v[X]), trial)
                if DBG and has_bigmax(lhs) if isinstance(lhs,Poly) else 0: print('DEFTRY', X, D, lhs,'|', subst(D, {atm[p]: vsubst(red(v[p]), trial) for p in la}))
                rhs = subst(D, {atm[p]: vsubst(red(v[p]), trial) for p in la})
                if not eqt(lhs, rhs, [vsubst(q, trial) for q in e.pc]):
                    ok = False
                    break
            if ok:
                defs[X] = D
                # expand earlier definitions
                for a in list(elim):
                    elim[a] = vsubst(elim[a], {atm[X]: D})
                elim[atm[X]] = D
                break
    # (b2) leaves that take over the value of another one keep their distance to it
    def shifted(X):
        h = leaves[X]
        if X in defs or not isinstance(h, Poly) or not isinstance(ent[X], Poly) or \
                not all(isinstance(v[X], Poly) for v in vals):
            return False
        return all(any(occurs(red(v[X]), atm[Y]) for Y in reps if Y != X and isinstance(leaves[Y], Poly)) for v in vals)

    again = True
    while again:
        again = False
        for X in [p for p in reps if shifted(p)]:
            for Y in reps:
                if Y == X or Y in defs or not isinstance(leaves[Y], Poly) or not isinstance(ent[Y], Poly):
                    continue
                gap = ent[X] - ent[Y]
                if len(gap.d) > 3:
                    continue
                D = leaves[Y] + gap
                trial = dict(elim)
                trial[atm[X]] = D
                if all(eqt(vsubst(red(v[X]), trial), vsubst(red(v[Y]), trial) + gap, [vsubst(q, trial) for q in e.pc])
                       for v, e in zip(vals, ends)):
                    defs[X] = D
                    for a in list(elim):
                        elim[a] = vsubst(elim[a], {atm[X]: D})
                    elim[atm[X]] = D
                    again = True
                    break
    free = [p for p in reps if p not in defs]
    # (c) linear relations
    rel = []
    sc = []
    allatoms = set(atm.values())
    for p in free:
        if not isinstance(leaves[p], Poly) or not isinstance(ent[p], Poly):
            continue
        ds = [red(v[p]) - leaves[p] for v in vals if isinstance(v[p], Poly)]
        if len(ds) == len(vals) and not any(any(occurs(d, a) for a in allatoms) for d in ds):
            sc.append((p, ds))
    if sc:
        mons = sorted({(i, mm) for p, ds in sc for i, d in enumerate(ds) for mm in d.d}, key=repr)
        rows = [[ds[i].d.get(mm, Fr(0)) for p, ds in sc] for i, mm in mons]
        for v in nullspace(rows, len(sc)):
            lhs = ZERO
            for (p, ds), x in zip(sc, v):
                lhs = lhs + (leaves[p] - ent[p]) * x
            if lhs.d:
                rel.append(Eq0(lhs))
        for p, ds in sc:
            for q, dq in sc:
                if p == q:
                    continue
                ratio = None
                ok = True
                for x, y in zip(ds, dq):
                    if y == ONE:
                        if ratio is None:
                            ratio = x
                        elif ratio != x:
                            ok = False
                    elif not y.d:
                        if x.d:
                            ok = False
                    else:
                        ok = False
                if ok and ratio is not None and not ratio.is_const():
                    rel.append(Eq0(leaves[p] - ent[p] - ratio * (leaves[q] - ent[q])))
    # (d) inequalities
    bounds = set()
    # what the loop compares with to end: its condition, or that of leaving it
    for f in falses or [x for _, x, _ in exits]:
        for y in f.pc:
            if y in head.pc:
                continue
            for x in cmps(y):
                for mm, cc in x.a[0].d.items():
                    if len(mm) == 1 and mm[0][1] == 1 and mm[0][0] not in allatoms and mm[0][0].kind == 'sym':
                        bounds.add(P(mm[0][0]))
    for x in entry.pc:
        if x.k in ('lt', 'le') and len(x.a[0].d) <= 2:
            for mm, cc in x.a[0].d.items():
                if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == 'sym' and mm[0][0] is not NEQ:
                    bounds.add(P(mm[0][0]))
    ineq = []
    for p in free:
        h = leaves[p]
        if isinstance(h, Poly):
            ineq += [Gt(h, 0), Ge(h, 0)]
            for u in bounds:
                ineq += [Le(h, u), Ge(h, u)]
            if isinstance(ent[p], Poly) and not ent[p].is_const():
                ineq += [Ge(h, ent[p]), Le(h, ent[p])]
        elif isinstance(h, B):
            ineq += [h, Not(h)]
    # what a flag that starts false stands for, and bounds that hold after the
    # first iteration
    for p in free:
        h = leaves[p]
        if isinstance(h, B) and ent[p] in (FALSE, TRUE):
            # unset: the flag still has its initial value
            unset = Not(h) if ent[p] == FALSE else h
            flip = (lambda x: x) if ent[p] == FALSE else Not
            reasons = []
            for v, e in zip(vals, ends):
                tab = {}
                for Y in reps:
                    y1 = red(v[Y])
                    if isinstance(y1, (Poly, Lin)) and not (isinstance(y1, Poly) and y1.is_const()) and y1 != leaves[Y]:
                        tab.setdefault(y1, leaves[Y])
                tabs = [tab]
                if any(has_bigmax(y) for y in tab if isinstance(y, Poly)):
                    # the same in terms of the norms of vectors
                    tab2 = dict(tab)
                    for Y in reps:
                        if isinstance(leaves[Y], Lin) and leaves[Y].shape == 'v' and isinstance(v[Y], Lin):
                            tab2[models_norminf(red(v[Y]))] = models_norminf(leaves[Y])
                    tabs.append(tab2)
                if not isinstance(v[p], B):
                    continue
                x1 = flip(red(v[p]))
                if x1.k == 'true':
                    qs = [red(q) for q in e.pc if q not in head.pc]
                    rs = []
                    for t in tabs:
                        a = [(q, abstractb(q, t)) for q in qs]
                        rs.append(And(*[y for q, y in a if y != q]))
                    reasons.append(rs)
                elif x1.k != 'false':
                    if unset in e.pc:
                        x1 = vsubst(x1, {h: ent[p]})
                    for t in tabs:
                        ineq.append(Or(unset, abstractb(x1, t)))
            if reasons:
                for i in range(max(len(r) for r in reasons)):
                    ineq.append(Or(unset, *[r[min(i, len(r) - 1)] for r in reasons]))
            for q in free:
                if isinstance(leaves[q], Poly) and isinstance(ent[q], Poly) and ent[q].is_const():
                    ineq.append(Or(unset, Gt(leaves[q], ent[q])))
        elif isinstance(h, Poly) and h.isint() and isinstance(ent[p], Poly):
            ineq += [Or(Le(h, ent[p]), Le(h, u)) for u in bounds if u.isint()]
    # what leaving the loop at an entry of a matrix says of those passed
    for mat, Z, (p1, p2) in I.watch:
        seen = set()
        for x in [x for o in (ends, [o[1] for o in exits]) for e in o for q in e.pc if q not in head.pc for x in z3if.batoms(q)]:
            if isinstance(x, Atom) and x.kind == 'mel' and x.args[0] == mat:
                seen.add(x.args[1:])
        for x, y in seen:
            for p in free:
                h = leaves[p]
                if not (isinstance(h, Poly) and h.isint()):
                    continue
                for w, o, u in ((p1, p2, y), (p2, p1, x)):
                    v = x if w is p1 else y
                    if v == h:
                        for f in (Ge(w, h), Le(w, h)):
                            ineq += [Or(Z, f)]
                            if not occurs(u, atm[p]):
                                ineq += [Or(Z, f, Not(Eq(o, u)))]
        if not seen:
            for p in free:
                h = leaves[p]
                if isinstance(h, Poly) and h.isint():
                    ineq += [Or(Z, f) for w in (p1, p2) for f in (Ge(w, h), Le(w, h))]
    cand = [red(x) for x in rel + ineq]
    cand = [x for x in cand if x.k not in ('true', 'false')]
    entmap = {}
    for p in usable:
        entmap[atm[p]] = ent[p]
    cand = [x for i, x in enumerate(cand) if x not in cand[:i]]
    if DBG:
        print('FREE', [(str(p), str(ent[p])[:60], [str(v[p])[:90] for v in vals]) for p in free], 'BOUNDS', bounds)
        print('CAND', cand)
    cand = [x for x in cand if z3if.valid(entry.pc, vsubst(x, entmap), 800)]
    maps = []
    for v in vals:
        maps.append({atm[p]: red(v[p]) for p in usable})

    def houdini(cand, ends, maps, pcs):
        old = z3if.FAST[0]
        z3if.FAST[0] = 150
        try:
            return houdini1(cand, ends, maps, pcs)
        finally:
            z3if.FAST[0] = old

    def houdini1(cand, ends, maps, pcs):
        ch = True
        while ch and cand:
            ch = False
            for e, mp, pc in zip(ends, maps, pcs):
                bad = z3if.refuted(list(pc) + cand, [vsubst(x, mp) for x in cand], 800)
                bad = [cand[i] for i in bad]
                if bad:
                    cand = [x for x in cand if x not in bad]
                    ch = True
        return cand
    cand = houdini(cand, ends, maps, [[red(q) for q in e.pc] for e in ends])
    # drop implied (weaker) inequalities to keep path conditions small
    keep = []
    for x in cand:
        rest = [y for y in cand if y is not x and y not in ()]
        if x.k == 'le' and Lt0(x.a[0]) in cand and Lt0(x.a[0]) != x:
            continue
        keep.append(x)
    cand = keep
    # final run with the invariant
    for attempt in range(4):
        I.reset(m)
        h2 = head.copy()
        h2.heap = {k: red(v) for k, v in head.heap.items()}
        h2.pc = entry.pc
        h2.assume(*[red(x) for x in gen.facts])
        h2.assume(*cand)
        ends2, exits2, falses2 = step(I, h2, c, b, inc)
        bad = False
        lv2 = Leaves(I, gen, head)
        mps = []
        pcs = []
        for e in ends2:
            r = lv2.read(e)
            v = {p: simp(r.get(p), e.pc) for p in usable}
            mps.append({atm[p]: v[p] for p in usable})
            for p in usable:
                if atm[p] in elim:
                    d = elim[atm[p]]
                    want = vsubst(d, {atm[q]: v[q] for q in free})
                    if not eqt(v[p], want, e.pc):
                        if DBG: print('DEL', p, 'v', str(v[p])[:300], 'want', str(want)[:300])
                        del elim[atm[p]]
                        bad = True
        c2 = cand
        if not bad:
            c2 = houdini(cand, ends2, mps, [e.pc for e in ends2])
            bad = len(c2) != len(cand)
        if not bad:
            break
        cand = c2
        free = [p for p in usable if atm[p] not in elim]
    else:
        raise Unsupported('loop invariant does not close')
    rec = LoopRecord()
    rec.kind = 'inv'
    rec.node = node
    rec.entry = entry
    rec.head = h2
    rec.ends = ends2
    rec.exits = exits2
    rec.falses = falses2
    rec.leaves = {p: vsubst(leaves[p], elim) for p in leaves}
    rec.entryvals = ent
    rec.inv = list(cand)
    rec.defs = {p: elim[atm[p]] for p in usable if atm[p] in elim}
    rec.read = lambda st: lv.read(st)
    rec.gen = gen
    rec.again = lambda s: step(I, s, c, b, inc)
    I.loops.append(rec)
    I.oblig += (len(cand) + len(rec.defs)) * (1 + len(ends2))
    if I.on_loop:
        I.on_loop(rec)
    outs = [('n', f, None) for f in falses2] + exits2
    return I.merge_outs(outs)
