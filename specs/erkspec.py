"""Specification of explicit integration, stated over what the API shows: the
recorded output, the counters, the status.  Nothing here names a local variable."""
from spec import *
from ctx import clip
import itertools
from fractions import Fraction as Fr

OUT = 'erk::rk_output'
LISTS = ('t_vals', 'y_vals', 'stages', 'err_est', 'err')
# shapes of the offered methods: stages, reuses last stage, embedded pair
SHAPES = [(1, False, False), (4, False, False), (4, True, True), (6, False, True), (7, True, True)]


class Point:
    def __init__(self, sol, i):
        self.__dict__.update({f: sol[f][i] for f in LISTS})


def elems(s, n=None):
    """the explicit elements at the end of a sequence"""
    k = s.tailn()
    return [c[1] for c in s.ch[len(s.ch) - k:]]


def solution(st, cls=OUT):
    cs = output_cells(st, cls)
    if len(cs) != 1:
        raise Unsupported('%d result objects' % len(cs))
    return st.heap[cs[0]], cs[0]


def is_main(r, cls=OUT):
    if r.kind != 'inv':
        return False
    for c, v in r.head.heap.items():
        if isinstance(v, Struct) and v.cls == cls and isinstance(v.f['t_vals'], Seq) and \
                (v.f['t_vals'].pre is not None or v.f['count'] != r.entry.heap[c].f['count']):
            return True
    return False


def main_loops(R, cls=OUT):
    rs = [r for r in R.I.loops if is_main(r, cls)]
    if not rs:
        raise Unsupported('no integration loop found')
    return rs


def tail(sol):
    """the last recorded point of every list"""
    d = {}
    for f in LISTS:
        e = elems(sol.f[f])
        if not e:
            raise Unsupported('no last recorded %s' % f)
        d[f] = e[-1]
    return d


def pushes(c, what, a, b):
    """points recorded going from solution a to solution b"""
    new = {}
    for f in LISTS:
        x, y = a.f[f], b.f[f]
        same = x.pre == y.pre and x.plen == y.plen and y.ch[:len(x.ch)] == x.ch
        if not same:
            # a conditional push: both outcomes merged; not expected
            c.note('%s: recorded %s only grows' % (what, f), 'refuted', 'rewriting', clip(y))
            return None
        rest = y.ch[len(x.ch):]
        if any(k[0] != 'e' for k in rest):
            raise Unsupported('points recorded by an inner loop')
        new[f] = [k[1] for k in rest]
    ns = {f: len(v) for f, v in new.items()}
    if len(set(ns.values())) != 1:
        c.note('%s: all lists get the same number of entries' % what, 'refuted', 'rewriting', str(ns))
        return None
    n = ns['t_vals']
    return [{f: new[f][i] for f in LISTS} for i in range(n)]


def segments(c, R, cls=OUT):
    """(what, path condition, previous point, next point, loop, end state) for every
    pair of consecutive recorded points, wherever it is recorded"""
    out = []
    for r in main_loops(R, cls):
        h, cell = solution(r.head, cls)
        e0 = r.entry.heap[cell]
        pts = explicit_points(e0)
        if pts is not None:
            for a, b in zip(pts, pts[1:]):
                out.append(('before the loop', r.entry.pc, a, b, r, r.entry))
        for k, e in enumerate(r.ends):
            p = pushes(c, 'step', h, e.heap[cell])
            if p is None:
                continue
            prev = tail(h)
            for x in p:
                out.append(('step', e.pc, prev, x, r, e))
                prev = x
    for kind, st, v in R.outs:
        v = R.I.load(st, v) if kind == 'v' else None
        if not isinstance(v, Struct):
            continue
        pts = explicit_points(v)
        if pts is not None:
            for a, b in zip(pts, pts[1:]):
                out.append(('after', st.pc, a, b, None, st))
            continue
        for r in main_loops(R, cls):
            h, cell = solution(r.head, cls)
            if v.f['t_vals'].pre == h.f['t_vals'].pre:
                p = pushes(c, 'exit', h, v)
                prev = tail(h)
                for x in p or ():
                    out.append(('exit', st.pc, prev, x, r, st))
                    prev = x
                break
        else:
            pts = [dict(zip(LISTS, z)) for z in zip(*[elems(v.f[f]) for f in LISTS])]
            for a, b in zip(pts, pts[1:]):
                out.append(('after', st.pc, a, b, None, st))
    return out


def explicit_points(v):
    if not all(isinstance(v.f[f], Seq) and v.f[f].explicit() for f in LISTS):
        return None
    return [dict(zip(LISTS, z)) for z in zip(*[v.f[f].vals() for f in LISTS])]


def stages_of(R, t, y, h):
    """k_1 .. k_s of the formula"""
    sc = R.sc.f
    ks = []
    A, cc = sc['A'], sc['c']
    n = R.Ns
    for i in range(n):
        z = y
        for j in range(i):
            z = z + ks[j].scale(h * coef(A, i, j))
        ks.append(app('f', t + coef(cc, i, 0) * h, z))
    return ks


def coef(M, i, j):
    return M.ent[i][j]


def vent(x, i=0):
    """Lin in block row i of a one-column matrix"""
    return x.ent[i][0]


def combo(R, w, ks):
    z = vzero()
    for i, k in enumerate(ks):
        z = z + k.scale(coef(R.sc.f[w], i, 0))
    return z


def errnorm(y, y2, e):
    """root mean square of e_i / (atol + rtol max(|y_i|, |y2_i|))"""
    k = atom('sym', '#err', sort='I')
    kp = P(k)
    q = elem(e, kp) * recip(sym('atol') + sym('rtol') * maxv(absv(elem(y, kp)), absv(elem(y2, kp))))
    return sumk(k, ZERO, NP, q * q) * recip(NP)


def variants(c, which=None):
    """option combinations; the constants of a method are symbols"""
    full = c.tier == 'thorough'
    out = []
    for n, fsal, emb in SHAPES:
        for ad in ((True, False) if emb else (False,)):
            for md, ms in itertools.product((False, True), (False, True)):
                if not full and n > 2 and (md or ms) and not (n == 4 and fsal and md and ms):
                    continue
                out.append(dict(Ns=n, fsal=fsal, emb=emb, adaptive=ad, max_dt=md, max_steps=ms))
    return [v for v in out if which is None or which(v)]


def vname(v):
    return 's=%d%s%s%s%s%s' % (v['Ns'], ' fsal' if v['fsal'] else '', ' adaptive' if v['adaptive'] else '',
                              ' embedded' if v['emb'] and not v['adaptive'] else '',
                              ' max_dt' if v.get('max_dt') else '', ' max_steps' if v.get('max_steps') else '')


def run(c, v, **kw):
    a = dict(v)
    n = a.pop('Ns')
    a.update(kw)
    ndebug = a.pop('ndebug', False)
    symout = a.pop('symout', False)
    R = erk_run(c.program(('api', 'erk'), ('NDEBUG',) if ndebug else ()), n, ndebug=ndebug, **a)
    R.Ns = n
    R.outsyms = [leafatom(a[k]) for k in ('mode', 'interval')] if symout else []
    c.use(R)
    c.fact('coefficients are those of the chosen method', all(m == sym('method', 'I') for m in R.methods) and R.methods,
           str(R.methods))
    c.fact('returns on every path', all(k == 'v' for k, _, _ in R.outs) and len(R.outs) > 0)
    return R


def each(c, body, which=None, **kw):
    with c.part(''):
        c.program(('api', 'erk'))
    # the expensive ones first
    vs = sorted(variants(c, which), key=lambda v: -(v['Ns'] + 9 * v['adaptive'] + 3 * v['max_dt']))
    c.parallel([(vname(v), lambda c, v=v: body(c, run(c, v, **kw), v)) for v in vs])


# ------------------------------------------------------------------ C01
def c01(c, R, v):
    n = 0
    for what, pc, a, b, r, st in segments(c, R):
        n += 1
        c.cover(what, pc)
        t, y = a['t_vals'], vent(a['y_vals'])
        h = b['t_vals'] - t
        ks = stages_of(R, t, y, h)
        want = y + combo(R, 'b', ks).scale(h)
        got = vent(b['y_vals'])
        c.eq('%s: new state is the Runge-Kutta formula' % what, pc, got, want)
        S = b['stages']
        c.fact('%s: stage vector has all stages' % what, isinstance(S, BM) and len(S.ent) == R.Ns)
        for i, k in enumerate(ks):
            c.eq('%s: recorded stage %d' % (what, i + 1), pc, vent(S, i), k)
    c.fact('some step is recorded', n > 0)
    c.safety('integration', R.I)


# ------------------------------------------------------------------ C02
def c02(c, R, v):
    t0, t1 = sym('t0'), sym('t1')
    for r in main_loops(R):
        s, cell = solution(r.entry)
        pts = explicit_points(s)
        if c.fact('first recorded before the loop', pts is not None and len(pts) >= 1):
            c.eq('first time is t0', r.entry.pc, pts[0]['t_vals'], t0)
            c.eq('first state is y0', r.entry.pc, vent(pts[0]['y_vals']), R.y0)
    for what, pc, a, b, r, st in segments(c, R):
        c.cover(what, pc)
        c.prove('%s: times increase strictly' % what, pc, Lt(a['t_vals'], b['t_vals']))
        c.prove('%s: times never exceed t1' % what, pc, Le(b['t_vals'], t1))
    for kind, st, v_ in R.outs:
        s = R.I.load(st, v_)
        c.cover('return', st.pc)
        n = s.f['t_vals'].length()
        for f in LISTS[1:]:
            c.eq('as many %s as times' % f, st.pc, s.f[f].length(), n)
        c.prove('success only at t1', st.pc, Or(Not(Eq(s.f['status'], 0)), Eq(tail(s)['t_vals'], t1)))
        c.prove('at least the initial point', st.pc, Ge(n, 1))


# ------------------------------------------------------------------ C03
def attempts(c, R, cls=OUT):
    """per loop: the ends that record a step with its size, and the others"""
    for r in main_loops(R, cls):
        h, cell = solution(r.head, cls)
        acc, rej = [], []
        for e in r.ends:
            p = pushes(c, 'attempt', h, e.heap[cell])
            if p is None:
                continue
            (acc if p else rej).append((e, p))
        yield r, h, cell, acc, rej


def attempt_err(R, h, H):
    """scaled error squared of an attempt of size H from the last recorded point"""
    p = tail(h)
    t, y = p['t_vals'], vent(p['y_vals'])
    ks = stages_of(R, t, y, H)
    y2 = y + combo(R, 'b', ks).scale(H)
    e = combo(R, 'b2', ks).scale(H) - combo(R, 'b', ks).scale(H)
    return e, errnorm(y, y2, e)


FLOOR = Fr(1, 10 ** 10)


def c03(c, R, v):
    from fractions import Fraction
    for r, h, cell, acc, rej in attempts(c, R):
        c.fact('some attempts are accepted', len(acc) > 0)
        sizes = []
        for e, p in acc:
            c.fact('one point per accepted attempt', len(p) == 1)
            H = p[0]['t_vals'] - tail(h)['t_vals']
            sizes.append(H)
            if not v['adaptive']:
                continue
            est, E2 = attempt_err(R, h, H)
            E = sqrt(E2)
            c.cover('accepted', e.pc)
            c.prove('accepted only if the error is below 1', e.pc, Lt(E, 1))
            c.eq('recorded error vector', e.pc, vent(p[0]['err_est']), est)
            rec = p[0]['err']
            c.prove('recorded norm is the scaled norm or a tiny floor', e.pc,
                    Or(Eq(rec, E), And(Gt(rec, E), Lt(rec, FLOOR))))
            c.prove('recorded norm is positive', e.pc, Gt(rec, 0))
        if not v['adaptive']:
            c.fact('no attempt is rejected without adaptive stepping', not rej)
            continue
        c.fact('some attempts are rejected', len(rej) > 0)
        for e, p in rej:
            c.cover('rejected', e.pc)
            ok = False
            goals = []
            for H in dict.fromkeys(sizes):
                est, E2 = attempt_err(R, h, H)
                goals.append(Ge(sqrt(E2), 1))
            ok = any(z3if.valid(e.pc, g, c.timeout()) for g in goals)
            if ok:
                c.note('rejected only if the error is at least 1', 'proved', 'z3')
            else:
                c.prove('rejected only if the error is at least 1', e.pc, goals[0] if goals else FALSE)
            s, s2 = h, e.heap[cell]
            for f in LISTS:
                c.fact('rejected: recorded %s unchanged' % f, s.f[f] == s2.f[f])
            c.eq('rejected: one more rejected attempt', e.pc, s2.f['count'].f['reject_err'],
                 s.f['count'].f['reject_err'] + 1)
        for e, p in acc:
            c.eq('accepted: rejected attempts unchanged', e.pc, e.heap[cell].f['count'].f['reject_err'],
                 h.f['count'].f['reject_err'])


def leafatom(h):
    """the symbol of a head leaf (None when an invariant has replaced it by a term)"""
    if isinstance(h, B):
        return h
    if len(h.d) != 1:
        return None
    (m, k), = h.d.items()
    if isinstance(h, Poly):
        return m[0][0] if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym' else None
    return m[0] if len(m) == 1 and k == ONE and m[0].kind == 'sym' else None


def leafmap(r, st):
    """head leaves -> their values when the loop comes round"""
    vals = r.read(st)
    mp = {}
    for p, h in r.leaves.items():
        if p in vals and vals[p] is not None:
            a = leafatom(h)
            if a is not None:
                mp[a] = vals[p]
    return mp


def next_size(r, H, st):
    """size of the attempt that follows, if the loop continues from st"""
    return vsubst(H, leafmap(r, st))


def c04(c, R, v):
    t1 = sym('t1')
    q = minv(sym('order', 'I'), sym('order2', 'I'))
    for r, h, cell, acc, rej in attempts(c, R):
        Hs = [(e, p[0]['t_vals'] - tail(h)['t_vals'], p[0]) for e, p in acc if p]
        c.fact('some attempts are accepted', len(Hs) > 0)
        first = set()
        for e, H, p in Hs:
            c.cover('accepted', e.pc)
            c.prove('accepted size is positive', e.pc, Gt(H, 0))
            if v['max_dt']:
                c.prove('accepted size respects the maximum', e.pc, Le(H, sym('maxdt')))
            H0 = vsubst(H, entrymap(r))
            lim = [sym('dt'), t1 - sym('t0')] + ([sym('maxdt')] if v['max_dt'] else [])
            w = lim[0]
            for x in lim[1:]:
                w = minv(w, x)
            if H0 not in first:
                first.add(H0)
                c.eq('first size is the given one, cut to the limits', r.entry.pc, H0, w)
        if not v['adaptive']:
            for e, H, p in Hs:
                c.eq('constant size until the end', list(e.pc) + [Lt(p['t_vals'], t1)],
                     next_size(r, H, e), minv(H, t1 - p['t_vals']))
            continue
        for e, H, p in Hs:
            est, E2 = attempt_err(R, h, H)
            err = p['err']
            for e2, H2, p2 in Hs:
                g = growth(q, err, H)
                want = capped(g, t1 - p['t_vals'], v)
                got = next_size(r, H2, e)
                c.eq('size after acceptance', list(e.pc) + [Lt(p['t_vals'], t1)], got, want)
        for e, p in rej:
            for e2, H, p2 in Hs:
                est, E2 = attempt_err(R, h, H)
                E = sqrt(E2)
                got = next_size(r, H, e)
                c.cover('rejected', e.pc)
                c.prove('size after rejection is positive', e.pc, Gt(got, 0))
                g = growth(q, E, H)
                c.eq('size after rejection', e.pc, got, capped(g, t1 - tail(h)['t_vals'], v))
                # err^(-1/(1+q)) is at most 1 for err >= 1
                x = powv(recip(E), recip(1 + q))
                lemma = Le(x, 1)
                c.prove('size after rejection is strictly smaller', list(e.pc) + [lemma], Lt(got, H))
    c.safety('step sizes', R.I)


def growth(q, err, H):
    return Fr(9, 10) * H * minv(P(4), powv(recip(err), recip(1 + q)))


def capped(g, room, v):
    if v['max_dt']:
        g = minv(g, sym('maxdt'))
    return minv(g, room)


def entrymap(r):
    mp = {}
    for p, h in r.leaves.items():
        a = leafatom(h)
        if a is not None:
            mp[a] = r.entryvals[p]
    return mp


# ------------------------------------------------------------------ C05
def c05(c, R, v):
    for kind, st, v_ in R.outs:
        s = R.I.load(st, v_)
        c.cover('return', st.pc)
        k = s.f['count'].f
        acc = s.f['t_vals'].length() - 1
        c.eq('evaluations reported are the calls made', st.pc, k['fun_evals'], st.heap['g:nfun'])
        c.eq('no Jacobian is evaluated', st.pc, st.heap['g:njac'], ZERO)
        # an attempt on which the run was aborted
        ab = k['attempt'] - acc - k['reject_err']
        if v.get('max_steps'):
            c.prove('attempts = accepted + rejected (+ aborted)', st.pc,
                    Or(Eq(ab, 0), And(Eq(ab, 1), Not(Eq(s.f['status'], 0)))))
        else:
            c.eq('attempts = accepted + rejected', st.pc, ab, ZERO)
        c.prove('accept fraction on success', list(st.pc) + [Eq(s.f['status'], 0)],
                Eq(s.f['accept_frac'] * k['attempt'], acc))


# ------------------------------------------------------------------ C06
def c06(c, R, v):
    for kind, st, v_ in R.outs:
        s = R.I.load(st, v_)
        acc = s.f['t_vals'].length() - 1
        t1, last = sym('t1'), tail(s)['t_vals']
        c.cover('return', st.pc)
        stt = s.f['status']
        if v.get('max_steps'):
            N = sym('maxs', 'I')
            c.prove('at most N accepted steps', st.pc, Le(acc, N))
            c.prove('step-limit status exactly when stopped early', st.pc,
                    Or(And(Eq(stt, 128), Lt(last, t1), Eq(acc, N)), And(Eq(stt, 0), Eq(last, t1))))
        else:
            c.prove('a negative limit never stops a run', st.pc, And(Eq(stt, 0), Eq(last, t1)))
    for r, h, cell, acc, rej in attempts(c, R):
        for e, p in acc:
            c.fact('one point per accepted step', len(p) == 1)


# ------------------------------------------------------------------ C07
def c07(c, R, v):
    from specs import outspec
    outspec.c07(c, R, lambda s: s.f['count'].f['attempt'] - s.f['count'].f['reject_err'])
