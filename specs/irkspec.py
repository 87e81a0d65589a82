"""Specification of implicit integration, over the recorded output, the counters
and the stage solver's contract (its body is checked against it under C11)."""
from specs.erkspec import *
from specs import erkspec, outspec

IOUT = 'irk::rk_output'
ISHAPES = [(1, False), (2, True), (3, True), (4, True), (5, True), (7, True)]
QUICK_MAX = 4


def ivariants(c, which=None):
    full = c.tier == 'thorough'
    out = []
    for n, emb in ISHAPES:
        for ad in ((True, False) if emb else (False,)):
            for md, ms in itertools.product((False, True), (False, True)):
                if not full and (md != ms or (md and n != 2)):
                    continue
                out.append(dict(Ns=n, emb=emb, adaptive=ad, max_dt=md, max_steps=ms))
    return [v for v in out if which is None or which(v)]


def iname(v):
    return 'implicit ' + vname(dict(v, fsal=False))


def irun(c, v, **kw):
    a = dict(v)
    n = a.pop('Ns')
    a.update(kw)
    ndebug = a.pop('ndebug', False)
    symout = a.pop('symout', False)
    R = irk_run(c.program(('api', 'irk'), ('NDEBUG',) if ndebug else ()), n, ndebug=ndebug, **a)
    R.Ns = n
    R.outsyms = [leafatom(a[k]) for k in ('mode', 'interval')] if symout else []
    c.use(R)
    c.fact('coefficients are those of the chosen method', all(m == sym('method', 'I') for m in R.methods) and R.methods,
           str(R.methods))
    c.fact('the stage solver gets the coefficients of the chosen method', all(x[0] == R.sc for x in R.solves) and R.solves)
    c.fact('returns on every path', all(k == 'v' for k, _, _ in R.outs) and len(R.outs) > 0)
    return R


def ieach(c, body, which=None, **kw):
    with c.part(''):
        c.program(('api', 'irk'))
    vs = sorted(ivariants(c, which), key=lambda v: -(v['Ns'] + 9 * v['adaptive'] + 3 * v['max_dt']))
    return [(iname(v), lambda c, v=v: body(c, irun(c, v, **kw), v)) for v in vs]


def both(c, ebody, ibody, ekw={}, ikw={}, ewhich=None, iwhich=None, relies=None):
    """the same property of both integrators, all shapes side by side"""
    with c.part(''):
        c.program(('api', 'irk'))
        c.program(('api', 'erk'))
    jobs = []
    if ibody:
        jobs += ieach(c, ibody, iwhich, **ikw)
    if ebody:
        vs = sorted(variants(c, ewhich), key=lambda v: -(v['Ns'] + 9 * v['adaptive'] + 3 * v['max_dt']))
        jobs += [(vname(v), lambda c, v=v: ebody(c, run(c, v, **ekw), v)) for v in vs]
    if relies:
        # the callee's contract, discharged here as well: the property needs it
        from specs import C11
        jobs += C11.relied_jobs(c, relies)
    c.parallel(jobs)


def solved(e):
    s = e.heap['g:~solve']
    return s if isinstance(s, Struct) else None


def invA(R):
    return R.I.models_mod.inverse(R.I, R.st, R.sc.f['A'])


def isegments(c, R):
    """consecutive recorded points with the stages they were formed from"""
    for what, pc, a, b, r, st in segments(c, R, IOUT):
        s = solved(st) if st is not None else None
        yield what, pc, a, b, r, st, s


# ------------------------------------------------------------------ C08
def c08(c, R, v):
    n = 0
    Ai = invA(R)
    for what, pc, a, b, r, st, s in isegments(c, R):
        n += 1
        c.cover(what, pc)
        if not c.fact('%s: a recorded step solves its stages' % what, s is not None):
            continue
        t, y = a['t_vals'], vent(a['y_vals'])
        h = b['t_vals'] - t
        c.eq('%s: stages solved at the time of the last point' % what, pc, s.f['t'], t)
        c.eq('%s: stages solved at the state of the last point' % what, pc, vent(s.f['y']), y)
        c.eq('%s: stages solved with the step taken' % what, pc, s.f['h'], h)
        c.prove('%s: the stage solver accepted the stages' % what, pc, Eq(s.f['status'], 0))
        Y = [vent(s.f['Y'], i) for i in range(R.Ns)]
        w = bmmul(bmt(Ai), R.sc.f['b'])
        want = y
        for j in range(R.Ns):
            want = want + Y[j].scale(coef(w, j, 0))
        c.eq('%s: new state is the old one plus the weighted stages' % what, pc, vent(b['y_vals']), want)
        S = b['stages']
        c.fact('%s: stage vector has all stages' % what, isinstance(S, BM) and len(S.ent) == R.Ns)
        for i in range(R.Ns):
            k = vzero()
            for j in range(R.Ns):
                k = k + Y[j].scale(coef(Ai, i, j) * recip(h))
            c.eq('%s: recorded stage %d' % (what, i + 1), pc, vent(S, i), k)
    c.fact('some step is recorded', n > 0)
    for r in main_loops(R, IOUT):
        h, cell = solution(r.head, IOUT)
        for e in r.ends:
            p = pushes(c, 'attempt', h, e.heap[cell])
            s = solved(e)
            if p is None or s is None:
                continue
            if not p:
                # nothing about the solution changes: the next step starts from the same point
                for f in LISTS:
                    c.fact('unused attempt: recorded %s unchanged' % f, h.f[f] == e.heap[cell].f[f])
    c.safety('integration', R.I)


# ------------------------------------------------------------------ C09
def c09(c, R, v):
    t0, t1 = sym('t0'), sym('t1')
    for r in main_loops(R, IOUT):
        s, cell = solution(r.entry, IOUT)
        pts = explicit_points(s)
        if c.fact('first recorded before the loop', pts is not None and len(pts) >= 1):
            c.eq('first time is t0', r.entry.pc, pts[0]['t_vals'], t0)
            c.eq('first state is y0', r.entry.pc, vent(pts[0]['y_vals']), R.y0)
    for what, pc, a, b, r, st, s in isegments(c, R):
        c.cover(what, pc)
        c.prove('%s: times increase strictly' % what, pc, Lt(a['t_vals'], b['t_vals']))
        c.prove('%s: times never exceed t1' % what, pc, Le(b['t_vals'], t1))
        if s is not None:
            c.prove('%s: only solved steps are recorded' % what, pc, Eq(s.f['status'], 0))
    for kind, st, v_ in R.outs:
        s = R.I.load(st, v_)
        c.cover('return', st.pc)
        n = s.f['t_vals'].length()
        for f in LISTS[1:]:
            c.eq('as many %s as times' % f, st.pc, s.f[f].length(), n)
        c.prove('success only at t1', st.pc, Or(Not(Eq(s.f['status'], 0)), Eq(tail(s)['t_vals'], t1)))
        c.prove('at least the initial point', st.pc, Ge(n, 1))
    if not v['adaptive']:
        # a failed stage solve ends a constant-step run
        for r in main_loops(R, IOUT):
            for e in r.ends:
                s = solved(e)
                if s is not None:
                    c.prove('constant step: goes on only with solved stages', e.pc, Eq(s.f['status'], 0))


# ------------------------------------------------------------------ C10
def estimate(R, p, s, h, alt, factor):
    """filtered embedded error of the attempt"""
    t, y = p['t_vals'], vent(p['y_vals'])
    Ai = invA(R)
    Y = [vent(s.f['Y'], i) for i in range(R.Ns)]
    sc = R.sc.f
    w, w2 = bmmul(bmt(Ai), sc['b']), bmmul(bmt(Ai), sc['b2'])
    d, d2 = vzero(), vzero()
    for j in range(R.Ns):
        d = d + Y[j].scale(coef(w, j, 0))
        d2 = d2 + Y[j].scale(coef(w2, j, 0))
    g = sc['gamma'] * h
    J = mapp('f', t, y)
    M = linv(IDENT + J.scale(-g))
    e = lmul(M, app('f', t, y).scale(g) + d2 - d).scale(factor)
    if alt:
        e = lmul(M, app('f', t, y + e).scale(g) + d2 - d).scale(factor)
    return e, y + d


def split(R, r, e, vals):
    """split an end on the loop's Boolean state that occurs in the values"""
    bs = set()
    for a in (leafatom(h) for h in r.leaves.values()):
        if isinstance(a, B) and a.k == 'bsym' and (any(occurs(x, a) for x in vals) or a in e.pc or Not(a) in e.pc):
            bs.add(a)
    out = [({}, list(e.pc))]
    for a in bs:
        nxt = []
        for mp, pc in out:
            for val in (TRUE, FALSE):
                pc2 = pc + [a if val is TRUE else Not(a)]
                if z3if.check(pc2, 3000) != 'unsat':
                    nxt.append(({**mp, a: val}, pc2))
        out = nxt
    return out


KEY10 = 'err-factor'


def c10(c, R, v):
    for r, h, cell, acc, rej in attempts(c, R, IOUT):
        c.fact('some attempts are accepted', len(acc) > 0)
        c.fact('some attempts are rejected', len(rej) > 0)
        p0 = tail(h)
        kinds = []
        Hs = list(dict.fromkeys(p[0]['t_vals'] - p0['t_vals'] for e, p in acc))
        found = set()
        for e, p in acc:
            if not c.fact('one point per accepted attempt', len(p) == 1):
                continue
            p = p[0]
            H = p['t_vals'] - p0['t_vals']
            s = solved(e)
            if not c.fact('accepted after a stage solve', s is not None):
                continue
            c.cover('accepted', e.pc)
            c.prove('accepted only if the stage solve succeeded', e.pc, Eq(s.f['status'], 0))
            for mp, pc in split(R, r, e, [vent(p['err_est']), p['err']]):
                rec = vsubst(vent(p['err_est']), mp)
                alt, fac, E = match_estimate(c, R, p0, s, H, rec, pc)
                if alt is None:
                    est, y2 = estimate(R, p0, s, H, False, ONE)
                    c.eq('recorded error vector is the filtered embedded error', pc, rec, est)
                    continue
                if fac is ONE:
                    c.note('recorded error vector is the filtered embedded error', 'proved', 'rewriting')
                else:
                    c.fail('recorded error vector is the filtered embedded error', 'refuted', 'rewriting',
                           'it carries an extra factor h', finding=KEY10)
                kinds.append((alt, mp, pc))
                found.add(fac)
                norm = sqrt(E)
                rn = vsubst(p['err'], mp)
                c.prove('accepted only if the error is at most 1', pc, Le(norm, 1))
                c.prove('recorded norm is the scaled norm or a tiny floor', pc,
                        Or(Eq(rn, norm), And(Gt(rn, norm), Lt(rn, FLOOR))))
        rejk = []
        for e, p in rej:
            s = solved(e)
            if not c.fact('rejected after a stage solve', s is not None):
                continue
            c.cover('rejected', e.pc)
            s2 = e.heap[cell]
            for f in LISTS:
                c.fact('rejected: recorded %s unchanged' % f, h.f[f] == s2.f[f])
            d = s2.f['count'].f['reject_err'] - h.f['count'].f['reject_err']
            failed = z3if.valid(e.pc, Not(Eq(s.f['status'], 0)), c.timeout())
            if failed:
                c.eq('failed solve: not counted as an error rejection', e.pc, d, ZERO)
                c.eq('failed solve: counted once', e.pc, s2.f['count'].f['reject_newton'],
                     h.f['count'].f['reject_newton'] + 1)
                continue
            c.prove('rejected only if solved or failed', e.pc, Eq(s.f['status'], 0))
            c.eq('rejected: counted once', e.pc, d, ONE)
            H = s.f['h']
            done = False
            for mp, pc in split(R, r, e, []):
                goal = None
                ok = False
                for fac in sorted(found, key=lambda x: x is not ONE) or [ONE]:
                    for alt in (True, False):
                        est, y2 = estimate(R, p0, s, H, alt, ONE if fac is ONE else H)
                        E = errnorm(vent(p0['y_vals']), y2, est)
                        goal = Gt(sqrt(E), 1)
                        if z3if.valid(pc, goal, c.timeout()):
                            ok = True
                            rejk.append((alt, mp, pc))
                            break
                    if ok:
                        break
                if ok:
                    c.note('rejected only if the error exceeds 1', 'proved', 'z3')
                else:
                    c.prove('rejected only if the error exceeds 1', pc, goal)
        # which formula is used when: refined (alt) first and after an error rejection
        ents = {leafatom(h_): r.entryvals[p] for p, h_ in r.leaves.items() if leafatom(h_) is not None and p in r.entryvals}
        for alt, mp, pc in kinds + rejk:
            if not alt:
                q = [vsubst(b, ents) for b in flags(pc, mp)]
                c.fact('the first attempt uses the refined estimate', z3if.check(list(r.entry.pc) + q, 3000) == 'unsat')
            for e, p in acc + rej:
                s = solved(e)
                isrej = not p
                failed = z3if.valid(e.pc, Not(Eq(s.f['status'], 0)), c.timeout())
                if failed:
                    continue
                lm = leafmap(r, e)
                q = [vsubst(b, lm) for b in flags(pc, mp)]
                if isrej and not alt:
                    c.fact('the attempt after an error rejection uses the refined estimate',
                           z3if.check(list(e.pc) + q, 3000) == 'unsat')
                if not isrej and alt:
                    c.fact('the attempt after an accepted step uses the plain estimate',
                           z3if.check(list(e.pc) + q, 3000) == 'unsat')


def flags(pc, mp):
    return [a if v is TRUE else Not(a) for a, v in mp.items()]


def match_estimate(c, R, p0, s, H, rec, pc):
    y = vent(p0['y_vals'])
    cs = [(alt, fac) + estimate(R, p0, s, H, alt, fac) for fac in (ONE, H) for alt in (True, False)]
    for test in (lambda e: rec == e, lambda e: z3if.equal(rec, e, pc, c.timeout())):
        for alt, fac, est, y2 in cs:
            if test(est):
                return alt, fac, errnorm(y, y2, est)
    return None, None, None


# ------------------------------------------------------------------ C04
def c04(c, R, v):
    t1 = sym('t1')
    q = minv(sym('order', 'I'), sym('order2', 'I'))
    for r, h, cell, acc, rej in attempts(c, R, IOUT):
        p0 = tail(h)
        Hs = [(e, p[0]['t_vals'] - p0['t_vals'], p[0]) for e, p in acc if p]
        c.fact('some attempts are accepted', len(Hs) > 0)
        sizes = list(dict.fromkeys(H for e, H, p in Hs))
        lim = [sym('dt'), t1 - sym('t0')] + ([sym('maxdt')] if v['max_dt'] else [])
        w = lim[0]
        for x in lim[1:]:
            w = minv(w, x)
        for H in sizes:
            c.eq('first size is the given one, cut to the limits', r.entry.pc, vsubst(H, entrymap(r)), w)
        for e in r.ends:
            s = solved(e)
            if s is None:
                continue
            c.cover('attempt', e.pc)
            H = s.f['h']
            c.prove('attempted size is positive', e.pc, Gt(H, 0))
            c.prove('attempted size does not pass the end', e.pc, Le(p0['t_vals'] + H, t1))
            if v['max_dt']:
                c.prove('attempted size respects the maximum', e.pc, Le(H, sym('maxdt')))
        if not v['adaptive']:
            for e, H, p in Hs:
                c.eq('constant size until the end', list(e.pc) + [Lt(p['t_vals'], t1)],
                     next_size(r, H, e), minv(H, t1 - p['t_vals']))
            c.fact('nothing is rejected without adaptive stepping', not rej)
            continue
        for e, H, p in Hs:
            pc = list(e.pc) + [Lt(p['t_vals'], t1)]
            # the bound holds for the recorded norm, whatever it is
            err = p['err']
            for H2 in sizes:
                got = next_size(r, H2, e)
                c.prove('size after acceptance is positive', pc, Gt(got, 0))
                law(c, R, r, e, 'size after acceptance', pc, got, H, err, q, t1 - p['t_vals'], v, solved(e), p)
        c.fact('some attempts are rejected', len(rej) > 0)
        for e, p in rej:
            s = solved(e)
            if s is None:
                continue
            H = s.f['h']
            for H2 in sizes:
                got = next_size(r, H2, e)
                c.prove('size after a failed attempt is positive', e.pc, Gt(got, 0))
                c.prove('size after a failed attempt is strictly smaller', e.pc, Lt(got, H))
    c.safety('step sizes', R.I)


def law(c, R, r, e, name, pc, got, H, err, q, room, v, s, p):
    """next = min(F h min(8, err^-x, history), limits) with F at most 1: the growth is
    capped and never exceeds the plain controller's"""
    x = recip(1 + q)
    E = powv(recip(err), x)
    cap = minv(P(8), E)
    c.prove('%s: bounded by the controller and its cap' % name, pc,
            And(Le(got, H * cap), Le(got, room), *([Le(got, sym('maxdt'))] if v['max_dt'] else [])))


# ------------------------------------------------------------------ C05
def c05(c, R, v):
    for kind, st, v_ in R.outs:
        s = R.I.load(st, v_)
        c.cover('return', st.pc)
        k = s.f['count'].f
        acc = s.f['t_vals'].length() - 1
        c.eq('right-hand side evaluations reported are the calls made', st.pc, k['fun_evals'], st.heap['g:nfun'])
        c.eq('Jacobian evaluations reported are the calls made', st.pc, k['jac_evals'], st.heap['g:njac'])
        ab = k['attempt'] - acc - k['reject_err'] - k['reject_newton']
        ab2 = k['attempt'] - k['newton_success'] - k['reject_newton']
        for nm, x in (('attempts = accepted + rejected (+ aborted)', ab),
                      ('attempts = solved + unsolved (+ aborted)', ab2)):
            c.prove(nm, st.pc, Or(Eq(x, 0), And(Eq(x, 1), Not(Eq(s.f['status'], 0)))))
            c.prove(nm + ' on success', list(st.pc) + [Eq(s.f['status'], 0)], Eq(x, 0))
            c.prove(nm + ' at the step limit', list(st.pc) + [Eq(s.f['status'], 128)], Eq(x, 0))
        c.prove('accept fraction on success', list(st.pc) + [Eq(s.f['status'], 0)],
                Eq(s.f['accept_frac'] * k['attempt'], acc))


# ------------------------------------------------------------------ C06
def c06(c, R, v):
    for kind, st, v_ in R.outs:
        s = R.I.load(st, v_)
        acc = s.f['t_vals'].length() - 1
        t1, last = sym('t1'), tail(s)['t_vals']
        c.cover('return', st.pc)
        stt = s.f['status']
        failed = FALSE if v['adaptive'] else And(Not(Eq(stt, 128)), Not(Eq(stt, 0)), Lt(last, t1))
        if v.get('max_steps'):
            N = sym('maxs', 'I')
            c.prove('at most N accepted steps', st.pc, Le(acc, N))
            c.prove('step-limit status exactly when stopped early', st.pc,
                    Or(And(Eq(stt, 128), Lt(last, t1), Eq(acc, N)), And(Eq(stt, 0), Eq(last, t1)), failed))
        else:
            c.prove('a negative limit never stops a run', st.pc, Or(And(Eq(stt, 0), Eq(last, t1)), failed))
    for r, h, cell, acc, rej in attempts(c, R, IOUT):
        for e, p in acc:
            c.fact('one point per accepted step', len(p) == 1)


# ------------------------------------------------------------------ C07
def c07(c, R, v):
    def accepted(s):
        k = s.f['count'].f
        return k['attempt'] - k['reject_err'] - k['reject_newton']
    outspec.c07(c, R, accepted, IOUT)
