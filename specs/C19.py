"""Broyden iteration keeps the secant equation and reports honestly.

The inverse Jacobian estimate is identified by what it does: it is the matrix
of the state for which the first step from an arbitrary iteration is
-B*F(x), damped and cut.  The iteration is then executed once more from every
state it can end in, and the second step must use the updated estimate."""
from spec import *
from ctx import clip
import models
HARNESS = 'newton'
ASSUMPTIONS = ['the denominator dx^T B df of the rank-one update is not zero']


def feval(y):
    return app('F', ZERO, y)


def run(prog, quiet, cap, ndebug=False):
    def fun(I, st, obj, args, f):
        x = models.lin_arg(I, st, args[0])
        st.heap['g:d'] = x - st.heap['g:x']
        st.heap['g:x'] = x
        st.heap['g:nfun'] = st.heap['g:nfun'] + 1
        return vec(feval(x))

    R = Run(prog, {'vp_sys::fun': fun}, ndebug)
    st = R.st
    R.x0 = vsym('x0')
    st.heap['g:x'] = R.x0
    st.heap['g:d'] = vzero()
    R.delta, R.maxit, R.cap, R.tol = sym('dxdelta'), sym('maxit', 'I'), sym('cap'), sym('tol')
    st.assume(Gt(R.delta, 0), Gt(R.tol, 0), Gt(R.cap, 0) if cap else Le(R.cap, 0))
    R.opts = R.obj('newton::options', tol=R.tol, dx_delta=R.delta, maxit=R.maxit, max_step=R.cap)
    R.stats = R.cell(Struct('newton::status', {'conv_status': sym('anycode', 'I'), 'res': sym('anyres'), 'iters': sym('anyit', 'I'),
                                               'eta_final': sym('anyeta')}), 'stats')
    f = R.find('newton::broyden_iterate', 5)
    R.call(f, [Struct('vp_sys', {}), vec(R.x0), R.opts, R.stats, TRUE if quiet else FALSE])
    return R


def steps(R, x, Bm, cap):
    """(condition, step) alternatives from x with the estimate Bm"""
    F = feval(x)
    d = -lmul(Bm, F).scale(recip(sqrt(ONE + lmul(F.t(), F))))
    if not cap:
        return [(TRUE, d)]
    n2 = lmul(d.t(), d)
    big = Gt(n2, R.cap * R.cap)
    return [(Not(big), d), (big, d.scale(sqrt(R.cap * R.cap * recip(n2))))]


FORMS = (('B', lambda m: m), ('-B', lambda m: -m), ('B^T', lambda m: m.t()), ('-B^T', lambda m: -m.t()))


def matrices(st):
    """places that hold N x N matrices"""
    out = []

    def walk(p, v):
        if isinstance(v, BM) and v.rows == ('N',) and v.cols == ('N',):
            out.append(p)
        elif isinstance(v, Struct):
            for k, x in v.f.items():
                walk(p + (k,), x)
        elif isinstance(v, Arr):
            for k, x in enumerate(v.v):
                walk(p + (k,), x)
    for c, v in st.heap.items():
        walk((c,), v)
    return out


def at(st, p):
    v = st.heap.get(p[0])
    for k in p[1:]:
        v = v.f.get(k) if isinstance(v, Struct) else v.v[k] if isinstance(v, Arr) else None
    return v.ent[0][0] if isinstance(v, BM) and v.rows == ('N',) and v.cols == ('N',) else None


def live(pc):
    return not z3if.valid(list(pc), FALSE, 2000)


def uses(c, R, st0, ends, Bm, cap):
    """does every step from st0 use the estimate Bm?"""
    x = st0.heap['g:x']
    bad = [ ]
    for e in ends:
        for cond, d in steps(R, x, Bm, cap):
            pc = list(e.pc) + [cond]
            if live(pc) and not loops.eqt(e.heap['g:d'], d, pc):
                return False
    return True


def updated(x, x2, Bm):
    dx = x2 - x
    df = feval(x2) - feval(x)
    row = lmul(dx.t(), Bm)
    den = lmul(row, df)
    return Bm + lmul(dx - lmul(Bm, df), row).scale(recip(den)), dx, df, den


def check(c, prog, quiet, cap, ndebug=False):
    R = run(prog, quiet, cap, ndebug)
    c.use(R)
    codes = prog.enums['newton::newton_solve_ret_codes']
    main = [r for r in R.I.loops if r.kind == 'inv' and any(e.heap['g:nfun'] != r.head.heap['g:nfun'] for e in r.ends)]
    c.fact('one loop iterates', len(main) == 1, len(main))
    for r in main:
        h = r.head
        c.eq('before the first step only the guess was evaluated', r.entry.pc, r.entry.heap['g:nfun'], ONE)
        c.eq('the guess is the first iterate', r.entry.pc, r.entry.heap['g:x'], R.x0)
        x = h.heap['g:x']
        est = [(p, n, g) for p in matrices(h) if at(h, p) is not None for n, g in FORMS if uses(c, R, h, r.ends, g(at(h, p)), cap)]
        if not c.fact('every step uses an estimate B of the inverse Jacobian', len(est) > 0, [clip(e.heap['g:d']) for e in r.ends][:2]):
            continue
        good = [(p, n, g) for p, n, g in est if at(r.entry, p) is not None and g(at(r.entry, p)) == IDENT]
        if not c.fact('the first step uses the identity', len(good) > 0, [(p, clip(at(r.entry, p))) for p, n, g in est][:2]):
            continue
        for e in r.ends:
            c.cover('step', e.pc)
            c.eq('one evaluation per update', e.pc, e.heap['g:nfun'], h.heap['g:nfun'] + 1)
            if cap:
                d = e.heap['g:d']
                c.prove('update no longer than the maximum step', e.pc, Le(lmul(d.t(), d), R.cap * R.cap))
            ok = False
            for p, n, g in good:
                b1 = at(e, p)
                nb = updated(x, e.heap['g:x'], g(at(h, p)))[0]
                ok = ok or (b1 is not None and loops.eqt(g(b1), nb, e.pc))
            c.fact('the next step uses the good-Broyden update of B', ok, [clip(at(e, p)) for p, n, g in good][:1])
        c.fact('a step is possible', len(r.ends) > 0)
    # lemma: the update satisfies the secant equation
    Bm, dx, df = msym('B'), vsym('dx'), vsym('df')
    row = lmul(dx.t(), Bm)
    den = lmul(row, df)
    nb = Bm + lmul(dx - lmul(Bm, df), row).scale(recip(den))
    c.eq('lemma: the good-Broyden update satisfies B df = dx', [Not(Eq(den, 0))], lmul(nb, df), dx)
    for k, s, v in R.outs:
        if not c.fact('returns', k == 'v'):
            continue
        c.cover('return', s.pc)
        sv = R.I.load(s, R.stats)
        v = R.I.load(s, v)
        h = s.heap
        it, code = sv.f['iters'], sv.f['conv_status']
        F = feval(h['g:x'])
        F2 = lmul(F.t(), F)
        c.prove('fewer updates than the limit', s.pc, Or(Eq(h['g:nfun'], 1), Lt(h['g:nfun'] - 1, R.maxit)))
        c.prove('success or out of iterations', s.pc, Or(*[Eq(code, codes[n]) for n in ('SUCCESS', 'MAXIT_EXCEEDED')]))
        c.eq('the point returned is the last one evaluated', s.pc, v.ent[0][0], h['g:x'])
        c.eq('reported residual', s.pc, sv.f['res'], sqrt(F2))
        if quiet:
            c.fact('prints nothing', h['g:printed'] == FALSE)
        ok = list(s.pc) + [Eq(code, codes['SUCCESS'])]
        if live(ok):
            c.cover('success', ok)
            c.prove('success: step or residual below the tolerance', ok,
                    And(Ge(h['g:nfun'], 2), Or(Lt(models.norminf(None, None, vec(h['g:d'])), R.delta), Lt(F2, R.tol * R.tol))))
    c.safety('broyden', R.I)


def verify(c):
    with c.part('extraction'):
        prog = c.program(('api', 'newton'))
        c.parallel([('%s%s' % ('quiet' if q else 'verbose', ' capped' if k else ''), (lambda c, q=q, k=k: check(c, prog, q, k)))
                    for q in (True, False) for k in (False, True)])
