"""Contract of the Newton solver, for every combination of its options.

The iterates are defined by what can be observed: the points at which the
system is evaluated.  Ghost locations hold the last such point, the last point
at which the Jacobian was evaluated, the counts of both, and the direction of
the last step (the step divided by the damping factor)."""
from spec import *
from values import Opq
from ctx import clip
import models

ASSUMPTIONS = ['the linear solver either throws or returns the exact solution of a regular system',
               'std::isfinite may answer either way']


def feval(y):
    return app('F', ZERO, y)


def newton_run(prog, refresh, precond, timing, limit, quiet, cap, ndebug=False):
    def fun(I, st, obj, args, f):
        x = models.lin_arg(I, st, args[0])
        old = st.heap['g:x']
        F = feval(old)
        d = x - old
        if limit:
            # divided by the damping factor
            (m, _), = recip(ONE + lmul(F.t(), F)).d.items()
            d = d.scale(Poly({tuple((a, -e) for a, e in m): ONE.const()}))
        st.heap['g:d'] = d
        st.heap['g:x'] = x
        st.heap['g:nfun'] = st.heap['g:nfun'] + 1
        return vec(feval(x))

    def jac(I, st, obj, args, f):
        x = models.lin_arg(I, st, args[0])
        st.heap['g:jx'] = x
        st.heap['g:njac'] = st.heap['g:njac'] + 1
        return BM(('N',), ('N',), [[mapp('F', ZERO, x)]])

    def solve(I, st, obj, args, f, e=None):
        if I.choose(2):
            st.heap['g:threw'] = TRUE
            raise CppThrow(Opq('std::runtime_error', 'solve', ZERO))
        return models.m_solve(I, st, obj, args, f, e)

    R = Run(prog, {'vp_sys::fun': fun, 'vp_sys::jac': jac, 'arma::solve': solve}, ndebug)
    st = R.st
    R.x0 = vsym('x0')
    st.heap['g:x'] = R.x0
    st.heap['g:jx'] = vsym('nowhere')
    st.heap['g:d'] = vzero()
    st.heap['g:threw'] = FALSE
    R.delta, R.maxit, R.cap = sym('dxdelta'), sym('maxit', 'I'), sym('cap')
    rj = sym('refresh', 'I')
    st.assume(Gt(R.delta, 0), Gt(rj, 0) if refresh else Le(rj, 0), Gt(R.cap, 0) if cap else Le(R.cap, 0))
    R.opts = R.obj('newton::options', tol=sym('tol'), dx_delta=R.delta, maxit=R.maxit, max_step=R.cap,
                   refresh_jac=rj, precondition=TRUE if precond else FALSE, time_internals=TRUE if timing else FALSE,
                   limit_step=TRUE if limit else FALSE)
    R.stats = R.cell(Struct('newton::status', {'conv_status': sym('anycode', 'I'), 'res': sym('anyres'), 'iters': sym('anyit', 'I'),
                                               'eta_final': sym('anyeta')}), 'stats')
    R.first = []
    f = R.find('newton::newton_iterate', 5)
    R.call(f, [Struct('vp_sys', {}), vec(R.x0), R.opts, R.stats, TRUE if quiet else FALSE])
    return R


def steps(R, x, jx, limit, cap):
    """(condition, next iterate, direction) alternatives of the scheme from x"""
    F = feval(x)
    d = -lmul(linv(mapp('F', ZERO, jx)), F)
    lam = recip(ONE + lmul(F.t(), F)) if limit else ONE
    n2 = lmul(d.t(), d)
    if not cap:
        return [(TRUE, x + d.scale(lam), d)]
    cut = d.scale(sqrt(R.cap * R.cap * recip(n2)) * recip(lam))
    big = Gt(lam * lam * n2, R.cap * R.cap)
    return [(Not(big), x + d.scale(lam), d), (big, x + cut.scale(lam), cut)]


def inorm(v):
    return models.norminf(None, None, vec(v))


def check(c, prog, cfg, ndebug=False):
    refresh, precond, timing, limit, quiet, cap = cfg
    R = newton_run(prog, *cfg, ndebug=ndebug)
    c.use(R)
    codes = prog.enums['newton::newton_solve_ret_codes']
    main = [r for r in R.I.loops if r.kind == 'inv' and any(e.heap['g:nfun'] != r.head.heap['g:nfun'] for e in r.ends)]
    c.fact('one loop iterates', len(main) == 1, len(main))
    for r in main:
        h = r.head.heap
        c.eq('before the first step only the guess was evaluated', r.entry.pc, r.entry.heap['g:nfun'], ONE)
        c.eq('the guess is the first iterate', r.entry.pc, r.entry.heap['g:x'], R.x0)
        x, base = h['g:x'], (h['g:x'] if refresh else R.x0)
        c.eq('Jacobian at hand is the one at the %s' % ('current iterate' if refresh else 'guess'), r.head.pc, h['g:jx'], base)
        c.fact('Jacobians evaluated', P(h['g:njac']) == (P(h['g:nfun']) if refresh else ONE), clip(h['g:njac']))
        for e in r.ends:
            c.cover('step', e.pc)
            c.eq('one evaluation per update', e.pc, e.heap['g:nfun'], h['g:nfun'] + 1)
            for cond, nx, d in steps(R, x, base, limit, cap):
                pc = list(e.pc) + [cond]
                if z3if.valid(pc, FALSE, 2000):
                    continue
                c.eq('update follows the scheme', pc, e.heap['g:x'], nx)
                c.eq('direction solves J d = -F', pc, e.heap['g:d'], d)
            if cap:
                dx = e.heap['g:x'] - x
                c.prove('update no longer than the maximum step', e.pc, Le(lmul(dx.t(), dx), R.cap * R.cap))
    for k, s, v in R.outs:
        if not c.fact('returns', k == 'v'):
            continue
        c.cover('return', s.pc)
        sv = R.I.load(s, R.stats)
        v = R.I.load(s, v)
        h = s.heap
        it = sv.f['iters']
        code = sv.f['conv_status']
        c.eq('iterations counted', s.pc, it, h['g:nfun'] - 1)
        c.prove('no more updates than allowed', s.pc, Or(Le(it, 0), Le(it, R.maxit)))
        c.prove('known status', s.pc, Or(*[Eq(code, codes[n]) for n in ('SUCCESS', 'MAXIT_EXCEEDED', 'GENERIC_ERROR')]))
        if quiet and h['g:threw'] == FALSE:
            c.fact('prints nothing', h['g:printed'] == FALSE)
        if not quiet and h['g:threw'] == FALSE:
            c.fact('prints', h['g:printed'] == TRUE)
        ok = list(s.pc) + [Eq(code, codes['SUCCESS'])]
        if not z3if.valid(ok, FALSE, 2000):
            c.cover('success', ok)
            c.prove('success: last direction below the tolerance', ok, And(Ge(it, 1), Lt(inorm(h['g:d']), R.delta)))
            c.eq('success: last iterate returned', ok, v.ent[0][0], h['g:x'])
        bad = list(s.pc) + [Not(Eq(code, codes['SUCCESS']))]
        if not z3if.valid(bad, FALSE, 2000):
            c.eq('failure: initial guess returned', bad, v.ent[0][0], R.x0)
        mx = list(s.pc) + [Eq(code, codes['MAXIT_EXCEEDED'])]
        c.prove('running out is reported only at the limit', mx, Ge(it, R.maxit))
        if h['g:threw'] == FALSE:
            F = feval(h['g:x'])
            c.eq('reported residual', s.pc, sv.f['res'], sqrt(lmul(F.t(), F)))
        else:
            c.prove('a failed linear solve is reported', s.pc, Eq(code, codes['GENERIC_ERROR']))
    c.safety('newton', R.I)


def label(cfg):
    n = ('refreshing', 'preconditioned', 'timed', 'step-limited', 'quiet', 'capped')
    return ' '.join(x for x, on in zip(n, cfg) if on) or 'plain'


def configs():
    import itertools
    return list(itertools.product((False, True), repeat=6))
