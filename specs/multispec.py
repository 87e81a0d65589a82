"""Specification of the multistep integrators, over the recorded points, the
status and the evaluations of the problem.

The ring buffer is used through its contract (property C22: it shows the most
recent elements), the one-step integrator through its contract (properties C02
and C05: from (t, y) it ends at the requested time with some state), the Newton
solver through its own (C18): the system it is given is evaluated at an arbitrary
point, and whatever it returns is the accepted root."""
from spec import *
from values import Opq
from ctx import clip
from fractions import Fraction as Fr
import models

OUTS = ('multistep::multistep_output', 'basic_output')
LISTS = ('t_vals', 'y_vals')
ASSUMPTIONS = ['one-step integration used for the start-up points returns normally with at least one point, its '
               'last point being the end of its interval (contracts C02, C05, C08)',
               'the Newton solver is used through its contract (C18): the returned vector is the root it accepted']


def solve_lin(A, b):
    """exact Gauss elimination"""
    n = len(A)
    M = [list(map(Fr, r)) + [Fr(x)] for r, x in zip(A, b)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i])
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(n):
            if r != i:
                M[r] = [x - M[r][i] * y for x, y in zip(M[r], M[i])]
    return [r[-1] for r in M]


def ab_coeffs(k):
    """weights c_i with sum_i c_i p(-i) = integral of p over [0, 1] for all
    polynomials p of degree below k"""
    return solve_lin([[Fr(-i) ** q if (i or q) else 1 for i in range(k)] for q in range(k)], [Fr(1, q + 1) for q in range(k)])


def bdf_coeffs(k):
    """(a, beta) with p(1) + sum_i a_i p(-i) = beta p'(1) for all polynomials p of
    degree up to k"""
    rows, rhs = [], []
    for q in range(k + 1):
        rows.append([Fr(-i) ** q if (i or q) else 1 for i in range(k)] + [-q])
        rhs.append(-1)
    s = solve_lin(rows, rhs)
    return s[:k], s[k]


# ------------------------------------------------------------ callee contracts
def demand(I, st, cond, what):
    """precondition of a callee"""
    if not z3if.valid(st.pc, cond, 2000):
        I.failed_asserts.append((what, st.pc))


def buffer_hooks():
    """the list of the most recent elements, newest first"""
    def new(I, st, obj, args, e):
        if len(args) != 1:
            return NotImplemented
        cap = I.load(st, args[0])
        if isinstance(cap, Struct):
            return cap
        k = P(cap).const() if P(cap).is_const() else None
        if k is None:
            raise Unsupported('ring buffer of a symbolic capacity')
        return Struct('cyclic_buffer', {'cap': P(cap), 'it': Arr([])})

    def seq(I, st, obj):
        return I.load(st, obj).f['it'].vals()

    def push(I, st, obj, args, f):
        b = I.load(st, obj)
        v = I.load(st, args[0])
        I.store(st, obj, b.set('it', Arr(([v] + b.f['it'].vals())[:int(b.f['cap'].const())])))
        return None

    def at(I, st, obj, args, f):
        i = I.load(st, args[0])
        b = I.load(st, obj)
        vs = b.f['it'].vals()
        if not P(i).is_const():
            raise Unsupported('symbolic index into the ring buffer')
        i = int(P(i).const())
        demand(I, st, TRUE if 0 <= i < len(vs) else FALSE, 'element %d of a ring buffer of %d' % (i, len(vs)))
        if not 0 <= i < len(vs):
            raise Unsupported('outside the ring buffer')
        return obj.sub('f', 'it').sub('i', P(i)) if isinstance(obj, LV) else vs[i]

    return {'new cyclic_buffer': new, 'cyclic_buffer::push_back': push, 'cyclic_buffer::operator[]': at,
            'cyclic_buffer::size': lambda I, st, obj, args, f: P(len(seq(I, st, obj))),
            'cyclic_buffer::empty': lambda I, st, obj, args, f: TRUE if not seq(I, st, obj) else FALSE,
            'cyclic_buffer::period': lambda I, st, obj, args, f: I.load(st, obj).f['cap']}


class Boot:
    """one use of a one-step integrator"""

    def __init__(self, **k):
        self.__dict__.update(k)


def boot_hook(R, ns):
    def hook(I, st, obj, args, f):
        if len(args) not in (4, 7, 8):
            raise Unsupported('one-step integrator with another interface')
        a = [I.load(st, x) if i else x for i, x in enumerate(args)]
        func, t0, t1, y = args[0], a[1], a[2], models.lin_arg(I, st, args[3])
        demand(I, st, Gt(t1, t0), 'one-step integration needs a positive interval')
        b = Boot(ns=ns, func=func, t0=t0, t1=t1, y=y, pc=list(st.pc), out=vfresh('start'))
        if len(args) > 4:
            so, oo, m = a[4], a[5], a[6]
            b.method, b.opts, b.out_opts = m, so, oo
            demand(I, st, And(Gt(so.f['rel_tol'], 0), Gt(so.f['abs_tol'], 0)), 'tolerances are positive')
            if ns == 'irk':
                demand(I, st, TRUE if isinstance(so.f['newton_opts'], Ptr) and so.f['newton_opts'].lv is not None else FALSE,
                        'implicit integration needs Newton options')
            demand(I, st, Gt(so.f['max_dt'], -1), 'maximum step not negative')
            if len(a) > 7:
                demand(I, st, Gt(a[7], 0), 'initial step is positive')
            mode = oo.f['output_mode']
            demand(I, st, TRUE if P(mode).is_const() and int(P(mode).const()) & 1 else FALSE, 'points are stored')
        cls = ns + '::rk_output'
        v = R.I.default(st, cls)
        n = fresh('Nt', 'I')
        st.assume(Ge(n, 0))
        yv = Seq([('e', vec(b.out))], atom('sym', 'ys@%d' % len(R.boots), shape='q'), n, 'arma::vec')
        tv = Seq([('e', t1)], atom('sym', 'ts@%d' % len(R.boots), shape='q'), n, 'double')
        R.boots.append(b)
        return v.set('t_vals', tv).set('y_vals', yv).set('status', ZERO)
    return hook


def newton_hook(R):
    def one(I, st, f, obj, args):
        r = I.exec_fn(st.copy(), f, obj, args)
        if len(r) != 1 or r[0][0] != 'v':
            raise Unsupported('several outcomes of an evaluation')
        return r[0][1], I.load(r[0][1], r[0][2])

    def hook(I, st, obj, args, f):
        if len(args) not in (4, 5):
            raise Unsupported('Newton solver with another interface')
        func = args[0]
        cls = I.load(st, func).cls
        fs = {}
        for name in ('fun', 'jac'):
            g = [g for g in I.prog.fns.values() if g.get('cls') == cls and g['n'] == name and len(g['params']) == 1
                 and g.get('s') is not None]
            if not g:
                g = [g for g in I.prog.fns.values() if g['n'] == name and len(g['params']) == 1 and g.get('s') is not None
                     and g['q'].endswith('::%s::%s' % (cls.split('::')[-1], name))]
            if not g:
                raise Unsupported('system without %s' % name)
            fs[name] = g[0]
        Y = vsym('Y')
        st0, st = st, st.copy()
        y = st.alloc('point', vec(Y), False)
        s2, F = one(I, st, fs['fun'], func, [y])
        s3, J = one(I, st, fs['jac'], func, [y])
        st = st0
        root = vfresh('root')
        code = fresh('nst', 'I')
        stats = I.load(st, args[3])
        I.store(st, args[3], stats.set('conv_status', code).set('res', fresh('res')).set('iters', fresh('iters', 'I')))
        opts = I.load(st, args[2])
        demand(I, st, And(Gt(opts.f['dx_delta'], 0), Gt(opts.f['maxit'], 0)), 'Newton options allow convergence')
        st.heap['g:~solve'] = Struct('solve', dict(F=F, J=J, start=I.load(st, args[1]), root=vec(root), code=code))
        st.heap['g:nsolve'] = st.heap['g:nsolve'] + 1
        return vec(root)
    return hook


# ------------------------------------------------------------------------ runs
def multi_run(prog, which, order, ndebug=False):
    R = Run(prog, {}, ndebug)
    R.boots = []
    hk = buffer_hooks()
    hk['irk::odeint'] = boot_hook(R, 'irk')
    hk['erk::odeint'] = boot_hook(R, 'erk')
    hk['newton::newton_iterate'] = newton_hook(R)
    R.I.hooks = hk
    st = R.st
    z = vec(vzero())
    st.heap['g:~solve'] = Struct('solve', dict(F=z, J=BM(('N',), ('N',), [[IDENT]]), start=z, root=z, code=ZERO))
    st.heap['g:nsolve'] = ZERO
    R.t0, R.t1, R.dt, R.y0 = sym('t0'), sym('t1'), sym('dt'), vsym('y0')
    st.assume(Gt(R.t1, R.t0), Gt(R.dt, 0))
    R.func = R.cell(Struct('vp_ode', {}), 'func')
    so = R.obj('multistep::solver_options', order=P(order))
    R.order, R.which = order, which
    f = R.find('multistep::' + which, 6)
    R.call(f, [R.func, R.t0, R.t1, vec(R.y0), so, R.dt])
    return R


def results(st):
    return [(c, v) for c, v in st.heap.items() if isinstance(v, Struct) and v.cls in OUTS]


def main_loop(R):
    """the loop that records points without bound"""
    out = []
    for r in R.I.loops:
        if r.kind != 'inv':
            continue
        for cell, v in results(r.head):
            if isinstance(v.f['t_vals'], Seq) and isinstance(v.f['y_vals'], Seq) and \
                    (v.f['t_vals'].pre is not None or v.f['y_vals'].pre is not None):
                out.append((r, cell))
    return out


def tails(v):
    return {f: [c[1] for c in v.f[f].ch[len(v.f[f].ch) - v.f[f].tailn():]] for f in LISTS}


def grown(c, what, a, b):
    """what b records beyond a"""
    new = {}
    for f in LISTS:
        x, y = a.f[f], b.f[f]
        if not (x.pre == y.pre and x.plen == y.plen and y.ch[:len(x.ch)] == x.ch):
            c.note('%s: recorded %s only grows' % (what, f), 'refuted', 'rewriting', clip(y))
            return None
        rest = y.ch[len(x.ch):]
        if any(k[0] != 'e' for k in rest):
            raise Unsupported('points recorded by an inner loop')
        new[f] = [k[1] for k in rest]
    if not c.fact('%s: as many times as states' % what, len(new['t_vals']) == len(new['y_vals'])):
        return None
    return new


def rows(v):
    return v.ent[0][0]


def startup(c, R):
    """the points recorded before the loop"""
    k = R.order if R.which == 'adams_bashforth' else R.order + 1
    for r, cell in main_loop(R):
        pc = r.entry.pc
        c.cover('start-up', pc)
        v = r.entry.heap[cell]
        ok = all(v.f[f].explicit() for f in LISTS)
        if not c.fact('finitely many start-up points', ok):
            continue
        ts, ys = v.f['t_vals'].vals(), v.f['y_vals'].vals()
        if not c.fact('as many times as states', len(ts) == len(ys), (len(ts), len(ys))):
            continue
        need = R.order
        c.fact('enough start-up points', len(ts) >= need, len(ts))
        c.eq('first time', pc, ts[0], R.t0)
        c.eq('first state', pc, rows(ys[0]), R.y0)
        bs = R.boots
        h = minv(R.dt, R.t1 - R.t0)
        for i in range(1, len(ts)):
            c.eq('start-up times are one step apart', pc, ts[i], ts[i - 1] + h)
            # found by its result: whoever calls it
            mine = [b for b in bs if eqv(pc, b.out, rows(ys[i]))]
            if not c.fact('start-up state %d is the end of a one-step integration' % i, len(mine) == 1, clip(ys[i])):
                continue
            b = mine[0]
            c.fact('of the same problem', same_problem(R, b))
            c.eq('from the previous time', pc, b.t0, ts[i - 1])
            c.eq('over one step', pc, b.t1, ts[i])
            c.eq('from the previous state', pc, b.y, rows(ys[i - 1]))
            if hasattr(b, 'method'):
                c.fact('by an offered method', offered(R, b), clip(b.method))
        yield r, cell, h


def same_problem(R, b):
    return isinstance(b.func, LV) and b.func == R.func


def offered(R, b):
    if not P(b.method).is_const():
        return False
    f = R.find(b.ns + '::get_coefficients', 1)
    I = Interp(R.prog, {}, R.I.ndebug)
    st = St()
    st.heap['g:printed'] = FALSE
    r = I.exec_fn(st, f, None, [st.alloc('m', P(b.method), False)])
    return all(k == 'v' and isinstance(I.load(s, v).f['b'], BM) and len(I.load(s, v).f['b'].ent) > 0 for k, s, v in r) and \
        len(r) > 0


def eqv(pc, a, b):
    return a == b or (a - b) == vzero()


def check_ab(c, R):
    k = R.order
    w = ab_coeffs(k)
    n = 0
    for r, cell, h in startup(c, R):
        head = r.head.heap[cell]
        tl = tails(head)
        for e in r.ends:
            p = grown(c, 'step', head, e.heap[cell])
            if p is None:
                continue
            c.cover('step', e.pc)
            ts, ys = list(tl['t_vals']), list(tl['y_vals'])
            for t, y in zip(p['t_vals'], p['y_vals']):
                n += 1
                want = rows(ys[-1])
                for i in range(k):
                    want = want + app('f', ts[-1 - i], rows(ys[-1 - i])).scale(P(w[i]) * h)
                c.eq('new state is the Adams-Bashforth formula', e.pc, rows(y), want)
                ts.append(t)
                ys.append(y)
    c.fact('steps are recorded', n > 0)
    c.safety('adams_bashforth', R.I)


def check_bdf(c, R):
    a, beta = bdf_coeffs(R.order)
    n = 0
    for r, cell, h in startup(c, R):
        head = r.head.heap[cell]
        tl = tails(head)
        sides = [('end', e, e.heap[cell]) for e in r.ends] + [('stop', s, v) for s, v in exits(R, r)]
        for what, e, now in sides:
            if e.heap['g:nsolve'] == r.head.heap['g:nsolve']:
                c.fact('nothing recorded without solving', now.f == head.f)
                continue
            c.eq('one solve per step', e.pc, e.heap['g:nsolve'], r.head.heap['g:nsolve'] + 1)
            c.cover('solve', e.pc)
            g = e.heap['g:~solve'].f
            t, y = tl['t_vals'], [rows(x) for x in tl['y_vals']]
            tn = t[-1] + h
            Y = vsym('Y')
            want = Y - app('f', tn, Y).scale(P(beta) * h)
            for i in range(R.order):
                want = want + y[-1 - i].scale(P(a[i]))
            jw = IDENT - mapp('f', tn, Y).scale(P(beta) * h)
            # the equation may be multiplied by a constant
            s = scale_of(rows(g['F']), Y)
            c.eq('the solved equation is the BDF equation', e.pc, rows(g['F']), want.scale(s))
            c.eq('with the matching Jacobian', e.pc, g['J'].ent[0][0], jw.scale(s))
            c.eq('starting from the previous value', e.pc, rows(g['start']), y[-1])
            p = grown(c, what, head, now)
            if p is None:
                continue
            if what == 'end':
                c.prove('goes on only after a converged solve', e.pc, Eq(g['code'], 0))
            for st_ in p['y_vals']:
                n += 1
                c.prove('recorded only after a converged solve', e.pc, Eq(g['code'], 0))
                c.eq('recorded state is the root', e.pc, rows(st_), rows(g['root']))
            c.fact('at most one point per solve', len(p['t_vals']) <= 1)
    for kind, st, v in R.outs:
        if kind != 'v':
            c.fact('returns', False)
            continue
        v = R.I.load(st, v)
        if any(st.heap['g:nsolve'] == r.head.heap['g:nsolve'] + 1 for r, _ in main_loop(R)):
            c.cover('stopped', st.pc)
            codes = R.prog.enums.values()
            fail = [e for e in codes if 'INTERNAL_SOLVE_FAILURE' in e][0]['INTERNAL_SOLVE_FAILURE']
            c.prove('stops only after a failed solve', st.pc, Not(Eq(st.heap['g:~solve'].f['code'], 0)))
            c.eq('a failed solve is reported', st.pc, v.f['status'], P(fail))
        else:
            c.eq('success when no solve failed', st.pc, v.f['status'], ZERO)
    c.fact('steps are recorded', n > 0)
    c.safety('bdf', R.I)


def exits(R, r):
    """outcomes that leave during an iteration, with the result"""
    for kind, st, v in R.outs:
        if kind == 'v' and st.heap['g:nsolve'] == r.head.heap['g:nsolve'] + 1:
            yield st, R.I.load(st, v)


def scale_of(F, Y):
    (ya, _), = Y.d.items()
    s = F.d.get(ya)
    if s is None:
        return ONE
    return P(s)


def check_grid(c, R):
    for r, cell, h in startup(c, R):
        head = r.head.heap[cell]
        tl = tails(head)
        c.eq('lists of equal length', r.head.pc, head.f['t_vals'].length(), head.f['y_vals'].length())
        for e in r.ends:
            p = grown(c, 'step', head, e.heap[cell])
            if p is None:
                continue
            c.cover('step', e.pc)
            prev = tl['t_vals'][-1]
            c.fact('one point per step', len(p['t_vals']) == 1)
            for t in p['t_vals']:
                c.prove('goes on only before the end', e.pc, Lt(prev, R.t1))
                c.eq('times advance by exactly the step', e.pc, t, prev + h)
                prev = t
            c.prove('step is positive', e.pc, Gt(h, 0))
    for kind, st, v in R.outs:
        if not c.fact('returns', kind == 'v'):
            continue
        c.cover('return', st.pc)
        v = R.I.load(st, v)
        c.eq('lists of equal length', st.pc, v.f['t_vals'].length(), v.f['y_vals'].length())
        tl = tails(v)
        c.prove('success exactly when the end is reached', st.pc,
                Or(Not(Eq(v.f['status'], 0)), Ge(tl['t_vals'][-1], R.t1)) if tl['t_vals'] else FALSE)
        if R.which == 'adams_bashforth':
            c.eq('success', st.pc, v.f['status'], ZERO)
    c.fact('one integration loop', len(main_loop(R)) >= 1)
    c.safety(R.which, R.I)


def check_rejects(c, prog, which, hi, ndebug=False):
    R = Run(prog, {}, ndebug)
    R.boots = []
    hk = buffer_hooks()
    hk['irk::odeint'] = boot_hook(R, 'irk')
    hk['erk::odeint'] = boot_hook(R, 'erk')
    hk['newton::newton_iterate'] = newton_hook(R)
    R.I.hooks = hk
    st = R.st
    k = sym('k', 'I')
    st.assume(Or(Lt(k, 1), Gt(k, hi)))
    R.func = R.cell(Struct('vp_ode', {}), 'func')
    so = R.obj('multistep::solver_options', order=k)
    f = R.find('multistep::' + which, 6)
    R.call(f, [R.func, sym('t0'), sym('t1'), vec(vsym('y0')), so, sym('dt')])
    c.use(R)
    c.fact('returns', len(R.outs) > 0 and all(o[0] == 'v' for o in R.outs))
    err = [e for e in R.prog.enums.values() if 'GENERAL_ERROR' in e][0]['GENERAL_ERROR']
    for kind, s, v in R.outs:
        v = R.I.load(s, v)
        c.cover('rejected', s.pc)
        c.eq('error status', s.pc, v.f['status'], P(err))
        for x in LISTS:
            c.fact('no %s' % x, v.f[x].explicit() and not v.f[x].vals())
    c.fact('nothing integrated', not R.boots)
    c.safety('rejection', R.I)


def each(c, jobs):
    """jobs: (label, method, order, check)"""
    with c.part('extraction'):
        progs = {n: c.program(('api', 'irk', 'erk', 'newton'), ('NDEBUG',) if n else ()) for n in (False, True)}

    def job(w, k, f, n):
        def go(c):
            R = multi_run(progs[n], w, k, n)
            c.use(R)
            f(c, R)
        return go
    todo = []
    for w, k, f in jobs:
        for n in (False, True):
            todo.append(('%s %d%s' % (w, k, ' NDEBUG' if n else ''), job(w, k, f, n) if k else
                         (lambda c, w=w, f=f, n=n: f(c, progs[n], w, {'bdf': 6}.get(w, 5), n))))
    c.parallel(todo)
