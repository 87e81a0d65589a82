"""The stage solver: its body against the contract that the integrator's own
verification relies on, and the integrator's call against what it promises."""
from spec import *
from ctx import clip
from specs.erkspec import coef
from specs import irkspec
import loops
HARNESS = 'ode'
FN = 'irk::newton_solve_stages'
ASSUMPTIONS = ['linear systems are solved exactly: solve(A, b) = A^-1 b; lu gives P^T L U = A']


class S:
    """one symbolic run of a stage solver instance"""

    def __init__(self, prog, f, Ns, ndebug, once):
        self.R = R = Run(prog, {}, ndebug)
        self.Ns, self.f = Ns, f
        R.Ns = Ns
        self.sc = irk_coeffs(R, Ns)
        st = R.st
        st.assume(Ge(sym('maxit', 'I'), 1), Ge(sym('refresh', 'I'), 1))
        self.y = vsym('y')
        self.t, self.h = sym('t'), sym('h')
        self.xtol, self.rtol = sym('xtol'), sym('rtol')
        self.maxit, self.refresh = sym('maxit', 'I'), ZERO if once else sym('refresh', 'I')
        self.nf, self.nj = R.cell(sym('nf0', 'I')), R.cell(sym('nj0', 'I'))
        self.Y = R.cell(BM((), ('1',), []))
        self.J = R.cell(BM((), (), []))
        self.stats = R.cell(R.obj('newton::status'))
        R.call(f, [Struct('vp_ode', {}), vec(self.y), self.t, self.h, self.sc, self.maxit, self.refresh, self.xtol,
                   self.rtol, self.Y, self.J, self.stats, self.nf, self.nj])

    def residual(self, Y):
        A, cc = self.sc.f['A'], self.sc.f['c']
        F = [app('f', self.t + coef(cc, j, 0) * self.h, self.y + Y[j]) for j in range(self.Ns)]
        out = []
        for i in range(self.Ns):
            r = Y[i]
            for j in range(self.Ns):
                r = r - F[j].scale(coef(A, i, j) * self.h)
            out.append(r)
        return out

    def matrix(self):
        A = self.sc.f['A']
        J = mapp('f', self.t, self.y)
        ent = []
        for i in range(self.Ns):
            ent.append([(IDENT if i == j else bzero('N', 'N')) - J.scale(coef(A, i, j) * self.h) for j in range(self.Ns)])
        return BM(('N',) * self.Ns, ('N',) * self.Ns, ent)

    def col(self, parts):
        return BM(('N',) * self.Ns, ('1',), [[x] for x in parts])

    def update(self, Y):
        """the simplified Newton update at Y"""
        R = self.R
        r = R.I.models_mod.solve_val(R.I, R.st, self.matrix(), self.col(self.residual(Y)))
        return [r.ent[i][0].scale(-1) for i in range(self.Ns)]

    def norm2(self, parts):
        v = self.col(parts)
        return self.R.I.models_mod.scalar_of(bmmul(bmt(v), v))

    def stages(self, st):
        b = self.R.I.load(st, self.Y)
        if not isinstance(b, BM) or b.rows != ('N',) * self.Ns or b.cols != ('1',):
            return None
        return [b.ent[i][0] for i in range(self.Ns)]

    # --------------------------------------------------------- obligations
    def converged(self, now, prev):
        ok = [Lt(self.norm2(self.residual(now)), self.rtol * self.rtol)]
        for p in prev:
            ok.append(Lt(self.norm2(self.update(p)), self.xtol * self.xtol))
        return Or(*ok)

    def status(self, st, ret):
        s = self.R.I.load(st, self.stats)
        return s.f['conv_status'], s.f['iters']


def positions(v, x):
    """leaf paths of a loop whose arbitrary value is x"""
    return [p for p, t in v.leaves.items() if t == x]


def body(c, prog, f, Ns, ndebug, once):
    s = S(prog, f, Ns, ndebug, once)
    R = s.R
    c.use(R)
    I = R.I
    adaptive = str((f.get('targs') or ['', '1'])[1]) in ('1', 'true')
    c.fact('returns on every path', all(k == 'v' for k, _, _ in R.outs) and R.outs)
    heads = []
    for r in I.loops:
        if r.kind != 'inv':
            continue
        Y = s.stages(r.head)
        if Y is not None:
            heads.append((r, Y))
            # every update of the stages is the simplified Newton update
            dY = s.update(Y)
            for e in r.ends:
                Z = s.stages(e)
                if Z is None:
                    c.fact('stages keep their shape', False)
                    continue
                for i in range(Ns):
                    if adaptive:
                        d = Z[i] - Y[i]
                        c.fact('stage %d moves along the Newton update' % i, multiple(d, dY[i]), clip(d))
                    else:
                        c.eq('stage %d takes the whole Newton update' % i, e.pc, Z[i], Y[i] + dY[i])
    c.fact('the stages are iterated', len(heads) > 0)
    prev = [Y for r, Y in heads]
    nconv = 0
    for k, st, v in R.outs:
        c.cover('return', st.pc)
        ret = I.load(st, v)
        stt, it = s.status(st, ret)
        c.eq('status returned is the status recorded', st.pc, stt, ret)
        c.prove('status is success or out of iterations', st.pc, Or(Eq(ret, 0), Eq(ret, 3)))
        nfun, njac = st.heap['g:nfun'], st.heap['g:njac']
        counted(c, s, st)
        c.prove('fewer updates than allowed', st.pc, Le(nfun, s.maxit * Ns))
        c.prove('all allowed updates are made before giving up', st.pc, Or(Eq(ret, 0), Eq(nfun, s.maxit * Ns)))
        c.prove('iterations used: at least one; all when it gave up, fewer when it converged', st.pc,
                And(Ge(it, 1), Or(Not(Eq(ret, 0)), Lt(it, s.maxit)), Or(Eq(ret, 0), Ge(it, s.maxit))))
        c.prove('at least one Jacobian', st.pc, Ge(njac, 1))
        if once:
            c.eq('a refresh interval of 0 evaluates one Jacobian', st.pc, njac, ONE)
        returned_jac(c, s, st)
        Y = s.stages(st)
        if not c.fact('returns one increment per stage', Y is not None):
            continue
        if z3if.check(list(st.pc) + [Eq(ret, 0)], 5000) == 'unsat':
            continue
        nconv += 1
        if isinstance(ret, Poly) and not ret.is_const():
            # success decided inside the loop: it must hold at the end of each iteration
            for r, Yh in heads:
                ps = positions(r, ret)
                if ps and Y == Yh:
                    p = ps[0]
                    en = leaf(r, r.entry, p)
                    c.prove('not converged before the first update', r.entry.pc, Not(Eq(en, 0)))
                    for e in r.ends:
                        x = leaf(r, e, p)
                        c.prove('success means converged', list(e.pc) + [Eq(x, 0)], s.converged(s.stages(e), [Yh]))
                    break
            else:
                c.prove('success means converged', list(st.pc) + [Eq(ret, 0)], s.converged(Y, prev))
        else:
            c.prove('success means converged', list(st.pc) + [Eq(ret, 0)], s.converged(Y, prev))
    c.fact('success is possible', nconv > 0)
    c.safety('stage solver', I)


def relied(c, prog, f, Ns, ndebug, once, what):
    """the parts of the stage solver's contract that other properties rest on"""
    s = S(prog, f, Ns, ndebug, once)
    R, I = s.R, s.R.I
    c.use(R)
    c.fact('returns on every path', all(k == 'v' for k, _, _ in R.outs) and R.outs)
    for k, st, v in R.outs:
        c.cover('return', st.pc)
        if what == 'count':
            counted(c, s, st)
        if what == 'jac':
            returned_jac(c, s, st)
    c.safety('stage solver', I)


def counted(c, s, st):
    I = s.R.I
    c.eq('evaluations are added to the count of the caller', st.pc, I.load(st, s.nf), sym('nf0', 'I') + st.heap['g:nfun'])
    c.eq('Jacobian evaluations are added to the count of the caller', st.pc, I.load(st, s.nj), sym('nj0', 'I') + st.heap['g:njac'])


def returned_jac(c, s, st):
    J = s.R.I.load(st, s.J)
    c.fact('returns the Jacobian at (t, y)', J == BM(('N',), ('N',), [[mapp('f', s.t, s.y)]]), clip(J))


def leaf(r, st, p):
    v = st.heap.get(p[0])
    return loops.at(v, p[1:])


def multiple(d, u):
    """d is a scalar multiple of u"""
    if not u.d:
        return not d.d
    w, k = next(iter(u.d.items()))
    if w not in d.d:
        return False
    q = d.d[w] * recip(k)
    return d == u.scale(q)


def solver_jobs(c, run, sizes):
    jobs = []
    for nd in (False, True):
        with c.part(''):
            prog = c.program(('api', 'irk'), ('NDEBUG',) if nd else ())
            fs = [f for f in prog.byq.get(FN, []) if f.get('s') is not None]
            c.fact('the stage solver is there', len(fs) > 0)
            for f in fs:
                tg = ','.join(str(x) for x in (f.get('targs') or [])[1:])
                for Ns in sizes:
                    for once in (False, True):
                        jobs.append(('stage solver <%s>%s%s %d stages' % (tg, ' NDEBUG' if nd else '', ' one Jacobian' if once else '', Ns),
                                     lambda c, a=(prog, f, Ns, nd, once): run(c, *a)))
    return sorted(jobs, key=lambda j: -int(j[0].split()[-2]))


def verify(c):
    jobs = solver_jobs(c, body, (1, 2, 3, 4, 5, 7) if c.tier == 'thorough' else (1, 2, 3))
    jobs += irkspec.ieach(c, caller)
    c.parallel(jobs)


def relied_jobs(c, what):
    return solver_jobs(c, lambda c, *a: relied(c, *a, what), (1, 2, 3, 4) if c.tier == 'thorough' else (1, 2))


def caller(c, R, v):
    c.fact('the integrator calls the stage solver', len(R.solves) > 0)
    for sc, xtol, rtol, maxit, refresh in R.solves:
        c.fact('the increment tolerance of the options is used', xtol == sym('nxtol'), clip(xtol))
        c.fact('the residual tolerance of the options is used', rtol == sym('ntol'), clip(rtol))
        c.fact('the refresh interval of the options is used', refresh == sym('nrefresh', 'I'), clip(refresh))
