"""Building blocks shared by the property specifications: symbolic inputs,
entry points and access to the results of a verified function."""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from astx import Program
from interp import *
import loops
import z3if
from terms import *
from values import *


class Run:
    """the outcomes of one function under one precondition"""

    def __init__(self, prog, hooks=None, ndebug=False, ghosts=True):
        self.prog = prog
        self.I = Interp(prog, hooks or {}, ndebug)
        self.st = St()
        if ghosts:
            self.st.heap['g:printed'] = FALSE
            self.st.heap['g:nfun'] = ZERO
            self.st.heap['g:njac'] = ZERO
        self.args = []

    def obj(self, cls, **over):
        """default-constructed object of a class with some fields replaced"""
        v = self.I.default(self.st, cls)
        for k, x in over.items():
            if k not in v.f:
                raise Unsupported('no member %s in %s' % (k, cls))
            v = v.set(k, x)
        return v

    def cell(self, v, name='A'):
        return self.st.alloc(name, v, False)

    def find(self, q, n=None, targs=None, ptypes=None):
        fs = [f for f in self.prog.byq.get(q, []) if f.get('s') is not None]
        if n is not None:
            fs = [f for f in fs if len(f['params']) == n]
        if targs is not None:
            fs = [f for f in fs if list(map(str, f.get('targs') or [])) == list(map(str, targs))]
        if ptypes is not None:
            fs = [f for f in fs if [ctype(p['t']) for p in f['params']] == [ctype(x) for x in ptypes]]
        if not fs:
            raise Unsupported('function %s not found' % q)
        return fs[0]

    def call(self, f, args, obj=None):
        self.args = [a if isinstance(a, LV) else self.cell(a, 'arg%d' % i) for i, a in enumerate(args)]
        o = obj if obj is None or isinstance(obj, LV) else self.cell(obj, 'obj')
        self.o = o
        self.outs = self.I.exec_fn(self.st, f, o, self.args)
        return self.outs


def output_cells(st, cls):
    """locations in the heap that hold an object of the class"""
    return [c for c, v in st.heap.items() if isinstance(v, Struct) and v.cls == cls]


def erk_coeffs(R, Ns, fsal=False, emb=True):
    A = [[sym('a%d%d' % (i, j)) if j < i else ZERO for j in range(Ns)] for i in range(Ns)]
    b = [sym('b%d' % i) for i in range(Ns)]
    c = [ZERO] + [sym('c%d' % i) for i in range(1, Ns)]
    if fsal:
        b = list(A[-1])
        c[-1] = ONE
    d = dict(name=Str('M'), A=smat(A), b=svec(b), c=svec(c), order=sym('order', 'I'), FSAL=TRUE if fsal else FALSE)
    d['b2'] = svec([sym('d%d' % i) for i in range(Ns)]) if emb else BM((), ('1',), [])
    d['order2'] = sym('order2', 'I') if emb else ZERO
    return R.obj('erk::solver_coeffs', **d)


def erk_run(prog, Ns=2, fsal=False, adaptive=False, emb=None, max_dt=False, max_steps=False, out_interval=False,
            mode=1, interval=1, ndebug=False, t_order=True, hooks=None):
    emb = adaptive if emb is None else emb
    hk = dict(hooks or {})
    R = Run(prog, hk, ndebug)
    sc = erk_coeffs(R, Ns, fsal, emb)
    R.methods = []

    def coefs(I, st, obj, args, f):
        R.methods.append(I.load(st, args[0]))
        return sc
    hk['erk::get_coefficients'] = coefs
    R.sc = sc
    R.I.hooks = hk
    st = R.st
    st.assume(Gt(sym('rtol'), 0), Gt(sym('atol'), 0), Gt(sym('dt'), 0))
    if t_order:
        st.assume(Gt(sym('t1'), sym('t0')))
    st.assume(Ge(sym('order', 'I'), 1))
    if emb:
        st.assume(Ge(sym('order2', 'I'), 1))
    if max_dt:
        st.assume(Gt(sym('maxdt'), 0))
    st.assume(Ge(sym('maxs', 'I'), 0) if max_steps else Lt(sym('maxs', 'I'), 0))
    so = R.obj('erk::solver_options', rel_tol=sym('rtol'), abs_tol=sym('atol'),
               max_dt=sym('maxdt') if max_dt else ZERO, max_steps=sym('maxs', 'I'),
               out_interval=sym('oint', 'I') if out_interval else ZERO,
               adaptive_step_size=TRUE if adaptive else FALSE)
    if out_interval:
        st.assume(Ge(sym('oint', 'I'), 1))
    R.so = so
    if not isinstance(interval, int):
        st.assume(Ge(interval, 1))
    if not isinstance(mode, int):
        st.assume(Ge(mode, 0))
    oo = R.obj('output_options', output_mode=P(mode) if isinstance(mode, int) else mode,
               output_interval=P(interval))
    if mode != 1:
        stream = R.cell(Stream(None, Seq()), 'ostream')
        R.ostream = stream
        oo = oo.set('output_stream', Ptr(stream))
    f = R.find('erk::odeint', 8)
    R.y0 = vsym('y0')
    R.call(f, [Struct('vp_ode', {}), sym('t0'), sym('t1'), vec(R.y0), so, oo, sym('method', 'I'), sym('dt')])
    return R


def irk_coeffs(R, Ns, emb=True):
    A = [[sym('a%d%d' % (i, j)) for j in range(Ns)] for i in range(Ns)]
    d = dict(name=Str('M'), A=smat(A), b=svec([sym('b%d' % i) for i in range(Ns)]),
             c=svec([sym('c%d' % i) for i in range(Ns)]), order=sym('order', 'I'), FSAL=FALSE, gamma=sym('gam'))
    d['b2'] = svec([sym('d%d' % i) for i in range(Ns)]) if emb else BM((), ('1',), [])
    d['order2'] = sym('order2', 'I') if emb else ZERO
    return R.obj('irk::solver_coeffs', **d)


def solve_hook(R, Ns):
    """contract of the stage solver: some stages, the Jacobian at (t, y), its own
    evaluations added to the counters, and a status that says whether it converged.
    Its body is checked against this contract under C11."""
    def hook(I, st, obj, args, f):
        f = I.resolve(f)
        if f is None:
            raise Unsupported('stage solver without a body')
        scal = {'double': [], 'int': []}
        out = {}
        counts = []
        for p, a in zip(f['params'], args):
            t = p['t'].replace('const ', '').strip()
            q = strip(ctype(p['t'])).rstrip('&').strip()
            if t in scal:
                scal[t].append(I.load(st, a))
            elif q == 'irk::solver_coeffs':
                out['sc'] = I.load(st, a)
            elif q == 'newton::status':
                out['stats'] = a
            elif 'const' not in p['t'] and p['t'].endswith('&') and q == 'arma::Mat':
                out['J'] = a
            elif 'const' not in p['t'] and p['t'].endswith('&') and q == 'arma::Col':
                out['Y'] = a
            elif q == 'arma::Col':
                out['y'] = I.load(st, a)
            elif p['t'].endswith('&') and ctype(p['t']) not in ('double', 'int', 'bool') and 'long' in p['t']:
                counts.append(a)
        if len(scal['double']) != 4 or len(scal['int']) != 2 or len(counts) != 2 or \
                set(out) != {'sc', 'stats', 'J', 'Y', 'y'}:
            raise Unsupported('stage solver with another interface: %s' % [p['t'] for p in f['params']])
        t, h, xtol, rtol = scal['double']
        maxit, refresh = scal['int']
        R.solves.append((out['sc'], xtol, rtol, maxit, refresh))
        y = I.models_mod.bm(I, st, out['y'])
        if y.rows != ('N',):
            raise Unsupported('stage solver at a state of another size')
        y = y.ent[0][0]
        Y = [vfresh('Y%d' % (i + 1)) for i in range(Ns)]
        Yb = BM(('N',) * Ns, ('1',), [[x] for x in Y])
        I.store(st, out['Y'], Yb)
        I.store(st, out['J'], BM(('N',), ('N',), [[mapp('f', t, y)]]))
        status = fresh('nst', 'I')
        iters = fresh('iters', 'I')
        st.assume(Ge(iters, 1), Or(Not(Eq(status, 0)), Lt(iters, maxit)), Or(Eq(status, 0), Ge(iters, maxit)))
        s = I.load(st, out['stats'])
        I.store(st, out['stats'], s.set('conv_status', status).set('iters', iters).set('res', fresh('res')))
        for a, g in zip(counts, ('g:nfun', 'g:njac')):
            k = fresh(g[2:], 'I')
            st.assume(Ge(k, 1))
            I.store(st, a, I.load(st, a) + k)
            st.heap[g] = st.heap[g] + k
        st.heap['g:~solve'] = Struct('solve', dict(t=t, y=out['y'], h=h, Y=Yb, status=status, iters=iters, maxit=maxit))
        return status
    return hook


def irk_run(prog, Ns=2, adaptive=False, emb=None, max_dt=False, max_steps=False, out_interval=False,
            mode=1, interval=1, ndebug=False, t_order=True, hooks=None, timing=False):
    emb = adaptive if emb is None else emb
    hk = dict(hooks or {})
    R = Run(prog, hk, ndebug)
    sc = irk_coeffs(R, Ns, emb)
    R.methods = []
    R.solves = []

    def coefs(I, st, obj, args, f):
        R.methods.append(I.load(st, args[0]))
        return sc
    hk['irk::get_coefficients'] = coefs
    hk.setdefault('irk::newton_solve_stages', solve_hook(R, Ns))
    R.sc = sc
    R.I.hooks = hk
    st = R.st
    z = BM(('N',), ('1',), [[vzero()]])
    st.heap['g:~solve'] = Struct('solve', dict(t=ZERO, y=z, h=ZERO, Y=BM(('N',) * Ns, ('1',), [[vzero()]] * Ns),
                                              status=ZERO, iters=ONE, maxit=ONE))
    st.assume(Gt(sym('rtol'), 0), Gt(sym('atol'), 0), Gt(sym('dt'), 0))
    if t_order:
        st.assume(Gt(sym('t1'), sym('t0')))
    st.assume(Ge(sym('order', 'I'), 1), Ge(sym('nmaxit', 'I'), 1))
    if emb:
        st.assume(Ge(sym('order2', 'I'), 1))
    if max_dt:
        st.assume(Gt(sym('maxdt'), 0))
    st.assume(Ge(sym('maxs', 'I'), 0) if max_steps else Lt(sym('maxs', 'I'), 0))
    R.nopt = R.obj('newton::options', tol=sym('ntol'), dx_delta=sym('nxtol'), maxit=sym('nmaxit', 'I'),
                   refresh_jac=sym('nrefresh', 'I'))
    nc = R.cell(R.nopt, 'nopt')
    so = R.obj('irk::solver_options', rel_tol=sym('rtol'), abs_tol=sym('atol'),
               max_dt=sym('maxdt') if max_dt else ZERO, max_steps=sym('maxs', 'I'),
               out_interval=sym('oint', 'I') if out_interval else ZERO, newton_opts=Ptr(nc),
               time_internals=TRUE if timing else FALSE,
               adaptive_step_size=TRUE if adaptive else FALSE)
    if out_interval:
        st.assume(Ge(sym('oint', 'I'), 1))
    R.so = so
    if not isinstance(interval, int):
        st.assume(Ge(interval, 1))
    if not isinstance(mode, int):
        st.assume(Ge(mode, 0))
    oo = R.obj('output_options', output_mode=P(mode) if isinstance(mode, int) else mode,
               output_interval=P(interval))
    if mode != 1:
        stream = R.cell(Stream(None, Seq()), 'ostream')
        R.ostream = stream
        oo = oo.set('output_stream', Ptr(stream))
    f = R.find('irk::odeint', 8)
    R.y0 = vsym('y0')
    R.call(f, [Struct('vp_ode', {}), sym('t0'), sym('t1'), vec(R.y0), so, oo, sym('method', 'I'), sym('dt')])
    return R
