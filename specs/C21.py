"""Finite-difference Jacobians are central differences and the check uses them."""
from spec import *
from ctx import clip
import models
from fractions import Fraction
HARNESS = 'newton'


def F(y):
    return app('F', ZERO, y)


def approx(c, prog, h):
    R = Run(prog, {}, ghosts=False)
    c.use(R)
    f = R.find('newton::approx_jacobi_matrix', 3)
    y = vsym('y')
    R.st.assume(Not(Eq(h, 0)))
    outs = R.call(f, [vec(y), Struct('vp_sys', {}), h])
    for k, s, v in outs:
        if not c.fact('returns', k == 'v'):
            continue
        c.cover('return', s.pc)
        v = R.I.load(s, v)
        c.fact('square matrix of the dimension of the point', isinstance(v, BM) and v.rows == ('N',) and v.cols == ('N',), clip(v))
        i, j = sym('i', 'I'), sym('j', 'I')
        pc = list(s.pc) + [Ge(i, 0), Lt(i, NP), Ge(j, 0), Lt(j, NP)]
        u = letter(atom('unit', j, shape='v'))
        want = (elem(F(y + u.scale(h)), i) - elem(F(y - u.scale(h)), i)) * recip(2 * h)
        c.eq('every entry is the central difference', pc, melem(v.ent[0][0], i, j), want)
        c.eq('the point is unchanged', s.pc, R.I.load(s, R.args[0]).ent[0][0], y)
    c.fact('returns', len(outs) > 0)
    c.safety('approximation', R.I)
    return f


def verify_fn(c, prog):
    """the answer is true iff the largest absolute difference between an
    arbitrary approximation and the supplied Jacobian is within the tolerance"""
    asked = []

    def approx_hook(I, st, obj, args, f):
        asked.append((I.load(st, args[0]), I.num2(st, args[2]) if len(args) > 2 else None))
        return BM(('N',), ('N',), [[msym('A')]])
    R = Run(prog, {'newton::approx_jacobi_matrix': approx_hook}, ghosts=False)
    c.use(R)
    f = R.find('newton::verify_jacobi_matrix', 2)
    y = vsym('y')
    outs = R.call(f, [vec(y), Struct('vp_sys', {})])
    c.fact('the approximation is taken at the point', len(asked) > 0 and all(a.ent[0][0] == y for a, _ in asked))
    i, j = sym('i', 'I'), sym('j', 'I')
    d = melem(msym('A') - mapp('F', ZERO, y), i, j)
    inr = [Ge(i, 0), Lt(i, NP), Ge(j, 0), Lt(j, NP)]
    some = False
    for k, s, v in outs:
        if not c.fact('returns', k == 'v'):
            continue
        v = R.I.load(s, v)
        v = v if isinstance(v, B) else Not(Eq(v, 0))
        c.eq('the point is unchanged', s.pc, R.I.load(s, R.args[0]).ent[0][0], y)
        # any entry that differs by more than 1e-2 must be noticed, whatever the tolerance is
        bad = list(s.pc) + inr + [Gt(d * d, Fraction(1, 10000))]
        c.prove('a wrong entry is noticed', bad, Not(v), finding='verify-always-true')
        some = True
        # matrices that agree are accepted
        for x in s.pc:
            pass
        same = {next(iter(msym('A').d))[0]: mapp('F', ZERO, y)}
        pc = [vsubst(x, same) for x in s.pc]
        c.prove('equal matrices are accepted', pc, vsubst(v, same))
    c.fact('returns', some)
    c.safety('check', R.I)


def verify(c):
    with c.part('extraction'):
        prog = c.program(('api', 'newton'))
        with c.part('approximation'):
            approx(c, prog, sym('h'))
        with c.part('verification'):
            verify_fn(c, prog)
