from spec import *
from ctx import clip
HARNESS = 'misc'


def lists(name):
    """an arbitrary list of terms of arbitrary lengths"""
    return Seq((), atom('sym', name), sym('n' + name, 'I'), 'std::vector<int>')


def item(R, s, k):
    """element k of an opaque list"""
    return R.I.models_mod.opaque_elem(s.et, s.pre, k)


def verify(c):
    prog = c.program(('irk',))
    for alias in (False, True):
        with c.part('expand' + (' of a list with itself' if alias else '')):
            R = Run(prog, {}, ghosts=False)
            s1 = lists('1')
            s2 = s1 if alias else lists('2')
            n1, n2 = s1.plen, s2.plen
            R.st.assume(Ge(n1, 0), Ge(n2, 0))
            f = R.find('irk::expand', 2)
            c1 = R.cell(s1, 'c1')
            c2 = c1 if alias else R.cell(s2, 'c2')
            R.call(f, [c1, c2])
            c.use(R)
            c.safety('expand', R.I)
            i, j = [list(sym(x, 'I').d)[0][0][0] for x in ('#si', '#sj')]
            a, b = item(R, s1, P(i)), item(R, s2, P(j))
            term = Seq(a.ch + (('s', b.pre, ZERO, b.plen),), a.pre, a.plen)
            want = Seq((('f', ZERO, n1, i, (('m', ZERO, n2, j, (term,)),)),))
            c.fact('has an outcome', len(R.outs) >= 1)
            for kind, st, v in R.outs:
                if not c.fact('returns normally', kind == 'v'):
                    continue
                c.cover('expand', st.pc)
                v = R.I.load(st, v)
                c.fact('one term per pair in order, factors of the first then of the second',
                       eqseq(c, st, v, want), clip(canon(v)))
                c.eq('number of terms is the product of the counts', st.pc, v.length(), n1 * n2)
                c.fact('first argument unchanged', st.heap[c1.cell] == s1)
                c.fact('second argument unchanged', st.heap[c2.cell] == s2)


def eqseq(c, st, v, want):
    return canon(v) == canon(want)
