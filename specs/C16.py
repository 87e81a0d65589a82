from spec import *
HARNESS = 'misc'




def symlist(name, f):
    n = sym('n_' + name, 'I')
    k = sym('k_' + name, 'I')
    (m, _), = k.d.items()
    ka = m[0][0]
    return n, Seq((('m', ZERO, n, ka, (f(name, k),)),))


def scal(name, k):
    return fn('at_' + name, k)


def vect(name, k):
    return vec(app('at_' + name, k, vzero()))


SEQS = {'t_vals': scal, 'y_vals': vect, 'stages': vect, 'err_est': vect, 'err': scal}


def verify(c):
    prog = c.program(('irk',))
    with c.part('merge_rk_output'):
        R = Run(prog, {}, ghosts=False)
        sols, parts = [], []
        for w in ('1', '2'):
            o = R.obj('irk::rk_output')
            pt = {}
            for fld, f in SEQS.items():
                # every list of its own length: nothing makes them agree
                n = sym(('n' if fld == 't_vals' else 'n_' + fld) + w, 'I')
                R.st.assume(Ge(n, 0))
                _, s = symlist(fld + w, f)
                s = Seq(tuple(('m', ZERO, n, ch[3], ch[4]) for ch in s.ch))
                o = o.set(fld, s)
                pt[fld] = s
            cnt = o.f['count']
            for k in cnt.f:
                cnt = cnt.set(k, sym('cnt_%s_%s' % (k, w), 'I'))
                R.st.assume(Ge(cnt.f[k], 0))
            o = o.set('count', cnt)
            for k, v in o.f.items():
                if k in SEQS or k == 'count':
                    continue
                o = o.set(k, sym('%s_%s' % (k, w), 'I' if k == 'status' else 'R'))
            sols.append(o)
            parts.append(pt)
        R.st.assume(Gt(sym('n1', 'I') + sym('n2', 'I'), 0))
        f = R.find('irk::merge_rk_output', 2)
        cells = [R.cell(o, 'sol%d' % i) for i, o in enumerate(sols)]
        R.call(f, cells)
        c.use(R)
        c.safety('merge', R.I)
        c.fact('has an outcome', len(R.outs) >= 1)
        for kind, st, v in R.outs:
            if kind == 't':
                c.fact('never throws', False)
                continue
            c.cover('merge', st.pc)
            m = R.I.load(st, v)
            for fld in SEQS:
                want = Seq(parts[0][fld].ch + parts[1][fld].ch)
                c.fact('%s is the concatenation' % fld, canon(m.f[fld]) == canon(want), '%s' % (m.f[fld],))
            a, b = sols
            for k in a.f['count'].f:
                c.eq('counter %s is the sum' % k, st.pc, m.f['count'].f[k], a.f['count'].f[k] + b.f['count'].f[k])
            c.eq('elapsed time is the sum', st.pc, m.f['elapsed_time'], a.f['elapsed_time'] + b.f['elapsed_time'])
            n1, n2 = sym('n1', 'I'), sym('n2', 'I')
            c.eq('accept fraction is the weighted average', st.pc, m.f['accept_frac'] * (n1 + n2),
                 n1 * a.f['accept_frac'] + n2 * b.f['accept_frac'])
            c.eq('status is the bitwise union', st.pc, m.f['status'],
                 R.I.models_mod.bitop(R.I, st, '|', a.f['status'], b.f['status'], 'int'))
            for cc, o in zip(cells, sols):
                c.fact('argument unchanged', st.heap[cc.cell] == o)
