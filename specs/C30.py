"""Clock differences, the timing table, status texts and padding."""
from spec import *
from values import Opq
from ctx import clip
from fractions import Fraction
HARNESS = 'misc'
ASSUMPTIONS = ['the text of a number is whatever the standard stream produces for it', 'arithmetic on timings is exact']


def clock(I, st, obj, args, f):
    p = I.load(st, args[0])
    n = int(P(st.heap.get('g:clockn', ZERO)).const()) + 1
    st.heap['g:clockn'] = P(n)
    I.store(st, p.lv, Struct('timeval', {'tv_sec': sym('sec%d' % n, 'I'), 'tv_usec': sym('usec%d' % n, 'I')}))
    return ZERO


def reading(st):
    n = int(P(st.heap.get('g:clockn', ZERO)).const())
    return sym('sec%d' % n, 'I'), sym('usec%d' % n, 'I'), n


def millis(a, b):
    return (b[0] - a[0]) * 1000 + (b[1] - a[1]) * Fraction(1, 1000)


def printed(c, I, s, sink, before, out, elapsed, label):
    """what a measurement writes: nothing when silent, else the difference in
    milliseconds and, where it names seconds, in seconds"""
    seq = I.load(s, sink).seq
    if not seq.explicit():
        raise Unsupported('text of a symbolic stream')
    xs = seq.vals()[before:]
    if not out:
        c.fact('%s: a silent timer prints nothing' % label, not xs)
        return
    ms = 0
    for i, x in enumerate(xs):
        if isinstance(x, Str):
            continue
        nxt = xs[i + 1].lit() if i + 1 < len(xs) and isinstance(xs[i + 1], Str) else None
        unit = (nxt or '').split()[:1]
        unit = unit[0].rstrip('.,;)') if unit else None
        if unit == 'ms':
            ms += 1
            c.eq('%s: milliseconds printed' % label, s.pc, x, elapsed)
        elif unit == 's':
            c.eq('%s: seconds printed' % label, s.pc, x, elapsed * Fraction(1, 1000))
        else:
            raise Unsupported('a number without its unit')
    c.fact('%s: the difference is printed in milliseconds' % label, ms == 1)


def timer(c, prog, cls):
    for out in (False, True):
        with c.part('timer %s' % ('that prints' if out else 'that is silent')):
            R = Run(prog, {'gettimeofday': clock}, ghosts=False)
            I = R.I
            c.use(R)
            fs = [f for f in prog.byq.get(cls + '::' + cls, []) if len(f['params']) == (1 if out else 0) and f.get('s') is not None]
            if not c.fact('constructor found', len(fs) == 1):
                continue
            st = R.st
            sink = st.alloc('sink', Stream(None, Seq()), False)
            for k, s, obj in I.exec_ctor(st, fs[0], cls, [sink] if out else []):
                c.fact('constructed', k == 'v')
                cell = s.alloc('timer', obj, False)
                born = reading(s)
                c.fact('construction reads the clock once', born[2] == 1)

                def m(s, name, args=()):
                    cs = [g for g in prog.byq.get(cls + '::' + name, []) if len(g['params']) == len(args) and g.get('s') is not None]
                    if not cs:
                        raise Unsupported('%s/%d not found' % (name, len(args)))
                    a = [s.alloc('arg', x, False) for x in args]
                    r = I.exec_fn(s, cs[0], cell, a)
                    if len(r) != 1 or r[0][0] != 'v':
                        # texts decide nothing about the value returned
                        return [(x, I.load(x, v)) for kk, x, v in r if kk == 'v']
                    return [(r[0][1], I.load(r[0][1], r[0][2]))]

                texts = [(), (Str('msg'),), (Str(''),), (Str([('opaque', 'm')]),), (Str('msg'), Str('post')), (Str(''), Str('')),
                         (Str([('opaque', 'm')]), Str([('opaque', 'p')]))]
                for label, start in (('after construction', None), ('after tic', 'tic')):
                    for s1, _ in (m(s, 'tic') if start else [(s, None)]):
                        base = reading(s1)
                        c.fact('%s: the clock was read' % label, base[2] == (2 if start else 1))
                        for s2, v in m(s1, 'get_tic'):
                            c.eq('%s: start time seconds' % label, s2.pc, v.f['tv_sec'], base[0])
                            c.eq('%s: start time microseconds' % label, s2.pc, v.f['tv_usec'], base[1])
                        for a in texts:
                            n = 0
                            for s2, v in m(s1, 'toc', a):
                                n += 1
                                now = reading(s2)
                                printed(c, I, s2, sink, 0, out, millis(base, now), label)
                                c.fact('%s: one reading' % label, now[2] == base[2] + 1)
                                c.eq('%s: elapsed milliseconds (%d texts)' % (label, len(a)), s2.pc, v, millis(base, now))
                                for s3, v3 in m(s2, 'get_tic'):
                                    c.eq('%s: measuring keeps the start time' % label, s3.pc, v3.f['tv_sec'], base[0])
                                    c.eq('%s: measuring keeps the start time (us)' % label, s3.pc, v3.f['tv_usec'], base[1])
                                # measuring again counts from the same start
                                for s3, v3 in m(s2, 'toc', ()):
                                    c.eq('%s: a second measurement counts from the same start' % label, s3.pc, v3,
                                         millis(base, reading(s3)))
                            c.fact('%s: returns' % label, n > 0)
                # elapsed since any given time, printing on or off
                tv = Struct('timeval', {'tv_sec': sym('us', 'I'), 'tv_usec': sym('uu', 'I')})
                for toggle in ((), ('enable_output',), ('disable_output',)):
                    s1 = s
                    for t in toggle:
                        g = [g for g in prog.byq.get(cls + '::' + t, []) if g.get('s') is not None]
                        for k2, s1, v in I.exec_fn(s, g[0], cell, [sink] if t == 'enable_output' else []):
                            pass
                    for s2, v in m(s1, 'get_elapsed', (tv,)):
                        c.eq('elapsed since a given time', s2.pc, v, millis((sym('us', 'I'), sym('uu', 'I')), reading(s2)))
                    for s2, v in m(s1, 'toc', ()):
                        c.eq('switching output changes nothing', s2.pc, v, millis(born, reading(s2)))
                        printed(c, I, s2, sink, 0, toggle[-1] == 'enable_output' if toggle else out, millis(born, reading(s2)),
                                toggle[-1] if toggle else 'as constructed')
            c.safety('timer', I)


def table(c, prog):
    f = [f for f in prog.byq.get('irk::print_timing_breakdown', []) if f.get('s') is not None][0]
    R = Run(prog, {}, ghosts=False)
    c.use(R)
    st = R.st
    t = [sym('t%d' % i) for i in range(7)]
    tot = ZERO
    for x in t:
        tot = tot + x
        st.assume(Ge(x, 0))
    st.assume(Gt(tot, 0))
    sink = R.cell(Stream(None, Seq()), 'sink')
    outs = R.call(f, [Seq([('e', x) for x in t], et='double'), sink, Str('METHOD')])
    units = set()
    for k, s, v in outs:
        if not c.fact('returns', k == 'v'):
            continue
        c.cover('table', s.pc)
        seq = R.I.load(s, sink).seq
        if not seq.explicit():
            raise Unsupported('text of a symbolic stream')
        lines = [[]]
        for x in seq.vals():
            if isinstance(x, Str):
                if x.lit() is None:
                    raise Unsupported('unknown text')
                parts = x.lit().split('\n')
                lines[-1].append(parts[0])
                for p in parts[1:]:
                    lines.append([p])
            else:
                lines[-1].append(x)
        lines = [l for l in lines if any(x != '' for x in l)]
        head = ''.join(x for x in lines[0] if isinstance(x, str))
        sec, ms = '( s |' in head, '(ms |' in head
        c.fact('the heading names one unit', sec != ms, head)
        units.add(sec)
        c.prove('seconds exactly above 1000 ms', s.pc, Gt(tot, 1000) if sec else Le(tot, 1000))
        sc = Fraction(1, 1000) if sec else Fraction(1)
        rows = [[x for x in l if isinstance(x, Poly)] for l in lines[1:]]
        if not c.fact('a total and one line per entry', len(rows) >= 7 and all(len(r) == 2 for r in rows), [len(r) for r in rows]):
            continue
        for i, r in enumerate(rows):
            x = tot if i == 0 else t[i - 1]
            n = 'total' if i == 0 else 'entry %d' % (i - 1)
            c.eq('%s in the unit named' % n, s.pc, r[0], x * sc)
            c.eq('%s as percentage of the total' % n, s.pc, r[1] * tot, x * 100)
    c.fact('both units occur', units == {True, False})
    c.safety('table', R.I)


def texts(c, prog):
    codes = prog.enums.get('newton::newton_solve_ret_codes', {})
    c.fact('codes are distinct', len(codes) >= 5 and len(set(codes.values())) == len(codes))
    R = Run(prog, {}, ghosts=False)
    c.use(R)
    f = R.find('newton::status_message', 1)

    def ask(code, *assume):
        st = R.st.copy()
        st.assume(*assume)
        return [(k, s, R.I.load(s, v)) for k, s, v in R.I.exec_fn(st, f, None, [st.alloc('arg', code, False)])]
    for n, k in codes.items():
        for kk, s, v in ask(P(k)):
            c.fact('text of %s' % n, kk == 'v' and isinstance(v, Str) and v.lit() == n, str(v))
    x = sym('code', 'I')
    for kk, s, v in ask(x, *[Not(Eq(x, k)) for k in codes.values()]):
        c.cover('unknown code', s.pc)
        c.fact('any other code has another text', kk == 'v' and isinstance(v, Str) and v.lit() is not None
               and v.lit() not in codes and v.lit() != '', str(v))


def padding(c, prog):
    fs = [f for f in prog.byq.get('newton::to_fixed_w_string', []) if f.get('s') is not None]
    if not c.fact('instances are there', len(fs) > 0):
        return
    for f in fs:
        R = Run(prog, {}, ghosts=False)
        c.use(R)
        w, ch, v = sym('w', 'I'), sym('fill', 'I'), sym('v')
        R.st.assume(Ge(w, 0))
        for k, s, r in R.call(f, [v, w, ch]):
            c.cover('padding', s.pc)
            r = R.I.load(s, r)
            if not c.fact('returns a text', k == 'v' and isinstance(r, Str) and len(r.p) >= 1):
                continue
            txt = r.p[0]
            ok = isinstance(txt, tuple) and txt[0] == 'fmt' and isinstance(txt[1], tuple)
            vals = [getattr(x, 'args', (None,))[0] if not hasattr(x, 'v') else x.v for x in txt[1]] if ok else []
            nums = [x for x in vals if isinstance(x, Poly)]
            c.fact('starts with the text of the number', ok and nums == [v] and not any(isinstance(x, Str) for x in vals), clip(r))
            n = Str([txt]).length()
            pad = ZERO
            for x in r.p[1:]:
                good = isinstance(x, tuple) and x[0] in ('repc', 'rep') and (x[0] == 'repc' and P(x[2]) == ch)
                c.fact('padded with the fill character', good, clip(x))
                pad = pad + (x[1] if isinstance(x, tuple) and x[0] in ('rep', 'repc') else ZERO)
            pc = list(s.pc) + [Ge(n, 0)]
            c.prove('padded up to the width, never truncated', pc, Or(And(Ge(w, n), Eq(pad, w - n)), And(Lt(w, n), Eq(pad, 0))))


def verify(c):
    prog = None
    with c.part('extraction'):
        prog = c.program(('api', 'irk', 'newton'))
        cls = 'my_timer_linux'
    if prog is None:
        return
    for name, fn in (('timer', lambda c, p: timer(c, p, cls)), ('timing table', table), ('status texts', texts), ('padding', padding)):
        with c.part(name):
            fn(c, prog)
