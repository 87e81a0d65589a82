from spec import *
from ctx import clip
HARNESS = 'tableau'


def text(R, st, v):
    v = R.I.load(st, v)
    return v.lit() if isinstance(v, Str) else None


def verify(c):
    for fam in ('erk', 'irk'):
        prog = c.program((fam,))
        with c.part(fam):
            offered = prog.enums[fam + '::rk_methods']
            codes = list(offered.values())
            c.fact('distinct codes', len(set(codes)) == len(codes))
            R = Run(prog, {}, ghosts=False)
            m2n = R.find(fam + '::method_to_name', 1)
            n2m = R.find(fam + '::name_to_method', 1)
            lst = R.find(fam + '::all_method_names', 0)

            def call(st, f, args):
                st = st.copy()
                cells = [st.alloc('arg', a, False) for a in args]
                return [(k, s, v) for k, s, v in R.I.exec_fn(st, f, None, cells)]

            def listing(label, st):
                for k, s, v in call(st, lst, []):
                    v = R.I.load(s, v)
                    names = [x.lit() for x in v.vals()] if isinstance(v, Seq) and v.explicit() else None
                    c.fact('%s: listing is exactly the offered names once each' % label,
                           k == 'v' and names is not None and sorted(names) == sorted(offered), clip(names))

            def tables(label, st):
                """every offered lookup in a state reached by earlier lookups"""
                for n, code in offered.items():
                    for k, s, v in call(st, m2n, [P(code)]):
                        c.fact('%s: name of %d' % (label, code), k == 'v' and text(R, s, v) == n, text(R, s, v))
                    for k, s, v in call(st, n2m, [Str(n)]):
                        c.fact('%s: code of %s' % (label, n), k == 'v' and R.I.load(s, v) == P(code))
                listing(label, st)

            tables('fresh', R.st)
            # an arbitrary unknown code, then everything again
            x = sym('code', 'I')
            st = R.st.copy()
            st.assume(*[Not(Eq(x, k)) for k in codes])
            after = []
            for k, s, v in call(st, m2n, [x]):
                c.cover('unknown code', s.pc)
                c.fact('unknown code: no offered name', k == 'v' and text(R, s, v) is not None
                       and text(R, s, v) not in offered, text(R, s, v))
                after.append(('after an unknown code', s))
            # an arbitrary unknown name
            nm = Str([('opaque', 'name')])
            mod = R.I.models_mod
            st = R.st.copy()
            st.assume(*[Not(mod.eqv(R.I, st, nm, Str(n))) for n in offered])
            for k, s, v in call(st, n2m, [nm]):
                c.cover('unknown name', s.pc)
                r = R.I.load(s, v)
                c.prove('unknown name: no offered code', s.pc, And(*[Not(Eq(r, q)) for q in codes]))
                after.append(('after an unknown name', s))
            for q in sorted({int(r.const()) for k, s, v in call(st, n2m, [nm]) for r in [R.I.load(s, v)] if r.is_const()}):
                for k, s, v in call(R.st, m2n, [P(q)]):
                    c.fact('code of an unknown name has no offered name', text(R, s, v) not in offered)
                    after.append(('after the code given to unknown names', s))
            for k, s, v in call(R.st, n2m, [Str('')]):
                r = R.I.load(s, v)
                c.prove('empty name: no offered code', s.pc, And(*[Not(Eq(r, q)) for q in codes]))
                after.append(('after the empty name', s))
            for n, code in list(offered.items()):
                for k, s, v in call(R.st, m2n, [P(code)]):
                    for k2, s2, v2 in call(s, n2m, [Str(text(R, s, v) or '?')]):
                        c.fact('code -> name -> code %d' % code, R.I.load(s2, v2) == P(code))
                for k, s, v in call(R.st, n2m, [Str(n)]):
                    for k2, s2, v2 in call(s, m2n, [R.I.load(s, v)]):
                        c.fact('name -> code -> name %s' % n, text(R, s2, v2) == n)
            for k, s, v in call(R.st, lst, []):
                after.append(('after a listing', s))
            for label, s in after:
                tables(label, s)
            c.use(R)
