"""Output settings (C07), for either integrator: which accepted steps are
reported, what is written, and that nothing else depends on the settings."""
from specs.erkspec import *


def out_atoms(R, r, cell, scell):
    """everything the output settings may influence: the settings themselves and
    what has been recorded so far"""
    s = set(R.outsyms)
    for p, h in r.leaves.items():
        if (p[0] == cell and p[1] in LISTS) or p[0] == scell:
            a = leafatom(h)
            if a is not None:
                s.add(a)
    # an invariant may have replaced a leaf by recorded output or the reverse
    return s


def renaming(s):
    mp = {}
    for a in s:
        if isinstance(a, B):
            mp[a] = bsym(a.a[0] + "'")
        elif a.shape == 's':
            mp[a] = P(atom('sym', str(a.args[0]) + "'", sort=a.sort))
        else:
            mp[a] = letter(atom('sym', str(a.args[0]) + "'", shape=a.shape))
    return mp


def state_of(r, st, cell, scell):
    vals = r.read(st)
    return {p: vals.get(p) for p in r.leaves if not (p[0] == cell and p[1] in LISTS) and p[0] != scell}


def line(t, y):
    """the text of one point"""
    k = atom('sym', '#txt', sort='I')
    return (('e', t), ('m', ZERO, NP, k, (Str(' '), elem(y, P(k)))), ('e', Str('\n')))


def texteq(c, name, pc, got, want):
    a, b = canon(Seq(got)).ch, canon(Seq(want)).ch
    a, b = joinstr(a), joinstr(b)
    if a == b:
        return c.note(name, 'proved', 'rewriting')
    c.note(name, 'refuted', 'rewriting', 'written %s, expected %s' % (clip(a), clip(b)))


def joinstr(ch):
    """adjacent literals as one; a manipulator-free reading of the text"""
    out = []
    for k in ch:
        if k[0] == 'm':
            k = k[:4] + (tuple(x[1] for x in joinstr([('e', y) for y in k[4]])),)
        elif k[0] == 'e' and isinstance(k[1], Str) and out and out[-1][0] == 'e' and isinstance(out[-1][1], Str):
            out[-1] = ('e', out[-1][1] + k[1])
            continue
        if k[0] == 'e' and isinstance(k[1], Str) and k[1] == Str(''):
            continue
        out.append(k)
    return tuple(out)


def c07(c, R, accepted, cls=OUT):
    """accepted(solution) = number of accepted steps, from the counters"""
    scell = R.ostream.cell
    mode, oi = sym('mode', 'I'), sym('oi', 'I')
    store = Eq(mod(mode, 2), 1)
    write = Eq(mod(floordiv(mode, 2), 2), 1)
    rs = main_loops(R, cls)
    for r in rs:
        h, cell = solution(r.head, cls)
        e0 = r.entry.heap[cell]
        outs = out_atoms(R, r, cell, scell)
        pts = explicit_points(e0)
        if c.fact('the initial point alone is recorded before the first step', pts is not None and len(pts) == 1):
            c.eq('initial time', r.entry.pc, pts[0]['t_vals'], sym('t0'))
            c.eq('initial state', r.entry.pc, vent(pts[0]['y_vals']), R.y0)
        c.fact('nothing is written before the first step', not r.entry.heap[scell].seq.ch and
               r.entry.heap[scell].seq.pre is None)
        bad = [p for p, v in r.entryvals.items() if not (p[0] == cell and p[1] in LISTS) and p[0] != scell
               and v is not None and any(occurs(v, a) for a in outs)]
        c.fact('initial state of the loop does not depend on output settings', not bad, str(bad))
        ref = None
        accs, ends = [], []
        for e in r.ends:
            p = pushes(c, 'attempt', h, e.heap[cell])
            if p is None:
                continue
            k0, k1 = accepted(h), accepted(e.heap[cell])
            a, b = r.head.heap[scell].seq, e.heap[scell].seq
            ok = a.pre == b.pre and a.plen == b.plen and b.ch[:len(a.ch)] == a.ch
            if not c.fact('text is only appended', ok):
                continue
            txt = b.ch[len(a.ch):]
            c.cover('attempt', e.pc)
            rejected = Eq(k1, k0)
            c.prove('at most one step per attempt', e.pc, Or(rejected, Eq(k1, k0 + 1)))
            rep = And(Not(rejected), Eq(mod(k1, oi), 0))
            c.fact('at most one point per attempt', len(p) <= 1)
            c.prove('stored exactly when accepted, due and storing', e.pc,
                    And(rep, store) if p else Not(And(rep, store)))
            c.prove('written exactly when accepted, due and streaming', e.pc,
                    And(rep, write) if txt else Not(And(rep, write)))
            ends.append((e, p, txt))
            isrej = z3if.valid(e.pc, rejected, c.timeout())
            accs.append((e, isrej))
            if p and ref is None:
                ref = (p[0]['t_vals'], vent(p[0]['y_vals']))
        if not c.fact('some steps are stored', ref is not None):
            continue
        c.fact('some steps are written', any(t for e, p, t in ends))
        for e, p, txt in ends:
            if p:
                c.eq('stored time', e.pc, p[0]['t_vals'], ref[0])
                c.eq('stored state', e.pc, vent(p[0]['y_vals']), ref[1])
            if txt:
                texteq(c, 'one line with the new time and state', e.pc, txt, line(*ref))
        # the reported pair is the integrator's own (time, state)
        pair = []
        for val, ini in zip(ref, (sym('t0'), R.y0)):
            got = None
            for p in state_of(r, r.ends[0], cell, scell):
                if p not in r.entryvals or r.entryvals[p] != ini:
                    continue
                ok = True
                for e, isrej in accs:
                    v = r.read(e).get(p)
                    want = r.leaves[p] if isrej else val
                    ok = ok and v is not None and (v == want or z3if.equal(v, want, e.pc, c.timeout()))
                if ok:
                    got = p
            pair.append(got)
        c.fact('reported time and state are those the integration continues from', all(pair), str(pair))
        noninterference(c, R, r, cell, scell, outs, cls)
    for kind, st, v in R.outs:
        s = R.I.load(st, v)
        for r in rs:
            h, cell = solution(r.head, cls)
            if s.f['t_vals'].pre == h.f['t_vals'].pre:
                p = pushes(c, 'return', h, s)
                c.fact('nothing is recorded after the last step', p is not None and not p)
                a, b = r.head.heap[scell].seq, st.heap[scell].seq
                c.fact('nothing is written after the last step', b.pre == a.pre and b.ch == a.ch)
                outs = out_atoms(R, r, cell, scell)
                bad = [f for f in ('status', 'count', 'accept_frac')
                       if any(occurs(x, a) for x in flat(s.f[f]) for a in outs)]
                c.fact('status and counters do not depend on output settings', not bad, str(bad))


def flat(v):
    if isinstance(v, Struct):
        return [y for x in v.f.values() for y in flat(x)]
    return [v] if isinstance(v, (Poly, B, Lin, BM)) else []


def noninterference(c, R, r, cell, scell, outs, cls):
    """two runs from the same state under different settings go the same way"""
    mp = renaming(outs)
    A = [('continues', e, state_of(r, e, cell, scell)) for e in r.ends] + \
        [(k, e, state_of(r, e, cell, scell)) for k, e, v in r.exits]
    for i, (k1, e1, v1) in enumerate(A):
        dep = [p for p, v in v1.items() if v is not None and any(occurs(v, a) for a in outs)]
        c.fact('next state does not mention output settings', not dep, str(dep))
    groups = []
    for x in A:
        for g in groups:
            if g[0][0] == x[0] and g[0][2] == x[2]:
                g.append(x)
                break
        else:
            groups.append([x])
    for i, g in enumerate(groups):
        for g2 in groups[i + 1:]:
            for x in g:
                for y in g2:
                    pc2 = [vsubst(b, mp) for b in y[1].pc]
                    res = z3if.check(list(x[1].pc) + pc2, c.timeout())
                    if res == 'unsat':
                        c.note('same course under different output settings', 'proved', 'z3')
                        continue
                    diff = [p for p in x[2] if x[2][p] != y[2].get(p)]
                    if x[0] == y[0] and all(x[2][p] is not None and y[2].get(p) is not None and
                                            z3if.equal(x[2][p], y[2][p], list(x[1].pc) + pc2, c.timeout()) for p in diff):
                        c.note('same course under different output settings', 'proved', 'z3')
                        continue
                    c.note('same course under different output settings', 'refuted' if res == 'sat' else 'unknown', 'z3',
                           '%s / %s differ in %s' % (x[0], y[0], diff[:4]))
    c.fact('the loop comes round', len(r.ends) > 0)
