from spec import *
HARNESS = 'misc'


def verify(c):
    prog = c.program(('erk',))

    def fresh(over=None):
        R = Run(prog, {}, ghosts=False)
        o = R.obj('output_options')
        return R, o

    def query(R, st, cell, q):
        f = R.find('output_options::' + q, 0)
        outs = R.I.exec_fn(st, f, cell, [])
        if len(outs) != 1 or outs[0][0] != 'v':
            raise Unsupported('query with several outcomes')
        v = outs[0][2]
        return outs[0][1], v if isinstance(v, B) else Not(Eq(v, 0))

    with c.part('default setting'):
        R, o = fresh()
        cell = R.cell(o, 'o')
        st, a = query(R, R.st, cell, 'store_in_vectors')
        c.prove('stores', st.pc, a)
        st, b = query(R, st, cell, 'write_to_file')
        c.prove('does not stream', st.pc, Not(b))
        c.eq('interval is 1', st.pc, o.f['output_interval'], ONE)
        c.use(R)
    # modes: the two bits in every combination, and any further bits
    hi = sym('rest', 'I')
    for m in range(4):
        for ops, name in (((), 'queries'), (('enable_store_in_vectors',), 'enable storing'),
                          (('disable_store_in_vectors',), 'disable storing'), (('set_output_stream',), 'attach stream')):
            with c.part('%s from mode %d' % (name, m)):
                R, o = fresh()
                o = o.set('output_mode', 4 * hi + m)
                R.st.assume(Ge(hi, 0))
                st = R.st
                cell = R.cell(o, 'o')
                s0 = R.cell(Stream('user', Seq()), 'user')
                st, a0 = query(R, st, cell, 'store_in_vectors')
                st, b0 = query(R, st, cell, 'write_to_file')
                c.prove('store query reports its bit', st.pc, a0 if m & 1 else Not(a0))
                c.prove('stream query reports its bit', st.pc, b0 if m & 2 else Not(b0))
                want = m
                for op in ops:
                    f = R.find('output_options::' + op)
                    outs = R.I.exec_fn(st, f, cell, [s0] if op == 'set_output_stream' else [])
                    c.fact('one outcome', len(outs) == 1 and outs[0][0] == 'v')
                    st = outs[0][1]
                    want = {'enable_store_in_vectors': m | 1, 'disable_store_in_vectors': m & 2,
                            'set_output_stream': m | 2}[op]
                    c.cover(name, st.pc)
                o2 = st.heap[cell.cell]
                st, a = query(R, st, cell, 'store_in_vectors')
                st, b = query(R, st, cell, 'write_to_file')
                c.prove('storing afterwards', st.pc, a if want & 1 else Not(a))
                c.prove('streaming afterwards', st.pc, b if want & 2 else Not(b))
                c.eq('interval unchanged', st.pc, o2.f['output_interval'], o.f['output_interval'])
                if ops == ('set_output_stream',):
                    p = o2.f['output_stream']
                    c.fact('output goes to the stream', isinstance(p, Ptr) and p.lv == s0)
                elif ops:
                    c.fact('stream unchanged', o2.f['output_stream'] == o.f['output_stream'])
                c.fact('query does not change the setting', st.heap[cell.cell] == o2)
                c.use(R)
