"""Loads the exported AST (JSON produced by tool/cxx2json.cpp from /repo's
current sources) and offers look-ups plus a compact printer (debugging)."""
import json


class Program:
    def __init__(self, paths):
        self.fns = {}
        self.byq = {}
        self.records = {}
        self.globals = {}
        self.gbyq = {}
        self.enums = {}
        self.units = []
        for i, p in enumerate(paths):
            d = json.load(open(p)) if isinstance(p, str) else p
            self.units.append(d)
            self._add(d, i)

    def _add(self, d, u):
        # ids are per unit: make them globally unique by (unit, id)
        def walk(x):
            stack = [x]
            while stack:
                y = stack.pop()
                if isinstance(y, dict):
                    if 'id' in y and isinstance(y['id'], int):
                        y['id'] = (u, y['id'])
                    if 'opid' in y and isinstance(y['opid'], int):
                        y['opid'] = (u, y['opid'])
                    stack.extend(v for v in y.values() if isinstance(v, (dict, list)))
                elif isinstance(y, list):
                    stack.extend(v for v in y if isinstance(v, (dict, list)))
        walk(d)
        for e in d.get('enums', ()):
            self.enums[e['q']] = {n: int(v) for n, v in e['c']}
        for f in d['functions']:
            self.fns[f['id']] = f
            f['unit'] = u
            self.byq.setdefault(f['q'], [])
            key = (f['q'], tuple(p['t'] for p in f['params']), tuple(f.get('targs', [])), f.get('cls'))
            if any(key == (g['q'], tuple(p['t'] for p in g['params']), tuple(g.get('targs', [])), g.get('cls'))
                   for g in self.byq[f['q']]):
                continue
            self.byq[f['q']].append(f)
        for r in d['records']:
            self.records.setdefault(r['n'], r)
        for g in d['globals']:
            self.globals[g['id']] = g
            self.gbyq.setdefault(g['q'], g)

    def find(self, q, nparams=None, targs=None, cls=None, ptypes=None):
        r = []
        for f in self.byq.get(q, []):
            if nparams is not None and len(f['params']) != nparams:
                continue
            if targs is not None and [str(t) for t in f.get('targs', [])] != [str(t) for t in targs]:
                continue
            if cls is not None and f.get('cls') != cls:
                continue
            if ptypes is not None and not all(a in p['t'] for a, p in zip(ptypes, f['params'])):
                continue
            r.append(f)
        return r


def pe(e):
    if e is None:
        return '~'
    k = e['k']
    if k in ('Int', 'Float', 'Bool'):
        return str(e.get('txt', e['v']))
    if k == 'Str':
        return repr(e['v'])
    if k == 'Ref':
        return e['d']['n']
    if k == 'Member':
        return pe(e['b']) + ('->' if e.get('arrow') else '.') + e['n']
    if k in ('Call', 'MCall', 'OpCall'):
        a = ', '.join(pe(x) for x in e['a'])
        f = e.get('f', {}).get('q', '?')
        if k == 'MCall':
            return '%s.<%s>(%s)' % (pe(e['obj']), f, a)
        if k == 'OpCall':
            return 'op%s<%s>(%s)' % (e['op'], f, a)
        if 'f' not in e:
            f = '*' + pe(e['callee'])
        return '%s(%s)' % (f, a)
    if k == 'Construct':
        return 'new:%s%s(%s)' % (e['cls'], '{il}' if e['initlist'] else '{}' if e['list'] else '', ', '.join(pe(x) for x in e['a']))
    if k == 'InitList':
        return '{' + ', '.join(pe(x) for x in e['a']) + '}'
    if k == 'Cast':
        if e['ck'] in ('NoOp', 'LValueToRValue'):
            return pe(e['e'])
        return '(%s:%s)%s' % (e['ck'], e['t'], pe(e['e']))
    if k == 'Un':
        return (pe(e['e']) + e['op']) if e.get('post') else e['op'] + pe(e['e'])
    if k == 'Bin':
        return '(%s %s %s)' % (pe(e['a']), e['op'], pe(e['b']))
    if k == 'Cond':
        return '(%s ? %s : %s)' % (pe(e['c']), pe(e['a']), pe(e['b']))
    if k == 'Index':
        return '%s[%s]' % (pe(e['a']), pe(e['b']))
    if k == 'Lambda':
        return 'lambda[%s]{%s}' % (','.join(c.get('n', '?') + ('&' if c.get('ref') else '') for c in e['caps']), ps(e.get('s'), 2))
    return k


def ps(s, ind=0):
    if s is None:
        return ''
    sp = '  ' * ind
    k = s['k']
    if k == 'Compound':
        return '\n'.join(ps(x, ind) for x in s['b'])
    if k == 'Decl':
        return '\n'.join('%sVAR %s : %s%s = %s' % (sp, d['n'], d['t'], d.get('dims', ''), pe(d.get('init'))) for d in s['d'])
    if k == 'ExprStmt':
        return sp + pe(s['e'])
    if k == 'If':
        return '%sIF %s\n%s%s' % (sp, pe(s['c']), ps(s['a'], ind + 1), ('\n%sELSE\n%s' % (sp, ps(s['b'], ind + 1))) if s.get('b') else '')
    if k == 'For':
        return '%sFOR %s ; %s ; %s\n%s' % (sp, ps(s['init']).strip(), pe(s['c']), pe(s['inc']), ps(s['b'], ind + 1))
    if k in ('While', 'Do'):
        return '%s%s %s\n%s' % (sp, k, pe(s['c']), ps(s['b'], ind + 1))
    if k == 'RangeFor':
        return '%sRANGEFOR %s : %s in %s\n%s' % (sp, s['var']['n'], s['var']['t'], pe(s['range']), ps(s['b'], ind + 1))
    if k == 'Return':
        return sp + 'RETURN ' + pe(s.get('e'))
    if k in ('Switch',):
        return '%sSWITCH %s\n%s' % (sp, pe(s['c']), ps(s['b'], ind + 1))
    if k in ('Case', 'Default'):
        return '%s%s %s\n%s' % (sp, k, s.get('v', ''), ps(s['b'], ind + 1))
    if k == 'Try':
        return '%sTRY\n%s\n%sCATCH...' % (sp, ps(s['b'], ind + 1), sp)
    return sp + k + ' ' + str(s.get('what', ''))


def pf(f):
    return '%s %s(%s) %s\n%s' % (f['t'], f['q'], ', '.join(p['t'] + ' ' + p['n'] for p in f['params']), f.get('targs', ''),
                                ''.join('  INIT %s = %s\n' % (i.get('field', i.get('base')), pe(i['init'])) for i in f.get('inits', []))
                                + ps(f['s'], 1))


if __name__ == '__main__':
    import sys
    P = Program([sys.argv[1]])
    for q in sys.argv[2:]:
        for f in P.find(q):
            print(pf(f))
