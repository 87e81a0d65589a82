"""Runs the specification of one property against /repo's current sources:
collects obligations, decides the outcome, writes evidence and replay files."""
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import select
import subprocess
import sys
import time
import traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vcg'))
sys.path.insert(0, HERE)
import front
from astx import Program
from terms import *
from values import *
import z3if


class OutOfTime(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + (420 if tier == 'quick' else 2400)
        self.obs = []           # (name, status, back end)
        self.failed = []        # (name, detail) refuted
        self.open = []          # (name, detail) not decided
        self.found = []         # known findings that fail as listed
        self.funs = set()
        self.assume = set()
        self.bounded = []
        self.vac = 0
        self.samples = []
        self.progs = {}
        self.runs = []
        self.partname = ''
        self.findings = load_findings(pid)
        self.nloops = {'folded to closed form': 0, 'cut by invariant': 0}
        self.ninv = 0
        self.nside = 0

    # -------------------------------------------------------------- sources
    def program(self, tus=('api', 'erk', 'irk', 'newton'), defs=()):
        k = (tuple(tus), tuple(defs))
        if k not in self.progs:
            self.progs[k] = Program(front.export(tus, defs))
        return self.progs[k]

    @property
    def prog(self):
        return self.program()

    def use(self, *runs):
        """record what a symbolic run goes through"""
        self.runs.extend(runs)

    def tally(self, runs):
        for R in runs:
            I = getattr(R, 'I', R)
            for k in I.used:
                self.funs.add(str(k))
            for n in I.assume_notes:
                self.assume.add(str(n))
            for r in I.loops:
                self.nloops['folded to closed form' if r.kind == 'fold' else 'cut by invariant'] += 1
                self.ninv += len(r.inv)
            self.nside += I.oblig if isinstance(I.oblig, int) else len(I.oblig)

    # ---------------------------------------------------------- obligations
    def note(self, name, ok, be, detail=''):
        name = (self.partname + ': ' if self.partname else '') + name
        self.obs.append((name, ok, be))
        if ok == 'refuted':
            self.failed.append((name, detail))
        elif ok == 'unknown':
            self.open.append((name, detail))
        if ok == 'proved' and len(self.samples) < 6:
            self.samples.append(name)
        return ok == 'proved'

    def timeout(self):
        left = self.deadline - time.time()
        if left < 5:
            raise OutOfTime('out of time')
        return int(min(20000 if self.tier == 'quick' else 60000, left * 1000))

    def fact(self, name, ok, detail='', be='rewriting', finding=None):
        """an obligation settled by computation on terms"""
        if not ok and finding:
            self.fail(name, 'refuted', be, detail, finding)
            return False
        return self.note(name, 'proved' if ok else 'refuted', be, detail)

    def prove(self, name, pc, goal, finding=None):
        """pc |- goal for all values of the symbols"""
        if isinstance(goal, bool):
            return self.fact(name, goal)
        q0 = z3if.STAT['queries']
        if z3if.valid(pc, goal, self.timeout()):
            return self.note(name, 'proved', 'z3' if z3if.STAT['queries'] > q0 else 'rewriting')
        r = z3if.check(list(pc) + [Not(goal)], self.timeout())
        if r == 'unsat':
            return self.note(name, 'proved', 'z3')
        return self.fail(name, 'refuted' if r == 'sat' else 'unknown', 'z3', 'not valid: %s' % clip(goal), finding)

    def prove_or_open(self, name, pc, goal):
        """as prove, where a failure may be due to an invariant that is too weak"""
        if z3if.valid(pc, goal, self.timeout()):
            return self.note(name, 'proved', 'z3')
        return self.note(name, 'unknown', 'z3', 'not valid: %s' % clip(goal))

    def fail(self, name, status, be, detail, finding=None):
        if finding and finding in self.findings and status == 'refuted':
            self.found.append((finding, name))
            self.obs.append((name, 'finding', be))
            return False
        return self.note(name, status, be, detail)

    def eq(self, name, pc, a, b, finding=None):
        """a == b for all values of the symbols that satisfy pc"""
        if a == b:
            return self.note(name, 'proved', 'rewriting')
        q0 = z3if.STAT['queries']
        try:
            ok = z3if.equal(a, b, pc, self.timeout())
        except (AttributeError, TypeError) as e:
            ok = False
        if ok:
            return self.note(name, 'proved', 'z3' if z3if.STAT['queries'] > q0 else 'rewriting')
        st = 'unknown'
        try:
            a, b = z3if.resolve(a, pc), z3if.resolve(b, pc)
            if a == b or z3if.equal(a, b, pc, self.timeout()):
                return self.note(name, 'proved', 'z3')
            a, b = z3if.resolve(z3if.pullroots(a, pc), pc), z3if.resolve(z3if.pullroots(b, pc), pc)
            if a == b or z3if.equal(a, b, pc, self.timeout()):
                return self.note(name, 'proved', 'z3')
        except (AttributeError, TypeError):
            pass
        detail = 'lhs %s  rhs %s' % (clip(a), clip(b))
        if isinstance(a, Poly) and isinstance(b, Poly):
            r = z3if.check(list(pc) + [Not(Eq(a, b))], self.timeout())
            if r == 'unsat':
                return self.note(name, 'proved', 'z3')
            st = 'refuted' if r == 'sat' or (not pc and free_difference(a - b)) else 'unknown'
            if st == 'unknown' and free_difference(a - b) and z3if.check(list(pc), 4000) == 'sat':
                st = 'refuted'
        elif isinstance(a, (Lin, BM)) and isinstance(b, (Lin, BM)):
            odd = {}
            z3if.inner_atoms((a, b), ('sqrt', 'abs', 'max', 'min', 'ite'), odd, set())
            st = 'unknown' if odd else 'refuted'
        elif isinstance(a, B) and isinstance(b, B):
            r = z3if.check(list(pc) + [Or(And(a, Not(b)), And(Not(a), b))], self.timeout())
            st = {'sat': 'refuted', 'unsat': 'proved'}.get(r, 'unknown')
        else:
            st = 'refuted'
        return self.fail(name, st, 'z3', detail, finding)

    def cover(self, name, pc):
        """vacuity: the assumptions of an obligation must be satisfiable"""
        r = z3if.check(list(pc), min(5000, self.timeout()))
        self.vac += 1
        if r == 'unsat':
            self.note('reachable: ' + name, 'unknown', 'z3', 'assumptions are contradictory')
            return False
        return True

    @contextlib.contextmanager
    def part(self, name):
        old, runs = self.partname, self.runs
        self.partname, self.runs = name, []
        try:
            yield
        except OutOfTime:
            self.note('completed', 'unknown', 'driver', 'time limit')
        except front.FrontError as e:
            self.note('extracted', 'unknown', 'driver', str(e)[:300])
        except Unsupported as e:
            self.note('within reach', 'unknown', 'driver', str(e)[:300])
        except RecursionError:
            self.note('within reach', 'unknown', 'driver', 'recursion limit')
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.note('within reach', 'unknown', 'driver', '%s: %s (%s:%s)' % (type(e).__name__, str(e)[:200],
                                                                              os.path.basename(tb.filename), tb.lineno))
        finally:
            self.tally(self.runs)
            self.partname, self.runs = old, runs

    MERGE = ('obs', 'failed', 'open', 'found', 'bounded', 'samples')

    def parallel(self, tasks, workers=8):
        """run named parts [(name, function of the context)] in forked workers"""
        if os.environ.get('VERIF_SERIAL') or len(tasks) == 1:
            for name, fn in tasks:
                with self.part(name):
                    fn(self)
            return
        self.warm()
        pending = list(enumerate(tasks))
        live, results = {}, {}
        while pending or live:
            while pending and len(live) < workers:
                i, (name, fn) = pending.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        for m in self.MERGE:
                            setattr(self, m, [])
                        self.funs, self.assume, self.vac, self.ninv, self.nside = set(), set(), 0, 0, 0
                        self.nloops = dict.fromkeys(self.nloops, 0)
                        z3if.STAT.update(queries=0, time=0.0, unknown=0)
                        with self.part(name):
                            fn(self)
                        d = {m: getattr(self, m) for m in self.MERGE + ('funs', 'assume', 'vac', 'ninv', 'nside', 'nloops')}
                        d['stat'] = dict(z3if.STAT)
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(d, f)
                        code = 0
                    except BaseException as e:
                        sys.stderr.write('worker: %r\n' % (e,))
                    finally:
                        os._exit(code)
                os.close(w)
                live[r] = (i, pid, name, [])
            ready, _, _ = select.select(list(live), [], [], 5)
            for r in ready:
                i, pid, name, buf = live[r]
                x = os.read(r, 1 << 20)
                if x:
                    buf.append(x)
                    continue
                os.close(r)
                del live[r]
                os.waitpid(pid, 0)
                results[i] = (name, b''.join(buf))
            if time.time() > self.deadline + 60:
                for r, (i, pid, name, buf) in list(live.items()):
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    os.close(r)
                    del live[r]
                    results[i] = (name, b'')
                for i, (name, fn) in pending:
                    results[i] = (name, b'')
                pending = []
        for i in sorted(results):
            name, data = results[i]
            try:
                d = pickle.loads(data)
            except Exception:
                self.note(name + ': completed', 'unknown', 'driver', 'worker ended without a result')
                continue
            for m in self.MERGE:
                getattr(self, m).extend(d[m])
            self.samples = self.samples[:8]
            self.funs |= d['funs']
            self.assume |= d['assume']
            self.vac += d['vac']
            self.ninv += d['ninv']
            self.nside += d['nside']
            for k, n in d['nloops'].items():
                self.nloops[k] += n
            for k, n in d['stat'].items():
                z3if.STAT[k] = z3if.STAT.get(k, 0) + n

    def warm(self):
        pass

    def safety(self, name, I, asserts=True):
        """array accesses, matrix shapes and assertions met on the way"""
        for w, what in (('shape_errors', 'matrix dimensions agree'), ('bounds_errors', 'accesses inside bounds')):
            bad = getattr(I, w)
            self.note('%s: %s' % (name, what), 'refuted' if bad else 'proved', 'rewriting', clip(bad))
        bad = I.bounds_unproved
        self.note('%s: accesses shown inside bounds' % name, 'unknown' if bad else 'proved', 'z3', clip([x[0] for x in bad]))
        if asserts:
            bad = I.failed_asserts
            self.note('%s: assertions hold' % name, 'unknown' if bad else 'proved', 'z3', clip(bad))


def clip(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[:n] + ' ...'


def free_difference(d):
    """a non-zero polynomial over independent real symbols is not identically zero"""
    d = z3if.clear(d)
    if not d.d:
        return False
    return all(a.kind in ('sym', 'elem', 'app') or a.kind.startswith('sym') for a in d.atoms())


def load_findings(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = l[len('finding:'):].strip().split(None, 2)
                if d[0] == 'property=' + pid and d[1].startswith('key='):
                    out[d[1][4:]] = d[2]
    return out


# ------------------------------------------------------------------ harness
def harness(pid, mod, seed, tier, budget, allowed):
    """compile and run the concrete counterpart; returns (status, output)"""
    src = os.path.join(HERE, 'harness', mod + '.cpp')
    if not os.path.exists(src):
        return 'none', ''
    hh = hashlib.sha256(b''.join(open(os.path.join(HERE, 'harness', x), 'rb').read() for x in (mod + '.cpp', 'common.hpp')))
    exe = os.path.join(front.BUILD, 'h-%s-%s-%s' % (mod, front.repo_key(), hh.hexdigest()[:8]))
    os.makedirs(front.BUILD, exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        objs, ps = [], []
        for s in [src] + [front.REPO + '/%s.cpp' % x for x in ('erk', 'irk', 'newton')]:
            o = '%s.%d.o' % (tmp, len(objs))
            objs.append(o)
            ps.append((subprocess.Popen(['g++', '-std=c++11', '-O1', '-w', '-c', '-I' + front.REPO,
                                         '-I' + os.path.join(HERE, 'harness'), s, '-o', o],
                                        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), o))
        err = ''
        for p, o in ps:
            _, e = p.communicate()
            if p.returncode:
                err += e
        if not err:
            r = subprocess.run(['g++', '-o', tmp] + objs + ['-larmadillo'], capture_output=True, text=True)
            err = r.stderr if r.returncode else ''
        for o in objs:
            if os.path.exists(o):
                os.remove(o)
        if err:
            return 'broken', err[:2000]
        os.replace(tmp, exe)
        for f in os.listdir(front.BUILD):
            if f.startswith('h-%s-' % mod) and f != os.path.basename(exe) and '.' not in f:
                with contextlib.suppress(OSError):
                    os.remove(os.path.join(front.BUILD, f))
    cmd = [exe, pid, str(seed), str(budget)] + sorted(allowed)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=budget + 60,
                           errors='replace')
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'')[-2000:].decode(errors='replace') if isinstance(e.stdout, bytes) else ''
    fails = [l for l in out.splitlines() if l.startswith('FAIL ')]
    if fails:
        return 'fail', '\n'.join(fails[:20])
    if rc < 0 or rc > 1:
        return 'crash', 'exit status %d\n' % rc + out[-1500:]
    if 'DONE ' not in out:
        return 'crash', 'no completion report, exit status %d\n' % rc + out[-1500:]
    return 'clean', out[-1500:]


def main(pid, tier=None):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(20000)
    c = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module('specs.' + pid)
    except Exception:
        raise
    z3if.STAT.update(queries=0, time=0.0, unknown=0)
    with c.part(''):
        mod.verify(c)
    if not c.obs:
        c.note('obligations generated', 'unknown', 'driver', 'no obligation was generated')
    h = getattr(mod, 'HARNESS', None)
    hres = ('not run', '')
    if h and (c.failed or c.open or tier == 'thorough'):
        budget = 60 if tier == 'quick' else 300
        if c.failed or c.open:
            budget = max(budget, 150)
        hres = harness(pid, h, seed, tier, budget, c.findings)
    lines, rc = [], 0
    for k, t in sorted(c.findings.items()):
        if any(f[0] == k for f in c.found):
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, t))
    rp = None
    nviol = 0
    if c.failed or hres[0] in ('fail', 'crash'):
        if hres[0] in ('fail', 'crash') and (hres[0] == 'fail' or c.failed or c.open):
            rp = replay(c, h, hres)
            lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
            rc, nviol = 1, max(1, len(c.failed))
        elif c.failed:
            rp = replay(c, h, hres)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
            rc, nviol = 1, len(c.failed)
    evidence(c, mod, hres, nviol, lines)
    ok = sum(1 for o in c.obs if o[1] == 'proved')
    print('%s: %d obligations, %d discharged, %d refuted, %d undecided; harness %s; %.1f s' % (
        pid, len(c.obs), ok, len(c.failed), len(c.open), hres[0], time.time() - c.t0))
    for n, d in c.failed[:6]:
        print('  failed: %s [%s]' % (n, clip(d, 200)))
    for n, d in c.open[:6]:
        print('  undecided: %s [%s]' % (n, clip(d, 200)))
    if hres[0] in ('fail', 'crash', 'broken', 'timeout'):
        print('  harness %s: %s' % (hres[0], clip(hres[1], 400)))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc


def replay(c, h, hres):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, c.id + '.txt')
    with open(p, 'w') as f:
        f.write('property %s\n' % c.id)
        for n, t in c.failed:
            f.write('failed obligation: %s\n    %s\n' % (n, t))
        for n, t in c.open:
            f.write('undecided obligation: %s\n    %s\n' % (n, t))
        f.write('\nconcrete run against the code in /repo: %s\n%s\n' % (hres[0], hres[1]))
        if h:
            f.write('\nrerun: cd /verif && g++ -std=c++11 -O1 -w -I/repo -Iharness harness/%s.cpp /repo/erk.cpp '
                    '/repo/irk.cpp /repo/newton.cpp -o /tmp/h -larmadillo && /tmp/h %s %d 150\n' % (h, c.id, c.seed))
    return p


TRUSTED = ['clang 18 front end and the exporter tool/cxx2json.cpp', 'the VC generator in vcg/ and its matrix/container library models',
           'z3', 'machine arithmetic is treated as real/integer arithmetic', 'user functors are pure and total']


def evidence(c, mod, hres, nviol, lines):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    ok = sum(1 for o in c.obs if o[1] == 'proved')
    be = {}
    for n, s, b in c.obs:
        if s == 'proved':
            be[b] = be.get(b, 0) + 1
    ev = {
        'property': c.id, 'tier': c.tier, 'seed': c.seed, 'level': getattr(mod, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': len([o for o in c.obs if o[1] != 'finding']), 'discharged': ok,
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (c.id, c.tier),
            'trusted_base': '; '.join(TRUSTED + list(getattr(mod, 'TRUSTED', []))),
            'back_ends': be, 'functions_under_contract': sorted(c.funs),
            'loops': c.nloops, 'loop_invariants': c.ninv, 'side_obligations_on_the_way': c.nside,
            'solver_queries': z3if.STAT['queries'], 'solver_time_s': round(z3if.STAT['time'], 2),
            'reachability_checks': c.vac,
            'undischarged': [n for n, s in [(o[0], o[1]) for o in c.obs] if s in ('unknown', 'refuted')][:50],
            'known_findings': [f[1] for f in c.found],
            'bounded': c.bounded + list(getattr(mod, 'BOUNDED', [])),
            'harness': {'status': hres[0], 'report': hres[1][-800:]},
            'samples': c.samples,
        },
        'assumptions': sorted(c.assume) + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - c.t0, 2),
        'violations': nviol,
    }
    tmp = os.path.join(d, '%s.json.%d' % (c.id, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, c.id + '.json'))
