"""Turns /repo's current sources into typed syntax trees (clang does the parsing,
overload resolution, implicit conversions and template instantiation)."""
import hashlib
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
SRC = os.path.join(HERE, 'tool', 'cxx2json.cpp')
PRE = os.path.join(HERE, 'tool', 'cxx2json.bin')
RES = '/usr/lib/llvm-18/lib/clang/18'
TUS = {'api': os.path.join(HERE, 'tu', 'api.cpp'), 'erk': REPO + '/erk.cpp', 'irk': REPO + '/irk.cpp',
       'newton': REPO + '/newton.cpp'}


class FrontError(Exception):
    pass


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def compile_cmd(out):
    return ['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS',
            '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', SRC, '-o', out,
            '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']


def exporter():
    """the exporter: the committed binary when it was built from exactly this source, else built now"""
    want = sha(SRC)
    tag = PRE + '.src'
    if os.path.exists(PRE) and os.path.exists(tag) and open(tag).read().strip() == want + ' ' + sha(PRE):
        if os.access(PRE, os.X_OK):
            return PRE
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'cxx2json-' + want[:16])
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(compile_cmd(tmp), capture_output=True, text=True)
        if r.returncode:
            raise FrontError('cannot build the exporter: ' + r.stderr[-500:])
        os.replace(tmp, out)
    return out


def repo_key():
    h = hashlib.sha256()
    for d in (REPO, os.path.join(HERE, 'tu')):
        for n in sorted(os.listdir(d)):
            if n.endswith(('.hpp', '.cpp', '.h')):
                h.update(n.encode())
                h.update(open(os.path.join(d, n), 'rb').read())
    h.update(sha(SRC).encode())
    return h.hexdigest()[:20]


def export(tus=('api', 'erk', 'irk', 'newton'), defs=()):
    """paths of the exported trees"""
    exe = exporter()
    os.makedirs(BUILD, exist_ok=True)
    key = repo_key()
    jobs, paths = [], []
    for t in tus:
        out = os.path.join(BUILD, 'ast-%s-%s%s.json' % (key, t, ''.join('-' + d for d in defs)))
        paths.append(out)
        if os.path.exists(out):
            continue
        tmp = out + '.%d' % os.getpid()
        cmd = [exe, REPO + '/:' + os.path.join(HERE, 'tu') + '/', TUS[t], '--', '-std=c++11', '-I' + REPO,
               '-resource-dir=' + RES] + ['-D' + d for d in defs]
        fo = open(tmp, 'wb')
        fe = open(tmp + '.err', 'wb')
        jobs.append((subprocess.Popen(cmd, stdout=fo, stderr=fe), tmp, out, t))
        fo.close()
        fe.close()
    for p, tmp, out, t in jobs:
        rc = p.wait()
        err = open(tmp + '.err').read()
        os.remove(tmp + '.err')
        if rc or 'error:' in err:
            os.remove(tmp)
            raise FrontError('cannot export %s: %s' % (t, err[:600]))
        os.replace(tmp, out)
    clean(key)
    return paths


def clean(key):
    try:
        fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('ast-') and key not in f]
        for f in sorted(fs, key=os.path.getmtime)[:-24]:
            os.remove(f)
    except OSError:
        pass


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        print(exporter())
    elif len(sys.argv) > 1 and sys.argv[1] == 'prebuild':
        r = subprocess.run(compile_cmd(PRE) + ['-s'])
        if r.returncode == 0:
            open(PRE + '.src', 'w').write(sha(SRC) + ' ' + sha(PRE) + '\n')
    else:
        print(export())
