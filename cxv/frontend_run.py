"""runs the clang plugin over translation units of /repo and loads the result"""
import json, os, subprocess, hashlib, tempfile, fcntl, sys
from .engine import Program
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('CXV_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
PLUGIN = os.path.join(BUILD, 'cxxast.so')
FLAGS = ['-std=c++17', '-DASIO_STANDALONE', '-Diter_start_seqnum=readahead_size', '-I%s/src' % REPO, '-I%s/deps' % REPO, '-I%s/stubs' % VERIF,
         '-include', 'mutex', '-include', 'string', '-include', 'cctype', '-include', 'cstdint', '-include', 'cmath']

def ensure_plugin():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'frontend', 'cxxast.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    stamp = PLUGIN + '.sha'
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(PLUGIN) and os.path.exists(stamp) and open(stamp).read() == h: return
        fl = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).replace('-fno-exceptions', '').split()
        tmp = PLUGIN + '.tmp%d' % os.getpid()
        subprocess.check_call(['clang++-18', '-O1', '-fPIC', '-shared', '-fno-rtti'] + fl + [src, '-o', tmp])
        os.replace(tmp, PLUGIN)
        open(stamp, 'w').write(h)

class FrontendError(Exception): pass

def dump(src, extra_roots=()):
    ensure_plugin()
    fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd)
    try:
        cmd = ['clang++-18'] + FLAGS + ['-w', '-fsyntax-only', '-fplugin=' + PLUGIN, '-Xclang', '-plugin', '-Xclang', 'cxxast',
               '-Xclang', '-plugin-arg-cxxast', '-Xclang', 'out=' + out]
        for r in [REPO + '/src'] + list(extra_roots):
            cmd += ['-Xclang', '-plugin-arg-cxxast', '-Xclang', 'root=' + r]
        p = subprocess.run(cmd + [src], capture_output=True, text=True)
        if p.returncode != 0: raise FrontendError(p.stderr[-2000:])
        if os.path.getsize(out) == 0: raise FrontendError('no output for ' + src)
        return json.load(open(out))
    finally: os.unlink(out)

def load(srcs, roots=()):
    from concurrent.futures import ThreadPoolExecutor
    paths = [s if s.startswith('/') else os.path.join(REPO, 'src', s) for s in srcs]
    prog = Program()
    with ThreadPoolExecutor(8) as ex:
        for i, d in enumerate(ex.map(lambda s: dump(s, roots), paths)): prog.add(d, i)
    return prog
