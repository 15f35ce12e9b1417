"""Runs the proof units and the replay harness of one property, applies the outcome policy, writes evidence."""
import os, sys, json, time, subprocess, hashlib, tempfile, shutil, signal, traceback, importlib, fcntl
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
from . import frontend_run as FR
REPO = FR.REPO
BUILD = FR.BUILD
CXX = 'g++'
CXXFLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-DASIO_STANDALONE', '-Diter_start_seqnum=readahead_size', '-I%s/src' % REPO, '-I%s/deps' % REPO, '-I%s/stubs' % VERIF, '-I%s/harness' % VERIF,
            '-include', 'mutex', '-include', 'string', '-include', 'cctype', '-include', 'cstdint', '-include', 'cmath']
LIBS = ['-lrocksdb', '-ldw', '-lssl', '-lcrypto', '-luuid', '-lz', '-lbz2', '-llz4', '-lzstd', '-lpthread', '-ldl']

CORE = """Utils Commands Configuration Formatter RedisRequest ShardDirectory Timekeeper config/ConfigurationReader pubsub/SubscriptionTracker raft/RaftJournal raft/RaftState raft/RaftTimeouts
redis/ArrayResponseBuilder redis/Authenticator redis/InternalFilter redis/LeaseFilter redis/Transaction storage/ConsistencyScanner storage/ExpirationEventCache storage/InternalKeyParsing storage/KeyConstants
storage/KeyDescriptorBuilder storage/ParanoidManifestChecker storage/Randomization storage/VersionedHashRevisionTracker storage/WriteStallWarner""".split()
def core():
    """the files that the project's own build compiles, as far as they exist in the current tree (all of utils)"""
    out = ['../deps/xxhash/xxhash.cc']
    for r, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            q = os.path.relpath(os.path.join(r, f), os.path.join(REPO, 'src'))
            if q.endswith('.cc') and (q[:-3] in CORE or q.startswith('utils/')): out.append(q)
    return sorted(out)

class Unit:
    """one contract and the functions it covers. mk(prog) -> (lib, reg, contract)"""
    def __init__(self, mk, name=None, unroll=None, opts=None, group=None): self.mk, self.name, self.unroll, self.opts, self.group = mk, name, unroll, opts or {}, group

class Harness:
    """replay harness: C++ source in /verif/harness linked with the real sources `repo`"""
    def __init__(self, src, repo=(), flags=(), libs=(), san=None, time=15, ttime=120, env=None): self.src, self.repo, self.flags, self.libs, self.san, self.time, self.ttime = src, list(repo), list(flags), list(libs), san, time, ttime

def sha_tree():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'stubs'), os.path.join(VERIF, 'harness')):
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]

def compile_harness(h, out):
    """objects cached by the content of the whole source tree; returns (binary, error)"""
    tag = sha_tree()
    san = ['-fsanitize=' + h.san, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if h.san else []
    fl = CXXFLAGS + san + h.flags
    od = os.path.join(BUILD, 'obj', tag + '-' + hashlib.sha256(' '.join(fl).encode()).hexdigest()[:8])
    os.makedirs(od, exist_ok=True)
    srcs = [os.path.join(VERIF, 'harness', h.src)] + [os.path.normpath(os.path.join(REPO, 'src', r)) for r in h.repo]
    lib = [os.path.normpath(os.path.join(REPO, 'src', r)) for r in core() if r not in h.repo]
    def comp(s):
        o = os.path.join(od, os.path.relpath(s, '/').replace('/', '_') + '.o')
        if os.path.exists(o): return o, None
        t = o + '.%d.tmp' % os.getpid()
        p = subprocess.run([CXX] + fl + ['-c', s, '-o', t], capture_output=True, text=True)
        if p.returncode: return None, '%s\n%s' % (s, p.stderr[-3000:])
        os.replace(t, o); return o, None
    with ThreadPoolExecutor(8) as ex: r = list(ex.map(comp, srcs)); lr = list(ex.map(comp, lib))
    bad = [e for o, e in r if e]
    if bad: return None, bad[0]
    b = os.path.join(out, os.path.splitext(h.src)[0])
    ar = b + '-core.a'     # core files that do not compile are left out: whoever needs them fails to link
    subprocess.run(['ar', 'rc', ar] + [o for o, e in lr if o], capture_output=True)
    p = subprocess.run([CXX] + san + [o for o, e in r] + ['-Wl,--start-group', ar, '-Wl,--end-group', '-o', b] + h.libs + LIBS, capture_output=True, text=True)
    if p.returncode: return None, p.stderr[-3000:]
    return b, None

def prune_cache():
    d = os.path.join(BUILD, 'obj')
    try:
        e = sorted((os.path.getmtime(os.path.join(d, x)), x) for x in os.listdir(d))
        for _, x in e[:-24]: shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    except OSError: pass

# ------------------------------------------------------------------ proofs in worker processes
def short(r):
    """picklable summary of a Result"""
    return {'name': r.name, 'status': r.status, 'reason': r.reason, 'time': r.time, 'bounded': r.bounded, 'info': r.info, 'stats': r.stats,
            'obls': [{'label': o.label, 'kind': o.kind, 'n': o.n, 'proved': o.proved, 'backend': o.backend} for o in r.obls.values()],
            'fails': [{'label': l, 'result': f['result'], 'goal': f['goal'], 'model': f['model'], 'loop': f['loop'], 'trace': f['trace'], 'values': f['values']} for l, f in r.fails[:12]]}

def work(prog, unit, fi, conn, tier, attempt=0):
    from .contracts import verify, select
    sys.setrecursionlimit(20000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception: pass
    try:
        for _ in range(attempt): unit.mk(prog)      # a solver that got stuck is started again from a different internal state
        if attempt: import z3; z3.set_param('smt.random_seed', attempt)
        lib, reg, c = unit.mk(prog)
        f = select(prog, c)[fi]
        o = dict(unit.opts); o.setdefault('budget', 100 if tier == 'quick' else 600)
        if tier == 'thorough': o['timeout'] = max(o.get('timeout', c.opts.get('timeout', 8000)), 30000); o['alt_timeout'] = 40
        r = verify(prog, lib, reg, c, f, unroll=unit.unroll, opts=o)
        r.info['goalsrc'] = c.__class__.__name__
        out = [short(r)]
        if r.status == 'refuted' and unit.unroll is None and all(fl['loop'] for _, fl in r.fails):
            lib, reg, c = unit.mk(prog)
            f = select(prog, c)[fi]
            r2 = verify(prog, lib, reg, c, f, unroll=3, opts=dict(o, budget=40 if tier == 'quick' else 300))
            out.append(short(r2))
        conn.send(out)
    except BaseException as x:
        conn.send([{'name': unit.name or '?', 'status': 'unsupported', 'reason': '%s: %s' % (type(x).__name__, str(x)[:300] + traceback.format_exc()[-600:]), 'time': 0, 'bounded': False, 'info': {}, 'stats': {}, 'obls': [], 'fails': []}])
    finally:
        conn.close(); os._exit(0)

def run_units(prog, units, tier, limit, jobs=8):
    from .contracts import select
    todo = []
    for u in units:
        try: lib, reg, c = u.mk(prog); fs = select(prog, c)
        except Exception as x: todo.append((u, None, 'contract set-up: %s: %s' % (type(x).__name__, x))); continue
        if not fs: todo.append((u, None, 'no function %s in the current sources' % c.fn)); continue
        for i, f in enumerate(fs): todo.append((u, i, f['q']))
    res, running = [], []
    queue = [t + (0,) for t in todo if t[1] is not None]
    for u, i, why in todo:
        if i is None: res.append([{'name': u.name or '?', 'status': 'missing', 'reason': why, 'time': 0, 'bounded': False, 'info': {}, 'stats': {}, 'obls': [], 'fails': []}])
    end = time.time() + limit
    ctx = mp.get_context('fork')
    slots = (150, 150) if tier == 'quick' else (600, 1200)
    def gone(q, why, dt=0): res.append([{'name': q, 'status': 'timeout', 'reason': why, 'time': dt, 'bounded': False, 'info': {}, 'stats': {}, 'obls': [], 'fails': []}])
    while queue or running:
        while queue and len(running) < jobs and time.time() < end:
            u, i, q, att = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(prog, u, i, b, tier, att)); p.start(); b.close()
            running.append((p, a, (u, i, q, att), time.time()))
        if queue and time.time() >= end:
            for t in queue: gone(t[2], 'proof stage out of time')
            queue = []
        time.sleep(0.05)
        for t in list(running):
            p, a, w, st = t
            if a.poll(0):
                try: res.append(a.recv())
                except EOFError: gone(w[2], 'prover process ended', time.time() - st)
                p.join(); running.remove(t)
            elif not p.is_alive() or time.time() > end or time.time() - st > slots[w[3]]:
                if p.is_alive(): p.kill()
                p.join(); running.remove(t)
                if w[3] == 0 and time.time() < end: queue.append(w[:3] + (1,))
                else: gone(w[2], 'prover stopped after %d s' % (time.time() - st), time.time() - st)
    return res

# ------------------------------------------------------------------ known findings
def findings(pid):
    known, fixed = {}, []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                k, _, what = rest.partition(' ')
                known[k.split('=', 1)[1]] = what
            elif l.startswith('fixed: property=%s ' % pid): fixed.append(l)
    return known, fixed

# A refutation that depends on what is known at the head of a loop counts when every loop invariant of the proof of the
# original code (proofs/<id>.json) is still established, so that the proof fails at the obligation and not for want of an invariant.
def invariants(r): return sorted(o['label'] for o in r['obls'] if o['kind'] == 'invariant' and o['proved'])
def same_invariants(pid, r):
    try: base = json.load(open(os.path.join(VERIF, 'proofs', pid + '.json')))
    except (OSError, ValueError): return False
    return any(set(b) <= set(invariants(r)) for b in base.get(r['name'], []))
def record(pid, proved):
    d = {}
    for r in proved:
        if r["info"].get("loops") != 0: d.setdefault(r['name'], []).append(invariants(r))
    os.makedirs(os.path.join(VERIF, 'proofs'), exist_ok=True)
    with open(os.path.join(VERIF, 'proofs', pid + '.json'), 'w') as o: json.dump({k: sorted(v) for k, v in sorted(d.items())}, o, indent=0)

# ------------------------------------------------------------------ one property
def run(pid, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('props.' + pid.lower())
    known, fixed = findings(pid)
    scratch = tempfile.mkdtemp(prefix='qv-%s-' % pid)
    jobs = int(os.environ.get('CXV_JOBS', '8'))
    harnesses = mod.HARNESS if isinstance(mod.HARNESS, (list, tuple)) else [mod.HARNESS]
    try:
        pool = ThreadPoolExecutor(4)
        comp = [pool.submit(compile_harness, h, scratch) for h in harnesses]
        results, ferr, prog = [], None, None
        tl = time.time()
        groups = {}
        for u in mod.UNITS: groups.setdefault(tuple(u.group or mod.FILES), []).append(u)
        for files, us in groups.items():
            try:
                prog = FR.load(list(files))
                results += run_units(prog, us, tier, 420 if tier == 'quick' else 3000, jobs)
            except FR.FrontendError as x: ferr = 'front end: ' + str(x)[-1500:]
        tproof = time.time() - tl
        # ---- classify
        proved, bounded, undecided, refuted = [], [], [], []
        for rs in results:
            r = rs[0]
            st = r['status']
            if st == 'proved': proved.append(r)
            elif st == 'bounded': bounded.append(r)
            elif st == 'refuted':
                if len(rs) > 1 and rs[1]['status'] == 'refuted': refuted.append(rs[1])
                elif len(rs) > 1 and rs[1]['status'] not in ('bounded', 'proved') and same_invariants(pid, r): refuted.append(r)
                elif len(rs) > 1: r['reason'] = 'loop invariants not re-established; unrolled run: ' + rs[1]['status']; undecided.append(r)
                else: refuted.append(r)
            elif r['info'].get('partial_refuted'): refuted.append(r)
            else: undecided.append(r)
        if os.environ.get('CXV_RECORD'): record(pid, proved)
        # ---- harness, with the values of the verifier's counterexamples as hints
        hints = {'i': set(), 's': set()}
        for r in refuted:
            for f in r['fails']:
                hints['i'] |= set(f['values'].get('ints', [])); hints['s'] |= set(f['values'].get('strs', []))
        hf = os.path.join(scratch, 'hints')
        with open(hf, 'w') as o:
            for i in sorted(hints['i']): o.write('i %d\n' % i)
            for s in sorted(hints['s']): o.write('s %s\n' % (s.encode('latin-1', 'replace').hex() if isinstance(s, str) else bytes(s).hex()))
        hres = []
        for h, fu in zip(harnesses, comp):
            b, err = fu.result()
            if b is None: hres.append({'src': h.src, 'rc': None, 'out': '', 'err': 'does not compile: ' + err}); continue
            hres.append(run_harness(h, b, tier, seed, hf, scratch, known))
        prune_cache()
        failing = [x for x in hres if x['rc'] == 1 or x.get('crash')]
        broken = [x for x in hres if x['rc'] is None or x['rc'] not in (0, 1) and not x.get('crash')]
        knownhit = {}
        for x in hres:
            for l in x['out'].splitlines():
                if l.startswith('KNOWN '): knownhit.setdefault(l.split(' ', 2)[1], l)
        ev = evidence(pid, tier, seed, mod, results, proved, bounded, undecided, refuted, hres, ferr, tproof, t0, known, fixed)
        viol = bool(failing or refuted)
        ev['violations'] = int(viol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as o: json.dump(ev, o, indent=1)
        c = ev['coverage']
        print('%s: %d functions under contract, %d/%d obligations discharged, %d bounded, %d undecided, %d refuted; harness: %s; %.1f s' % (pid, c['functions_under_contract'], c['discharged'], c['obligations'], len(bounded), len(undecided), len(refuted), ', '.join('%s rc=%s cases=%s' % (x['src'], x['rc'], x.get('cases')) for x in hres), time.time() - t0))
        for r in undecided: print('  undecided: %s: %s %s' % (r['name'], r['status'], r['reason'][:300]))
        for r in refuted:
            for f in r['fails'][:4]: print('  failed obligation: %s: %s' % (r['name'], f['label']))
        for k, what in known.items(): print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, what))
        if viol:
            rd = os.path.join(VERIF, 'replays'); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%d.txt' % (pid, os.getpid()))
            write_replay(rp, pid, refuted, failing, seed, tier)
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if failing else ' no-failing-input-found'))
            return 1
        if ferr and not any(x['rc'] == 0 for x in hres):
            print(ferr); print(broken); return 2
        if broken and not proved:
            for x in broken: print('harness %s: %s' % (x['src'], x['err'][-1500:]))
            return 2
        for x in broken: print('  harness %s gave no verdict: %s' % (x['src'], (x['err'] or '')[-600:]))
        return 0
    finally: shutil.rmtree(scratch, ignore_errors=True)

def run_harness(h, b, tier, seed, hf, scratch, known):
    sd = tempfile.mkdtemp(prefix='h-', dir=scratch)
    lim = h.time if tier == 'quick' else h.ttime
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, CXV_HINTS=hf, CXV_SCRATCH=sd, CXV_TIME=str(lim), CXV_KNOWN=' '.join(known), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', TSAN_OPTIONS='exitcode=77')
    so, se = os.path.join(sd, '.out'), os.path.join(sd, '.err')
    timed = False
    with open(so, 'w') as o, open(se, 'w') as e:
        p = subprocess.Popen([b], cwd=sd, env=env, stdout=o, stderr=e, start_new_session=True)
        try: p.wait(lim * 4 + 60)
        except subprocess.TimeoutExpired: timed = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    out = open(so, errors='replace').read(); err = open(se, errors='replace').read()
    r = {'src': h.src, 'rc': p.returncode, 'out': out[-20000:], 'err': err[-6000:]}
    for l in out.splitlines():
        if l.startswith('CASES '): r['cases'] = int(l.split()[1]); r['distinct'] = int(l.split()[2])
        if l.startswith('STATE '): r['state'] = l[6:]
    samples = [l[7:] for l in out.splitlines() if l.startswith('SAMPLE ')]
    r['samples'] = samples[:6]
    if timed: r['rc'] = None; r['err'] = 'no verdict within %d s; %s' % (lim * 4 + 60, r['err']); r['crash'] = 'HANG-IS-FAILURE' in out and 'timeout'
    elif p.returncode < 0 or p.returncode in (77, 134, 139): r['crash'] = 'ended with status %d' % p.returncode
    return r

def write_replay(rp, pid, refuted, failing, seed, tier):
    with open(rp, 'w') as o:
        o.write('property %s (VERIF_SEED=%d, tier %s)\n' % (pid, seed, tier))
        o.write('re-run: cd /verif && VERIF_SEED=%d python3-vt check.py %s %s\n\n' % (seed, pid, tier))
        for x in failing:
            o.write('== failing execution of the real code (harness %s, status %s%s)\n' % (x['src'], x['rc'], ', ' + x['crash'] if x.get('crash') else ''))
            o.write('\n'.join(l for l in x['out'].splitlines() if not l.startswith('SAMPLE ')) + '\n')
            if x['err']: o.write(x['err'] + '\n')
        for r in refuted:
            o.write('== %s: obligations the verifier refuted\n' % r['name'])
            for f in r['fails']:
                o.write('-- %s (%s)\n   goal: %s\n   path:\n%s\n   counterexample:\n%s\n' % (f['label'], f['result'], f['goal'], '\n'.join('      ' + str(t) for t in f['trace']), '\n'.join('      ' + m for m in f['model'] or ['(the solver gave no model)'])))

def evidence(pid, tier, seed, mod, results, proved, bounded, undecided, refuted, hres, ferr, tproof, t0, known, fixed):
    allr = proved + undecided + refuted
    ob = sum(o['n'] for r in allr for o in r['obls']); di = sum(o['proved'] for r in proved for o in r['obls'])
    back = {}
    for r in allr + bounded:
        for k, v in (r['stats'] or {}).items():
            b = back.setdefault(k, [0, 0.0]); b[0] += v[0]; b[1] += v[1]
    fn = lambda r: {'function': r['name'], 'status': r['status'], 'obligations': sum(o['n'] for o in r['obls']), 'clauses': len(r['obls']), 'paths': r['info'].get('paths'), 'seconds': round(r['time'], 2), 'file': r['info'].get('file', '').replace(REPO + '/', ''), 'lines': r['info'].get('lines'), 'callees_by_contract': r['info'].get('modular', []), 'callees_inlined': len(r['info'].get('inlined', [])), **({'reason': r['reason'][:400]} if r['reason'] else {})}
    cov = {'obligations': ob, 'discharged': di,
           'checker_cmd': 'python3-vt check.py %s %s   (front end clang-18 plugin on the current sources; VC generator cxv/engine.py; z3, cvc5 as second opinion)' % (pid, tier),
           'trusted_base': ['clang 18 AST', 'cxv/frontend/cxxast.cc (AST dump)', 'cxv/engine.py (path-wise VC generation)', 'z3', 'cvc5', 'cxv/lib.py, cxv/stdfns.py (contracts of the C++ standard library)'] + list(getattr(mod, 'TRUSTED', [])),
           'functions_under_contract': len(proved), 'functions': [fn(r) for r in proved],
           'clauses': sorted(set(o['label'] for r in proved for o in r['obls']))[:400],
           'bounded': [fn(r) for r in bounded] + [{'what': b} for b in getattr(mod, 'BOUNDED', [])],
           'undecided': [fn(r) for r in undecided], 'refuted': [fn(r) for r in refuted],
           'back_ends': {k: {'obligations': v[0], 'seconds': round(v[1], 2)} for k, v in back.items()},
           'proof_seconds': round(tproof, 1),
           'replay_harness': [{'source': 'harness/' + x['src'], 'status': x['rc'], 'evaluations': x.get('cases', 0), 'distinct_nontrivial': x.get('distinct', 0), 'samples': x.get('samples', [])} for x in hres],
           'known_findings': known, 'fixed': fixed}
    if ferr: cov['front_end_error'] = ferr
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUME', [])), 'wall_s': round(time.time() - t0, 2), 'violations': 0}
