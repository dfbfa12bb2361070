#!/usr/bin/env python3
"""Runs the check of one property: compiles the current sources of /repo to LLVM IR together with the
property's harness, executes the entries symbolically, replays what the solver found on a native build
of the same sources, and writes the evidence file.

usage: run.py ID            (tier from VERIF_TIER, seed from VERIF_SEED)
       run.py ID --only ENTRY [--keep] [-v]
       run.py ID --replay FILE
"""
import concurrent.futures as cf, glob, json, os, re, shlex, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = V + '/build'
ID = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
VERB = '-v' in sys.argv
T0 = time.time()
BUDGET = {'quick': 420, 'thorough': 840}.get(TIER, 420)     # seconds for the whole check
CORES = int(os.environ.get('VERIF_CORES', '8'))
DEFSTUBS = ['rand=vf_crand_stub', 'eoRng::rand()=vf_rand_stub', 'eoRng::normal()=vf_normal_stub', 'eoRng::random(unsigned int)=vf_random_stub',
            'std::random_device::_M_init(**=vf_rd_init', 'std::random_device::_M_fini()=vf_rd_fini', 'std::random_device::_M_getval()=vf_rd_get',
            'std::mersenne_twister_engine<**>::seed(unsigned long)=vf_mt_seed',
            'unsigned long std::uniform_int_distribution<unsigned long>::operator()<**param_type const&)=vf_uid_ul', 'long std::uniform_int_distribution<long>::operator()<**param_type const&)=vf_uid_l',
            'unsigned int std::uniform_int_distribution<unsigned int>::operator()<**param_type const&)=vf_uid_u', 'int std::uniform_int_distribution<int>::operator()<**param_type const&)=vf_uid_i',
            'double std::uniform_real_distribution<double>::operator()<**param_type const&)=vf_urd']
CFLAGS = '-std=c++17 -O1 -Xclang -disable-llvm-passes -emit-llvm -gline-tables-only -fsanitize=address -ftrivial-auto-var-init=pattern -w'.split()
INCS = ['eo/src', 'eo/src/utils', 'mo/src', 'moeo/src', 'edo/src', 'smp/src', 'problems']

def err(msg):
    print('CHECK-ERROR property=%s %s' % (ID, msg)); sys.stdout.flush(); sys.exit(2)
def left(): return BUDGET - (time.time() - T0)
def sh(cmd, timeout=None, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **k)

STOP = threading.Event(); CUT = 'not finished: a violation was already confirmed'   # set once a counterexample has been reproduced
class TU: pass
class Run: pass

def parse(path):
    t = TU(); t.path = path; t.name = os.path.basename(path)[:-4]; t.flags = []; t.stubs = []; t.nostub = []; t.keep = []; t.entries = []; t.nlink = []; t.assume = []; t.outside = []
    for l in open(path):
        m = re.match(r'//@\s*(\w+)\s*(.*)$', l)
        if not m: continue
        k, r = m.group(1), m.group(2).strip()
        if k == 'flags': t.flags += shlex.split(r)
        elif k == 'include': t.flags += ['-I%s/%s' % (REPO, x) for x in r.split()]
        elif k == 'stub':
            if '=' not in r: raise SystemExit('stub without replacement in ' + path)
            t.stubs.append(r)
        elif k == 'nostub': t.nostub.append(r)
        elif k == 'keep': t.keep.append(r)
        elif k == 'link': t.nlink += r.split()
        elif k == 'bounds': t.assume.append(r)
        elif k == 'outside': t.outside.append(r)
        elif k == 'entry':
            w = shlex.split(r); e = {'name': w[0], 'covers': [], 'quick': '', 'thorough': None, 'opts': '', 'jobs': 1}
            for x in w[1:]:
                a, b = x.split('=', 1)
                if a == 'covers': e['covers'] = [c for c in b.split(',') if c]
                elif a == 'jobs': e['jobs'] = int(b)
                else: e[a] = b
            if e['thorough'] is None: e['thorough'] = e['quick']
            t.entries.append(e)
    return t

def compile_tu(t, W):
    inc = ['-I' + V + '/engine', '-I' + V + '/harness'] + ['-I%s/%s' % (REPO, i) for i in INCS]
    r = sh(['clang++'] + CFLAGS + t.flags + inc + ['-c', t.path, '-o', W + '/' + t.name + '.bc'])
    if r.returncode: return 'compilation of %s failed:\n%s' % (t.name, r.stdout[-3000:])
    return None
def stubs_of(t):
    s = [x for x in DEFSTUBS if not any(n in x for n in t.nostub)] + t.stubs
    return sum((['-stub', x] for x in s), [])
def prep_sym(t, W):
    ents = sum((['-entry', e] for e in sorted({e['name'] for e in t.entries})), [])
    r = sh([B + '/prep', W + '/' + t.name + '.bc', W + '/support.bc', B + '/model.bc', '-o', W + '/' + t.name + '.sym.bc'] + ents + stubs_of(t) + sum((['-keep', k] for k in t.keep), []))
    if r.returncode: return 'preparing %s failed:\n%s' % (t.name, r.stdout[-3000:])
def build_native(t, W):
    r = sh([B + '/prep', '-native', W + '/' + t.name + '.bc', W + '/support.bc', '-o', W + '/' + t.name + '.nat.bc'] + stubs_of(t))
    if r.returncode: return 'preparing native %s failed:\n%s' % (t.name, r.stdout[-3000:])
    r = sh(['clang++', '-O1', '-fsanitize=address', '-w', '-rdynamic', W + '/' + t.name + '.nat.bc', W + '/nsupport.o', B + '/vf_native.o', '-o', W + '/' + t.name + '.replay', '-ldl', '-lpthread'] + t.nlink)
    if r.returncode: return 'native build of %s failed:\n%s' % (t.name, r.stdout[-3000:])

def native_run(t, W, entry, inputs, params, tag, timeout=30):
    f = '%s/%s.in' % (W, tag)
    with open(f, 'w') as o:
        for k, v in params.items(): o.write('par %s %d\n' % (k, v))
        for k, v in inputs: o.write('in %s %d\n' % (k, v))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=44:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=190:detect_stack_use_after_return=0')
    try: r = sh([W + '/' + t.name + '.replay', entry, f], timeout=timeout, env=env, cwd=W)
    except subprocess.TimeoutExpired: return ('hang', 'no end within %ds' % timeout, [])
    notes = [tuple(l.split()[1:3]) for l in r.stdout.splitlines() if l.startswith('VF-NOTE ')]
    c = r.returncode
    if c == 0: return ('ok', '', notes)
    if c == 42: return ('assert', (re.findall(r'VF-ASSERT (.*)', r.stdout) or ['?'])[0], notes)
    if c == 43: return ('assume', '', notes)
    if c in (45, 46): return ('diverged', r.stdout[-300:], notes)
    m = re.findall(r'ERROR: AddressSanitizer: .*|VF-TERMINATE.*|Assertion.*failed.*', r.stdout)
    return ('crash', (m[0] if m else 'exit code %d' % c), notes)

def run_vsym(r, W):
    cmd = [B + '/vsym', W + '/' + r.tu.name + '.sym.bc', r.e['name'], '-o', r.out, '-j', str(r.e['jobs']), '-max-time', '%.0f' % max(5, left() - 25)]
    for k, v in r.params.items(): cmd += ['-p', '%s=%d' % (k, v)]
    cmd += shlex.split(r.e['opts'])
    if VERB: print('  +', ' '.join(cmd))
    t = time.time()
    if STOP.is_set(): r.err = CUT; return
    log = open(r.out + '-log', 'w+'); p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True); end = t + max(30, left() + 20)
    while p.poll() is None:
        try: p.wait(0.05 if time.time() - t < 2 else 0.5)
        except subprocess.TimeoutExpired: pass
        if p.returncode is None and (time.time() > end or (STOP.is_set() and time.time() > STOP.at + 15)):
            r.err = 'symbolic execution exceeded its time budget' if time.time() > end else CUT
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait(); return
    r.secs = time.time() - t; log.seek(0); p.stdout = log.read(); r.log = p.stdout
    if p.returncode: r.err = 'executor failed (%d): %s' % (p.returncode, p.stdout[-1500:]); return
    r.parts = []
    for f in [r.out] + sorted(glob.glob(r.out + '.*')):
        try: r.parts.append(json.load(open(f)))
        except Exception as x: r.err = 'bad executor output %s: %s' % (f, x); return
    r.err = None

def main():
    r = sh(['bash', V + '/setup.sh'])
    if r.returncode: err('engine build failed:\n' + r.stdout[-2000:])
    W = '%s/work/%s.%d' % (B, ID, os.getpid())
    os.makedirs(W)
    try: code = check(W)
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(W, ignore_errors=True)
        else: print('kept', W)
    sys.exit(code)

def known():
    out = []
    try:
        for l in open(V + '/known-findings.txt'):
            m = re.match(r'known: property=(\S+) entry=(\S+) id="([^"]*)" (.*)', l)
            if m and m.group(1) == ID: out.append(m.groups()[1:])
    except FileNotFoundError: pass
    return out

def check(W):
    tus = [parse(p) for p in sorted(glob.glob('%s/harness/%s.cpp' % (V, ID)) + glob.glob('%s/harness/%s_*.cpp' % (V, ID)))]
    if not tus: err('no harness')
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    if only:
        for t in tus: t.entries = [e for e in t.entries if re.fullmatch(only, e['name'])]
        tus = [t for t in tus if t.entries]
    ex = cf.ThreadPoolExecutor(32); sem = threading.Semaphore(CORES)
    def guarded(f, *a):
        with sem: return f(*a)
    def support():
        inc = ['-I%s/%s' % (REPO, i) for i in INCS]
        r = sh(['clang++'] + CFLAGS + inc + ['-c', V + '/harness/support.cpp', '-o', W + '/support.bc'])
        return r.returncode and 'support failed:\n' + r.stdout[-3000:]
    def nsupport():
        inc = ['-I%s/%s' % (REPO, i) for i in INCS]
        r = sh(['clang++', '-std=c++17', '-O1', '-w'] + inc + ['-c', V + '/harness/nsupport.cpp', '-o', W + '/nsupport.o'])
        return r.returncode and 'native support failed:\n' + r.stdout[-3000:]
    fs = ex.submit(guarded, support); fn = ex.submit(guarded, nsupport)
    comp = {t: ex.submit(guarded, compile_tu, t, W) for t in tus}
    for f in [fs, fn] + list(comp.values()):
        e = f.result()
        if e: err(e)
    pf = {t: ex.submit(guarded, prep_sym, t, W) for t in tus}
    for f in pf.values():
        e = f.result()
        if e: err(e)
    tbuild = time.time() - T0
    # symbolic runs, longest first is approximated by declaration order
    runs = []
    for t in tus:
        for e in t.entries:
            spec = e[TIER if TIER in ('quick', 'thorough') else 'quick']
            if spec == 'skip': continue
            for k, ps in enumerate(spec.split(';')):
                q = Run(); q.tu = t; q.e = e; q.params = {a.split('=')[0]: int(a.split('=')[1]) for a in ps.split()}; q.out = '%s/%s.%s.%d.json' % (W, t.name, e['name'], k); q.parts = []; q.err = 'not run'; q.secs = 0
                runs.append(q)
    lock = threading.Condition(); state = {'free': CORES}
    def slot(q):
        n = min(q.e['jobs'], CORES)
        with lock:
            while state['free'] < n: lock.wait()
            state['free'] -= n
        try: run_vsym(q, W)
        finally:
            with lock: state['free'] += n; lock.notify_all()
    kn = known(); nlock = threading.Lock(); early = {}
    def key_of(q, v): return (q.tu.name, q.e['name'], v['kind'], v['id'], '' if v['kind'] == 'assert' else v['loc'])
    def replay_cex(q, v):
        with nlock:
            k = key_of(q, v)
            if k not in early: early[k] = None
            else: return
            tag = 'cex%d' % len(early)
        if nf[q.tu].result(): return
        early[k] = native_run(q.tu, W, q.e['name'], v['inputs'], q.params, tag)
        if early[k][0] in ('assert', 'crash', 'hang') and not [x for x in kn if x[0] == q.e['name'] and x[1] == v['id']] and not STOP.is_set(): STOP.at = time.time(); STOP.set()
    def slot_replay(q):
        slot(q)
        for p in q.parts:
            for v in p['violations']: replay_cex(q, v)
    nf = {t: ex.submit(guarded, build_native, t, W) for t in tus}
    big = cf.ThreadPoolExecutor(max(1, len(runs)))
    rf = [big.submit(slot_replay, q) for q in sorted(runs, key=lambda q: -q.e['jobs'])]
    for f in rf: f.result()
    for f in nf.values():
        e = f.result()
        if e: err(e)
    tsym = time.time() - T0
    # collect
    problems = []; viols = []; tot = {}; solver = {}; funcs = set(); covers = {}; fulls = []; samples = []; assert_ids = {}
    for q in runs:
        name = q.e['name'] + ('(' + ' '.join('%s=%d' % kv for kv in q.params.items()) + ')' if q.params else '')
        if q.err: problems.append('%s: %s' % (name, q.err)); continue
        inc = {}; cov = covers.setdefault((q.tu.name, q.e['name']), {}); used = {}
        for p in q.parts:
            for k, v in p.items():
                if isinstance(v, (int, float)) and k not in ('wall', 'rss_mb'): tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
            for k, v in p['solver'].items(): solver[k] = max(solver.get(k, 0), v) if k == 'max_time' else solver.get(k, 0) + v
            for k, v in p['covers'].items(): cov[k] = cov.get(k, 0) + v
            for k, v in p['incomplete'].items(): inc[k] = inc.get(k, 0) + v
            for k, v in p['assert_ids'].items(): assert_ids[q.e['name'] + ': ' + k] = assert_ids.get(q.e['name'] + ': ' + k, 0) + v
            used.update(p['params']); funcs.update(p['functions'])
            for v in p['violations']: viols.append((q, v))
            for s in p['samples']: samples.append((q, s))
        for k, v in inc.items(): problems.append('%s: incomplete: %s (x%d)' % (name, k, v))
        fulls.append({'entry': q.e['name'], 'bounds': used, 'paths': sum(p['paths'] for p in q.parts), 'pruned': sum(p['assume_ends'] for p in q.parts), 'asserts': sum(p['asserts'] for p in q.parts), 'wall_s': round(q.secs, 2)})
        if VERB: print('%-28s %6.1fs paths=%d asserts=%d z3=%d %.1fs viol=%d inc=%d' % (name, q.secs, fulls[-1]['paths'], fulls[-1]['asserts'], sum(p['solver']['z3_calls'] for p in q.parts), sum(p['solver']['z3_time'] for p in q.parts), sum(len(p['violations']) for p in q.parts), len(inc)))
    # counterexamples: replay on the native build
    rep = '%s/evidence/replay/%s' % (V, ID); shutil.rmtree(rep, ignore_errors=True)
    confirmed = []; knownhit = {}; seen = set(); n = 0
    for q, v in viols:
        key = key_of(q, v)
        if key in seen: continue
        seen.add(key); got = early[key]
        what = '%s: %s [%s] at %s' % (q.e['name'], v['id'], v['msg'], v['loc'])
        if got[0] in ('ok', 'assume', 'diverged'): problems.append('counterexample not reproduced natively: %s -> %s %s inputs=%s' % (what, got[0], got[1], v['inputs'][:40])); continue
        hit = [k for k in kn if k[0] == q.e['name'] and k[1] == v['id']]
        if hit: knownhit[hit[0]] = what; continue
        os.makedirs(rep, exist_ok=True); path = '%s/%s-%d.json' % (rep, q.e['name'], n); n += 1
        json.dump({'property': ID, 'harness': q.tu.name, 'entry': q.e['name'], 'params': q.params, 'inputs': v['inputs'], 'violated': v['id'], 'message': v['msg'], 'location': v['loc'], 'native_outcome': got[:2], 'replay_cmd': 'python3 run.py %s --replay %s' % (ID, path)}, open(path, 'w'), indent=1)
        confirmed.append((path, what, got))
    # sampled paths: the executor and the native build must agree on the observations
    pick = []; per = {}
    for q, s in samples:
        k = (q.tu.name, q.e['name'])
        if per.get(k, 0) < (4 if TIER == 'quick' else 8): per[k] = per.get(k, 0) + 1; pick.append((q, s))
    bad = {(q.tu.name, q.e['name']) for q, v in viols}
    vf = [(q, s, ex.submit(guarded, native_run, q.tu, W, q.e['name'], s['inputs'], q.params, 'smp%d' % i)) for i, (q, s) in enumerate(pick)]
    validated = 0; shown = []
    for q, s, f in vf:
        got = f.result(); exp = [(a.replace(' ', '_') if False else a.split()[0], str(b)) for a, b in s['notes']]
        if got[0] == 'ok' and got[2] == exp: validated += 1
        elif got[0] in ('crash', 'assert', 'hang') and (q.tu.name, q.e['name']) in bad: pass
        else: problems.append('native run disagrees with the executor: %s: %s %s\n   inputs=%s\n   expected=%s\n   native=%s' % (q.e['name'], got[0], got[1], s['inputs'][:40], exp[:20], got[2][:20]))
        if len(shown) < 12: shown.append({'entry': q.e['name'], 'inputs': s['inputs'][:24], 'observed': s['notes'][:12]})
    if not viols:
        for t in tus:
            for e in t.entries:
                if (t.name, e['name']) not in covers: continue
                for c in e['covers']:
                    if not covers[(t.name, e['name'])].get(c): problems.append('%s: situation "%s" is never reached' % (e['name'], c))
    ev = {'property': ID, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2),
          'coverage': {'states': tot.get('forks', 0) + len(runs), 'transitions': tot.get('steps', 0), 'traces_validated_against_impl': validated, 'samples': shown,
                       'paths_completed': tot.get('paths', 0), 'paths_outside_assumptions': tot.get('assume_ends', 0), 'symbolic_branches_decided': tot.get('branches', 0),
                       'assertions_checked': tot.get('asserts', 0), 'assertions_decided_by_solver': tot.get('assert_queries', 0), 'assertions_discharged': tot.get('discharged', 0),
                       'solver': solver, 'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs), 'entries': fulls, 'assertions': assert_ids,
                       'covers': {k[1]: v for k, v in covers.items()}, 'exhaustive': not problems,
                       'build_s': round(tbuild, 1), 'symbolic_s': round(tsym - tbuild, 1)},
          'assumptions': sum((t.assume for t in tus), []) + ['outside the bounds: ' + x for t in tus for x in t.outside] + ['stub: ' + x for t in tus for x in ([y for y in DEFSTUBS if not any(n in y for n in t.nostub)] + t.stubs)],
          'violations': [{'replay': p, 'what': w, 'native': list(g[:2])} for p, w, g in confirmed]}
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open('%s/evidence/%s.json' % (V, ID), 'w'), indent=1)
    for k, w in knownhit.items(): print('KNOWN-FINDING: property=%s %s (%s)' % (ID, w, k[2]))
    for p, w, g in confirmed[:10]: print('VIOLATION property=%s replay=%s' % (ID, p)); print('  %s | native: %s %s' % (w, g[0], g[1]))
    print('%s %s: %d runs, %d paths, %d assertions (%d by solver), %d solver calls %.1fs, %d native replays agree, %.1fs' % (ID, TIER, len(runs), tot.get('paths', 0), tot.get('asserts', 0), tot.get('assert_queries', 0), solver.get('z3_calls', 0), solver.get('z3_time', 0), validated, time.time() - T0))
    if confirmed: return 1
    if problems:
        for p in problems[:20]: print('CHECK-ERROR property=%s %s' % (ID, p))
        return 2
    return 0

def replay(path):
    r = sh(['bash', V + '/setup.sh'])
    if r.returncode: err('engine build failed')
    d = json.load(open(path)); W = '%s/work/replay.%d' % (B, os.getpid()); os.makedirs(W)
    try:
        t = parse('%s/harness/%s.cpp' % (V, d['harness'])); inc = ['-I%s/%s' % (REPO, i) for i in INCS]
        sh(['clang++'] + CFLAGS + inc + ['-c', V + '/harness/support.cpp', '-o', W + '/support.bc']); sh(['clang++', '-std=c++17', '-O1', '-w'] + inc + ['-c', V + '/harness/nsupport.cpp', '-o', W + '/nsupport.o'])
        e = compile_tu(t, W) or build_native(t, W)
        if e: err(e)
        g = native_run(t, W, d['entry'], d['inputs'], d['params'], 'replay')
        print(g[0], g[1]); return 0 if g[0] == 'ok' else 1
    finally: shutil.rmtree(W, ignore_errors=True)

if __name__ == '__main__':
    if '--replay' in sys.argv: sys.exit(replay(sys.argv[sys.argv.index('--replay') + 1]))
    main()
