"""Runs the check of one property: verifies every contract of its spec module against /repo's current sources,
replays failures against the real code, writes the evidence file."""
import sys, os, time, json, traceback, importlib, subprocess, hashlib, re, multiprocessing as mp, shutil, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.path.join(VERIF, 'specs')]
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
BUDGET = float(os.environ.get('VERIF_BUDGET', '520' if TIER == 'quick' else '2400'))


def contract_key(c):
    return type(c).__name__ + (':' + c.name if c.name else '') + (' [%s]' % c.label if c.label else '')


def all_tasks(spec):
    """Contracts of the property and the contracts they rely on (each verified once)."""
    seen, out = set(), []
    for c in list(spec.CONTRACTS) + list(getattr(spec, 'USES', [])):
        k = contract_key(c)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def run_one(modname, idx, deadline):
    """Worker: verifies one contract. Returns a plain dict."""
    t0 = time.time()
    from vc.front import Module, ExtractError
    from vc.interp import Interp, Cfg
    from vc.core import Unsupported
    from vc.contract import Lemma
    spec = importlib.import_module(modname)
    c = all_tasks(spec)[idx]
    res = {'key': contract_key(c), 'name': c.name, 'lemma': isinstance(c, Lemma), 'obls': [], 'error': None}
    I = None
    try:
        tu = c.tu or spec.TU
        m = load_module(tu)
        I = Interp(m, Cfg(**getattr(spec, 'CFG', {})))
        I.cfg.deadline = deadline
        for k in all_tasks(spec):
            if k is not c and not isinstance(k, Lemma) and (c.rely is None or k.name in c.rely):
                I.contracts.setdefault(k.name, k)
        if hasattr(spec, 'INSTALL'):
            spec.INSTALL(I)
        if c.trusted:
            res['trusted'] = True
        else:
            res['defs'] = c.verify(I)
    except Unsupported as e:
        res['error'] = 'outside the verifier\'s reach: %s' % e
    except ExtractError as e:
        res['error'] = 'extraction: %s' % e
    except Exception as e:
        res['error'] = 'verifier error: %s' % traceback.format_exc()[-3000:]
    if I is not None:
        for o in I.obls:
            d = {'n': o.name, 's': o.status, 'b': o.backend, 't': round(o.time, 4)}
            if o.status != 'proved':
                d['goal'] = str(getattr(o, 'goal', ''))[:2000]
                d['model'] = str(o.model)[:3000] if o.model is not None else None
                d['path'] = str(o.path)
            res['obls'].append(d)
        bad = [o for o in I.obls if o.status != 'proved']
        if bad or res['error']:
            res['invlog'] = I.invlog[-60:]
        res.update(inlined=sorted(I.inlined), applied=sorted(I.applied), lib=sorted(I.libused), assumptions=sorted(I.assumptions),
                   solver_time=I.solver.time, queries=I.solver.queries, by=I.solver.by)
    res['time'] = time.time() - t0
    return res


_mods = {}


def load_module(tu):
    from vc.front import Module
    if tu not in _mods:
        p = tu if os.path.isabs(tu) else os.path.join(VERIF, 'tu', tu)
        if tu.startswith('@'):
            p = os.path.join(REPO, tu[1:])
        _mods[tu] = Module(p)
    return _mods[tu]


def worker(args):
    try:
        return run_one(*args)
    except BaseException:
        return {'key': '?', 'obls': [], 'error': traceback.format_exc()[-2000:], 'time': 0}


# ---------------------------------------------------------------- replay against the real code
CORE_SRC = None


def build_harness(src, repo_sources, sanitize=True, extra=()):
    """Compiles /verif/harness/<src> with the named sources of /repo (objects cached by content of the preprocessed unit)."""
    flags = ['-std=c++14', '-O1', '-g1', '-w', '-include', 'string', '-include', 'sstream', '-I' + REPO + '/core/src', '-I' + REPO + '/core/lib',
             '-I' + REPO + '/core', '-I' + REPO + '/core/shared', '-I' + os.path.join(VERIF, 'harness')] + list(extra)
    if sanitize:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    units = [os.path.join(VERIF, 'harness', src)]
    for s in repo_sources:
        units += sorted(glob.glob(os.path.join(REPO, 'core', s))) if '*' in s else [os.path.join(REPO, 'core', s)]
    out = tempfile.mkdtemp(prefix='h_', dir=BUILD)
    procs, objs = [], []
    from concurrent.futures import ThreadPoolExecutor

    def comp(u):
        o = os.path.join(out, hashlib.sha1(u.encode()).hexdigest()[:16] + '.o')
        r = subprocess.run(['g++', '-c'] + flags + [u, '-o', o], capture_output=True, text=True)
        return o, r
    with ThreadPoolExecutor(8) as ex:
        for o, r in ex.map(comp, units):
            if r.returncode:
                shutil.rmtree(out, ignore_errors=True)
                return None, r.stderr[-3000:]
            objs.append(o)
    exe = os.path.join(out, 'harness')
    r = subprocess.run(['g++'] + (['-fsanitize=address'] if sanitize else []) + objs + ['-o', exe, '-lpthread'], capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(out, ignore_errors=True)
        return None, r.stderr[-3000:]
    return exe, None


def run_harness(exe, seconds, seed, scratch):
    """-> (status, text): none | found"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1')
    try:
        r = subprocess.run([exe, str(seed), str(seconds), scratch], capture_output=True, env=env, timeout=seconds * 2 + 60, cwd=scratch)
    except subprocess.TimeoutExpired as e:
        last = read_last(scratch)
        if last:
            return 'found', 'the real code does not return on input:\n' + last, {}
        return 'none', 'harness timed out', {}
    out = r.stdout.decode('utf8', 'replace')
    stats = {}
    m = re.search(r'^STATS (\{.*\})$', out, re.M)
    if m:
        stats = json.loads(m.group(1))
    if r.returncode == 0:
        return 'none', out[-2000:], stats
    if r.returncode == 3:
        return 'found', out[-6000:], stats
    last = read_last(scratch)
    return 'found', 'the real code crashed (status %d) on input:\n%s\n%s' % (r.returncode, last, r.stderr.decode('utf8', 'replace')[-3000:]), stats


def read_last(scratch):
    try:
        return open(os.path.join(scratch, 'last_input.txt'), errors='replace').read()[:4000].rstrip()
    except OSError:
        return ''


def harness(spec, seconds, seed):
    h = getattr(spec, 'HARNESS', None)
    if not h:
        return 'none', 'no replay harness for this property', {}, None
    exe, err = build_harness(h['src'], h.get('repo', []), h.get('sanitize', True), h.get('flags', ()))
    if exe is None:
        return 'nobuild', 'replay harness does not build against the current sources:\n' + err, {}, None
    scratch = tempfile.mkdtemp(prefix='s_', dir=BUILD)
    try:
        st, txt, stats = run_harness(exe, seconds, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    return st, txt, stats, h


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == pid and k.get('status') == 'known']


def main(pid):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    modname = pid.lower()
    spec = importlib.import_module(modname)
    from vc.front import ensure_astx
    ensure_astx()
    tasks = all_tasks(spec)
    deadline = t0 + BUDGET
    order = sorted(range(len(tasks)), key=lambda i: -getattr(tasks[i], 'cost', 0))
    procs = int(os.environ.get('VERIF_JOBS', '8'))
    results = [None] * len(tasks)
    ctx = mp.get_context('fork')
    hproc = None
    with ctx.Pool(min(procs, len(tasks)), maxtasksperchild=4) as pool:
        hs = [(i, pool.apply_async(worker, ((modname, i, deadline),))) for i in order]
        for i, h in hs:
            left = deadline + 45 - time.time()
            try:
                results[i] = h.get(max(left, 1))
            except mp.TimeoutError:
                results[i] = {'key': contract_key(tasks[i]), 'name': tasks[i].name, 'obls': [], 'error': 'verification did not finish in the time budget', 'time': 0}
        pool.terminate()
    failed = []
    for r in results:
        if r['error']:
            failed.append({'contract': r['key'], 'obligation': 'all obligations of %s are generated and discharged' % r['key'], 'reason': r['error'], 'invlog': r.get('invlog')})
        for o in r['obls']:
            if o['s'] != 'proved':
                failed.append({'contract': r['key'], 'obligation': o['n'], 'reason': o['s'], 'backend': o['b'], 'goal': o.get('goal'), 'model': o.get('model'),
                               'invlog': r.get('invlog')})
    # bounded companion on every run; a long search when an obligation failed
    hsecs = (6 if TIER == 'quick' else 60) if not failed else (100 if TIER == 'quick' else 300)
    if 'VERIF_HSECS' in os.environ:
        hsecs = float(os.environ['VERIF_HSECS'])
    hst, htxt, hstats, h = harness(spec, hsecs, SEED)
    known = load_known(pid)
    hits = []
    if hst == 'found':
        for k in known:
            if k.get('match') and re.search(k['match'], htxt):
                hits.append(k)
                hst = 'none'
    viol = bool(failed) or hst == 'found'
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    wall = time.time() - t0
    evidence(pid, spec, tasks, results, failed, hst, htxt, hstats, hsecs, viol, wall)
    n = sum(len(r['obls']) for r in results)
    print('%s: %d obligations, %d discharged, %d contracts, %.1fs' % (pid, n, sum(1 for r in results for o in r['obls'] if o['s'] == 'proved'), len(tasks), wall))
    if not viol:
        return 0
    rd = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, '%s.json' % pid)
    json.dump({'property': pid, 'failed_obligations': failed, 'failing_input': htxt if hst == 'found' else None,
               'replay_search': htxt if hst != 'found' else 'failing input found', 'seed': SEED,
               'replay_cmd': 'VERIF_SEED=%d python3-vt /verif/check.py %s' % (SEED, pid)}, open(rp, 'w'), indent=1)
    for f in failed[:8]:
        print('  failed obligation: %s [%s]' % (f['obligation'], str(f['reason'])[:300]))
    if hst == 'found':
        print('  failing input: ' + htxt[:1500])
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hst == 'found' else ' no-failing-input-found'))
    return 1


def evidence(pid, spec, tasks, results, failed, hst, htxt, hstats, hsecs, viol, wall):
    import z3
    n = sum(len(r['obls']) for r in results)
    disc = sum(1 for r in results for o in r['obls'] if o['s'] == 'proved')
    by = {}
    for r in results:
        for o in r['obls']:
            if o['s'] == 'proved':
                by[o['b']] = by.get(o['b'], 0) + 1
    trusted_contracts = [r['name'] for r in results if r.get('trusted')]
    libs = sorted({x for r in results for x in r.get('lib', [])})
    assum = sorted({x for r in results for x in r.get('assumptions', [])}) + list(getattr(spec, 'ASSUMPTIONS', [])) + [
        'std library functions behave as their models in vc/lib.py and the spec (listed in trusted_base)',
        'termination is not verified', 'the extractor (tools/astx.cpp on clang 18) and the VC generator (vc/) are trusted']
    if any('dbl' not in (c.cfg or {}) for c in tasks):
        assum.append('double arithmetic is treated as real arithmetic (no rounding, no NaN) in the contracts')
    funcs = [{'function': r['name'] or r['key'], 'kind': 'lemma' if r.get('lemma') else 'trusted contract' if r.get('trusted') else 'contract',
              'definitions': r.get('defs'), 'obligations': len(r['obls']), 'discharged': sum(1 for o in r['obls'] if o['s'] == 'proved'),
              'seconds': round(r.get('time', 0), 2), 'error': r['error']} for r in results]
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(spec, 'LEVEL', 'proof'),
          'coverage': {
              'obligations': n, 'discharged': disc, 'checker_cmd': 'python3-vt /verif/check.py %s' % pid,
              'trusted_base': ['z3 ' + z3.get_version_string(), 'cvc5 1.1.2', 'clang 18.1.3 AST'] + ['model of ' + x for x in libs] +
                              ['assumed contract of ' + str(x) for x in trusted_contracts] + list(getattr(spec, 'TRUSTED', [])),
              'functions_under_contract': funcs, 'functions_inlined_from_repo': sorted({x for r in results for x in r.get('inlined', [])}),
              'discharged_by': by, 'solver_seconds': round(sum(r.get('solver_time', 0) for r in results), 2),
              'solver_queries': sum(r.get('queries', 0) for r in results),
              'samples': [o['n'] for r in results for o in r['obls'][:3]][:30],
              'bounded_companion': {'label': 'bounded, not counted as proved', 'seconds': hsecs, 'result': hst, 'stats': hstats,
                                    'what': getattr(spec, 'COMPANION', 'random and directed inputs executed on the real code against an independent oracle')},
              'failed': failed[:20]},
          'assumptions': assum, 'wall_s': round(wall, 2), 'violations': 1 if viol else 0}
    if ev['level'] != 'proof':
        ev['coverage']['explanation'] = getattr(spec, 'EXPLANATION', '')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
