#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of osm-io by symbolic execution of its compiled code.

Rebuilds the engine, compiles the harness crate against /repo's working tree to LLVM IR, explores every path of the
property's harnesses within their bounds with the solver deciding each branch and assertion, replays counterexamples
natively (against the crate as its users build it) and writes evidence/<ID>.json."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
OUT = os.path.join(V, 'out')
T0 = time.time()
BUDGET = float(os.environ.get('SYM_BUDGET', '840'))

def die(msg, code=2):
    print('CHECK-ERROR ' + msg, flush=True); sys.exit(code)
def env(extra=None):
    e = dict(os.environ); e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', ''); e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'RUSTC_WRAPPER'): e.pop(k, None)
    e.update(extra or {}); return e
def sh(cmd, log, cwd=V, e=None, timeout=800):
    with open(log, 'wb') as f:
        try: return subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired: return 124
def tail(p, n=12):
    try: return '\n'.join(open(p, errors='replace').read().splitlines()[-n:])
    except OSError: return ''

def build():
    """engine and IR; the two builds run side by side"""
    os.makedirs(OUT, exist_ok=True)
    eng = subprocess.Popen(['cargo', 'build', '--offline', '--release'], cwd=V + '/engine', env=env({'CARGO_TARGET_DIR': OUT + '/engine-target', 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu'}), stdout=open(OUT + '/engine.log', 'wb'), stderr=subprocess.STDOUT)
    r = sh(['bash', V + '/build_ir.sh', OUT], OUT + '/ir.log')
    if eng.wait() != 0: die('engine build failed\n' + tail(OUT + '/engine.log'))
    if r != 0: die('harness build against /repo failed\n' + tail(OUT + '/ir.log', 40))
    return OUT + '/engine-target/release/symex', OUT + '/harness.ll', OUT + '/ir-target/release/harness'

def build_hooked():
    """the program with switch points inside osm-io's code: IR for the engine, and natively (in the background) for replays"""
    r = sh([sys.executable, V + '/tools/hooks.py', OUT + '/harness.ll', OUT + '/hooked.ll'], OUT + '/hooks.log')
    if r != 0: die('inserting switch points failed\n' + tail(OUT + '/hooks.log'))
    return subprocess.Popen(['bash', V + '/build_hooked.sh', OUT], env=env(), stdout=open(OUT + '/hooked.log', 'wb'), stderr=subprocess.STDOUT)

def build_real():
    """the same harnesses, linked with the real dependencies, for replaying counterexamples"""
    t = OUT + '/real-target'
    r = sh(['cargo', 'build', '--offline'], OUT + '/real.log', cwd=V + '/replay', e=env({'CARGO_TARGET_DIR': t, 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_PRIMARY_PACKAGE': '1'}))
    if r != 0: die('replay build against /repo failed\n' + tail(OUT + '/real.log', 40))
    return t + '/debug/replay'

def run_native(binary, entry, inputs, param, timeout=90):
    d = tempfile.mkdtemp(prefix='osmio-replay-')
    try:
        p = subprocess.run([binary, entry, ','.join(str(i) for i in inputs)], cwd=d, env=env({'SYM_SCRATCH': d, 'SYM_PARAM': str(param), 'TMPDIR': d}), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        rc, out = 124, 'FAIL no end within %d s' % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)
    line = [l for l in out.splitlines() if l.startswith(('FAIL', 'OK'))]
    return rc, line[-1] if line else ''

def signed(v): return v - (1 << 64) if v >= 1 << 63 else v

def known():
    k = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                j = json.loads(l)
                if j.get('status') == 'open': k.append(j)
    return k
def norm(msg): return re.sub(r'\s*\[[^\]]*\]\s*$', '', msg)
def match(k, pid, entry, rec):
    if k['property'] != pid or k['entry'] != entry or norm(rec['msg']) != k['msg']: return False
    vals = {}
    for t, v in zip(rec['tags'], rec['inputs']): vals.setdefault(t, signed(v))
    return all(vals.get(t) in vs for t, vs in k.get('when', {}).items())

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1')); P = PROPS[pid]
    os.makedirs(OUT, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    lock = open(OUT + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    symex, ll, native = build()
    hooked = build_hooked() if any(h.get('hooks') for h in P['harnesses']) else None
    def native_of(h):
        if not h.get('hooks'): return native
        if hooked.wait() != 0: die('compiling the program with switch points failed\n' + tail(OUT + '/hooked.log'))
        return OUT + '/hooked'
    t_build = time.time() - T0
    work = os.path.join(OUT, 'run-' + pid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    jobs = str(min(8, os.cpu_count() or 8))
    res = []; errors = []; fails = []
    cap = BUDGET - 90 if tier == 'quick' else 6 * 3600
    for n, h in enumerate(P['harnesses']):
        if h.get('only') and h['only'] != tier: continue
        entry = h['entry']; o = os.path.join(work, entry); param = 1 if tier == 'thorough' else 0
        left = cap - (time.time() - T0)
        if left < 20: errors.append('%s: no time left' % entry); continue
        lim = min(left, h.get('deadline', 600) if tier == 'quick' else h.get('thorough_deadline', 7200))
        cmd = [symex, OUT + '/hooked.ll' if h.get('hooks') else ll, entry, '--out', o, '--jobs', jobs, '--deadline', str(int(lim)), '--sample', str(h.get('sample', 4)), '--param', str(param)] + h.get('opts', [])
        if any(k['property'] == pid and k['entry'] == entry for k in known()): cmd += ['--stop-on', '1000000']
        rc = sh(cmd, o + '.log', timeout=lim + 60)
        if rc != 0 or not os.path.exists(o + '.summary.json'): errors.append('%s: engine ended with %s: %s' % (entry, rc, tail(o + '.log', 4))); continue
        s = json.load(open(o + '.summary.json')); recs = [json.loads(l) for l in open(o + '.jsonl')] if os.path.exists(o + '.jsonl') else []
        s['records'] = recs; s['h'] = h; s['param'] = param; res.append(s)
        bad = [r for r in recs if r['kind'] in ('unsupported', 'unknown')]
        f = [r for r in recs if r['kind'] == 'fail']
        fails += [(s, r) for r in f]
        if not f or all(any(match(k, pid, entry, r) for k in known()) for r in f):
            if s['unsupported'] or s['unknown'] or s['crashed'] or s['cut'] or s['stop']:
                errors.append('%s: not decided: unsupported=%d unknown=%d crashed=%d cut=%d stop=%d %s' % (entry, s['unsupported'], s['unknown'], s['crashed'], s['cut'], s['stop'], bad[0]['msg'][:300] if bad else ''))
            if s['ok'] == 0: errors.append('%s: vacuous: no path reached the end' % entry)
            for i in h.get('reach', [0]):
                if s['reach'][i] == 0: errors.append('%s: vacuous: point %d never reached' % (entry, i))
        elif fails: break                           # a violation to report: no need to explore the rest
        print('%s %s: %d paths (%d ok, %d failing), %d queries, %.1f s solver, %.1f s' % (pid, entry, s['paths'], s['ok'], s['fails'], s['queries'], s['solver_ms'] / 1000, s['wall_ms'] / 1000), flush=True)
    # engine validation: sampled paths replayed natively must end the same way with the same observations
    validated = 0; samples = []
    for s in res:
        for r in [r for r in s['records'] if r['kind'] == 'ok'][:s['h'].get('sample', 4)]:
            rc, line = run_native(native_of(s['h']), s['entry'], r['inputs'], s['param'])
            want = 'OK ' + ','.join(str(v) for v in r['obs'])
            # a busy machine may be too slow for it: a disagreement has to repeat
            if rc == 124: rc, line = run_native(native_of(s['h']), s['entry'], r['inputs'], s['param'], 150)
            if rc != 0 or line.strip() != want.strip():
                if r.get('exact', True): errors.append('%s: native run of a sampled path disagrees (exit %d): %s, engine: %s, inputs %s' % (s['entry'], rc, line[:200], want[:200], r['inputs']))
            else:
                validated += 1
            if len(samples) < 8: samples.append(dict(harness=s['entry'], inputs=dict((t, signed(v)) for t, v in zip(r['tags'], r['inputs'])), native=line[:160]))
    # counterexamples
    ks = known(); hit = {}; viol = []; unconfirmed = []; seen = {}
    os.makedirs(OUT + '/replay', exist_ok=True); real = None
    for s, r in fails:
        k = next((k for k in ks if match(k, pid, s['entry'], r)), None)
        if k: hit.setdefault(k['id'], k); continue
        key = (s['entry'], norm(r['msg']))
        if seen.get(key, 0) >= 3 or key in [v[0] for v in viol]: continue
        seen[key] = seen.get(key, 0) + 1
        rs = run_native(native_of(s['h']), s['entry'], r['inputs'], s['param'])
        if real is None: real = build_real()
        rr = run_native(real, s['entry'], r['inputs'], s['param'])
        okr = rr[0] in (1, 101, 124, 134) or rr[0] < 0
        oks = s['h'].get('sched') and (rs[0] in (1, 101, 124, 134) or rs[0] < 0)
        rec = dict(property=pid, harness=s['entry'], message=r['msg'], inputs=dict(values=r['inputs'], tags=r['tags']), real=dict(exit=rr[0], output=rr[1]), scheduled=dict(exit=rs[0], output=rs[1]), param=s['param'],
                   how='cd /verif/replay && cargo build --offline && SYM_SCRATCH=$(mktemp -d) SYM_PARAM=%d <target>/debug/replay %s %s' % (s['param'], s['entry'], ','.join(map(str, r['inputs']))))
        path = os.path.join(OUT, 'replay', '%s-%s.json' % (pid, hashlib.sha1(json.dumps([key, r['inputs']]).encode()).hexdigest()[:10]))
        json.dump(rec, open(path, 'w'), indent=1)
        (viol if okr or oks else unconfirmed).append((key, path, rec))
    viol = list({v[0]: v for v in viol}.values())
    wall = time.time() - T0
    funcs = sorted({f for s in res for f in s['functions']}); own = [f for f in funcs if 'osm_io' in f]
    tot = lambda k: sum(s[k] for s in res)
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'model_checking'), wall_s=round(wall, 2), violations=len(viol), assumptions=P.get('assumptions', []),
              coverage=dict(states=tot('paths'), transitions=tot('branches') + tot('forks'), traces_validated_against_impl=validated, samples=samples or [dict(none='no path sampled')],
                            bounds=P['bounds'], outside=P.get('outside', []), paths=tot('paths'), paths_ok=tot('ok'), paths_dead=tot('dead'), failing_paths=tot('fails'), undecided=tot('unsupported') + tot('unknown') + tot('crashed') + tot('cut'),
                            branches_decided=tot('branches'), branches_implied=tot('implied'), queries=tot('queries'), solver_s=round(tot('solver_ms') / 1000, 2), max_query_ms=max([s['max_query_ms'] for s in res] or [0]), instructions=tot('instrs'), build_s=round(t_build, 1),
                            harnesses=[dict(entry=s['entry'], paths=s['paths'], ok=s['ok'], fails=s['fails'], queries=s['queries'], solver_ms=s['solver_ms'], wall_ms=s['wall_ms'], reach={i: v for i, v in enumerate(s['reach']) if v}) for s in res],
                            functions_encoded=own, functions_total=len(funcs), unconfirmed=[u[2] for u in unconfirmed][:5], known_findings=sorted(hit), errors=errors))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in hit.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for v in viol: print('VIOLATION property=%s replay=%s  (%s: %s)' % (pid, v[1], v[0][0], v[2]['message'][:200]))
    if viol: sys.exit(1)
    for u in unconfirmed: errors.append('%s: counterexample not reproduced natively: %s (real %s, scheduled %s) %s' % (u[0][0], u[2]['message'][:200], u[2]['real'], u[2]['scheduled'], u[1]))
    if errors: die('%s: ' % pid + '; '.join(errors)[:3000])
    print('OK property=%s tier=%s paths=%d queries=%d solver=%.1fs wall=%.1fs' % (pid, tier, tot('paths'), tot('queries'), tot('solver_ms') / 1000, wall))
main()
