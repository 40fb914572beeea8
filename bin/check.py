#!/usr/bin/env python3
"""check.py ID: decide property ID on /repo's working tree.

Deductive part: `cargo kani` discharges every obligation of the contract
harnesses (/verif/harness, via the crate /verif/proofs) generated from /repo's
current source, third-party crates replaced by the contracts of /verif/models.
Bounded part: the same harnesses, and the exploration programs of
/verif/native, run against /repo with its real dependencies; that is where a
failing input comes from.
"""
import concurrent.futures as cf, json, os, re, subprocess, sys, time, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
from props import PROPS, MODULES, TRUSTED, ASSUME
REPO = '/repo'
TARGET = V + '/target'
OUT = V + '/out'
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1'))
BUDGET = 6 * 3600 if THOROUGH else 780


def left():
    return max(5, BUDGET - (time.time() - T0))


def env(flags):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS=flags, VERIF_SEED=str(SEED))
    e.pop('RUSTC_WRAPPER', None)
    e.pop('CARGO_TARGET_DIR', None)
    return e


STOP = threading.Event()  # a failing input is known: the verifier need not go on


def run(cmd, cwd, flags='', timeout=600, mem_gb=None, stop=None):
    pre = f'ulimit -v {mem_gb * 1000000}; ' if mem_gb else ''
    p = subprocess.Popen(['bash', '-c', pre + 'exec "$@"', 'x'] + cmd, cwd=cwd, env=env(flags), text=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, errors='replace')
    end = time.time() + timeout
    while True:
        try:
            o, _ = p.communicate(timeout=max(0.1, min(1 if stop else timeout, end - time.time())))
            return p.returncode, o
        except subprocess.TimeoutExpired:
            if time.time() < end and not (stop and stop.is_set()):
                continue
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return 124, o or ''


def sources(m):
    return open(f'{V}/harness/{m}.rs').read()


def names(m):
    return re.findall(r'\w+', max(re.findall(r'^(?:crate::)?harnesses!\[(.*?)\]', sources(m), re.S | re.M), key=len))


def picked(prop, m, n):
    return re.match(prop.get('pick', ''), f'{m}::{n}')


def proofs(m):
    """The harnesses of `m` that have a proof (path below the module; nested modules start in column 0)."""
    out, mod = [], ''
    pending = False
    for l in sources(m).splitlines():
        if x := re.match(r'mod (\w+) \{', l):
            mod = x[1] + '::'
        elif l.startswith('}'):
            mod = ''
        if l == 'proof! {' or 'kani::proof' in l and l.strip().startswith('#['):
            pending = True
        elif 'fn $' in l:
            pending = False
        elif pending and (x := re.search(r'\bfn (\w+)', l)):
            out.append(mod + x[1])
            pending = False
    return out


# ---------------------------------------------------------------- bounded part
def build_native():
    """Returns (binary directory or None, with hooks?, log)."""
    for flags, d in (('--cfg verif --cfg tokio_unstable', 'native'), ('--cfg tokio_unstable', 'native-nohook')):
        rc, o = run(['cargo', 'build', '--offline', '--bins', '--target-dir', f'{TARGET}/{d}'], V + '/native', flags,
                    timeout=left())
        if rc == 0:
            return f'{TARGET}/{d}/debug', d == 'native', o
    return None, False, o


def native(prop, res):
    t0 = time.time()
    d, hooks, log = build_native()
    if not d:
        res['native_error'] = log[-3000:]
        return
    if not hooks:
        res['notes'].append('the code no longer builds with the hooks: only the harnesses on the public interface ran')
    res['native_build_s'] = round(time.time() - t0, 1)
    jobs = []
    for m in prop['native']:
        if MODULES[m].get('hook') and not hooks:
            continue
        jobs += [(m, n) for n in names(m) if picked(prop, m, n)]
    slow = prop.get('slow_native', [])
    if not THOROUGH:
        jobs = [(m, n) for m, n in jobs if f'{m}::{n}' not in slow]

    def one(j):
        m, n = j
        lim = prop.get('limit', {}).get(f'{m}::{n}', 400000) * (20 if THOROUGH else 1)
        t = prop.get('native_timeout', 240) * (20 if THOROUGH else 1)
        rc, o = run([f'{d}/harness', m, n, str(lim), str(t)], V, timeout=t + 60)
        for l in o.splitlines():
            if l.startswith('{"'):
                r = json.loads(l)
                if r['failure'] and not THOROUGH and not known(prop['id'], r):
                    STOP.set()
                return r
        return {'name': f'{m}::{n}', 'runs': 0, 'pruned': 0, 'complete': False, 'samples': [],
                'failure': {'error': f'the run ended abnormally (status {rc}): {o[-800:]}', 'log': [], 'choices': []}}
    with cf.ThreadPoolExecutor(4) as ex:
        res['native'] = list(ex.map(one, jobs))
    res['native_s'] = round(time.time() - t0, 1)


# -------------------------------------------------------------- deductive part
KANI = ['--no-assertion-reach-checks', '-Z', 'async-lib', '-Z', 'stubbing', '-Z', 'restrict-vtable', '-Z', 'unstable-options']


def kani(prop, res):
    todo = []
    for m in prop['kani']:
        hs = [h for h in proofs(m) if picked(prop, m, h) and (THOROUGH or f'{m}::{h}' not in prop.get('slow', []))]
        todo.append((m, hs))
    res['kani'] = {}
    for m, hs in todo:
        if not hs:
            continue
        kani_module(prop, res, m, hs)


def kani_module(prop, res, m, hs):
    for h in hs:
        res['kani'][f'{m}::{h}'] = {'status': 'undecided', 'checks': 0, 'failed': 0}
    if left() < 30 or STOP.is_set():
        return
    base = ['cargo', 'kani'] + KANI + ['--default-unwind', str(MODULES[m].get('unwind', 4)), '--exact',
            '--features', m, '--target-dir', f'{TARGET}/kani']
    ht = prop.get('harness_timeout', 240) * (10 if THOROUGH else 1)
    cmd = base + sum([['--harness', f'{m}::{h}'] for h in hs], []) + \
        ['-j', str(MODULES[m].get('jobs', 6)), '--output-format=terse', '--harness-timeout', f'{ht}s']
    res['cmds'].append(' '.join(cmd))
    rc, o = run(cmd, V + '/proofs', '--cfg verif', timeout=left() * 0.85, mem_gb=26, stop=STOP)
    os.makedirs(OUT, exist_ok=True)
    open(f'{OUT}/kani-{m}.log', 'w').write(o)
    cur = {}
    thread = None
    for l in o.splitlines():
        if x := re.match(r'Thread (\d+): Checking harness (\S+?)\.\.\.', l):
            cur[x[1]] = x[2]
        elif x := re.match(r'Checking harness (\S+?)\.\.\.', l):
            thread, cur[None] = None, x[1]
        elif x := re.match(r'Thread (\d+):\s*$', l):
            thread = x[1]
        k = res['kani'].get(cur.get(thread))
        if k is None:
            continue
        if x := re.match(r' \*\* (\d+) of (\d+) failed', l):
            k['failed'], k['checks'] = int(x[1]), int(x[2])
        elif x := re.match(r' \*\* (\d+) of (\d+) cover', l):
            k['covered'], k['covers'] = int(x[1]), int(x[2])
        elif x := re.match(r'VERIFICATION:- (\w+)', l):
            k['status'] = 'ok' if x[1] == 'SUCCESSFUL' else 'failed'
        elif x := re.match(r'Verification Time: ([\d.]+)s', l):
            k['time'] = round(float(x[1]), 2)
    if not re.search(r'Checking harness', o):
        res['notes'].append(f'the proof crate of {m} does not build against this tree: its obligations are not discharged')
        res['build_error'] = '\n'.join(x for x in o.splitlines() if x.startswith('error'))[:1500]
        return
    for n, k in res['kani'].items():
        if k['status'] == 'ok' and k.get('covered', 0) < k.get('covers', 0):
            k['status'] = 'vacuous'
        if not n.startswith(m + '::') or k['status'] != 'failed':
            continue
        if left() < 30 or STOP.is_set():
            k['status'] = 'undecided'
            continue
        rc, d = run(base + ['--harness', n], V + '/proofs', '--cfg verif', timeout=left() * 0.8, mem_gb=26)
        open(f'{OUT}/kani-{n.replace("::", ".")}.log', 'w').write(d)
        bad, other = [], []
        for c in re.findall(r'^Check \d+: (\S+)\n\s+- Status: (\w+)\n\s+- Description: "(.*)"\n(?:\s+- Location: (.*)\n)?', d, re.M):
            name, st, desc, loc = c
            if st != 'FAILURE':
                continue
            if x := re.match(r'concat! \(\\?"\[P\] \\?", \\?"(.*?)\\?"\)$', desc):
                desc = '[P] ' + x[1]
            (bad if genuine(name, desc, loc) else other).append({'obligation': name, 'description': desc, 'location': loc})
        # code that is safe Rust cannot corrupt memory: then it is the verifier's (or a model's) memory that is at fault
        if any(re.search(r'memcpy|free argument|dereference failure|double free', c['description']) and not re.search(r'repo/paladin-core/src', c['location'] or '')
               for c in other):
            other, bad = bad + other, []
        k['failed_obligations'] = bad
        k['undecided_obligations'] = other[:10]
        k['status'] = 'violated' if bad else 'undecided'


def genuine(name, desc, loc):
    if 'unwind' in name or 'recursion' in name or 'unsupported' in name or 'model:' in desc or 'not currently supported' in desc:
        return False
    if '[P] ' in desc:
        return True
    return bool(re.search(r'repo/paladin-core/src', loc or ''))


# ---------------------------------------------------------------- verdict
def main():
    pid = sys.argv[1]
    prop = PROPS[pid]
    res = {'notes': [], 'native': [], 'kani': {}, 'cmds': []}
    ths = [threading.Thread(target=native, args=(prop, res))]
    if prop['kani']:
        ths.append(threading.Thread(target=kani, args=(prop, res)))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    # a lock file rewritten by cargo is put back
    bad_native = [r for r in res['native'] if r['failure']]
    bad_kani = {n: k for n, k in res['kani'].items() if k['status'] == 'violated'}
    viol = 0
    rep = f'{OUT}/replay-{pid}.json'
    os.makedirs(OUT, exist_ok=True)
    new = []
    for r in bad_native:
        k = known(pid, r)
        if k:
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        else:
            new.append(r)
    if new:
        viol = len(new)
        json.dump({'property': pid, 'failing_inputs': [
            {'harness': r['name'], 'failure': r['failure']['error'], 'input': r['failure']['log'], 'choices': r['failure']['choices'],
             'replay': f"{V}/bin/replay {r['name']} {','.join(map(str, r['failure']['choices']))}"} for r in new],
            'failed_obligations': {n: k.get('failed_obligations') for n, k in bad_kani.items()}}, open(rep, 'w'), indent=1)
        for r in new:
            print(f"{r['name']}: {r['failure']['error'][:300]}")
        print(f'VIOLATION property={pid} replay={rep}')
    elif bad_kani:
        viol = len(bad_kani)
        json.dump({'property': pid, 'failed_obligations': {n: k.get('failed_obligations') for n, k in bad_kani.items()},
                   'verifier_output': {n: open(f'{OUT}/kani-{n.replace("::", ".")}.log').read()[-20000:] for n in bad_kani}}, open(rep, 'w'), indent=1)
        for n, k in bad_kani.items():
            for f in k['failed_obligations'][:4]:
                print(f"{n}: {f['description']} ({f['location']})")
        print(f'VIOLATION property={pid} replay={rep} no-failing-input-found')
    evidence(pid, prop, res, viol)
    if viol:
        return 1
    if 'native_error' in res and not any(k['status'] == 'ok' for k in res['kani'].values()):
        print(res['native_error'][-1500:])
        print('ERROR: nothing could be built against this tree')
        return 2
    for n in res['notes']:
        print('note:', n)
    for n, k in res['kani'].items():
        if k['status'] != 'ok':
            print(f"note: {n}: {k['status']}", json.dumps(k.get('undecided_obligations', ''))[:300])
    ob, di = counts(res)
    print(f"held: property={pid} obligations={ob} discharged={di} bounded runs={sum(r['runs'] for r in res['native'])} in {time.time() - T0:.0f}s")
    return 0


def counts(res):
    ob = di = 0
    for k in res['kani'].values():
        n = max(k['checks'], 1)
        ob += n
        if k['status'] == 'ok':
            di += n
    return ob, di


def known(pid, r):
    return next((k for k in known_findings(pid) if k['harness'] == r['name'] and k['match'] in r['failure']['error']), None)


def known_findings(pid):
    out = []
    for l in open(V + '/known-findings.jsonl'):
        l = l.strip()
        if l.startswith('{'):
            k = json.loads(l)
            if k['property'] == pid:
                out.append(k)
    return out


def evidence(pid, prop, res, viol):
    ob, di = counts(res)
    runs = sum(r['runs'] for r in res['native'])
    distinct = sum(r['runs'] - r['pruned'] for r in res['native'])
    cov = {
        'functions_under_contract': prop.get('functions', []),
        'proof_harnesses': {n: {'status': k['status'], 'obligations': k['checks'], 'cover': f"{k.get('covered', 0)}/{k.get('covers', 0)}",
                                'solver_s': k.get('time'), 'back_end': 'kani 0.68 / CBMC 6.11 (SAT: CaDiCaL)'} for n, k in res['kani'].items()},
        'bounded_harnesses': [{'name': r['name'], 'runs': r['runs'], 'outside_precondition': r['pruned'],
                               'all_choices_enumerated': r['complete']} for r in res['native']],
        'bounds': prop.get('bounds', ''),
        'notes': res['notes'],
        'evaluations': runs, 'distinct_nontrivial': distinct,
        'rule': 'bounded runs on the real dependencies: each a different sequence of answers to the choice points (values, schedule); trivial: the answers violate the precondition',
        'samples': [{'harness': r['name'], 'choices': s[:40]} for r in res['native'] for s in r['samples'][-1:]][:12],
    }
    if res['native']:
        cov['exhaustive'] = all(r['complete'] for r in res['native'])
    if res['kani']:
        cov.update(obligations=ob, discharged=di,
                   checker_cmd='; '.join(res['cmds']),
                   solver_s=round(sum(k.get('time') or 0 for k in res['kani'].values()), 1),
                   trusted_base=TRUSTED + prop.get('trusted', []))
    if prop['level'] == 'other':
        cov['explanation'] = prop['note']
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump({'property': pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': prop['level'], 'coverage': cov,
               'assumptions': ASSUME + prop.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': viol},
              open(f'{V}/evidence/{pid}.json', 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
