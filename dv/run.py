"""python3-vt -m dv.run C01 [--tier quick|thorough]: decide one property."""
import argparse
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
PY = '/opt/venv/bin/python'

TRUSTED = [
    'dv/interp.py, dv/nplib.py: symbolic semantics of the Python/numpy subset (cross-checked at run time against CPython)',
    'dv/pit.py: randomised field-identity decision (false acceptance < 1e-60 per obligation)',
    'dv/prove.py: case splitting, z3 4.x as order/index back end',
    'floating point treated as exact real/complex arithmetic',
]


def load_suite(pid):
    sys.path.insert(0, os.path.join(HERE, 'contracts'))
    path = os.path.join(HERE, 'contracts', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('contract_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.suite


def worker(pid, i, q):
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = {}

    def go():
        from . import vc
        s = load_suite(pid)
        out['r'] = vc.run_obligation(s.obs[i], s)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    q.put((i, out.get('r') or {'status': 'crash', 'why': 'no result'}))


def prove_all(pid, suite, tier, limit, jobs):
    todo = [i for i, o in enumerate(suite.obs) if tier == 'thorough' or o.tier == 'quick']
    pend = list(todo)
    running = {}
    res = {}
    ctx = mp.get_context('fork')
    while pend or running:
        while pend and len(running) < jobs:
            i = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(pid, i, q))
            p.start()
            running[i] = (p, q, time.time())
        time.sleep(0.02)
        for i in list(running):
            p, q, t0 = running[i]
            if not q.empty():
                res[i] = q.get()[1]
                p.join(5)
                del running[i]
            elif not p.is_alive():
                p.join()
                if not q.empty():
                    res[i] = q.get()[1]
                else:
                    res[i] = {'status': 'crash', 'why': 'verifier process died (exit %s)' % p.exitcode}
                del running[i]
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                res[i] = {'status': 'timeout', 'why': 'no answer within %d s' % limit}
                del running[i]
    for i, r in res.items():
        r.setdefault('name', suite.obs[i].name)
        r.setdefault('functions', list(suite.obs[i].functions))
        r.setdefault('goals', [])
    return [res[i] for i in todo]


def run_num(pid, mod, seed, budget, pref=()):
    env = dict(os.environ)
    env.update({'PYTHONPATH': REPO + ':' + HERE + ':' + os.path.join(HERE, 'contracts'), 'MPLBACKEND': 'agg',
                'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
                'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore'})
    cmd = [PY, os.path.join(HERE, 'contracts', mod + '.py'), 'run', pid, str(seed), str(budget)] + list(pref)
    return subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd='/tmp')


def get_num(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        return {'evaluations': 0, 'distinct': 0, 'failures': [], 'error': 'run-time check did not finish', 'samples': []}
    for ln in out.decode(errors='replace').splitlines():
        if ln.startswith('NUMRESULT '):
            return json.loads(ln[10:])
    return {'evaluations': 0, 'distinct': 0, 'failures': [], 'samples': [],
            'error': 'run-time harness failed (exit %s): %s' % (p.returncode, err.decode(errors='replace')[-800:])}


def findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    if os.environ.get('PYTHONHASHSEED') != '0':
        # same order of sets of strings, hence the same solver queries, in every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'dv.run'] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-num', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid, tier = a.pid, a.tier
    suite = load_suite(pid)
    budget = 6 if tier == 'quick' else 120
    procs = [] if a.no_num else [(m, run_num(pid, m, seed, budget)) for m in suite.num]
    res = prove_all(pid, suite, tier, 400 if tier == 'quick' else 900, max(2, (os.cpu_count() or 4)))
    nums = [(m, get_num(p, 200 if tier == 'quick' else 900)) for m, p in procs]
    bad = [r for r in res if r['status'] != 'proved']
    if a.v:
        for r in res:
            print('%-12s %-60s goals=%d %.1fs %s' % (r['status'], r['name'][:60], len(r['goals']), r.get('wall', 0), r['why'][:300]))
            if r.get('trace'):
                print(r['trace'][-700:])
            if r['status'] == 'failed':
                print('     label', r.get('label'), '\n     case', r.get('case'), '\n     term', r.get('term'))
    fails = [f for m, n in nums for f in n['failures']]
    errs = [n['error'] for m, n in nums if n.get('error')]
    known = [k for k in findings() if k.get('property') == pid and k.get('status') == 'known']
    # directed search for a failing input when a proof did not go through
    if bad and not fails and not a.no_num:
        hints = [h for r in bad for h in r.get('hints') or []]
        hp = os.path.join(HERE, 'evidence', 'hints_%s.json' % pid)
        os.makedirs(os.path.dirname(hp), exist_ok=True)
        with open(hp, 'w') as f:
            json.dump(hints, f)
        more = [(m, run_num(pid, m, seed + 1000 + j, 25, [hp] if j == 0 else [])) for m in suite.num for j in range(4)]
        n2 = [(m, get_num(p, 120)) for m, p in more]
        nums += n2
        seen = set()
        for m, n in n2:
            for f in n['failures']:
                if f['check'] not in seen:
                    seen.add(f['check'])
                    fails.append(f)
    # known findings suppress exactly the listed obligation / run-time check
    kob = {k['obligation'] for k in known if k.get('obligation')}
    kch = {k['check'] for k in known if k.get('check')}
    newbad = [r for r in bad if r['name'] not in kob]
    newfails = [f for f in fails if f['check'] not in kch]
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    goals = sum(len(r['goals']) + r.get('bounds', 0) for r in res)
    undis = len(newbad)
    viol = 0
    line = ''
    if errs and not newfails:
        # the contracts could not be evaluated on the code at all
        newbad = newbad + [{'name': 'run-time harness', 'status': 'error', 'why': e, 'functions': []} for e in errs]
    if newbad or newfails:
        viol = 1
        rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        mod = suite.num[0] if suite.num else ''
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'failed_obligations': newbad, 'failing_inputs': newfails,
                       'replay_cmd': 'PYTHONPATH=%s:%s:%s/contracts %s %s/contracts/%s.py replay %s' % (REPO, HERE, HERE, PY, HERE, mod, rp)},
                      f, indent=1, default=str)
        for r in newbad[:6]:
            print('obligation not discharged: %s [%s] %s %s' % (r['name'], r['status'], r.get('label', ''), r['why'][:300]))
        for f in newfails[:4]:
            print('failing input: %s %s -> %s' % (f['check'], json.dumps(f['inputs'])[:300], f['message']))
        line = 'VIOLATION property=%s replay=%s' % (pid, rp)
        if not newfails:
            line += ' no-failing-input-found'
    used = sorted({u for r in res for u in r.get('used', [])})
    st = {}
    for r in res:
        for k, v in r.get('stats', {}).items():
            st[k] = st.get(k, 0) + v
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': goals + undis, 'discharged': goals,
            'checker_cmd': 'python3-vt -m dv.run %s --tier %s' % (pid, tier),
            'trusted_base': TRUSTED + ['external function modelled: ' + x for x in sorted({x for r in res for x in r.get('external', [])})][:60],
            'contracts': [{'contract': r['name'], 'functions': r['functions'], 'status': r['status'], 'goals': len(r['goals']),
                           'bounds_obligations': r.get('bounds', 0), 'cases': r.get('leaves', 0), 'wall_s': round(r.get('wall', 0), 2),
                           'why': r['why'][:200]} for r in res],
            'functions_executed_symbolically': used,
            'callee_contracts_used': sorted({u for r in res for u in r.get('used_contracts', [])}),
            'back_ends': {k: (round(v, 3) if isinstance(v, float) else v) for k, v in st.items()},
            'runtime_cross_check': {'evaluations': sum(n['evaluations'] for m, n in nums),
                                    'distinct_inputs': sum(n['distinct'] for m, n in nums),
                                    'samples': [s for m, n in nums for s in n.get('samples', [])][:8]},
        },
        'assumptions': ['floats are treated as exact real numbers'] + suite.assumptions + ['BOUNDED: ' + b for b in suite.bounded]
        + sorted({x for r in res for x in r.get('trusted', [])}),
        'wall_s': round(time.time() - t0, 2), 'violations': viol,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, run-time evaluations %d, %.1f s' % (
        pid, len(res), goals + undis, goals, ev['coverage']['runtime_cross_check']['evaluations'], time.time() - t0))
    if line:
        print(line)
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
