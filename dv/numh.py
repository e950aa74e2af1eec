"""Run-time side of the contracts: the same postconditions evaluated on the real
code (the interpreter the repository's tests use).  Used (a) to replay / find a
concrete failing input when an obligation is not discharged and (b) as a
cross-check of the verifier's model of Python and numpy on every run."""
import json
import os
import random
import sys
import time
import traceback
import warnings

CHECKS = []


class Check(object):
    def __init__(self, pid, name, gen, test):
        self.pid = pid
        self.name = name
        self.gen = gen
        self.test = test


def check(pid, name, gen):
    def deco(test):
        CHECKS.append(Check(pid, name, gen, test))
        return test
    return deco


def close(a, b, rtol=1e-7, atol=1e-9):
    """None when |a-b| small relative to the scale, else message"""
    import numpy as np
    try:
        a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    except Exception as e:
        return 'not numeric: %r' % (e,)
    if a.shape != b.shape:
        return 'shape %s, expected %s' % (a.shape, b.shape)
    if a.size == 0:
        return None
    fin = np.isfinite(a) & np.isfinite(b)
    if not np.all(fin):
        i = tuple(int(x) for x in np.argwhere(~fin)[0])
        return 'non-finite at %s: got %s expected %s' % (i, a[i], b[i])
    scale = max(np.max(np.abs(b)), 0.0)
    err = np.abs(a - b)
    bad = err > rtol * scale + atol
    if np.any(bad):
        i = tuple(int(x) for x in np.unravel_index(np.argmax(err), err.shape)) if err.ndim else ()
        return 'at %s: got %s expected %s' % (i, a[i], b[i])
    return None


def run_one(c, inp):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return c.test(**inp)
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            last = [f for f in tb if '/geotecha/' in f.filename]
            where = ' at %s:%s' % (os.path.basename(last[-1].filename), last[-1].name) if last else ' in harness'
            return 'raises %s: %s%s' % (type(e).__name__, str(e)[:200], where)


def main():
    mode = sys.argv[1]
    import numpy as np
    np.seterr(all='ignore')
    if mode == 'run':
        pid, seed, budget = sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
        hints = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else []
        cs = [c for c in CHECKS if c.pid == pid]
        t0 = time.time()
        n = {c.name: 0 for c in cs}
        fails = {}
        rngs = {c.name: random.Random('%s/%s/%s' % (pid, c.name, seed)) for c in cs}
        distinct = set()
        samples = []
        rnd = 0
        minr = 3
        # counterexample candidates of the verifier, completed by generated values
        for h in hints:
            for c in cs:
                if c.name in fails:
                    continue
                for k in range(6):
                    inp = c.gen(rngs[c.name], k)
                    use = {a: b for a, b in h.items() if a in inp}
                    # every array of the input must come from the counterexample (consistent lengths)
                    if not use or any(isinstance(b, list) and a not in use for a, b in inp.items()):
                        break
                    inp.update(use)
                    js = json.dumps(inp, default=tojson)
                    n[c.name] += 1
                    if getattr(c.gen, 'valid', None) and not c.gen.valid(**json.loads(js)):
                        continue
                    msg = run_one(c, json.loads(js))
                    if msg and 'in harness' not in msg:
                        fails[c.name] = {'check': c.name, 'inputs': json.loads(js), 'message': msg, 'from': 'verifier counterexample'}
                        break
        while cs and (time.time() - t0 < budget or rnd < minr):
            for c in cs:
                if c.name in fails:
                    continue
                if time.time() - t0 > budget and rnd >= minr:
                    break
                inp = c.gen(rngs[c.name], rnd)
                js = json.dumps(inp, default=tojson)
                distinct.add((c.name, js))
                if rnd == 0 and len(samples) < 6:
                    samples.append({'check': c.name, 'input': js[:300]})
                n[c.name] += 1
                # test the very input that will be stored for replay
                msg = run_one(c, json.loads(js))
                if msg:
                    fails[c.name] = {'check': c.name, 'inputs': json.loads(js), 'message': msg}
            rnd += 1
            if all(c.name in fails for c in cs) or rnd > 100000:
                break
        print('NUMRESULT ' + json.dumps({'evaluations': sum(n.values()), 'distinct': len(distinct), 'per_check': n,
                                         'failures': list(fails.values()), 'samples': samples}))
    elif mode == 'replay':
        d = json.load(open(sys.argv[2]))
        pid = d['property']
        bad = 0
        for f in d['failing_inputs']:
            c = [c for c in CHECKS if c.pid == pid and c.name == f['check']]
            if not c:
                continue
            msg = run_one(c[0], f['inputs'])
            print('%s: %s' % (f['check'], msg or 'holds'))
            bad += bool(msg)
        sys.exit(1 if bad else 0)


def tojson(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        return o.item()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))
