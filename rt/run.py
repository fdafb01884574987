"""/opt/venv/bin/python rt/run.py PROP --seed N --tier quick --json out
   /opt/venv/bin/python rt/run.py PROP --replay FILE"""
import sys, os, json, time, argparse, hashlib, importlib, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')


REPO = os.path.join(os.environ.get('VC_REPO', '/repo'), 'rdtools')


def case_seed(seed, prop, name, i):
    return int(hashlib.sha256(f'{seed}|{prop}|{name}|{i}'.encode()).hexdigest()[:12], 16)


def worker(args):
    prop, idx, seed, lo, hi, deadline = args
    import base
    name, f, _, _ = base.CHECKS[prop][idx]
    ran = skipped = 0
    import numpy as np
    fails = []
    base.INPUTS.clear()
    base.SAMPLES.clear()
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        s = case_seed(seed, prop, name, i)
        g = base.Gen(s)
        np.random.seed(s % 2**32)
        base.CALLS[0] = 0
        try:
            f(g)
            ran += 1
        except base.Skip:
            skipped += 1
        except base.Fail as e:
            ran += 1
            fails.append(dict(check=name, case=i, case_seed=s, message=str(e)[:6000]))
            if len(fails) >= 3:
                break
        except Exception as e:
            if base.CALLS[0] == 0 and REPO not in traceback.format_exc():
                skipped += 1      # the generator failed before the real code was called
                continue
            ran += 1
            fails.append(dict(check=name, case=i, case_seed=s, harness_error=True,
                              message=f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-3000:]))
            if len(fails) >= 3:
                break
    return name, ran, skipped, fails, list(base.INPUTS), list(base.SAMPLES)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--json')
    ap.add_argument('--only')
    ap.add_argument('--cap', type=float, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--extra', type=float, default=20)
    ap.add_argument('--jobs', type=int, default=6)
    a = ap.parse_args()
    import base
    importlib.import_module(a.prop.lower())
    C = base.CHECKS[a.prop]
    if a.replay:
        d = json.load(open(a.replay))
        import numpy as np
        name = d['check']
        f = [c for c in C if c[0] == name][0][1]
        np.random.seed(d['case_seed'] % 2**32)
        f(base.Gen(d['case_seed']))
        print('replay: the contract holds on this input')
        return
    cap = a.cap or (100 if a.tier == 'quick' else 1500)
    deadline = time.time() + cap
    soft = time.time() + (a.extra if a.tier == 'quick' else cap)
    jobs, extra = [], []
    for idx, (name, f, n, nt) in enumerate(C):
        if a.only and a.only not in name:
            continue
        N = n if a.tier == 'quick' else nt
        k = max(1, min(a.jobs, N // 5))
        step = -(-N // k)
        for lo in range(0, N, step):
            jobs.append((a.prop, idx, a.seed, lo, min(N, lo + step), deadline))
        # then further cases as time allows
        if a.tier == 'quick' and n > 1:
            step = -(-n // 4)
            extra += [(r, (a.prop, idx, a.seed, lo, lo + step, soft)) for r, lo in enumerate(range(N, 24 * N, step))]
    jobs += [j for r, j in sorted(extra, key=lambda x: x[0])]
    t0 = time.time()
    if a.jobs > 1 and len(jobs) > 1:
        with mp.get_context('fork').Pool(a.jobs) as p:
            res = p.map(worker, jobs, chunksize=1)
    else:
        res = [worker(j) for j in jobs]
    out = {}
    fails = []
    distinct, samples = set(), {}
    for name, ran, sk, fl, ins, sa in res:
        distinct.update(ins)
        samples.setdefault(name, [])
        samples[name] = (samples[name] + sa)[:2]
        o = out.setdefault(name, dict(evaluations=0, skipped=0))
        o['evaluations'] += ran
        o['skipped'] += sk
        fails += fl
    d = dict(property=a.prop, seed=a.seed, tier=a.tier, checks=out, failures=fails, distinct_inputs=len(distinct),
             samples=[dict(check=k, input=x) for k, v in samples.items() for x in v][:8], wall=time.time() - t0)
    if a.json:
        json.dump(d, open(a.json, 'w'), indent=1)
    else:
        for k, v in out.items():
            print(k, v)
        print('wall', round(d['wall'], 1))
        for f in fails[:6]:
            print('FAIL', f['check'], f['case'], f.get('harness_error', ''), f['message'][:2500])
        print(len(fails), 'failures')


if __name__ == '__main__':
    main()
