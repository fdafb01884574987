"""python3-vt -m vc.prove PROP [--json out] : prove all contracts of a property"""
import sys, os, json, time, argparse, importlib, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def run_one(args, send=None):
    prop, i, opts, budget = args
    from vc import core, api
    importlib.import_module('contracts.' + prop.lower())
    c = [c for c in api.CONTRACTS if c.prop == prop][i]
    t0 = time.time()
    out = dict(contract=c.name, functions=c.functions, assumptions=c.assumptions)
    try:
        u_box = []

        def body():
            u = api.Universe(**{k: v for k, v in c.setup.items()})
            c.body(u)
        o = dict(c.opts)
        o.update(opts)
        prog = None
        if send is not None:
            def prog(r):
                send(dict(out, paths=r.paths, obligations=r.obligations, unsupported=r.unsupported + ['time limit'],
                          solver_time=r.solver_time, kinds=sorted(r.kinds), wall=time.time() - t0))
        r = core.run_contract(body, o, deadline=t0 + budget, progress=prog)
        out.update(paths=r.paths, obligations=r.obligations, unsupported=r.unsupported, solver_time=r.solver_time,
                   kinds=sorted(r.kinds))
    except BaseException as e:
        out.update(paths=0, obligations=[], unsupported=[f'engine error {type(e).__name__}: {e}'], solver_time=0,
                   kinds=[], trace=traceback.format_exc()[-3000:])
    out['wall'] = time.time() - t0
    return out


def child(job, conn):
    conn.send(run_one(job, conn.send))
    conn.close()


def run_all(jobs, workers=6, grace=60):
    """one process per contract, killed when it overruns its budget; keeps what it had reported"""
    from multiprocessing.connection import wait
    cx = mp.get_context('fork')
    todo, live, res = list(enumerate(jobs)), {}, {}
    while todo or live:
        while todo and len(live) < workers:
            i, j = todo.pop(0)
            r, w = cx.Pipe(False)
            p = cx.Process(target=child, args=(j, w))
            p.start()
            w.close()
            live[i] = [p, r, time.time() + j[3] + grace, j]
        for c in wait([v[1] for v in live.values()], timeout=1):
            i = [k for k, v in live.items() if v[1] is c][0]
            try:
                res[i] = c.recv()
            except EOFError:
                live[i][0].join()
                if i not in res:
                    res[i] = blank(live[i][3], 'prover process died')
                del live[i]
        for i in [k for k, v in live.items() if time.time() > v[2]]:
            live[i][0].kill()
            live[i][0].join()
            if i not in res:
                res[i] = blank(live[i][3], 'time limit')
            del live[i]
    return [res[i] for i in range(len(jobs))]


def blank(job, why):
    from vc import api
    c = [c for c in api.CONTRACTS if c.prop == job[0]][job[1]]
    return dict(contract=c.name, functions=c.functions, assumptions=c.assumptions, paths=0, obligations=[],
                unsupported=[why], solver_time=0, kinds=[], wall=job[3])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--json')
    ap.add_argument('--cross', action='store_true')
    ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--only')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    from vc import api
    try:
        importlib.import_module('contracts.' + a.prop.lower())
    except ModuleNotFoundError:
        if a.json:
            json.dump(dict(property=a.prop, contracts=[]), open(a.json, 'w'))
        return
    n = [i for i, c in enumerate([c for c in api.CONTRACTS if c.prop == a.prop]) if not a.only or a.only in c.name]
    jobs = [(a.prop, i, {'cross': a.cross, 'trace': a.trace}, a.budget) for i in n]
    if len(jobs) > 1 and not a.only:
        res = run_all(jobs)
    else:
        res = [run_one(j) for j in jobs]
    if a.json:
        json.dump(dict(property=a.prop, contracts=res), open(a.json, 'w'), indent=1)
    if a.v or not a.json:
        for r in res:
            st = {}
            for o in r['obligations']:
                st[o['status']] = st.get(o['status'], 0) + 1
            print(f"{r['contract']}: paths={r['paths']} {st} unsupported={len(r['unsupported'])} wall={r['wall']:.1f}s")
            for x in r['unsupported'][:6]:
                print('    unsupported:', x)
            if 'trace' in r and r['trace'] and a.v:
                print(r['trace'])
            for o in r['obligations']:
                if o['status'] != 'discharged':
                    print('    ', o['status'], o['name'], o['path'], o.get('exception', ''), (o.get('model') or '')[:300] if a.v else '')


if __name__ == '__main__':
    main()
