#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property of /repo's current source.

1. proof:  python3-vt -m vc.prove: the contracts in contracts/<id>.py are verified against the
   real functions (symbolic execution of /repo's source -> verification conditions -> z3/cvc5).
2. replay: rt/run.py (repository's interpreter) evaluates the same contracts, executable, on
   concrete inputs against the real code: it turns a refuted obligation into a failing input and is
   the bounded stand-in for what the prover cannot reach.

exit 0: every obligation generated was discharged and no input violates the contract (obligations
        that the prover could not generate or decide are reported as undecided/bounded in evidence).
exit 1: VIOLATION property=<id> replay=<file> [no-failing-input-found]
"""
import sys, os, json, time, subprocess, argparse, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
VENV = '/opt/venv/bin/python'
PY = 'python3-vt'

TRUSTED = [
    'vc/core.py, vc/frame.py, vc/stubs.py: symbolic executor and the assumed contracts of pandas/numpy operations '
    '(cell-wise semantics of Series/DataFrame/Index operations)',
    'z3 and cvc5', 'CPython executes the loaded source as written',
    'machine floating point treated as extended real arithmetic (NaN, +inf, -inf kept; rounding ignored)',
    'timestamps are integers (nanoseconds) without overflow',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    env = dict(os.environ, VC_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        env[v] = '1'
    if a.replay:
        d = json.load(open(a.replay))
        print('property', d['property'], 'kind', d['kind'])
        if d['kind'] == 'input':
            r = subprocess.run([VENV, 'rt/run.py', a.prop, '--replay', os.path.abspath(a.replay)], cwd=HERE, env=env)
            sys.exit(1 if r.returncode else 0)
        print(json.dumps(d, indent=1))
        return
    meta = json.load(open(os.path.join(HERE, 'levels.json'))).get(a.prop, {})
    t0 = time.time()
    tmp = os.path.join(HERE, 'replay')
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tag = f'{a.prop}.{os.getpid()}'
    pj, rj = os.path.join(tmp, tag + '.prove.json'), os.path.join(tmp, tag + '.rt.json')
    budget = 100 if a.tier == 'quick' else 900
    pcmd = [PY, '-m', 'vc.prove', a.prop, '--json', pj, '--budget', str(budget)]
    if a.tier == 'thorough':
        pcmd.append('--cross')
    rcmd = [VENV, 'rt/run.py', a.prop, '--seed', str(a.seed), '--tier', a.tier, '--json', rj, '--cap',
            '150' if a.tier == 'quick' else '1500']
    procs = []
    haverf = os.path.exists(os.path.join(HERE, 'rt', a.prop.lower() + '.py'))
    havec = os.path.exists(os.path.join(HERE, 'contracts', a.prop.lower() + '.py'))
    logs = {}
    for name, cmd, have in (('prove', pcmd, havec), ('rt', rcmd, haverf)):
        if have:
            logs[name] = open(os.path.join(tmp, f'{tag}.{name}.log'), 'w+')
            procs.append((name, subprocess.Popen(cmd, cwd=HERE, env=env, stdout=logs[name], stderr=subprocess.STDOUT)))
    limit = t0 + (400 if a.tier == 'quick' else 3000)
    for name, p in procs:
        try:
            p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()

    def load(path):
        try:
            return json.load(open(path))
        except Exception:
            return None
    P, R = load(pj), load(rj)
    prove_log, rt_log = tail(logs.get('prove')), tail(logs.get('rt'))
    rt_crash = haverf and R is None
    contracts = (P or {}).get('contracts', [])
    obls = [dict(o, contract=c['contract'], functions=c['functions']) for c in contracts for o in c['obligations']]
    refuted = [o for o in obls if o['status'] == 'refuted']
    fails = list((R or {}).get('failures', []))
    known = load(os.path.join(HERE, 'known-findings.json')) or {'findings': []}
    kf = [k for k in known['findings'] if k.get('property') == a.prop and k.get('status') == 'known']

    def is_known(kind, f):
        for k in kf:
            if kind == 'input' and k.get('check') == f['check'] and k.get('match') and k['match'] in f['message']:
                return True
            if kind == 'obligation' and k.get('obligation') == f['name'] and k.get('contract') == f['contract']:
                return True
        return False
    fails = [f for f in fails if not is_known('input', f)]
    refuted = [o for o in refuted if not is_known('obligation', o)]
    # a refuted obligation without a failing input so far: look harder for one
    extra = 0
    if refuted and not fails and haverf and not rt_crash:
        for k in range(1, 4):
            if time.time() - t0 > 330:
                break
            subprocess.run(rcmd[:-2] + ['--cap', '110', '--seed', str(a.seed + 7919 * k)], cwd=HERE, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            R2 = load(rj)
            if R2:
                extra += sum(v['evaluations'] for v in R2['checks'].values())
                fails = [f for f in R2['failures'] if not is_known('input', f)]
                if fails:
                    break
    rcount = sum(v['evaluations'] for v in (R or {}).get('checks', {}).values()) + extra
    violations = []
    if fails:
        fails.sort(key=lambda f: bool(f.get('harness_error')))
        f = fails[0]
        path = write_replay(tmp, a.prop, dict(property=a.prop, kind='input', **f, seed=a.seed,
                            how=f'cd /verif && ./check.py {a.prop} --replay <this file>',
                            refuted_obligations=[brief(o) for o in refuted[:10]],
                            other_failures=[dict(check=x['check'], case_seed=x['case_seed'], message=x['message'][:400])
                                            for x in fails[1:6]]))
        violations.append((path, ''))
    elif refuted:
        path = write_replay(tmp, a.prop, dict(property=a.prop, kind='obligation', obligation=refuted[0]['name'],
                            contract=refuted[0]['contract'], functions=refuted[0]['functions'],
                            verifier_output=[brief(o, True) for o in refuted[:10]],
                            inputs_tried_without_failure=rcount))
        violations.append((path, ' no-failing-input-found'))
    elif rt_crash and not have_rt_env():
        print('the repository interpreter is not usable')
    elif rt_crash:
        # the real code cannot even be imported / the harness died
        st = subprocess.run([VENV, '-c', 'import sys; sys.path.insert(0, %r); import rdtools' % REPO], cwd=HERE, env=env,
                            capture_output=True, text=True)
        if st.returncode:
            path = write_replay(tmp, a.prop, dict(property=a.prop, kind='import', output=st.stderr[-3000:]))
            violations.append((path, ''))
    for k in kf:
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    undecided = [f"{c['contract']}: {x}" for c in contracts for x in c['unsupported']] + \
                [f"{o['contract']}: {o['name']} unknown" for o in obls if o['status'] == 'unknown']
    write_evidence(a, meta, contracts, obls, R, rcount, violations, undecided, time.time() - t0, prove_log if P is None and havec else '')
    n, d = len(obls), sum(o['status'] == 'discharged' for o in obls)
    print(f'{a.prop}: {d}/{n} obligations discharged over {len(contracts)} contracts; '
          f'{rcount} executable-contract evaluations; {len(undecided)} undecided; {time.time()-t0:.1f}s')
    for u in undecided[:5]:
        print('  undecided (bounded stand-in only):', u[:200])
    for f in (pj, rj):
        if os.path.exists(f):
            os.unlink(f)
    for l in logs.values():
        l.close()
        os.unlink(l.name)
    if violations:
        for p, sfx in violations:
            d = json.load(open(p))
            print((d.get('message') or json.dumps(d.get('verifier_output') or d.get('output') or ''))[:3000])
            print(f'VIOLATION property={a.prop} replay={p}{sfx}')
        sys.exit(1)
    if rt_crash or (P is None and havec and not haverf) or (n == 0 and rcount == 0):
        print('check error: no answer\n' + prove_log + rt_log)
        sys.exit(2)
    sys.exit(0)


def have_rt_env():
    return os.path.exists(VENV)


def tail(f):
    if f is None:
        return ''
    f.flush()
    try:
        return open(f.name).read()[-3000:]
    except Exception:
        return ''


def brief(o, full=False):
    d = {k: o.get(k) for k in ('contract', 'name', 'path', 'status', 'backend', 'exception', 'functions') if o.get(k) is not None}
    if full:
        d['model'] = (o.get('model') or '')[:2000]
    return d


def write_replay(tmp, prop, d):
    h = hashlib.sha256(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
    p = os.path.join(tmp, f'{prop}-{h}.json')
    json.dump(d, open(p, 'w'), indent=1, default=str)
    return p


def write_evidence(a, meta, contracts, obls, R, rcount, violations, undecided, wall, prove_log):
    level = meta.get('level', 'proof')
    back = {}
    for o in obls:
        if o['status'] == 'discharged':
            back[o['backend']] = back.get(o['backend'], 0) + 1
    cov = dict(
        obligations=len(obls), discharged=sum(o['status'] == 'discharged' for o in obls),
        checker_cmd=f'python3-vt -m vc.prove {a.prop} -v',
        trusted_base=TRUSTED + meta.get('trusted', []),
        functions_under_contract=sorted({f for c in contracts for f in c['functions']}),
        contracts=[dict(name=c['contract'], functions=c['functions'], paths=c['paths'], obligations=len(c['obligations']),
                        discharged=sum(o['status'] == 'discharged' for o in c['obligations']),
                        solver_s=round(c['solver_time'], 2), assumed_contracts=c['kinds']) for c in contracts],
        obligation_names=sorted({f"{o['contract']}/{o['name']}" for o in obls}),
        discharged_by=back, solver_s=round(sum(c['solver_time'] for c in contracts), 2),
        cross_checked_cvc5=sum(o.get('cvc5') == 'unsat' for o in obls),
        undecided=undecided,
        bounded_stand_in=dict(
            label='bounded: executable contracts evaluated on generated inputs of the real code; never counted as proved',
            parts=meta.get('bounded', ''), evaluations=rcount,
            per_check={k: v['evaluations'] for k, v in (R or {}).get('checks', {}).items()},
            outside_precondition={k: v['skipped'] for k, v in (R or {}).get('checks', {}).items() if v['skipped']}),
    )
    if prove_log:
        cov['prover_log'] = prove_log
    if level != 'proof':
        cov['evaluations'] = rcount
        cov['distinct_nontrivial'] = (R or {}).get('distinct_inputs', 0)
        cov['rule'] = ('evaluations: cases made by the seeded generators in rt/%s.py on which the executable contract was evaluated; '
                       'distinct_nontrivial: distinct argument tuples passed to the real functions (by hash of their contents); cases '
                       'outside the precondition are skipped and not counted as evaluations' % a.prop.lower())
        cov['samples'] = (R or {}).get('samples', [])
        cov['explanation'] = meta.get('bounded', '')
    ass = sorted({x for c in contracts for x in c['assumptions']}) + meta.get('assumptions', [])
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, assumptions=ass,
              wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    os.chdir(HERE)
    main()
