#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs of tools/plants/*.py in a scratch copy and writes seeded/<id>/"""
import sys, os, json, subprocess, shutil, tempfile, importlib.util, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plants import PLANTS
from concurrent.futures import ThreadPoolExecutor
DEMO = '''#!/bin/sh
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" MPLBACKEND=Agg exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def one(p):
    d = os.path.join(HERE, 'seeded', p['id'])
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    repo = os.path.join(tmp, 'repo')
    try:
        run(['cp', '-a', '/repo', repo])
        run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(p['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r0 = run(['sh', os.path.join(d, 'demo.sh')], cwd=repo)
        for f, old, new in p['edits']:
            path = os.path.join(repo, 'rdtools', f)
            s = open(path).read()
            if s.count(old) != 1:
                return p['id'], f'REJECT: {s.count(old)} occurrences of {old!r}'
            open(path, 'w').write(s.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(run(['git', 'diff'], cwd=repo).stdout)
        r1 = run(['sh', os.path.join(d, 'demo.sh')], cwd=repo)
        json.dump(dict(property=p['prop'], needs=p['needs'], what_it_breaks=p['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if r0.returncode != 0 or r1.returncode == 0:
            shutil.rmtree(d)
            return p['id'], f'REJECT demo: before {r0.returncode} {r0.stderr[-400:]} after {r1.returncode}'
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        xml = os.path.join(tmp, 'u.xml')
        t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '-o', 'junit_family=xunit2',
                 '--junitxml', xml, 'rdtools'], cwd=repo,
                env=dict(os.environ, PYTHONPATH=repo, MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                         PATH='/opt/venv/bin:' + os.environ['PATH']))
        import xml.etree.ElementTree as ET
        bad = []
        for c in ET.parse(xml).iter('testcase'):
            n = c.get('classname') + '::' + c.get('name')
            if n in stable and (c.find('failure') is not None or c.find('error') is not None):
                bad.append(n)
        if bad:
            shutil.rmtree(d)
            return p['id'], 'REJECT tests: ' + '; '.join(bad[:4])
        tail = t.stdout.strip().splitlines()[-1:]
        return p['id'], 'OK ' + (tail[-1] if tail else '')
    finally:
        shutil.rmtree(tmp)


HAVE_XDIST = True
if __name__ == '__main__':
    ids = sys.argv[1:]
    todo = [p for p in PLANTS if (p['id'] in ids if ids else not os.path.exists(os.path.join(HERE, 'seeded', p['id'])))]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, todo):
            print(*r, flush=True)
