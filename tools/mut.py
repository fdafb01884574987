"""tools/mut.py PROP file.py 'old' 'new' [count-index]: run prover and executable contracts on a mutated scratch copy"""
import sys, os, shutil, subprocess, tempfile
prop, fn, old, new = sys.argv[1:5]
which = int(sys.argv[5]) if len(sys.argv) > 5 and sys.argv[5].isdigit() else None
old, new = old.encode().decode('unicode_escape'), new.encode().decode('unicode_escape')
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/rdtools', d + '/rdtools', ignore=shutil.ignore_patterns('__pycache__', 'test'))
    p = f'{d}/rdtools/{fn}'
    s = open(p).read()
    n = s.count(old)
    if n == 0 or (n > 1 and which is None):
        print('occurrences', n)
        sys.exit(3)
    if which is None:
        s = s.replace(old, new)
    else:
        parts = s.split(old)
        s = old.join(parts[:which + 1]) + new + old.join(parts[which + 1:])
    open(p, 'w').write(s)
    env = dict(os.environ, VC_REPO=d, PYTHONDONTWRITEBYTECODE='1')
    if '--rt' not in sys.argv:
        o = subprocess.run(['python3-vt', '-m', 'vc.prove', prop, '--budget', '60'], env=env, capture_output=True, text=True).stdout
        bad = [l for l in o.splitlines() if 'refuted' in l and l.startswith('     ') or 'unsupported:' in l or 'unknown' in l and l.startswith('   ')]
        print('PROVE', 'refuted' if any('refuted' in l for l in bad) else 'undecided' if bad else 'ALL DISCHARGED')
        for l in bad[:4]:
            print('   ', l[:160])
    if '--prove' not in sys.argv:
        o = subprocess.run(['/opt/venv/bin/python', 'rt/run.py', prop], env=env, capture_output=True, text=True)
        o = (o.stdout + o.stderr).splitlines()
        print('RT', o[-1] if o else '?')
        for l in [l for l in o if l.startswith('FAIL')][:2]:
            print('   ', l[:200])
finally:
    shutil.rmtree(d)
