"""tools/sweep.py MODULE.py FUNC PROPS(comma) [fraction] [jobs]: mutate every expression of a function, run the executable contracts
of the properties on each mutant (base cases only) and list survivors in /tmp/sweep/<func>.txt"""
import re
import ast, sys, os, shutil, subprocess, random, concurrent.futures as cf, tempfile
mod, func, props = sys.argv[1:4]
frac = float(sys.argv[4]) if len(sys.argv) > 4 else 1.0
jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 6
props = props.split(',')
src = open('/repo/rdtools/' + mod).read()
tree = ast.parse(src)
lines = src.split('\n')
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
b = src.encode()


def pos(n):
    return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset


def find(t, path):
    for n in ast.iter_child_nodes(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == path[0]:
            return n if len(path) == 1 else find(n, path[1:])
    raise SystemExit('no ' + func)


fn = find(tree, func.split('.'))
muts = []


def rep(n, text, what):
    a, z = pos(n)
    old = b[a:z].decode()
    if old != text:
        muts.append((n.lineno, what, old.replace('\n', ' ')[:90], text.replace('\n', ' ')[:90], a, z, text))


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.Pow: '*', ast.FloorDiv: '/'}
ATTR = {'ffill': 'bfill', 'bfill': 'ffill', 'min': 'max', 'max': 'min', 'first': 'last', 'last': 'first', 'median': 'mean', 'mean': 'median',
        'sum': 'mean', 'any': 'all', 'all': 'any', 'isnull': 'notnull', 'index': None, 'head': 'tail', 'cumsum': 'cumprod'}
seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
for n in ast.walk(fn):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        rep(n, f'({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})', 'cmp')
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        rep(n, f'({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})', 'bin')
    elif isinstance(n, ast.BoolOp):
        rep(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(seg(v) for v in n.values) + ')', 'bool')
        for i in range(len(n.values)):
            rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(v) for j, v in enumerate(n.values) if j != i) + ')', 'booldrop')
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert)):
        rep(n, f'({seg(n.operand)})', 'not')
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            rep(n, str(not n.value), 'const')
        elif isinstance(n.value, int):
            rep(n, str(n.value + 1), 'const')
        elif isinstance(n.value, float):
            rep(n, repr(n.value * 1.07 + 0.003), 'const')
        elif isinstance(n.value, str) and n.value in ('left', 'right', 'backward', 'forward', 'inner', 'outer', 'ffill', 'bfill', 'sensor', 'clearsky'):
            rep(n, repr({'left': 'right', 'right': 'left', 'backward': 'forward', 'forward': 'backward', 'inner': 'outer', 'outer': 'inner',
                         'ffill': 'bfill', 'bfill': 'ffill', 'sensor': 'clearsky', 'clearsky': 'sensor'}[n.value]), 'str')
    elif isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ATTR and ATTR[n.func.attr]:
            a, z = pos(n.func)
            t = b[a:z].decode()
            rep(n.func, t[:-len(n.func.attr)] + ATTR[n.func.attr], 'method')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'fillna', 'clip', 'sort_index', 'dropna', 'ffill', 'bfill', 'shift', 'abs',
                                                                 'round', 'astype', 'sort_values', 'drop_duplicates', 'reset_index', 'tz_convert'):
            rep(n, seg(n.func.value), 'unmethod')
        for k in n.keywords:
            if k.arg:
                a, z = pos(n)
                ka, kz = pos(k)
                t = b[ka:kz].decode()
                s = b[a:z].decode()
                i = s.rfind(t)
                e = i + len(t)
                rest = s[e:].lstrip()
                if rest.startswith(','):
                    new = s[:i] + rest[1:].lstrip()
                else:
                    new = s[:i].rstrip().rstrip(',') + s[e:]
                rep(n, new, 'kw ' + k.arg)
    elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(n.targets[0] if isinstance(n, ast.Assign) else n.target, (ast.Subscript, ast.Attribute)):
        rep(n, 'pass', 'stmt')
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        rep(n, 'pass', 'stmt')
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
        rep(n, 'pass', 'stmt')
    elif isinstance(n, ast.If):
        rep(n.test, 'False', 'if')
        rep(n.test, 'True', 'if')
muts = sorted(set(muts))
random.Random(7).shuffle(muts)
muts = muts[:max(1, int(len(muts) * frac))]


def run(m):
    d = tempfile.mkdtemp(prefix='sw', dir='/tmp/sweep')
    try:
        shutil.copytree('/repo/rdtools', d + '/rdtools', ignore=shutil.ignore_patterns('__pycache__', 'test'))
        s = b[:m[4]] + m[6].encode() + b[m[5]:]
        open(f'{d}/rdtools/{mod}', 'wb').write(s)
        try:
            ast.parse(s)
        except SyntaxError:
            return m, 'syntax'
        env = dict(os.environ, VC_REPO=d, PYTHONDONTWRITEBYTECODE='1')
        for p in props:
            try:
                o = subprocess.run(['/opt/venv/bin/python', '/verif/rt/run.py', p, '--jobs', '1', '--extra', '0', '--cap', '60'], env=env, capture_output=True,
                                   text=True, timeout=150)
            except subprocess.TimeoutExpired:
                return m, 'timeout ' + p
            L = o.stdout.strip().splitlines() or ['?']
            if not re.fullmatch(r'\d+ failures', L[-1]) or sum('LEAP-DAY-366' in x for x in L) < int(L[-1].split()[0]):
                return m, 'killed ' + p
        return m, 'SURVIVED'
    finally:
        shutil.rmtree(d)


out = open(f'/tmp/sweep/{func}.txt', 'w')
n = k = 0
with cf.ThreadPoolExecutor(jobs) as ex:
    for m, r in ex.map(run, muts):
        n += 1
        if r == 'SURVIVED' or r.startswith('timeout'):
            k += 1
            print(f'{r} {mod}:{m[0]} {m[1]}: {m[2]}  ->  {m[3]}', file=out, flush=True)
print(f'DONE {func}: {n} mutants, {k} survivors', file=out, flush=True)
