"""Frame conditions.  Every contract of the other properties that runs a function on caller-owned objects is run again here with a single
postcondition on every path, also those that raise: no object of the caller was modified (values, index, index name, series name,
columns, dictionary entries).  An in-place write is recorded by the pandas contracts when its target is an object of the caller or an
index or frame shared with one."""
import importlib, inspect, os
from vc.api import *
from vc import api

P = 'C24'
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(here)):
    if f.startswith('c') and f.endswith('.py') and f != 'c24.py':
        importlib.import_module('contracts.' + f[:-3])
for c in [c for c in api.CONTRACTS if c.prop != P]:
    if 'unchanged(' not in inspect.getsource(c.body) and c.prop not in ('C03', 'C25'):
        continue
    o = dict(c.opts, frame_only=True)
    api.CONTRACTS.append(api.Contract(P, f'frame of {c.prop} {c.name}', c.functions, c.body, o, c.assumptions, c.setup))
