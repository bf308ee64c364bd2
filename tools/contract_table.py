"""Rewrite the contract table of DESIGN.md (between the two markers) from the registered contracts."""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import prove  # noqa: E402,F401
from contracts import kit  # noqa: E402

ids = [f[:-3] for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))) if re.fullmatch(r'c\d\d\.py', f)]
for i in ids:
    importlib.import_module('contracts.' + i)
rows = ['| contract | function | states |', '|---|---|---|']
for cid, function, doc, *_ in sorted(kit.REGISTRY, key=lambda e: e[0].split('.')[0]):
    rows.append(f'| {cid} | `{function}` | {" ".join((doc or "").split())} |')
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
a, b = '<!-- contracts: generated -->', '<!-- contracts: end -->'
head, rest = text.split(a)
_, tail = rest.split(b)
open(path, 'w').write(head + a + '\n' + '\n'.join(rows) + '\n' + b + tail)
