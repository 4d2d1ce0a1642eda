"""Units (contracts to discharge) and properties (which units decide them)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'units'))

TRUSTED = [
    'CBMC 6.11 and its SAT back end; goto-cc C front end',
    'the loop-cut transformation and frame computation of /verif/lib/annot.py',
    'contract stubs for libc, zlib, libmd and system calls (assumed contracts on dependencies), named per unit under assumptions',
]
UNITS, PROPS = {}, {}
for m in sorted(os.listdir(os.path.join(HERE, 'units'))):
    if m.startswith('u_') and m.endswith('.py'):
        mod = importlib.import_module(m[:-3])
        UNITS.update(mod.UNITS)
for m in sorted(os.listdir(os.path.join(HERE, 'units'))):
    if m == 'props.py':
        PROPS.update(importlib.import_module('props').PROPS)
