PROP='P22'
NEEDS='an evaluated element that is not a valid group element'
WHAT='the Python binding for unblinding ignores the failure of the native function'
EDITS=[('python/pyoprf/__init__.py','''    __check(liboprf.oprf_Unblind(r, Z, N))''','''    liboprf.oprf_Unblind(r, Z, N)''')]
PYDEMO=r'''
import sys, pyoprf
r, _ = pyoprf.blind(b"input")
try: n = pyoprf.unblind(r, b'\xff'*32)
except ValueError: sys.exit(0)
print("no exception for an invalid element")
sys.exit(1)
'''
