PROP='P23'
NEEDS='a blinded element that is too short'
WHAT='the Python binding for evaluation passes short elements to the native function'
EDITS=[('python/pyoprf/__init__.py','''def evaluate(key: bytes, blinded: bytes) -> bytes:
    if len(key) != pysodium.crypto_core_ristretto255_SCALARBYTES:
        raise ValueError("key has incorrect length")
    if not isinstance(key, bytes):
        raise ValueError("key is not of type bytes")
    if len(blinded) != pysodium''','''def evaluate(key: bytes, blinded: bytes) -> bytes:
    if len(key) != pysodium.crypto_core_ristretto255_SCALARBYTES:
        raise ValueError("key has incorrect length")
    if not isinstance(key, bytes):
        raise ValueError("key is not of type bytes")
    if len(blinded) > pysodium''')]
PYDEMO=r'''
import sys, pyoprf
called = []
class Spy:
    def __init__(self, f): self.f = f
    def __call__(self, k, b, z): called.append(len(b)); return 0
pyoprf.liboprf.oprf_Evaluate = Spy(None)
k = pyoprf.keygen()
try: pyoprf.evaluate(k, b'\x01'*5)
except ValueError: pass
if called:
    print("native function called with %d bytes instead of 32" % called[0])
    sys.exit(1)
'''
