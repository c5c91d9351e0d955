PROP='P24'
NEEDS='an entry of the violator list that names two peers'
WHAT='the Python mirror of a violator entry has the two peer fields in the wrong order'
EDITS=[('python/pyoprf/__init__.py','''                ('peer',             ctypes.c_uint8),
                ('other_peer',       ctypes.c_uint8),
''','''                ('other_peer',       ctypes.c_uint8),
                ('peer',             ctypes.c_uint8),
''')]
PYDEMO=r'''
import sys, ctypes, pyoprf
c = pyoprf.TP_DKG_Cheater()
c.step, c.error, c.peer, c.other_peer = 14, 64+6, 2, 3
err = ctypes.create_string_buffer(pyoprf.tpdkg_max_err_SIZE)
p = pyoprf.liboprf.tpdkg_cheater_msg(ctypes.byref(c), err, pyoprf.tpdkg_max_err_SIZE)
if p != 2:
    print("native code reads peer %d from an entry about peer 2" % p)
    sys.exit(1)
'''
