PROP='P33'
NEEDS='a payload carried by the first handshake message, before the sender has proven anything, read as an ordinary message'
WHAT='the Python binding for reading a channel message asks the native function for no authentication level'
EDITS=[('python/pyoprf/noisexk.py','''                                                              NOISE_XK_AUTH_KNOWN_SENDER_NO_KCI, encap_msg):
''','''                                                              NOISE_XK_CONF_ZERO, encap_msg):
''')]
PYDEMO=r'''
import sys, os
from pyoprf import noisexk as nx
from ctypes import POINTER, byref, c_ubyte, c_uint32, string_at

a_sk, b_sk = os.urandom(32), os.urandom(32)
b_pk = nx.pubkey(b_sk)
stranger = nx.create_device(b"demo", b"stranger", a_sk)
bob = nx.create_device(b"demo", b"bob", b_sk)

peer = nx.get_peerid(nx.add_peer(stranger, b"bob", b_pk))
out = nx.create_session_initiator(stranger, peer)
inn = nx.create_session_responder(bob)

# a message whose sender bob does not know, in the first handshake message
text = b"open the door"
packed = nx.lib.Noise_XK_pack_message_with_conf_level(0, len(text), text)
size, data = c_uint32(), POINTER(c_ubyte)()
if nx.lib.Noise_XK_session_write(packed, out, byref(size), byref(data)) != 0:
    print("cannot write the first message")
    sys.exit(2)
first = string_at(data, size.value)
try:
    got = nx.read_msg(inn, first)
except ValueError:
    sys.exit(0)
print("a message of an unknown sender is given out:", got)
sys.exit(1)
'''
