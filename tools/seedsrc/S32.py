PROP='P32'
NEEDS='a response that arrives in three or more pieces with the next one right behind it'
WHAT='reading a response asks for what is left after the last piece instead of after all pieces, and takes bytes of the next response'
EDITS=[('python/pyoprf/multiplexer.py','''          res.append(self.fd.recv(size-read))
          read+=len(res[-1])
''','''          res.append(self.fd.recv(size-(len(res[-1]) if res else 0)))
          read+=len(res[-1])
''')]
PYDEMO=r'''
import sys
from pyoprf.multiplexer import Peer

class Wire:
    """gives the bytes in pieces of 4, 4 and then as many as asked for"""
    def __init__(self, data):
        self.data, self.turn = data, 0
    def recv(self, n):
        self.turn += 1
        k = min(n, 4) if self.turn <= 2 else n
        out, self.data = self.data[:k], self.data[k:]
        return out

p = Peer("a", ("localhost", 1))
p.fd = Wire(b"first messagesecond one..")
p.state = "connected"
a = p.read(13)
b = p.read(12)
if (a, b) != (b"first message", b"second one.."):
    print("read %r and %r" % (a, b))
    sys.exit(1)
'''
