"""the Python bindings together with the declarations of the native functions they call"""
import os, re
import build, cdecl, pyflow
from pyflow import *

FILES = ('__init__', 'noisexk')
# native functions by what their result means; the default follows from the declared type
VALUE = {'tpdkg_tp_not_done', 'tpdkg_peer_not_done', 'tpdkg_cheater_msg', 'Noise_XK_pack_message_with_conf_level', 'Noise_XK_pack_message'}   # packing cannot fail
HANDED = {'tpdkg_tp_input_sizes', 'tpdkg_tp_not_done', 'tpdkg_peer_not_done'}
STATUS = ('int', 'Noise_XK_rcode', 'Noise_XK_error_code')


class Bindings:
    def __init__(self):
        d = os.path.join(build.REPO, 'python', 'pyoprf')
        names = set()
        self.sources = []
        for f in FILES:
            p = os.path.join(d, f + '.py')
            try:
                names |= set(re.findall(r'\b(crypto_\w+)', open(p).read()))
            except OSError:
                raise build.Broken('%s is gone' % p)
            self.sources.append(p)
        c = cdecl.values(['sizeof(TP_DKG_TPState)', 'sizeof(TP_DKG_PeerState)', 'sizeof(TP_DKG_Cheater)', 'sizeof(TOPRF_Share)', 'sizeof(crypto_generichash_state)', 'tpdkg_msg0_SIZE', 'tpdkg_msg8_SIZE'],
                         names | {'crypto_core_ristretto255_BYTES'})
        self.c = c
        consts = dict(c)
        consts['crypto_generichash_STATEBYTES'] = c['sizeof(crypto_generichash_state)']
        self.protos = cdecl.prototypes()
        pyflow.SETTLED[:] = [self.settled]
        self.modules = [pyflow.Module(p, consts) for p in self.sources]

    def kind(self, name):
        """'status' | 'pointer' | 'truth' | 'value' | 'none' of a native function, None if it is not ours"""
        d = self.protos.get(name)
        if d is None or name in ('free', 'malloc'):
            return None
        if name in VALUE:
            return 'value'
        if name in HANDED:
            return 'handed'
        if d.ret.endswith('*'):
            return 'pointer'
        if d.ret in STATUS:
            return 'status'
        if d.ret in ('_Bool', 'bool'):
            return 'truth'
        return 'none' if d.ret == 'void' else 'value'

    def settled(self, r, s):
        k = self.kind(r[2])
        if k == 'status':
            return s.holds(Eq(poly(r))) is True
        if k in ('pointer', 'truth'):
            return s.holds(Eq(poly(r))) is False
        return False

    def where(self, m, fn, node):
        return '%s:%d %s' % (m.rel, node.lineno, fn)


def bind(e, d):
    """arguments of a native call by parameter name"""
    return {p.name: a for p, a in zip(d.params, e.args)}


def intval(m, e, arg, w):
    """(polynomial the native function receives, True if it is the number meant) of an integer argument"""
    v = unwrap(arg)
    plain = True
    if not isinstance(v, Poly) and v[0] == 'cval':
        plain = False
        v = m.attr(v, 'value', e.state, None)
        v = unwrap(v)
    p = num(v)
    hi = 2 ** w - 1
    if plain and w > 31:
        hi = 2 ** 31 - 1            # numbers are passed as int unless wrapped
    if any(a[0] == 'trunc' for a in p.atoms()):
        return p, False
    return p, e.state.holds(Ge(p)) is True and e.state.holds(Ge(poly(hi) - p)) is True
