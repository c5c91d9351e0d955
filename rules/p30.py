"""P30 every handshake step binds the prescribed keys and the whole transcript"""
TECHNIQUE = 'term domain (hash, HMAC, Diffie-Hellman, AEAD over memory contents) in a path-partitioned dataflow over inlined LLVM IR of the channel library, specialised by role and handshake step, compared with the handshake pattern at every successful return'
NOTE = 'both roles, all three steps, session creation, key split and HMAC; all payloads and keys; hash, Diffie-Hellman and AEAD primitives of libsodium are taken as given'
from common import *
import build, ir, flow
from flow import Fn
from terms import Terms, normal, show_value, EFFECTS
from p26 import Layout, ROLES, low, returns

KEEP = ('Noise_XK_hmac',)
NAME = b'Noise_XK_25519_ChaChaPoly_BLAKE2b'
KEYS = ('cipher_key', 'chaining_key', 'h', 'spriv', 'spub', 'epriv', 'epub', 'rs', 're')
SIZE = {'chaining_key': 64, 'h': 64}
TEXT = {'cipher_key': 'the cipher key', 'chaining_key': 'the chaining key', 'h': 'the running hash', 'spriv': 'the own static private key', 'spub': 'the own static public key',
        'epriv': 'the own ephemeral private key', 'epub': 'the own ephemeral public key', 'rs': "the peer's static key", 're': "the peer's ephemeral key"}
STEPS = ((0, 'write', 0), (1, 'read', 0), (1, 'write', 1), (0, 'read', 1), (0, 'write', 2), (1, 'read', 2))


def seg(t, n):
    return ((t, 0, n),)


def const(b):
    return seg(('const', b), len(b))


def H(h, x):
    return seg(('hash', 64, (), normal(h + x)), 64)


def kdf(ck, key):
    t = seg(('hmac', ck, key), 64)
    a = seg(('hmac', t, const(b'\1')), 64)
    b = seg(('hmac', t, normal(a + const(b'\2'))), 64)
    return a, b


def key32(v):
    return ((v[0][0], 0, 32),)


def nonce(n):
    return const(bytes(4) + n.to_bytes(8, 'little'))


def dh(priv, pub):
    return seg(('dh', priv, pub), 32)


class Side:
    """what the handshake pattern makes of the state of one side"""

    def __init__(self, old):
        self.v = dict(old)
        self.sent = ()

    def mix(self, x):
        self.v['h'] = H(self.v['h'], x)

    def mixkey(self, priv, pub):
        a, b = kdf(self.v['chaining_key'], dh(self.v[priv], self.v[pub]))
        self.v['chaining_key'] = a
        self.v['cipher_key'] = key32(b)

    def seal(self, n, x, size):
        c = seg(('aead', self.v['cipher_key'], nonce(n), self.v['h'], x), size + 16)
        self.mix(c)
        return c

    def open(self, n, c, size):
        p = seg(('dec', self.v['cipher_key'], nonce(n), self.v['h'], c), size)
        self.mix(c)
        return p


def check(R):
    R.rule('start', 'a new session starts from the protocol name, the prologue, the responder\'s static key and a fresh ephemeral key')
    R.rule('step', 'a successful handshake step leaves the running hash and keys the pattern prescribes')
    R.rule('message', 'a handshake message consists of the parts the pattern prescribes, encrypted under the key, nonce and running hash of that point')
    R.rule('payload', 'a handshake payload handed out is the decryption of the received one')
    R.rule('split', 'a completed handshake gives each direction its own key and zero nonces')
    R.rule('failed', 'a handshake step that fails after it began to compute leaves a session no further step accepts')
    R.rule('mac', 'the MAC keys are derived with is HMAC over the whole key and the whole data')
    text, R.sources = build.noise(KEEP)
    mod = ir.parse_module(text)
    L = Layout(mod)
    em = next((x['members'] for x in mod.structs().get('Noise_XK_encap_message_t') or () if x['members']), {})
    need = ['Noise_XK_session_read', 'Noise_XK_session_write', 'Noise_XK_session_create_initiator', 'Noise_XK_session_create_responder', 'Noise_XK_hmac']
    gone = [f for f in need if f not in mod.fns]
    if gone or L.root is None or 'em_message' not in em:
        R.broken('%s is gone' % (gone[0] if gone else 'the session or message type'))
        return
    dev = next((x['members'] for x in mod.structs().get('Noise_XK_device_t_s') or mod.structs().get('Noise_XK_device_t') or () if x['members']), {})
    peer = next((x['members'] for x in mod.structs().get('Noise_XK_peer_t_s') or mod.structs().get('Noise_XK_peer_t') or () if x['members']), {})
    for role, way, s in STEPS:
        step(R, mod, L, em, role, way, s)
    for f in ('Noise_XK_session_create_initiator', 'Noise_XK_session_create_responder', 'Noise_XK__session_create_initiator_with_ephemeral', 'Noise_XK__session_create_responder_with_ephemeral'):
        if f in mod.fns:
            start(R, mod, L, dev, peer, f)
    mac(R, mod)
    R.floor('start', 14)
    R.floor('step', 40)
    R.floor('message', 3)
    R.floor('payload', 3)
    R.floor('split', 8)
    R.floor('failed', 6)
    R.floor('mac', 2)


def step(R, mod, L, em, role, way, s):
    rname, case, tag = ROLES[role]
    st_ = ('val', case, 'state')
    hs = st_ + ('val', 'case_IMS_Handshake')
    tp = st_ + ('val', 'case_IMS_Transport')
    tags = L.at('tag'), L.at(*(st_ + ('tag',)))
    at = {n: L.at(*(hs + (n,))) for n in KEYS + ('step',)}
    tr = {n: L.at(*(tp + (n,))) for n in ('h', 'send_key', 'send_nonce', 'receive_key', 'receive_nonce')}
    if None in at.values() or None in tr.values() or None in tags:
        R.broken('a member of the session type is gone')
        return
    fn = Fn(mod, 'Noise_XK_session_' + way, entry_cells={(1,) + tags[0]: tag, (1,) + tags[1]: 0, (1,) + at['step']: s}, effects=dict(flow.EFFECTS, **EFFECTS))
    sn = fn.arg(1)
    ptr = {n: poly(('ld', sn + at[n][0], 8, None, True)) for n in KEYS}
    facts = set()
    for p in ptr.values():
        facts.update(flow.literals(Not(Eq(p))))
    T = Terms(fn, init=State(frozenset(facts)))
    old = {n: (((('in', ptr[n].single())), 0, SIZE.get(n, 32)),) for n in KEYS}
    who = '%s, handshake step %d' % (rname, s)
    n = 0
    for r, st, good in returns(T.F):
        if not good:
            v = T.F.fn.val(r.ops[0], r.ty)
            st = flow.assume(st, Not(Eq(low(v))))
            if st is not None and any(t[0] == 'did' for t in st.may):
                x = T.number(st, sn + at['step'][0], at['step'][1])
                y = T.number(st, sn + tags[1][0], tags[1][1])
                dead = x is not None and y == ZERO and x.const() is not None and x.const() >= 3
                R.ok(dead, 'failed', fn.where(r), '%s: failing leaves the session at step %s, usable' % (who, show(x) if x is not None else 'unknown'))
            continue
        n += 1
        w = fn.where(r)
        E = Side(old)
        if way == 'write':
            plen = poly(('ld', fn.arg(0) + em['em_message_len'][0], em['em_message_len'][1], None, False))
            text = seg(('in', ('ld', fn.arg(0) + em['em_message'][0], 8, None, True)), plen)
            out = []
            if s == 2:
                out += E.seal(1, E.v['spub'], 32)
                E.mixkey('spriv', 're')
            else:
                E.mix(E.v['epub'])
                out += E.v['epub']
                E.mixkey('epriv', 'rs' if s == 0 else 're')
            out += E.seal(0, text, plen)
            p = T.number(st, fn.arg(3), 8, True)
            m = T.number(st, fn.arg(2), 4)
            total = poly(T.num(st, plen)) + 16 + (48 if s == 2 else 32)
            if p is None or m is None:
                R.bad('message', w, '%s: succeeds without a definite message' % who)
            else:
                R.ok(poly(T.num(st, m)) == total, 'message', w, '%s: the message has length %s' % (who, show(m)))
                got = T.read(st, p, m)
                R.ok(got == normal(out), 'message', w, '%s: the message is %s' % (who, show_value(got)))
        else:
            inp = fn.arg(3).single()
            total = fn.arg(2)

            def part(off, size):
                return ((('in', inp), off, size),)
            if s == 2:
                E.v['rs'] = E.open(1, part(0, 48), 32)
                E.mixkey('epriv', 'rs')
                c, cl = part(48, T.num(st, total - 48)), total - 48
            else:
                E.mix(part(0, 32))
                E.v['re'] = part(0, 32)
                E.mixkey('spriv' if s == 0 else 'epriv', 're')
                c, cl = part(32, T.num(st, total - 32)), total - 32
            text = E.open(0, c, T.num(st, cl - 16))
            p = T.number(st, fn.arg(0), 8, True)
            if p is None:
                R.bad('payload', w, '%s: succeeds without a definite payload' % who)
            elif not eq0(st, p):
                q = T.number(st, p + em['em_message'][0], 8, True)
                m = T.number(st, p + em['em_message_len'][0], em['em_message_len'][1])
                if q is None or m is None:
                    R.bad('payload', w, '%s: the payload handed out is not definite' % who)
                else:
                    same = poly(T.num(st, m)) == poly(T.num(st, cl - 16))
                    R.ok(same, 'payload', w, '%s: the payload handed out has length %s' % (who, show(m)))
                    got = T.read(st, q, m) if same else ()
                    R.ok(not same or got == normal(text) or eq0(st, q), 'payload', w, '%s: the payload handed out is %s' % (who, show_value(got)))
        if s < 2:
            for k in KEYS:
                p = T.number(st, sn + at[k][0], 8, True)
                got = T.read(st, p, SIZE.get(k, 32)) if p is not None else ()
                R.ok(got == normal(E.v[k]), 'step', w, '%s: %s becomes %s' % (who, TEXT[k], show_value(got)))
            v = T.number(st, sn + at['step'][0], at['step'][1])
            R.ok(v is not None and v == poly(s + 1), 'step', w, '%s: leads to step %s' % (who, show(v) if v is not None else show_value(T.read(st, sn + at['step'][0], at['step'][1]))))
        else:
            v = T.number(st, sn + tags[1][0], tags[1][1])
            R.ok(v is not None and v == poly(1), 'split', w, '%s: the session does not enter the transport phase' % who)
            a, b = (key32(x) for x in kdf(E.v['chaining_key'], ()))
            for f, want in (('send_key', a if role == 0 else b), ('receive_key', b if role == 0 else a), ('h', E.v['h'])):
                p = T.number(st, sn + tr[f][0], 8, True)
                got = T.read(st, p, 64 if f == 'h' else 32) if p is not None else ()
                R.ok(got == normal(want), 'split', w, '%s: %s becomes %s' % (who, 'the session hash' if f == 'h' else 'the ' + f.replace('_', ' '), show_value(got)))
            for f in ('send_nonce', 'receive_nonce'):
                v = T.number(st, sn + tr[f][0], 8)
                R.ok(v == ZERO, 'split', w, '%s: %s starts at %s' % (who, f.replace('_', ' '), show(v) if v is not None else 'an unknown value'))
    if not n:
        R.bad('step', fn.name, '%s: never succeeds' % who)


def start(R, mod, L, dev, peer, f):
    role = 0 if 'initiator' in f else 1
    rname, case, tag = ROLES[role]
    st_ = ('val', case, 'state')
    hs = st_ + ('val', 'case_IMS_Handshake')
    at = {n: L.at(*(hs + (n,))) for n in KEYS + ('step',)}
    tags = L.at('tag'), L.at(*(st_ + ('tag',)))
    if any(n not in dev for n in ('dv_spriv', 'dv_spub', 'dv_prologue')) or 'p_s' not in peer:
        R.broken('a member of the device or peer type is gone')
        return
    fn = Fn(mod, f, effects=dict(flow.EFFECTS, **EFFECTS))
    T = Terms(fn)
    dv = fn.arg(0)
    own = {n: (('in', ('ld', dv + dev[m][0], 8, None, True)), 0, 32) for n, m in (('spriv', 'dv_spriv'), ('spub', 'dv_spub'))}
    pl = dev['dv_prologue'][0]
    prologue = seg(('in', ('ld', dv + pl + 8, 8, None, True)), poly(('ld', dv + pl, 4, None, False)))
    fresh = 'ephemeral' not in f
    n = 0
    for r, st, v in T.F.returns():
        st = flow.assume(st, Not(Eq(v)))
        if st is None:
            continue
        v = poly(T.num(st, v))
        n += 1
        w = fn.where(r)
        got = {}
        for k in KEYS:
            p = T.number(st, v + at[k][0], 8, True)
            got[k] = T.read(st, p, SIZE.get(k, 32)) if p is not None else ()
        for c, want, what in ((tags[0], tag, 'role'), (tags[1], 0, 'phase'), (at['step'], 0, 'step')):
            x = T.number(st, v + c[0], c[1])
            R.ok(x is not None and x == poly(want), 'start', w, 'a new %s session starts in another %s' % (rname, what))
        for k in ('spriv', 'spub'):
            R.ok(got[k] == (own[k],), 'start', w, 'a new %s session has as %s %s' % (rname, TEXT[k], show_value(got[k])))
        e = got['epriv']
        if fresh:
            R.ok(len(e) == 1 and e[0][0][0] == 'random' and e[0][1] == 0, 'start', w, 'a new %s session has as %s %s' % (rname, TEXT['epriv'], show_value(e)))
        else:
            R.ok(any(e == (((('in', fn.arg(i).single())), 0, 32),) for i in range(len(fn.f.params)) if fn.arg(i).single()), 'start', w, 'a new %s session has as %s %s' % (rname, TEXT['epriv'], show_value(e)))
        R.ok(got['epub'] == seg(('pub', e), 32) or not fresh and len(got['epub']) == 1 and got['epub'][0][0][0] == 'in' and got['epub'] != e,
             'start', w, 'a new %s session has as %s %s' % (rname, TEXT['epub'], show_value(got['epub'])))
        name = const(NAME + bytes(64 - len(NAME)))
        R.ok(got['chaining_key'] == name, 'start', w, 'a new %s session starts with %s %s' % (rname, TEXT['chaining_key'], show_value(got['chaining_key'])))
        rs = got['rs']
        if role == 0:
            a = rs[0][0][1] if len(rs) == 1 and rs[0][0][0] == 'in' else None
            ok = a is not None and a[0] == 'ld' and rs[0][1] == 0 and fn.base(a[1])[0] is not None and fn.base(a[1])[1] == poly(peer['p_s'][0]) and rs != (own['spub'],)
            R.ok(ok, 'start', w, "a new initiator session has as the peer's static key %s" % show_value(rs))
        hs_ = [H(H(name, prologue), rs if role == 0 else (own['spub'],))]
        if st.known(prologue[0][2]) == 0:
            hs_.append(H(H(name, ()), rs if role == 0 else (own['spub'],)))
        R.ok(got['h'] in hs_, 'start', w, 'a new %s session starts with %s %s' % (rname, TEXT['h'], show_value(got['h'])))
    if not n:
        R.bad('start', fn.name, 'creating a %s session never succeeds' % rname)


def mac(R, mod):
    fn = Fn(mod, 'Noise_XK_hmac', effects=dict(flow.EFFECTS, **EFFECTS))
    T = Terms(fn)
    n = 0
    for r, st, v in T.F.returns():
        n += 1
        w = fn.where(r)
        kl, dl = T.num(st, fn.arg(1)), T.num(st, fn.arg(3))
        key, data = T.read(State(st.facts), fn.arg(2), kl), T.read(State(st.facts), fn.arg(4), dl)
        if T.ge0(st, poly(128) - kl):
            pad = normal(key + seg(('fill', 0), T.num(st, poly(128) - kl)))
        else:
            pad = normal(seg(('hash', 64, (), key), 64) + const(bytes(64)))
        inner = H(seg(('xor', 0x36, pad), 128), data)
        outer = H(seg(('xor', 0x5c, pad), 128), inner)
        got = T.read(st, fn.arg(0), 64)
        R.ok(got == outer, 'mac', w, 'the MAC is %s' % show_value(got))
    if not n:
        R.bad('mac', fn.name, 'the MAC is never computed')
