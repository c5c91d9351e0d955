"""P26 channel messages are released only authenticated, under unique nonces"""
TECHNIQUE = 'must-fact dataflow over inlined LLVM IR of the channel library, specialised by role, phase and handshake step: call results, last values of the session fields and of handed-out pointers at every return'
NOTE = 'both roles, all transport and handshake states, all input bytes and nonce values; key derivation and hashing are taken as opaque'
from common import *
import build, ir, flow
from flow import Fn, Facts

KEEP = ('Noise_XK_kdf', 'Noise_XK_mix_hash', 'Noise_XK_hmac', 'Noise_XK_hash')
OPAQUE = {'Noise_XK_kdf': [(3, 64), (4, 64), (5, 64)], 'Noise_XK_mix_hash': [(0, 64)], 'Noise_XK_hmac': [(0, 64)], 'Noise_XK_hash': [(0, 64)]}
DECRYPT = ('crypto_aead_chacha20poly1305_ietf_decrypt',)
ENCRYPT = ('crypto_aead_chacha20poly1305_ietf_encrypt',)
DH = ('crypto_scalarmult',)
ROLES = (('initiator', 'case_DS_Initiator', 0), ('responder', 'case_DS_Responder', 1))
# handshake pattern XK: (role, function, step) -> least number of (Diffie-Hellman computations, authenticated parts)
PATTERN = {(0, 'write', 0): (1, 0), (1, 'read', 0): (1, 1), (1, 'write', 1): (1, 0), (0, 'read', 1): (1, 1), (0, 'write', 2): (1, 0), (1, 'read', 2): (1, 2)}
MAX = 2 ** 64 - 1


def ge0(st, p):
    return prove(st.facts, p) or st.holds(Ge(p)) is True


class Layout:
    def __init__(self, mod):
        self.mod = mod
        self.root = next((r for r, (k, f, _) in mod.md.items() if k == 'DIDerivedType' and f.get('tag') == 'DW_TAG_typedef' and f.get('name', '').strip('"') == 'Noise_XK_session_t'), None)

    def at(self, *names):
        """(offset, size) of a member of a session"""
        ref, off, size = self.root, 0, None
        for n in names:
            while True:
                k, f, _ = self.mod.md[ref]
                if k == 'DIDerivedType':
                    ref = f.get('baseType')
                else:
                    break
            m = self.mod._members(ref)['members'].get(n)
            if m is None:
                return None
            off, size, ref = off + m[0], m[1], m[2]
        return off, size


def check(R):
    R.rule('authenticated', 'a received message is handed out only after the ciphertext passed was decrypted successfully')
    R.rule('key', 'transport messages are processed under the key and the current nonce of their direction')
    R.rule('nonce', 'a successful send or receive advances the nonce of its direction by one and leaves the other and both keys alone')
    R.rule('exhausted', 'no message is processed under the last nonce')
    R.rule('handshake', 'a handshake message is accepted or produced only if all Diffie-Hellman computations and decryptions made for it succeeded')
    R.rule('pattern', 'a successful handshake step made the computations of the handshake pattern')
    text, R.sources = build.noise(KEEP)
    mod = ir.parse_module(text)
    for f in ('Noise_XK_session_read', 'Noise_XK_session_write'):
        if f not in mod.fns:
            R.broken('%s is gone' % f)
            return
    L = Layout(mod)
    em = mod.structs().get('Noise_XK_encap_message_t')
    if L.root is None or not em:
        R.broken('the session or message type is gone')
        return
    em = next((x['members'] for x in em if x['members']), {})
    for role, case, tag in ROLES:
        st = ('val', case, 'state')
        tp = st + ('val', 'case_IMS_Transport')
        cells = {n: L.at(*(tp + (n,))) for n in ('send_key', 'send_nonce', 'receive_key', 'receive_nonce')}
        tags = L.at('tag'), L.at(*(st + ('tag',)))
        step = L.at(*(st + ('val', 'case_IMS_Handshake', 'step')))
        if None in cells.values() or None in tags or step is None or 'em_message' not in em:
            R.broken('a member of the session type is gone')
            return
        for way in ('read', 'write'):
            fn = Fn(mod, 'Noise_XK_session_' + way, entry_cells={(1,) + tags[0]: tag, (1,) + tags[1]: 1}, effects=dict(flow.EFFECTS, **OPAQUE))
            transport(R, fn, way, role, cells, em)
        for (r, way, s), need in PATTERN.items():
            if r == tag:
                fn = Fn(mod, 'Noise_XK_session_' + way, entry_cells={(1,) + tags[0]: tag, (1,) + tags[1]: 0, (1,) + step: s}, effects=dict(flow.EFFECTS, **OPAQUE))
                handshake(R, fn, way, role, s, need)
    R.floor('authenticated', 2)
    R.floor('key', 8)
    R.floor('nonce', 16)
    R.floor('exhausted', 4)
    R.floor('handshake', 9)
    R.floor('pattern', 6)


def facts(fn, cells=None):
    calls = {c.uid: c for c in fn.calls(*(DECRYPT + ENCRYPT + DH))}

    def base(st, ins):
        if ins.op == 'call' and ins.uid in calls:
            t = ('did', ins.uid)
            if t in st.may:
                t = ('again', ins.uid)
            return State(st.facts, st.must | {t}, st.may | {t})
        return st
    return Facts(fn, watch(fn, cells, base) if cells else base), calls


def result(fn, c):
    return fn.val(('loc', c.name), c.ty)


def failed(fn, st, calls, names):
    """calls that may have been made and are not known to have succeeded"""
    return [c for u, c in calls.items() if c.callee in names and ('did', u) in st.may and (c.name is None or st.holds(Eq(result(fn, c))) is not True)]


def low(v):
    """the part of the result that tells success"""
    return Poly({m: c for m, c in v.t if c % 256})


def returns(F):
    """(return, state, success?) with the low byte of the result telling success"""
    for r, st, v in F.returns():
        s = flow.assume(st, Eq(low(v), 0)) if v is not None else st
        if s is not None:
            yield r, s, True
        yield r, st, False


def transport(R, fn, way, role, cells, em):
    sn = fn.arg(1)
    at = {n: (sn + o, z) for n, (o, z) in cells.items()}
    outp = fn.arg(0 if way == 'read' else 3)
    F, calls = facts(fn, dict(at, out=(outp, 8)))
    names = DECRYPT if way == 'read' else ENCRYPT
    d = 'receive' if way == 'read' else 'send'
    who = '%s, %s' % (role, 'receiving' if way == 'read' else 'sending')
    mine = [c for c in calls.values() if c.callee in names]
    if not mine:
        R.bad('authenticated' if way == 'read' else 'key', fn.name, '%s: no message is %s' % (who, 'decrypted' if way == 'read' else 'encrypted'))
        return
    old = {n: poly(('ld', a, z, None, n.endswith('key'))) for n, (a, z) in at.items()}
    for c in mine:
        a = fn.args(c)
        w = fn.where(c)
        npub, key = (a[7], a[8])
        R.ok(entry(fn, key, at[d + '_key']), 'key', w, '%s: the key used is %s' % (who, show(key)))
        lo = fn.load_at(c, npub, 4, False)
        hi = fn.load_at(c, npub + 4, 8, False)
        R.ok(lo == ZERO and entry(fn, hi, at[d + '_nonce']), 'key', w, '%s: the nonce used is %s' % (who, show(hi)))
        for st in F.states_before(c):
            n = hi
            R.ok(ge0(st, poly(MAX - 1) - n) or st.holds(Eq(n, MAX)) is False, 'exhausted', w, '%s: a message is processed under an exhausted nonce' % who)
            R.ok(not any(('did', u) in st.may for u, x in calls.items() if x.callee in names), 'key', w, '%s: a second message is processed under the same nonce' % who)
        if way == 'read':
            R.ok(a[3] == fn.arg(3) and eqlen(fn, F, c, a[4], fn.arg(2)), 'authenticated', w, '%s: what is decrypted is not the input' % who)
    n = 0
    for r, st, good in returns(F):
        w = fn.where(r)
        if good:
            n += 1
            done = [c for c in mine if ('did', c.uid) in st.must]
            R.ok(len(done) == 1 and not failed(fn, st, calls, names if way == 'read' else ()), 'authenticated' if way == 'read' else 'key', w, '%s: succeeds without having %s the message' % (
                who, 'authenticated' if way == 'read' else 'encrypted'))
            for f in at:
                v = value(st, f)
                want = 1 if f == d + '_nonce' else 0
                if v is None:
                    same = want == 0 and not written(fn, at[f])
                else:
                    same = advanced(fn, st, v, at[f], want)
                R.ok(same, 'nonce', w, '%s: succeeds leaving %s at %s' % (who, f.replace('_', ' '), show(v) if v is not None else 'its old value'))
    if not n:
        R.broken('%s: never succeeds' % who)
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op != 'store':
                continue
            for x in fn.writes_of(ins):
                if x[2] != outp:
                    continue
                v = fn.val(ins.ops[0], ins.extra['ty'])
                for st in F.states_before(ins):
                    if eq0(st, v):
                        continue
                    if way == 'read':
                        ok = any(('did', c.uid) in st.must and st.holds(Eq(result(fn, c))) is True for c in mine)
                        R.ok(ok, 'authenticated', fn.where(ins), '%s: a message is handed out that was not authenticated' % who)
                        m = fn.load_at(ins, v + em['em_message'][0], 8, True)
                        R.ok(any(eq0(st, m - fn.args(c)[0]) for c in mine), 'authenticated', fn.where(ins), '%s: the message handed out is not the decrypted one' % who)
                    else:
                        x = value(st, d + '_nonce')
                        R.ok(x is not None and advanced(fn, st, x, at[d + '_nonce'], 1), 'nonce', fn.where(ins), '%s: a ciphertext is handed out before its nonce was advanced' % who)


def entry(fn, v, cell):
    """v is what the cell held when the function was called"""
    s = v.single()
    return s is not None and s[0] == 'ld' and s[1] == cell[0] and s[2] == cell[1] and not s[3]


def advanced(fn, st, v, cell, by):
    for x in [v - by] + [q for q in resolved(st, v - by)]:
        if entry(fn, x, cell):
            return True
    return False


def resolved(st, p):
    """what p equals by the facts"""
    for l, pol in st.facts:
        if pol and l[0] == 'eq':
            for a in l[1].atoms():
                c = l[1].coef(a)
                if a in p.atoms() and c in (1, -1) and p.coef(a) == 1:
                    yield p - l[1] * c


def written(fn, cell):
    return any(w[1] is not None and w[1] == fn.base(cell[0])[0] and not fn.disjoint(cell[0], cell[1], w[2], w[3])
               for b in fn.rpo for ins in b.instrs if ins.op in ('store', 'call') for w in fn.writes_of(ins))


def eqlen(fn, F, c, a, n):
    return all(a == n or eq0(st, plain(st, a - n)) for st in F.states_before(c))


def plain(st, p):
    """p with widened numbers replaced by the numbers where those are in range"""
    for x in list(p.atoms()):
        if x[0] == 'zext' and ge0(st, x[2]) and ge0(st, poly(2 ** x[1] - 1) - x[2]):
            p = p + (x[2] - poly(x)) * p.coef(x)
    return p


def handshake(R, fn, way, role, step, need):
    outp = fn.arg(0 if way == 'read' else 3)
    F, calls = facts(fn)
    who = '%s, handshake step %d' % (role, step)
    n = 0
    for r, st, good in returns(F):
        if not good:
            continue
        n += 1
        w = fn.where(r)
        R.saw('handshake', w)
        for c in failed(fn, st, calls, DH + DECRYPT):
            R.bad('handshake', fn.where(c), '%s: succeeds although %s failed' % (who, 'a Diffie-Hellman computation' if c.callee in DH else 'authentication'))
        for names, least, what in ((DH, need[0], 'Diffie-Hellman computations'), (DECRYPT, need[1], 'authenticated parts')):
            have = [c for c in calls.values() if c.callee in names and ('did', c.uid) in st.must]
            R.ok(len(have) >= least, 'pattern', w, '%s: succeeds after %d %s, the pattern has %d' % (who, len(have), what, least))
    if not n:
        R.broken('%s: never succeeds' % who)
    if way == 'read':
        for b in fn.rpo:
            for ins in b.instrs:
                if ins.op == 'store' and any(x[2] == outp for x in fn.writes_of(ins)):
                    v = fn.val(ins.ops[0], ins.extra['ty'])
                    for st in F.states_before(ins):
                        if not eq0(st, v):
                            bad = failed(fn, st, calls, DECRYPT) or not any(('did', u) in st.must for u, c in calls.items() if c.callee in DECRYPT)
                            R.ok(not bad, 'handshake', fn.where(ins), '%s: a message is handed out that was not authenticated' % who)
