"""P34 private data reaches neither messages nor diagnostics"""
TECHNIQUE = 'taint analysis (information flow) over inlined LLVM IR: private keys, shares, coefficients and inputs to outgoing messages, public results and log output'
NOTE = 'all paths of every protocol step of both roles, of session start and of every public operation; the crypto library and the channel library are trusted to hide what they are given'
from proto import *
from common import *
import p16, p21
from p21 import Object, SHARE, ALL, SECRET

# state fields that are private, and pointers to private arrays of shares
PRIVATE = {'peer': ('sig_sk', 'lt_sk', 'noise_sk', 'share'), 'tp': ('sig_sk',)}
SHARES = ('shares', 'xshares')
# results that do not reveal the secrets they were computed from
HIDES = p21.GROUP + ('crypto_scalarmult_base', 'crypto_sign_detached', 'crypto_sign', 'crypto_auth', 'crypto_sign_ed25519_sk_to_pk', 'crypto_secretbox_easy', 'crypto_box_easy')
KEYPAIR = {'crypto_sign_keypair': (1, 64), 'crypto_sign_seed_keypair': (1, 64), 'crypto_box_keypair': (1, 32), 'crypto_kx_keypair': (1, 32)}
DRAWN = ('crypto_core_ristretto255_scalar_random', 'debian_rng_scalar')
PRINT = ('fprintf', 'vfprintf', 'printf', 'vprintf', 'dprintf', 'fputs', 'fputc', 'putc', 'puts', 'putchar', 'fwrite', 'write', 'send', 'syslog', 'perror')
TEXT = ('sprintf', 'snprintf', 'sodium_bin2hex', 'sodium_bin2base64', '__snprintf_chk', '__sprintf_chk')
# what operations hand out for everybody to see
PUBLIC = {'oprf_Blind': (3,), 'oprf_Evaluate': (2,), 'toprf_Evaluate': (5,), 'toprf_3hashtdh': (5,), 'dkg_start': (2,), 'dkg_verify_commitments': (5, 6)}


class Flow(p21.Taint):
    def __init__(self, fn, spec, S=None):
        self.S = S
        self.private = {}
        if S is not None:
            marks = set()
            for nm in PRIVATE[S.role]:
                if nm in S.F:
                    o, n = S.F[nm]
                    marks |= {('c', o + i) for i in range(1 if nm == 'share' else 0, n)}
            self.private[fn.base(S.ctx)[0]] = marks
        super().__init__(fn, spec, True)

    def start(self, b):
        if b in self.mem or b is None:
            return
        o = self.mem[b] = Object()
        if b in self.private:
            o.marks |= self.private[b]
        elif b == ('field', 'shares') or b == ('field', 'xshares'):
            o.marks |= {('v', r) for r in range(1, SHARE)}

    def objs(self, ptr):
        b, off = self.fn.base(ptr)
        if b is None:
            return [(x, None) for x in self.mem if x[0] == 'alloca']
        if self.S is not None and b[0] == 'ld':
            nm, o = self.S.fieldname(ptr)
            if nm is not None:
                b, off = ('field', nm), o
        self.start(b)
        return [(b, off)]

    def call(self, ins):
        fn, c = self.fn, ins.callee
        if c is None or c.startswith('llvm.') and not c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or c in fn.logonly or c in PRINT:
            return False
        a = fn.args(ins)
        if c in KEYPAIR:
            i, n = KEYPAIR[c]
            return self.mark(a[i], n)
        if c in DRAWN:
            return self.mark(a[0], 32)
        if c in TEXT:
            if any(self.op(o) or i and self.pointer(v) and self.secret_at(v, 32) for i, (o, v) in enumerate(zip(ins.ops, a))):
                return self.mark(a[0], None)
            return False
        if c in HIDES or c in p21.RANDOM or c in p21.PREDICATES or c.startswith('Noise_') and c != 'Noise_XK_session_get_key':
            return False
        return super().call(ins)

    def shown(self, ins):
        """the argument of a printing call that is private, or None"""
        fn, a = self.fn, self.fn.args(ins)
        for i, (o, v) in enumerate(zip(ins.ops, a)):
            if self.op(o):
                return i
            if o[0] in ('loc', 'glob', 'cgep', 'arg') and fn.base(v)[0] is not None:
                ln = None
                if ins.callee in fn.logonly and i == 0 and len(a) > 1:
                    ln = a[1].const()
                if ins.callee in ('fwrite', 'write', 'send') and len(a) > 2:
                    ln = a[2].const()
                if self.secret_at(v, ln if ln is not None else 64):
                    return i
                if self.S is not None and self.S.role == 'peer' and p16.session_of_key(fn, v):
                    return i                   # channel keys are published in disputes only
        return None


def scan(R, fn, name, T, out=None, argo=None):
    for blk in fn.rpo:
        for ins in blk.instrs:
            if ins.op == 'call' and ins.callee and (ins.callee in fn.logonly or ins.callee in PRINT):
                i = T.shown(ins)
                R.ok(i is None, 'log', fn.where(ins), '%s: private data is printed (argument %s of %s)' % (name, i, ins.callee))
            if out is None or ins.op not in ('store', 'call'):
                continue
            for w in fn.writes_of(ins):
                if w[1] != out and not (w[1] and w[1][0] == 'phi' and fn.within(w[2], argo)):
                    continue
                bad = False
                if ins.op == 'store':
                    bad = T.op(ins.ops[0])
                elif ins.callee in ('memcpy', 'memmove'):
                    a = fn.args(ins)
                    bad = T.secret_at(a[1], a[2].const())
                elif ins.callee in DRAWN or ins.callee in KEYPAIR and fn.args(ins)[KEYPAIR[ins.callee][0]] == w[2]:
                    bad = True
                elif ins.callee not in HIDES and ins.callee not in p21.RANDOM and not ins.callee.startswith('Noise_'):
                    bad = any(T.op(o) or T.pointer(v) and v != w[2] and T.secret_at(v, 32) for o, v in zip(ins.ops, fn.args(ins)))
                R.ok(not bad, 'message', fn.where(ins), '%s: private data is written into an outgoing message' % name)


def check(R):
    R.rule('message', 'nothing computed from private keys, shares or coefficients is written to an outgoing message except by the channel, a signature, a tag or a group operation')
    R.rule('log', 'nothing computed from private data, and no memory holding it, is handed to a printing function')
    R.rule('public', 'results meant for others hold nothing of the secrets but through group operations')
    P = Proto()
    R.sources = P.sources
    for role, last in (('peer', 10), ('tp', 9)):
        for nm in PRIVATE[role] + (SHARES if role == 'peer' else ()):
            if nm not in P.of(role):
                R.broken('%s state has no %s' % (role, nm))
        for s in ['start'] + list(range(last + 1)):
            S = Step(P, role, s)
            fn = S.fn
            T = Flow(fn, {2: 'all'} if role == 'peer' and s == 'start' else {}, S)
            scan(R, fn, S.name, T, fn.base(S.output)[0] if S.output is not None else None, S.argo)
    mod = P.mod
    for name, spec in SECRET.items():
        if name not in mod.fns or not mod.fns[name].blocks:
            R.broken('%s is gone' % name)
            continue
        fn = Fn(mod, name)
        T = Flow(fn, {i: k for i, k in spec.items()})
        scan(R, fn, name, T)
        for i in PUBLIC.get(name, ()):
            R.ok(not T.secret_at(fn.arg(i), None), 'public', name, '%s: %s hands out private data' % (name, fn.argname(i)))
    R.floor('message', 40)
    R.floor('log', 60)
    R.floor('public', 5)
