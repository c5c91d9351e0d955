"""P21 control flow and memory access do not depend on secrets"""
TECHNIQUE = 'taint analysis (information flow) over inlined LLVM IR: secrets to branch conditions, addresses, lengths and variable-time library calls'
NOTE = 'all paths of every public entry point of the OPRF, threshold OPRF, DKG and multiplication code; the crypto library itself and the success results it reports are trusted'
import build, ir
from flow import *
from sym import *

# function -> {argument: 'all' | 'share'}; in shares the index byte is public
SECRET = {
    'oprf_KeyGen': {0: 'all'}, 'oprf_Blind': {0: 'all', 2: 'all'}, 'oprf_Evaluate': {0: 'all'}, 'oprf_Unblind': {0: 'all'}, 'oprf_Finalize': {0: 'all', 2: 'all'},
    'voprf_hash_to_group': {0: 'all'}, 'expand_message_xmd': {0: 'all'},
    'toprf_create_shares': {0: 'all', 3: 'share'}, 'toprf_Evaluate': {0: 'share'}, 'toprf_3hashtdh': {0: 'share', 1: 'share'},
    'toprf_thresholdmult': {}, 'toprf_thresholdcombine': {},
    'dkg_start': {3: 'share'}, 'dkg_verify_commitment': {5: 'share'}, 'dkg_verify_commitments': {4: 'share'}, 'dkg_finish': {1: 'share', 3: 'share'},
    'dkg_reconstruct': {1: 'share', 2: 'all'}, 'toprf_mpc_mul_start': {0: 'share', 1: 'share', 4: 'share'}, 'toprf_mpc_mul_finish': {3: 'share', 4: 'share'},
}
RANDOM = ('crypto_core_ristretto255_scalar_random', 'randombytes_buf', 'randombytes', 'debian_rng_scalar', 'crypto_core_ristretto255_random', 'randombytes_random', 'randombytes_uniform')
VARTIME = {'memcmp': (0, 1), 'bcmp': (0, 1), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcasecmp': (0, 1), 'strlen': (0,), 'strnlen': (0,), 'memchr': (0,), 'strchr': (0,), 'memmem': (0, 2),
           'sodium_bin2hex': (), 'strspn': (0, 1), 'strcspn': (0, 1)}
# results telling something about the compared bytes; after a group operation that is no longer the secret itself
PREDICATES = ('sodium_is_zero', 'sodium_memcmp', 'sodium_compare', 'crypto_verify_16', 'crypto_verify_32', 'crypto_verify_64')
GROUP = ('crypto_scalarmult_ristretto255', 'crypto_scalarmult_ristretto255_base', 'crypto_scalarmult', 'crypto_scalarmult_base')
SHARE = 33
ALL = 'all'


class Object:
    """which bytes of a memory object may hold secrets"""
    def __init__(self):
        self.marks = set()             # ALL | ('c', offset) | ('v', residue modulo the share size)

    @staticmethod
    def strided(off):
        return all(c % SHARE == 0 for m, c in off.t if m != ())

    def hit(self, off, n):
        if not self.marks:
            return False
        if ALL in self.marks or n is None:
            return True
        c = off.const()
        if c is not None:
            return any(m[0] == 'c' and c <= m[1] < c + n or m[0] == 'v' and (m[1] - c) % SHARE < n for m in self.marks)
        if self.strided(off):
            c = off.c0() % SHARE
            return any((m[1] - c) % SHARE < n for m in self.marks)
        return True

    def add(self, off, n):
        c = off.const()
        if n is None or n > 4096:
            new = {ALL}
        elif c is not None:
            new = {('c', c + i) for i in range(n)}
        elif self.strided(off):
            new = {('v', (off.c0() + i) % SHARE) for i in range(min(n, SHARE))}
        else:
            new = {ALL}
        if new <= self.marks:
            return False
        self.marks |= new
        return True

    def bytes(self, off, n):
        """relative offsets of possibly secret bytes, or ALL"""
        if ALL in self.marks or n is None:
            return ALL if self.marks else ()
        return [i for i in range(n) if self.hit(off + i, 1)]


class Taint:
    def __init__(self, fn, spec, predicates=False):
        self.fn = fn
        self.predicates = predicates
        self.vals = set()
        self.mem = {}
        self.why = {}
        for i, kind in spec.items():
            b = fn.base(fn.arg(i))[0]
            o = self.mem.setdefault(b, Object())
            o.marks |= {ALL} if kind == 'all' else {('v', r) for r in range(1, SHARE)}
        changed = True
        while changed:
            changed = False
            for blk in fn.rpo:
                for ins in blk.instrs:
                    if self.step(ins):
                        changed = True

    def objs(self, ptr):
        b, off = self.fn.base(ptr)
        if b is None:
            return [(x, None) for x in self.mem]
        return [(b, off)]

    def secret_at(self, ptr, n):
        for b, off in self.objs(ptr):
            o = self.mem.get(b)
            if o and (off is None and o.marks or off is not None and o.hit(off, n)):
                return True
        return False

    def mark(self, ptr, n):
        r = False
        for b, off in self.objs(ptr):
            o = self.mem.setdefault(b, Object())
            r |= o.add(off if off is not None else ZERO, n if off is not None else None)
        return r

    def op(self, o):
        return o[0] == 'loc' and o[1] in self.vals

    def step(self, ins):
        fn = self.fn
        if ins.op == 'load':
            n = fn.mod.types.size(ins.ty)
            t = self.secret_at(fn.val(ins.ops[0]), n) or self.op(ins.ops[0])
        elif ins.op == 'store':
            if self.op(ins.ops[0]):
                return self.mark(fn.val(ins.ops[1]), fn.mod.types.size(ins.extra['ty']))
            return False
        elif ins.op == 'call':
            return self.call(ins)
        elif ins.name is not None and ins.op not in ('alloca',):
            t = any(self.op(o) for o in ins.ops if isinstance(o, tuple))
        else:
            return False
        if t and ins.name is not None and ins.name not in self.vals:
            self.vals.add(ins.name)
            return True
        return False

    def call(self, ins):
        fn, c = self.fn, ins.callee
        if c is None or c.startswith('llvm.dbg') or c.startswith('llvm.lifetime') or c in fn.logonly:
            return False
        a = fn.args(ins)
        r = False
        if c in ('memcpy', 'memmove'):
            n = a[2].const()
            sb = self.objs(a[1])
            for b, off in sb:
                o = self.mem.get(b)
                if not o or not o.marks:
                    continue
                if off is None or n is None or n > 4096:
                    if ALL in o.marks or off is None or not Object.strided(off):
                        r |= self.mark(a[0], None)
                    else:
                        # a run of shares keeps its layout if it starts at a share
                        for b2, off2 in self.objs(a[0]):
                            o2 = self.mem.setdefault(b2, Object())
                            if off2 is not None and Object.strided(off2):
                                d = (off2.c0() - off.c0()) % SHARE
                                new = {('v', (m[1] + d) % SHARE) for m in o.marks}
                                r |= not new <= o2.marks
                                o2.marks |= new
                            else:
                                r |= self.mark(a[0], None)
                    continue
                bs = o.bytes(off, n)
                if bs == ALL:
                    r |= self.mark(a[0], n)
                else:
                    for i in bs:
                        r |= self.mark(a[0] + i, 1)
            return r
        if c in RANDOM:
            for w in fn.writes_of(ins):
                r |= self.mark(w[2], w[3].const() if isinstance(w[3], Poly) else w[3])
            if ins.name and c in ('randombytes_random', 'randombytes_uniform') and ins.name not in self.vals:
                self.vals.add(ins.name)
                r = True
            return r
        tainted = any(self.op(o) for o in ins.ops)
        if not tainted:
            outs = {w[2] for w in fn.writes_of(ins)}
            for o, v in zip(ins.ops, a):
                if o[0] in ('loc', 'glob', 'cgep') and self.pointer(v) and self.reads(ins, v):
                    tainted = True
        if tainted:
            for w in fn.writes_of(ins):
                if w[2] is not None and not (self.predicates and c in GROUP):
                    r |= self.mark(w[2], w[3].const() if isinstance(w[3], Poly) else w[3])
            pure = not c.startswith(('crypto_', 'sodium_', 'Noise_')) or self.predicates and c in PREDICATES
            if pure and ins.name and ins.name not in self.vals and not c.startswith('llvm.stack'):
                self.vals.add(ins.name)
                r = True
        return r

    def pointer(self, v):
        return self.fn.base(v)[0] is not None

    def reads(self, ins, v):
        """the callee may read secret bytes behind this pointer (outputs only written count as read, which is harmless)"""
        return self.secret_at(v, 64) if not any(w[2] == v for w in self.fn.writes_of(ins)) or self.inout(ins, v) else False

    def inout(self, ins, v):
        return sum(1 for x in self.fn.args(ins) if x == v) > 1 or ins.callee.endswith(('_update', '_final', '_reduce', '_negate'))


def sinks(R, fn, name, T):
    n = 0
    for blk in fn.rpo:
        for ins in blk.instrs:
            w = lambda: fn.where(ins)
            if ins.op in ('br', 'switch') and ins.ops:
                R.ok(not T.op(ins.ops[0]), 'branch', w(), '%s: a branch depends on a secret' % name)
            elif ins.op == 'select':
                R.ok(not T.op(ins.ops[0]), 'branch', w(), '%s: a choice depends on a secret' % name)
            elif ins.op == 'load':
                R.ok(not T.op(ins.ops[0]), 'address', w(), '%s: a secret selects what is read' % name)
            elif ins.op == 'store':
                R.ok(not T.op(ins.ops[1]), 'address', w(), '%s: a secret selects where is written' % name)
            elif ins.op == 'alloca':
                if ins.ops and T.op(ins.ops[0]):
                    R.bad('address', w(), '%s: a secret determines a size' % name)
            elif ins.op == 'call' and ins.callee and not ins.callee.startswith(('llvm.dbg', 'llvm.lifetime')) and ins.callee not in fn.logonly:
                a = fn.args(ins)
                for o, v in zip(ins.ops, a):
                    # lengths and addresses handed to the library
                    R.ok(not T.op(o), 'argument', w(), '%s: a secret is the address, length or scalar argument of %s' % (name, ins.callee)) if T.op(o) else R.saw('argument', w())
                if ins.callee in VARTIME:
                    for i in VARTIME[ins.callee]:
                        ln = a[2].const() if len(a) > 2 else None
                        R.ok(not (i < len(a) and T.secret_at(a[i], ln if ln is not None else 4096)), 'vartime', w(), '%s: a secret is processed in variable time by %s' % (name, ins.callee))


def check(R):
    text, R.sources = build.library()
    mod = ir.parse_module(text)
    R.rule('branch', 'no branch, loop condition or selection has a condition computed from secret bytes or from comparing them')
    R.rule('address', 'no address read, written or size allocated is computed from secret bytes')
    R.rule('argument', 'no address, length or number computed from secret bytes is handed to a library call')
    R.rule('vartime', 'no variable-time library comparison or search runs over secret bytes')
    for name, spec in SECRET.items():
        if name not in mod.fns or not mod.fns[name].blocks:
            R.broken('%s is gone' % name)
            continue
        fn = Fn(mod, name)
        sinks(R, fn, name, Taint(fn, spec))
        sinks(R, fn, name, Taint(fn, spec, True))
    R.floor('branch', 40)
    R.floor('address', 30)
    R.floor('argument', 100)
