"""P09 cryptographic failures are never swallowed"""
TECHNIQUE = 'pending-result typestate for every fallible primitive call, as must/may dataflow over inlined LLVM IR'
NOTE = 'all paths of every exported function and every protocol step; every call of a fallible primitive'
from proto import *
from common import *

# primitive -> result that means success
FALLIBLE = {'crypto_scalarmult_ristretto255': 0, 'crypto_core_ristretto255_add': 0, 'crypto_core_ristretto255_sub': 0,
            'crypto_core_ristretto255_is_valid_point': 1, 'crypto_core_ristretto255_scalar_invert': 0,
            'crypto_scalarmult': 0, 'crypto_auth_verify': 0, 'crypto_sign_verify_detached': 0, 'crypto_sign_open': 0,
            'crypto_secretbox_open_easy': 0, 'crypto_aead_xchacha20poly1305_ietf_decrypt': 0, 'sodium_mlock': 0,
            'Noise_XK_aead_decrypt': 0, 'sodium_memcmp': 0, 'crypto_verify_32': 0}
POINTS = {'crypto_scalarmult_ristretto255', 'crypto_scalarmult_ristretto255_base', 'crypto_core_ristretto255_add',
          'crypto_core_ristretto255_sub', 'crypto_core_ristretto255_from_hash', 'crypto_core_ristretto255_random'}
SCALARS = {'crypto_core_ristretto255_scalar_' + x: n for x, n in
           (('mul', 2), ('add', 2), ('sub', 2), ('invert', 1), ('negate', 1), ('complement', 1), ('reduce', 1), ('random', 0))}


def made_here(fn, ins, addr):
    """the 32 bytes at addr are, at ins, a group element computed by this function"""
    for d in fn.defs_at(ins, addr, 32):
        if d == 'entry':
            return False
        i = d[0]
        if i.op == 'store' and fn.val(i.ops[0], i.extra['ty']).const() == 0:
            continue
        if i.op == 'call' and i.callee == 'memset' and fn.args(i)[1].const() == 0:
            continue
        if i.op != 'call' or i.callee not in POINTS:
            return False
    return True


def external(fn, ins, addr, seen=None):
    """the scalar at addr is (computed from) one handed in from outside"""
    seen = set() if seen is None else seen
    for d in fn.defs_at(ins, addr, 32):
        if d == 'entry':
            b = fn.base(addr)[0]
            if b[0] != 'alloca':
                return True
            continue
        i = d[0]
        if i.uid in seen:
            continue
        seen.add(i.uid)
        if i.op != 'call':
            continue
        if i.callee in ('memcpy', 'memmove'):
            a = fn.args(i)
            if external(fn, i, a[1] + (addr - a[0]), seen):
                return True
        elif i.callee in SCALARS:
            if any(external(fn, i, fn.args(i)[1 + k], seen) for k in range(SCALARS[i.callee])):
                return True
    return False


def can_fail(fn, ins):
    a = fn.args(ins)
    if ins.callee in ('crypto_core_ristretto255_add', 'crypto_core_ristretto255_sub'):
        return not (made_here(fn, ins, a[1]) and made_here(fn, ins, a[2]))
    if ins.callee == 'crypto_core_ristretto255_scalar_invert':
        return external(fn, ins, a[1])
    return True


def analyse(R, fn, name, records=(), base=None, init=State(), track=None, always=False):
    """records: addresses whose update records the failure as a complaint or violator"""
    calls = [c for c in fn.calls(*FALLIBLE) if can_fail(fn, c)]
    if not calls:
        return 0
    byid = {c.uid: c for c in calls}
    gone = ('failed', 'un') if always else ('failed',)
    ok = {c.uid: Eq(fn.val(('loc', c.name), c.ty), FALLIBLE[c.callee]) for c in calls}

    def hook(st, ins):
        if base:
            st = base(st, ins)
            if st is None:
                return None
        if ins.uid in byid:
            may = frozenset(t for t in st.may if not (t[0] in ('un', 'failed') and t[1] == ins.uid))
            st = State(st.facts, st.must, may | {('un', ins.uid)})
        elif ins.op == 'store' and records:
            if fn.val(ins.ops[1]) in records:
                st = State(st.facts, st.must, frozenset(t for t in st.may if t[0] not in gone))
        return st

    def settle(st):
        may = set(st.may)
        for t in st.may:
            if t[0] == 'un':
                h = st.holds(ok[t[1]])
                if h is True:
                    may.discard(t)
                elif h is False:
                    may.discard(t)
                    may.add(('failed', t[1]))
        return State(st.facts, st.must, frozenset(may)) if may != st.may else st

    def tr(st):
        return (track(st) if track else None, frozenset(t for t in st.may if t[0] == 'failed'))
    F = Facts(fn, hook, tr, init, lambda st, b, s: settle(st))
    bad = {}
    for r, st in F.success_states():
        st = settle(st)
        for t in st.may:
            if t[0] in ('un', 'failed'):
                bad.setdefault(t[1], set()).add(t[0])
    if always:
        for c in calls:
            if c.callee in flow.MEMCMP:
                continue               # looks at the message, goes on to nothing
            for st in F.states_before(c):
                for t in settle(st).may:
                    if t[0] in ('un', 'failed') and t[1] != c.uid:
                        bad.setdefault(t[1], set()).add('go on')
    used = uses(fn)
    for u, c in sorted(byid.items(), key=lambda x: str(x[0])):
        R.saw('calls', c.callee)
        w = fn.where(c)
        R.ok(c.name in used, 'examined', w, '%s: the result of %s is ignored' % (name, c.callee))
        s = bad.get(u, ())
        R.ok(not s, 'propagated', w, '%s: can %s %s %s' % (
            name, 'go on' if 'go on' in s else 'report success', 'after a failed' if 'failed' in s else 'without having established the success of', c.callee))
    return len(calls)


def uses(fn):
    """SSA values that influence control flow, a return value or memory (not just log output)"""
    live, work = set(), []
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op in ('br', 'switch', 'ret', 'store') or (ins.op == 'call' and ins.callee not in fn.logonly
                                                              and ins.callee not in ('fprintf', 'printf', 'vfprintf')):
                work += [o[1] for o in ins.ops if o[0] == 'loc']
    while work:
        v = work.pop()
        if v in live:
            continue
        live.add(v)
        d = fn.f.defs.get(v)
        if d is not None and d.op != 'call':
            work += [o[1] for o in d.ops if o[0] == 'loc']
    return live


def check(R):
    R.rule('examined', 'the result of every call that can fail on data from outside influences a branch or the returned value')
    R.rule('propagated', 'no path on which such a call failed, or its success was not established, returns success, unless the '
                         'failure was recorded as a complaint or violator; the dispute step, which never succeeds, processes '
                         'nothing further after such a failure without having recorded it')
    P = Proto()
    R.sources = P.sources
    for name, f in sorted(P.mod.fns.items()):
        if not f.blocks or f.linkage == 'internal' or name in ('tpdkg_tp_next', 'tpdkg_peer_next'):
            continue
        fn = P.func(name)
        rec = ()
        if name == 'dkg_verify_commitments':
            i = param(fn, 'fails_len')
            rec = (fn.arg(6 if i is None else i),)
        n = analyse(R, fn, name, rec)
        if n:
            R.saw('functions', name)
    for role in ('tp', 'peer'):
        for s in range(0, 10 if role == 'tp' else 11):
            S = Step(P, role, s)
            rec = (S.field('cheater_len'),) if role == 'tp' else (S.output + P.HDR,) if s == 5 else ()
            n = analyse(R, S.fn, S.name, rec, S.hook, S.init, S.track, role == 'tp' and s == 7)
            if n:
                R.saw('functions', S.name)
    R.floor('examined', 25)
    R.floor('propagated', 25)
