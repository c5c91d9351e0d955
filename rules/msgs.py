"""Received messages: where their bytes are used and what has been established about them by then."""
import flow
from sym import *
from flow import State
from proto import Proto, Step, Known, candidates, strip, Broken
import build

S = lambda i, m=1, p=0: ('sz', i, m, p)
READS = {
    'memcpy': [(1, S(2))], 'memmove': [(1, S(2))],
    'crypto_generichash_update': [(1, S(2))], 'crypto_hash_sha512_update': [(1, S(2))],
    'crypto_generichash': [(2, S(3))], 'crypto_hash_sha512': [(1, S(2))],
    'crypto_auth_verify': [(0, 32), (1, S(2)), (3, 32)], 'crypto_auth': [(1, S(2)), (3, 32)],
    'Noise_XK_session_read': [(3, S(2))],
    'Noise_XK_pack_message_with_conf_level': [(2, S(1))],
    'Noise_XK_aead_decrypt': [(0, 32), (6, S(4, 1, 16))],
    'Noise_XK_device_add_peer': [(2, 32)],
    'crypto_scalarmult_ristretto255': [(1, 32), (2, 32)], 'crypto_scalarmult_ristretto255_base': [(1, 32)],
    'crypto_core_ristretto255_add': [(1, 32), (2, 32)], 'crypto_core_ristretto255_sub': [(1, 32), (2, 32)],
    'crypto_core_ristretto255_scalar_mul': [(1, 32), (2, 32)], 'crypto_core_ristretto255_scalar_add': [(1, 32), (2, 32)],
    'crypto_core_ristretto255_scalar_sub': [(1, 32), (2, 32)], 'crypto_core_ristretto255_scalar_invert': [(1, 32)],
    'crypto_sign_detached': [(2, S(3)), (4, 64)], 'crypto_sign_verify_detached': [(0, 64), (1, S(2)), (3, 32)],
    'sodium_memcmp': [(0, S(2)), (1, S(2))], 'memcmp': [(0, S(2)), (1, S(2))], 'bcmp': [(0, S(2)), (1, S(2))], 'strncmp': [(0, S(2)), (1, S(2))],
    'crypto_verify_32': [(0, 32), (1, 32)],
    'crypto_core_ristretto255_scalar_reduce': [(1, 64)], 'crypto_core_ristretto255_from_hash': [(1, 64)],
    'crypto_scalarmult_base': [(1, 32)], 'crypto_scalarmult': [(1, 32), (2, 32)],
}
CHECKS = {'crypto_sign_verify_detached'} | flow.MEMCMP
LOGS = {'fprintf', 'vfprintf', 'printf', 'fputs', 'fputc', 'fwrite', 'puts', 'putc', 'putchar', 'snprintf', 'free'}


def reads_of(fn, ins):
    """[(address, size poly or None)] bytes a call reads through pointers"""
    if ins.op != 'call' or ins.callee is None:
        return []
    c = 'memcpy' if ins.callee.startswith(('llvm.memcpy', 'llvm.memmove')) else ins.callee
    if c.startswith('llvm.'):
        return []
    out = []
    if c in READS:
        for ai, sz in READS[c]:
            if ai >= len(ins.ops):
                continue
            a = fn.val(ins.ops[ai])
            if isinstance(sz, int):
                n = poly(sz)
            else:
                n = fn.val(ins.ops[sz[1]], ins.extra['argty'][sz[1]]) * sz[2] + sz[3]
            out.append((a, n))
    else:
        eff = {i for i, _ in fn.eff.get(c, ())}
        for i, (o, t) in enumerate(zip(ins.ops, ins.extra['argty'])):
            if t == ('ptr',) and i not in eff:
                out.append((fn.val(o), None))
    return out


class Use:
    def __init__(self, ins, lo, size, sink, dst=None, val=None):
        self.ins, self.lo, self.size, self.sink, self.dst, self.val = ins, lo, size, sink, dst, val


def inputloads(step, p):
    """loads of input bytes inside a value"""
    return [a for a in all_atoms(p) if a[0] == 'ld' and isinstance(a[2], int) and step.fn.within(a[1], step.argi)]


def origin(step, ins, addr, size, depth=3):
    """input bytes that a local buffer is a copy of"""
    fn = step.fn
    b, _ = fn.base(addr)
    if b is None or b[0] != 'alloca' or depth == 0 or size is None:
        return None
    defs = fn.defs_at(ins, addr, size)
    if len(defs) != 1 or 'entry' in defs:
        return None
    d, rel = next(iter(defs))
    if d.op == 'call' and d.callee and ('memcpy' in d.callee or 'memmove' in d.callee):
        dst, src = fn.val(d.ops[0]), fn.val(d.ops[1])
        a = src + (addr - dst)
        if fn.within(a, step.argi):
            return a
        return origin(step, d, a, size, depth - 1)
    return None


def uses(step):
    """consumptions of input bytes other than validating or logging them"""
    fn = step.fn
    out = []
    for b in fn.rpo:
        for ins in b.instrs:
            if ins.op == 'store':
                v = fn.val(ins.ops[0], ins.extra['ty'])
                dst = fn.val(ins.ops[1])
                if step.P.mod.types.size(ins.extra['ty']) > 8:
                    continue
                db = fn.base(dst)[0]
                if db is not None and db[0] == 'alloca':
                    continue
                for a in inputloads(step, v):
                    if a[2] == step.P.msg['ts'][1] and ('ts' in str(step.fieldname(dst)[0])):
                        continue                  # the freshness reference
                    out.append(Use(ins, a[1], poly(a[2]), 'store', dst, v))
            elif ins.op == 'call' and ins.callee and ins.callee not in CHECKS and ins.callee not in LOGS \
                    and ins.callee not in fn.logonly:
                copy = ins.callee.startswith(('llvm.memcpy', 'llvm.memmove')) or ins.callee in ('memcpy', 'memmove')
                for a, n in reads_of(fn, ins):
                    src = a
                    if not fn.within(a, step.argi):
                        src = origin(step, ins, a, n) if n is not None else None
                        if src is None:
                            continue
                    dst = None
                    if copy:
                        dst = fn.val(ins.ops[0])
                        db = fn.base(dst)[0]
                        if db is not None and db[0] == 'alloca':
                            continue
                    if n is not None and n == ZERO:
                        continue
                    out.append(Use(ins, src, n if n is not None else poly(1), 'copy' if copy else ins.callee, dst))
    return out


STRIDE = {'peer_sig_pks': lambda st: poly(32), 'peer_noise_pks': lambda st: poly(32),
          'commitments': lambda st: st.num('t') * 32}


def wanted_sender(step, use):
    """0-based peer the destination of a use belongs to, or None if it belongs to nobody in particular"""
    fn = step.fn
    if use.dst is not None:
        nm, off = step.fieldname(use.dst)
        if nm in STRIDE and not step.start:
            s = STRIDE[nm](step)
            q = divide(off, s)
            return q
        if nm == 'complaints' and use.sink == 'store':
            # (complainer << 8) | accused
            rest = use.val
            for a in inputloads(step, use.val):
                rest = rest - poly(a) * use.val.coef(a)
            q = divide(rest, poly(256))
            return q - 1 if q is not None else None
    if use.sink == 'Noise_XK_session_read':
        sess = fn.val(use.ins.ops[1]).single()
        if sess and sess[0] == 'ld':
            nm, off = step.fieldname(sess[1])
            if nm in ('noise_ins', 'noise_outs'):
                return divide(off, poly(8))
    return None


def divide(p, s):
    """p / s if exact"""
    if p == ZERO:
        return ZERO
    c = s.const()
    if c:
        if all(x % c == 0 for _, x in p.t):
            return Poly({m: x // c for m, x in p.t})
        return None
    if len(s.t) == 1:
        m0, c0 = s.t[0]
        out = {}
        for m, x in p.t:
            r = list(m)
            for a in m0:
                if a not in r:
                    return None
                r.remove(a)
            if x % c0:
                return None
            out[tuple(r)] = x // c0
        return Poly(out)
    return None


ASPECTS = ('signature', 'length', 'type', 'sender', 'recipient', 'session', 'freshness')


def missing(step, st, k, sender=None):
    """what is not established about the message of Known k"""
    P = step.P
    miss = set()
    tot = k.len[0] if k.len else None
    ok = False
    for L, K in k.verify:
        total = L + P.SIG
        if key_ok(step, st, k, L, K) and (not k.len or any(same(st, x, total) for x in k.len)):
            ok = True
            tot = total
    if not ok:
        miss.add('signature')
        if tot is None and k.verify:
            tot = k.verify[0][0] + P.SIG
    if not k.len:
        miss.add('length')
    if not any(x.const() is not None for x in k.msgno):
        miss.add('type')
    if not k.frm or (sender is not None and not any(same(st, x, sender + 1) for x in k.frm)):
        miss.add('sender')
    if not recipient_ok(step, st, k):
        miss.add('recipient')
    if not k.session:
        miss.add('session')
    if not fresh_ok(step, st, k):
        miss.add('freshness')
    return miss, tot


def same(st, a, b):
    return a == b or st.holds(Eq(a, b)) is True


def key_ok(step, st, k, L, K):
    """the key is the session key of the sender"""
    P = step.P
    M = k.M
    if step.role == 'peer':
        if not step.start and K == step.field('tp_sig_pk'):
            return not k.frm or any(x.const() == 0 for x in k.frm)
    if not step.start:
        base = step.ptr('peer_sig_pks')
        if k.frm and any(K == base + (f - 1) * 32 for f in k.frm):
            return True
        b, off = step.fn.base(K)
        if b is not None and poly(b) == base:
            q = divide(off, poly(32))
            if q is None:
                return False
            if not k.frm:
                return True                # the sender itself is judged separately
            return any(same(st, f, q + 1) for f in k.frm)
    if K == M + P.HDR:
        # a key the message itself carries: only where it is taken over as the sender's key
        if step.start:
            return step.role == 'peer' and stores_key(step, step.field('tp_sig_pk'), K)
        if not k.frm:
            return any(True for _ in keystores(step, K))
        f = k.frm[0]
        if not stores_key(step, step.ptr('peer_sig_pks') + (f - 1) * 32, K):
            return False
        if step.role == 'tp':
            base = step.ptr('peer_lt_pks')
            return any(LK == base + (f - 1) * 32 and (LL - (L + P.SIG)).const() is not None and (LL - (L + P.SIG)).const() >= 0
                       for sg, LL, LK in k.ltsig)
        # a peer relies on the trusted party's signature around it
        return enclosed(step, st, k, L + P.SIG)
    return False


def keystores(step, src):
    """[(instruction, destination, length)] of copies from src: calls, and loops copying byte by byte"""
    fn = step.fn
    for ins in fn.calls():
        if ins.callee and ('memcpy' in ins.callee or 'memmove' in ins.callee) and fn.val(ins.ops[1]) == src:
            a = fn.args(ins)
            yield ins, a[0], a[2].const()
    for h in fn.loops:
        k = fn.ivinfo[h]['k']
        hb = fn.f.blocks[h]
        out = [s for s in fn.succ(hb) if s.name not in fn.loops[h]]
        n = [(poly(k) - l[1]).const() for s in out for l, pol in flow.literals(fn.edge_cond(hb, s)) if pol and l[0] == 'ge' and l[1].coef(k) == 1]
        if len(n) != 1 or n[0] is None or sum(1 for b in fn.loops[h] for s in fn.succ(fn.f.blocks[b]) if s.name not in fn.loops[h]) != 1:
            continue
        for b in fn.loops[h]:
            for ins in fn.f.blocks[b].instrs:
                if ins.op == 'store' and ins.extra['ty'] == ('i', 8) and all(fn.dominates(b, l) for l, hh in fn.backedges if hh == h):
                    v = fn.val(ins.ops[0], ins.extra['ty']).single()
                    d = fn.val(ins.ops[1])
                    if v and v[0] == 'ld' and v[1] == src + poly(k) and d.coef(k) == 1:
                        yield ins, d - poly(k), n[0]


def stores_key(step, dst, src):
    return any(d == dst and n == 32 for _, d, n in keystores(step, src))


def enclosed(step, st, k, total):
    P = step.P
    for f, pol in st.facts:
        if not pol or f[0] != 'eq':
            continue
        a = f[1].single() or (-f[1]).single()
        if a and a[0] == 'fn' and a[1] == 'crypto_sign_verify_detached':
            sig, dat, L, K = a[2][:4]
            if K == step.field('tp_sig_pk') and sig + P.SIG == dat and sig != k.M:
                if prove(st.facts, k.M - dat) and prove(st.facts, dat + L - (k.M + total)):
                    return True
    return False


def recipient_ok(step, st, k):
    if not k.to:
        # a peer learns its index from the recipient field of its first message
        return not step.start and step.role == 'peer' and step.s == 0
    for x in k.to:
        if x.const() in (0, 255):
            return True
        if step.role == 'peer':
            if not step.start and x == step.num('index'):
                return True
        elif x.const() is None:
            return True            # relation to the routing is judged by the envelope rule
    return False


def slot_of(step, k):
    """address of the timestamp reference of the sender"""
    out = []
    for f in k.frm or ():
        if f.const() == 0 and step.role == 'peer':
            out.append(step.field('tp_last_ts'))
        elif not step.start:
            out.append(step.ptr('last_ts') + (f - 1) * 8)
    return out


def fresh_ok(step, st, k):
    if not k.ts:
        return False
    sl = slot_of(step, k)
    if not sl:
        return True
    return any(t in sl or any(same(st, t, x) for x in sl) for t in k.ts)


def judge(step, use, strong=False):
    """[(state, missing aspects, message)] per state before the use; empty missing = fully accepted"""
    fn = step.fn
    cands = step.cands
    snd = wanted_sender(step, use)
    res = []
    for st in step.states(use.ins, strong):
        best = None
        for M in cands:
            d = use.lo - M
            if d.const() is not None:
                if d.const() < 0:
                    continue
            elif not prove(st.facts, d):
                continue
            k = Known(step.P, step, st, M)
            if not (k.verify or k.len or k.msgno or k.frm or k.session):
                continue
            miss, tot = missing(step, st, k, snd)
            if tot is None or not prove(st.facts, M + tot - use.lo - use.size):
                continue
            if snd is not None and k.frm and 'sender' in miss:
                miss = set(ASPECTS)         # a message of somebody else says nothing about this sender
            if best is None or len(miss) < len(best[0]):
                best = (miss, M)
        if best is None:
            w = tiled(step, st, use) if strong else None
            best = (set(), w) if w is not None else (set(ASPECTS), None)
        res.append((st, best[0], best[1]))
    return res


def tiled(step, st, use):
    """the whole range is a sequence of accepted messages established by completed loops"""
    for tot, M, ext in families(step, st):
        if M == use.lo and same(st, ext, use.size):
            return M
    return None


def families(step, st):
    """[(message size, first address, extent)] of runs of accepted messages established by loops"""
    out = []
    bound = step.num('n')
    s2 = strip(st, bound)
    ks = []
    for f in st.facts:
        g = f
        while g[0][0] == 'all':
            if g[0][1] not in ks:
                ks.append(g[0][1])
            g = g[0][3]
    for M in step.cands:
        k = Known(step.P, step, s2, M)
        miss, tot = missing(step, s2, k)
        if miss or tot is None:
            out.append((tot, M, None, miss))
            continue
        kk = [a for a in M.aset() if a in ks]
        nest = sum(1 for m, c in M.t if any(a in ks for a in m))
        base = M
        for a in kk:
            base = base.subst(a, 0)
        strides = []
        rest = M - base
        for a in kk:
            s = Poly({tuple(x for x in m if x != a): c for m, c in rest.t if a in m})
            strides.append((s, a))
        out.append((tot, base, tile(st, strides, tot, bound), miss))
    return [(t, b, e) for t, b, e, m in out if e is not None]


def tile(st, strides, tot, n):
    """extent of the region tiled by messages of size tot at the given strides (each counting n), or None"""
    cur = tot
    left = list(strides)
    first = True
    while left:
        for s, a in left:
            if s == cur or (first and (s - cur).const() in (0, 64)):
                cur = s * n
                left.remove((s, a))
                first = False
                break
        else:
            return None
    return cur


# ---------------------------------------------------------------- the steps of a run
TP_STEPS = range(0, 10)
PEER_STEPS = range(0, 11)


def load(R):
    P = Proto()
    R.sources = P.sources
    return P


def receiving(P):
    """every step that takes input"""
    out = [Step(P, 'peer', 'start')]
    for s in range(0, 12):
        for role in ('tp', 'peer'):
            st = Step(P, role, s)
            out.append(st)
    for st in out:
        st.cands = candidates(P, st.fn, st.argi)
    return out


def complete(step):
    """per successful outcome: None if the input is empty, else the accepted runs of messages that make up
    the whole input ([] if there is no such run)"""
    out = []
    if step.argi is None:
        return out
    n = None if step.start else step.fn.arg(step.argi + 1)
    for r, st in step.all.success_states():
        if n is not None and prove(st.facts, -n):
            out.append((r, st, None))
            continue
        fam = []
        for M in step.cands:
            if M == step.input:
                k = Known(step.P, step, st, M)
                miss, tot = missing(step, st, k)
                if not miss and (n is None or same(st, tot, n)):
                    fam.append((M, k))
        if not fam and n is not None:
            for tot, M, ext in families(step, st):
                if M == step.input and same(st, ext, n):
                    fam.append((M, None))
        out.append((r, st, fam))
    return out


WHAT = {'signature': 'the signature over the whole message under the sender\'s key', 'length': 'the declared length',
        'type': 'the message type', 'sender': 'the sender', 'recipient': 'the recipient', 'session': 'the session id',
        'freshness': 'the timestamp'}


def report_uses(R, steps, aspects, rule, floor):
    """every use of received bytes happens with the given aspects of the message established"""
    for step in steps:
        for u in uses(step):
            where = step.fn.where(u.ins)
            res = judge(step, u)
            if any(m for _, m, _ in res):
                res = judge(step, u, True)
            if not res:
                continue
            miss = set()
            for _, m, _ in res:
                miss |= m & set(aspects)
            R.ok(not miss, rule, '%s, %s' % (step.name, where),
                 'received bytes reach %s without having checked: %s'
                 % (sinkname(step, u), ', '.join(WHAT[m] for m in ASPECTS if m in miss)))
    R.floor(rule, floor)


def sinkname(step, u):
    if u.dst is not None:
        nm = step.fieldname(u.dst)[0]
        if nm:
            return 'state field ' + nm
        if step.output is not None and step.fn.within(u.dst, step.argo):
            return 'the output'
        return 'memory'
    return u.sink


def report_complete(R, steps, rule, aspects, floor):
    """a step that succeeds has accepted every message of its input"""
    for step in steps:
        for r, st, fam in complete(step):
            if fam is None or step.name in ('peer step 10', 'tp step 10'):
                continue
            where = '%s, %s' % (step.name, step.fn.where(r))
            if fam:
                R.ok(True, rule, where, '')
                continue
            # which aspects are missing for the best candidate
            s2 = strip(st, step.num('n')) if not step.start else st
            best = None
            for M in step.cands:
                k = Known(step.P, step, s2, M)
                if not (k.verify or k.len or k.msgno or k.frm or k.session):
                    continue
                miss, tot = missing(step, s2, k)
                if best is None or len(miss) < len(best):
                    best = miss
            if best is None or not best:
                best = set(ASPECTS)
            hit = best & set(aspects)
            R.ok(not hit, rule, where, 'the step can succeed without having checked, for every received message: '
                 + ', '.join(WHAT[m] for m in ASPECTS if m in hit))
    R.floor(rule, floor)
