"""P08 one transcript for all"""
from msgs import *
from common import *
from emit import sigs, header, outwrites
from flow import Facts
from proto import cell

TECHNIQUE = 'sequence (effect) analysis of the transcript hash per step and role, compared between the roles, plus must-facts of the final comparison'
NOTE = 'all successful paths of every step and of both start functions; hash collisions are out of scope'
UPD, INI, FIN = 'crypto_generichash_update', 'crypto_generichash_init', 'crypto_generichash_final'


def describe(step, ins):
    """what a call does to the transcript, or None"""
    fn = step.fn
    tr = step.field('transcript')
    if ins.op == 'call' and ins.callee in (UPD, INI, FIN) and fn.val(ins.ops[0]) == tr:
        a = fn.args(ins)
        if ins.callee == INI:
            return ('init', a[1], a[2], a[3])
        if ins.callee == FIN:
            return ('final', a[1], a[2])
        g = fn.globbytes(a[1])
        if g is not None and a[2].const() is not None:
            return ('const', bytes(g[:a[2].const()]))
        if a[2].const() == 4:
            v = fn.load_at(ins, a[1], 4)
            s = v.single()
            if v.const() is not None:
                return ('len', poly(int.from_bytes((v.const() % 2 ** 32).to_bytes(4, 'little'), 'big')))
            if s and s[0] == 'op' and s[1] == 'bswap':
                v = poly(s[3])
                while v.single() and v.single()[0] in ('trunc', 'zext'):
                    v = poly(v.single()[2])
                return ('len', v)
            v = spelled(fn, ins, a[1])
            if v is not None:
                return ('len', v)
        return ('data', a[1], a[2])
    for (_, base, addr, size, kind) in fn.writes_of(ins):
        if base is not None and poly(base) == step.ctx and not fn.disjoint(tr, step.F['transcript'][1], addr, size):
            return ('other', fn.where(ins))
    return None


def spelled(fn, ins, addr):
    """the number whose four bytes were put there one by one, most significant first"""
    bs = [fn.load_at(ins, addr + j, 1) for j in range(4)]
    cs = [b.const() for b in bs]
    if None not in cs:
        return poly(int.from_bytes(bytes(c % 256 for c in cs), 'big'))

    def bare(v, more=()):
        while v.single() and (v.single()[0] in ('trunc', 'zext') or (v.single()[0] == 'op' and v.single()[1] in more and poly(255) in v.single()[2:])):
            a = v.single()
            v = poly(a[2]) if a[0] != 'op' else poly(next(x for x in a[2:] if poly(x) != poly(255)))
        return v
    x = bare(bs[3], ('and',))
    for j in range(3):
        a = bare(bs[j], ('and',)).single()
        if not a or a[:2] != ('op', 'lshr') or poly(a[3]).const() != 24 - 8 * j or bare(poly(a[2])) != x:
            return None
    return x


def sequences(step):
    """[(ret, state, events)] for successful paths; events in order"""
    fn = step.fn

    def hook(st, ins):
        st = step.hook(st, ins)
        if st is None:
            return None
        ev = describe(step, ins) if ins.op in ('call', 'store') else None
        seq = get(st)
        if ev is not None:
            seq = seq + (ev,) if len(seq) < 8 else seq[:8] + (('many',),)
        elif seq and step.argo is not None and any(e[0] == 'data' and fn.within(e[1], step.argo) for e in seq) \
                and ins.op in ('call', 'store') and seq[-1] != ('changed',):
            if any(fn.within(w[2], step.argo) for w in fn.writes_of(ins)):
                seq = seq + (('changed',),)
        if seq != get(st):
            st = State(st.facts, frozenset(t for t in st.must if t[0] != 'seq') | {('seq', seq)}, st.may)
        return st
    F = Facts(fn, hook, lambda st: (step.track(st), get(st)), State(step.init.facts, step.init.must | {('seq', ())}, step.init.may))
    return [(r, st, get(st)) for r, st in F.success_states()]


def get(st):
    for t in st.must:
        if t[0] == 'seq':
            return t[1]
    return (('lost',),)


def text(seq):
    return ', '.join(' '.join(show(x) if isinstance(x, Poly) else str(x) for x in e) for e in seq) or 'nothing'


def framed(st, step, seq, M, L):
    """exactly the length and the whole message"""
    if len(seq) != 2 or seq[0][0] != 'len' or seq[1][0] != 'data':
        return False
    return seq[1][1] == M and same(st, seq[1][2], L) and same(st, seq[0][1], L)


def check(R):
    P = load(R)
    R.rule('start', 'both roles initialise the transcript the same way, absorb the same label, then the framed parameter broadcast')
    R.rule('absorb', 'a step that sends or accepts a broadcast absorbs, on every successful path and in this order, its 32-bit '
                     'big-endian length and the whole message, once, and does not change the message afterwards')
    R.rule('nothing else', 'other steps leave the transcript alone')
    R.rule('report', 'the peer reports the finished transcript hash in full')
    R.rule('agree', 'approval is signed, and the step succeeds, only if every accepted report equals the own hash in all bytes; '
                    'after any violation the signed verdict is NO')
    starts = {}
    for role in ('tp', 'peer'):
        step = Step(P, role, 'start')
        M = step.output if role == 'tp' else step.input
        n = 0
        for r, st, seq in sequences(step):
            n += 1
            where = '%s, %s' % (step.name, step.fn.where(r))
            L = None
            if role == 'peer':
                k = Known(P, step, st, M)
                L = k.len[0] if k.len else None
            else:
                for S in sigs(step):
                    if S.M == M:
                        L = S.total
            ok = len(seq) == 4 and seq[0][0] == 'init' and seq[1][0] == 'const' and L is not None and framed(st, step, seq[2:], M, L)
            R.ok(ok, 'start', where, 'the transcript starts with: ' + text(seq))
            starts.setdefault(role, []).append(seq[:2])
    a, b = starts.get('tp', []), starts.get('peer', [])
    R.ok(bool(a) and bool(b) and len(set(a + b)) == 1, 'start', 'both start functions', 'the roles start the transcript differently: %s'
         % ' / '.join(sorted({text(x) for x in a + b})))
    R.floor('start', 3)
    for s in range(0, 12):
        for role in ('tp', 'peer'):
            step = Step(P, role, s)
            step.cands = candidates(P, step.fn, step.argi)
            fn = step.fn
            for r, st, seq in sequences(step):
                where = '%s, %s' % (step.name, fn.where(r))
                M = L = None
                if role == 'tp':
                    for S in sigs(step):
                        if S.M == step.output and S.kind == 'session' and s != 8:
                            h = header(step, S)
                            if h['to'] is not None and h['to'].const() == 255:
                                M, L = S.M, S.total
                elif s != 9:
                    k = Known(P, step, st, step.input)
                    if k.to and k.to[0].const() == 255 and k.frm and k.frm[0].const() == 0:
                        M, L = step.input, (k.len[0] if k.len else fn.arg(step.argi + 1))
                if M is not None:
                    R.ok(framed(st, step, seq, M, L), 'absorb', where, 'the broadcast is not absorbed whole and framed, exactly once: ' + text(seq))
                elif s == 8:
                    ok = len(seq) == 1 and seq[0][0] == 'final'
                    R.ok(ok, 'report', where, 'the transcript is not just finished: ' + text(seq))
                    if role == 'peer' and ok:
                        full = any(S.M == step.output and seq[0][1] == step.output + P.HDR and seq[0][2].const() == 32
                                   and same(st, S.total, poly(P.HDR + 32)) for S in sigs(step))
                        R.ok(full, 'report', where, 'the reported hash is not the whole content of the signed message')
                else:
                    R.ok(not seq, 'nothing else', where, 'the transcript is touched: ' + text(seq))
            if role == 'tp' and s == 8:
                verdict(R, P, step)
    R.floor('absorb', 6)
    R.floor('report', 2)
    R.floor('nothing else', 6)
    R.floor('agree', 2)


def verdict(R, P, step):
    fn = step.fn
    D = step.output + P.HDR

    def word(st):
        for t in st.must:
            if t[0] == 'word':
                return t[1]
        return None

    def hook(st, ins):
        st = step.hook(st, ins)
        if st is None or ins.op not in ('call', 'store'):
            return st
        for (_, base, addr, size, kind) in fn.writes_of(ins):
            if base is None or poly(base) != fn.arg(step.argo) or fn.disjoint(D, 2, addr, size):
                continue
            v = list(word(st) or (None, None))
            o = (addr - D).const()
            src = None
            if ins.op == 'store':
                x = fn.val(ins.ops[0], ins.extra['ty'])
                c = x.const() if x.const() is not None else st.known(x)
                sz = P.mod.types.size(ins.extra['ty'])
                if c is not None:
                    src = (c % (1 << 8 * sz)).to_bytes(sz, 'little')
            elif 'memcpy' in ins.callee or 'memmove' in ins.callee:
                n = fn.val(ins.ops[2], ins.extra['argty'][2]).const()
                g = fn.globbytes(st.resolve(fn.val(ins.ops[1])))
                if n is not None and g is not None:
                    src = bytes(g[:n])
            if o is None or src is None:
                v = [None, None]
            else:
                for j, x in enumerate(src):
                    if 0 <= o + j < 2:
                        v[o + j] = x
            st = State(st.facts, frozenset(t for t in st.must if t[0] != 'word') | {('word', tuple(v))}, st.may)
        return st
    F = flow.forall_facts(fn, hook, lambda st: (step.track(st), word(st)), step.init, lambda st: 'rec' in st.may)
    hashes = [fn.args(i)[1] for i in fn.calls(FIN) if fn.val(i.ops[0]) == step.field('transcript')]

    def all_equal(st):
        s2 = strip(st, step.num('n'))
        for M in step.cands:
            k = Known(P, step, s2, M)
            miss, tot = missing(step, s2, k)
            if miss:
                continue
            for f, pol in s2.facts:
                if pol and f[0] == 'eq':
                    a = f[1].single() or (-f[1]).single()
                    if a and a[0] == 'fn' and a[1] in flow.MEMCMP:
                        n = a[2][2].const() if len(a[2]) > 2 else 32
                        x = {a[2][0], a[2][1]}
                        if n == 32 and M + P.HDR in x and any(h in x for h in hashes):
                            return True
        return False
    for S in sigs(step):
        for st in F.states_before(S.ins):
            w = word(st)
            if 'rec' in st.may:
                R.ok(w == (ord('N'), ord('O')), 'agree', S.where, 'after a violation the verdict signed is %s' % (w,))
            else:
                R.ok(all_equal(st), 'agree', S.where, 'a verdict is signed without every reported hash having been compared in full')
                R.ok(w == (ord('O'), ord('K')), 'agree', S.where, 'without violation the verdict signed is %s' % (w,))
    for r, st in F.success_states():
        R.ok('rec' not in st.may and all_equal(st), 'agree', '%s, %s' % (step.name, fn.where(r)),
             'the step succeeds without every reported hash having been compared in full')
