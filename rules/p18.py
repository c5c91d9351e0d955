"""P18 every recorded violation has an explanation naming the culprit"""
TECHNIQUE = 'value sets of the recorded codes over inlined LLVM IR, and constant propagation of each code through the reporting function'
NOTE = 'every (step, reason) pair any step of the trusted party can record, on every path of the reporting function'
from proto import *
from common import *

REPORT = 'tpdkg_cheater_msg'
PRINTS = {'snprintf': 2}


def valueset(fn, v, seen=()):
    """constants a value can be, by its merges and selections; None if open"""
    v = poly(v)
    c = v.const()
    if c is not None:
        return {c}
    ats = list(v.aset())
    if len(ats) == 1 and v.coef(ats[0]) and v == poly(ats[0]) * v.coef(ats[0]) + v.c0():
        a = ats[0]
        s = None
        if a in seen or a[0] == 'undef':
            return set()
        if a[0] == 'phi' and a[2] in fn.f.defs:
            d = fn.f.defs[a[2]]
            s = set()
            for o, bn in zip(d.ops, d.extra['blocks']):
                if bn not in fn.alive or (bn, d.block.name) in fn.dead_edges:
                    continue
                x = valueset(fn, fn.val(o, d.ty), seen + (a,))
                if x is None:
                    return None
                s |= x
        elif a[0] == 'ite':
            x, y = valueset(fn, a[2], seen), valueset(fn, a[3], seen)
            s = x | y if x is not None and y is not None else None
        elif a[0] in ('zext', 'sext', 'trunc'):
            s = valueset(fn, a[2], seen)
            if s is not None and a[0] == 'trunc':
                s = {x % (1 << a[1]) for x in s}
        elif a[0] == 'b2i':
            s = {0, 1}
        if s is None:
            lo, hi = arange(a)
            if lo is not None and hi is not None and hi - lo < 64:
                s = set(range(lo, hi + 1))
        if s is None or len(s) > 300:
            return None
        return {x * v.coef(a) + v.c0() for x in s}
    return None


def recfield(step, ins):
    """(field, value) of a store into the violator list"""
    fn = step.fn
    b, off = fn.base(fn.val(ins.ops[1]))
    if b is None or poly(b) != step.ptr('cheaters'):
        return None
    csz = step.P.size('TP_DKG_Cheater')
    for nm, (o, sz) in step.P.cheater.items():
        if all(x % csz == 0 for _, x in (off - o).t) and step.P.mod.types.size(ins.extra['ty']) == sz:
            return nm, fn.val(ins.ops[0], ins.extra['ty'])
    return '?', None


def recorded(P):
    """[(Step, store of the reason, {(step, reason)}, states, reason value)] for everything that can be recorded"""
    out = []
    for s in range(0, 11):
        S = Step(P, 'tp', s)
        fn = S.fn
        st = [(i, recfield(S, i)) for b in fn.rpo for i in b.instrs if i.op == 'store']
        st = [(i, r) for i, r in st if r]
        if not st:
            continue
        nos = set()
        for i, (nm, v) in st:
            if nm == 'step':
                for x in S.facts.states_before(i):
                    k = v.const() if v.const() is not None else x.known(v)
                    nos |= {k} if k is not None else (valueset(fn, v) or {None})
        for i, (nm, v) in st:
            if nm != 'error':
                continue
            sts = S.facts.states_before(i)
            if not sts:
                continue
            vs = valueset(fn, v)
            if vs is not None:
                vs = {c for c in vs if any(x.holds(Eq(v, c)) is not False for x in sts)}
            out.append((S, i, nos, vs, sts, v))
    return out


class Explain:
    """what the reporting function does with a (step, reason) pair"""

    def __init__(self, P):
        self.P = P
        if REPORT not in P.mod.fns or not P.mod.fns[REPORT].blocks:
            raise Broken('the reporting function vanished')
        self.memo = {}
        self.where = None
        self.fallback = set()
        for s in (0, 1, 2, 3, 4, 5, 6, 8, 12, 14, 16, 18, 20, 22, 77):
            for e in (1000, 251):
                for cul, fmt, args, strs in self.of(s, e):
                    if cul == 'nobody':
                        self.fallback.add(fmt)
        # the text for an unknown validation result
        self.unknown = set()
        if 'tpdkg_recv_err' in P.mod.fns and P.mod.fns['tpdkg_recv_err'].blocks:
            fn = P.func('tpdkg_recv_err')
            track, edge = split_at(fn, [r.ops[0] for r in fn.rets()])
            for r, st, v in Facts(fn, None, track, assume(State(), Eq(fn.arg(0), 1000)), edge).returns():
                self.unknown |= strings(fn, v, st)

    def of(self, step, err):
        """[(culprit, format, values printed, strings printed)] over all ways through"""
        k = (step, err)
        if k in self.memo:
            return self.memo[k]
        P = self.P
        C = P.cheater
        fn = Fn(P.mod, REPORT, {(0, C['step'][0], C['step'][1]): step, (0, C['error'][0], C['error'][1]): err}, ['c', 'out', 'outlen'])
        self.where = self.where or fn.where(fn.rets()[0])

        def hook(st, ins):
            if ins.op == 'call' and ins.callee in PRINTS:
                a = fn.args(ins)
                g = fn.globbytes(a[PRINTS[ins.callee]])
                ss = []
                for x in a[PRINTS[ins.callee] + 1:]:
                    s = strings(fn, x, st)
                    if s:
                        ss.append(frozenset(s))
                ok = a[0] == fn.arg(1) and a[1] == fn.arg(2)
                f = bytes(g).split(b'\0')[0] if g is not None and ok else None
                st = State(st.facts, frozenset(t for t in st.must if t[0] != 'fmt') | {
                    ('fmt', f, tuple(a[PRINTS[ins.callee] + 1:]), tuple(ss), ins.uid)}, st.may)
            return st
        out = []
        for r, st, v in Facts(fn, hook, lambda st: frozenset(t for t in st.must if t[0] == 'fmt')).returns():
            t = [t for t in st.must if t[0] == 'fmt']
            v = st.resolve(v)
            cul = None
            if v.const() == 0 or st.known(v) == 0:
                cul = 'nobody'
            a = v.single()
            while a and a[0] in ('zext', 'trunc'):
                a = poly(a[2]).single()
            if a and a[0] == 'ld':
                for nm in ('peer', 'other_peer'):
                    if a[1] == fn.arg(0) + C[nm][0] and a[2] == C[nm][1]:
                        cul = nm
            printed = set()
            if t:
                for p in t[0][2]:
                    for nm in ('peer', 'other_peer'):
                        if any(x[0] == 'ld' and x[1] == fn.arg(0) + C[nm][0] for x in all_atoms(p)):
                            printed.add(nm)
            out.append((cul, t[0][1] if t else None, frozenset(printed), t[0][3] if t else ()))
        self.memo[k] = out
        return out


def strings(fn, x, st):
    """string constants a pointer can be"""
    x = st.resolve(poly(x))
    g = fn.globbytes(x)
    if g is not None:
        return {bytes(g).split(b'\0')[0]}
    a = x.single()
    out = set()
    if a and a[0] == 'phi':
        d = fn.f.defs[a[2]]
        for o, bn in zip(d.ops, d.extra['blocks']):
            via = {t[2] for t in st.must if t[:2] == ('via', d.block.name)}
            if bn in fn.alive and (bn, d.block.name) not in fn.dead_edges and (not via or bn in via):
                out |= strings(fn, fn.val(o, d.ty), st)
    elif a and a[0] == 'ite':
        out = strings(fn, a[2], st) | strings(fn, a[3], st)
    elif a and a[0] == 'ld':
        b, off = fn.base(a[1])
        t = fn.mod.globals.get(b[1], {}).get('ptrs') if b and b[0] == 'glob' else None
        o = st.resolve(off).const() if t else None
        if o is not None and o % 8 == 0 and 0 <= o < 8 * len(t) and t[o // 8]:
            out = strings(fn, ('glob', t[o // 8].strip('"')), st)
    return out


def check(R):
    R.rule('known', 'the reason recorded is one of finitely many values')
    R.rule('specific', 'for every recorded pair every way through the reporting function prints an explanation that is not the one for unknown codes')
    R.rule('culprit', 'and returns, and prints, the index of the culprit; only the report without single culprit names nobody; '
           'in a dispute the complainer is blamed if the revealed share verified, otherwise the accused')
    R.rule('reason', 'the printed reason for a message that failed validation is the same text for the same cause wherever it was recorded')
    P = Proto()
    R.sources = P.sources
    X = Explain(P)
    causes = {}
    for S, ins, nos, vs, sts, v in recorded(P):
        fn = S.fn
        w = '%s, %s' % (S.name, fn.where(ins))
        if not R.ok(vs is not None and None not in nos and nos, 'known', w, 'records a step or reason that cannot be enumerated: %s' % show(v)):
            continue
        peers = [fn.val(i.ops[0], i.extra['ty']) for i in ins.block.instrs if i.op == 'store' and (recfield(S, i) or ('',))[0] == 'peer']
        anonymous = bool(peers) and all(p.const() is not None and p.const() > 128 for p in peers)
        ats = list(v.aset())
        for no in sorted(nos):
            for e in sorted(vs):
                for cul, fmt, printed, strs in X.of(no, e):
                    t = 'step %d, reason %d' % (no, e)
                    R.ok(fmt is not None and fmt not in X.fallback and not any(s & X.unknown for s in strs), 'specific', w,
                         '%s is reported as %s %s' % (t, fmt, [sorted(s) for s in strs] or ''))
                    if anonymous:
                        R.ok(cul == 'nobody', 'culprit', w, '%s has no single culprit but the report names one' % t)
                    else:
                        R.ok(cul in ('peer', 'other_peer') and cul in printed, 'culprit', w, '%s: the report %s' % (
                            t, 'names nobody' if cul == 'nobody' else 'returns something else than the culprit' if cul is None else 'does not mention the culprit'))
                        R.ok(cul != 'other_peer' or S.s == 7, 'culprit', w, '%s: the report blames the recipient of a message' % t)
                    if ats and strs:
                        causes.setdefault(e - v.c0(), set()).add((strs, w, t))
    from p17 import dispute
    dispute(R, P, X, 'culprit')
    texts = {}
    for c, l in sorted(causes.items()):
        s = {x[0] for x in l}
        R.ok(len(s) == 1, 'reason', REPORT, 'validation result %d is explained differently: %s' % (c, '; '.join(sorted({'%s: %s' % (x[2], b' '.join(sorted(x[0][0])).decode()) for x in l}))))
        for x in s:
            texts.setdefault(x, set()).add(c)
    for x, cs in texts.items():
        R.ok(len(cs) == 1, 'reason', REPORT, 'validation results %s have the same explanation' % sorted(cs))
    R.floor('specific', 40)
    R.floor('culprit', 40)
    R.floor('reason', 6)
