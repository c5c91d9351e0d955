"""P07 the key share is assembled only after authenticated approval"""
from msgs import *
from common import *
from proto import cell, cells, cellhook
import p17

TECHNIQUE = 'must-fact dataflow at every write to the share and at every change of the step counter, over inlined LLVM IR'
NOTE = 'all paths of every step of a peer'


def approval(P, step, st, M):
    """the content of the message is known to be the approval word"""
    D = M + P.HDR
    word = b'OK'
    got = {}
    for f, pol in st.facts:
        if not pol or f[0] != 'eq':
            continue
        a = f[1].single() or (-f[1]).single()
        if a and a[0] == 'fn' and a[1] in flow.MEMCMP | {'strncmp'} and len(a[2]) > 2 and a[2][2].const() == 2:
            x, y = a[2][0], a[2][1]
            for p, q in ((x, y), (y, x)):
                if p == D:
                    b = step.fn.globbytes(q)
                    if b is not None and bytes(b[:2]) == word:
                        return True
        for a in f[1].aset():
            if a[0] == 'ld' and f[1].coef(a) in (1, -1):
                o = (a[1] - D).const()
                v = (poly(a) - f[1] * f[1].coef(a)).const()
                if o is not None and v is not None and 0 <= o < 2:
                    for j, byte in enumerate((v % (1 << 8 * a[2])).to_bytes(a[2], 'little')):
                        got[o + j] = byte
    return got.get(0) == word[0] and got.get(1) == word[1]


def accepted(P, step, st):
    """the whole input is an accepted message from the trusted party carrying exactly the approval word"""
    M = step.input
    k = Known(P, step, st, M)
    miss, tot = missing(step, st, k)
    if miss:
        return 'the message was not accepted (%s)' % ', '.join(sorted(miss))
    if not any(f.const() == 0 for f in k.frm):
        return 'the message need not come from the trusted party'
    if not any(x.const() == P.HDR + 2 for x in k.len) and not (tot is not None and st.known(tot) == P.HDR + 2):
        return 'the message may have other content besides the approval word'
    if not approval(P, step, st, M):
        return 'the content is not known to be the approval word'
    return None


def check(R):
    P = load(R)
    R.rule('share', 'the share is written only in the closing step, in states in which the whole input is an accepted message of '
                    'the trusted party whose content was compared equal to the approval word')
    R.rule('closing', 'the closing step succeeds only in such states')
    R.rule('route', 'the counter reaches the closing steps only from the complaint step with no complaint known')
    R.rule('kept', 'the number of known complaints starts at 0 and is only ever increased by one')
    R.rule('pairs', 'complaints are kept and counted as (sender of the message, accused)')
    R.rule('collected', 'the complaint step succeeds only after each complaint of each message was kept')
    p17.collecting(R, P, 'peer', False)
    steps = [Step(P, 'peer', 'start')] + [Step(P, 'peer', s) for s in range(0, 12)]
    for step in steps:
        fn = step.fn
        off, size = step.F['share']
        sh = step.field('share')
        for b in fn.rpo:
            for i in b.instrs:
                for (_, base, addr, sz, kind) in fn.writes_of(i):
                    if base is None or poly(base) != step.ctx or fn.disjoint(sh, size, addr, sz):
                        continue
                    sts = step.facts.states_before(i)
                    if not sts:
                        continue
                    where = '%s, %s' % (step.name, fn.where(i))
                    why = None
                    if step.s != 9:
                        why = 'the share is written outside the closing step'
                    else:
                        for st in sts:
                            why = why or accepted(P, step, st)
                    R.ok(why is None, 'share', where, why)
        if step.s == 9:
            for r, st in step.facts.success_states():
                why = accepted(P, step, st)
                R.ok(why is None, 'closing', '%s, %s' % (step.name, fn.where(r)), 'the closing step can succeed although ' + str(why))
        if not step.start:
            for r, st, c in [(r, t, c) for r, st, v in step.facts.returns() for t, c in cells(st, 'step')]:
                at = (step.field('complaints_len'), step.F['complaints_len'][1])
                cl = {fn.load_at(r, *at)} | final_loads(fn, *at)
                where = '%s, %s' % (step.name, fn.where(r))
                if c is None:
                    R.ok(False, 'route', where, 'the next step is unknown')
                elif c in (8, 9):
                    if step.s == 6:
                        R.ok(c == 8 and any(st.holds(Eq(v)) is True for v in cl), 'route', where, 'goes on to the closing steps though there may be complaints')
                    else:
                        R.ok((step.s, c) == (8, 9), 'route', where, 'step %s leads to the closing step %d' % (step.s, c))
                elif c == 7:
                    R.ok(step.s == 6 and any(st.holds(Eq(v)) is False for v in cl), 'route', where, 'enters the dispute step without complaint')
                else:
                    R.saw('route', where)
        # the count of complaints
        clf = step.field('complaints_len')
        n = step.F['complaints_len'][1]
        for b in fn.rpo:
            for i in b.instrs:
                for (_, base, addr, sz, kind) in fn.writes_of(i):
                    if base is None or poly(base) != step.ctx or fn.disjoint(clf, n, addr, sz):
                        continue
                    where = '%s, %s' % (step.name, fn.where(i))
                    if step.start:
                        R.ok(i.op == 'store' and fn.val(i.ops[0], i.extra['ty']) == ZERO, 'kept', where, 'the count of complaints does not start at 0')
                        continue
                    ok = False
                    if i.op == 'store' and addr == clf:
                        d = unwrap(fn.val(i.ops[0], i.extra['ty']) - fn.load_at(i, clf, n), fn.val(i.ops[0], i.extra['ty']), fn.load_at(i, clf, n))
                        ok = d
                    R.ok(ok, 'kept', where, 'the count of known complaints is changed other than by adding one')
        if step.start:
            F = flow.Facts(fn, cellhook(fn, {'c': (clf, n)}))
            for r, st in F.success_states():
                R.ok(cell(st, 'c') == 0, 'kept', 'peer start, ' + fn.where(r), 'the count of complaints does not start at 0')
    R.floor('share', 1)
    R.floor('closing', 1)
    R.floor('route', 12)
    R.floor('kept', 2)
    R.floor('collected', 2)


def unwrap(d, new, old):
    if d == ONE:
        return True
    a = new.single()
    if a and a[0] == 'trunc':
        p = poly(a[2])
        return p - old == ONE
    return False
