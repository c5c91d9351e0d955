"""P12 group size, threshold and identity limits are enforced by both roles"""
TECHNIQUE = 'must-fact dataflow: linear bounds entailed at every successful return, over inlined LLVM IR'
NOTE = 'all paths of both start functions and of every step writing the limits'
from proto import *
from common import *


def ge0(st, p):
    return prove(st.facts, p) or st.holds(Ge(p)) is True


def check(R):
    R.rule('limits', 'every successful start establishes 2 <= t < n <= 128 for the values kept as group size and threshold')
    R.rule('name', 'the trusted party starts only with 1..1024 bytes of protocol name and a first message buffer of its exact size')
    R.rule('index', 'a step that assigns the peer its index succeeds only with an index between 1 and n')
    R.rule('kept', 'group size, threshold and index are not changed by any other step')
    P = Proto()
    R.sources = P.sources
    for role in ('tp', 'peer'):
        S = Step(P, role, 'start')
        fn = S.fn
        cells = {x: (S.field(x), P.of(role)[x][1]) for x in ('n', 't')}
        F = Facts(fn, watch(fn, cells, S.hook), S.track, S.init)
        ok = F.success_states()
        if not ok:
            R.broken('%s never succeeds' % S.name)
        for r, st in ok:
            n, t = value(st, 'n'), value(st, 't')
            w = fn.where(r)
            if not R.ok(n is not None and t is not None, 'limits', S.name, '%s: group size or threshold is not kept' % S.name):
                continue
            for p, text in ((t - 2, 'a threshold below 2'), (n - t - 1, 'a threshold not below the group size'),
                            (poly(128) - n, 'more than 128 peers')):
                R.ok(ge0(st, p), 'limits', S.name, '%s: succeeds with %s' % (S.name, text))
            if role == 'tp':
                l, m = fn.arg(5), fn.arg(6)
                R.ok(ge0(st, l - 1), 'name', S.name, 'tp start: succeeds with an empty protocol name')
                R.ok(ge0(st, poly(1024) - l), 'name', S.name, 'tp start: succeeds with a protocol name longer than 1024 bytes')
                R.ok(st.holds(Eq(m, P.HDR + 32 + 32 + 2)) is True, 'name', S.name, 'tp start: succeeds with a wrong size of the first message buffer')
                R.ok(n == fn.arg(2) and t == fn.arg(3), 'limits', S.name, 'tp start: keeps another group size or threshold than the requested one')
    assigned = 0
    for role in ('tp', 'peer'):
        for s in range(0, 10 if role == 'tp' else 11):
            S = Step(P, role, s)
            fn = S.fn
            for nm in ('n', 't') + (('index',) if role == 'peer' else ()):
                a, size = S.field(nm), P.of(role)[nm][1]
                ws = [ins for b in fn.rpo for ins in b.instrs if ins.op in ('store', 'call')
                      for w in fn.writes_of(ins) if w[1] == fn.base(a)[0] and not fn.disjoint(a, size, w[2], w[3])]
                if nm == 'index' and ws and s == 0:
                    assigned += 1
                    F = Facts(fn, watch(fn, {'index': (a, size)}, S.hook), S.track, S.init)
                    for r, st in F.success_states():
                        v = value(st, 'index')
                        w = fn.where(ws[0])
                        n = S.num('n')
                        R.ok(v is not None and ge0(st, v - 1), 'index', w, '%s: accepts an index below 1' % S.name)
                        R.ok(v is not None and ge0(st, n - v), 'index', w, '%s: accepts an index above the group size' % S.name)
                else:
                    R.saw('kept', '%s %s' % (S.name, nm))
                    for ins in ws:
                        R.bad('kept', fn.where(ins), '%s: changes %s' % (S.name, nm))
    if not assigned:
        R.broken('no peer step assigns the index')
    R.floor('limits', 6)
    R.floor('index', 2)
