"""P06 a failed step is final"""
from msgs import *
from common import *
from proto import cells

TECHNIQUE = 'typestate of the step counter: its value is followed along all paths of the inlined step functions'
NOTE = 'all paths of every step of both roles, all counter values a step can leave behind; the done predicate is evaluated by constant folding'


def check(R):
    P = load(R)
    R.rule('error is final', 'on every path on which a step returns an error, the counter ends at a value for which the '
                             'participant reports itself finished and every further step call returns an error')
    R.rule('advance', 'on every path on which a step succeeds, the counter ends one higher (two higher from the complaint step '
                      'if nobody complained; at a finished value after the dispute step)')
    for role in ('tp', 'peer'):
        done = {}
        for s in range(0, 12):
            step = Step(P, role, s)
            F = step.facts
            for r, st, v in F.returns():
                where = '%s, %s' % (step.name, step.fn.where(r))
                bad = assume(st, Not(Eq(v)))
                good = assume(st, Eq(v))
                if bad is not None:
                    for _, c in cells(bad, 'step'):
                        R.ok(c is not None and final(P, role, c, done), 'error is final', where,
                             'after an error the step counter is %s, where the participant is not finished' % ('unknown' if c is None else c))
                if good is not None:
                    for g, c in cells(good, 'step'):
                        R.ok(advance_ok(P, step, role, s, c, g, r, done), 'advance', where,
                             'after success the step counter is %s' % ('unknown' if c is None else c))
        R.floor('error is final', 20 if role == 'peer' else 10)
        R.floor('advance', 16 if role == 'peer' else 7)
        nd = predicate(P, role, 0)
        R.ok(nd != 0, 'advance', role + ' start', 'a participant that has just started reports itself finished')


def predicate(P, role, c):
    """constant result of the not-done function for a counter value, None if not constant"""
    off, size = P.of(role)['step']
    fn = flow.Fn(P.mod, 'tpdkg_%s_not_done' % role, {(0, off, size): c}, ['ctx'])
    vals = set()
    for r, st, v in flow.Facts(fn).returns():
        vals.add(st.known(v))
    return vals.pop() if len(vals) == 1 else None


def final(P, role, c, memo, depth=0):
    if c in memo:
        return memo[c]
    if depth > 20:
        return True         # a counter that keeps rising behind the last step
    memo[c] = True
    ok = predicate(P, role, c) == 0
    if ok:
        step = Step(P, role, c)
        for r, st, v in step.facts.returns():
            if assume(st, Eq(v)) is not None:
                ok = False
            for _, c2 in cells(st, 'step'):
                if c2 is None or not final(P, role, c2, memo, depth + 1):
                    ok = False
    memo[c] = ok
    return ok


def advance_ok(P, step, role, s, c, st, r, done):
    if c is None:
        return False
    if s == 7:
        return c >= 0 and predicate(P, role, c) == 0 and final(P, role, c, done)
    if s == 6:
        at, size = step.field('complaints_len'), step.F['complaints_len'][1]
        vs = {step.fn.load_at(r, at, size)} | final_loads(step.fn, at, size)
        return c in (7, 8) and any(st.holds(Eq(v)) is (c == 8) for v in vs)
    return c == s + 1


