"""P02 envelope of received messages"""
TECHNIQUE = 'must-fact dataflow over branch conditions of inlined LLVM IR, generalised over loops'
NOTE = 'all paths of every protocol step; lengths and indices compared symbolically'
from msgs import *

ENV = ('length', 'type', 'sender', 'recipient', 'session')


def check(R):
    P = load(R)
    R.rule('use', 'wherever bytes of a received message are consumed, branches on every path have established the declared '
                  'length, type, sender, recipient and all session id bytes of that very message (must-facts over the inlined step)')
    R.rule('complete', 'a step returns 0 only with these facts established for messages that tile its whole input '
                       '(facts generalised over completed loops)')
    steps = receiving(P)
    report_uses(R, steps, ENV, 'use', 25)
    report_complete(R, steps, 'complete', ENV, 17)
    kinds(R, P, steps)


def kinds(R, P, steps):
    """two accepted message kinds of one direction never share a type number at different steps"""
    R.rule('kinds', 'the type number a step insists on is the same for all its messages of one level and differs from the ones '
                    'of the other steps of that role')
    seen = {}
    for step in steps:
        mine = set()
        for u in uses(step):
            for st, m, M in judge(step, u):
                if M is None:
                    continue
                k = Known(P, step, st, M)
                mine |= {x.const() for x in k.msgno if x.const() is not None}
        for no in mine:
            key = (step.role, no)
            R.ok(key not in seen or seen[key] == step.name or inner(no), 'kinds', step.name,
                 'message type %d is also what %s accepts' % (no, seen.get(key)))
            seen.setdefault(key, step.name)


def inner(no):
    return False
