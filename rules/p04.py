"""P04 no use of a message before it was accepted"""
TECHNIQUE = 'taint from the input buffer to every sink plus must-fact dataflow over inlined LLVM IR'
NOTE = 'all paths of every protocol step; every copy, store, hash and channel call reading the input'
from msgs import *


def check(R):
    P = load(R)
    R.rule('use', 'every copy, store, hash, channel or group operation that reads received bytes (directly or through a local '
                  'copy) is reached only with all acceptance facts of the message containing exactly these bytes; what is '
                  'stored in a slot of a peer comes from a message of that peer')
    R.rule('complete', 'a step returns 0 only if the messages making up its whole input were all accepted')
    steps = receiving(P)
    report_uses(R, steps, ASPECTS, 'use', 25)
    report_complete(R, steps, 'complete', ASPECTS, 17)
