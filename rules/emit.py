"""Messages a participant produces: what is signed, and what happens to the bytes afterwards."""
import flow
from sym import *
from flow import State, Facts
from proto import Step, cellhook
from msgs import reads_of, same


class Sig:
    def __init__(self, step, ins):
        fn = step.fn
        a = fn.args(ins)
        self.ins, self.M, self.dat, self.L, self.sk = ins, a[0], a[2], a[3], a[4]
        self.where = '%s, %s' % (step.name, fn.where(ins))
        self.total = self.L + step.P.SIG
        own = step.field('sig_sk') if 'sig_sk' in step.F else None
        lt = step.field('lt_sk') if 'lt_sk' in step.F else None
        self.kind = 'session' if self.sk == own else 'lt' if lt is not None and self.sk == lt else 'other'


def sigs(step):
    return [Sig(step, i) for i in step.fn.calls('crypto_sign_detached')]


def header(step, S):
    """header fields in memory when the message is signed"""
    fn, m = step.fn, step.P.msg
    out = {}
    for nm in ('msgno', 'len', 'from', 'to'):
        off, size = m[nm]
        v = fn.load_at(S.ins, S.M + off, size)
        if nm == 'len':
            s = v.single()
            if v.const() is not None:
                v = poly(int.from_bytes((v.const() % 2 ** 32).to_bytes(4, 'little'), 'big'))
            elif s and s[0] == 'op' and s[1] == 'bswap':
                v = poly(s[3])
                t = v.single()
                while t and t[0] in ('trunc', 'zext'):
                    v = poly(t[2])
                    t = v.single()
            else:
                v = None
        out[nm] = v
    off, size = m['sessionid']
    out['session'] = None
    ds = fn.defs_at(S.ins, S.M + off, size)
    if len(ds) == 1 and 'entry' not in ds:
        d, rel = next(iter(ds))
        if rel == 'must' and d.op == 'call':
            if 'memcpy' in d.callee or 'memmove' in d.callee:
                out['session'] = fn.val(d.ops[1]) + (S.M + off - fn.val(d.ops[0]))
            elif d.callee in ('randombytes_buf',):
                out['session'] = S.M + off
    return out


def outwrites(step):
    """writes into the output buffer"""
    fn = step.fn
    out = []
    for b in fn.rpo:
        for ins in b.instrs:
            for (_, base, addr, size, kind) in fn.writes_of(ins):
                if fn.within(addr, step.argo):
                    out.append((ins, addr, size))
    return out


def covers(step, S, ins, addr, size):
    """the write lies inside the signed part of the message"""
    sz = poly(size) if size is not None else None
    if sz is None:
        return False
    lo = S.M + step.P.SIG
    sts = step.states(ins)
    return bool(sts) and all(prove(st.facts, addr - lo) and
                             (prove(st.facts, S.M + S.total - addr - sz) or eqsub(st, S.M + S.total - addr - sz)) for st in sts)


def eqsub(st, p):
    return False


def forwarded(step, ins, addr, size, judged):
    """copy of an accepted message"""
    return judged.get(ins.uid, False)
