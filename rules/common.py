"""Helpers shared by the rules."""
import flow
from sym import *
from flow import State, Facts, assume
from build import Broken


def setfacts(fn, hook=None, init=State()):
    """facts with ('set', address, value, size) for every store, generalised over loops"""
    T = fn.mod.types

    def h(st, ins):
        if hook:
            st = hook(st, ins)
        new = set()
        if ins.op == 'store':
            a = fn.val(ins.ops[1])
            new.add((('set', a, fn.val(ins.ops[0], ins.extra['ty']), T.size(ins.extra['ty'])), True))
        elif ins.op == 'call' and ins.callee:
            for (_, base, addr, size, kind) in fn.writes_of(ins):
                if size is not None:
                    new.add((('blk', addr, size, ins.uid), True))
        if new:
            st = State(st.facts | frozenset(new), st.must, st.may)
        return st
    return flow.forall_facts(fn, h, None, init)


def all_elements(st, base, stride, count):
    """values known to have been stored in every element base+stride*i, i < count"""
    out = []
    for f, pol in st.facts:
        if f[0] == 'all' and f[3][0][0] == 'set':
            k, B, (g, _) = f[1], f[2], f[3]
            d = g[1] - base
            s = Poly({tuple(x for x in m if x != k): c for m, c in d.t if k in m})
            if s == poly(stride) and (d - s * poly(k)) == ZERO and B == count:
                out.append(g[2])
    return out


def is_time(v):
    a = poly(v).single()
    return bool(a and a[0] in ('call', 'fn') and a[1] == 'time')


def param(fn, name):
    for i, (ty, nm, _) in enumerate(fn.f.params):
        if fn.argname(i) == name:
            return i
    return None


def watch(fn, cells, base=None):
    """hook keeping ('val', name, value) for what was last stored in the named cells"""
    def hook(st, ins):
        if base:
            st = base(st, ins)
            if st is None:
                return None
        if ins.op in ('store', 'call'):
            for w in fn.writes_of(ins):
                for nm, (ca, cs) in cells.items():
                    if w[1] != fn.base(ca)[0] or fn.disjoint(ca, cs, w[2], w[3]):
                        continue
                    must = frozenset(t for t in st.must if t[:2] != ('val', nm))
                    v = None
                    if ins.op == 'store' and w[2] == ca and w[3].const() == cs:
                        v = fn.val(ins.ops[0], ins.extra['ty'])
                    elif ins.op == 'call' and ins.callee in ('memcpy', 'memmove'):
                        d = (ca - w[2]).const()
                        if d is not None:
                            v = fn.load_at(ins, fn.args(ins)[1] + d, cs, False)
                    if v is not None:
                        must = must | {('val', nm, v)}
                    st = State(st.facts, must, st.may)
        return st
    return hook


def value(st, nm):
    for t in st.must:
        if t[:2] == ('val', nm):
            return t[2]
    return None


def eq0(st, p):
    """p == 0 follows from the facts"""
    return p == ZERO or st.holds(Eq(p)) is True or (prove(st.facts, p) and prove(st.facts, -p))


def split_at(fn, ops):
    """(track, edgehook) keeping apart the ways into the merges that the given values come from"""
    blocks = set()
    todo = [o[1] for o in ops if o[0] == 'loc']
    seen = set()
    while todo:
        nm = todo.pop()
        if nm in seen:
            continue
        seen.add(nm)
        d = fn.f.defs.get(nm)
        if d is None or d.op in ('load', 'call'):
            continue
        if d.op == 'phi' and nm not in fn.iv and d.block.name not in fn.loops:
            blocks.add(d.block.name)
        todo += [o[1] for o in d.ops if o[0] == 'loc']

    def edge(st, b, s):
        if s.name in blocks:
            return State(st.facts, frozenset(t for t in st.must if t[:2] != ('via', s.name)) | {('via', s.name, b.name)}, st.may)
        return st
    return (lambda st: frozenset(t for t in st.must if t[0] == 'via')), edge


def exits_apart(fn):
    """(track, edgehook) keeping apart the ways out of loops that are left from several places to the same one
    (searches), until the loop is entered again"""
    hs = {}

    def landing(s):
        while len(fn.pred(s)) == 1 and len(fn.succ(s)) == 1:
            s = fn.succ(s)[0]
        return s.name
    for h, loop in fn.loops.items():
        for b in loop:
            for s in fn.succ(fn.f.blocks[b]):
                if s.name not in loop:
                    hs.setdefault((h, landing(s)), set()).add((b, s.name))
    multi = {(h, s) for (h, l), bs in hs.items() if len(bs) > 1 and any(b == h for b, _ in bs) for _, s in bs}
    heads = {h for h, _ in multi}

    def edge(st, b, s):
        if s.name in heads and b.name not in fn.loops[s.name]:
            st = State(st.facts, frozenset(t for t in st.must if t[:2] != ('left', s.name)), st.may)
        for h in fn.loopsof.get(b.name, ()):
            if (h, s.name) in multi:
                st = State(st.facts, frozenset(t for t in st.must if t[:2] != ('left', h)) | {('left', h, b.name)}, st.may)
        return st
    return (lambda st: frozenset(t for t in st.must if t[0] == 'left')), edge


def final_loads(fn, addr, size):
    """values read from memory that nothing reachable from the read changes: what is there at return, if the read was passed"""
    ws = [w[0] for w in fn.overlapping(addr, size)]

    def after(i, w):
        if i.block is w.block and i.idx < w.idx:
            return True
        seen, todo = set(), list(fn.succ(i.block))
        while todo:
            b = todo.pop()
            if b.name not in seen:
                seen.add(b.name)
                todo += fn.succ(b)
        return w.block.name in seen
    return {fn.val(('loc', i.name), i.ty) for b in fn.rpo for i in b.instrs
            if i.op == 'load' and fn.val(i.ops[0]) == addr and not any(after(i, w) for w in ws)}
