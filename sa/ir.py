"""Parser for the subset of textual LLVM 18 IR that clang produces for C code.

Gives modules, functions, basic blocks and instructions with resolved types, struct
layouts (x86-64 data layout), debug locations with inlining chains, and the member
offsets of C structures taken from the debug information.
"""
import re
from collections import OrderedDict


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(
    "(?:[^"\\]|\\[0-9A-Fa-f]{2})*"
  | c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"
  | [%@]"(?:[^"])*"
  | [%@][-a-zA-Z$._0-9]+
  | !"(?:[^"])*"
  | ![-a-zA-Z$._0-9]+
  | !\{ | !
  | \#\d+
  | -?\d+\.\d+(?:e[+-]?\d+)?
  | 0x[0-9A-Fa-f]+
  | -?\d+
  | \.\.\.
  | [a-zA-Z_$.][-a-zA-Z$._0-9]*
  | <\{ | \}>
  | [\[\]{}()<>,=*:|]
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('cannot tokenize: ' + s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


# ---- types: ('i',n) ('ptr',) ('void',) ('arr',n,t) ('struct',[t],packed) ('named',name) ('fn',...) ('other',s)
class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == 'ptr':
            return 8
        if k == 'arr':
            return self.align(t[2])
        if k == 'struct':
            return 1 if t[2] or not t[1] else max(self.align(x) for x in t[1])
        if k == 'double':
            return 8
        if k == 'float':
            return 4
        raise IRError('align of %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return a
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'struct':
            offs, total = self.layout(t)
            return total
        raise IRError('size of %r' % (t,))

    def layout(self, t):
        t = self.resolve(t)
        offs, o = [], 0
        for e in t[1]:
            if not t[2]:
                a = self.align(e)
                o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(e)
        if not t[2] and t[1]:
            a = self.align(t)
            o = (o + a - 1) // a * a
        return offs, o


class P:
    """token cursor"""
    def __init__(self, toks, i=0):
        self.t = toks
        self.i = i

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise IRError('expected %r, got %r in %r' % (x, self.peek(), ' '.join(self.t[:60])))
        self.i += 1


def name_of(tok):
    s = tok[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


def parse_type(p):
    t = p.next()
    m = re.fullmatch(r'i(\d+)', t)
    if m:
        ty = ('i', int(m.group(1)))
    elif t == 'ptr':
        ty = ('ptr',)
    elif t == 'void':
        ty = ('void',)
    elif t in ('double', 'float', 'label', 'metadata', 'token', 'x86_fp80', 'half'):
        ty = (t,)
    elif t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        ty = ('arr', n, e)
    elif t == '<':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect('>')
        ty = ('vec', n, e)
    elif t in ('{', '<{'):
        close = '}' if t == '{' else '}>'
        es = []
        while not p.accept(close):
            es.append(parse_type(p))
            p.accept(',')
        ty = ('struct', tuple(es), t == '<{')
    elif t.startswith('%'):
        ty = ('named', name_of(t))
    elif t == 'opaque':
        ty = ('struct', (), False)
    else:
        raise IRError('type? %r in %s' % (t, ' '.join(p.t[:40])))
    while p.peek() == '(':  # function type
        p.next()
        args = []
        va = False
        while not p.accept(')'):
            if p.accept('...'):
                va = True
            else:
                args.append(parse_type(p))
            p.accept(',')
        ty = ('fn', ty, tuple(args), va)
    return ty


# ---- values: ('c',int) ('null',) ('undef',) ('loc',name) ('glob',name) ('cexpr',op,...) ('zero',) ('str',bytes) ('agg',..)
def parse_value(p, ty):
    t = p.next()
    if t.startswith('%'):
        return ('loc', name_of(t))
    if t.startswith('@'):
        return ('glob', name_of(t))
    if re.fullmatch(r'-?\d+', t):
        return ('c', int(t))
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t.startswith('c"'):
        s = t[2:-1]
        b = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(ord(s[i]))
                i += 1
        return ('str', bytes(b))
    if t == 'getelementptr':
        while p.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
            p.next()
        p.expect('(')
        ety = parse_type(p)
        p.expect(',')
        ops = []
        while True:
            oty = parse_type(p)
            ops.append((oty, parse_value(p, oty)))
            if not p.accept(','):
                break
        p.expect(')')
        return ('cgep', ety, tuple(ops))
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
        p.expect('(')
        fty = parse_type(p)
        v = parse_value(p, fty)
        p.expect('to')
        tty = parse_type(p)
        p.expect(')')
        return ('ccast', t, fty, v, tty)
    if t in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
        while p.peek() in ('nuw', 'nsw'):
            p.next()
        p.expect('(')
        aty = parse_type(p)
        a = parse_value(p, aty)
        p.expect(',')
        bty = parse_type(p)
        b = parse_value(p, bty)
        p.expect(')')
        return ('cbin', t, a, b)
    if t in ('[', '{', '<{', '<'):
        close = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[t]
        es = []
        while not p.accept(close):
            ety = parse_type(p)
            es.append((ety, parse_value(p, ety)))
            p.accept(',')
        return ('agg', tuple(es))
    if re.match(r'-?\d+\.|0x', t):
        return ('float', t)
    raise IRError('value? %r in %s' % (t, ' '.join(p.t[:60])))


def constbytes(v, ty, types):
    """the bytes of a constant, None if it has other parts than numbers"""
    if v[0] == 'str':
        return v[1]
    if v[0] == 'zero':
        return bytes(types.size(ty))
    if v[0] == 'c' and ty[0] == 'i':
        n = types.size(ty)
        return (v[1] % 2 ** (8 * n)).to_bytes(n, 'little')
    if v[0] == 'agg':
        parts = [constbytes(x, t, types) for t, x in v[1]]
        if None not in parts and sum(map(len, parts)) == types.size(ty):
            return b''.join(parts)
    return None


PATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref',
                'elementtype', 'range', 'memory', 'allocsize', 'preallocated', 'inalloca'}


def skip_attrs(p):
    """skips parameter attributes; returns (byval type, sret type)"""
    byval = None
    sret = None
    while True:
        t = p.peek()
        if t is None:
            return byval, sret
        if t in ('byval', 'sret', 'byref', 'elementtype') and p.peek(1) == '(':
            p.next(); p.next()
            ty = parse_type(p)
            p.expect(')')
            if t == 'byval':
                byval = ty
            if t == 'sret':
                sret = ty
            continue
        if t in PATTRS_PAREN and p.peek(1) == '(':
            p.next(); p.next()
            depth = 1
            while depth:
                x = p.next()
                depth += (x == '(') - (x == ')')
            continue
        if t == 'align':
            p.next(); p.next()
            continue
        if re.fullmatch(r'[a-z_]+', t) and t not in ('null', 'undef', 'poison', 'true', 'false',
                                                      'zeroinitializer', 'getelementptr', 'ptrtoint',
                                                      'inttoptr', 'trunc', 'zext', 'sext', 'bitcast',
                                                      'to', 'ptr', 'void', 'metadata', 'label', 'x',
                                                      'c', 'add', 'sub', 'mul', 'xor'):
            p.next()
            continue
        return byval, sret


def intrinsic(c):
    for x in ('memcpy', 'memmove', 'memset'):
        if c and c.startswith('llvm.%s.' % x):
            return x
    return c


class Instr:
    __slots__ = ('op', 'name', 'ty', 'ops', 'extra', 'dbg', 'block', 'idx', 'fn')

    def __init__(self, op, name, ty, ops, extra=None):
        self.op = op
        self.name = name
        self.ty = ty
        self.ops = ops
        self.extra = extra
        self.dbg = None
        self.block = None
        self.idx = -1
        self.fn = None

    def __repr__(self):
        return '<%s %s %r %r>' % (self.name, self.op, self.ops, self.extra)

    @property
    def callee(self):
        return self.extra.get('callee') if self.op == 'call' else None

    @property
    def uid(self):
        return (self.fn.name, self.block.name, self.idx)


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succ = []
        self.pred = []


class Function:
    def __init__(self, name, ret, params, va, module):
        self.name = name
        self.ret = ret
        self.params = params     # [(type, name, byval)]
        self.va = va
        self.blocks = OrderedDict()
        self.module = module
        self.dbg = None
        self.defs = {}

    @property
    def entry(self):
        return next(iter(self.blocks.values()))

    def instrs(self):
        for b in self.blocks.values():
            for i in b.instrs:
                yield i


class Module:
    def __init__(self):
        self.types = Types()
        self.fns = OrderedDict()
        self.decls = {}
        self.globals = {}
        self.md = {}
        self._loc = {}
        self._structs = None

    # ---- metadata
    def node(self, ref):
        return self.md.get(ref)

    def loc(self, ref):
        """[(file, line, function)] innermost first, following inlinedAt"""
        if ref in self._loc:
            return self._loc[ref]
        out = []
        r = ref
        while r:
            n = self.md.get(r)
            if not n:
                break
            k, f, _ = n
            fn, file = None, None
            s = f.get('scope')
            while s:
                m = self.md.get(s)
                if not m:
                    break
                if m[0] == 'DISubprogram':
                    fn = m[1].get('name', '').strip('"')
                    if file is None and m[1].get('file'):
                        file = self.file(m[1]['file'])
                    break
                if file is None and m[1].get('file'):
                    file = self.file(m[1]['file'])
                s = m[1].get('scope')
            out.append((file, int(f.get('line', '0')), fn))
            r = f.get('inlinedAt')
        self._loc[ref] = out
        return out

    def file(self, ref):
        m = self.md.get(ref)
        if not m:
            return None
        fn = m[1].get('filename', '""').strip('"')
        d = m[1].get('directory', '""').strip('"')
        return fn if fn.startswith('/') else (d + '/' + fn if d else fn)

    def where(self, ins):
        l = self.loc(ins.dbg) if ins.dbg else []
        if not l:
            return '%s (no line)' % ins.fn.name
        f, ln, fn = l[0]
        if f and '/repo/' in f:
            f = f.split('/repo/', 1)[1]
        s = '%s:%d (%s)' % (f, ln, fn)
        if len(l) > 1:
            s += ' via ' + ' <- '.join('%s:%d' % (x[2], x[1]) for x in l[1:])
        return s

    # ---- structures from debug info: name -> {member: (offset, size)}
    def structs(self):
        if self._structs is not None:
            return self._structs
        out = {}
        for r, (k, f, _) in self.md.items():
            if k != 'DIDerivedType' or f.get('tag') != 'DW_TAG_typedef':
                continue
            nm = f.get('name', '').strip('"')
            b = f.get('baseType')
            m = self.md.get(b)
            if m and m[0] == 'DICompositeType' and m[1].get('tag') == 'DW_TAG_structure_type':
                out.setdefault(nm, []).append(self._members(b))
        for r, (k, f, _) in self.md.items():
            if k == 'DICompositeType' and f.get('tag') == 'DW_TAG_structure_type' and f.get('name'):
                out.setdefault(f['name'].strip('"'), []).append(self._members(r))
        self._structs = out
        return out

    def _members(self, ref):
        k, f, _ = self.md[ref]
        res = OrderedDict()
        els = self.md.get(f.get('elements'))
        if els:
            for e in els[2]:
                m = self.md.get(e)
                if m and m[1].get('tag') == 'DW_TAG_member':
                    res[m[1].get('name', '""').strip('"')] = (int(m[1].get('offset', '0')) // 8,
                                                             int(m[1].get('size', '0')) // 8,
                                                             m[1].get('baseType'))
        return {'members': res, 'size': int(f.get('size', '0')) // 8,
                'file': self.file(f['file']) if f.get('file') else None, 'line': int(f.get('line', '0'))}


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'disjoint', 'nneg', 'volatile', 'nusw'}


def parse_instr(line):
    toks = tokenize(line)
    p = P(toks)
    name = None
    if p.peek().startswith('%') and p.peek(1) == '=':
        name = name_of(p.next())
        p.next()
    op = p.next()
    dbg = None
    m = re.search(r', !dbg (![0-9]+)', line)
    if m:
        dbg = m.group(1)
    ins = None
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'call':
        while p.peek() in ('fastcc', 'ccc', 'fast', 'nnan', 'coldcc'):
            p.next()
        skip_attrs(p)
        rty = parse_type(p)
        fty = rty
        if rty[0] == 'fn':
            rty = rty[1]
        tok = p.peek()
        cal = parse_value(p, ('ptr',)) if tok != 'asm' else ('asm',)
        if tok == 'asm':
            p.next()
            while p.peek() != '(':
                p.next()
        p.expect('(')
        args = []
        md = False
        while not p.accept(')'):
            if p.peek() == 'metadata':
                md = True
                depth = 0
                while not (depth == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    depth += x in ('(', '{', '!{')
                    depth -= x in (')', '}')
                p.accept(',')
                continue
            aty = parse_type(p)
            byval, sret = skip_attrs(p)
            v = parse_value(p, aty)
            args.append((aty, v, byval))
            p.accept(',')
        callee = cal[1] if cal[0] == 'glob' else None
        ins = Instr('call', name, rty, [a[1] for a in args],
                    {'callee': intrinsic(callee), 'target': cal, 'argty': [a[0] for a in args], 'byval': [a[2] for a in args], 'md': md})
    elif op in BINOPS:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        ins = Instr(op, name, ty, [a, b], {'flags': fl})
    elif op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        fty = parse_type(p)
        v = parse_value(p, fty)
        tty = fty
        if op != 'freeze':
            p.expect('to')
            tty = parse_type(p)
        ins = Instr(op, name, tty, [v], {'from': fty})
    elif op == 'icmp':
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        ins = Instr('icmp', name, ('i', 1), [a, b], {'pred': pred, 'ty': ty})
    elif op == 'select':
        cty = parse_type(p)
        c = parse_value(p, cty)
        p.expect(',')
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        ty2 = parse_type(p)
        b = parse_value(p, ty2)
        ins = Instr('select', name, ty, [c, a, b])
    elif op == 'phi':
        ty = parse_type(p)
        inc = []
        while p.accept('['):
            v = parse_value(p, ty)
            p.expect(',')
            b = name_of(p.next())
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
            if p.peek() != '[':
                break
        ins = Instr('phi', name, ty, [v for v, _ in inc], {'blocks': [b for _, b in inc]})
    elif op == 'load':
        if p.peek() == 'volatile':
            p.next()
        if p.peek() == 'atomic':
            p.next()
        ty = parse_type(p)
        p.expect(',')
        pty = parse_type(p)
        v = parse_value(p, pty)
        ins = Instr('load', name, ty, [v])
    elif op == 'store':
        if p.peek() == 'volatile':
            p.next()
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        pty = parse_type(p)
        a = parse_value(p, pty)
        ins = Instr('store', None, ('void',), [v, a], {'ty': ty})
    elif op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        ety = parse_type(p)
        p.expect(',')
        ops = []
        tys = []
        while True:
            oty = parse_type(p)
            ops.append(parse_value(p, oty))
            tys.append(oty)
            if not p.accept(','):
                break
            if p.peek() and p.peek().startswith('!'):
                break
        ins = Instr('gep', name, ('ptr',), ops, {'ety': ety, 'tys': tys})
    elif op == 'alloca':
        p.accept('inalloca')
        ty = parse_type(p)
        n = ('c', 1)
        nty = ('i', 32)
        if p.accept(','):
            if p.peek() not in ('align', 'addrspace') and not p.peek().startswith('!'):
                nty = parse_type(p)
                n = parse_value(p, nty)
        ins = Instr('alloca', name, ('ptr',), [n], {'ty': ty})
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            ins = Instr('br', None, ('void',), [], {'succ': [name_of(p.next())]})
        else:
            cty = parse_type(p)
            c = parse_value(p, cty)
            p.expect(',')
            p.expect('label')
            a = name_of(p.next())
            p.expect(',')
            p.expect('label')
            b = name_of(p.next())
            ins = Instr('br', None, ('void',), [c], {'succ': [a, b]})
    elif op == 'switch':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        p.expect('label')
        d = name_of(p.next())
        p.expect('[')
        cases = []
        while not p.accept(']'):
            cty = parse_type(p)
            c = parse_value(p, cty)
            p.expect(',')
            p.expect('label')
            cases.append((c[1], name_of(p.next())))
        ins = Instr('switch', None, ('void',), [v], {'default': d, 'cases': cases})
    elif op == 'ret':
        if p.peek() == 'void':
            ins = Instr('ret', None, ('void',), [])
        else:
            ty = parse_type(p)
            ins = Instr('ret', None, ty, [parse_value(p, ty)])
    elif op == 'unreachable':
        ins = Instr('unreachable', None, ('void',), [])
    elif op == 'extractvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        idx = []
        while p.accept(','):
            if p.peek().startswith('!'):
                break
            idx.append(int(p.next()))
        ins = Instr('extractvalue', name, None, [v], {'idx': idx, 'aggty': ty})
    elif op == 'insertvalue':
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        ety = parse_type(p)
        e = parse_value(p, ety)
        idx = []
        while p.accept(','):
            if p.peek().startswith('!'):
                break
            idx.append(int(p.next()))
        ins = Instr('insertvalue', name, ty, [v, e], {'idx': idx})
    else:
        raise IRError('unsupported instruction: ' + line)
    ins.dbg = dbg
    return ins


MDFIELD = re.compile(r'(\w+): (?:("(?:[^"\\]|\\..)*")|(!DIExpression\([^)]*\))|([^,()]+(?:\([^)]*\))?))')


def parse_md(line, mod):
    m = re.match(r'(!\d+) = (?:distinct )?!(\w+)\((.*)\)\s*$', line)
    if m:
        f = {}
        for x in MDFIELD.finditer(m.group(3)):
            f[x.group(1)] = (x.group(2) or x.group(3) or x.group(4)).strip()
        mod.md[m.group(1)] = (m.group(2), f, [])
        return
    m = re.match(r'(!\d+) = (?:distinct )?!\{(.*)\}\s*$', line)
    if m:
        mod.md[m.group(1)] = ('list', {}, re.findall(r'!\d+', m.group(2)))


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    # pass 1: named types
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            toks = tokenize(l)
            mod.types.named[name_of(toks[0])] = parse_type(P(toks, 3))
    cur = None
    blk = None
    pend = None
    for l in lines:
        if cur is None:
            if l.startswith('define '):
                cur, blk = parse_define(l, mod)
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                mod.decls[m.group(1).strip('"')] = l
            elif l.startswith('@'):
                parse_global(l, mod)
            elif l.startswith('!'):
                parse_md(l, mod)
            continue
        if l.startswith('}'):
            finish_fn(cur)
            cur = None
            continue
        s = l.strip()
        if not s or s.startswith(';'):
            continue
        m = re.match(r'^("[^"]*"|[-\w$.]+):', l)
        if m:
            blk = Block(m.group(1).strip('"'))
            cur.blocks[blk.name] = blk
            continue
        if pend is not None:            # switch spans lines
            pend += ' ' + s
            if ']' in s:
                s = pend
                pend = None
            else:
                continue
        elif s.startswith('switch ') and not s.rstrip().endswith(']') and '], !' not in s:
            pend = s
            continue
        if blk is None:
            blk = Block(cur.entry_name)
            cur.blocks[blk.name] = blk
        if 'call void @llvm.dbg.' in s or '@llvm.lifetime.' in s:
            continue
        ins = parse_instr(s)
        ins.block = blk
        ins.fn = cur
        ins.idx = len(blk.instrs)
        blk.instrs.append(ins)
        if ins.name is not None:
            cur.defs[ins.name] = ins
    return mod


def parse_define(l, mod):
    m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
    name = m.group(1).strip('"')
    pre = l[:m.start()]
    toks = tokenize(pre)
    # return type: last type tokens; parse from after linkage keywords
    j = 1
    while toks[j] in ('dso_local', 'internal', 'private', 'weak', 'linkonce_odr', 'hidden', 'noundef', 'signext',
                      'zeroext', 'fastcc', 'available_externally', 'external', 'local_unnamed_addr', 'range', 'noalias'):
        j += 1
    p = P(toks, j)
    ret = parse_type(p)
    p = P(tokenize(l[m.end():l.rindex(')') + 1] if True else ''), 0)
    toks2 = tokenize(l[m.end() - 1:])
    p = P(toks2, 1)
    params = []
    va = False
    n = 0
    while not p.accept(')'):
        if p.accept('...'):
            va = True
            continue
        ty = parse_type(p)
        byval, sret = skip_attrs(p)
        nm = str(n)
        if p.peek() and p.peek().startswith('%'):
            nm = name_of(p.next())
        params.append((ty, nm, byval))
        n += 1
        p.accept(',')
    f = Function(name, ret, params, va, mod)
    f.entry_name = str(n) if not params or params[-1][1].isdigit() else 'entry'
    f.linkage = 'internal' if ' internal ' in pre + ' ' else 'external'
    m = re.search(r'!dbg (!\d+)', l)
    f.dbg = m.group(1) if m else None
    mod.fns[name] = f
    return f, None


def parse_global(l, mod):
    m = re.match(r'^@("[^"]*"|[-\w$.]+) = (.*)$', l)
    name = m.group(1).strip('"')
    rest = m.group(2)
    g = {'const': ' constant ' in ' ' + rest, 'init': None, 'ty': None, 'external': rest.startswith('external')}
    m2 = re.search(r'\b(constant|global) (.*)$', rest)
    if m2:
        try:
            p = P(tokenize(re.sub(r', align \d+.*$|, !dbg .*$', '', m2.group(2))))
            g['ty'] = parse_type(p)
            if not g['external']:
                g['init'] = parse_value(p, g['ty'])
        except IRError:
            pass
    m3 = re.search(r'\b(?:constant|global) \[\d+ x ptr\] \[(.*?)\](?:,|$)', rest)
    g['ptrs'] = re.findall(r'ptr (?:@("[^"]*"|[-\w$.]+)|null)', m3.group(1)) if m3 and (g['const'] or 'internal' in rest) else None
    mod.globals[name] = g


def finish_fn(f):
    for b in f.blocks.values():
        t = b.instrs[-1]
        if t.op == 'br':
            ss = t.extra['succ']
        elif t.op == 'switch':
            ss = [x for _, x in t.extra['cases']] + [t.extra['default']]
        else:
            ss = []
        seen = []
        for s in ss:
            if s not in seen:
                seen.append(s)
        b.succ = [f.blocks[s] for s in seen]
        for s in b.succ:
            s.pred.append(b)


if __name__ == '__main__':
    import sys, time
    t = time.time()
    m = parse_module(open(sys.argv[1]).read())
    print(len(m.fns), sum(len(list(f.instrs())) for f in m.fns.values()), time.time() - t)
    print({k: [(x['size'], list(x['members'])) for x in v] for k, v in m.structs().items()})
