"""Declarations and constants of the C headers, read with the compiler's preprocessor and front end."""
import ast, os, re, tempfile, shutil
import build
from sym import poly

HEADERS = ['oprf.h', 'toprf.h', 'dkg.h', 'mpmult.h', 'tp-dkg.h']
NOISE = ['XK.h']


def flags():
    u = build.units(os.path.join(build.REPO, 'src'), ['liboprf.a'])
    for s, f in u.items():
        if s.endswith('tp-dkg.c'):
            return [x for x in f if not x.startswith(build.DROP)]
    raise build.Broken('the makefile does not build tp-dkg.c')


def prelude():
    return ''.join('#include "%s"\n' % h for h in HEADERS) + '#include <sodium.h>\n' + ''.join('#include "%s"\n' % h for h in NOISE)


def _run(args, text, want):
    src = os.path.join(build.REPO, 'src')
    d = tempfile.mkdtemp(prefix='sa-')
    try:
        f = os.path.join(d, 'x.c')
        open(f, 'w').write(text)
        o = os.path.join(d, 'out')
        r = build.run([build.CLANG, '-w'] + flags() + ['-I', src] + args + [f, '-o', o], cwd=src)
        if r.returncode:
            raise build.Broken('headers do not compile:\n' + r.stderr[-1500:])
        return open(o).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def values(exprs, guarded=()):
    """{expression: integer} of C constant expressions; guarded ones only if they are macros that exist"""
    t = prelude()
    exprs = list(exprs)
    for i, e in enumerate(exprs):
        t += 'const unsigned long long v_%d = (unsigned long long)(%s);\n' % (i, e)
    guarded = list(guarded)
    for i, e in enumerate(guarded):
        t += '#ifdef %s\nconst unsigned long long w_%d = (unsigned long long)(%s);\n#endif\n' % (e, i, e)
    out = _run(['-S', '-emit-llvm', '-O0'], t, 'll')
    r = {}
    for k, i, v in re.findall(r'^@([vw])_(\d+) = .*constant i64 (-?\d+)', out, re.M):
        r[(exprs if k == 'v' else guarded)[int(i)]] = int(v)
    return r


class Param:
    def __init__(self, text):
        text = text.strip()
        self.text = text
        self.dims = re.findall(r'\[([^\]]*)\]', text)
        self.behind = '(*' in text.replace(' ', '')
        t = re.sub(r'\[[^\]]*\]', '', text)
        t = t.replace('(', ' ').replace(')', ' ')
        words = re.findall(r'[A-Za-z_]\w*|\*', t)
        self.name = words[-1] if words and words[-1] != '*' else ''
        self.type = [w for w in words[:-1] if w not in ('const', '*', 'struct')]
        self.stars = words.count('*')
        self.const = 'const' in words
        self.ptr = bool(self.stars or self.dims)


class Decl:
    def __init__(self, ret, name, params):
        self.ret, self.name, self.params = ret, name, params

    def index(self, nm):
        for i, p in enumerate(self.params):
            if p.name == nm:
                return i
        return None


WIDTH = {'uint8_t': 8, 'int8_t': 8, 'char': 8, 'uint16_t': 16, 'uint32_t': 32, 'int': 32, 'uint64_t': 64, 'size_t': 64, 'bool': 8, 'unsigned': 32, 'long': 64, '_Bool': 8,
         '__uint8_t': 8}


def prototypes():
    """{name: Decl} of the functions the library's headers declare"""
    t = _run(['-E', '-P'], prelude(), 'i')
    t = re.sub(r'__attribute(__)?\s*\(\((?:[^()]|\([^()]*\))*\)\)', ' ', t)
    t = re.sub(r'\bextern\b', ' ', t)
    out = {}
    for m in re.finditer(r'(?:^|[;}])\s*((?:[A-Za-z_]\w*[\s*]+)+)([A-Za-z_]\w*)\s*\(((?:[^();{}]|\((?:[^()]|\([^()]*\))*\))*)\)\s*(?=;)', t):
        ret = ' '.join(m.group(1).split())
        if 'typedef' in ret or 'return' in ret:
            continue
        ps = [p for p in split(m.group(3)) if p.strip() and p.strip() != 'void']
        out[m.group(2)] = Decl(ret, m.group(2), [Param(p) for p in ps])
    return out


def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([':
            d += 1
        if c in ')]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur]


def expr(text, env):
    """polynomial of a C constant expression over the values in env; None if it is not one"""
    t = re.sub(r'\b(0x[0-9a-fA-F]+|\d+)[uUlL]+', r'\1', text)
    t = re.sub(r'\(\s*(?:u?int\d*_t|size_t|unsigned|int|long|char|\s)+\)', '', t)

    def ev(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return poly(n.value)
        if isinstance(n, ast.Name):
            return env[n.id]
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
            if isinstance(n.op, ast.Mult):
                return a * b
            c, d = a.const(), b.const()
            if isinstance(n.op, ast.LShift):
                return poly(c << d)
            if isinstance(n.op, (ast.Div, ast.FloorDiv)):
                return poly(c // d)
        raise KeyError(text)
    try:
        return ev(ast.parse(t.strip(), mode='eval').body)
    except (KeyError, SyntaxError, TypeError):
        return None
