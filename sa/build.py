"""Turns the current /repo sources into normalised LLVM IR.

The compilation commands are taken from the project's own makefile (make -n), so new source files,
defines and include paths are followed.  clang produces the IR, llvm-link joins the library, and
opt inlines every function with a body into its callers and promotes locals to SSA form.  Nothing
is executed and nothing is written inside /repo.
"""
import os, re, shlex, subprocess, sys, tempfile, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang-18', '/usr/lib/llvm-18/bin/clang', shutil.which('clang-18') or '') if c and os.path.exists(c)), 'clang-18')
LINK = '/usr/lib/llvm-18/bin/llvm-link'
OPT = '/usr/lib/llvm-18/bin/opt'


class Broken(Exception):
    """the analysis cannot be carried out (not a verdict)"""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


def make_commands(directory, targets):
    """compiler invocations make would run"""
    env = dict(os.environ)
    for v in ('CFLAGS', 'LDFLAGS', 'DEFINES', 'EXTRA_SOURCES', 'DESTDIR', 'PREFIX', 'MAKEFLAGS', 'MFLAGS'):
        env.pop(v, None)
    env['CC'] = 'cc'
    r = run(['make', '-n', '-B'] + targets, cwd=directory, env=env)
    cmds = []
    for l in r.stdout.split('\n'):
        l = l.strip()
        if l.startswith('cc ') or l.startswith('gcc '):
            cmds.append(shlex.split(l))
    return cmds


def units(directory, targets, suffix='.c'):
    """{source: [flags]} from the compile commands"""
    out = {}
    for c in make_commands(directory, targets):
        flags = []
        srcs = []
        i = 1
        while i < len(c):
            a = c[i]
            if a in ('-I', '-D', '-U', '-include', '-isystem'):
                flags += [a, c[i + 1]]
                i += 2
                continue
            if a.startswith(('-I', '-D', '-U', '-std')):
                flags.append(a)
            elif a.endswith(suffix) and not a.startswith('-'):
                srcs.append(a)
            elif a == '-o':
                i += 2
                continue
            i += 1
        for s in srcs:
            out.setdefault(os.path.normpath(os.path.join(directory, s)), flags)
    return out


DROP = ('-D_FORTIFY_SOURCE', '-U_FORTIFY_SOURCE')


def compile_unit(src, flags, out, cwd, extra=()):
    fl = [f for f in flags if not f.startswith(DROP)]
    cmd = [CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-builtin', '-fgnuc-version=4.8.0',
           '-w', '-emit-llvm', '-c'] + fl + list(extra) + [src, '-o', out]
    r = run(cmd, cwd=cwd)
    if r.returncode != 0:
        raise Broken('cannot compile %s:\n%s' % (src, r.stderr[-2000:]))


def mark_inline(ll, keep=()):
    """adds alwaysinline to every function definition that may be inlined"""
    t = ll
    t = re.sub(r'^(attributes #\d+ = \{[^}]*?)\b(noinline|optnone)\b', r'\1', t, flags=re.M)
    t = re.sub(r'^(attributes #\d+ = \{[^}]*?)\bnoinline\b', r'\1', t, flags=re.M)
    t = re.sub(r'^(attributes #\d+ = \{)([^}\n]*\buwtable\b)', r'\1 alwaysinline\2', t, flags=re.M)
    if keep:
        # functions to keep as calls get a fresh attribute group without alwaysinline
        def fix(m):
            nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', m.group(0)).group(1)
            if nm in keep:
                return re.sub(r'\) (local_unnamed_addr )?#\d+', ') #9999', m.group(0), count=1)
            return m.group(0)
        t = re.sub(r'^define .*$', fix, t, flags=re.M)
        t += '\nattributes #9999 = { noinline nounwind }\n'
    return t


INDIRECT = re.compile(r'^  (?:(%[-\w.$]+) = )?((?:tail |musttail |notail )?call) ([^@\n(]*?)(%[-\w.$]+)(\(.*)$')


def direct(t):
    """calls through function pointers as calls of the functions they can mean: for a constant table a switch
    over the index, else a comparison with every function of the module whose address is taken"""
    tables = {m.group(1): re.findall(r'ptr (@[-\w.$]+|null)', m.group(2))
              for m in re.finditer(r'^(@[-\w.$]+) = .*?constant \[\d+ x ptr\] \[(.*?)\]', t, re.M)}
    heads = {m.group(2): (m.group(1), m.group(3).count(',') + (1 if m.group(3).strip() else 0))
             for m in re.finditer(r'^define (.*?)(@[-\w.$]+)\((.*)\)[^()]*\{$', t, re.M)}
    used = [f for f in heads if re.search(r'(?:\bptr |\[ )%s(?![-\w.$])' % re.escape(f), t)]
    out, n = [], 0
    body, defs, block, ren = False, {}, None, {}
    lines = t.split('\n')

    def flush(i):
        for j in range(i, len(out)):
            if ren and ' = phi ' in out[j]:
                out[j] = re.sub(r', (%[-\w.$]+) \]', lambda m: ', %s ]' % ren.get(m.group(1), m.group(1)), out[j])
    start = 0
    for l in lines:
        if l.startswith('define '):
            body, defs, block, ren, start = True, {}, '%0', {}, len(out)
        elif l == '}':
            flush(start)
            body = False
        elif body:
            m = re.match(r'([-\w.$]+):', l)
            if m:
                block = '%' + m.group(1)
            m = re.match(r'  (%[-\w.$]+) = (.*)$', l)
            if m:
                defs[m.group(1)] = m.group(2)
            m = INDIRECT.match(l)
            if m:
                res, call, ty, fp, rest = m.groups()
                d = re.match(r'load ptr, ptr (%[-\w.$]+)', defs.get(fp, ''))
                g = re.match(r'getelementptr inbounds \[\d+ x ptr\], ptr (@[-\w.$]+), i64 0, (i\d+) (%[-\w.$]+)', defs.get(d.group(1), '')) if d else None
                n += 1
                args = rest[1:rest.rindex(')')] if ')' in rest else ''
                if g and g.group(1) in tables:
                    fs = [f for f in tables[g.group(1)]]
                    lab = ['ind%d.%d' % (n, i) for i in range(len(fs))]
                    out.append('  switch %s %s, label %%ind%d.no [ %s ]' % (g.group(2), g.group(3), n, ' '.join(
                        '%s %d, label %%%s' % (g.group(2), i, x) for i, (f, x) in enumerate(zip(fs, lab)) if f != 'null')))
                    fs = [(f, x) for f, x in zip(fs, lab) if f != 'null']
                else:
                    fs = [(f, 'ind%d.%d' % (n, i)) for i, f in enumerate(f for f in used if heads[f][1] == len(split(args)))]
                    if not fs:
                        out.append(l)
                        continue
                    for f, x in fs:
                        out.append('  %%%s.c = icmp eq ptr %s, %s' % (x, fp, f))
                        out.append('  br i1 %%%s.c, label %%%s, label %%%s.n' % (x, x, x))
                        out.append('%s.n:' % x)
                    out.append('  br label %%ind%d.no' % n)
                vals = []
                for f, x in fs:
                    out.append('%s:' % x)
                    out.append('  %s%s %s%s%s' % ('%%%s.r = ' % x if res else '', call, ty, f, rest))
                    out.append('  br label %%ind%d.end' % n)
                    vals.append('[ %%%s.r, %%%s ]' % (x, x))
                out.append('ind%d.no:' % n)
                out.append('  unreachable')
                out.append('ind%d.end:' % n)
                if res:
                    rt = re.sub(r'\b(noundef|signext|zeroext|noalias|nonnull|fastcc)\b ?', '', ty).strip().split(' (')[0]
                    out.append('  %s = phi %s %s' % (res, rt, ', '.join(vals)))
                ren = {k: ('%%ind%d.end' % n if v == block else v) for k, v in ren.items()}
                ren[block] = '%%ind%d.end' % n
                block = '%%ind%d.end' % n
                continue
        out.append(l)
    return '\n'.join(out)


def split(args):
    out, depth, cur = [], 0, ''
    for c in args:
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if c == ',' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return out + [cur] if cur.strip() else out


PASSES = 'always-inline,function(sroa<preserve-cfg>,instsimplify,simplifycfg<no-speculate-blocks;no-hoist-common-insts;no-sink-common-insts;no-switch-to-lookup;keep-loops>,jump-threading,simplifycfg<no-speculate-blocks;no-hoist-common-insts;no-sink-common-insts;no-switch-to-lookup;keep-loops>,loop-simplify,instsimplify)'
OPTIONS = ('-two-entry-phi-node-folding-threshold=0', '-phi-node-folding-threshold=0')


def normalised(sources, flags_of, cwd, defines=(), keep=(), passes=PASSES, options=OPTIONS, edit=None):
    """normalised textual IR of the linked sources"""
    d = tempfile.mkdtemp(prefix='sa-')
    try:
        bcs = []
        procs = []
        for i, s in enumerate(sources):
            o = os.path.join(d, '%d.bc' % i)
            compile_unit(s, flags_of(s), o, cwd, defines)
            bcs.append(o)
        ll = os.path.join(d, 'all.ll')
        r = run([LINK, '-S', '-o', ll] + bcs)
        if r.returncode:
            raise Broken('llvm-link: ' + r.stderr[-2000:])
        t = open(ll).read()
        if any(INDIRECT.match(l) for l in t.split('\n')):
            r = run([OPT, '-S', '-passes=function(sroa<preserve-cfg>)', ll, '-o', ll])
            if r.returncode:
                raise Broken('opt: ' + r.stderr[-2000:])
            t = direct(open(ll).read())
        t = mark_inline(edit(t) if edit else t, keep)
        ll2 = os.path.join(d, 'in.ll')
        open(ll2, 'w').write(t)
        out = os.path.join(d, 'out.ll')
        r = run([OPT, '-S', *options, '-passes=' + passes, ll2, '-o', out])
        if r.returncode:
            raise Broken('opt: ' + r.stderr[-2000:])
        return open(out).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def library(defines=(), keep=()):
    src = os.path.join(REPO, 'src')
    u = units(src, ['liboprf.a'])
    core = [s for s in u if '/noise_xk/' not in s and '/tests/' not in s]
    if not core:
        raise Broken('the makefile names no library sources')
    return normalised(core, lambda s: u[s], src, defines, keep), core


def noise(keep=()):
    d = os.path.join(REPO, 'src', 'noise_xk')
    u = units(d, ['all'])
    core = [s for s in u if '/src/' in s]
    if not core:
        raise Broken('the noise makefile names no sources')
    return normalised(core, lambda s: u[s], d, (), keep), core


if __name__ == '__main__':
    t, s = library() if len(sys.argv) < 2 else noise()
    print(s)
    open('/tmp/w/lib.ll' if len(sys.argv) < 2 else '/tmp/w/noise.ll', 'w').write(t)
