"""Front end of the analyses: compiles /repo's current sources to LLVM IR with clang, lets tool/irx.cpp
normalise and export it, and offers the resolved program (functions, blocks, SSA values, field paths,
global initialisers) to the Python analyses.  Nothing of wla-dx is executed."""
import hashlib, json, os, re, subprocess, sys, tempfile, uuid, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, 'build'))
CLANG = next((p for p in ('/usr/bin/clang-18', '/usr/lib/llvm-18/bin/clang', '/usr/bin/clang') if os.path.exists(p)), 'clang')


class AnalysisBroken(Exception):
    """An anchor the analysis needs is gone: neither 'holds' nor 'violated' can be reported."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise AnalysisBroken('command failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r.stdout


def build_tool():
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'irx-' + h)
    if os.path.exists(exe):
        return exe
    lc = next((p for p in ('/usr/bin/llvm-config-18', '/usr/lib/llvm-18/bin/llvm-config', '/usr/bin/llvm-config') if os.path.exists(p)))
    cx = [f for f in sh([lc, '--cxxflags']).split() if not f.startswith('-std') and f != '-fno-exceptions']
    ld = sh([lc, '--ldflags']).split()
    tmp = exe + '.%d.%s' % (os.getpid(), uuid.uuid4().hex[:8])
    sh(['g++', '-O1', '-std=c++17'] + cx + [src, '-o', tmp] + ld + ['-lLLVM-18'])
    os.replace(tmp, exe)
    return exe


# ---------------------------------------------------------------- what is built from what
def _cmake_list(text, name):
    m = re.search(r'set\(\s*%s\s+(.*?)\)' % name, text, re.S)
    if not m:
        raise AnalysisBroken('CMakeLists.txt: no set(%s ...)' % name)
    return [l for l in re.sub(r'#.*', '', m.group(1)).split()]


def programs():
    top = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    archs = [a.strip('"').split(':') for a in _cmake_list(top, 'ARCHS')]
    wla = [f for f in _cmake_list(top, 'WLA_SRCS') if f.endswith('.c')]
    out = {}
    for n, d in archs:
        out['wla-' + n] = ([f for f in wla] + ['i%s.c' % n], [d])
        out['gen-' + n] = (['instruction_table_generator/main.c', 'i%s.c' % n], [d])
    for sub, var in (('wlalink', 'WLALINK_SRCS'), ('wlab', 'WLAB_SRCS')):
        t = open(os.path.join(REPO, sub, 'CMakeLists.txt')).read()
        out[sub] = ([os.path.normpath(os.path.join(sub, f)) for f in _cmake_list(t, var) if f.endswith('.c')], [])
    out['byte_tester'] = (['byte_tester/main.c'], [])
    return out


BASE = ['-DUNIX', '-DNDEBUG', '-ansi', '-I.', '-w']


def compile_tu(src, defs):
    """-> (path of bitcode, hash)"""
    flags = BASE + ['-D' + d for d in defs]
    pre = subprocess.run([CLANG] + flags + ['-E', src], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise AnalysisBroken('%s does not preprocess: %s' % (src, pre.stderr.decode()[-2000:]))
    h = hashlib.sha256(pre.stdout + b'\0' + src.encode()).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True)
    bc = os.path.join(CACHE, h + '.bc')
    if not os.path.exists(bc):
        tmp = bc + '.%d.%s' % (os.getpid(), uuid.uuid4().hex[:8])
        r = subprocess.run([CLANG] + flags + ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-builtin', '-emit-llvm', '-c', src, '-o', tmp],
                           cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise AnalysisBroken('%s does not compile: %s' % (src, r.stderr[-2000:]))
        os.replace(tmp, bc)
    return bc, h


def export(bcs, keep=None, into=None):
    exe = build_tool()
    key = hashlib.sha256(('|'.join(h for _, h in bcs) + '#' + '\n'.join(sorted(keep or [])) + '#' + ','.join(into or []) + exe).encode()).hexdigest()[:24]
    js = os.path.join(CACHE, key + '.json')
    if not os.path.exists(js):
        tmp = js + '.%d.%s' % (os.getpid(), uuid.uuid4().hex[:8])
        cmd = [exe] + [b for b, _ in bcs] + ['-o', tmp]
        kf = None
        if keep is not None:
            kf = tmp + '.keep'
            open(kf, 'w').write('\n'.join(sorted(keep)) + '\n')
            cmd += ['--keep', kf]
        for f in into or []:
            cmd += ['--into', f]
        sh(cmd)
        if kf:
            os.unlink(kf)
        os.replace(tmp, js)
    return js


_POOL = None


def load(program, only=None, keep=None, into=None):
    """Module for one program: all of its TUs linked, or those in `only`."""
    return load_many([program], only, keep, into)[program]


def baseline_functions():
    """Names of the functions the analyses know: they stay calls, anything else (a helper extracted later) is inlined into its callers."""
    return set(open(os.path.join(VERIF, 'lib', 'data', 'functions.txt')).read().split())


def load_norm(progs, only=None):
    """modules in which every function not in data/functions.txt is inlined"""
    if isinstance(progs, str):
        return load_many([progs], only, baseline_functions(), ['*'])[progs]
    return load_many(progs, only, baseline_functions(), ['*'])


def load_many(progs, only=None, keep=None, into=None):
    table = programs()
    jobs = {}
    for p in progs:
        if p not in table:
            raise AnalysisBroken('no program %s' % p)
        srcs, defs = table[p]
        if only is not None:
            srcs = [s for s in srcs if s in only or os.path.basename(s) in only]
        jobs[p] = (srcs, defs)
    build_tool()
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {(p, s): ex.submit(compile_tu, s, jobs[p][1]) for p in jobs for s in jobs[p][0]}
        bcs = {k: f.result() for k, f in futs.items()}
        futs2 = {p: ex.submit(export, [bcs[(p, s)] for s in jobs[p][0]], keep, into) for p in jobs}
        js = {p: f.result() for p, f in futs2.items()}
    out, memo = {}, {}
    for p in progs:
        if js[p] not in memo:
            memo[js[p]] = json.load(open(js[p]))
        out[p] = Module(memo[js[p]], p)
    prune_cache()
    return out


def prune_cache(limit=3 << 30):
    try:
        fs = [(os.stat(os.path.join(CACHE, f)), os.path.join(CACHE, f)) for f in os.listdir(CACHE)]
        tot = sum(s.st_size for s, _ in fs)
        for s, f in sorted(fs, key=lambda t: t[0].st_mtime):
            if tot <= limit:
                break
            if 'irx-' in f:
                continue
            os.unlink(f)
            tot -= s.st_size
    except OSError:
        pass


# ---------------------------------------------------------------- model
class Instr:
    __slots__ = ('id', 'op', 'ty', 'line', 'ops', 'x', 'bb', 'fn')

    def __init__(s, raw, bb, fn):
        s.id, s.op, s.ty, s.line, s.ops = raw[0], raw[1], raw[2], raw[3], raw[4]
        s.x = raw[5] if len(raw) > 5 else {}
        s.bb, s.fn = bb, fn

    @property
    def callee(s):
        if s.op != 'call':
            return None
        c = s.ops[0]
        return c[1] if isinstance(c, list) and c[0] == 'fn' else None

    @property
    def args(s):
        return s.ops[1:]

    @property
    def file(s):
        return s.x.get('f') or s.fn.file

    def loc(s):
        return '%s:%d (%s)' % (s.file, s.line, s.x.get('il') or s.fn.name)

    def __repr__(s):
        return '%%%d=%s %s %s @%d' % (s.id, s.op, s.ty, s.ops, s.line)


class Function:
    def __init__(s, raw, mod):
        s.mod = mod
        s.name, s.file, s.line, s.ret, s.params = raw['name'], raw['file'], raw['line'], raw['ret'], raw['params']
        s.internal = raw['internal']
        s.blocks = []
        s.defs = {}
        for bi, b in enumerate(raw['blocks']):
            l = []
            for r in b:
                i = Instr(r, bi, s)
                s.defs[i.id] = i
                l.append(i)
            s.blocks.append(l)
        s.succ = [s._succs(b) for b in s.blocks]
        s.pred = [[] for _ in s.blocks]
        for i, ss in enumerate(s.succ):
            for t in ss:
                if i not in s.pred[t]:
                    s.pred[t].append(i)
        s._dom = s._pdom = s._loops = s._users = None

    def _succs(s, b):
        t = b[-1]
        if t.op == 'br':
            return [t.ops[0]] if len(t.ops) == 1 else ([t.ops[1], t.ops[2]] if t.ops[1] != t.ops[2] else [t.ops[1]])
        if t.op == 'switch':
            o = [t.ops[1]]
            for v, d in t.ops[2:]:
                if d not in o:
                    o.append(d)
            return o
        return []

    def instrs(s):
        for b in s.blocks:
            yield from b

    def calls(s, name=None):
        for i in s.instrs():
            if i.op == 'call' and (name is None or i.callee == name):
                yield i

    def users(s):
        if s._users is None:
            u = {}
            def walk(v, ins):
                if isinstance(v, list):
                    if len(v) == 2 and v[0] == 'i':
                        u.setdefault(v[1], []).append(ins)
                    else:
                        for e in v:
                            walk(e, ins)
            for i in s.instrs():
                walk(i.ops, i)
            s._users = u
        return s._users

    # reachable blocks, dominators (Cooper-Harvey-Kennedy)
    def rpo(s):
        seen, order = set(), []
        st = [(0, iter(s.succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(s.succ[m])))
                    break
            else:
                order.append(n)
                st.pop()
        return order[::-1]

    @staticmethod
    def _idom(order, preds):
        idx = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds(b):
                    if p in idom and p in idx:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dom(s):
        if s._dom is None:
            s._dom = s._idom(s.rpo(), lambda b: s.pred[b])
        return s._dom

    def dominates(s, a, b):
        d = s.dom()
        if b not in d or a not in d:
            return False
        while True:
            if a == b:
                return True
            if d[b] == b:
                return False
            b = d[b]

    def idominates(s, i, j):
        """instruction i dominates instruction j"""
        if i.bb == j.bb:
            return s.blocks[i.bb].index(i) < s.blocks[j.bb].index(j)
        return s.dominates(i.bb, j.bb)

    def pdom(s):
        """immediate postdominators; virtual exit = -1"""
        if s._pdom is None:
            n = len(s.blocks)
            exits = [b for b in range(n) if not s.succ[b]]
            succ = {b: list(s.pred[b]) for b in range(n)}
            succ[-1] = exits
            pred = {b: list(s.succ[b]) or [-1] for b in range(n)}
            pred[-1] = []
            seen, order = {-1}, []
            st = [(-1, iter(succ[-1]))]
            while st:
                x, it = st[-1]
                for m in it:
                    if m not in seen:
                        seen.add(m)
                        st.append((m, iter(succ[m])))
                        break
                else:
                    order.append(x)
                    st.pop()
            s._pdom = s._idom(order[::-1], lambda b: pred[b])
        return s._pdom

    def loops(s):
        """natural loops: header -> set of blocks"""
        if s._loops is None:
            L = {}
            d = s.dom()
            for b in d:
                for t in s.succ[b]:
                    if s.dominates(t, b):
                        body = L.setdefault(t, {t})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(p for p in s.pred[x] if p in d)
            s._loops = L
        return s._loops

    def where(s):
        return '%s:%d %s()' % (s.file, s.line, s.name)


class Module:
    def __init__(s, raw, name):
        s.name = name
        s.structs, s.globals, s.decls = raw['structs'], raw['globals'], set(raw['decls'])
        s._raw = {f['name']: f for f in raw['functions']}
        s._fn = {}

    def fn(s, name, required=True):
        if name not in s._fn:
            if name not in s._raw:
                if required:
                    raise AnalysisBroken('%s: function %s() not found' % (s.name, name))
                return None
            s._fn[name] = Function(s._raw[name], s)
        return s._fn[name]

    def names(s):
        return list(s._raw)

    def functions(s):
        for n in s._raw:
            yield s.fn(n)

    def field_index(s, struct, field):
        for i, (n, t, o) in enumerate(s.structs[struct]['fields']):
            if n == field:
                return i
        raise AnalysisBroken('%s has no field %s' % (struct, field))

    def glob(s, name):
        if name not in s.globals:
            raise AnalysisBroken('%s: global %s not found' % (s.name, name))
        return s.globals[name]


# ---------------------------------------------------------------- values as canonical expressions
COMM = {'add', 'mul', 'and', 'or', 'xor'}


class Sym:
    """Canonical expression of SSA values of one function.  Loads become ('ld', path)."""

    def __init__(s, fn):
        s.fn = fn
        s.memo = {}

    def path(s, v):
        """address -> hashable access path"""
        if isinstance(v, list):
            k = v[0]
            if k == 'g':
                return ('g', v[1])
            if k == 's':
                return ('s', v[1])
            if k == 'gep':
                return s._gep(s.path(v[1]), v[2])
            if k == 'i':
                d = s.fn.defs[v[1]]
                if d.op == 'getelementptr':
                    return s._gep(s.path(d.ops[0]), d.ops[1])
                if d.op == 'alloca':
                    return ('l', d.x.get('n', '') or '%%%d' % d.id, d.id)
                return ('p', s.ex(v))
        return ('p', s.ex(v))

    def _gep(s, base, steps):
        out = base
        if base[0] in ('ptr+',):
            pass
        for st in steps:
            if st[0] == 'f':
                out = ('f', out, st[3])
            else:
                out = ('x', out, s.ex(st[1]), st[3])
        return out

    def ex(s, v):
        if not isinstance(v, list):
            return v
        k = v[0]
        if k == 'i':
            if v[1] not in s.memo:
                s.memo[v[1]] = ('cyc', v[1])
                s.memo[v[1]] = s._ex(s.fn.defs[v[1]])
            return s.memo[v[1]]
        if k == 'a':
            return ('arg', v[1])
        if k in ('g', 'gep'):
            return ('addr', s.path(v))
        return tuple(v) if all(not isinstance(e, list) for e in v) else ('?',)

    def _ex(s, d):
        o = d.op
        if o == 'load':
            return ('ld', s.path(d.ops[0]), d.id)
        if o in ('sext', 'zext', 'trunc', 'bitcast', 'fptosi', 'sitofp', 'uitofp', 'fptoui', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'freeze', 'fneg'):
            return (o, d.ty, s.ex(d.ops[0]))
        if o == 'getelementptr' or o == 'alloca':
            return ('addr', s.path(['i', d.id]))
        if o == 'call':
            return ('call', d.callee or '*', tuple(s.ex(a) for a in d.args), d.id)
        if o == 'phi':
            return ('phi', d.id, d.x.get('n', ''))
        if o in ('icmp', 'fcmp'):
            return (o, d.ops[0], s.ex(d.ops[1]), s.ex(d.ops[2]))
        if o == 'select':
            return (o,) + tuple(s.ex(a) for a in d.ops)
        return (o, d.ty) + tuple(s.ex(a) for a in d.ops)


def noid(e):
    """drop load/call ids: equality of shape"""
    if isinstance(e, tuple):
        if e and e[0] == 'ld':
            return ('ld', noid(e[1]))
        if e and e[0] == 'call':
            return ('call', e[1], noid(e[2]))
        return tuple(noid(x) for x in e)
    return e


def show(e):
    """readable C-like text of an expression"""
    if not isinstance(e, tuple) or not e:
        return str(e)
    k = e[0]
    if k == 'ld':
        return show(e[1])
    if k == 'g':
        return e[1]
    if k == 's':
        return json.dumps(e[1])
    if k == 'l':
        return e[1]
    if k == 'p':
        return show(e[1])
    if k == 'f':
        b = e[1]
        return (show(b) + '->' if b[0] == 'p' else show(b) + '.') + e[2]
    if k == 'x':
        return '%s[%s]' % (show(e[1]), show(e[2]))
    if k == 'addr':
        return '&' + show(e[1])
    if k == 'arg':
        return 'arg%d' % e[1]
    if k in ('sext', 'zext', 'bitcast', 'sitofp', 'fpext'):
        return show(e[2])
    if k == 'trunc':
        return '(%s)%s' % (e[1], show(e[2]))
    if k == 'fptosi':
        return '(int)%s' % show(e[2])
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(show(a) for a in e[2]))
    if k == 'phi':
        return e[2] or 'phi%d' % e[1]
    if k in ('icmp', 'fcmp'):
        return '%s %s %s' % (show(e[2]), {'eq': '==', 'ne': '!=', 'slt': '<', 'sgt': '>', 'sle': '<=', 'sge': '>=', 'ult': '<u', 'ugt': '>u', 'ule': '<=u', 'uge': '>=u'}.get(e[1], e[1]), show(e[3]))
    ops = {'add': '+', 'sub': '-', 'mul': '*', 'sdiv': '/', 'srem': '%', 'and': '&', 'or': '|', 'xor': '^', 'shl': '<<', 'ashr': '>>', 'lshr': '>>>',
           'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}
    if k in ops:
        return '(%s %s %s)' % (show(e[2]), ops[k], show(e[3]))
    return '%s(%s)' % (k, ', '.join(show(a) for a in e[1:]))


def guards(fn, bb):
    """[(branch instr, truth or switch-case set, cond operand)] of the edges every path to bb takes"""
    out = []
    d = fn.dom()
    if bb not in d:
        return out
    b = bb
    while True:
        p = d[b]
        # does a single edge p->b dominate b?  all other preds of b must be dominated by b
        if p != b:
            t = fn.blocks[p][-1]
            if b in fn.succ[p] and all(q == p or fn.dominates(b, q) for q in fn.pred[b]):
                if t.op == 'br' and len(t.ops) == 3 and t.ops[1] != t.ops[2]:
                    out.append((t, t.ops[1] == b, t.ops[0]))
                elif t.op == 'switch':
                    cs = [v for v, dst in t.ops[2:] if dst == b]
                    if t.ops[1] == b:
                        out.append((t, ('not', [v for v, dst in t.ops[2:] if dst != b]), t.ops[0]))
                    else:
                        out.append((t, ('in', cs), t.ops[0]))
        if p == b:
            return out
        b = p
