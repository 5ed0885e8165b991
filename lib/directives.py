"""Partial evaluation of the directive parser: what is reached when the current directive is a given word.

The word is a known string in g_current_directive (until something may overwrite it) and in every local buffer that is only
ever filled from it.  Comparisons, lengths, characters and switches over it are decided, everything else goes both ways."""
import re
import ir, consts

CUR = 'g_current_directive'
EQ = {'strcmp': True, 'strcaselesscmp': False, 'strcasecmp': False, 'strncmp': True, 'strncasecmp': False, 'memcmp': True}
COPY = {'strcpy', 'strncpy', 'memcpy', 'llvm.memcpy.p0.p0.i64', 'snprintf_', 'strncat', 'strcat'}


class Spec:
    def __init__(s, m):
        s.m = m
        s.F = {f.name: f for f in m.functions()}
        if CUR not in m.globals:
            raise ir.AnalysisBroken(m.name + ': no ' + CUR)
        direct_r, direct_w, callers = set(), set(), {}
        for n, f in s.F.items():
            for i in f.instrs():
                if i.op == 'store' and s.base(f, i.ops[1]) == ('g', CUR):
                    direct_w.add(n)
                elif i.op == 'load' and s.base(f, i.ops[0]) == ('g', CUR):
                    direct_r.add(n)
                elif i.op == 'call':
                    if i.callee in s.F:
                        callers.setdefault(i.callee, set()).add(n)
                    for k, a in enumerate(i.args):
                        if s.base(f, a) == ('g', CUR):
                            (direct_w if k == 0 and (i.callee in COPY or i.callee not in s.F and i.callee not in EQ and i.callee not in ('strlen', 'toupper', 'print_text', 'print_error', 'fprintf', 'strstr')) else direct_r).add(n)
                            if i.callee in s.F and k == 0 and s.writes_param(i.callee, k):
                                direct_w.add(n)
        s.writers = close(direct_w, callers)
        s.users = close(direct_r | direct_w, callers)
        s.bufs = {n: s.buffers(f) for n, f in s.F.items() if n in s.users}
        s.eff0 = {}
        s.small0, s.reads0, s.frames = {}, {}, [()]
        s.consts, s.env = consts.Consts(m), {}

    def writes_param(s, n, k):
        f = s.F[n]
        return any(i.op == 'store' and s.base(f, i.ops[1]) == ('a', k) for i in f.instrs()) or \
            any(i.op == 'call' and i.callee in COPY and s.base(f, i.args[0]) == ('a', k) for i in f.instrs())

    @staticmethod
    def base(f, v):
        while isinstance(v, list) and v:
            if v[0] == 'i':
                d = f.defs[v[1]]
                if d.op in ('getelementptr', 'bitcast', 'freeze'):
                    v = d.ops[0]
                    continue
                return ('i', v[1]) if d.op == 'alloca' else None
            if v[0] == 'gep':
                v = v[1]
                continue
            if v[0] in ('g', 'a'):
                return (v[0], v[1])
            return None
        return None

    def buffers(s, f):
        """{alloca: 'same' | 'upper'}: the buffers that only ever hold the word"""
        w = {}
        for i in f.instrs():
            if i.op == 'store':
                b = s.base(f, i.ops[1])
                if b and b[0] == 'i':
                    w.setdefault(b[1], set()).add(s.char(f, i.ops[0]))
            elif i.op == 'call' and i.callee and i.args:
                for k, a in enumerate(i.args):
                    b = s.base(f, a)
                    if b and b[0] == 'i':
                        if k == 0 and i.callee in ('strcpy',):
                            w.setdefault(b[1], set()).add('same' if s.base(f, i.args[1]) == ('g', CUR) else None)
                        elif k == 0 and i.callee in COPY:
                            w.setdefault(b[1], set()).add(None)
                        elif i.callee in s.F and s.writes_param(i.callee, k):
                            w.setdefault(b[1], set()).update(s.copies(i.callee, k, f, i))
        out = {}
        for a, x in w.items():
            x = x - {'nul'}
            if len(x) == 1 and None not in x:
                out[a] = x.pop()
        return out

    def always_upper(s):
        """every character put into the word is a toupper() or the terminator"""
        n = 0
        for f in s.m.functions():
            for i in f.instrs():
                if i.op == 'store' and s.base(f, i.ops[1]) == ('g', CUR):
                    v = i.ops[0]
                    while isinstance(v, list) and v[0] == 'i' and f.defs[v[1]].op in ('trunc', 'sext', 'zext'):
                        v = f.defs[v[1]].ops[0]
                    if isinstance(v, int):
                        if chr(v & 255).islower():
                            return False
                    elif isinstance(v, list) and v[0] == 'i' and f.defs[v[1]].op == 'call' and f.defs[v[1]].callee == 'toupper':
                        n += 1
                    else:
                        return False
                elif i.op == 'call' and i.callee and i.args and s.base(f, i.args[0]) == ('g', CUR) and (i.callee in COPY or i.callee in s.F and s.writes_param(i.callee, 0)):
                    if i.callee == 'strcpy' and isinstance(i.args[1], list) and i.args[1][0] == 's' and i.args[1][1].upper() == i.args[1][1]:
                        continue
                    if i.callee in s.F and s.copies(i.callee, 0, f, i) <= {'upper', 'nul'}:
                        continue
                    return False
        return n > 0

    def copies(s, n, k, f, call):
        """what the function n writes to its parameter k"""
        g = s.F[n]
        out = set()
        for i in g.instrs():
            if i.op == 'store' and s.base(g, i.ops[1]) == ('a', k):
                for j in range(len(call.args)):
                    if j != k and s.base(f, call.args[j]) == ('g', CUR):
                        x = s.char(g, i.ops[0], ('a', j))
                        if x:
                            out.add(x)
                            break
                else:
                    out.add(s.char(g, i.ops[0]))
            elif i.op == 'call' and any(s.base(g, a) == ('a', k) for a in i.args) and not (i.callee or '').startswith('llvm.dbg'):
                out.add(None)
        return out

    def char(s, f, v, src=('g', CUR)):
        """what the character v, stored in a buffer, is"""
        if v == 0:
            return 'nul'
        up = False
        for _ in range(8):
            if not isinstance(v, list) or not v or v[0] != 'i':
                return None
            d = f.defs[v[1]]
            if d.op in ('trunc', 'sext', 'zext'):
                v = d.ops[0]
            elif d.op == 'call' and d.callee == 'toupper':
                up = True
                v = d.args[0]
            elif d.op == 'load' and s.base(f, d.ops[0]) == src:
                return 'upper' if up else 'same'
            else:
                return None
        return None

    # ---------------------------------------------------------------- evaluation
    def text(s, f, v, known):
        if isinstance(v, list) and v and v[0] == 's':
            return v[1]
        if isinstance(v, list) and v and v[0] == 'i' and isinstance(s.env.get(v[1]), tuple) and s.env[v[1]][0] == 'str':
            return s.env[v[1]][1]
        b = s.base(f, v)
        if b is None:
            return None
        if b[0] == 'g' and b[1] != CUR:
            e = s.env
            c = s.consts.at(f, v, lambda x: s.val(f, x, known, e))
            return c[1] if isinstance(c, list) and c and c[0] == 's' else None
        off = s.offset(f, v)
        if off is None:
            return None
        if b[0] == 'a' and len(s.frames[-1]) > b[1] and s.frames[-1][b[1]] is not None:
            return s.frames[-1][b[1]][off:]
        if b == ('g', CUR):
            return s.word[off:] if known else None
        if b[0] == 'i' and b[1] in s.bufs.get(f.name, ()):
            return (s.word.upper() if s.bufs[f.name][b[1]] == 'upper' else s.word)[off:]
        return None

    def offset(s, f, v):
        if v[0] == 'i':
            d = f.defs[v[1]]
            if d.op == 'alloca':
                return 0
            if d.op == 'getelementptr':
                o = s.offset(f, d.ops[0])
                return None if o is None else s.steps(d.ops[1], o)
            if d.op in ('bitcast', 'freeze'):
                return s.offset(f, d.ops[0])
            return None
        if v[0] == 'gep':
            o = s.offset(f, v[1])
            return None if o is None else s.steps(v[2], o)
        return 0

    @staticmethod
    def steps(st, o):
        for x in st:
            if x[0] == 'x' and isinstance(x[1], int):
                o += x[1] * x[3]
            else:
                return None
        return o

    def val(s, f, v, known, env):
        if isinstance(v, int):
            return v
        if v == ['null']:
            return 0
        if not isinstance(v, list) or not v or v[0] != 'i':
            return None
        if v[1] in env:
            return env[v[1]]
        d = f.defs[v[1]]
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            return s.val(f, d.ops[0], known, env)
        if d.op == 'select':
            c = s.val(f, d.ops[0], known, env)
            return None if c is None else s.val(f, d.ops[1] if c else d.ops[2], known, env)
        if d.op == 'icmp':
            p, a, b = d.ops
            a, b = s.val(f, a, known, env), s.val(f, b, known, env)
            if a is None or b is None:
                return None
            if isinstance(a, tuple) or isinstance(b, tuple):
                return int(p == 'ne') if 0 in (a, b) and p in ('eq', 'ne') else None
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b}.get(p, 0)) if p in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge') else None
        return None

    def run(s, n, known, D, texts=()):
        """{(returned value or None, word still known)}"""
        k = (n, known, texts)
        if k in s.memo:
            return s.memo[k]
        s.memo[k] = {(None, False)}
        s.frames.append(texts)
        try:
            return s.run1(n, known, D, k)
        finally:
            s.frames.pop()

    def run1(s, n, known, D, k):
        f = s.F[n]
        out = set()
        work = [(0, None, known, ())]
        seen = set()
        rets = {i.ops[0][1] for i in f.instrs() if i.op == 'ret' and i.ops and isinstance(i.ops[0], list) and i.ops[0][0] == 'i'}
        track = s.small(n)
        if track:
            rets = {i.id for i in f.instrs() if i.op in ('phi', 'load', 'add', 'sub', 'call')}
        while work:
            st = work.pop()
            b, pb, kn, envt = st
            if st in seen:
                continue
            seen.add(st)
            if track and len(seen) > 3000:
                return {(None, False)}
            env = dict(envt)
            old = dict(envt)
            # the value that is returned goes through phis
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                if i.id in rets and pb is not None:
                    for v, p in i.ops:
                        if p == pb:
                            x = s.val(f, v, kn, old)
                            env.pop(i.id, None)
                            if x is not None:
                                env[i.id] = x
            states = [(kn, env)]
            for i in f.blocks[b]:
                nxt = []
                for kn, env in states:
                    if track and i.op in ('add', 'sub', 'load', 'call'):
                        env = dict(env)
                        env.pop(i.id, None)
                        if i.op in ('add', 'sub'):
                            a, c = (s.val(f, x, kn, env) for x in i.ops)
                            if isinstance(a, int) and isinstance(c, int):
                                env[i.id] = a + c if i.op == 'add' else a - c
                    nxt += s.step(f, i, kn, env, D)
                states = nxt
                if not states:
                    break
            t = f.blocks[b][-1]
            s.visited.add((n, b))
            for kn, env in states:
                if t.op == 'ret':
                    out.add((s.val(f, t.ops[0], kn, env) if t.ops else None, kn))
                    continue
                if t.op == 'br' and len(t.ops) == 3:
                    c = s.val(f, t.ops[0], kn, env)
                    nx = [t.ops[1], t.ops[2]] if c is None else [t.ops[1] if c else t.ops[2]]
                elif t.op == 'switch':
                    c = s.val(f, t.ops[0], kn, env)
                    if c is None:
                        nx = f.succ[b]
                    else:
                        nx = [next((d for v, d in t.ops[2:] if v == c), t.ops[1])]
                else:
                    nx = f.succ[b]
                keep = tuple(sorted((a, x) for a, x in env.items() if a in rets or f.defs[a].op == 'call'))
                for x in nx:
                    work.append((x, b, kn, keep))
        s.memo[k] = out
        return out

    def step(s, f, i, kn, env, D):
        s.env = env
        if i.op == 'store':
            s.effect(f, i)
            if s.base(f, i.ops[1]) == ('g', CUR):
                kn = False
        elif i.op == 'load':
            t = s.text(f, i.ops[0], kn)
            if t is not None and i.ty == 'i8':
                env = dict(env)
                env[i.id] = ord(t[0]) if t else 0
            elif t is None or i.ty != 'i8':
                x = s.consts.load(f, i, lambda q: s.val(f, q, kn, env))
                if x is not None:
                    env = dict(env)
                    env[i.id] = x
        elif i.op == 'call' and i.callee:
            c = i.callee
            if c in EQ and len(i.args) >= 2:
                a, b = s.text(f, i.args[0], kn), s.text(f, i.args[1], kn)
                if len(i.args) > 2 and a is not None and b is not None:
                    n = s.val(f, i.args[2], kn, env)
                    a, b = (a[:n], b[:n]) if n is not None and (c != 'memcmp' or n <= min(len(a), len(b)) + 1) else (None, None)
                if a is not None and b is not None:
                    env = dict(env)
                    env[i.id] = int(not (a == b if EQ[c] else a.upper() == b.upper()))
                    if env[i.id] == 0:
                        s.matched.add(i.loc())
                return [(kn, env)]
            if c in ('toupper', 'tolower'):
                a = s.val(f, i.args[0], kn, env)
                if a is not None and 0 <= a < 128:
                    env = dict(env)
                    env[i.id] = ord(chr(a).upper() if c == 'toupper' else chr(a).lower())
                return [(kn, env)]
            if c == 'strlen':
                a = s.text(f, i.args[0], kn)
                if a is not None:
                    env = dict(env)
                    env[i.id] = len(a)
                return [(kn, env)]
            if c in s.F:
                texts = tuple(s.text(f, a, kn) for a in i.args)
                if c in s.users or any(x is not None for x in texts) and s.small(c):
                    if any(s.base(f, a) is not None and s.base(f, a)[0] != 'g' and s.writes_param(c, q) for q, a in enumerate(i.args)):
                        texts = tuple(None if s.writes_param(c, q) else x for q, x in enumerate(texts))
                    r = s.run(c, kn, D, texts if s.reads_text(c) else ())
                    s.called.add(c)
                    out = []
                    for v, k2 in r:
                        e2 = dict(env)
                        e2.pop(i.id, None)
                        if v is not None:
                            e2[i.id] = v
                        if (k2, e2) not in out:
                            out.append((k2, e2))
                    return out
                s.called.add(c)
            else:
                s.effect(f, i)
            if any(s.base(f, a) == ('g', CUR) for k, a in enumerate(i.args) if k == 0 and c in COPY):
                kn = False
        return [(kn, env)]

    def effect(s, f, i):
        s.acts.update(acts(s.m, f, i))

    def closure(s, names):
        """the effects of the functions that do not look at the word"""
        todo, seen, out = list(names), set(), set()
        while todo:
            n = todo.pop()
            if n in seen or n not in s.F:
                continue
            seen.add(n)
            if n not in s.eff0:
                f = s.F[n]
                e, cs = set(), set()
                for i in f.instrs():
                    if i.op == 'store' or i.op == 'call' and i.callee and i.callee not in s.F:
                        e |= acts(s.m, f, i)
                    elif i.op == 'call' and i.callee in s.F:
                        cs.add(i.callee)
                s.eff0[n] = (e, cs)
            e, cs = s.eff0[n]
            out |= e
            todo += [c for c in cs if c not in s.users]
        return out

    def small(s, n):
        """a function that only looks at text: no effects of its own"""
        if n not in s.small0:
            f = s.F[n]
            s.small0[n] = len(f.blocks) <= 60 and not any(i.op == 'store' or i.op == 'call' and i.callee not in EQ and i.callee not in ('strlen', 'toupper', 'tolower') and not (i.callee or '').startswith('llvm.dbg') for i in f.instrs())
        return s.small0[n]

    def reads_text(s, n):
        """a parameter is compared"""
        if n not in s.reads0:
            f = s.F[n]
            s.reads0[n] = any(i.op == 'call' and i.callee in EQ and any((s.base(f, a) or ('',))[0] == 'a' for a in i.args) for i in f.instrs())
        return s.reads0[n]

    def word_effects(s, D, entry='parse_directive'):
        """(outcomes, effects, functions called, comparisons that matched) of the directive D"""
        s.word = D
        s.memo, s.visited, s.called, s.matched, s.acts = {}, set(), set(), set(), set()
        r = s.run(entry, True, D)
        return r, s.acts | s.closure(c for c in s.called if c not in s.users), set(s.called), set(s.matched)


def acts(m, f, i):
    if i.op == 'store':
        p = i.ops[1]
        if isinstance(p, list) and p and p[0] == 'g':
            v = i.ops[0]
            return {('set', p[1], v if isinstance(v, int) else '*')}
        return set()
    if i.callee == 'fprintf':
        h = i.args[0]
        if isinstance(h, list) and h[0] == 'i' and f.defs[h[1]].op == 'load' and f.defs[h[1]].ops[0] == ['g', 'g_file_out_ptr']:
            out = set()
            for t in formats(f, i.args[1]):
                if t is None:
                    out.add(('record', '*'))
                    continue
                ts = [t]
                # a letter chosen by the program
                spec = re.findall('%[-0-9.l]*([a-zA-Z%])', t)
                for k, x in enumerate([x for x in spec if x != '%']):
                    if x == 'c':
                        cs = consts.letters(m, f, i.args[2 + k] if 2 + k < len(i.args) else None, 0, False)
                        if cs is None:
                            ts = [None]
                            break
                        ts = [y.replace('%c', chr(c), 1) for y in ts for c in cs if 32 < c < 127]
                out |= {('record', y if y is not None else '*') for y in ts}
            return out
    return set()


def formats(f, v, depth=0):
    """the texts of a format; None: not constant"""
    if isinstance(v, list) and v and v[0] == 's':
        return {v[1]}
    if isinstance(v, list) and v and v[0] == 'i' and depth < 5:
        d = f.defs[v[1]]
        if d.op == 'select':
            return formats(f, d.ops[1], depth + 1) | formats(f, d.ops[2], depth + 1)
        if d.op == 'phi':
            return set().union(*(formats(f, x, depth + 1) for x, p in d.ops))
    return {None}


def close(seed, callers):
    out = set(seed)
    todo = list(seed)
    while todo:
        for c in callers.get(todo.pop(), ()):
            if c not in out:
                out.add(c)
                todo.append(c)
    return out
