"""Loops that read over source without assembling it: where they end for a given sequence of words, and in which parser mode they run."""
import ir, directives
from directives import CUR

TOKEN = 'get_next_token'
SUBST = 'g_get_next_token_use_substitution'
MACRO = 'g_macro_active'
OFFSETS = ('add', 'sub')


class Skips(directives.Spec):
    def __init__(s, m):
        super().__init__(m)
        s.gm = {}
        s.tmp = 'g_tmp'

    # g_tmp holds the token as it was read: '.' and the word
    def text(s, f, v, known):
        if isinstance(v, list) and v and v[0] == 'i':
            b, off = v, 0
            for _ in range(6):
                d = f.defs[b[1]]
                if d.op == 'getelementptr':
                    off = s.steps(d.ops[1], off)
                    b = d.ops[0]
                    if off is None or not isinstance(b, list) or b[0] != 'i':
                        break
                    continue
                if d.op == 'load' and d.ops[0] == ['g', s.tmp]:
                    return ('.' + s.word)[off:] if known else None
                break
        return super().text(f, v, known)

    def loops_of(s, f, closers):
        """[(header, body)]: loops that read tokens and compare them with one of the closers"""
        out = []
        for h, body in sorted(f.loops().items()):
            toks, words = False, set()
            for b in body:
                for i in f.blocks[b]:
                    if i.op != 'call' or not i.callee:
                        continue
                    if i.callee == TOKEN:
                        toks = True
                    words |= s.compared(f, i)
            if toks and words & closers:
                out.append((h, body))
        # the innermost one
        return [(h, b) for h, b in out if not any(h2 != h and b2 < b for h2, b2 in out)]

    def compared(s, f, i, depth=0):
        w = set()
        for a in i.args:
            if isinstance(a, list) and a and a[0] == 's':
                if i.callee in directives.EQ or i.callee in s.F and s.reads_text(i.callee):
                    w.add(a[1].lstrip('.').upper())
        if i.callee in s.F and depth < 2 and i.callee not in (TOKEN,) and len(s.F[i.callee].blocks) < 80 and i.callee in s.users:
            g = s.F[i.callee]
            if not any(j.callee == TOKEN for j in g.calls()):
                for j in g.calls():
                    if j.callee:
                        w |= s.compared(g, j, depth + 1)
        return w

    # ------------------------------------------------------------ one run of the loop over a sequence of words
    def simulate(s, f, header, body, words, limit=6000):
        """outcomes: 'inside', ('ret', value or None), ('out',)"""
        s.memo, s.visited, s.called, s.matched, s.acts = {}, set(), set(), set(), set()
        s.frames = [()]
        s.word = ''
        init = {}
        for i in f.blocks[header]:
            if i.op != 'phi':
                break
            vs = {s.konst(f, v) for v, p in i.ops if p not in body}
            init[i.id] = vs.pop() if len(vs) == 1 else None
        env0 = {k: v for k, v in init.items() if v is not None}
        out = set()
        work = [(header, None, 0, 0, tuple(sorted(env0.items())), True)]
        seen = set()
        n = 0
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            n += 1
            if n > limit:
                out.add(('unknown',))
                break
            b, at, k, first, envt, kn = st
            env = dict(envt)
            states = [(kn, env)]
            stop = False
            blk = f.blocks[b]
            s.word = words[k - 1] if k else ''
            j = at or 0
            while j < len(blk):
                i = blk[j]
                if i.op == 'phi':
                    j += 1
                    continue
                if i.op == 'call' and i.callee == TOKEN:
                    if b not in body:
                        out.add(('out',))
                        stop = True
                        break
                    if k == len(words):
                        out.add(('inside',))
                        stop = True
                        break
                    # the token is read: go on behind the call with the next word
                    for kn2, e in states:
                        e2 = dict(e)
                        e2[i.id] = s.success
                        work.append((b, j + 1, k + 1, 0, s.keep(f, e2, body), True))
                    stop = True
                    break
                nxt = []
                for kn2, e in states:
                    nxt += s.step2(f, i, kn2, e)
                states = nxt
                j += 1
            if stop:
                continue
            t = blk[-1]
            for kn2, e in states:
                if t.op == 'ret':
                    out.add(('ret', s.val2(f, t.ops[0], e) if t.ops else None))
                    continue
                if t.op == 'br' and len(t.ops) == 3:
                    c = s.val2(f, t.ops[0], e)
                    nx = [t.ops[1], t.ops[2]] if c is None else [t.ops[1] if c else t.ops[2]]
                elif t.op == 'switch':
                    c = s.val2(f, t.ops[0], e)
                    nx = f.succ[b] if c is None else [next((d for v, d in t.ops[2:] if v == c), t.ops[1])]
                else:
                    nx = f.succ[b]
                for x in nx:
                    e2 = dict(e)
                    new = {}
                    for q in f.blocks[x]:
                        if q.op != 'phi':
                            break
                        for v, p in q.ops:
                            if p == b:
                                new[q.id] = s.val2(f, v, e)
                    for q, v in new.items():
                        e2.pop(q, None)
                        if v is not None:
                            e2[q] = v
                    work.append((x, None, k, 0, s.keep(f, e2, body), kn2))
        return out

    def konst(s, f, v):
        return v if isinstance(v, int) else None

    def keep(s, f, env, body):
        return tuple(sorted((a, v) for a, v in env.items() if f.defs[a].op in ('phi', 'call', 'load', 'add', 'sub')))

    def val2(s, f, v, env):
        if isinstance(v, int):
            return v
        if v == ['null']:
            return 0
        if not isinstance(v, list) or v[0] != 'i':
            return None
        if v[1] in env:
            return env[v[1]]
        d = f.defs[v[1]]
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            return s.val2(f, d.ops[0], env)
        if d.op == 'icmp':
            p, a, b = d.ops
            a, b = s.val2(f, a, env), s.val2(f, b, env)
            if a is None or b is None:
                return None
            if isinstance(a, tuple) or isinstance(b, tuple):
                return int(p == 'ne') if 0 in (a, b) and p in ('eq', 'ne') else None
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b}.get(p, False)) if p in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge') else None
        if d.op == 'xor':
            a, b = s.val2(f, d.ops[0], env), s.val2(f, d.ops[1], env)
            return None if a is None or b is None else a ^ b
        if d.op == 'select':
            c = s.val2(f, d.ops[0], env)
            return None if c is None else s.val2(f, d.ops[1] if c else d.ops[2], env)
        return None

    def step2(s, f, i, kn, env):
        if i.op in ('add', 'sub', 'and', 'or'):
            a, b = s.val2(f, i.ops[0], env), s.val2(f, i.ops[1], env)
            env = dict(env)
            env.pop(i.id, None)
            if isinstance(a, int) and isinstance(b, int):
                env[i.id] = a + b if i.op == 'add' else a - b if i.op == 'sub' else a & b if i.op == 'and' else a | b
            return [(kn, env)]
        if i.op in ('load', 'call'):
            env = dict(env)
            env.pop(i.id, None)
        return s.step(f, i, kn, env, None)

    # ------------------------------------------------------------ parser mode at a point
    def modes(s, f, entry=None):
        """{(block, index): {variable: set of values}} before every instruction; 'O' is the value on entry"""
        st = {0: {SUBST: frozenset(['O']), MACRO: frozenset(['O'])} if entry is None else entry}
        at, loads = {}, {}
        work = [0]
        while work:
            b = work.pop()
            cur = dict(st[b])
            for j, i in enumerate(f.blocks[b]):
                at[(b, j)] = dict(cur)
                if i.op == 'load' and isinstance(i.ops[0], list) and i.ops[0][0] == 'g' and i.ops[0][1] in cur:
                    loads[i.id] = loads.get(i.id, frozenset()) | cur[i.ops[0][1]]
                elif i.op == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] == 'g' and i.ops[1][1] in cur:
                    cur[i.ops[1][1]] = s.stored(f, i.ops[0], loads)
                elif i.op == 'call' and i.callee in s.F and i.callee != TOKEN:
                    for g, x in s.mode_effect(i.callee).items():
                        cur[g] = frozenset().union(*(cur[g] if v == 'O' else frozenset([v]) for v in x)) if x else cur[g]
            for x in f.succ[b]:
                if x not in st:
                    st[x] = dict(cur)
                    work.append(x)
                else:
                    new = {g: st[x][g] | cur[g] for g in cur}
                    if new != st[x]:
                        st[x] = new
                        work.append(x)
        return at

    def stored(s, f, v, loads, depth=0):
        if isinstance(v, int):
            return frozenset([v])
        if isinstance(v, list) and v[0] == 'i':
            if v[1] in loads:
                return loads[v[1]]
            d = f.defs[v[1]]
            if d.op == 'phi' and depth < 4:
                return frozenset().union(*(s.stored(f, x, loads, depth + 1) for x, p in d.ops))
        return frozenset(['?'])

    def mode_effect(s, n):
        """what the function leaves in the mode variables when it does not return FAILED: only for small functions that set
        them themselves; everything else restores what it changes (checked at its own returns)"""
        if n in s.gm:
            return s.gm[n]
        s.gm[n] = {}
        f = s.F[n]
        if n in s.old or not s.sets_mode(f):
            return s.gm[n]
        at = s.modes(f)
        out = {SUBST: frozenset(), MACRO: frozenset()}
        for b, blk in enumerate(f.blocks):
            if blk[-1].op == 'ret' and (b, len(blk) - 1) in at:
                a = at[(b, len(blk) - 1)]
                for g in out:
                    out[g] |= a[g]
        s.gm[n] = out
        return out

    def sets_mode(s, f):
        return any(i.op == 'store' and i.ops[1] in (['g', SUBST], ['g', MACRO]) for i in f.instrs())

    old = frozenset()


def line_field(m):
    for n, st in m.structs.items():
        for k, (fn, t, o) in enumerate(st['fields']):
            if fn == 'line_current':
                return n, k
    return None


def is_line_store(f, i):
    """a store to active_file_info.line_current"""
    if i.op != 'store' or not isinstance(i.ops[1], list):
        return False
    p = i.ops[1]
    steps = p[2] if p[0] == 'gep' else f.defs[p[1]].ops[1] if p[0] == 'i' and f.defs[p[1]].op == 'getelementptr' else ()
    return any(x[0] == 'f' and x[3] == 'line_current' for x in steps)


def rewinds(m, f, dirtying):
    """[(store, why it needs the line to be restored, restored)] of the assignments that set g_source_index back"""
    F = {}
    out = []
    stores = [i for i in f.instrs() if i.op == 'store' and i.ops[1] == ['g', 'g_source_index']]
    for st in stores:
        roots = origin(f, st.ops[0])
        for r in roots:
            if r[0] == 'idx':
                d = f.defs[r[1]]
                if not passes(f, d, st, dirtying):
                    continue
                why = 'is saved before tokens are read'
            elif r[0] == 'field':
                why = 'is the position kept in %s' % r[1]
            else:
                continue
            out.append((st, why, restored(f, st, dirtying)))
            break
    return out


def origin(f, v):
    out, seen, todo = set(), set(), [v]
    while todo:
        v = todo.pop()
        if not isinstance(v, list) or v[0] != 'i' or v[1] in seen:
            continue
        seen.add(v[1])
        d = f.defs[v[1]]
        if d.op == 'phi':
            todo += [x for x, p in d.ops]
        elif d.op in ('add', 'sub', 'sext', 'zext', 'trunc'):
            todo += [x for x in d.ops if isinstance(x, list)]
        elif d.op == 'select':
            todo += d.ops[1:]
        elif d.op == 'load':
            p = d.ops[0]
            if p == ['g', 'g_source_index']:
                out.add(('idx', d.id))
            elif isinstance(p, list) and p[0] == 'g':
                out.add(('global', p[1]))
            elif isinstance(p, list) and (p[0] == 'gep' or p[0] == 'i' and f.defs[p[1]].op == 'getelementptr'):
                steps = p[2] if p[0] == 'gep' else f.defs[p[1]].ops[1]
                fs = [x[3] for x in steps if x[0] == 'f']
                if fs:
                    out.add(('field', fs[-1]))
    return out


def passes(f, a, b, dirtying):
    """a path from a to b reads tokens in between (without coming through a again)"""
    todo, seen = [(a.bb, f.blocks[a.bb].index(a) + 1, False)], set()
    while todo:
        bb, j, dirty = todo.pop()
        if (bb, j, dirty) in seen:
            continue
        seen.add((bb, j, dirty))
        blk = f.blocks[bb]
        done = False
        for i in blk[j:]:
            if i is a:
                done = True
                break
            if i is b:
                if dirty:
                    return True
                done = True
                break
            if i.op == 'call' and i.callee in dirtying:
                dirty = True
        if not done:
            todo += [(x, 0, dirty) for x in f.succ[bb]]
    return False


def restored(f, st, dirtying):
    """line_current is set on every path from the store before the next token is read or the function returns, or just before it"""
    # before: a line store that dominates the store with nothing read in between
    for i in f.instrs():
        if is_line_store(f, i) and f.idominates(i, st) and not passes(f, i, st, dirtying):
            return True
    todo, seen = [(st.bb, None, f.blocks[st.bb].index(st) + 1)], set()
    while todo:
        bb, pb, j = todo.pop()
        if (bb, pb, j) in seen:
            continue
        seen.add((bb, pb, j))
        blk = f.blocks[bb]
        ok = False
        for i in blk[j:]:
            if is_line_store(f, i):
                ok = True
                break
            if i.op == 'call' and (i.callee in dirtying or i.callee in ('next_line', 'parse_directive', 'evaluate_token')):
                return False
            if i.op == 'ret':
                v = i.ops[0] if i.ops else None
                if isinstance(v, list) and v[0] == 'i' and f.defs[v[1]].op == 'phi' and f.defs[v[1]].bb == bb:
                    v = next((x for x, p in f.defs[v[1]].ops if p == pb), v)
                if v == 0:
                    ok = True
                    break
                return False
        if not ok:
            todo += [(x, bb, 0) for x in f.succ[bb]]
    return True


def returns(f):
    """[(value, block after which it is certain)]: the returned values, phi operands apart"""
    out = []
    for b, blk in enumerate(f.blocks):
        if blk[-1].op != 'ret':
            continue
        todo, seen = [(blk[-1].ops[0] if blk[-1].ops else None, b)], set()
        while todo:
            v, at = todo.pop()
            if isinstance(v, list) and v[0] == 'i' and f.defs[v[1]].op == 'phi' and v[1] not in seen and f.defs[v[1]].bb == at:
                seen.add(v[1])
                todo += [(x, p) for x, p in f.defs[v[1]].ops]
            else:
                out.append((v, at))
    return out
