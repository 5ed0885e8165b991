"""Freed memory: a forward may-dataflow behind every call that frees.

Facts are the SSA values that are the freed pointer and the memory cells that still hold it.  A cell is forgotten when it, or
anything its address is computed from, is written, or when a loop variable of its address moves on."""
import ir, absint, failcheck
from nullflow import Flow, shape, isnull, outlives

FREE = {'free': 0, 'realloc': 0, 'fclose': 0}
HARMLESS = {'printf', 'print_text', 'print_error', 'exit'}


def mentions(p, what):
    """does the path read a cell or a variable that what() names?"""
    if isinstance(p, tuple):
        if what(p):
            return True
        return any(mentions(x, what) for x in p)
    return False


def last_field(p):
    while p and p[0] == 'x':
        p = p[1]
    return p[2] if p and p[0] == 'f' else None


class Freed(Flow):
    def __init__(s, m):
        s.m = m
        s.F = {f.name: f for f in m.functions()}
        s.sym, s.memo = {}, {}
        s.mods = absint.modsets(m)
        s.wrappers = set()
        s.frees = {}            # function -> parameters it frees on every path
        n = -1
        while n != sum(map(len, s.frees.values())):
            n = sum(map(len, s.frees.values()))
            for f in s.F.values():
                for k in range(len(f.params)):
                    if k not in s.frees.get(f.name, ()) and s.must_free(f, k):
                        s.frees.setdefault(f.name, set()).add(k)
        s.left = {}

    def freed_arg(s, i):
        """arguments a call frees"""
        if i.callee in FREE:
            return {FREE[i.callee]}
        return s.frees.get(i.callee, set())

    def must_free(s, f, n):
        if not any(s.freed_arg(i) for i in f.calls()):
            return False
        seen, work = set(), [0]
        hit = False
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            done = False
            for i in f.blocks[b]:
                if i.op == 'call' and any(s.facts_of(f, i.args[k], {('a', n)}) for k in s.freed_arg(i)):
                    done = hit = True
                    break
                if i.op == 'call' and i.callee in ('exit', 'abort'):
                    done = True
                    break
            if done:
                continue
            t = f.blocks[b][-1]
            if t.op == 'ret':
                return False
            skip = None
            if t.op == 'br' and len(t.ops) == 3:
                d = s.decide(f, t.ops[0], {('a', n)})
                if d is not None:
                    skip = t.ops[1] if d else t.ops[2]
            work += [x for x in f.succ[b] if x != skip]
        return hit

    def kill(s, cur, p, strong=True):
        """the cell p is written"""
        lf = last_field(p)

        def w(x):
            return x[:1] == ('ld',) and (x[1] == p or lf is not None and last_field(x[1]) == lf)
        return {x for x in cur if x[0] in ('i', 'a', 'n') or x != p and not mentions(x, w)}

    def nonnull(s, fn, i):
        """values that are not NULL at a call: those a test in front of it says so of, and the new block of a realloc() that moved the old one"""
        r = set()
        for _, truth, cond in ir.guards(fn, i.bb):
            d = fn.defs[cond[1]] if isinstance(cond, list) and cond[0] == 'i' else cond
            if getattr(d, 'op', None) == 'icmp' and d.ops[0] in ('eq', 'ne') and (d.ops[0] == 'ne') == bool(truth):
                for a, b in ((d.ops[1], d.ops[2]), (d.ops[2], d.ops[1])):
                    if isnull(b) and isinstance(a, list) and a[0] == 'i':
                        r.add(a[1])
        if i.callee == 'realloc':
            r.add(i.id)
        return frozenset(('n', x) for x in r)

    def decide(s, fn, c, st, depth=0):
        if isinstance(c, list) and c[0] == 'i':
            d = fn.defs[c[1]]
            if d.op == 'icmp' and d.ops[0] in ('eq', 'ne'):
                for a, b in ((d.ops[1], d.ops[2]), (d.ops[2], d.ops[1])):
                    if isnull(b) and isinstance(a, list) and a[0] == 'i' and ('n', a[1]) in st:
                        return d.ops[0] == 'eq'
        return super().decide(fn, c, st, depth)

    def holds(s, fn, ld, call):
        """can the cell a pointer was loaded from still hold it at the call?"""
        p = s.path(fn, ld.ops[0])
        seen, work = set(), [(ld.bb, fn.blocks[ld.bb].index(ld) + 1)]
        while work:
            b, k = work.pop()
            alive = True
            for i in fn.blocks[b][k:]:
                if i is call:
                    return True
                if i is ld:
                    alive = False
                    break
                if i.op == 'store' and not s.kill({p}, s.path(fn, i.ops[1])):
                    alive = False
                    break
                if i.op == 'call' and i.callee in s.F and p[0] == 'g' and p[1] in s.mods(i.callee):
                    alive = False
                    break
            if alive:
                for x in fn.succ[b]:
                    if x not in seen:
                        seen.add(x)
                        work.append((x, 0))
        return False

    def uses(s, fn, bb, idx, st0):
        out = []
        seen = {}
        s.ret_facts = set()
        work = [(bb, idx, frozenset(st0), None)]
        rets = {i.ops[0][1] for i in fn.instrs() if i.op == 'ret' and i.ops and isinstance(i.ops[0], list) and i.ops[0][0] == 'i'}
        while work:
            b, k, st, rv = work.pop()
            if k == 0:
                old = seen.get((b, rv))
                if old is not None and st <= old:
                    continue
                st = seen[(b, rv)] = (old or frozenset()) | st
            cur = set(st)
            dead = False
            for i in fn.blocks[b][k:]:
                if not any(x[0] != 'n' for x in cur):
                    dead = True
                    break
                if i.op == 'phi':
                    continue
                if i.op == 'load':
                    if s.facts_of(fn, i.ops[0], cur):
                        out.append((i, 'read'))
                        dead = True
                        break
                    cur.discard(('i', i.id))
                    if s.path(fn, i.ops[0]) in cur:
                        cur.add(('i', i.id))
                elif i.op == 'store':
                    if s.facts_of(fn, i.ops[1], cur):
                        out.append((i, 'written'))
                        dead = True
                        break
                    p = s.path(fn, i.ops[1])
                    cur = s.kill(cur, p)
                    v = i.ops[0]
                    if isinstance(v, list) and v and v[0] in ('i', 'a') and s.facts_of(fn, v, cur):
                        cur.add(p)
                elif i.op in ('bitcast', 'freeze'):
                    cur.discard(('i', i.id))
                    if s.facts_of(fn, i.ops[0], cur):
                        cur.add(('i', i.id))
                elif i.op == 'call':
                    r = s.call(fn, i, cur)
                    if r:
                        out.append((i, r))
                        dead = True
                        break
                    cur.discard(('i', i.id))
                    if i.callee in ('exit', 'abort', '_exit'):
                        dead = True
                        break
                    g = s.mods(i.callee) if i.callee in s.F else ()
                    fs = s.fields(i.callee) if i.callee in s.F else ()
                    # a pointer variable handed to the call by its address may be set there
                    adr = [s.path(fn, a) for a in i.args if isinstance(a, list) and a and a[0] in ('g', 'gep', 'i')]

                    def w(x):
                        return x[:1] == ('g',) and len(x) == 2 and x[1] in g or x[:1] == ('f',) and len(x) > 2 and x[2] in fs
                    cur = {x for x in cur if x[0] in ('i', 'a', 'n') or not mentions(x, w) and x not in adr}
            if dead:
                continue
            t = fn.blocks[b][-1]
            if t.op in ('ret', 'unreachable'):
                v = rv if rv is not None else s.const(fn, t.ops[0]) if t.ops else None
                if t.op == 'ret' and not (v is not None and fn.ret != 'ptr' and failcheck.failing(fn, v)):
                    s.ret_facts |= {x for x in cur if s.is_global(x)}
                continue
            only = None
            if t.op == 'br' and len(t.ops) == 3:
                only = s.decide(fn, t.ops[0], cur)        # the freed pointer is not NULL
            for x in fn.succ[b]:
                if only is not None and x == (t.ops[1] if only else t.ops[2]):
                    continue
                add, gone = set(), set()
                r2 = rv
                for i in fn.blocks[x]:
                    if i.op != 'phi':
                        break
                    gone.add(i.id)
                    for v, p in i.ops:
                        if p == b:
                            if s.facts_of(fn, v, cur):
                                add.add(('i', i.id))
                            if isinstance(v, list) and v[0] == 'i' and ('n', v[1]) in cur:
                                add.add(('n', i.id))
                            if i.id in rets:
                                r2 = rv if isinstance(v, list) and v[0] == 'i' and v[1] in rets and fn.defs[v[1]].op == 'phi' else s.const(fn, v)

                def moved(y):
                    return y[:1] == ('phi',) and len(y) == 3 and y[1] in gone
                nxt = {y for y in cur if not (y[0] in ('i', 'n') and y[1] in gone) and (y[0] in ('i', 'a', 'n') or not mentions(y, moved))} | add
                if any(x[0] != 'n' for x in nxt):
                    work.append((x, 0, frozenset(nxt), r2))
        return out

    def is_global(s, x):
        """is the cell named by globals and fields alone?"""
        while x[0] == 'f' or x[0] == 'p' and isinstance(x[1], tuple) and x[1][0] == 'ld':
            x = x[1] if x[0] == 'f' else x[1][1]
        return x[0] == 'g'

    def fields(s, name):
        """structure fields that a function, or one it calls, writes"""
        if not hasattr(s, '_fields'):
            own, calls = {}, {}
            for f in s.F.values():
                own[f.name] = {last_field(s.path(f, i.ops[1])) for i in f.instrs() if i.op == 'store'} - {None}
                calls[f.name] = {i.callee for i in f.calls() if i.callee in s.F}
            ch = True
            while ch:
                ch = False
                for n in own:
                    for c in calls[n]:
                        if not own[c] <= own[n]:
                            own[n] |= own[c]
                            ch = True
            s._fields = own
        return s._fields[name]

    def call(s, fn, i, cur):
        c = i.callee
        hit = [n for n, a in enumerate(i.args) if s.facts_of(fn, a, cur)]
        if c in FREE:
            return 'freed again' if FREE[c] in hit else None
        if c in s.F:
            if c in HARMLESS:
                return 'printed' if hit else None
            entry = {('a', n) for n in hit} | {x for x in cur if s.is_global(x)}
            if not entry:
                return None
            bad = s.summary(c, frozenset(entry))
            return 'used by %s() (%s)' % (c, bad) if bad else None
        if hit and c is not None and not c.startswith('llvm.'):
            return 'passed to %s()' % c
        return None

    def summary(s, name, entry):
        k = (name, entry)
        if k in s.memo:
            return s.memo[k]
        s.memo[k] = None
        keep = getattr(s, 'ret_facts', set())
        u = s.uses(s.F[name], 0, 0, entry)
        s.ret_facts = keep
        s.memo[k] = '%s:%d' % (u[0][0].file, u[0][0].line) if u else None
        return s.memo[k]

    def start(s, fn, i, n):
        """facts behind a call that frees its argument n"""
        v = i.args[n]
        st = set()
        if isinstance(v, list) and v:
            if v[0] in ('i', 'a'):
                st.add((v[0], v[1]))
                if v[0] == 'i':
                    d = fn.defs[v[1]]
                    if d.op == 'load' and s.holds(fn, d, i):
                        st.add(s.path(fn, d.ops[0]))
        return st

    def run(s):
        """[(function, call, use, what)] and the number of frees"""
        res, n = [], 0
        todo = [(f, i, None) for f in s.F.values() for i in f.calls() if s.freed_arg(i)]
        seen = set()
        while todo:
            f, i, facts = todo.pop()
            if facts is None:
                facts = set()
                for k in s.freed_arg(i):
                    facts |= s.start(f, i, k)
                n += 1
            if (f.name, i.id, frozenset(facts)) in seen:
                continue
            seen.add((f.name, i.id, frozenset(facts)))
            if i.callee == 'realloc':
                # the old block is gone when the new one is there: the flow ends where the result takes its place
                pass
            for u, w in s.uses(f, i.bb, f.blocks[i.bb].index(i) + 1, facts | s.nonnull(f, i)):
                res.append((f, i, u, w))
            if s.ret_facts:
                rf = frozenset(s.ret_facts)
                for g in s.F.values():
                    for c in g.calls(f.name):
                        todo.append((g, c, set(rf)))
        return res, n
