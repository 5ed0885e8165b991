"""Null flow: where the NULL of a failed allocation or fopen() gets to.

A forward may-dataflow starts behind the call: the facts are the SSA values and memory cells that hold the NULL.  A branch on the test of
one of them ends the flow on its non-NULL side.  Where a fact is used as an address (by an access, a library function or a function
that does so with its parameter or the cell), the NULL is used."""
import ir, absint

SAFE = {'free', 'realloc', 'printf', 'exit', 'print_text', 'print_error'}       # take NULL, or do not get the pointer as an address
SRC = {'malloc', 'calloc', 'realloc', 'strdup', 'fopen', 'tmpfile', 'fdopen', 'freopen'}


def shape(e):
    if isinstance(e, tuple):
        if e and e[0] == 'ld':
            return ('ld', shape(e[1]))
        return tuple(shape(x) for x in e)
    return e


def outlives(x):
    """does the cell outlive the function?"""
    while x[0] in ('f', 'x'):
        x = x[1]
    return x[0] == 'g' or x[0] == 'p' and x[1] and not (isinstance(x[1], tuple) and x[1][0] == 'addr' and x[1][1][0] == 'l')


def isnull(v):
    return v == 0 and not isinstance(v, bool) or isinstance(v, list) and v and v[0] == 'null'


class Flow:
    def __init__(s, m):
        s.m = m
        s.F = {f.name: f for f in m.functions()}
        s.sym = {}
        s.memo = {}
        s.mods = absint.modsets(m)
        s.wrappers = set()
        n = -1
        while n != len(s.wrappers):
            n = len(s.wrappers)
            for f in s.F.values():
                if f.ret == 'ptr' and f.name not in s.wrappers and any(s.hands_on(f, i) for i in f.calls() if i.callee in SRC or i.callee in s.wrappers):
                    s.wrappers.add(f.name)

    def hands_on(s, f, i):
        """does the function return NULL when this call does?"""
        s.uses(f, i.bb, f.blocks[i.bb].index(i) + 1, {('i', i.id)})
        return bool(s.given) or any(v == 0 or v == '?' for v in s.ends)

    def const(s, fn, v, depth=0):
        """the constant a value always is, or None"""
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        if isnull(v):
            return 0
        if isinstance(v, list) and v and v[0] == 'i' and depth < 4:
            d = fn.defs[v[1]]
            if d.op == 'call' and d.callee in s.F:
                g = s.F[d.callee]
                rs = {s.const(g, i.ops[0], depth + 1) for i in g.instrs() if i.op == 'ret' and i.ops}
                if len(rs) == 1:
                    return rs.pop()
        return None

    def probe(s, fn, i):
        """is the file only opened to see whether it exists?"""
        todo, seen = [i.id], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for d in fn.instrs():
                v = ['i', x]
                if d.op == 'phi':
                    if any(o[0] == v for o in d.ops):
                        todo.append(d.id)
                elif d.op == 'call' and v in d.args:
                    if d.callee != 'fclose':
                        return False
                elif v in d.ops and d.op not in ('icmp', 'call'):
                    return False
        return True

    def path(s, fn, v):
        if fn.name not in s.sym:
            s.sym[fn.name] = ir.Sym(fn)
        return shape(s.sym[fn.name].path(v))

    def facts_of(s, fn, v, st):
        """is v the NULL?"""
        while isinstance(v, list) and v:
            if v[0] == 'i':
                if ('i', v[1]) in st:
                    return True
                d = fn.defs[v[1]]
                if d.op in ('bitcast', 'getelementptr', 'freeze'):
                    v = d.ops[0]
                    continue
                return False
            if v[0] == 'a':
                return ('a', v[1]) in st
            if v[0] == 'gep':
                v = v[1]
                continue
            return False
        return False

    def uses(s, fn, bb, idx, st0):
        """[(instr, what)]: uses of the NULL on the paths behind position idx of block bb.
        s.tests: [(condition, its truth for the NULL)]; s.kept: returns with the NULL untested in memory; s.given: returns of the NULL itself"""
        out, tests, kept, given = [], [], [], []
        s.left = set()          # cells that hold the NULL when the function returns
        ends = set()
        src = fn.blocks[bb][idx - 1] if idx else None
        seen = {}
        rets = {i.ops[0][1] for i in fn.instrs() if i.op == 'ret' and i.ops and isinstance(i.ops[0], list) and i.ops[0][0] == 'i'}
        work = [(bb, idx, frozenset(st0), False, None)]
        while work:
            b, k, st, tested, rv = work.pop()
            if k == 0:
                old = seen.get((b, tested, rv))
                if old is not None and st <= old:
                    continue
                st = seen[(b, tested, rv)] = (old or frozenset()) | st
            cur = set(st)
            dead = False
            for i in fn.blocks[b][k:]:
                if not cur and not tested:
                    dead = True
                    break
                if i is src and tested:
                    ends.add(('again',))
                    dead = True
                    break
                if i.op == 'phi':
                    continue
                if i.op == 'load':
                    if s.facts_of(fn, i.ops[0], cur):
                        out.append((i, 'read'))
                        dead = True
                        break
                    cur.discard(('i', i.id))
                    if s.path(fn, i.ops[0]) in cur:
                        cur.add(('i', i.id))
                elif i.op == 'store':
                    if s.facts_of(fn, i.ops[1], cur):
                        out.append((i, 'written through'))
                        dead = True
                        break
                    p = s.path(fn, i.ops[1])
                    if s.facts_of(fn, i.ops[0], cur) and not (isinstance(i.ops[0], list) and i.ops[0][0] == 'i' and fn.defs[i.ops[0][1]].op == 'getelementptr'):
                        cur.add(p)
                    else:
                        cur.discard(p)
                elif i.op in ('bitcast', 'freeze'):
                    if s.facts_of(fn, i.ops[0], cur):
                        cur.add(('i', i.id))
                elif i.op == 'call':
                    r = s.call(fn, i, cur)
                    if r:
                        out.append((i, r))
                        dead = True
                        break
                    if i.callee in ('exit', 'abort', '_exit'):
                        dead = True
                        break
                    g = s.mods(i.callee) if i.callee in s.F else None
                    if g:
                        cur = {x for x in cur if not (x[0] == 'g' and x[1] in g)}
            if dead:
                continue
            t = fn.blocks[b][-1]
            if t.op in ('ret', 'unreachable'):
                v = rv
                if v is None and t.op == 'ret' and t.ops:
                    v = 0 if s.facts_of(fn, t.ops[0], cur) else s.const(fn, t.ops[0])
                if v is None:
                    v = '?'
                if t.op == 'ret':
                    s.left |= {x for x in cur if x[0] in 'gfp'}
                if tested:
                    if t.op == 'ret':
                        ends.add(v if t.ops else ('void',))
                    continue
                if t.op == 'ret' and t.ops and s.facts_of(fn, t.ops[0], cur):
                    given.append(t)
                elif t.op == 'ret' and any(outlives(x) for x in cur) and (v == '?' or (v == 0 if fn.name == 'main' else v > 0)):
                    kept.append(t)
                continue
            only = None
            if t.op == 'br' and len(t.ops) == 3:
                only = s.decide(fn, t.ops[0], cur)
                if only is not None:
                    tests.append((fn.defs[t.ops[0][1]], int(only)))
                    # behind its test, the NULL is the business of the rule about the outcome; what it is used for is still looked at
                    tested = True
            for x in fn.succ[b]:
                if only is not None and x != (t.ops[1] if only else t.ops[2]):
                    continue
                nxt = set(cur)
                add, rem = set(), set()
                r2 = rv
                for i in fn.blocks[x]:
                    if i.op != 'phi':
                        break
                    for v, p in i.ops:
                        if p == b:
                            (add if s.facts_of(fn, v, cur) else rem).add(('i', i.id))
                            if i.id in rets:
                                r2 = rv if isinstance(v, list) and v[0] == 'i' and v[1] in rets and fn.defs[v[1]].op == 'phi' else s.const(fn, v)
                nxt = (nxt - rem) | add
                # values computed anew in x are not the old ones
                if nxt or tested:
                    work.append((x, 0, frozenset(nxt), tested, r2))
        s.tests, s.kept, s.given, s.ends = tests, kept, given, ends
        return out

    def decide(s, fn, c, st, depth=0):
        """truth of a condition for the NULL; None: not decided"""
        if not (isinstance(c, list) and c[0] == 'i') or depth > 8:
            return None
        d = fn.defs[c[1]]
        if d.op == 'icmp' and d.ops[0] in ('eq', 'ne'):
            a, b = d.ops[1], d.ops[2]
            if isnull(a):
                a, b = b, a
            if isnull(b) and s.facts_of(fn, a, st):
                return d.ops[0] == 'eq'
            if isnull(b) and d.ops[1] is not None and isinstance(a, list) and a[0] == 'i' and fn.defs[a[1]].op == 'zext':
                r = s.decide(fn, fn.defs[a[1]].ops[0], st, depth + 1)
                return None if r is None else (not r if d.ops[0] == 'eq' else r)
        if d.op == 'xor' and d.ops[1] in (1, True, -1):
            r = s.decide(fn, d.ops[0], st, depth + 1)
            return None if r is None else not r
        if d.op == 'select':
            r = s.decide(fn, d.ops[0], st, depth + 1)
            if r is not None:
                v = d.ops[1] if r else d.ops[2]
                if isinstance(v, (bool, int)):
                    return bool(v)
                return s.decide(fn, v, st, depth + 1)
            if d.ops[1] in (1, True, -1) and s.decide(fn, d.ops[2], st, depth + 1) is True:
                return True
            if d.ops[2] in (0, False) and s.decide(fn, d.ops[1], st, depth + 1) is False:
                return False
        if d.op in ('or', 'and'):
            rs = [s.decide(fn, x, st, depth + 1) for x in d.ops]
            if d.op == 'or' and True in rs:
                return True
            if d.op == 'and' and False in rs:
                return False
        return None

    def call(s, fn, i, cur):
        c = i.callee
        null = [n for n, a in enumerate(i.args) if s.facts_of(fn, a, cur)]
        if c in s.F:
            entry = {('a', n) for n in null} | {x for x in cur if x[0] == 'g'}
            if not entry or c in ('print_text', 'print_error'):
                return None
            bad = s.summary(c, frozenset(entry))
            return 'used by %s() (%s)' % (c, bad) if bad else None
        if null and c is not None and c not in SAFE and not c.startswith('llvm.lifetime') and not c.startswith('llvm.dbg'):
            return 'passed to %s()' % c
        return None

    def summary(s, name, entry):
        k = (name, entry)
        if k in s.memo:
            return s.memo[k]
        s.memo[k] = None
        keep = {a: getattr(s, a, None) for a in ('left', 'tests', 'kept', 'given', 'ends')}
        u = s.uses(s.F[name], 0, 0, entry)
        s.__dict__.update(keep)
        s.memo[k] = '%s:%d' % (u[0][0].file, u[0][0].line) if u else None
        return s.memo[k]

    def exits(s):
        """the functions called at exit"""
        return {a[1] for f in s.F.values() for i in f.calls('atexit') for a in i.args if isinstance(a, list) and a[0] in ('g', 'fn', 'f') and a[1] in s.F}

    def at_exit(s, f):
        """uses of the NULLs the last flow left in global variables by the functions called at exit"""
        facts = set()
        for x in s.left:
            if x[0] == 'g':
                facts.add(x)
            elif x[0] == 'p' and isinstance(x[1], tuple) and x[1][0] == 'arg':
                for g in s.F.values():
                    for i in g.calls(f.name):
                        a = i.args[x[1][1]]
                        if isinstance(a, list) and a[0] == 'g':
                            facts.add(('g', a[1]))
        return [(e, b) for e in sorted(s.exits()) for x in sorted(facts) for b in [s.summary(e, frozenset({x}))] if b]

    def sources(s, names):
        for f in s.F.values():
            for i in f.calls():
                if i.callee in names:
                    yield f, i
