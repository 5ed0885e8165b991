"""What a data directive writes: its handler run abstractly for operands of known kind whose values lie in known intervals."""
import re
import skips, directives

INF = float('inf')
OUT = 'g_file_out_ptr'
CMP = {'eq', 'ne', 'slt', 'sgt', 'sle', 'sge'}
# records that carry no data
NEUTRAL = set('kft')


class Data(skips.Skips):
    def outcomes(s, fname, word, kinds, vals, extra=None, limit=6000, fold=True):
        """{('error',) | ('ok', (records))}; a record is (letter, argument symbols); repetitions of a record are folded"""
        s.kinds, s.vals, s.extra, s.fold = kinds, vals, extra or {}, fold
        s.memo, s.visited, s.called, s.matched, s.acts = {}, set(), set(), set(), set()
        s.frames = [()]
        s.word = word
        s.depth = 0
        out = set()
        for v, g, n, tr in s.explore(s.F[fname], {}, 0, (), limit):
            out.add(('unknown',) if v == 'unknown' else ('error',) if v == 0 else ('ok', tr) if v == 1 else ('other', str(v)))
        return out

    def explore(s, f, env0, n0, tr0, limit):
        """{(value returned, globals followed, operands read, records)} of f; env0: its arguments (-1 - k) and globals ('@name')"""
        out = set()
        keep = lambda e, x: tuple(sorted(((a, v) for a, v in e.items() if v is not None and (isinstance(a, str) or a < 0 or x is not None and a in s.live(f, x))), key=str))
        work = [(0, None, keep(env0, None), n0, tr0)]
        seen = set()
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > limit:
                return {('unknown', (), 0, ())}
            b, pb, envt, n, tr = st
            env = dict(envt)
            new = {}
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                for v, p in i.ops:
                    if p == pb:
                        new[i.id] = s.v(f, v, env)
            for q, v in new.items():
                env.pop(q, None)
                if v is not None:
                    env[q] = v
            states = [(env, n, tr)]
            for i in f.blocks[b]:
                if i.op == 'phi':
                    continue
                nx = []
                for e, n2, t2 in states:
                    nx += s.one(f, i, e, n2, t2)
                states = nx
            t = f.blocks[b][-1]
            for env, n2, t2 in states:
                if t.op == 'ret':
                    out.add((s.v(f, t.ops[0], env) if t.ops else None, tuple(sorted((a, v) for a, v in env.items() if isinstance(a, str))), n2, t2))
                    continue
                if t.op == 'br' and len(t.ops) == 3:
                    c = s.v(f, t.ops[0], env)
                    nb = [t.ops[1], t.ops[2]] if not isinstance(c, int) else [t.ops[1] if c else t.ops[2]]
                elif t.op == 'switch':
                    c = s.v(f, t.ops[0], env)
                    nb = f.succ[b] if not isinstance(c, int) else [next((d for v, d in t.ops[2:] if v == c), t.ops[1])]
                else:
                    nb = f.succ[b]
                for x in nb:
                    # values are kept while they may still be used
                    work.append((x, b, keep(env, x), n2, t2))
        return out

    def live(s, f, b):
        """ids that may be used in b or behind it"""
        k = f.name
        if k not in s.livemap:
            use, gen = {}, {}
            for x, blk in enumerate(f.blocks):
                u, d = set(), set()
                for i in blk:
                    for o in ops(i):
                        u.add(o)
                    d.add(i.id)
                use[x], gen[x] = u, d
            live = {x: set(use[x]) for x in use}
            ch = True
            while ch:
                ch = False
                for x in reversed(range(len(f.blocks))):
                    new = set(use[x])
                    for y in f.succ[x]:
                        new |= live[y]
                    if new != live[x]:
                        live[x] = new
                        ch = True
            s.livemap[k] = live
        return s.livemap[k][b]

    def interval(s, v):
        if isinstance(v, int):
            return v, v
        if isinstance(v, str) and v[0] == 'V' and v[1:].isdigit():
            return s.vals.get(int(v[1:]), (-2 ** 31, 2 ** 31 - 1))
        if isinstance(v, str) and v == 'len':
            return s.extra.get('len', (0, INF))
        return None

    def v(s, f, v, env):
        x = s.v0(f, v, env)
        if x is None and isinstance(v, list) and v and v[0] in ('g', 'gep', 'i') and (v[0] != 'i' or f.defs[v[1]].op in ('getelementptr', 'alloca')):
            w = s.where(f, v, env)
            if w:
                return ('l', 'g_label', w[1]) if w[0] == 'text' else ('cell', w[1])
        return x

    def v0(s, f, v, env):
        if isinstance(v, int):
            return v
        if not isinstance(v, list) or not v:
            return None
        if v[0] == 'null':
            return 0
        if v[0] == 'a':
            return env.get(-1 - v[1])
        if v[0] != 'i':
            return None
        if v[1] in env:
            return env[v[1]]
        d = f.defs[v[1]]
        if d.op in ('sext', 'zext', 'freeze'):
            return s.v(f, d.ops[0], env)
        if d.op == 'trunc':
            x = s.v(f, d.ops[0], env)
            return x if isinstance(x, (int, str)) else None
        if d.op == 'icmp':
            p, a, b = d.ops
            a, b = s.v(f, a, env), s.v(f, b, env)
            if a is None or b is None:
                return None
            if isinstance(a, str) and a == b:
                return int(p in ('eq', 'sle', 'sge', 'ule', 'uge'))
            if isinstance(a, tuple) or isinstance(b, tuple):
                return int(p == 'ne') if 0 in (a, b) and p in ('eq', 'ne') else None
            x, y = s.interval(a), s.interval(b)
            if x is None or y is None:
                return None
            lt, gt, eq = x[1] < y[0], x[0] > y[1], x[0] == x[1] == y[0] == y[1]
            apart = lt or gt
            p2 = {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(p, p)
            if p != p2 and (x[0] < 0 or y[0] < 0):
                return None
            r = {'eq': (eq, apart), 'ne': (apart, eq), 'slt': (lt, x[0] >= y[1]), 'sgt': (gt, x[1] <= y[0]), 'sle': (x[1] <= y[0], gt), 'sge': (x[0] >= y[1], lt)}[p2]
            return 1 if r[0] else 0 if r[1] else None
        if d.op in ('and', 'or', 'xor') and d.ty == 'i1':
            a, b = s.v(f, d.ops[0], env), s.v(f, d.ops[1], env)
            if isinstance(a, int) and isinstance(b, int):
                return a & b if d.op == 'and' else a | b if d.op == 'or' else a ^ b
        if d.op == 'select':
            c = s.v(f, d.ops[0], env)
            return s.v(f, d.ops[1] if c else d.ops[2], env) if isinstance(c, int) else None
        return None

    def one(s, f, i, env, n, tr):
        e = dict(env)
        e.pop(i.id, None)
        if i.op == 'load':
            p = i.ops[0]
            if p == ['g', 'g_parsed_int']:
                e[i.id] = 'V%d' % n
            elif p == ['g', 'g_latest_stack']:
                e[i.id] = e.get('@g_latest_stack', 'K%d' % n)
            elif isinstance(p, list) and p[0] == 'g' and p[1] in s.extra:
                e[i.id] = e['@' + p[1]] if '@' + p[1] in e else s.extra[p[1]]
            elif s.base(f, p) and s.base(f, p)[0] == 'g' and s.base(f, p)[1] in s.extra and i.ty == 'i8':
                e[i.id] = s.extra[s.base(f, p)[1]]
            elif (s.where(f, p, env) or ('',))[0] == 'text' and i.ty == 'i8':
                e[i.id] = 'T%d.%d' % (n, s.where(f, p, env)[1])
            elif s.base(f, p) == ('g', 'g_label') or s.via(f, p, 'g_label'):
                e[i.id] = 'T%d' % n
            elif (s.where(f, p, env) or ('',))[0] == 'cell':
                x = e.get(s.where(f, p, env)[1])
                if x is not None:
                    e[i.id] = x
            else:
                x = s.consts.load(f, i, lambda q: s.num(s.v(f, q, env)))
                if x is not None:
                    e[i.id] = x
                    return [(e, n, tr)]
                t = s.text(f, p, True)
                if t is not None and i.ty == 'i8':
                    e[i.id] = ord(t[0]) if t else 0
            return [(e, n, tr)]
        if i.op == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] == 'g' and i.ops[1][1] in s.extra:
            e['@' + i.ops[1][1]] = s.v(f, i.ops[0], env)
            return [(e, n, tr)]
        if i.op == 'store' and (s.where(f, i.ops[1], env) or ('',))[0] == 'cell':
            e[s.where(f, i.ops[1], env)[1]] = s.v(f, i.ops[0], env)
            return [(e, n, tr)]
        if i.op in ('add', 'sub'):
            a, b = s.num(s.v(f, i.ops[0], e)), s.num(s.v(f, i.ops[1], e))
            if isinstance(a, int) and isinstance(b, int) and abs(a) < 10:
                e[i.id] = a + b if i.op == 'add' else a - b
            return [(e, n, tr)]
        if i.op in ('shl', 'or', 'and', 'zext', 'sext', 'trunc', 'mul'):
            x = [s.v(f, o, e) for o in i.ops if isinstance(o, list)]
            x = [q for q in x if isinstance(q, str) and q[0] == 'T']
            if x and i.op not in ('zext', 'sext', 'trunc'):
                e[i.id] = x[0].split('.')[0]
            return [(e, n, tr)]
        if i.op == 'call':
            c = i.callee
            if c == 'input_number':
                e[i.id] = s.kinds[n] if n < len(s.kinds) else 0
                e.pop('@g_latest_stack', None)
                return [(e, n + 1, tr)]
            if c == 'fprintf':
                h = i.args[0]
                if isinstance(h, list) and h[0] == 'i' and f.defs[h[1]].op == 'load' and f.defs[h[1]].ops[0] == ['g', OUT]:
                    return [(e, n, s.record(f, i, e, tr, n))]
                return [(e, n, tr)]
            if c == 'strlen' and s.base(f, i.args[0]) == ('g', 'g_label'):
                e[i.id] = 'len'
                return [(e, n, tr)]
            if c in ('stack_create_stack_stack',):
                e[i.id] = 1
                a = s.v(f, i.args[0], env)
                e['@g_latest_stack'] = "copy of %s" % a if isinstance(a, str) else '?'
                return [(e, n, tr)]
            if s.reads(c):
                return s.inline(f, i, e, n, tr)
            r = s.step(f, i, True, e, None)
            return [(e2, n, tr) for _, e2 in r]
        return [(e, n, tr)]

    def num(s, v):
        if isinstance(v, str):
            x = s.interval(v)
            if x and x[0] == x[1] and abs(x[0]) < 10:
                return int(x[0])
        return v

    def where(s, f, p, e):
        """('@text', offset in the string operand) | ('%cell',) | None: what the address p is"""
        off = 0
        for _ in range(12):
            if not isinstance(p, list) or not p:
                return None
            if p[0] == 'g':
                return ('text', off) if p[1] == 'g_label' else None
            if p[0] in ('gep',) or p[0] == 'i' and p[1] not in e and f.defs[p[1]].op == 'getelementptr':
                st, q = (p[2], p[1]) if p[0] == 'gep' else (f.defs[p[1]].ops[1], f.defs[p[1]].ops[0])
                for x in st:
                    k = s.v(f, x[1], e) if x[0] == 'x' else None
                    if not isinstance(k, int):
                        return None
                    off += k * x[3]
                p = q
                continue
            if p[0] == 'a' or p[0] == 'i' and p[1] in e:
                v = e.get(-1 - p[1] if p[0] == 'a' else p[1])
                if isinstance(v, tuple) and v[0] in ('l', 'cell'):
                    return ('text', off + v[2]) if v[0] == 'l' else ('cell', v[1]) if off == 0 else None
                return None
            if p[0] == 'i' and f.defs[p[1]].op == 'alloca':
                return ('cell', '%%%d.%s.%d' % (s.depth, f.name, p[1])) if off == 0 else None
            return None
        return None

    def via(s, f, p, g):
        """through the pointer kept in g"""
        while isinstance(p, list) and p and p[0] == 'i' and f.defs[p[1]].op == 'getelementptr':
            p = f.defs[p[1]].ops[0]
        return isinstance(p, list) and p and p[0] == 'i' and f.defs[p[1]].op == 'load' and f.defs[p[1]].ops[0] == ['g', g]

    def reads(s, n):
        """a function added to the code that deals with operands or records: followed"""
        return n not in s.old and n in s.F and s.depth < 6

    def inline(s, f, call, env, n, tr):
        g = s.F[call.callee]
        e0 = {a: v for a, v in env.items() if isinstance(a, str)}
        for k, a in enumerate(call.args):
            v = ('s', a[1]) if isinstance(a, list) and a and a[0] == 's' else s.v(f, a, env)
            if v is not None:
                e0[-1 - k] = v
        out = []
        s.depth += 1
        for v, gl, n2, t2 in s.explore(g, e0, n, tr, 500):
            e2 = {a: x for a, x in env.items() if not isinstance(a, str)}
            e2.update((a, x) for a, x in gl if not a.startswith('%%%d.' % s.depth))
            e2.pop(call.id, None)
            if v == 'unknown':
                v = None
            if v is not None:
                e2[call.id] = v
            out.append((e2, n2, t2))
        s.depth -= 1
        return out

    def record(s, f, i, e, tr, n):
        val = s.v
        fm = i.args[1]
        if isinstance(fm, list) and fm and fm[0] == 'a':
            fm = list(e.get(-1 - fm[1]) or ['?', '?'])
        if isinstance(fm, list) and fm and fm[0] == 'i':
            # a choice between formats
            d = f.defs[fm[1]]
            c = val(f, d.ops[0], e) if d.op == 'select' else None
            fm = d.ops[1 if c else 2] if isinstance(c, int) else ['?', '?']
        text = fm[1] if isinstance(fm, list) and fm[0] == 's' else '?'
        ar, k = [], 2
        for x in re.findall('%[-0-9.]*[l]*([a-zA-Z])', text):
            a = i.args[k] if k < len(i.args) else None
            k += 1
            if x == 'c':
                c = s.num(s.v(f, a, e))
                if not isinstance(c, int):
                    return tr + (('?', ()),)
                text = text.replace('%c', chr(c & 127), 1)
            else:
                ar.append(a)
        k = 0
        for part in re.findall(r'([A-Za-z<>?])((?:%[0-9.]*[a-z]+ ?)*)', text):
            na = part[1].count('%')
            args = tuple(s.arg(f, a, e, n) for a in ar[k:k + na])
            k += na
            if part[0] in NEUTRAL and part[0] != '?':
                continue
            r = (part[0], args)
            if not s.fold or not tr or tr[-1] != r:
                tr = tr + (r,)
        if len(tr) > 12:
            tr = tr[:12]
        return tr

    def arg(s, f, a, e, n):
        if s.base(f, a) == ('g', 'g_label') or s.via(f, a, 'g_label') or isinstance(a, list) and a[0] == 'i' and f.defs[a[1]].op == 'load' and f.defs[a[1]].ops[0] == ['g', 'g_label']:
            return 'L%d' % n
        x = s.v(f, a, e)
        if isinstance(x, tuple):
            return 'L%d' % n if x[0] == 'l' and x[2] == 0 else '?'
        return x if x is not None else '?'

    def __init__(s, m):
        super().__init__(m)
        s.livemap, s.depth, s.fold, s.old = {}, 0, True, frozenset()


def ops(i):
    out = []
    st = list(i.ops) + (list(i.args) if i.op == 'call' else [])
    while st:
        o = st.pop()
        if isinstance(o, list) and o:
            if o[0] == 'i' and len(o) == 2 and isinstance(o[1], int):
                out.append(o[1])
            else:
                st += [x for x in o if isinstance(x, (list, tuple))]
        elif isinstance(o, tuple):
            st += [x for x in o if isinstance(x, (list, tuple))]
    return out
